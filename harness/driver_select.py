"""Action selectors on generated tables of action values (C13, C14)."""
from vlib import *
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector

LN2 = math.log(2.0)


def selector(sel, c, r):
    seed = r.choice([None, None, r.randrange(10 ** 6)])
    if sel == "max":
        return MaxActionSelector(seed=seed) if seed is not None or r.random() < 0.5 else MaxActionSelector()
    t = c / LN2
    return SoftmaxActionSelector(temperature=t, seed=seed) if seed is not None else SoftmaxActionSelector(temperature=t)


def row_k(r, na, near):
    """Values in units: gaps of at most 10 below the best, or far below; sentinels mixed in."""
    mode = r.random()
    if mode < 0.08:
        return [NAN] * na
    top = r.randint(-20, 20)
    out = []
    for _ in range(na):
        x = r.random()
        if x < 0.12 and mode < 0.6:
            out.append(NINF)
        elif x < 0.24 and 0.3 < mode:
            out.append(NAN)
        elif x < 0.34:
            out.append(top - r.choice([70, 200, 5000]))
        else:
            out.append(top - r.randint(0, near))
    if all(v in (NAN, NINF) for v in out):
        out[r.randrange(na)] = top
    fin = [v for v in out if v not in (NAN, NINF)]
    if max(fin) != top:                       # keep the gaps relative to the best value
        out[out.index(max(fin))] = top
    return out


def to_float(k, c, shift):
    return np.nan if k == NAN else -np.inf if k == NINF else shift + c * k


def table(w, r, sel, ns, na):
    c = 2.0 ** r.choice([-30, -14, -7, -4, -1, 0, 0, 0, 2, 5, 9, 20])
    ks = [row_k(r, na, r.choice([0, 1, 4, 10])) for _ in range(ns)]
    if all(v == NAN for row in ks for v in row):
        ks[0] = [0] * na
    shift = [r.choice([0.0, 0.0, 0.0, c * 2 ** 20, -c * 2 ** 20, c * 2.0 ** 38]) for _ in ks]
    for i, row in enumerate(ks):              # values so large that they cannot be added up
        if len({k for k in row if k not in (NAN, NINF)}) == 1 and r.random() < 0.4:
            shift[i] = r.choice([1, -1]) * 1.5e308
    q = np.array([[to_float(k, c, sh) for k in row] for row, sh in zip(ks, shift)])
    if sel == "max" and r.random() < 0.5:     # arbitrary values, logged as ranks
        base = [r.choice([1e-9, 1.0, 1e5, 1e300, 1.7e308]) for _ in range(ns)]
        q = np.array([[v if not math.isfinite(v) else r.choice([-1, 1]) * b * r.choice([0.1, 0.1 + 1e-15, 0.2, 0.30000000000000004, 0.3])
                       for v in row] for row, b in zip(q, base)])
        rk = ranks(q)
        ks = [[NAN if v == -2 else NINF if v == -1 else v for v in row] for row in rk]
    s = selector(sel, c, r)
    q0 = q.copy()
    p, e1 = call(s.get_pi_p, q)
    pi, e2 = call(s.get_pi, q)
    w.ev("table", sel=sel, q=ks, exc=e1 or e2, p=[] if e1 else FM(p, 100000), pi=[] if e2 else IV(pi),
         same=int(np.array_equal(q, q0, equal_nan=True)))


def allinf(w, r):
    na = r.randint(1, 5)
    q = np.array([[1.0] + [0.0] * (na - 1), [-np.inf] * na])
    s = MaxActionSelector()
    p, e1 = call(s.get_pi_p, q)
    pi, e2 = call(s.get_pi, q)
    w.ev("table", sel="max", q=[[1] + [0] * (na - 1), [NINF] * na], exc=e1 or e2, p=[] if e1 else FM(p, 100000),
         pi=[] if e2 else IV(pi), same=1)


def sample(w, r, sel):
    na = r.randint(2, 7)
    c = 2.0 ** r.choice([-4, 0, 0, 3])
    row = row_k(r, na, r.choice([0, 1, 3]))
    while all(v == NAN for v in row):
        row = row_k(r, na, 1)
    q1 = [to_float(k, c, 0.0) for k in row]
    s = selector(sel, c, r)
    reps, ns = r.choice([(1, 1200), (40, 30), (300, 4)])
    q = np.array([q1] * ns)
    counts = [0] * na
    exc = ""
    for _ in range(reps):
        pi, exc = call(s.get_pi, q)
        if exc:
            break
        for a in IV(pi):
            if not 0 <= a < na:
                raise Malformed("action %d of %d" % (a, na))
            counts[a] += 1
    # weights are multiples of 2^(10-3) here unless negligible
    w.ev("sample", sel=sel, row=row, n=reps * ns, counts=counts, wdiv=128, exc=exc)


def rare(w, r):
    """Actions of probability about one in a thousand are taken that often."""
    c = 2.0 ** r.choice([-4, 0, 3])
    top = r.randint(-5, 5)
    row = r.choice([[top, top - 10], [top - 10, top], [top - 10, top, top - 10], [top - 9, top, NINF]])
    s = selector("softmax", c, r)
    q = np.array([[to_float(k, c, 0.0) for k in row]] * 1000)
    counts = [0] * len(row)
    exc = ""
    for _ in range(80):
        pi, exc = call(s.get_pi, q)
        if exc:
            break
        for a in IV(pi):
            if not 0 <= a < len(row):
                raise Malformed("action %d of %d" % (a, len(row)))
            counts[a] += 1
    w.ev("sample", sel="softmax", row=row, n=80000, counts=counts, wdiv=1, exc=exc)


def refusals(w, r):
    for sel in ("max", "softmax"):
        mk = MaxActionSelector if sel == "max" else SoftmaxActionSelector
        for name, q in (("a table of NaN only", np.full((3, 2), np.nan)), ("a list", [[1.0, 2.0]]),
                        ("a one-dimensional array", np.array([1.0, 2.0])), ("a three-dimensional array", np.zeros((2, 2, 2)))):
            for meth in ("get_pi", "get_pi_p"):
                _, exc = call(getattr(mk(), meth), q)
                w.ev("refuse", sel=sel, what="%s given to %s" % (name, meth), exc=exc)
    for t in (0, -1, -0.5, 0.0, -1e-9):
        _, exc = call(SoftmaxActionSelector, temperature=t)
        w.ev("refuse", sel="softmax", what="temperature %r" % t, exc=exc)
    for t in (1, 0.001, 1e-6, 2.5, 1e6):
        _, exc = call(SoftmaxActionSelector, temperature=t)
        w.ev("accept", sel="softmax", what="temperature %r" % t, exc=exc)


def run(w, a):
    r = random.Random(a.seed * 7877 + 3)
    mult = 12 if a.tier == "thorough" else 1
    sels = dict(C13=["max"], C14=["softmax"]).get(a.focus, ["max", "softmax"])
    scenario(w, "refusals", refusals, r)
    for sel in sels:
        for k in range(700 * mult):
            scenario(w, "table", table, r, sel, r.choice([1, 2, 5, 12, 12, 40]), r.choice([1, 2, 3, 4, 5, 6, 7, 12]))
        for k in range(100 * mult):
            scenario(w, "sample", sample, r, sel)
    if "softmax" in sels:
        for k in range(2 * mult):
            scenario(w, "rare choices", rare, r)
    for k in range(6):
        scenario(w, "nothing possible", allinf, r)


main(run)
