"""Value-iteration fits in changing worlds (C15)."""
from vlib import *
from maMDP.mdp import MDP, SquareGridMDP, HexGridMDP
from maMDP.environments import Environment
from maMDP.agents import Agent
from maMDP.algorithms.dynamic_programming import ValueIteration
from maMDP.algorithms.mcts import solve_all_value_iteration

FINE = 1024      # reward weights are multiples of 1/rs, rs = 1, 4 or FINE
DISC = [(1, 50), (1, 2), (9, 10), (3, 4), (1, 4), (1, 10), (37, 100), (19, 20), (99, 100)]


def geom(r, big):
    if r.random() < 0.4:
        ns, na, den = r.randint(2, 8), r.randint(1, 4), r.choice([1, 2, 4, 5, 10])
        tab = []
        for s in range(ns):
            row = []
            for a in range(na):
                if r.random() < 0.2:
                    row.append([])
                else:
                    ts = r.sample(range(ns), min(ns, r.choice([1, 2, 2, 3, 4]), den))
                    cuts = sorted(r.sample(range(1, den), len(ts) - 1)) if len(ts) > 1 else []
                    row.append([[t, b - x] for t, x, b in zip(ts, [0] + cuts, cuts + [den])])
            tab.append(row)
        return dict(kind="table", w=0, h=0, stay=0, ns=ns, na=na, tab=tab, den=den)
    kind = r.choice(["square", "hex"])
    w, h = (r.randint(1, 7), r.randint(1, 7)) if big else (r.randint(1, 5), r.randint(1, 5))
    stay = r.randint(0, 1)
    return dict(kind=kind, w=w, h=h, stay=stay, ns=w * h, na=(4 if kind == "square" else 6) + stay, tab=[], den=1)


def make_mdp(g, feats, walls, r, fd=1):
    kw = {} if walls is None else dict(walls=np.array(walls, dtype=r.choice([float, int, bool])))
    if fd == 1 and r.random() < 0.25:
        feats = feats.astype(r.choice([int, np.float32, np.int8]))
    if g["kind"] == "table":
        sas = np.zeros((g["ns"], g["na"], g["ns"]))
        for s, row in enumerate(g["tab"]):
            for a, q in enumerate(row):
                for t, x in q:
                    sas[s, a, t] = x / g["den"]
        if g["den"] == 1:
            sas = sas.astype(r.choice([float, float, int, bool, np.float32]))
        return MDP(feats, sas, **kw)
    cls = SquareGridMDP if g["kind"] == "square" else HexGridMDP
    return cls(features=feats, shape=(g["w"], g["h"]), self_transitions=bool(g["stay"]), **kw)


def weights(r, n, g, gn, gd):
    """n reward weights in 1/rs, and rs."""
    rs = r.choice([1, 4, 4, FINE]) if g["den"] <= 5 and gn * 10 <= gd * 9 else r.choice([1, 4])
    top = r.choice([6, 6, 6, 60]) if rs < 5 else 3 * rs
    return [r.randint(-top, top + top // 2) if r.random() < 0.85 else 0 for _ in range(n)], rs


def array(r, rf, rs):
    return np.array(rf, dtype=r.choice([int, float])) if rs == 1 else np.array(rf) / rs


def log_fit(w, g, m, rf, rs, gn, gd, tol, before, alg, exc):
    """before: features in 1/fd (so that rewards are in 1/(rs * fd)), walls and fd."""
    feat, walls, fd = before
    rs *= fd
    rmax = max([1] + [abs(sum(x * f[s] for x, f in zip(rf, feat))) / rs for s in range(g["ns"])])
    vmax = rmax * gd / (gd - gn) + 1
    sc = 400000
    while sc > 4 * rs and vmax * sc * gd * g["den"] * 1.05 > 1.9e9:
        sc //= 10
    sc -= sc % rs
    if exc:
        w.ev("vi", g=g, walls=walls, feat=feat, rf=rf, rs=rs, sc=sc, gn=gn, gd=gd, tol=0, exc=exc, v=[], q=[])
        return
    w.ev("vi", g=g, walls=walls, feat=feat, rf=rf, rs=rs, sc=sc, gn=gn, gd=gd, tol=int(math.ceil(tol * sc)),
         v=FV(alg.values, sc), q=FM(alg.q_values, sc))


def kwargs(r):
    gn, gd = r.choice(DISC)
    tol = r.choice([1e-8, 1e-8, 1e-8, 1e-4, 1e-10])
    kw = dict(discount=gn / gd)
    if tol != 1e-8:
        kw["tol"] = tol
    if gn / gd > 0.9:
        kw["max_iter"] = 6000
    if r.random() < 0.2:
        return {}, 9, 10, 1e-8
    return kw, gn, gd, tol


def session(w, r, big, fits):
    g = geom(r, big)
    ns = g["ns"]
    nf = r.choice([1, 2, 3, 3, 5])
    n = r.choice([1, 2, 3, 3, 5])
    fd = r.choice([1, 1, 2, 5])
    feats = np.array([[r.choice([0, 0, 1, 2, -1]) for _ in range(ns)] for _ in range(nf)], dtype=float) / fd
    walls = [1 if r.random() < 0.2 else 0 for _ in range(ns)] if r.random() < 0.5 else None
    m = make_mdp(g, feats, walls, r, fd)
    d, info = {}, []
    for i in range(n):
        kw, gn, gd, tol = kwargs(r)
        rf, rs = weights(r, nf + n, g, gn, gd)
        pool = [f for f in range(nf + n) if f != nf + i]
        cons = r.sample(pool, min(len(pool), r.choice([0, 1, 2])))
        d[Agent("a%d" % i, algorithm=ValueIteration, algorithm_kwargs=kw)] = (r.randrange(ns), array(r, rf, rs), cons)
        info.append((rf, rs, gn, gd, tol))
    env = Environment(m, d)
    for _ in range(fits):
        i = r.randrange(n)
        name = "a%d" % i
        rf, rs, gn, gd, tol = info[i]
        before = IM(np.asarray(m.features) * fd), IV(m.walls), fd
        _, exc = call(env.fit, name)
        alg = env.agents[name].algorithm
        log_fit(w, g, m, rf, rs, gn, gd, tol, before, alg, exc)
        if exc:
            return
        for _ in range(r.randint(0, 4)):
            op = r.choice(["step", "step", "step", "setpos", "walls", "reset", "eat"])
            j = "a%d" % r.randrange(n)
            if op == "step":
                call(env.step, j)
            elif op == "setpos":
                call(env.set_agent_position, j, r.randrange(ns))
            elif op == "walls":
                call(setattr, m, "walls", np.array([1.0 if r.random() < 0.2 else 0.0 for _ in range(ns)]))
            elif op == "reset":
                call(env.reset)
            elif op == "eat":
                call(m.consume_features, [r.randrange(nf)], r.randrange(ns))


def alone(w, r, big):
    """The algorithm used directly on MDPs, without an environment, one object for several."""
    kw, gn, gd, tol = kwargs(r)
    alg = ValueIteration(**kw)
    for _ in range(2):
        g = geom(r, big)
        nf = r.choice([1, 2, 3])
        feats = np.array([[r.choice([0, 0, 1, 2, -1]) for _ in range(g["ns"])] for _ in range(nf)], dtype=float)
        walls = [1 if r.random() < 0.2 else 0 for _ in range(g["ns"])] if r.random() < 0.5 else None
        m = make_mdp(g, feats, walls, r)
        rf, rs = weights(r, nf, g, gn, gd)
        before = IM(m.features), IV(m.walls), 1
        _, exc = call(alg.fit, m, array(r, rf, rs), 0)
        log_fit(w, g, m, rf, rs, gn, gd, tol, before, alg, exc)
        if exc:
            return


def everywhere(w, r, big):
    """Values for every position of another agent at once."""
    g = geom(r, False)
    ns, nf = g["ns"], r.choice([1, 2, 3])
    feats = np.array([[r.choice([0, 0, 1, 2, -1]) for _ in range(ns)] for _ in range(nf + 1)], dtype=float)
    prey = r.randint(0, nf)
    walls = [1 if r.random() < 0.2 else 0 for _ in range(ns)] if r.random() < 0.5 else None
    feats[prey] = 0
    feats[prey, r.randrange(ns)] = 1
    m = make_mdp(g, feats.copy(), walls, r)
    gn, gd = r.choice(DISC[:6])
    rf, rs = weights(r, nf + 1, g, gn, gd)
    before, wl = IM(m.features), IV(m.walls)
    qs, exc = call(solve_all_value_iteration, np.asarray(m.sas), array(r, rf, rs), np.asarray(m.features).copy(), prey, 2000, 1e-9, gn / gd)
    if exc:
        log_fit(w, g, m, rf, rs, gn, gd, 1e-9, (before, wl, 1), None, exc)
        return
    if np.shape(qs) != (ns, ns, g["na"]):
        raise Malformed("shape of the values for all positions: %r" % (np.shape(qs),))
    for p in r.sample(range(ns), min(ns, 4)):
        feat = [list(f) for f in before]
        feat[prey] = [int(s == p) for s in range(ns)]
        q = np.asarray(qs)[p]
        one = type("Alg", (), {})()
        one.q_values = q
        one.values = np.array([0.0 if np.all(np.isneginf(row)) else row.max() for row in q])
        log_fit(w, g, m, rf, rs, gn, gd, 1e-9, (feat, wl, 1), one, "")


def run(w, a):
    r = random.Random(a.seed * 7873 + 1)
    th = a.tier == "thorough"
    mult = 20 if th else 1
    for k in range(90 * mult):
        scenario(w, "environment", session, r, th, r.randint(2, 5))
    for k in range(60 * mult):
        scenario(w, "alone", alone, r, th)
    for k in range(25 * mult):
        scenario(w, "everywhere", everywhere, r, th)


main(run)
