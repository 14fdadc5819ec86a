"""Learners: feature counting (C20), maximum entropy (C21), policy learning (C22), reset and
isolation (C23), hypothesis testing (C25)."""
from vlib import *
from maMDP.mdp import MDP, SquareGridMDP, HexGridMDP
from maMDP.algorithms.irl import (MFFeatureMatching, SimpleActionIRL, SimpleActionFeatureDiffIRL,
                                  MaxCausalEntIRL, HyptestIRL)
from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner

S6 = 1000000
RATES = [(1, 2), (1, 4), (3, 10), (1, 10), (3, 4), (1, 1), (1, 20)]


def bar(r=None):
    """With or without the progress bar (shown by default): it makes no difference to what is learnt."""
    return {} if r is None or r.random() < 0.2 else dict(show_progress=r.random() < 0.15)


def geom(r, stoch=False, mx=9, table=True, long=0):
    if r.random() < long:
        kind, n, stay = r.choice(["square", "hex"]), r.randint(7, 12), r.randint(0, 1)
        w, h = r.choice([(1, n), (n, 1), (2, n), (n, 2)])
        return dict(kind=kind, w=w, h=h, stay=stay, ns=w * h, na=(4 if kind == "square" else 6) + stay, tab=[], den=1)
    if table and r.random() < 0.3:
        ns, na = r.randint(2, 6), r.randint(2, 4)
        den = r.choice([2, 4, 5]) if stoch and r.random() < 0.6 else 1
        tab = []
        for s in range(ns) if den > 1 and r.random() < 0.6 else ():
            # several actions may lead to the same state, one of them most probably
            for _ in range(30):
                row = []
                for a in range(na):
                    ts = r.sample(range(ns), min(ns, den, r.choice([0, 1, 2, 2, 3])))
                    cuts = sorted(r.sample(range(1, den), len(ts) - 1)) if len(ts) > 1 else []
                    row.append([[t, b - x] for t, x, b in zip(ts, [0] + cuts, cuts + [den])])
                ws = [[x for q in row for u, x in q if u == t] for t in range(ns)]
                if all(q.count(max(q)) == 1 for q in ws if q):
                    break
            else:
                row = [[[r.randrange(ns), den]]] + [[]] * (na - 1)
            tab.append(row)
        for s in range(ns) if not tab else ():
            free = r.sample(range(ns), ns)
            row = []
            for a in range(na):
                if r.random() < 0.15 or not free:
                    row.append([])
                elif den > 1 and len(free) > 1 and r.random() < 0.7:
                    x = r.randint(1, den - 1)
                    row.append([[free.pop(), x], [free.pop(), den - x]])
                else:
                    row.append([[free.pop(), den]])
            tab.append(row)
        return dict(kind="table", w=0, h=0, stay=0, ns=ns, na=na, tab=tab, den=den)
    kind = r.choice(["square", "hex"])
    while True:
        w, h = r.randint(1, 5), r.randint(1, 5)
        if 2 <= w * h <= mx:
            break
    stay = r.randint(0, 1)
    return dict(kind=kind, w=w, h=h, stay=stay, ns=w * h, na=(4 if kind == "square" else 6) + stay, tab=[], den=1)


class M:
    """An MDP with its description."""

    def __init__(self, r, g, nf, vals=(0, 0, 1, 1, 2), pw=0.3, fd=1):
        self.g, self.fd = g, fd        # the features are multiples of 1/fd
        self.feat = [[r.choice(vals) for _ in range(g["ns"])] for _ in range(nf)]
        self.walls = [1 if r.random() < 0.2 else 0 for _ in range(g["ns"])] if r.random() < pw else [0] * g["ns"]
        if all(self.walls):
            self.walls[0] = 0
        f = np.array(self.feat, dtype=r.choice([float] * 4 + [int, np.int8, np.float32])) if fd == 1 else np.array(self.feat) / fd
        kw = dict(walls=np.array(self.walls, dtype=r.choice([float, int, bool]))) if any(self.walls) else {}
        if g["kind"] == "table":
            sas = np.zeros((g["ns"], g["na"], g["ns"]))
            for s, row in enumerate(g["tab"]):
                for a, q in enumerate(row):
                    for t, x in q:
                        sas[s, a, t] = x / g["den"]
            if g["den"] == 1:
                sas = sas.astype(r.choice([float, float, int, bool, np.float32]))
            self.mdp = MDP(f, sas, **kw)
        else:
            cls = SquareGridMDP if g["kind"] == "square" else HexGridMDP
            self.mdp = cls(features=f, shape=(g["w"], g["h"]), self_transitions=bool(g["stay"]), **kw)
        self.succ = [sorted(set(np.argwhere(self.mdp.sas[s] > 0)[:, 1].tolist())) for s in range(g["ns"])]

    def desc(self):
        return dict(g=self.g, walls=self.walls, feat=self.feat, fd=self.fd)

    def same(self):
        m = self.mdp
        f = np.asarray(m.features)
        return int((IM(f) == self.feat if self.fd == 1 else np.array_equal(f, np.array(self.feat) / self.fd)) and IV(m.walls) == self.walls)

    def walk(self, r, n):
        s = r.choice([i for i in range(self.g["ns"]) if not self.walls[i]])
        t = [s]
        while len(t) < n and self.succ[s]:
            s = r.choice(self.succ[s])
            t.append(s)
        return t


def data(r, ms, nt, empty=False, lo=1, hi=6):
    """Trajectories, each belonging to one of the MDPs."""
    mi = [r.randrange(len(ms)) for _ in range(nt)]
    trs = [[] if empty and r.random() < 0.2 else ms[i].walk(r, r.randint(lo, hi)) for i in mi]
    return mi, trs


def arg(r, ms, mi):
    """The MDP argument of fit: a list, or the MDP itself when there is just one."""
    if len(ms) == 1 and r.random() < 0.7:
        return ms[0].mdp
    return [ms[i].mdp for i in mi]


def worlds(r, n, nf, fd=1, **k):
    """MDPs of the same size; some of them differ only in walls and features."""
    g = geom(r, **k)
    return [M(r, g, nf, fd=fd) for _ in range(n)]


def lens(w, r, ms, prop, L, est):
    """A list of MDPs that does not match the trajectories."""
    mi, trs = data(r, ms, r.randint(1, 4), lo=2)
    mdps = [ms[i].mdp for i in mi]
    mdps = mdps[:-1] if r.random() < 0.4 and len(mdps) > 1 else mdps + [mdps[0]] * r.randint(1, 2)
    keep = [list(t) for t in trs]
    pre = est()
    pre = None if pre is None else np.array(pre)
    _, exc = silent(L.fit, mdps, trs)
    post = est()
    same = (post is None) if pre is None else post is not None and np.array_equal(pre, post, equal_nan=True)
    w.ev("lens", prop=prop, exc=exc, same=int(same and trs == keep and all(m.same() for m in ms)))


def counting(w, r):
    nf, fd = r.choice([1, 2, 3, 4, 4, 6]), r.choice([1, 1, 1, 4, 10, 64])
    hi = r.choice([6, 6, 15])
    ms = worlds(r, r.choice([1, 1, 2, 3]), nf, fd=fd, long=0.25) if r.random() < 0.6 else [M(r, geom(r, long=0.2), nf, fd=fd) for _ in range(r.choice([2, 3, 5]))]
    nt = r.choice([1, 2, 3, 4, 5, 9])
    mi, trs = data(r, ms, nt, hi=hi)
    keep = [list(t) for t in trs]
    base = dict(ms=[m.desc() for m in ms], mi=mi, trs=trs)
    ign = r.sample(range(nf), r.choice([0, 0, 1, min(2, nf), r.randint(1, nf)]))
    kw = {} if not ign and r.random() < 0.5 else dict(ignore_features=list(ign))
    out, exc = call(MFFeatureMatching().fit, arg(r, ms, mi), trs, **kw)
    w.ev("match", ign=ign, exc=exc, out=[] if exc else FV(out, S6), same=int(trs == keep and all(m.same() for m in ms)), **base)
    if r.random() < 0.3:
        L = MFFeatureMatching()
        lens(w, r, ms, "C20", L, lambda: getattr(L, "theta", None))
    for diff, cls in ((0, SimpleActionIRL), (1, SimpleActionFeatureDiffIRL)):
        L = cls()
        base0 = [0] * nf
        for k in range(r.choice([1, 2, 3])):
            mi, trs = data(r, ms, r.randint(1, 4), hi=hi)
            reset = r.random() < 0.5
            kw = {} if reset and r.random() < 0.5 else dict(reset=reset)
            out, exc = call(L.fit, [ms[i].mdp for i in mi], trs, **kw)
            w.ev("eye", diff=diff, base=[0] * nf if reset else base0, ms=[m.desc() for m in ms], mi=mi, trs=trs,
                 exc=exc, out=[] if exc else FV(out, S6), same=int(all(m.same() for m in ms)))
            if exc:
                break
            base0 = FV(out, S6)


def policy(w, r):
    nf = 1
    ms = worlds(r, r.choice([1, 1, 2, 3]), nf, stoch=True)
    na = ms[0].g["na"]
    n, d = r.choice(RATES)
    ker, ls = r.randint(0, 1), r.choice([1, 2, 3, 5])
    dec = r.choice([0, 0, 1, 2])
    kw = dict(learning_rate=n / d, decay=dec)
    q0 = [0] * na
    if r.random() < 0.5:
        q0 = [r.choice([0, 250000, 500000, -300000, 1200000]) for _ in range(na)]
        kw["Q"] = np.array(q0) / S6
    if ker or r.random() < 0.5:
        kw.update(kernel=bool(ker), ls=ls / 100)
    L = TDGeneralPolicyLearner(**kw)
    for k in range(r.choice([1, 2, 3])):
        mi, trs = data(r, ms, r.randint(1, 5), empty=True, hi=r.choice([6, 6, 14]))
        out, exc = call(L.fit, arg(r, ms, mi), trs)
        qs = [] if exc else [FV(L.get_q_values(s), S6) for s in sorted({0, ms[0].g["ns"] - 1, r.randrange(ms[0].g["ns"])})]
        w.ev("td", q0=q0, n=n, d=d, dec=dec, ker=ker, ls=ls, ms=[m.desc() for m in ms], mi=mi, trs=trs, exc=exc, qs=qs,
             same=int(all(m.same() for m in ms)))
        if exc:
            return
        q0 = qs[0]
        if r.random() < 0.2:
            lens(w, r, ms, "C22", L, lambda: L.get_q_values(0))


def decaying(w, r):
    """Learning rates that decay: the estimate after 0, 1, 2... moves of one trajectory."""
    ms = worlds(r, 1, 1, stoch=True)
    tr = ms[0].walk(r, r.randint(2, 8))
    n, d = r.choice(RATES)
    ker, ls, dec = r.randint(0, 1), r.choice([1, 2, 3, 5]), r.choice([0.5, 1, 2, 1.5])
    q0 = [0] * ms[0].g["na"] if r.random() < 0.6 else [r.choice([0, 250000, -300000]) for _ in range(ms[0].g["na"])]
    qs = [q0]
    for k in range(1, len(tr)):
        L = TDGeneralPolicyLearner(learning_rate=n / d, decay=dec, kernel=bool(ker), ls=ls / 100, Q=np.array(q0) / S6)
        _, exc = call(L.fit, ms[0].mdp, [tr[:k + 1]])
        if exc:
            w.ev("tdd", exc=exc, qs=[], n=n, d=d, ker=ker, ls=ls, ms=[m.desc() for m in ms], tr=tr, dec2=int(2 * dec))
            return
        qs.append(FV(L.get_q_values(0), S6))
    w.ev("tdd", exc="", qs=qs, n=n, d=d, ker=ker, ls=ls, ms=[m.desc() for m in ms], tr=tr, dec2=int(2 * dec))


def soft_q(L, m, th, soft, nit, disc):
    q = getattr(L, "q_values", None)
    if q is None:
        from maMDP.algorithms.dynamic_programming import solve_value_iteration
        _, q = solve_value_iteration(np.array(th), m.mdp.features, nit, disc, m.mdp.sas, L.tol, soft)
    return np.array(q)


def maxent(w, r):
    nf, fd = r.choice([1, 2, 3, 3, 4]), r.choice([1, 1, 1, 2, 10, 200, 200])
    m = M(r, geom(r, stoch=True, mx=8), nf, vals=(0, 0, 1, 1, 2) if r.random() < 0.7 else (0, 1, -1), fd=fd)
    gn, gd, nit = r.choice([(1, 2, 22), (1, 4, 11), (1, 10, 7), (1, 4, 12)])
    n, d = r.choice([(1, 10), (1, 20), (1, 4), (1, 100)])
    soft = r.random() < 0.6
    trs = [m.walk(r, r.randint(1, 6)) if r.random() < 0.8 else [r.randrange(m.g["ns"]) for _ in range(r.randint(1, 5))]
           for _ in range(r.randint(1, 5))]
    if r.random() < 0.4:                           # some seen repeatedly
        trs += [list(r.choice(trs)) for _ in range(r.randint(1, 4))]
        r.shuffle(trs)
    keep = [list(t) for t in trs]
    ign = r.sample(range(nf), r.choice([0, 0, 1, r.randint(0, nf)]))
    iargs = {} if not ign and r.random() < 0.5 else dict(ignore_features=r.choice([list, tuple])(ign))
    kw = dict(decay=r.choice([0, 0, 1, 2]), tol=1e-8, VI_discount=gn / gd, VI_max_iter=nit, soft=soft)
    th = None
    if r.random() < 0.6:
        th = [r.randint(-8, 8) / 4 for _ in range(nf)]
        if r.random() < 0.15:
            th[r.randrange(nf)] = r.choice([-1, 1]) * 32.0
    dec = r.choice([0, 0, 1, 2, 0.5, 0.25]) if soft else 0
    base = dict(g=m.g, walls=m.walls, feat=m.feat, fd=fd, trs=trs, ign=ign, n=n, gn=gn, gd=gd, nit=nit, soft=int(soft))
    L = MaxCausalEntIRL(max_iter_irl=1, theta=None if th is None else np.array(th), learning_rate=n / d, **kw)
    cur = [0.0] * nf if th is None else list(th)
    chain = []
    nch = r.choice([3, 9] if fd > 9 else [3, 3, 9]) if soft else 3
    for k in range(nch):
        base["d"] = d
        if dec and k:      # one iteration at a time, each at the learning rate of the k-th in a row
            base["d"] = d * (k + 1) ** dec
            L = MaxCausalEntIRL(max_iter_irl=1, theta=np.array(cur), learning_rate=n / base["d"], **kw)
        start = [0.0 if f in ign else cur[f] for f in range(nf)]
        out, exc = silent(L.fit, m.mdp, trs, **bar(r), **iargs)
        if exc:
            w.ev("me", th0=FV(start, S6), q=[], rk=[], D=[], err=[], th1=[], exc=exc, same=1, **base)
            return
        if k >= 3 or base["d"] != int(base["d"]):
            cur = list(np.array(out, dtype=float))
            chain.append(FV(cur, S6))
            if not np.all(np.isfinite(cur)):
                return
            continue
        q = soft_q(L, m, start, soft, nit, gn / gd)
        D = getattr(L, "D_", None)
        eh = getattr(L, "error_history", None)
        err = None if not eh else eh[-1]
        w.ev("me", th0=FV(start, S6), q=FM(q, S6), rk=ranks(q), D=[] if D is None else FV(D, S6),
             err=[] if err is None else FV(err, S6), th1=FV(out, S6), nerr=1 if eh is None else len(eh),
             same=int(trs == keep and m.same()), **base)
        cur = list(np.array(out, dtype=float))
        chain.append(FV(cur, S6))
        if not np.all(np.isfinite(cur)):
            return
    if soft:       # the same in one fit, and with the trajectories in another order
        for perm in (False, True):
            t2 = [list(t) for t in trs]
            if perm:
                r.shuffle(t2)
            L2 = MaxCausalEntIRL(max_iter_irl=nch, theta=None if th is None else np.array(th), learning_rate=n / d, **dict(kw, decay=dec))
            out, exc = silent(L2.fit, m.mdp, t2, **bar(r), **iargs)
            w.ev("chain", perm=int(perm), want=chain[-1], exc=exc, out=[] if exc else FV(out, S6),
                 nerr=0 if exc else len(getattr(L2, "error_history", [0] * nch)))


def hyptest(w, r):
    nf = r.randint(1, 3)
    soft = r.random() < 0.3
    ms = worlds(r, r.choice([1, 1, 2, 3]), nf, mx=8, stoch=True, fd=1 if soft else r.choice([1, 1, 2, 1000]))
    if r.random() < 0.3:
        ms[0].feat[0] = [0] * ms[0].g["ns"]
        ms[0].mdp.features[0] = 0
    gn, gd = r.choice([(1, 2), (1, 4)] if soft else [(1, 2), (1, 4), (9, 10), (3, 4)] + ([(24, 25)] if ms[0].g["den"] == 1 else []))
    n, d = r.choice(RATES)
    dec, an, ad = (0, 1, 1) if r.random() < 0.6 else (r.choice([1, 1, 2]),) + r.choice([(2, 1), (3, 2), (3, 1), (5, 1)])
    kw = dict(learning_rate=n / d, decay=dec, tol=1e-9, VI_discount=gn / gd, VI_max_iter=900, soft=soft, normalisation="z-score")
    if (an, ad) != (2, 1) and dec or r.random() < 0.2:
        kw["asymmetry"] = max(1.5, an / ad)
    th = [0.0] * nf
    if r.random() < 0.4:
        th = [r.randint(-4, 4) / 4 if dec == 0 or r.random() < 0.5 else r.choice([-1.0, 1.0]) for _ in range(nf)]
        kw["theta"] = np.array(th)
    L = HyptestIRL(**kw)
    cur = FV(th, S6)
    for k in range(r.choice([1, 1, 2])):
        ign = r.sample(range(nf), r.choice([0, 0, 1, r.randint(0, nf)])) if nf > 1 else []
        iargs = {} if not ign and r.random() < 0.7 else dict(ignore_features=r.choice([list, tuple])(ign))
        mi, trs = data(r, ms, r.randint(1, 4), lo=r.choice([1, 2]))
        jump = False
        if r.random() < 0.15:
            m = ms[mi[0]]
            s = trs[0][-1]
            far = [t for t in range(m.g["ns"]) if t not in m.succ[s]]
            if far:
                trs[0] = trs[0] + [r.choice(far)]
                jump = True
        if sum(max(0, len(t) - 1) for t in trs) == 0:
            return
        out, exc = silent(L.fit, arg(r, ms, mi), trs, **bar(r), **iargs)
        ev = dict(ms=[m.desc() for m in ms], mi=mi, trs=trs, th0=cur, n=n, d=d, gn=gn, gd=gd, jump=int(jump), exc=exc,
                  soft=int(soft), dec=dec, an=an, ad=ad, ign=ign)
        if exc:
            w.ev("ht", out=[], ths=[], tt=[], same=1, **ev)
            return
        w.ev("ht", out=FV(out, S6), ths=FM(L.theta_array, S6), tt=FM(L.trajectory_theta, S6),
             same=int(all(m.same() for m in ms)), **ev)
        cur = FV(out, S6)
        if r.random() < 0.3:
            lens(w, r, ms, "C25", L, lambda: L.theta)


def make(r, kind, init, na, nf):
    """A learner factory: the same settings every time."""
    lr, dec = r.choice([0.5, 0.3, 0.1]), r.choice([0, 0.5, 1])
    if kind == "maxent":
        k = dict(learning_rate=lr, decay=dec, max_iter_irl=r.randint(1, 3), VI_discount=0.5, VI_max_iter=12, soft=True)
        return lambda i: MaxCausalEntIRL(theta=i, **k)
    if kind == "hyptest":
        k = dict(learning_rate=lr, decay=dec, VI_discount=0.5, VI_max_iter=60, soft=r.random() < 0.5, normalisation="z-score")
        return lambda i: HyptestIRL(theta=i, **k)
    if kind == "td":
        k = dict(learning_rate=lr, decay=dec, kernel=r.random() < 0.5)
        return lambda i: TDGeneralPolicyLearner(Q=i, **k)
    cls = {"match": MFFeatureMatching, "eye": SimpleActionIRL, "diff": SimpleActionFeatureDiffIRL}[kind]
    return lambda i: cls()


def fit(L, kind, ms, mi, trs, reset):
    """(estimate array object, exception)"""
    mdps = [ms[i].mdp for i in mi]
    if kind == "maxent":
        return silent(L.fit, ms[0].mdp, trs, **bar())
    if kind == "hyptest":
        return silent(L.fit, mdps, trs, **bar())
    if kind == "td":
        _, exc = call(L.fit, mdps, trs)
        return (None, exc) if exc else (L.get_q_values(0), "")
    if kind == "match":
        return call(L.fit, mdps, trs)
    return call(L.fit, mdps, trs, reset=reset)


def sessions(w, r):
    kind = r.choice(["maxent", "hyptest", "td", "maxent", "hyptest", "td", "match", "eye", "diff"])
    nf = r.randint(1, 3)
    ms = worlds(r, 1 if kind == "maxent" else r.choice([1, 2]), nf, mx=6)
    na = ms[0].g["na"]
    size = na if kind == "td" else nf
    init = None
    if kind in ("maxent", "hyptest", "td") and r.random() < 0.6:
        init = np.array([r.randint(-4, 4) / 4 for _ in range(size)])
    mk = make(r, kind, init, na, nf)
    L = mk(init)
    orig = None if init is None else FV(init, S6)
    w.ev("lnew", kind=kind, has=int(init is not None), init=orig or [])
    seen = []          # (array object returned, which the user may still hold)
    start = None if init is None else np.array(init)       # estimate the next fit starts from (None: fresh)
    first = True
    for k in range(r.randint(2, 5)):
        what = r.choice(["fit", "fit", "reset"]) if k else "fit"
        if what == "reset" and kind in ("match", "eye", "diff"):
            what = "fit"
        if what == "reset":
            _, exc = call(L.reset)
            est = getattr(L, "Q" if kind == "td" else "theta", None)
            w.ev("lreset", kind=kind, exc=exc, est=[] if est is None else FV(est, S6), has=int(est is not None),
                 lr=F(L.learning_rate, S6), init=[] if init is None else FV(init, S6), rets=[FV(x, S6) for x in seen])
            first = True
            continue
        mi, trs = data(r, ms, r.randint(1, 3), lo=2)
        if sum(max(0, len(t) - 1) for t in trs) == 0:
            continue
        reset = r.random() < 0.5
        out, exc = fit(L, kind, ms, mi, trs, reset)
        fresh = None
        if first or kind == "match" or (kind in ("eye", "diff") and reset):      # must equal a fresh learner's result
            i2 = None if init is None else np.array(orig) / S6
            fresh, _ = fit(mk(i2), kind, ms, mi, trs, True)
        w.ev("lfit", kind=kind, exc=exc, out=[] if exc else FV(out, S6), fresh=[] if fresh is None else FV(fresh, S6),
             init=[] if init is None else FV(init, S6), rets=[FV(x, S6) for x in seen],
             same=int(all(m.same() for m in ms)))
        if exc:
            return
        if out is not None:
            seen.append(out)
        first = False


def run(w, a):
    r = random.Random(a.seed * 6151 + 3)
    th = a.tier == "thorough"
    mult = 8 if th else 1
    jobs = {"C20": [("counting", counting, 200)], "C21": [("maxent", maxent, 60)], "C22": [("policy", policy, 240), ("decaying", decaying, 100)],
            "C23": [("sessions", sessions, 220)], "C25": [("hyptest", hyptest, 110)]}
    for name, fn, n in jobs.get(a.focus, [x for v in jobs.values() for x in v]):
        for _ in range(n * mult):
            scenario(w, name, fn, r)


main(run)
