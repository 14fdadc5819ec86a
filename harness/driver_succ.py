"""Successor representation (C24)."""
from vlib import *
from maMDP.mdp import MDP, SquareGridMDP, HexGridMDP
from maMDP.algorithms.successor_representation import get_sa_sr, get_sr_q_values

DISC = [(19, 20, {}), (1, 2, None), (9, 10, None), (3, 4, None), (1, 4, None), (19, 20, None), (99, 100, None), (1, 100, None), (999, 1000, None)]


def one(w, r, mx):
    if r.random() < 0.4:
        ns, na = r.randint(1, mx // 2), r.randint(1, 3)
        tab = [[[] if r.random() < 0.2 else [[r.randrange(ns), 1]] for _ in range(na)] for _ in range(ns)]
        g = dict(kind="table", w=0, h=0, stay=0, ns=ns, na=na, tab=tab, den=1)
    else:
        kind = r.choice(["square", "hex"])
        while True:
            wd, h = r.randint(1, 4), r.randint(1, 4)
            if wd * h <= mx:
                break
        stay = r.randint(0, 1)
        g = dict(kind=kind, w=wd, h=h, stay=stay, ns=wd * h, na=(4 if kind == "square" else 6) + stay, tab=[], den=1)
    ns, na = g["ns"], g["na"]
    nf = r.randint(1, 3)
    feat = [[r.choice([0, 0, 1, 2, -1]) for _ in range(ns)] for _ in range(nf)]
    walls = [1 if r.random() < 0.2 else 0 for _ in range(ns)] if r.random() < 0.4 else [0] * ns
    f = np.array(feat, dtype=r.choice([float, float, int, np.float32]))
    kw = dict(walls=np.array(walls, dtype=r.choice([float, int, bool]))) if any(walls) else {}
    if g["kind"] == "table":
        sas = np.zeros((ns, na, ns))
        for s, row in enumerate(g["tab"]):
            for a, q in enumerate(row):
                for t, x in q:
                    sas[s, a, t] = x
        m = MDP(f, sas.astype(r.choice([float, float, int])), **kw)
    else:
        m = (SquareGridMDP if g["kind"] == "square" else HexGridMDP)(features=f, shape=(g["w"], g["h"]), self_transitions=bool(g["stay"]), **kw)
    gn, gd, dflt = r.choice(DISC)
    sc = {99: 10000, 999: 500}.get(gn, 50000)
    out, exc = call(get_sa_sr, m.sas) if dflt is not None else call(get_sa_sr, m.sas, gn / gd)
    M = [] if exc else FM(out, sc)
    w.ev("sr", g=g, walls=walls, gn=gn, gd=gd, sc=sc, M=M, exc=exc)
    if exc:
        return
    th = [r.randint(-6, 8) for _ in range(nf)]
    ints = r.random() < 0.3
    if ints:
        th = [4 * x for x in th]
    q, exc = call(get_sr_q_values, np.array(th) // 4 if ints else np.array(th) / 4, m.features, out, m.sas, ns, na)
    w.ev("srq", g=g, walls=walls, feat=feat, th=th, sc=sc, M=M, q=[] if exc else FM(q, sc), exc=exc)


def run(w, a):
    r = random.Random(a.seed * 4099 + 9)
    th = a.tier == "thorough"
    for _ in range(900 if th else 110):
        scenario(w, "sr", one, r, 9 if th else 6)


main(run)
