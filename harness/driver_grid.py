"""MDP construction, wall edits and transition queries (C01-C04)."""
from vlib import *
from maMDP.mdp import MDP, SquareGridMDP, HexGridMDP
from maMDP import grid_utils

R = random.Random()
PM = 100000


def geom(kind, w, h, stay):
    return dict(kind=kind, w=w, h=h, stay=stay, ns=w * h, na=(4 if kind == "square" else 6) + stay, tab=[], den=1)


def dump(m, g, edits, stochastic=False, rnd=None):
    """Everything the MDP object reports about its transition structure."""
    ns, na = int(m.n_states), int(m.n_actions)
    sas = np.asarray(m.sas)
    if sas.shape != (ns, na, ns):
        raise Malformed("sas of shape %r" % (sas.shape,))
    nz = [[[] for _ in range(na)] for _ in range(ns)]
    for s, a, t in np.argwhere(sas > 0):
        nz[s][a].append([int(t), F(sas[s, a, t], PM)])
    d = dict(ns=ns, na=na, sas=nz, adj=IM(m.adjacency), walls=IV(m.walls), edits=edits)
    d["valid"] = [[I(a) for a in m.state_valid_actions(s)] for s in range(ns)]
    d["isadj"] = [[1 if m.is_adjacent(s, t) else 0 for t in range(ns)] for s in range(ns)]
    nxt = []
    for s in range(ns):
        row = []
        for a in range(na):
            r, exc = call(m.get_next_state, s, a)
            row.append(I(r) if exc == "" else -1 if exc == "ValueError" else -2)
        nxt.append(row)
    d["next"] = nxt
    pair = []
    spa = getattr(m, "_state_pair_to_action", None)
    for s in range(ns):
        row = []
        for t in range(ns):
            if spa is None:
                row.append(-9)
                continue
            r, exc = call(spa, s, t)
            row.append(I(r[0]) if exc == "" else -1)
        pair.append(row)
    d["pair"] = pair
    d["pairall"] = []          # <<s, t, actions>>: every action connecting a pair
    if spa is not None and rnd is not None:
        for s in range(ns):
            near = [int(t) for t in np.argwhere(sas[s].sum(axis=0) > 0).reshape(-1)]
            for t in near + rnd.sample(range(ns), min(2, ns)):
                r, exc = call(spa, s, t, return_max=False)
                d["pairall"].append([s, t, [I(x) for x in r] if exc == "" else [-1]])
    d["traj"] = []
    tsa = getattr(m, "_trajectory_to_state_action", None)
    if rnd is not None and tsa is not None:
        for _ in range(2):
            s = rnd.randrange(ns)
            tr = [s]
            for _ in range(rnd.randrange(1, 7)):
                nb = np.argwhere(sas[s].sum(axis=0) > 0).reshape(-1)
                if not len(nb):
                    break
                s = int(rnd.choice(list(nb)))
                tr.append(s)
            if len(tr) > 1:
                d["traj"].append(dict(states=tr, sa=IM(tsa(tr))))
    if g["kind"] != "table":
        d["coords"] = [IV(m.get_state_coords(s)) for s in range(ns)]
        d["idx"] = [IV(m.state_to_idx(s)) for s in range(ns)]
        d["ids"] = [I(m.idx_to_state(tuple(m.state_to_idx(s)))) for s in range(ns)]
        d["grid"] = IM(m.flat_to_grid(np.arange(ns)))
        # the same for arrays of other types: masks, small numbers, floats
        d["mask"] = [[(s * 7 + k) % 3 % 2 for s in range(ns)] for k in range(3)]
        d["mgrid"] = [IM(m.flat_to_grid(np.array(x, dtype=t))) for x, t in zip(d["mask"], (bool, np.uint8, float))]
        fg = np.asarray(m.features_as_grid())
        d["fgrid"] = [IM(x) for x in fg]
        d["feat"] = IM(m.features)
    return d


def make(kind, w, h, stay, walls):
    n = w * h
    feats = np.array([[(7 * s + 3 * f) % 11 for s in range(n)] for f in range(2)], dtype=float if n % 3 else int)
    cls = SquareGridMDP if kind == "square" else HexGridMDP
    kw = dict(features=feats, shape=(w, h), self_transitions=bool(stay))
    if walls is not None:
        kw["walls"] = walls
    return cls(**kw)


def rand_walls(r, n, p):
    return [1 if r.random() < p else 0 for _ in range(n)]


def as_array(r, w):
    return np.array(w, dtype=r.choice([float, int, bool, np.uint8]))


def edit_session(w, r, kind, wd, ht, stay, nedits, hide=False):
    g = geom(kind, wd, ht, stay)
    n = g["ns"]
    has = r.random() < 0.5
    arg = rand_walls(r, n, 0.25) if has else []
    arr = as_array(r, arg) if has else None
    m, exc = call(make, kind, wd, ht, stay, arr)
    if exc:
        w.ev("new", g=g, haswalls=int(has), arg=arg, exc=exc, post={}, argafter=arg, oldarg=[], oldargafter=[])
        return
    held = [(list(arg), arr)] if has else []

    def olds():
        return dict(oldarg=[h[0] for h in held], oldargafter=[IV(h[1]) for h in held])

    w.ev("new", g=g, haswalls=int(has), arg=arg, post=dump(m, g, 0, rnd=r),
         argafter=IV(arr) if has else [], **olds())
    for k in range(nedits):
        op = r.choice(["setw", "setw", "addxy", "addxy", "addxy", "clear", "badw", "badxy"])
        if op == "setw":
            arg = rand_walls(r, n, r.choice([0.0, 0.2, 0.5, 0.9]))
            arr = as_array(r, arg)
            _, exc = call(setattr, m, "walls", arr)
            held.append((list(arg), arr))
            w.ev("setw", arg=arg, exc=exc, argafter=IV(arr), post=dump(m, g, k + 1, rnd=r) if not exc else {}, **olds())
        elif op == "addxy":
            def axis(lim):
                c = r.randrange(3)
                if c == 0:
                    return [r.randrange(lim)]
                if c == 1:
                    a = r.randrange(lim)
                    return [a, r.randrange(a, lim + 1)]
                return [r.randrange(lim) for _ in range(3)]
            x, y = axis(wd), axis(ht)
            _, exc = call(m.add_wall_xy, tuple(x), r.choice([tuple, list])(y))
            w.ev("addxy", x=x, y=y, exc=exc, arg=[], argafter=[], post=dump(m, g, k + 1, rnd=r) if not exc else {}, **olds())
        elif op == "clear":
            _, exc = call(m.reset_walls)
            w.ev("clear", exc=exc, arg=[], argafter=[], post=dump(m, g, k + 1, rnd=r) if not exc else {}, **olds())
        elif op == "badxy":
            # runs (partly) off the grid, or is not a pair of tuples
            c = r.randrange(5)
            inx, iny = r.randrange(wd), r.randrange(ht)
            x, y = [((inx,), (iny, ht + r.randint(1, 3))), ((inx, wd + r.randint(1, 3)), (iny,)),
                    ((inx, iny % wd, wd), (iny,)), ((inx,), (iny, iny, -1)), ((inx,), iny)][c]
            _, exc = call(m.add_wall_xy, x, y)
            w.ev("badw", exc=exc, post=dump(m, g, k + 1, rnd=r))
        else:
            c = r.randrange(4)
            if c == 0:
                bad = np.zeros(n + 1)
            elif c == 1:
                bad = np.zeros((1, n))
            elif c == 2:
                bad = np.zeros(n)
                bad[r.randrange(n)] = r.choice([2, -1, 0.5])
            else:
                bad = np.zeros(max(n - 1, 0))
                if n > 1:
                    bad[0] = 1
            _, exc = call(setattr, m, "walls", bad)
            w.ev("badw", exc=exc, post=dump(m, g, k + 1, rnd=r))


def table_session(w, r, ns, na, den, det):
    tab = []
    skew = den >= 20 and r.random() < 0.7
    sas = np.zeros((ns, na, ns))
    for s in range(ns):
        row = []
        for a in range(na):
            if r.random() < 0.2:
                row.append([])
                continue
            if det:
                t = r.randrange(ns)
                row.append([[t, den]])
                sas[s, a, t] = 1
            else:
                k = r.choice([1, 2, 2, 3, 4])
                ts = r.sample(range(ns), min(k, ns, den))
                cuts = sorted(r.sample(range(1, den), len(ts) - 1)) if len(ts) > 1 else []
                ws = [b - a_ for a_, b in zip([0] + cuts, cuts + [den])]
                if skew and len(ts) > 1 and r.random() < 0.7:      # nearly certain outcomes
                    ws = [r.choice([1, 2, max(1, den // 300), max(1, den // 40)]) for _ in ts[1:]]
                    ws.insert(r.randrange(len(ts)), den - sum(ws))
                row.append([[t, x] for t, x in zip(ts, ws)])
                for t, x in zip(ts, ws):
                    sas[s, a, t] = x / den
        tab.append(row)
    g = dict(kind="table", w=0, h=0, stay=0, ns=ns, na=na, tab=tab, den=den)
    feats = np.zeros((1, ns))
    seed = r.choice([None, r.randrange(10 ** 6)])
    if det:
        sas = sas.astype(r.choice([float, float, int, bool, np.float32]))
    sas0 = sas.copy()
    m, exc = call(MDP, feats, sas, seed=seed)
    if exc:
        w.ev("new", g=g, haswalls=0, arg=[], exc=exc, post={}, argafter=[], oldarg=[], oldargafter=[])
        return
    w.ev("new", g=g, haswalls=0, arg=[], argafter=[], oldarg=[], oldargafter=[], post=dump(m, g, 0, rnd=r))
    def sample(walls, k):
        # states with several possible outcomes left
        left = lambda s, a: sum(1 for t, _ in tab[s][a] if not walls[t])
        pairs = [(s, a) for s in range(ns) for a in range(na) if not walls[s] and left(s, a) > 1]
        part = [p for p in pairs if left(*p) < len(tab[p[0]][p[1]])]
        for s, a in r.sample(pairs, min(k, len(pairs))) + part[:1]:
            n = r.choice([1500, 1500, 4000])
            counts = [0] * ns
            exc = ""
            for _ in range(n):
                t, exc = call(m.get_next_state, s, a)
                if exc:
                    break
                counts[I(t)] += 1
            w.ev("sample", s=s, a=a, n=n, counts=counts, exc=exc)

    if not det:
        sample([0] * ns, 3)
    for k in range(3 if det else r.randint(0, 2)):
        arg = rand_walls(r, ns, 0.3)
        arr = as_array(r, arg)
        _, exc = call(setattr, m, "walls", arr)
        w.ev("setw", arg=arg, exc=exc, argafter=IV(arr), oldarg=[], oldargafter=[],
             post=dump(m, g, k + 1, rnd=r) if not exc else {})
        if exc:
            return
        if not det:
            sample(arg, 1)
    if not np.array_equal(sas, sas0):
        w.ev("malformed", what="the caller's transition table was modified")


def big_session(w, r, kind, wd, ht, stay):
    """Long, thin grids: only the transitions (sparse) and the conversions."""
    g = geom(kind, wd, ht, stay)
    m, exc = call(make, kind, wd, ht, stay, None)
    if exc:
        w.ev("big", g=g, exc=exc, rows=[], coords=[], idx=[], ids=[], shape=[])
        return
    sas = np.asarray(m.sas)
    ns, na = g["ns"], g["na"]
    rows = [[[] for _ in range(na)] for _ in range(ns)]
    if sas.shape == (ns, na, ns):
        for s, a, t in np.argwhere(sas > 0):
            rows[s][a].append([int(t), F(sas[s, a, t], PM)])
    w.ev("big", g=g, exc="", shape=[int(x) for x in sas.shape], rows=rows,
         coords=[IV(m.get_state_coords(s)) for s in range(ns)],
         idx=[IV(m.state_to_idx(s)) for s in range(ns)],
         ids=[I(m.idx_to_state(tuple(m.state_to_idx(s)))) for s in range(ns)])


def dist_session(w, r, lim, n):
    pairs = []
    for _ in range(n):
        x1, y1, x2, y2 = [r.randrange(lim) for _ in range(4)]
        pairs.append([x1, y1, x2, y2, I(grid_utils.offset_distance(x1, y1, x2, y2))])
    w.ev("dist", pairs=pairs)


def run(w, a):
    r = random.Random(a.seed * 7919 + 17)
    thorough = a.tier == "thorough"
    kinds = {"C01": ["square"], "C02": ["hex"]}.get(a.focus, ["square", "hex"])
    # every small shape, without edits
    lim = 7 if thorough else 5
    if a.focus in ("C01", "C02"):
        shapes = [(x, y) for x in range(1, lim + 1) for y in range(1, lim + 1)]
        shapes += [(1, 11), (11, 1), (2, 9), (9, 2), (3, 8), (8, 3), (10, 4), (6, 7)]
        if thorough:
            shapes += [(12, 5), (5, 12), (9, 9), (10, 15), (1, 40), (40, 1)]
        else:
            shapes += [(10, 6)]
        for kind in kinds:
            for sh in shapes:
                for stay in (0, 1):
                    scenario(w, "%s %s stay=%d" % (kind, sh, stay), edit_session, r, kind, sh[0], sh[1], stay, 0)
            big = [(140, 1), (1, 140), (2, 131), (131, 2), (3, 60), (60, 3), (20, 15), (300, 1)]
            if thorough:
                big += [(1, 300), (260, 2), (2, 260), (30, 20), (17, 33), (520, 1), (1, 520)]
            for sh in big:
                scenario(w, "big %s %s" % (kind, sh), big_session, r, kind, sh[0], sh[1], r.randint(0, 1))
            for k in range(60 if thorough else 25):
                scenario(w, "%s edits" % kind, edit_session, r, kind, r.randint(1, 6), r.randint(1, 6), r.randint(0, 1), 3)
        if "hex" in kinds:
            for k in range(6):
                scenario(w, "distances", dist_session, r, [4, 12, 40, 400, 3000, 40000][k], 200)
    elif a.focus == "C03":
        for k in range(700 if thorough else 100):
            kind = r.choice(kinds)
            scenario(w, "%s edits" % kind, edit_session, r, kind, r.randint(1, 5), r.randint(1, 5), r.randint(0, 1), r.randint(3, 8))
        for k in range(60 if thorough else 20):
            scenario(w, "table walls", table_session, r, r.randint(2, 8), r.randint(1, 4), r.choice([2, 4, 10]), k % 3 > 0)
    else:
        for k in range(400 if thorough else 60):
            kind = r.choice(kinds)
            scenario(w, "%s edits" % kind, edit_session, r, kind, r.randint(1, 6), r.randint(1, 5), r.randint(0, 1), r.randint(1, 4))
        for k in range(300 if thorough else 60):
            scenario(w, "table", table_session, r, r.randint(2, 9), r.randint(1, 5), r.choice([2, 4, 5, 10, 20]), k % 3 == 0)
        for k in range(300 if thorough else 45):
            scenario(w, "uneven table", table_session, r, r.randint(2, 12), r.randint(1, 3), r.choice([20, 100, 1000, 100000]), False)


main(run)
