"""Tree-search fits: playouts, statistics, purity and caching (C16-C18)."""
import zlib
from vlib import *
from numba import njit
from maMDP.mdp import MDP, SquareGridMDP, HexGridMDP
from maMDP.environments import Environment
from maMDP.agents import Agent
from maMDP.algorithms.base import Null
from maMDP.algorithms.dynamic_programming import ValueIteration
from maMDP.algorithms.mcts import MCTS
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector

RS = 2          # reward weights are multiples of 1/2


@njit
def seed_compiled(n):
    np.random.seed(n)


def crc(x):
    return zlib.crc32(np.ascontiguousarray(np.asarray(x, dtype=float)).tobytes()) & 0x3fffffff


def world(env, mover):
    """Everything planning for `mover' must leave alone."""
    m = env.mdp
    out = [crc(m.features), crc(m.sas), crc(m.walls), crc(m.adjacency), I(env.n_steps), I(m.n_agents), I(m.n_features)]
    for n, a in env.agents.items():
        out += [I(a.position), crc(a.position_history), crc(a.consumed), crc(a.reward_function), crc(a.consumes),
                I(a.n_moves), I(a.agent_idx), I(a.agent_feature_idx)]
        if n != mover:
            for x in (a.algorithm.q_values, a.algorithm.values, a.pi, a.pi_p):
                out.append(0 if x is None else crc(x))
    return out


def table(r, ns, na):
    tab = [[[[r.randrange(ns), 1]] if r.random() < 0.8 or a == 0 else [] for a in range(na)] for s in range(ns)]
    return dict(kind="table", w=0, h=0, stay=0, ns=ns, na=na, tab=tab, den=1)


def grid(r, big, huge=0, small=False):
    kind = r.choice(["square", "hex"])
    if small:
        w, h = r.choice([(2, 2), (2, 2), (1, 3), (3, 1), (2, 3), (1, 2)])
        stay = r.randint(0, 1)
        return dict(kind=kind, w=w, h=h, stay=stay, ns=w * h, na=(4 if kind == "square" else 6) + stay, tab=[], den=1)
    if huge:
        return dict(kind=kind, w=huge, h=huge, stay=0, ns=huge * huge, na=4 if kind == "square" else 6, tab=[], den=1)
    w, h = r.choice([(2, 2), (2, 3), (3, 2), (3, 3), (1, 5), (4, 2)] + ([(4, 3), (3, 4)] if big else []))
    stay = r.randint(0, 1)
    return dict(kind=kind, w=w, h=h, stay=stay, ns=w * h, na=(4 if kind == "square" else 6) + stay, tab=[], den=1)


def make_mdp(g, feats, walls, kind=float):
    kw = {} if walls is None else dict(walls=np.array(walls, dtype=kind))
    feats = feats.astype(kind if kind is not bool else int)
    if g["kind"] == "table":
        sas = np.zeros((g["ns"], g["na"], g["ns"]))
        for s, row in enumerate(g["tab"]):
            for a, q in enumerate(row):
                for t, x in q:
                    sas[s, a, t] = 1
        return MDP(feats, sas, **kw)
    cls = SquareGridMDP if g["kind"] == "square" else HexGridMDP
    return cls(features=feats, shape=(g["w"], g["h"]), self_transitions=bool(g["stay"]), **kw)


class Session:
    def __init__(self, w, r, big, inter=None, caching=None, nmax=3, nmin=1, quick_iter=(6, 25), huge=0, mode=None, **force):
        self.w, self.r = w, r
        g = self.g = table(r, r.randint(3, 7), r.randint(2, 3)) if not huge and r.random() < 0.1 else grid(r, big, huge)
        if mode is not None:
            g = self.g = grid(r, big, small=True)
        ns = g["ns"]
        nf = r.choice([1, 1, 2, 2, 3]) if mode != "dense" else r.choice([2, 3, 4])
        feats = np.array([[r.choice([0, 0, 1, 1, 2] if mode != "dense" else [0, 1, 1, 1, 2]) for _ in range(ns)] for _ in range(nf)], dtype=float)
        walls = [1 if r.random() < 0.15 else 0 for _ in range(ns)] if g["kind"] != "table" and r.random() < 0.35 else None
        m = make_mdp(g, feats, walls, r.choice([float, float, int, bool]))
        poss = [s for s in range(ns) if np.asarray(m.sas)[s].any()]
        if not poss:
            m = make_mdp(g, feats, None)
            walls = None
            poss = [s for s in range(ns) if np.asarray(m.sas)[s].any()]
        self.walls = walls or [0] * ns
        if mode == "crowd":
            poss = r.sample(poss, min(len(poss), r.choice([1, 2, 2, 2])))
            heap = r.random() < 0.7
        self.poss = poss
        n = self.n = 5 if nmax == 3 and r.random() < 0.06 else r.randint(nmin, nmax)
        self.kw = dict(n_iter=r.randint(*quick_iter), n_steps=r.randint(1, 6), C=r.choice([0, 1, 2, 4, 4, 8, 40]) / 4,
                       caught_cost=r.choice([-50, -50, -7, 0]), interactive=bool(r.random() < 0.85 if inter is None else inter),
                       opponent_policy_method=r.choice(["solve", "solve", "solve", "random"]),
                       opponent_action_selection=r.choice(["max", "max", "softmax"]),
                       softmax_temperature=r.choice([0, 0.002, 0.002, 1, 1e6, 1e6]),
                       caching=bool(r.random() < 0.4 if caching is None else caching),
                       return_states=True, return_other_agent_states=True,
                       VI_kwargs=dict(VI_discount=0.5, VI_tol=1e-7))
        self.kw.update(force)
        if not force and r.random() < 0.1:
            self.kw["return_states"] = self.kw["return_other_agent_states"] = False
        if self.kw["caching"] and r.random() < 0.3:
            self.kw["reset_cache"] = False
        self.frozen = not self.kw.get("reset_cache", True)   # nothing real is eaten between fits then
        d = {}
        self.names, self.rf, self.cons, self.nm = [], [], [], []
        mover = r.randrange(n)
        for i in range(n):
            pool = [f for f in range(nf + n) if f != nf + i]
            c = r.sample(pool, min(len(pool), r.choice([0, 1, 1, 2])))
            if n > 1 and r.random() < 0.6:
                j = r.choice([k for k in range(n) if k != i])
                if nf + j not in c:
                    c.append(nf + j)
            if mode == "crowd":
                c = [f for f in pool if r.random() < 0.45]
                r.shuffle(c)
            elif mode == "dense":
                c = r.sample(range(nf), r.choice([1, 1, 2]))
            rf = [r.choice([-2, 0, 0, 1, 2, 3, 4]) for _ in range(nf + n)]
            name = "%s%d" % (r.choice("pqrs"), i)
            nm = r.choice([1, 1, 2, 3, 5])
            if i == mover:
                ag = Agent(name, nm, algorithm=MCTS, algorithm_kwargs=self.kw)
            else:
                ag = Agent(name, nm, algorithm=r.choice([Null, ValueIteration]))
            at = r.choice(poss) if mode != "crowd" or not heap else poss[-1] if i == mover else poss[0]
            d[ag] = (at, np.array(rf, dtype=float) / RS, c)
            self.names.append(name)
            self.rf.append(rf)
            self.cons.append(c)
            self.nm.append(nm)
        self.mover = mover
        self.nf = nf
        self.env = Environment(m, d)
        self.walkers = set()

    def fit(self, refit_via=None):
        env, r, mv = self.env, self.r, self.mover
        name = self.names[mv]
        order = [mv] + [i for i in range(self.n) if i != mv]
        given = r.random() < 0.6
        nmoves = []
        if given:
            t = r.randint(1, 3)
            nmoves = [[r.choice([0, 1, 1, 2, 2, 3]) for _ in range(t)] for _ in order]
            if sum(nmoves[0]) == 0:
                nmoves[0][r.randrange(t)] = 1
        seed_compiled(r.randrange(10 ** 6))
        pre = world(env, name)
        feat = IM(env.mdp.features)
        walls = IV(env.mdp.walls)
        ags = [dict(pos=I(env.agents[self.names[i]].position), lay=self.nf + i, cons=self.cons[i], rf=self.rf[i], nm=self.nm[i])
               for i in order]
        arg = [list(x) for x in nmoves]
        if given:
            _, exc = call(env.fit, name, n_moves=r.choice([list, tuple])(arg))
        else:
            _, exc = call(env.fit, name)
        alg = env.agents[name].algorithm
        post = world(env, name)
        e = dict(g=self.g, walls=walls, feat=feat, agents=ags, rs=RS, given=int(given), nmoves=nmoves,
                 nsteps=self.kw["n_steps"], niter=self.kw["n_iter"], c4=int(self.kw["C"] * 4), cost=self.kw["caught_cost"],
                 inter=int(self.kw["interactive"]), method=self.kw["opponent_policy_method"],
                 sel=self.kw["opponent_action_selection"], temp=int(self.kw["softmax_temperature"] * 1000), caching=int(self.kw["caching"]), pre=pre, postw=post,
                 seen=int(self.kw["return_states"]))
        if exc:
            self.w.ev("mcts", exc=exc, V=[], N=[], visited=[], others=[], q=[], restnan=1, values=[], **e)
            return False
        q = np.asarray(alg.q_values)
        pos = ags[0]["pos"]
        rest = np.delete(q, pos, axis=0)
        vis = [IV(x) for x in alg.visited_states] if self.kw["return_states"] else []
        oth = [[IV(y) for y in x] for x in alg.other_agent_visited_states] if self.kw["interactive"] and self.kw["return_states"] else []
        self.w.ev("mcts", V=IV(np.asarray(alg.V) * RS), N=IV(alg.N), visited=vis, others=oth, q=FV(q[pos], 10000),
                  restnan=int(np.isnan(rest).all()), values=IV(np.asarray(alg.values) * RS), **e)
        return True

    def fit_other(self):
        i = self.r.randrange(self.n)
        if i == self.mover:
            return
        name = self.names[i]
        pre = world(self.env, name)
        _, exc = call(self.env.fit, name)
        self.w.ev("fitonly", exc=exc, alg=type(self.env.agents[name].algorithm).__name__, pre=pre, postw=world(self.env, name))

    def act(self):
        r, env = self.r, self.env
        op = r.choice(["step", "step", "setpos", "setpos", "reset", "other", "otherstep"])
        if self.frozen and op in ("step", "otherstep", "reset"):
            op = "setpos"
        if op == "step":
            call(env.step, self.names[self.mover])
        elif op == "otherstep":
            i = r.randrange(self.n)
            if i != self.mover:
                self.fit_other()
                call(env.fit, self.names[i])
                call(env.step, self.names[i])
        elif op == "setpos":
            call(env.set_agent_position, self.names[r.randrange(self.n)], r.choice(self.poss))
        elif op == "reset":
            call(env.reset)
        else:
            self.fit_other()


def session(w, r, fits, big, **k):
    s = Session(w, r, big, **k)
    for i in range(fits):
        if not s.fit():
            return
        for _ in range(r.randint(0, 3)):
            s.act()


def run(w, a):
    r = random.Random(a.seed * 7901 + 5)
    th = a.tier == "thorough"
    mult = 25 if th else 3
    if a.focus == "C18":
        for k in range(45 * mult):
            scenario(w, "caching", session, r, r.randint(2, 4), th, inter=True, caching=True)
        for k in range(12 * mult):
            scenario(w, "dense", session, r, 2, th, inter=True, caching=True, mode="dense", nmin=2, quick_iter=(20, 30),
                     opponent_policy_method="solve", opponent_action_selection="max")
        for k in range(20 * mult):
            scenario(w, "search", session, r, 3, th)
    elif a.focus == "C16":
        for k in range(55 * mult):
            scenario(w, "interactive", session, r, r.randint(1, 3), th, inter=True)
        for k in range(25 * mult):
            scenario(w, "crowd", session, r, 2, th, inter=True, mode="crowd", nmin=r.choice([2, 3, 3]), nmax=4, quick_iter=(4, 10))
        for k in range(10 * mult):
            scenario(w, "alone", session, r, 2, th, inter=False)
        for k in range(4 * mult):
            scenario(w, "random opponents", session, r, 6, th, inter=True, nmin=2, nmax=2, quick_iter=(20, 30), n_steps=6, huge=4 * (k % 2),
                     **r.choice([dict(opponent_policy_method="random"),
                                 dict(opponent_policy_method="solve", opponent_action_selection="softmax", softmax_temperature=1e6)]))
    else:
        for k in range(25 * mult):
            scenario(w, "crowd", session, r, 2, th, inter=True, mode="crowd", nmin=r.choice([2, 3, 3]), nmax=4, quick_iter=(4, 10))
        for k in range(35 * mult):
            scenario(w, "search", session, r, r.randint(1, 3), th)
        for k in range(15 * mult):
            scenario(w, "long", session, r, 1, th, nmax=2, quick_iter=(60, 90))
        for k in range(15 * mult):
            scenario(w, "alone", session, r, 2, th, inter=False, quick_iter=(30, 60))
        for k in range(3 * mult):
            scenario(w, "many", session, r, 14, th, inter=False, quick_iter=(5, 9), n_steps=12, huge=12)


main(run)
