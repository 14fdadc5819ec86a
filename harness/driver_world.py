"""Running environments: stepping, placement, consumption, reset, multi-step runs, planning budgets,
probabilistic stepping, assembly (C05-C12, and the environment side of C03 and C18)."""
import zlib
from vlib import *
from maMDP.mdp import MDP, SquareGridMDP, HexGridMDP
from maMDP.environments import Environment
from maMDP import environments as envmod
from maMDP.agents import Agent
from maMDP.algorithms.base import Algorithm, Null
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector

PM = 100000


class Scripted(Algorithm):
    """A planner whose action values are given, and which records what it is asked (this is the
    extension point documented in Algorithm)."""

    def __init__(self, script=None):
        super().__init__()
        self.script = script
        self.seen = []
        self.spoil = None
        self.dump = lambda mdp: IM(mdp.features)

    def _fit(self, mdp, reward_function, position, n_moves=None, *args, **kwargs):
        q = self.script(mdp, position)
        if self.spoil is not None:
            return self.spoil(np.zeros(mdp.n_states), q)
        self.seen.append(dict(pos=I(position), rf=IV(reward_function),
                              nm=None if n_moves is None else [IV(x) for x in n_moves],
                              feat=self.dump(mdp), q=ranks(q)))
        return np.zeros(mdp.n_states), q


def qtable(r, mode):
    """A generator of action-value tables for the given MDP."""
    def make(mdp, position):
        ns, na = mdp.n_states, mdp.n_actions
        ok = np.asarray(mdp.sas).sum(axis=2) > 0
        q = np.array([[float(r.randint(0, 3)) for _ in range(na)] for _ in range(ns)])
        if mode in ("legal", "online"):
            q[~ok] = -np.inf
        if mode == "online":                    # only the current state is estimated
            keep = q[position].copy()
            q[:] = np.nan
            q[position] = keep
            if not ok[position].any():
                q[position] = -np.inf
        if mode == "holes":                     # some states unknown, some impossible actions preferred
            q[~ok & (np.array([[r.random() < 0.8 for _ in range(na)] for _ in range(ns)]))] = -np.inf
            for s in range(ns):
                if r.random() < 0.25:
                    q[s] = np.nan
            if np.isnan(q).all():
                q[0] = 0.0
        return q
    return make


def onehot_q(action):
    def make(mdp, position):
        q = np.zeros((mdp.n_states, mdp.n_actions))
        q[np.asarray(mdp.sas).sum(axis=2) == 0] = -np.inf
        q[position, action] = 5.0
        return q
    return make


class World:
    """One environment under observation."""

    def __init__(self, w, i, r):
        self.w, self.i, self.r = w, i, r
        self.env = None

    # -- observation
    def feat(self, m):
        """The features in their own unit (the agents' layers, which come last, are plain numbers)."""
        f = np.array(m.features, dtype=float)
        f[:self.nf] /= self.unit
        return IM(f)

    def post(self):
        env, m = self.env, self.env.mdp
        sas = np.asarray(m.sas)
        tab = []
        if self.sas is None or not np.array_equal(sas, self.sas):
            tab = [[[[int(t), F(sas[s, a, t], PM)] for t in np.flatnonzero(sas[s, a] > 0)]
                    for a in range(sas.shape[1])] for s in range(sas.shape[0])]
            self.sas = sas.copy()
        ags = [env.agents[n] for n in self.names]
        qs = []
        for k, ag in enumerate(ags):
            q = ag.algorithm.q_values
            old = self.q[k]
            same = (q is None and old is None) or (
                q is not None and old is not None and np.array_equal(np.asarray(q), old, equal_nan=True))
            if not same:
                qs.append(k + 1)
            self.q[k] = None if q is None else np.array(q, copy=True)
        return dict(pos=[I(x.position) for x in ags],
                    hist=[IV(env.get_agent_position_history(n)) for n in self.names],
                    tally=[IV(x.consumed) for x in ags], feat=self.feat(m), walls=IV(m.walls),
                    n=I(env.n_steps), tab=tab, qs=qs,
                    pol=[int(x.pi is not None or x.pi_p is not None) for x in ags],
                    polh=[self.polhash(x) for x in ags],
                    nag=I(m.n_agents), nft=I(m.n_features))

    @staticmethod
    def polhash(a):
        b = b""
        for x in (a.pi, a.pi_p):
            b += b"-" if x is None else np.asarray(x, dtype=float).tobytes()
        return zlib.crc32(b) & 0x3fffffff

    def ev(self, op, exc="", **k):
        self.w.ev(op, i=self.i, exc=exc, epi=self.epi, post=self.post(), **k)

    # -- construction
    def build(self, g, own, walls, agents, mdp=None, op="new"):
        self.g, self.spec, self.epi = g, agents, 0
        self.sas, self.q = None, [None] * len(agents)
        self.names = [a["name"] for a in agents]
        d = {}
        self.rfargs = []
        for a in agents:
            if a["alg"] == "null":
                kw = dict(algorithm=Null)
            else:
                kw = dict(algorithm=Scripted, algorithm_kwargs=dict(script=qtable(self.r, a["alg"])))
            sel = dict(action_selector=MaxActionSelector) if a["sel"] == "max" else \
                dict(action_selector=SoftmaxActionSelector, action_kwargs=dict(temperature=a.get("temp", 1.0)))
            rf = np.array(a["rf"]) if a["rfarr"] else list(a["rf"])
            self.rfargs.append(rf)
            d[Agent(a["name"], n_moves=self.num(a["nm"]), **kw, **sel)] = (a["start"], rf, list(a["cons"]))
        sa = [dict(start=a["start"], cons=a["cons"], nm=a["nm"], rf=a["rf"], sel=a["sel"]) for a in agents]
        info = dict(agents=sa, names=self.names)
        warr = None if walls is None else np.array(walls, dtype=self.r.choice([float, int, bool]))
        if op == "new":
            self.nf, self.unit = len(own), self.r.choice([1, 1, 1, 0.25, 3, 0.001])
            feats = np.array(own, dtype=self.r.choice([float, float, int, np.int8])).reshape(len(own), g["ns"])
            if self.unit != 1:
                feats = np.array(own, dtype=float).reshape(len(own), g["ns"]) * self.unit
            self.ownarr, self.own0 = feats, feats.copy()

            def mk():
                if g["kind"] == "table":
                    sas = np.zeros((g["ns"], g["na"], g["ns"]))
                    for s, row in enumerate(g["tab"]):
                        for a, q in enumerate(row):
                            for t, x in q:
                                sas[s, a, t] = x / g["den"]
                    if g["den"] == 1:
                        sas = sas.astype(self.r.choice([float, int, bool]))
                    m = MDP(feats, sas, **({} if warr is None else dict(walls=warr)))
                else:
                    cls = SquareGridMDP if g["kind"] == "square" else HexGridMDP
                    kw = {} if warr is None else dict(walls=warr)
                    m = cls(features=feats, shape=(g["w"], g["h"]), self_transitions=bool(g["stay"]), **kw)
                return Environment(m, d)
            env, exc = call(mk)
            info.update(g=g, walls=walls if walls is not None else [0] * g["ns"], own=own,
                        warg=walls or [], wafter=IV(warr) if warr is not None else [],
                        ownafter=IM(feats / self.unit), rfafter=[IV(x) for x in self.rfargs])
        else:
            env, exc = call(Environment, mdp, d)
        if exc:
            self.w.ev(op, i=self.i, epi=0, exc=exc, post={}, got=[], **info)
            return False
        self.env = env
        for n in self.names:
            if hasattr(env.agents[n].algorithm, "dump"):
                env.agents[n].algorithm.dump = self.feat
        got = [dict(nm=I(a.n_moves), rf=IV(a.reward_function), cons=IV(a.consumes), idx=I(a.agent_idx),
                    fidx=I(a.agent_feature_idx), name=a.name) for a in (env.agents[n] for n in self.names)]
        self.ev(op, got=got, **info)
        return True

    def check_arrays(self):
        """The arrays given at construction, at the end of the scenario."""
        ok = np.array_equal(self.ownarr, self.own0) and all(
            IV(x) == list(a["rf"]) for x, a in zip(self.rfargs, self.spec))
        self.w.ev("arrays", same=int(ok))

    # -- operations
    def name(self, k):
        return self.names[k - 1]

    def agent(self, k):
        return self.env.agents[self.name(k)]

    def fits(self):
        out = []
        for k, n in enumerate(self.names):
            alg = self.env.agents[n].algorithm
            for s in getattr(alg, "seen", []):
                out.append(dict(ag=k + 1, **s))
        return out

    def clear(self):
        for n in self.names:
            if hasattr(self.env.agents[n].algorithm, "seen"):
                self.env.agents[n].algorithm.seen = []

    def fit(self, k, script=None):
        alg = self.agent(k).algorithm
        if script is not None:
            alg.script = script
        pb = [self.polhash(self.env.agents[n]) for n in self.names]
        _, exc = call(self.env.fit, self.name(k))
        q = alg.q_values
        rf = int(all(IV(self.env.agents[n].reward_function) == list(a["rf"]) for n, a in zip(self.names, self.spec)))
        given = [s["q"] for s in getattr(alg, "seen", [])][-1:]
        self.ev("fit", exc=exc, ag=k, q=ranks(q) if not exc else [], polbefore=pb, rfsame=rf, given=given,
                null=int(self.spec[k - 1]["alg"] == "null"))
        self.clear()

    def badfit(self, k, how):
        """The planner returns something that is not a table of action values."""
        alg = self.agent(k).algorithm
        if not isinstance(alg, Scripted):
            return
        alg.spoil = dict(states=lambda v, q: (v, q[:-1]), actions=lambda v, q: (v, np.hstack([q, q])), flat=lambda v, q: (v, q.ravel()),
                         values=lambda v, q: (v[:-1], q), lists=lambda v, q: (v, q.tolist()), error=lambda v, q: 1 // 0)[how]
        _, exc = call(self.env.fit, self.name(k))
        alg.spoil = None
        self.ev("badfit", exc=exc, ag=k, how=how)
        self.clear()

    def query(self, k):
        """Everything the environment reports about an agent's plan."""
        env, nm, a = self.env, self.name(k), self.agent(k)
        q, e1 = call(env.get_agent_q_values, nm)
        pi, e2 = call(env.get_agent_pi, nm)
        pip, e3 = call(env.get_agent_pi_p, nm)
        h, e4 = call(env.get_agent_position_history, nm)
        sel = [] if q is None else FM(a.action_selector.get_pi_p(np.array(q)), PM)
        self.ev("query", ag=k, exc=e4, e=[e1, e2, e3], q=[] if q is None else ranks(q), pi=[] if pi is None else IV(pi),
                pip=[] if pip is None else FM(pip, PM), sel=sel, h=[] if e4 else IV(h))

    def step(self, k):
        before = I(self.agent(k).position)
        r, exc = call(self.env.step, self.name(k))
        pi = -9
        if not exc and self.agent(k).pi is not None:
            pi = I(self.agent(k).pi[before])
        self.ev("step", exc=exc, ag=k, ret=-9 if exc else I(r), pi=pi)

    def setpos(self, k, s):
        _, exc = call(self.env.set_agent_position, self.name(k), s)
        self.ev("setpos", exc=exc, ag=k, s=s)

    def badpos(self, k, s):
        _, exc = call(self.env.set_agent_position, self.name(k), s)
        self.ev("badpos", exc=exc, ag=k, s=s)

    def badname(self, what):
        f = dict(step=lambda: self.env.step("nobody"), fit=lambda: self.env.fit("nobody"),
                 multi=lambda: self.env.step_multi("nobody", 2), setpos=lambda: self.env.set_agent_position("nobody", 0),
                 proba=lambda: self.env.step_proba("nobody"),
                 pi=lambda: self.env.get_agent_pi("nobody"), pip=lambda: self.env.get_agent_pi_p("nobody"),
                 q=lambda: self.env.get_agent_q_values("nobody"), hist=lambda: self.env.get_agent_position_history("nobody"),
                 inter=lambda: self.env.step_multi_interactive(self.names + ["nobody"]))[what]
        _, exc = call(f)
        self.ev("badname", exc=exc, what=what)

    def reset(self):
        _, exc = call(self.env.reset)
        self.ev("reset", exc=exc)
        self.epi += 1

    def walls(self, wl):
        arr = np.array(wl, dtype=self.r.choice([float, int, bool]))
        _, exc = call(setattr, self.env.mdp, "walls", arr)
        self.ev("walls", exc=exc, w=wl)

    def addxy(self, bad=False):
        r, g = self.r, self.g

        def axis(lim):
            c = r.randrange(3)
            if c == 0:
                return [r.randrange(lim)]
            if c == 1:
                a = r.randrange(lim)
                return [a, r.randrange(a, lim + 1)]
            return [r.randrange(lim) for _ in range(3)]
        x, y = axis(g["w"]), axis(g["h"])
        if bad:
            x, y = r.choice([([r.randrange(g["w"])], [r.randrange(g["h"]), g["h"] + r.randint(1, 2)]), ([r.randrange(g["w"]), g["w"] + 1], [0]),
                             ([0, 0, g["w"]], [0])])
        _, exc = call(self.env.mdp.add_wall_xy, tuple(x), tuple(y))
        self.ev("badw" if bad else "addxy", exc=exc, x=x, y=y)

    def clearw(self):
        _, exc = call(self.env.mdp.reset_walls)
        self.ev("clearw", exc=exc)

    def eat(self, fs, s):
        r, exc = call(self.env.mdp.consume_features, list(fs), s)
        self.ev("eat", exc=exc, fs=fs, s=s, ret=[] if exc else IV(r))

    def num(self, n):                              # a plain or a numpy number
        return np.int64(n) if self.r.random() < 0.25 else n

    def nums(self, ns, kinds):
        return self.r.choice(kinds)([self.num(n) for n in ns])

    def multi(self, k, nsk, ns, plan, turns, refit, stop):
        a = {}
        if nsk == "int":
            a["n_steps"] = self.num(ns[0])
        elif nsk == "list":
            a["n_steps"] = self.nums(ns, [list, list, tuple, np.array])
        if plan is not None:
            a["n_moves_plan"] = self.nums(plan, [list, tuple])
        if turns is not None:
            a["n_turns_plan"] = turns
        if refit is not None:
            a["refit"] = bool(refit)
        if stop is not None:
            a["stop_on_caught"] = bool(stop)
        pl0 = list(plan) if plan is not None else None
        if self.r.random() < 0.15:
            a["progressbar"] = True
        r, exc = silent(self.env.step_multi, self.name(k), **a)
        retk = "false" if r is False else "list" if isinstance(r, list) else "other"
        self.ev("multi", exc=exc, ag=k, nsk=nsk, ns=ns, planned=int(plan is not None), plan=pl0 or [],
                turns=turns or 1, refit=int(bool(refit)), stop=int(stop is None or stop),
                ret=IV(r) if retk == "list" else [], retk=retk, fits=[dict(f, nm=f["nm"] or []) for f in self.fits()])
        self.clear()

    def inter(self, order, nm, turns, plan, refit, stop):
        a = {}
        if order is not None:
            a["agent_names"] = [self.name(k) for k in order]
        if nm is not None:
            a["n_moves"] = self.r.choice([list, tuple])([self.nums(x, [list, tuple, np.array]) for x in nm])
        else:
            a["n_turns"] = turns
        if plan is not None:
            a["n_moves_plan"] = tuple(plan)
        if refit is not None:
            a["refit"] = bool(refit)
        if stop is not None:
            a["stop_on_caught"] = bool(stop)
        log = []
        for n in self.names:                       # one common record, in order of fitting
            alg = self.env.agents[n].algorithm
            if hasattr(alg, "seen"):
                alg.seen = Tap(log, self.names.index(n) + 1)
        if self.r.random() < 0.15:
            a["progressbar"] = True
        _, exc = silent(self.env.step_multi_interactive, **a)
        self.ev("inter", exc=exc, agents=order or list(range(1, len(self.names) + 1)), nmk=int(nm is not None),
                nm=[list(x) for x in nm] if nm is not None else [], turns=turns, planned=int(plan is not None), plan=list(plan or []),
                refit=int(bool(refit)), stop=int(stop is None or stop), fits=[dict(f, nm=f["nm"] or []) for f in log])
        self.clear()

    def proba(self, k, weights, scale):
        if weights is None:
            arr, p = None, []
            r, exc = call(self.env.step_proba, self.name(k))
        else:
            arr = np.array(weights, dtype=float) * scale
            p = list(weights)
            keep = arr.copy()
            r, exc = call(self.env.step_proba, self.name(k), arr)
        same = arr is None or np.array_equal(arr, keep)
        pip = []
        if not exc and self.agent(k).pi_p is not None:
            pip = FM(self.agent(k).pi_p, 10000)
        self.ev("proba", exc=exc, ag=k, hasp=int(arr is not None), p=p, pafter=p if same else [-1],
                out=[] if exc else FV(r, 1000000), pip=pip)

    def known(self, k):
        """States where the agent's action values are known (driver-side choice of inputs only)."""
        q = self.agent(k).algorithm.q_values
        return [] if q is None else [s for s in range(q.shape[0]) if not np.isnan(q[s]).all()]


class Tap(list):
    def __init__(self, log, ag):
        super().__init__()
        self.log, self.ag = log, ag

    def append(self, d):
        self.log.append(dict(ag=self.ag, **d))


# ------------------------------------------------------------------ generation
def geom(r, small=False):
    kind = r.choice(["square", "hex"])
    if r.random() < (0.1 if small else 0.2):
        ns, na, den = r.randint(2, 4 if small else 7), r.randint(1, 4), r.choice([1, 1, 2, 4, 5, 10])
        tab = []
        for s in range(ns):
            row = []
            for a in range(na):
                if r.random() < 0.15:
                    row.append([])
                elif den == 1:
                    row.append([[r.randrange(ns), 1]])
                else:
                    ts = r.sample(range(ns), min(ns, r.choice([1, 2, 2, 3]), den))
                    cuts = sorted(r.sample(range(1, den), len(ts) - 1)) if len(ts) > 1 else []
                    row.append([[t, b - x] for t, x, b in zip(ts, [0] + cuts, cuts + [den])])
            tab.append(row)
        return dict(kind="table", w=0, h=0, stay=0, ns=ns, na=na, tab=tab, den=den)
    w, h = r.choice([(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (3, 4), (5, 4), (2, 5), (6, 6)])
    if small:
        w, h = r.choice([(2, 2), (2, 3), (3, 2), (3, 3), (1, 4)])
    stay = r.randint(0, 1)
    return dict(kind=kind, w=w, h=h, stay=stay, ns=w * h, na=(4 if kind == "square" else 6) + stay, tab=[], den=1)


def agents(r, g, nf, n, selfeat=False, catchy=False):
    out = []
    names = r.sample(["Predator", "Prey", "prey", "A", "a", "A ", "B", "agent_1", "agent_10", "x y", "zz", "0"], n)
    for i in range(n):
        pool = [f for f in range(nf + n) if selfeat or f != nf + i]
        c = r.sample(pool, min(len(pool), r.choice([0, 1, 1, 2, 3, 3, 9])))
        if catchy and n > 1:
            j = r.choice([k for k in range(n) if k != i])
            if nf + j not in c and r.random() < 0.7:
                c.append(nf + j)
        if c and r.random() < 0.06:                # named twice
            c.append(r.choice(c))
        out.append(dict(name=names[i], start=r.randrange(g["ns"]), cons=c, nm=r.choice([1, 1, 2, 3, 3, 7]),
                        rf=[r.randint(-2, 3) for _ in range(nf + n)], rfarr=r.random() < 0.6,
                        sel=r.choice(["max", "max", "softmax"]), temp=r.choice([0.5, 1.0, 5.0]),
                        alg=r.choice(["legal", "legal", "legal", "online", "holes", "null"])))
    return out


def fresh(w, r, i, **k):
    g = geom(r, k.get("small", False))
    nf = r.choice([0, 1, 2, 2, 3, 3, 5]) if g["ns"] > 1 else 1
    n = k.get("n") or r.choice([1, 2, 2, 2, 3, 3, 4, 6])
    own = [[r.choice([0, 0, 1, 1, 2, -1]) for _ in range(g["ns"])] for _ in range(nf)]
    walls = None
    if r.random() < 0.4:
        walls = [1 if r.random() < 0.2 else 0 for _ in range(g["ns"])]
    x = World(w, i, r)
    ags = agents(r, g, nf, n, k.get("selfeat", False), k.get("catchy", False))
    if k.get("alg"):
        for a in ags:
            a["alg"] = r.choice(k["alg"])
    if walls is not None and g["ns"] > 1 and r.random() < 0.9:
        for a in ags:
            free = [s for s in range(g["ns"]) if not walls[s]]
            if free:
                a["start"] = r.choice(free)
    return x if x.build(g, own, walls, ags) else None


def random_op(x, r, ops):
    n, ns = len(x.names), x.g["ns"]
    k = r.randint(1, n)
    op = r.choice(ops)
    if op == "step":
        if r.random() < 0.9 and x.agent(k).algorithm.q_values is None:
            x.fit(k)
        elif x.spec[k - 1]["alg"] == "online" and r.random() < 0.85:
            x.fit(k)
        x.step(k)
    elif op == "steps":
        for _ in range(r.randint(2, 5)):
            random_op(x, r, ["step"])
    elif op == "fit":
        x.fit(k)
    elif op == "query":
        x.query(k)
    elif op == "badfit":
        x.badfit(k, r.choice(["states", "actions", "flat", "values", "lists", "error"]))
    elif op == "setpos":
        x.setpos(k, r.randrange(ns))
    elif op == "meet":
        x.setpos(k, I(x.agent(r.randint(1, n)).position))
    elif op == "badpos":
        x.badpos(k, r.choice([ns, ns + 3, -1, -ns, 10 ** 6]))
    elif op == "badname":
        x.badname(r.choice(["step", "fit", "multi", "setpos", "proba", "inter", "pi", "pip", "q", "hist"]))
    elif op == "reset":
        x.reset()
    elif op == "walls":
        x.walls([1 if r.random() < r.choice([0, 0.15, 0.4]) else 0 for _ in range(ns)])
    elif op in ("addxy", "clearw", "badw"):
        if x.g["kind"] != "table":
            if op == "clearw":
                x.clearw()
            else:
                x.addxy(op == "badw")
    elif op == "eat":
        x.eat(r.sample(range(len(x.spec[0]["rf"])), r.randint(0, min(2, len(x.spec[0]["rf"])))), r.randrange(ns))
    elif op == "rewrap":
        m = x.env.mdp
        nf = len(x.spec[0]["rf"]) - n
        ags = agents(r, x.g, nf, r.choice([1, 2, 3]))
        return x.build(x.g, None, None, ags, mdp=m, op="rewrap")
    elif op == "proba":
        part = x.g["den"] > 1 and np.any(x.env.mdp.walls)
        if part and x.spec[k - 1]["sel"] != "max":
            return True            # outcomes walled off: exact for greedy policies only
        if x.agent(k).algorithm.q_values is None and r.random() < 0.9:
            x.fit(k)
        kn = x.known(k)
        if not kn:
            if x.agent(k).algorithm.q_values is None:
                x.proba(k, None, 1)
            return True
        if r.random() < 0.3 and I(x.agent(k).position) in kn:
            x.proba(k, None, 1)
        else:
            ws = [0] * ns
            for s in r.sample(kn, min(len(kn), r.choice([1, 2, 3, 5, 8]))):
                ws[s] = r.choice([1, 1, 2, 3] if part or x.spec[k - 1]["sel"] != "max" or r.random() < 0.6 else [1, 2, 700, 4000])
            tot = sum(ws)
            x.proba(k, ws, r.choice([1.0, 1.0 / tot, 0.5, 7.0, 1.0 / (2 * tot)]))
    elif op == "multi":
        plan = None if r.random() < 0.4 else [r.randint(1, r.choice([7, 7, 20])) for _ in range(n)]
        if plan is not None and r.random() < 0.12:
            plan = r.choice([plan[:-1], plan + [1], [0] + plan[1:], plan[:-1] + [-1], plan[:-1] + [0]])
        nsk = r.choice(["none", "int", "int", "list"])
        ns_ = [] if nsk == "none" else [r.randint(1, r.choice([6, 6, 6, 16]))] if nsk == "int" else [r.randint(1, 4) for _ in range(n)]
        refit = r.choice([None, 0, 1, 1])
        if refit and x.spec[k - 1]["alg"] == "null":
            refit = 0
        if not refit:
            x.fit(k)
            if nsk == "int" and r.random() < 0.15:
                ns_ = [r.randint(28, 70)]
        x.multi(k, nsk, ns_, plan, r.choice([None, 1, 2, 3, 4, 8]), refit, r.choice([None, 0, 1]))
    elif op == "inter":
        order = r.choice([None, r.sample(range(1, n + 1), r.randint(1, n))])
        nord = order or list(range(1, n + 1))
        plan = None if r.random() < 0.5 else [r.randint(1, 6) for _ in range(n)]
        if plan is not None and r.random() < 0.08:
            plan = r.choice([plan[:-1], plan + [1], [0] + plan[1:]])
        turns = r.choice([1, 2, 3, 3, 6])
        nm = None if r.random() < 0.5 else [[r.choice([0, 1, 1, 2, 3]) for _ in range(turns)] for _ in nord]
        refit = r.choice([None, 0, 1, 1])
        if any(x.spec[j - 1]["alg"] == "null" for j in nord):
            refit = 0
        if not refit:
            for j in nord:
                x.fit(j)
        x.inter(order, nm, turns, plan, refit, r.choice([None, 0, 1]))
    return True


def session(w, r, nops, ops, two=False, **k):
    xs = [x for x in [fresh(w, r, i, **k) for i in ((1, 2) if two else (1,))] if x]
    for _ in range(nops):
        if not xs:
            return
        j = r.randrange(len(xs))
        if random_op(xs[j], r, ops) is False:
            xs.pop(j)
    for x in xs:
        x.check_arrays()


def replay(w, r, b):
    """A behaviour generated by TLC from WorldSim, on the real code."""
    g = b["setup"]["g"]
    x = World(w, 1, r)
    nf = len(b["setup"]["own"])
    ags = [dict(name="a%d" % (i + 1), start=a["start"], cons=a["cons"], nm=a["nm"], rf=[1] * (nf + 2), rfarr=True,
                sel=r.choice(["max", "softmax"]), temp=0.01, alg="legal") for i, a in enumerate(b["setup"]["agents"])]
    if not x.build(g, b["setup"]["own"], None, ags):
        return
    for o in b["log"]:
        if o["op"] == "step":
            x.fit(o["ag"], onehot_q(o["a"]))
            x.step(o["ag"])
        elif o["op"] == "setpos":
            x.setpos(o["ag"], o["t"])
        elif o["op"] == "walls":
            wl = IV(x.env.mdp.walls)
            wl[o["t"]] = 1 - wl[o["t"]]
            x.walls(wl)
        elif o["op"] == "eat":
            x.eat([0, 1], o["t"])
        else:
            x.reset()
    x.check_arrays()


def alloc_all(w, r, lim):
    f = getattr(envmod, "get_n_moves_plan", None)
    if f is None:
        return
    for m in range(1, lim + 1):
        for k in range(0, m):
            for t in range(1, lim + 1):
                for p in range(1, 2 * lim + 4):
                    out, exc = call(f, k, t, m, p)
                    w.ev("alloc", k=k, t=t, m=m, p=p, exc=exc, out=[] if exc else IV(out))


def bad_constructions(w, r):
    ns = 6
    feats = lambda n=2: np.zeros((n, ns))
    mk = lambda: SquareGridMDP(features=feats(), shape=(3, 2))
    ok = [0.0, 1.0, 0.0]
    A = lambda n="a": Agent(n)
    sas = lambda: SquareGridMDP(features=feats(), shape=(3, 2)).sas.copy()

    def env(*specs, mdp=None):
        return Environment(mdp or mk(), {A("n%d" % i): s for i, s in enumerate(specs)})
    bads = {
        "reward function of wrong length (short)": lambda: env((0, np.array([1.0, 0.0]), [])),
        "reward function of wrong length (long)": lambda: env((0, np.array([1.0, 0.0, 0.0, 1.0]), [])),
        "reward function wrong length for the second agent": lambda: env((0, np.ones(4), []), (1, np.ones(3), [])),
        "reward function without entries for the agents": lambda: env((0, np.ones(2), [0])),
        "two-dimensional reward function": lambda: env((0, np.array([ok]), [])),
        "reward function of wrong type (string)": lambda: env((0, "abc", [])),
        "reward function of wrong type (number)": lambda: env((0, 3, [])),
        "reward function of wrong type (dict)": lambda: env((0, {0: 1, 1: 0, 2: 0}, [])),
        "reward function of wrong type (None)": lambda: env((0, None, [])),
        "position of wrong type (float)": lambda: env((1.0, np.array(ok), [])),
        "position of wrong type (string)": lambda: env(("1", np.array(ok), [])),
        "position of wrong type (None)": lambda: env((None, np.array(ok), [])),
        "position of wrong type (list)": lambda: env(([1], np.array(ok), [])),
        "position just beyond the last state": lambda: env((ns, np.array(ok), [])),
        "position far beyond the last state": lambda: env((1000, np.array(ok), [])),
        "negative position": lambda: env((-1, np.array(ok), [])),
        "second agent's position out of range": lambda: env((0, np.ones(4), []), (ns, np.ones(4), [])),
        "consumed index just out of range": lambda: env((0, np.array(ok), [3])),
        "consumed index out of range after a legal one": lambda: env((0, np.array(ok), [0, 7])),
        "duplicate agent names": lambda: Environment(mk(), {A("n"): (0, np.ones(4), []), A("n"): (1, np.ones(4), [])}),
        "two of three agents share a name": lambda: Environment(mk(), {A("n"): (0, np.ones(5), []), A("m"): (1, np.ones(5), []), A("n"): (2, np.ones(5), [])}),
        "agent name of wrong type": lambda: Agent(3),
        "algorithm settings of wrong type": lambda: Agent("a", algorithm_kwargs=[1]),
        "action selector settings of wrong type": lambda: Agent("a", action_kwargs=[1]),
        "two-dimensional transition table": lambda: MDP(feats(), sas()[:, 0, :]),
        "non-square transition table": lambda: MDP(feats(), sas()[:, :, :-1]),
        "transition table of wrong type": lambda: MDP(feats(), sas().tolist()),
        "probabilities above one": lambda: MDP(feats(), sas() * 2),
        "negative probabilities": lambda: MDP(feats(), sas() - 0.5),
        "one negative probability": lambda: MDP(feats(), neg(sas())),
        "too few states in the features": lambda: SquareGridMDP(features=np.zeros((2, 5)), shape=(3, 2)),
        "too many states in the features": lambda: SquareGridMDP(features=np.zeros((2, 7)), shape=(3, 2)),
        "too many states in the features (hex)": lambda: HexGridMDP(features=np.zeros((2, 7)), shape=(3, 2)),
        "too few states in the features (table)": lambda: MDP(np.zeros((2, 5)), sas()),
        "features transposed": lambda: SquareGridMDP(features=np.zeros((6, 2)), shape=(3, 2)),
        "features of wrong type": lambda: SquareGridMDP(features=[[0] * 6], shape=(3, 2)),
        "walls too short": lambda: SquareGridMDP(features=feats(), shape=(3, 2), walls=np.zeros(5)),
        "walls too long": lambda: HexGridMDP(features=feats(), shape=(3, 2), walls=np.zeros(7)),
        "walls not 0/1": lambda: HexGridMDP(features=feats(), shape=(3, 2), walls=np.array([0, 0, 2, 0, 0, 0.0])),
        "two-dimensional walls (table)": lambda: MDP(feats(), sas(), walls=np.zeros((1, 6))),
        "walls too long (table)": lambda: MDP(feats(), sas(), walls=np.zeros(7)),
    }

    def neg(x):
        x[0, 0, 0] = -0.01
        return x
    for what, f in bads.items():
        _, exc = call(f)
        w.ev("badnew", what=what, exc=exc)
    for _ in range(60):                            # one fault in an otherwise legal assembly of any size
        g = geom(r)
        nf, n = r.choice([0, 1, 2, 3, 5]), r.choice([1, 2, 3, 4])
        ags = agents(r, g, nf, n)
        bad = r.choice(ags)
        what = r.choice(["index", "short", "long", "place", "minus"])
        if what == "index":
            bad["cons"].insert(r.randrange(len(bad["cons"]) + 1), nf + n + r.choice([0, 0, 1, 5]))
        elif what == "short":
            bad["rf"] = bad["rf"][:-1]
        elif what == "long":
            bad["rf"] = bad["rf"] + [1]
        else:
            bad["start"] = g["ns"] + r.choice([0, 0, 3]) if what == "place" else -r.randint(1, g["ns"])
        feats = np.array([[r.choice([0, 1]) for _ in range(g["ns"])] for _ in range(nf)], dtype=float).reshape(nf, g["ns"])

        def mk():
            if g["kind"] == "table":
                sas = np.zeros((g["ns"], g["na"], g["ns"]))
                sas[:, :, 0] = 1
                m = MDP(feats, sas)
            else:
                m = (SquareGridMDP if g["kind"] == "square" else HexGridMDP)(features=feats, shape=(g["w"], g["h"]), self_transitions=bool(g["stay"]))
            d = {Agent(a["name"]): (a["start"], np.array(a["rf"]) if a["rfarr"] else list(a["rf"]), list(a["cons"])) for a in ags}
            return lambda: Environment(m, d)
        _, exc = call(mk())
        w.ev("badnew", what="%d agents, %d features, one fault: %s" % (n, nf, dict(index="consumed index out of range", short="reward function too short",
             long="reward function too long", place="position beyond the last state", minus="negative position")[what]), exc=exc)


def bad_mdps(w, r):
    """One fault in an otherwise legal MDP of any kind and size."""
    for _ in range(60):
        ns, na, nf = r.choice([1, 2, 3, 5, 8, 12]), r.choice([1, 2, 4, 6]), r.choice([1, 2, 3, 6])
        sas = np.zeros((ns, na, ns))
        for s in range(ns):
            for a in range(na):
                if r.random() < 0.7:
                    sas[s, a, r.randrange(ns)] += 0.5
                    sas[s, a, r.randrange(ns)] += 0.5
        feats = np.array([[r.choice([0, 1]) for _ in range(ns)] for _ in range(nf)], dtype=float).reshape(nf, ns)
        walls = np.array([r.choice([0, 0, 1]) for _ in range(ns)])
        cell = (r.randrange(ns), r.randrange(na), r.randrange(ns))
        what = r.choice(["a probability above one", "a negative probability", "features too wide", "features too narrow", "a wall value other than 0 and 1",
                         "walls too long", "walls too short", "one state too many in the table", "two-dimensional walls"])
        if what == "a probability above one":
            sas[cell] = r.choice([1.01, 1.5, 2, 40])
        elif what == "a negative probability":
            sas[cell] = r.choice([-0.01, -0.5, -1, -30])
        elif what == "features too wide":
            feats = np.hstack([feats, feats[:, :1]])
        elif what == "features too narrow":
            feats = feats[:, 1:]
        elif what == "a wall value other than 0 and 1":
            walls = walls.astype(r.choice([int, float]))
            walls[r.randrange(ns)] = r.choice([2, -1, 7])
        elif what == "walls too long":
            walls = np.append(walls, 0)
        elif what == "walls too short":
            walls = walls[1:]
        elif what == "one state too many in the table":
            sas = np.concatenate([sas, sas[:1]]) if r.random() < 0.5 else np.concatenate([sas, sas[:, :, :1]], axis=2)
        else:
            walls = walls[None, :]
        if "probability" in what and r.random() < 0.3:
            walls = None
        _, exc = call(lambda: MDP(feats, sas, walls) if walls is not None else MDP(feats, sas))
        w.ev("badnew", what="table of %d states, %d actions, %d features, one fault: %s" % (ns, na, nf, what), exc=exc)


BASIC = ["step", "step", "step", "step", "fit", "setpos"]
MIX = {
    "C03": (["walls", "walls", "addxy", "addxy", "clearw", "badw", "step", "steps", "steps", "setpos", "reset", "rewrap", "fit"], dict()),
    "C05": (BASIC + ["steps", "badname", "walls", "addxy", "clearw", "meet", "reset"], dict()),
    "C06": (["step", "step", "setpos", "setpos", "meet", "badpos", "reset", "rewrap", "multi", "walls"], dict()),
    "C07": (["step", "step", "steps", "steps", "setpos", "meet", "eat", "reset", "fit", "multi"], dict(selfeat=False, small=True)),
    "C08": (["step", "steps", "setpos", "reset", "reset", "eat", "fit", "multi", "walls", "addxy", "meet"], dict(small=True)),
    "C09": (["multi", "multi", "inter", "inter", "setpos", "reset", "step"], dict(catchy=True, small=True, alg=["legal", "legal", "online"])),
    "C10": (["multi", "multi", "multi", "inter", "inter", "setpos"], dict(alg=["legal", "online"])),
    "C11": (["proba", "proba", "proba", "step", "setpos", "walls", "reset"], dict()),
    "C12": (["rewrap", "step", "setpos", "reset", "fit", "eat", "walls"], dict()),
    "C27": (["query", "query", "query", "fit", "fit", "step", "multi", "inter", "setpos", "reset", "badfit", "badname", "walls"], dict()),
    "C18": (["fit", "fit", "fit", "step", "multi", "inter", "reset", "eat"], dict()),
}


def run(w, a):
    r = random.Random(a.seed * 7907 + 11)
    th = a.tier == "thorough"
    ops, kw = MIX.get(a.focus, MIX["C05"])
    mult = 10 if th else 1
    if a.extra:
        for b in json.load(open(a.extra)):
            scenario(w, "TLC behaviour", replay, r, b)
    # single steps first in every file, so that faults of a step are known as such
    for k in range(10 * mult):
        scenario(w, "steps", session, r, 12, ["step", "step", "steps", "setpos", "fit"], **dict(kw, alg=["legal"]))
    for k in range(100 * mult):
        scenario(w, "mixed", session, r, r.choice([6, 9, 12, 15, 18, 40]), ops, **kw)
    for k in range(3 * mult):
        scenario(w, "long walk", session, r, 75, ["step"], **dict(kw, alg=["legal"], small=True))
    for k in range(15 * mult):
        scenario(w, "two environments", session, r, 20, ops, two=True, **kw)
    if a.focus in ("C05", "C07", "C08"):
        for k in range(15 * mult):
            scenario(w, "self-eating", session, r, 14, ["step", "steps", "setpos", "reset"], **dict(kw, selfeat=True))
    if a.focus == "C27":
        for k in range(60 * mult):
            scenario(w, "replanning", session, r, 14, ["fit", "fit", "query", "query", "step", "reset"], **dict(kw, small=True))
    if a.focus == "C10":
        scenario(w, "allocation", alloc_all, r, 9 if th else 6)
    if a.focus == "C12":
        scenario(w, "ill-formed", bad_constructions, r)
        scenario(w, "ill-formed MDPs", bad_mdps, r)
        for k in range(60 * mult):
            scenario(w, "assembly", session, r, 2, ["rewrap", "reset"])


main(run)
