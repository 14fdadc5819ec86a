"""Reproducibility of seeded runs (C28): pairs of identically built environments under the same operations,
the second one disturbed by other users of random numbers."""
from vlib import *
from maMDP.mdp import MDP, SquareGridMDP, HexGridMDP
from maMDP.environments import Environment
from maMDP.agents import Agent
from maMDP.algorithms.base import Null
from maMDP.algorithms.dynamic_programming import ValueIteration
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector

S = 100000


def recipe(r):
    """Everything needed to build a system, so that it can be built twice."""
    d = dict(kind=r.choice(["square", "hex", "table", "table"]), stay=r.random() < 0.5, nf=r.choice([1, 2, 3]), n=r.choice([1, 1, 2, 3]))
    if d["kind"] == "table":
        ns, na = r.randint(3, 8), r.randint(1, 4)
        sas = np.zeros((ns, na, ns))
        for s in range(ns):
            for a in range(na):
                ts = r.sample(range(ns), r.choice([1, 2, 3]))
                sas[s, a, ts] = {1: [1.0], 2: [0.5, 0.5], 3: [0.5, 0.25, 0.25]}[len(ts)]
        d.update(sas=sas, ns=ns)
    else:
        d["shape"] = (r.randint(2, 5), r.randint(2, 5))
        d["ns"] = d["shape"][0] * d["shape"][1]
    ns, nf, n = d["ns"], d["nf"], d["n"]
    d["features"] = np.array([[r.choice([0, 0, 1]) for _ in range(ns)] for _ in range(nf)], dtype=float)
    d["agents"] = []
    for i in range(n):
        d["agents"].append(dict(
            sel=r.choice(["max", "softmax"]), temp=r.choice([0.5, 1.0, 4.0]), alg=r.choice([Null, Null, ValueIteration]),
            start=r.randrange(ns), rf=[r.choice([0, 0, 1, 1, -1]) for _ in range(nf + n)], seed=r.choice([0, 1, 7, r.randrange(2 ** 31)]),
            cons=r.sample([f for f in range(nf + n) if f != nf + i], r.choice([0, 1]))))
    d["mseed"] = r.choice([0, 3, r.randrange(2 ** 31)])
    return d


def build(d, seeded):
    if d["kind"] == "table":
        m = MDP(d["features"].copy(), d["sas"].copy(), **(dict(seed=d["mseed"]) if seeded else {}))
    else:
        m = (SquareGridMDP if d["kind"] == "square" else HexGridMDP)(features=d["features"].copy(), shape=d["shape"], self_transitions=d["stay"])
    ags = {}
    for i, a in enumerate(d["agents"]):
        kw = dict(seed=a["seed"]) if seeded else {}
        if a["sel"] == "softmax":
            kw["temperature"] = a["temp"]
        sel = MaxActionSelector if a["sel"] == "max" else SoftmaxActionSelector
        ags[Agent("a%d" % i, algorithm=a["alg"], action_selector=sel, action_kwargs=kw, n_moves=1 + i % 2)] = (a["start"], np.array(a["rf"], dtype=float), a["cons"])
    return Environment(m, ags)


def script(r, d):
    out = [("fit", i) for i in range(d["n"])]
    for _ in range(r.randint(4, 14)):
        out.append((r.choice(["step", "step", "step", "step", "fit", "multi", "inter", "setpos", "reset", "pi"]), r.randrange(d["n"]),
                    r.randrange(d["ns"]), r.randint(1, 4)))
    return out


def perform(env, ops, disturb):
    log = []
    for op in ops:
        nm = "a%d" % op[1]
        disturb()
        if op[0] == "fit":
            r, exc = call(env.fit, nm)
        elif op[0] == "step":
            r, exc = call(env.step, nm)
        elif op[0] == "multi":
            r, exc = call(env.step_multi, nm, op[3], refit=bool(op[2] % 2))
        elif op[0] == "inter":
            r, exc = call(env.step_multi_interactive, n_turns=op[3], refit=False)
        elif op[0] == "setpos":
            r, exc = call(env.set_agent_position, nm, op[2])
        elif op[0] == "reset":
            r, exc = call(env.reset)
        else:
            exc = ""
        ags = list(env.agents.values())
        log.append([exc, [I(a.position) for a in ags], [IV(a.position_history) for a in ags], [IV(a.consumed) for a in ags],
                    IM(env.mdp.features), [[] if a.pi is None else IV(a.pi) for a in ags],
                    [[] if a.pi_p is None else FM(a.pi_p, S) for a in ags]])
    return log


def pair(w, r, seeded):
    d = recipe(r)
    ops = script(r, d)
    k = r.randrange(2 ** 31)
    np.random.seed(k)
    random.seed(k)
    a = perform(build(d, seeded), ops, lambda: None)
    np.random.seed(k if not seeded else r.randrange(2 ** 31))
    random.seed(r.randrange(2 ** 31))
    other = {}

    def disturb():
        x = r.randrange(5)
        if x == 0:
            np.random.random(r.randint(1, 5))
        elif x == 1:
            np.random.seed(r.randrange(1000))
        elif x == 2:
            random.random()
        elif x == 3:                           # another environment, with the same seeds
            e = other.setdefault("e", build(d, True))
            call(e.fit, "a0")
            call(e.step, "a0")
        else:
            call(MaxActionSelector(seed=d["agents"][0]["seed"]).get_pi, np.zeros((3, 4)))
    b = perform(build(d, seeded), ops, disturb if seeded else (lambda: random.random()))
    w.ev("pair", seeded=int(seeded), a=a, b=b)


def run(w, a):
    r = random.Random(a.seed * 6101 + 9)
    mult = 15 if a.tier == "thorough" else 1
    for _ in range(90 * mult):
        scenario(w, "seeded", pair, r, True)
    for _ in range(30 * mult):
        scenario(w, "global generator", pair, r, False)


main(run)
