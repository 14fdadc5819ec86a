"""Saving and loading environments (C19)."""
import tempfile
from vlib import *
from maMDP.mdp import HexGridMDP
from maMDP.environments import Environment
from maMDP.agents import Agent
from maMDP.algorithms.dynamic_programming import ValueIteration
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
from maMDP.env_io import hex_env_to_dict, hex_env_to_json, hex_environment_from_dict, hex_environment_from_json

def num(x):
    """Exactly, as text (the specification only compares them)."""
    return repr(float(x))


def nums(q):
    return [num(x) for x in q]


def agent_of(a):
    return dict(name=a.name, pos=I(a.position), nm=I(a.n_moves), rf=nums(a.reward_function), cons=IV(a.consumes),
                alg=dict(name=type(a.algorithm).__name__, discount=num(a.algorithm.discount), tol=num(a.algorithm.tol),
                         max_iter=I(a.algorithm.max_iter)),
                sel=dict(name=type(a.action_selector).__name__, temp=num(getattr(a.action_selector, "temperature", 0)),
                         seeded=int(a.action_selector.rng is not np.random)))


def world(env):
    m = env.mdp
    n = len(env.agents)
    feat = IM(m.features)
    sas = np.asarray(m.sas)
    nxt = [[int(np.argmax(sas[s, a])) if sas[s, a].any() else -1 for a in range(sas.shape[1])] for s in range(sas.shape[0])]
    k = len(feat) - n
    return dict(w=I(m.shape[0]), h=I(m.shape[1]), stay=int(bool(m.self_transitions)), feat=feat[:k], own=feat[k:], names=[],
                walls=IV(m.walls), agents=[agent_of(a) for a in env.agents.values()], next=nxt)


ALG = {"value_iteration": "ValueIteration"}
SEL = {"max": "MaxActionSelector", "softmax": "SoftmaxActionSelector"}
DEF = dict(discount=0.9, tol=1e-8, max_iter=500)


def saved(d, xy):
    out = dict(type=d["type"], size=IV(d["size"]), stay=int(bool(d["self_transitions"])), names=[str(k) for k in d["features"]])
    if xy:
        pair = lambda q: [[I(p[0]), I(p[1])] for p in q]
        out["features"] = [pair(v) for v in d["features"].values()]
        out["walls"] = pair(d["walls"])
        out["pos"] = [pair(list(a.values())[0]["position"]) for a in d["agents"]]
    else:
        out["features"] = [[I(s) for s in v] for v in d["features"].values()]
        out["walls"] = [I(s) for s in d["walls"]]
    ags = []
    for a in d["agents"]:
        (name, v), = a.items()
        kw = dict(DEF)
        kw.update(v["algorithm_kwargs"])
        akw = v["action_kwargs"]
        ags.append(dict(name=name, pos=-1 if xy else I(v["position"]), nm=I(v["n_moves"]), rf=nums(v["reward_function"]),
                        cons=[I(c) for c in v["consumes"]],
                        alg=dict(name=ALG.get(v["algorithm"], "?"), discount=num(kw["discount"]), tol=num(kw["tol"]), max_iter=I(kw["max_iter"])),
                        sel=dict(name=SEL.get(v["action_selector"], "?"),
                                 temp=num(akw.get("temperature", 1) if v["action_selector"] == "softmax" else 0),
                                 seeded=int(akw.get("seed") is not None))))
    out["agents"] = ags
    return out


def build(r):
    w, h = (r.randint(1, 5), r.randint(1, 5)) if r.random() < 0.96 else r.choice([(12, 11), (2, 70), (66, 2), (14, 10), (20, 13)])
    ns = w * h
    nf = r.choice([1, 2, 3, 4, 4, 12])
    n = r.choice([1, 2, 3, 3, 5])
    feat = np.array([[1.0 if r.random() < 0.35 else 0.0 for _ in range(ns)] for _ in range(nf)])
    if r.random() < 0.2:
        feat[r.randrange(nf)] = 0
    kw = {}
    if r.random() < 0.6:
        kw["walls"] = np.array([1 if r.random() < 0.2 else 0 for _ in range(ns)], dtype=r.choice([float, int, bool]))
    if r.random() < 0.3:
        feat = feat.astype(r.choice([int, bool]))
    m = HexGridMDP(features=feat, shape=(w, h), self_transitions=r.random() < 0.5, **kw)
    d = {}
    names = r.sample(["Predator", "Prey", "prey", "a b", "agent_2", "agent_20", "x", "x "], n)
    for i in range(n):
        akw = {}
        if r.random() < 0.6:
            akw = dict(discount=r.choice([0.5, 0.75, 0.9, 0.95, 0.123456789]))
            if r.random() < 0.5:
                akw.update(max_iter=r.choice([100, 333]), tol=r.choice([1e-6, 1e-9]))
        sel, skw = r.choice([(MaxActionSelector, {}), (MaxActionSelector, dict(seed=r.randrange(100))), (SoftmaxActionSelector, {}),
                             (SoftmaxActionSelector, dict(temperature=r.choice([0.5, 2, 0.3, 0.00123456, 123456.789]), seed=5))])
        rf = [r.choice([0, 1, -1, 0.5, 0.25, -0.3, 2.75, 10, 0.125]) for _ in range(nf + n)]
        rf = [x if r.random() < 0.6 else r.uniform(-3, 3) * r.choice([1, 1, 1e-7, 1e6]) for x in rf]
        if r.random() < 0.2:
            rf = [r.randint(-4, 9) for _ in rf]
        rf = np.array(rf) if r.random() < 0.6 else rf
        cons = r.sample([f for f in range(nf + n) if f != nf + i], r.choice([0, 0, 1, min(2, nf + n - 1)]))
        if r.random() < 0.2:
            cons = [np.int64(c) for c in cons]
        d[Agent(names[i], n_moves=r.choice([int, int, np.int64])(r.randint(1, 3)), algorithm=ValueIteration, algorithm_kwargs=akw, action_selector=sel, action_kwargs=skw)] = (
            r.randrange(ns), rf, cons)
    return Environment(m, d), names, nf


def history(r, env, names):
    for _ in range(r.choice([0, 0, 1, 3, 6])):
        op = r.choice(["fit", "step", "step", "setpos", "walls", "reset", "eat", "multi"])
        nm = r.choice(names)
        if op == "fit":
            call(env.fit, nm)
        elif op == "step":
            call(env.fit, nm)
            call(env.step, nm)
        elif op == "setpos":
            call(env.set_agent_position, nm, r.choice([int, np.int64])(r.randrange(env.n_states)))
        elif op == "walls":
            call(setattr, env.mdp, "walls", np.array([1.0 if r.random() < 0.15 else 0.0 for _ in range(env.n_states)]))
        elif op == "reset":
            call(env.reset)
        elif op == "eat":
            call(env.mdp.consume_features, [0], r.randrange(env.n_states))
        elif op == "multi":
            call(env.step_multi, nm, r.randint(1, 3))


def behave(env, names, moves):
    """Values of every agent, and what placing and stepping the agents does."""
    vals = []
    for nm in names:
        call(env.fit, nm)
        vals.append(FV(env.agents[nm].algorithm.values, 10000))
    out = []
    for nm, a, s in moves:
        if s >= 0:
            _, exc = call(env.set_agent_position, nm, s)
        else:
            p, exc = call(env.step_proba, nm)
            out.append([exc, [] if exc else FV(p, 10000), []])
        out.append([exc, IV([x.position for x in env.agents.values()]), IM(env.mdp.features)])
    return vals, out


def session(w, r, tmp):
    env, names, nf = build(r)
    history(r, env, names)
    custom = r.sample(["trees", "berries", "Feature_0", "z", "rocks", "1", "Rocks", "a", "aa", "10", "9", "\u00e9", "x y"], nf)
    fn = None if r.random() < 0.5 else custom
    expect = ["Feature_%d" % i for i in range(nf)] if fn is None else custom
    x = world(env)
    d, exc = call(hex_env_to_dict, env, fn) if fn is not None or r.random() < 0.5 else call(hex_env_to_dict, env)
    if exc:
        w.ev("save", exc=exc)
        return
    if r.random() < 0.5:
        fmt = call(hex_env_to_dict, env, fn, format="index")[0]
        d = fmt if fmt is not None else d
    w.ev("save", x=x, names=expect, d=saved(d, False), after=world(env))
    c, exc = call(hex_env_to_dict, env, fn, format="coords")
    if exc:
        w.ev("savexy", exc=exc)
    else:
        w.ev("savexy", x=x, names=expect, d=saved(c, True), after=world(env))
    loads = []
    loads.append(("dict", lambda: hex_environment_from_dict(d) if r.random() < 0.7 else hex_environment_from_dict(d, expect)))
    loads.append(("json", lambda: hex_environment_from_json(hex_env_to_json(env, fn, return_string=True))))

    def file():
        p = os.path.join(tmp, "e.json")
        hex_env_to_json(env, fn, fname=p)
        with open(p) as f:
            return hex_environment_from_json(f.read())
    loads.append(("file", file))
    if nf > 1 and r.random() < 0.4:           # features picked by name, in another order
        perm = r.sample(range(nf), nf)
        y, exc = call(hex_environment_from_dict, d, [expect[i] for i in perm])
        w.ev("reorder", x=x, perm=perm, y=[] if exc else world(y)["feat"], exc=exc)
    envs = []
    for how, fn2 in r.sample(loads, 2):
        y, exc = call(fn2)
        if exc:
            w.ev("load", how=how, exc=exc)
            return
        yw = world(y)
        again = world(env)
        envs.append((how, y, yw, again))
    moves = [(r.choice(names), r.randrange(6), -1 if r.random() < 0.6 else r.randrange(env.n_states)) for _ in range(6)]
    b0 = behave(env, names, moves)
    for how, y, yw, again in envs:
        b1 = behave(y, names, moves)
        w.ev("load", how=how, x=x, y=yw, vals=[b0[0], b1[0]], run=[b0[1], b1[1]])


def run(w, a):
    r = random.Random(a.seed * 3571 + 5)
    th = a.tier == "thorough"
    with tempfile.TemporaryDirectory() as tmp:
        for _ in range(1600 if th else 150):
            scenario(w, "store", session, r, tmp)


main(run)
