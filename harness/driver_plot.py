"""Plots (C26): rendered with the Agg backend; colours are read off the picture."""
from vlib import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.patches import FancyArrow, FancyArrowPatch
from matplotlib.text import Annotation
from maMDP.mdp import SquareGridMDP, HexGridMDP
from maMDP.environments import Environment
from maMDP.agents import Agent
from maMDP.algorithms.dynamic_programming import ValueIteration

S6 = 1000000
VIR = (np.array([plt.get_cmap("viridis")(i)[:3] for i in range(256)]) * 255)
PLA = (np.array([plt.get_cmap("plasma")(i)[:3] for i in range(256)]) * 255)
COLS = ["#ff0000", "#00ff00", "#0000ff", "#ffaa00", "#00aaaa", "#8800ff"]
AGC = ["#101010", "#0b5300", "#730022"]


def rgb(c):
    return [int(round(255 * x)) for x in matplotlib.colors.to_rgb(c)]


def centre(kind, h, s):
    x, y = s // h, s % h
    if kind == "square":
        return float(x), float(y)
    return 1.5 * x, math.sqrt(3) * (y + (0.5 if x % 2 == 0 else 0))


def sample(ax, kind, g, off):
    """Colour of the picture at (almost) the centre of every cell."""
    fig = ax.figure
    fig.canvas.draw()
    buf = np.asarray(fig.canvas.buffer_rgba())
    at, pix = [], []
    for s in range(g["ns"]):
        x, y = centre(kind, g["h"], s)
        at.append([F(x, S6), F(y, S6)])
        px, py = ax.transData.transform((x + off[0], y + off[1]))
        row, col = int(buf.shape[0] - 1 - round(py)), int(round(px))
        if not (0 <= row < buf.shape[0] and 0 <= col < buf.shape[1]):
            pix.append([-1000, -1000, -1000])
        else:
            pix.append([int(v) for v in buf[row, col, :3]])
    return at, pix


def tmap(ax, pts):
    return [[F(x, S6), F(y, S6)] for x, y in pts]


def arrows(old, ax):
    """Arrows drawn since: (start, end) in data coordinates."""
    out = []
    for p in ax.get_children():
        if p in old:
            continue
        if isinstance(p, FancyArrow) and hasattr(p, "_dx"):
            out.append(tmap(ax, [(p._x, p._y), (p._x + p._dx, p._y + p._dy)]))
        elif isinstance(p, FancyArrowPatch) and getattr(p, "_posA_posB", None) is not None:
            out.append(tmap(ax, p._posA_posB))
        elif isinstance(p, Annotation):
            out.append(tmap(ax, [p.xyann, p.xy]))
        elif isinstance(p, matplotlib.lines.Line2D):
            d = p.get_xydata()
            out += [tmap(ax, [d[i], d[i + 1]]) for i in range(len(d) - 1)]
    return out


def texts(old, ax):
    out = []
    for t in ax.texts:
        if t not in old:
            try:
                n = int(t.get_text())
            except ValueError:
                continue
            out.append(dict(n=n, at=tmap(ax, [t.get_position()])[0]))
    return out


def snap(m, env):
    return dict(feat=FM(m.features, 1000), walls=IV(m.walls), sas=IV(np.asarray(m.sas).sum(axis=(0, 1))),
                pos=[] if env is None else [I(a.position) for a in env.agents.values()])


def session(w, r):
    kind = r.choice(["square", "hex"])
    wide = r.choice([6, 6, 6, 9])
    g = dict(kind=kind, w=r.randint(1, wide), h=r.randint(1, wide), stay=r.randint(0, 1), tab=[], den=1)
    if g["w"] * g["h"] == 1:
        g["w"] = 3
    g["ns"] = ns = g["w"] * g["h"]
    g["na"] = (4 if kind == "square" else 6) + g["stay"]
    nf = r.randint(1, 4)
    feat = [[1 if r.random() < 0.35 else 0 for _ in range(ns)] for _ in range(nf)]
    walls = [1 if r.random() < 0.2 else 0 for _ in range(ns)] if r.random() < 0.6 else [0] * ns
    kw = dict(walls=np.array(walls, dtype=float)) if any(walls) else {}
    cls = SquareGridMDP if kind == "square" else HexGridMDP
    m = cls(features=np.array(feat, dtype=float), shape=(g["w"], g["h"]), self_transitions=bool(g["stay"]), **kw)
    env, n = None, r.choice([0, 1, 2, 3])
    names = ["a%d" % i for i in range(n)]
    free = [s for s in range(ns) if not walls[s]] or [0]
    if n:
        env = Environment(m, {Agent(names[i], algorithm=ValueIteration): (r.choice(free), np.array([r.choice([0, 1, -1, 0.5]) for _ in range(nf + n)]), [])
                              for i in range(n)})
        for _ in range(r.choice([0, 2])):
            call(env.set_agent_position, r.choice(names), r.choice(free))
    before = snap(m, env)
    off = (0.3, 0.27) if kind == "square" else (0.33, 0.4)
    fig = None
    # ---- the environment
    col = r.sample(COLS, nf)
    alp = [r.choice([50, 50, 80, 30, 100]) for _ in range(nf)]
    wc = r.choice(["#595959", "#000000", "#223344"])
    mode = r.choice(["colours", "colours", "presence"])
    pk = {} if wc == "#595959" else dict(wall_colour=wc)
    ck = {} if mode == "presence" else dict(colours=col, alphas=[a / 100 for a in alp])
    if mode == "colours" and r.random() < 0.3:
        ck.pop("alphas")
        alp = [50] * nf
    ax = None
    if r.random() < 0.6:
        fig, ax = plt.subplots(figsize=(5, 5), dpi=80)
    axk = dict(ax=ax) if ax is not None or r.random() < 0.5 else {}
    agcol = {names[i]: AGC[i] for i in range(n)}
    if env is not None and r.random() < 0.8:
        some = {nm: r.choice("sX^") for nm in names if r.random() < 0.5}
        mk = dict(agent_markers=some) if r.random() < 0.6 else {}
        if r.random() < 0.3:
            mk["agent_plotting_kwargs"] = dict(s=20)
        ax, exc = call(env.plot, mdp_plotting_kwargs=pk, agent_colours=agcol, **mk, **ck, **axk)
        marked = True
    else:
        ax, exc = call(m.plot, **pk, **ck, **axk)
        marked = False
    if exc:
        w.ev(mode, exc=exc)
        plt.close("all")
        return
    at, pix = sample(ax, kind, g, off)
    if mode == "colours":
        w.ev("colours", g=g, feat=feat, walls=walls, cols=[rgb(c) for c in col], alphas=alp, wallc=rgb(wc), at=at, pix=pix)
    else:
        w.ev("presence", g=g, feat=feat, walls=walls, at=at, white=[int(min(p) >= 250) for p in pix])
    w.ev("positions", g=g, pos=[[F(v, S6) for v in m.state_to_position(s)] for s in range(ns)])
    if env is not None and not marked:
        for i in range(n):
            call(env.agents[names[i]].plot, ax, color=AGC[i])
        marked = True
    if marked:
        marks = []
        for c in ax.collections:
            offs = np.asarray(c.get_offsets())
            fc = c.get_facecolor()
            for k, o in enumerate(offs):
                marks.append(dict(at=[F(o[0], S6), F(o[1], S6)], col=rgb(fc[k if len(fc) > k else 0])))
        w.ev("markers", g=g, agents=[dict(pos=I(env.agents[names[i]].position), col=rgb(AGC[i])) for i in range(n)], marks=marks)
    tr = [r.choice(free)]
    sas = np.asarray(m.sas)
    for _ in range(r.choice([0, 1, 2, 3, 4, 6, 14])):
        nx = sorted(set(np.argwhere(sas[tr[-1]] > 0)[:, 1].tolist()))
        tr.append(r.choice(nx) if nx and r.random() < 0.85 else r.randrange(ns))
    tgt = env if env is not None and r.random() < 0.5 else m
    old = list(ax.get_children())
    keep = list(tr)
    _, exc = call(tgt.plot_trajectory, tr, ax)
    w.ev("arrows", g=g, tr=keep, arrows=[] if exc else arrows(old, ax), exc=exc)
    old = list(ax.texts)
    _, exc = call(tgt.plot_sequence, tr, ax)
    w.ev("labels", g=g, tr=keep, texts=[] if exc else texts(old, ax), exc=exc)
    plt.close("all")
    # ---- values
    v = [r.randint(-50, 50) for _ in range(ns)]
    hide = [0] * ns
    vk = {}
    pal = VIR
    if r.random() < 0.3:
        vk["cmap"] = "plasma"
        pal = PLA
    if kind == "hex" and r.random() < 0.3 and ns > 3:
        hid = r.sample(range(ns), 2)
        hide = [int(s in hid) for s in range(ns)]
        vk["hide_idx"] = [(s // g["h"], s % g["h"]) for s in hid]
    if r.random() < 0.5:
        fig, ax2 = plt.subplots(figsize=(5, 5), dpi=80)
        vk["ax"] = ax2
    use_env = env is not None and r.random() < 0.5
    if env is not None and r.random() < 0.3:
        _, exc = call(env.plot_state_values, names[-1])
        w.ev("refuse", what="values of an agent that has not been fitted", got=exc)
        _, exc = call(env.plot_state_values, "nobody")
        w.ev("refuse", what="values of an unknown agent", got=exc)
    if use_env:
        _, exc = call(env.fit, names[0])
        vals = env.agents[names[0]].algorithm.values
        v = FV(vals, 10000)
        ax, exc = call(env.plot_state_values, names[0], **vk)
    else:
        ax, exc = call(m.plot_state_values, np.array(v, dtype=float), **vk)
    if max(v) > min(v) and max(v) - min(v) < 8000000:
        if exc:
            w.ev("values", exc=exc)
        else:
            at, pix = sample(ax, kind, g, off)
            idx = []
            for p in pix:
                if min(p) >= 252 or p[0] < 0:
                    idx.append(-1)
                else:
                    idx.append(int(np.argmin(((pal - np.array(p)) ** 2).sum(axis=1))))
            w.ev("values", g=g, v=v, hide=hide, at=at, idx=idx)
            if not any(hide):
                w.ev("positions", g=g, pos=[[F(x, S6) for x in m.state_to_position(s)] for s in range(ns)])
    plt.close("all")
    w.ev("unchanged", before=before, after=snap(m, env))


def run(w, a):
    r = random.Random(a.seed * 2819 + 7)
    th = a.tier == "thorough"
    for _ in range(700 if th else 100):
        scenario(w, "plot", session, r)


main(run)
