"""What each property runs: design models, specification behaviours, drivers and trace judges."""
GRID = [("MCGrid", "MCGrid.cfg", "MCGrid_thorough.cfg")]
WORLD = [("MCWorld", "MCWorld.cfg", "MCWorld_thorough.cfg")]
SEARCH = [("MCSearch", "MCSearch.cfg", "MCSearch_thorough.cfg")]
SELECT = [("MCSelect", "MCSelect.cfg", "MCSelect_thorough.cfg")]
BELL = [("MCBellman", "MCBellman.cfg", "MCBellman_thorough.cfg")]
WSIM = [("WorldSim", "WorldSim.cfg", 30, 400, 27)]
LEARN = [("MCLearn", "MCLearn.cfg", "MCLearn_thorough.cfg")]
FIX = [("MCFix", "MCFix.cfg", "MCFix_thorough.cfg")]
DL = [("driver_learn", "TraceLearn")]
DW = [("driver_world", "TraceWorld")]


def world(neg, sim=True, more=()):
    return dict(mc=WORLD, sim=WSIM if sim else None, drivers=DW + list(more), neg=neg, files=6)


def N(op, *path, how=1, mod="TraceWorld"):
    return (mod, op, list(path), how)


PLAN = {
 "C01": dict(mc=GRID, drivers=[("driver_grid", "TraceGrid")], neg=[("TraceGrid", "new", ["post", "coords", 0, 0], 1)]),
 "C02": dict(mc=GRID, drivers=[("driver_grid", "TraceGrid")], neg=[("TraceGrid", "new", ["post", "coords", 0, 0], 1)]),
 "C03": dict(mc=GRID + WORLD, drivers=[("driver_grid", "TraceGrid")] + DW, neg=[("TraceGrid", "setw", ["post", "walls", 0], 1)]),
 "C04": dict(mc=GRID, drivers=[("driver_grid", "TraceGrid")], neg=[("TraceGrid", "new", ["post", "next", 0, 0], 1)]),
 "C05": world([N("step", "ret")]),
 "C06": world([N("setpos", "post", "feat", -1, 0)]),
 "C07": world([N("step", "post", "tally", 0, 0)]),
 "C08": world([N("reset", "post", "feat", 0, 0)]),
 "C09": world([N("multi", "ret", 0)], sim=False),
 "C10": world([N("multi", "fits", 0, "nm", 0, 0)], sim=False),
 "C11": world([N("proba", "out", 0, how=50000)], sim=False),
 "C12": world([N("new", "got", 0, "fidx")], sim=False),
 "C27": dict(world([N("query", "pi", 0, how=9)], sim=False), mc=WORLD + SELECT),
 "C28": dict(mc=[("MCSeed", "MCSeed.cfg", "MCSeed_thorough.cfg")], drivers=[("driver_seed", "TraceSeed")],
             neg=[N("pair", "b", 0, 1, 0, mod="TraceSeed")]),
 "C16": dict(mc=SEARCH, drivers=[("driver_search", "TraceSearch")], files=6, neg=[N("mcts", "visited", 0, 0, how=50, mod="TraceSearch")]),
 "C17": dict(mc=SEARCH, drivers=[("driver_search", "TraceSearch")], files=6, neg=[N("mcts", "V", 0, how=1, mod="TraceSearch")]),
 "C18": dict(mc=SEARCH + WORLD, drivers=[("driver_search", "TraceSearch")] + DW, files=6, neg=[N("mcts", "postw", 0, how=1, mod="TraceSearch")]),
 "C13": dict(mc=SELECT, drivers=[("driver_select", "TraceSelect")], neg=[N("table", "pi", 0, how=9, mod="TraceSelect")]),
 "C14": dict(mc=SELECT, drivers=[("driver_select", "TraceSelect")], neg=[N("table", "pi", 0, how=9, mod="TraceSelect")]),
 "C15": dict(mc=BELL, drivers=[("driver_vi", "TraceBellman")], neg=[N("vi", "v", 0, how=500, mod="TraceBellman")]),
 "C20": dict(mc=LEARN, drivers=DL, neg=[N("match", "out", 0, how=500000, mod="TraceLearn")]),
 "C21": dict(mc=LEARN + FIX, drivers=DL, files=6, neg=[N("me", "th1", 0, how=50000, mod="TraceLearn")]),
 "C22": dict(mc=LEARN + FIX, drivers=DL, neg=[N("td", "qs", 0, 0, how=5000, mod="TraceLearn")]),
 "C23": dict(mc=LEARN, drivers=DL, neg=[N("lfit", "rets", 0, 0, how=1, mod="TraceLearn")]),
 "C25": dict(mc=LEARN + BELL, drivers=DL, neg=[N("ht", "tt", 0, 0, how=50000, mod="TraceLearn")]),
 "C24": dict(mc=[("MCSucc", "MCSucc.cfg", "MCSucc_thorough.cfg")], drivers=[("driver_succ", "TraceSucc")],
             neg=[N("sr", "M", 0, 0, how=5000, mod="TraceSucc")]),
 "C19": dict(mc=[("MCStore", "MCStore.cfg", "MCStore_thorough.cfg")], drivers=[("driver_store", "TraceStore")],
             neg=[N("load", "y", "walls", 0, mod="TraceStore")]),
 "C26": dict(mc=[("MCPlot", "MCPlot.cfg", "MCPlot_thorough.cfg")], drivers=[("driver_plot", "TracePlot")],
             neg=[N("positions", "pos", 0, 0, how=5000, mod="TracePlot")]),
}
