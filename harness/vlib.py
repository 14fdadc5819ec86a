"""Shared part of the drivers: they run the real code of /repo (public API only), project what it
does to integers and write one JSON object per operation.  All judging is done by the TLA+ trace
specifications in ../spec; nothing here decides whether a value is right."""
import argparse, json, math, os, random, signal, sys, warnings

warnings.simplefilter("ignore")
sys.path.insert(0, "/repo")
import numpy as np
import maMDP
assert os.path.realpath(maMDP.__file__).startswith("/repo/"), maMDP.__file__
np.seterr(all="ignore")

NAN, NINF, PINF = -2000000001, -2000000002, -2000000003   # sentinels inside scaled tables
BIG = 2000000000


class Malformed(Exception):
    """The code returned something that cannot be projected (wrong shape, type or range)."""


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


def call(fn, *a, limit=60, **k):
    """Run one API call: (result, "") or (None, exception class name)."""
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return fn(*a, **k), ""
    except Timeout:
        return None, "Timeout"
    except Exception as ex:           # noqa - the class name is the observation
        return None, type(ex).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def I(x):
    """An integer-valued scalar."""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    v = float(x)
    if not math.isfinite(v) or v != int(v) or abs(v) > BIG:
        raise Malformed("not an integer: %r" % (x,))
    return int(v)


def IV(xs):
    return [I(x) for x in np.asarray(xs).reshape(-1)]


def IM(m):
    m = np.asarray(m)
    if m.ndim != 2:
        raise Malformed("not a matrix: shape %r" % (m.shape,))
    return [[I(x) for x in r] for r in m]


def F(x, scale):
    """A float in fixed point, with sentinels."""
    v = float(x)
    if math.isnan(v):
        return NAN
    if v == -math.inf:
        return NINF
    if v == math.inf:
        return PINF
    r = round(v * scale)
    if abs(r) > 1900000000:
        return 1900000000 if r > 0 else -1900000000
    return int(r)


def FV(xs, scale):
    return [F(x, scale) for x in np.asarray(xs).reshape(-1)]


def FM(m, scale):
    m = np.asarray(m)
    if m.ndim != 2:
        raise Malformed("not a matrix: shape %r" % (m.shape,))
    return [[F(x, scale) for x in r] for r in m]


def ranks(q):
    """Order-preserving projection of an action-value table: equal values get equal ranks >= 0,
    -inf becomes -1 and NaN -2."""
    q = np.asarray(q, dtype=float)
    if q.ndim != 2:
        raise Malformed("action values of shape %r" % (q.shape,))
    out = []
    for row in q:
        vals = sorted(set(v for v in row if not (math.isnan(v) or v == -math.inf)))
        d = {v: i for i, v in enumerate(vals)}
        out.append([-2 if math.isnan(v) else -1 if v == -math.inf else d[v] for v in row])
    return out


class Writer:
    """Distributes scenarios round-robin over several trace files."""

    def __init__(self, prefix, nfiles):
        self.files = [open("%s.%d.ndjson" % (prefix, i), "w") for i in range(nfiles)]
        self.prog = open(prefix + ".progress", "w")
        self.sid = 0
        self.lines = 0
        self.buf = []
        self.ops = {}

    def begin(self, desc=""):
        self.flush()
        self.sid += 1
        self.prog.seek(0)
        self.prog.truncate()
        self.prog.write("%d %s" % (self.sid, desc))
        self.prog.flush()
        return self.sid

    def ev(self, op, **k):
        k["op"] = op
        k["id"] = self.sid
        k.setdefault("exc", "")
        self.buf.append(k)
        self.ops[op] = self.ops.get(op, 0) + 1

    def flush(self):
        f = self.files[self.sid % len(self.files)]
        for k in self.buf:
            f.write(json.dumps(k, separators=(",", ":")) + "\n")
            self.lines += 1
        self.buf = []

    def close(self, **summary):
        self.flush()
        for f in self.files:
            f.close()
        s = dict(scenarios=self.sid, lines=self.lines, ops=self.ops, done=True)
        s.update(summary)
        self.prog.seek(0)
        self.prog.truncate()
        self.prog.write("DONE " + json.dumps(s))
        self.prog.close()


def scenario(w, desc, fn, *a, **k):
    """Run one scenario; if the code's output cannot be projected, that is recorded as an event."""
    w.begin(desc)
    try:
        return fn(w, *a, **k)
    except (Malformed, IndexError, KeyError, TypeError, AttributeError, ValueError, ZeroDivisionError, AssertionError) as ex:
        tb = ex.__traceback__
        where = []
        while tb:
            where.append("%s:%d" % (os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno))
            tb = tb.tb_next
        w.ev("malformed", what="%s: %s at %s (%s)" % (type(ex).__name__, ex, " > ".join(where[-3:]), desc))


def main(run):
    ap = argparse.ArgumentParser()
    ap.add_argument("--out", required=True)
    ap.add_argument("--files", type=int, default=4)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--focus", default="")
    ap.add_argument("--extra", default="")
    ap.add_argument("--only", type=int, default=0)
    a = ap.parse_args()
    random.seed(a.seed)
    np.random.seed(a.seed % (2 ** 31))
    w = Writer(a.out, a.files)
    run(w, a)
    w.close()


quiet = open(os.devnull, "w")


def silent(fn, *a, **k):
    old = sys.stdout
    sys.stdout = quiet
    try:
        return call(fn, *a, **k)
    finally:
        sys.stdout = old
