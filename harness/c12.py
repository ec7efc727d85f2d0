"""C12: communication histograms."""
from fractions import Fraction
from harness.common import Config, arrange, times, make_trace

FUNCTIONS = ["pipit.trace.Trace.comm_over_time", "pipit.trace.Trace.message_histogram"]
STUBS = ["numpy.histogram with symbolic data is replaced by its documented contract (equal bins, half-open, last one closed)"]
ASSUMPTIONS = ["default RangeIndex", "the trace's time span is positive (and, for edges of message_histogram, not all sizes are equal)",
               "times and sizes below 2^40 (numpy computes bin edges in floating point)"]
HI = 2 ** 40


def build(ctx, msgs, kinds, procs=2, lead=True):
    n = msgs + (2 if lead else 0)
    ts = times(ctx, n, lo=0)
    ctx.assume(ts[-1] <= HI)
    ctx.assume(ts[0] >= -HI)
    ctx.assume(ts[0] < ts[-1])
    rows = []
    for i in range(n):
        if lead and i in (0, n - 1):
            rows.append({"t": ts[i], "k": "Enter" if i == 0 else "Leave", "n": "main", "p": 0, "Attributes": None})
            continue
        name = ctx.choice("kind%d" % i, kinds)
        r = {"t": ts[i], "k": "Instant", "n": name, "p": i % procs, "Attributes": None}
        if name.startswith("Mpi") or name == "other":
            r["size"] = ctx.int("size%d" % i, 0, HI)
            r["Attributes"] = {"receiver": 0, "msg_length": r["size"]}
        rows.append(r)
    ctx.span = (ts[0], ts[-1])
    return arrange(ctx, rows)


def edges_of(lo, hi, bins):
    return [lo + (hi - lo) * Fraction(b, bins) for b in range(bins + 1)]


def which(v, edges):
    n = len(edges) - 1
    for b in range(n):
        if v < edges[b + 1] or b == n - 1:
            return b


def check(ctx, rows, hist, edges, bins, lo, hi, items, weight, what):
    ctx.check(len(hist) == bins and len(edges) == bins + 1, what + " bins", lambda: (len(hist), len(edges)))
    if lo is not None and bool(lo < hi):
        want = edges_of(lo, hi, bins)
        for a, b in zip(edges, want):
            ctx.check(ctx.eq(a, b) if ctx.sym else abs(a - b) <= 1e-3, what + " edges", lambda: (rows, edges))
        sums = [0] * bins
        for v, w in items:
            b = which(v, want)
            sums[b] = sums[b] + (w if weight else 1)
            ctx.cover(what)
            if b == bins - 1:
                ctx.cover("last bin")
        for b in range(bins):
            ctx.check(ctx.eq(hist[b], sums[b]), "%s bin %d" % (what, b), lambda: (rows, hist, edges))
    else:
        tot, s = 0, 0
        for b in range(bins):
            tot = tot + hist[b]
        for _, w in items:
            s = s + (w if weight else 1)
        ctx.check(ctx.eq(tot, s), what + " total", lambda: (rows, hist))


def run(ctx, bins, asks, **kw):
    rows = build(ctx, **kw)
    t = make_trace(ctx, rows, ["Attributes"])
    b = ctx.choice("bins", bins)
    ask = ctx.choice("ask", asks)
    if ask[0] == "hist":
        items = [(r["size"], 1) for r in rows if r["n"] in ("MpiSend", "MpiIsend")]
        h, e = t.message_histogram(bins=b) if b != 20 else t.message_histogram()
        lo = hi = None
        for v, _ in items:
            lo = v if lo is None or v < lo else lo
            hi = v if hi is None or v > hi else hi
        check(ctx, rows, h, e, b, lo, hi, items, False, "message sizes")
        return
    _, output, mtype = ask
    kw = {} if output is None else {"output": output, "message_type": mtype}
    if b != 50:
        kw["bins"] = b
    h, e = t.comm_over_time(**kw)
    names = ("MpiSend", "MpiIsend") if mtype == "send" else ("MpiRecv", "MpiIrecv")
    items = [(r["t"], r["size"]) for r in rows if r["n"] in names]
    check(ctx, rows, h, e, b, *ctx.span, items, output != "count", "over time")


ASKS = [("time", "size", "send"), ("time", "count", "send"), ("time", "size", "receive"), ("time", "count", "receive"), ("time", None, "send")]


def configs(tier):
    q = tier == "quick"
    every = ["MpiSend", "MpiIsend", "MpiRecv", "MpiIrecv", "other", "plain", "MpiIsendComplete", "MpiIrecvRequest"]
    return [
        Config("kinds", run, dict(bins=[2], asks=ASKS, msgs=2, kinds=every), ["over time", "last bin"], "2 events of any kind between first and last row, 2 bins, every form of request"),
        Config("bins", run, dict(bins=[1, 3] if q else [1, 3, 4], asks=ASKS[:2], msgs=3, kinds=["MpiSend"] if q else ["MpiSend", "MpiIsend"]), ["over time", "last bin"], "3 sends, 1, 3 or 4 bins"),
        Config("extremes", run, dict(bins=[2, 3], asks=ASKS, msgs=3 if q else 4, kinds=["MpiIsend", "MpiRecv"], lead=False), ["over time", "last bin"], "the messages are the first and last rows themselves"),
        Config("sizes", run, dict(bins=[1, 2, 3], asks=[("hist",)], msgs=3 if q else 4, kinds=["MpiSend", "MpiIsend"] if q else ["MpiSend", "MpiIsend", "MpiRecv"]), ["message sizes", "last bin"], "sizes of 3 (4) sends"),
        Config("size-kinds", run, dict(bins=[2], asks=[("hist",)], msgs=3, kinds=every), ["message sizes"], "sizes of events of any kind"),
        Config("defaults", run, dict(bins=[50], asks=[ASKS[1], ASKS[4]], msgs=1, kinds=["MpiSend", "MpiRecv"]), ["over time"], "default number of bins over time"),
        Config("default-sizes", run, dict(bins=[20], asks=[("hist",)], msgs=3, kinds=["MpiSend"]), ["message sizes"], "default number of size bins"),
        Config("quarters", run, dict(bins=[2], asks=ASKS[:3], msgs=2, kinds=["MpiIsend", "MpiRecv"], clock="quarters"), ["over time", "last bin"], "times are multiples of a quarter"),
        Config("signed", run, dict(bins=[2], asks=ASKS[:3], msgs=2, kinds=["MpiIsend", "MpiRecv"], clock="signed"), ["over time", "last bin"], "times may be negative"),
        Config("grouped", run, dict(bins=[2], asks=ASKS[:3], msgs=3, kinds=["MpiIsend", "MpiRecv"], grouped=True), ["over time", "last bin"], "rows grouped by process instead of ordered by time"),
    ]
