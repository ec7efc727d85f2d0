"""C11: communication matrix."""
from harness.common import Config, times, make_trace

FUNCTIONS = ["pipit.trace.Trace.comm_matrix", "pipit.trace.Trace.comm_by_process"]
STUBS = ["numpy.zeros/full return object arrays so that cells can hold symbolic totals"]
ASSUMPTIONS = ["default RangeIndex", "processes are numbered 0..n-1 and all occur in the trace", "send events carry receiver and msg_length attributes"]
SENDS = ("MpiSend", "MpiIsend")


def rows_comm(ctx, msgs, kinds, procs, fixed_size=None, base=True):
    ts = times(ctx, msgs + (procs if base else 0), lo=0)
    rows = []
    if base:
        for p in reversed(range(procs)):
            rows.append({"k": "Enter", "n": "main", "p": p, "Attributes": None})
    for i in range(msgs):
        n = ctx.choice("kind%d" % i, kinds)
        p = ctx.choice("p%d" % i, range(procs))
        r = {"k": "Instant", "n": n, "p": p, "Attributes": None}
        if n.startswith("Mpi"):
            o = ctx.choice("peer%d" % i, range(procs))
            size = fixed_size[i] if fixed_size else ctx.int("size%d" % i, 0, 2 ** 40)
            r["Attributes"] = {"receiver" if "end" in n else "sender": o, "communicator": "x", "msg_tag": 7, "msg_length": size}
            if n.startswith("MpiI"):
                r["Attributes"]["request_id"] = i
            r["peer"], r["size"] = o, size
        elif n in ("other", "Send"):
            r["Attributes"] = {"msg_length": 99, "receiver": 0}
        rows.append(r)
    for r, t in zip(rows, ts):
        r["t"] = t
    return rows


def rows_many(ctx, many, procs, kinds=None):
    """many messages, the sizes of three of which are symbolic"""
    ts = times(ctx, 2, lo=0)
    rows = [{"k": "Enter", "n": "main", "p": p, "Attributes": None} for p in range(procs)]
    for i in range(many):
        p = 0 if i % 8 else i // 8 % procs
        o = 1 % procs if i % 8 else i // 64 % procs
        size = ctx.int("size%d" % i, 0, 2 ** 40) if i in (0, many // 2, many - 1) else 40 + i
        rows.append({"k": "Instant", "n": "MpiSend" if i % 3 else "MpiIsend", "p": p, "peer": o, "size": size,
                     "Attributes": {"receiver": o, "communicator": "x", "msg_tag": 7, "msg_length": size}})
    for i, r in enumerate(rows):
        r["t"] = ts[2 * i // len(rows)] + i
    return rows


def run(ctx, asks=("size", "count", None), gen=None, **kw):
    rows = (gen or rows_comm)(ctx, **kw)
    procs = kw["procs"]
    t = make_trace(ctx, rows, ["Attributes"])
    for out in asks:
        want = [[0] * procs for _ in range(procs)]
        for r in rows:
            if r["n"] in SENDS:
                want[r["p"]][r["peer"]] = want[r["p"]][r["peer"]] + (1 if out == "count" else r["size"])
                ctx.cover("send")
                if r["p"] != r["peer"]:
                    ctx.cover("between processes")
        m = t.comm_matrix() if out is None else t.comm_matrix(output=out)
        ctx.check(tuple(m.shape) == (procs, procs), "shape", lambda: m.shape)
        for s in range(procs):
            for r in range(procs):
                ctx.check(ctx.eq(m[s][r], want[s][r]), "matrix[%d][%d] (%s)" % (s, r, out), lambda: (rows, m))
        b = t.comm_by_process() if out is None else t.comm_by_process(output=out)
        ctx.check(len(b) == procs and sorted(b.index) == list(range(procs)) and {"Sent", "Received"} <= set(b.columns), "comm_by_process shape", lambda: b)
        for p in range(procs):
            ctx.check(ctx.eq(b["Sent"][p], sum(want[p][1:], want[p][0])), "sent by %d (%s)" % (p, out), lambda: (rows, b))
            ctx.check(ctx.eq(b["Received"][p], sum([want[q][p] for q in range(1, procs)], want[0][p])), "received by %d (%s)" % (p, out), lambda: (rows, b))


def configs(tier):
    q = tier == "quick"
    every = ["MpiSend", "MpiIsend", "MpiRecv", "MpiIrecv", "other", "MpiIsendComplete", "MpiSendrecv", "Send", "plain"]
    cov = ["send", "between processes"]
    return [
        Config("kinds", run, dict(msgs=2, kinds=every, procs=2), cov, "2 events of any kind between 2 processes, symbolic sizes"),
        Config("three-processes", run, dict(msgs=3, kinds=["MpiSend"] if q else ["MpiIsend", "MpiSend", "MpiRecv"], procs=3), cov, "3 messages among 3 processes"),
        Config("accumulate", run, dict(msgs=4, kinds=["MpiIsend"] if q else ["MpiIsend", "MpiSend"], procs=2), cov, "4 messages among 2 processes"),
        Config("many-processes", run, dict(msgs=1 if q else 2, kinds=["MpiSend"], procs=12, asks=(None,)), cov, "12 processes"),
        Config("no-messages", run, dict(msgs=1, kinds=["MpiRecv", "plain"], procs=3), [], "no send event at all"),
        Config("one-process", run, dict(msgs=2, kinds=["MpiSend", "MpiIsend", "MpiIrecv"], procs=1), ["send"], "messages to self"),
        Config("many-messages", run, dict(gen=rows_many, many=700 if q else 70000, procs=2), cov, "700 (70,000) messages, three sizes of which are symbolic"),
        Config("crowd", run, dict(gen=rows_many, many=1500 if q else 3000, procs=40 if q else 140, asks=("size", "count")), cov, "40 (140) processes"),
    ]
