"""Projections logs: one specification of every record kind."""
import gzip
import os

from harness.readers import Texts

CHARES = [("Main", 0), ("Cell<double>", 3), ("Grid", 1), ("Six D", 6)]
# id -> (name, chare)
ENTRIES = {0: ("dummy", 0), 7: ("step(int x, int y)", 1), 3: ("Computation_step", 3), 12: ("run", 2), 300: ("exchange(int a, int b, const std::map<int, double> &c, double *d, int e, int f)", 2)}
EVENTS = {3: "compute phase", 41: "io", 8: "\u00e9tape \u00b5s", 300: "waiting for all of the others to finish their last step"}
STATS = {5: "my stat", 3: "load", 300: "number of cells per chare at the end of every step"}  # an id may name an entry, an event and a stat


def sts(num_pes, papi=0, late=False):
    out = ["PROJECTIONS_ID ", "VERSION 10.0", "TOTAL_CHARES %d" % len(CHARES), "TOTAL_EPS %d" % len(ENTRIES), "TOTAL_MSGS 2", "TOTAL_PSEUDOS 0",
           "PROCESSORS %d" % num_pes, "TIMESTAMP 2023-01-01T00:00:00Z"]
    chares = ['CHARE %d "%s" %d' % (i, n, d) for i, (n, d) in enumerate(CHARES)]
    if not late:
        out += chares
    out += ['ENTRY CHARE %d "%s" %d 0' % (i, n, c) for i, (n, c) in ENTRIES.items()]
    if late:    # in another order, which the keywords allow
        out += chares[::-1]
    out += ["MESSAGE 0 64", "MESSAGE 1 0"]
    out += ["TOTAL_EVENTS %d" % len(EVENTS)] + ["EVENT %d %s" % x for x in EVENTS.items()]
    out += ["TOTAL_STATS %d" % len(STATS)] + ["STAT %d %s" % x for x in STATS.items()]
    if papi:
        out += ["TOTAL_PAPI_EVENTS %d" % papi] + ["PAPI_EVENT %d PAPI_%d" % (i, i) for i in range(papi)]
    out.append("END")
    return "\n".join(out) + "\n"


def simple(code, name, kind, fields, attrs):
    """fields: names in file order after the code; 't' is the time"""
    def make(g):
        v = {f: g(f) for f in fields}
        return [code] + [v[f] for f in fields], [(name, kind, v["t"] * 1000, None if attrs is None else {k: v[f] for k, f in attrs.items()})]
    return make


def make_entry(kind):
    def make(g):
        e = g.pick("entry", list(ENTRIES))
        name, chare = ENTRIES[e]
        dim = CHARES[chare][1]
        if kind == "create":
            v = {f: g(f) for f in ("mtype", "t", "event", "pe", "len", "send")}
            return ([1, v["mtype"], e, v["t"], v["event"], v["pe"], v["len"], v["send"]],
                    [(name, "Instant", v["t"] * 1000, {"From PE": v["pe"], "MType": v["mtype"], "Entry Type": "Create", "Message Length": v["len"],
                                                       "Event ID": v["event"], "Send Time": v["send"] * 1000})])
        if kind == "multicast":
            v = {f: g(f) for f in ("mtype", "t", "event", "pe", "len", "send")}
            dest = [g("dest%d" % i) for i in range(g.pick("ndest", [0, 1, 5]))]
            return ([21, v["mtype"], e, v["t"], v["event"], v["pe"], v["len"], v["send"], len(dest)] + dest,
                    [(name, "Instant", v["t"] * 1000, {"From PE": v["pe"], "Message Type": v["mtype"], "Entry Type": "Multicast", "Message Length": v["len"],
                                                       "Event ID": v["event"], "Send Time": v["send"] * 1000, "Destinatopn PEs": dest})])
        if kind == "begin":
            v = {f: g(f) for f in ("mtype", "t", "event", "pe", "len", "recv", "cpu")}
            ids = [g("id%d" % i) for i in range(dim)]
            perf = [g("perf%d" % i) for i in range(g.papi)]
            return ([2, v["mtype"], e, v["t"], v["event"], v["pe"], v["len"], v["recv"]] + ids + [v["cpu"]] + perf,
                    [(name, "Enter", v["t"] * 1000, {"From PE": v["pe"], "Message Type": v["mtype"], "Entry Type": "Processing", "Event ID": v["event"],
                                                     "Message Length": v["len"], "Receive Time": v["recv"], "ID List": ids, "CPU Start Time": v["cpu"],
                                                     "perf counts list": perf})])
        v = {f: g(f) for f in ("mtype", "t", "event", "pe", "len", "cpu")}
        perf = [g("perf%d" % i) for i in range(g.papi)]
        return ([3, v["mtype"], e, v["t"], v["event"], v["pe"], v["len"], v["cpu"]] + perf, [(name, "Leave", v["t"] * 1000, ANY)])
    return make


ANY = object()  # attributes of an END_PROCESSING row are not specified


def user(code, kind):
    def make(g):
        if kind == "stat":
            i = g.pick("stat", list(STATS))
            v = {f: g(f) for f in ("t", "user", "stat_value", "pe")}
            text = g.pick("text", ["0.75", "-1.5e-3", "12.0", "inf", "nan", None])
            if text is not None:
                v["stat_value"] = float(text)
            return [32, v["t"], v["user"], v["stat_value"] if text is None else text, v["pe"], i], [(STATS[i] + " ", "Instant", v["t"] * 1000, {
                "From PE": v["pe"], "User Time": v["user"] * 1000, "Stat": v["stat_value"], "Event Type": "User Stat"})]
        i = g.pick("uevent", list(EVENTS))
        n = EVENTS[i] + " "
        v = {f: g(f) for f in ("t", "event", "pe")}
        if kind == "event":
            return [13, i, v["t"], v["event"], v["pe"]], [(n, "Instant", v["t"] * 1000, {"From PE": v["pe"], "Event ID": v["event"], "Event Type": "User Event"})]
        nid = g("nested")
        line = [code, i, v["t"], v["event"], v["pe"], nid]
        if kind == "pair":
            return line, [(n, "Instant", v["t"] * 1000, {"From PE": v["pe"], "Event ID": v["event"], "Nested ID": nid, "Event Type": "User Event Pair"})]
        return line, [("User Event Pair", kind, v["t"] * 1000, {"From PE": v["pe"], "Event ID": v["event"], "Nested ID": nid, "User Event Name": n})]
    return make


def note(g):
    words = g.pick("words", [["hello"], ["two", "words", "12"], ["a", "b", "a", "a"], ['"quoted"', 'end"'], ['"all', 'of it"'], ["caf\u00e9", "\u6f22\u5b57"], []])
    t = g("t")
    return [28, t] + words, [("User Supplied Note", "Instant", t * 1000, {"Note": "".join(w + " " for w in words)})]


def bracketed(g):
    i = g.pick("uevent", list(EVENTS))
    words = g.pick("words", [["hello"], ["x", "y", "x"], ['"quoted"', "word"], ["na\u00efve"], ["two", "words"]])
    t, end = g("t"), g("end")
    g.after(end, t)
    d = {"Event ID": i, "Event Name": EVENTS[i] + " ", "Note": "".join(w + " " for w in words) + '"'}
    return [29, t, end, i] + words, [("User Supplied Bracketed Note", "Enter", t * 1000, d), ("User Supplied Bracketed Note", "Leave", end * 1000, d)]


def supplied(g):
    return [26, 1234], [("User Supplied", "Instant", -1, {"User Supplied": "1234"})]


def unsupported(g):
    v = g.pick("line", [[4711, 1, 2, 3], [16384], ["PROJECTIONS-RECORD", 0], ["x1", 5], [20, 3, 4], [-5, 1]])
    return list(v), []


PE = {"From PE": "pe"}
Q = {"From PE": "pe", "Message Type": "mtype", "Event ID": "event"}
I = {"From PE": "pe", "Event ID": "event"}  # noqa: E741
RECORDS = {
    "BEGIN_IDLE": simple(14, "Idle", "Enter", ["t", "pe"], PE), "END_IDLE": simple(15, "Idle", "Leave", ["t", "pe"], PE),
    "BEGIN_PACK": simple(16, "Pack", "Enter", ["t", "pe"], PE), "END_PACK": simple(17, "Pack", "Leave", ["t", "pe"], PE),
    "BEGIN_UNPACK": simple(18, "Unpack", "Enter", ["t", "pe"], PE), "END_UNPACK": simple(19, "Unpack", "Leave", ["t", "pe"], PE),
    "USER_SUPPLIED": supplied, "NOTE": note, "BRACKETED_NOTE": bracketed,
    "MEMORY": simple(27, "Memory Usage", "Instant", ["mem", "t"], {"Memory Usage": "mem"}),
    "CREATION": make_entry("create"), "MULTICAST": make_entry("multicast"), "BEGIN_PROCESSING": make_entry("begin"), "END_PROCESSING": make_entry("end"),
    "BEGIN_TRACE": simple(11, "Trace", "Enter", ["t"], None), "END_TRACE": simple(12, "Trace", "Leave", ["t"], None),
    "MESSAGE_RECV": simple(10, "Message Receive", "Instant", ["mtype", "t", "event", "pe", "len"], dict(Q, **{"Message Length": "len"})),
    "ENQUEUE": simple(4, "Enque", "Instant", ["mtype", "t", "event", "pe"], Q), "DEQUEUE": simple(5, "Deque", "Instant", ["mtype", "t", "event", "pe"], Q),
    "BEGIN_INTERRUPT": simple(8, "Interrupt", "Enter", ["t", "event", "pe"], I), "END_INTERRUPT": simple(9, "Interrupt", "Leave", ["t", "event", "pe"], I),
    "BEGIN_COMPUTATION": simple(6, "Computation", "Enter", ["t"], None), "END_COMPUTATION": simple(7, "Computation", "Leave", ["t"], None),
    "USER_EVENT": user(13, "event"), "USER_EVENT_PAIR": user(100, "pair"), "BEGIN_USER_EVENT_PAIR": user(98, "Enter"), "END_USER_EVENT_PAIR": user(99, "Leave"),
    "USER_STAT": user(32, "stat"), "UNSUPPORTED": unsupported,
}


class Gen:
    """field values of one record"""

    def __init__(self, ctx, prefix, papi, last, fixed_picks=False):
        self.ctx, self.prefix, self.papi, self.last, self.fixed = ctx, prefix, papi, last, fixed_picks

    def __call__(self, f):
        if f in ("t", "end") and getattr(self.ctx, "rigid", False):
            v = ((2 ** 53 + 1) * (self.ctx.salt % 2) if self.last is None else self.last) + self.ctx.int(self.prefix + f, 0, 3)
        else:
            v = self.ctx.int(self.prefix + f, 0 if f in ("t", "end") else -2 ** 31, 2 ** 40)
            if getattr(self.ctx, "rigid", False) and self.ctx.salt % 2:
                v = v + 2 ** 53 + 1
        if f == "t":
            if self.last is not None and not getattr(self.ctx, "rigid", False):
                self.ctx.assume(self.last <= v)
            self.last = v
        return v

    def pick(self, f, options):
        return options[-1] if self.fixed else self.ctx.choice(self.prefix + f, options)

    def after(self, b, a):
        self.ctx.assume(a <= b)


def log_events(ctx, prefix, kinds, papi=0, fixed=False):
    """-> (lines as lists of fields, expected events in log order)"""
    lines, events, last = [], [], None
    for i, k in enumerate(kinds):
        g = Gen(ctx, "%s%d." % (prefix, i), papi, last, fixed)
        line, ev = RECORDS[k](g)
        last = g.last
        lines.append(line)
        events += ev
    closed = list(events)
    if events and events[-1][0] != "Computation":
        closed.append(("Computation", "Leave", events[-1][2], None))
    return lines, closed


def write(ctx, d, logs, papi=0, txt=None, name="app"):
    txt = txt or Texts(ctx)
    with open(os.path.join(d, name + ".sts"), "w") as f:
        f.write(sts(len(logs), papi, getattr(ctx, "late", False)))
    for pe, lines in enumerate(logs):
        with gzip.open(os.path.join(d, "%s.%d.log.gz" % (name, pe)), "wt", compresslevel=1) as f:
            f.write("PROJECTIONS-RECORD %d\n" % len(lines))
            for l in lines:
                f.write(" ".join(txt(x) if not isinstance(x, str) else x for x in l) + "\n")
