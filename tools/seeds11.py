"""seeded changes, eleventh round"""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


T, C, G, W, K = "pipit/trace.py", "pipit/util/cct.py", "pipit/graph.py", "pipit/writers/chrome_writer.py", "pipit/util/config.py"
P, O, H, N = ["pipit/readers/%s_reader.py" % x for x in ("projections", "otf2", "hpctoolkit", "nsight")]

seed("C18-closing-latest", "C18", [(P, """                time = data["Timestamp (ns)"][-1]
""", """                time = max(data["Timestamp (ns)"])
""")], "a log without END_COMPUTATION whose last event is earlier than another (a user supplied value, at -1)", "the closing Leave is at another time",
"""
t = projections([["6 0", "14 5 0", "15 9 0", "29 2 4 5 x"]])
c = t.events[(t.events["Name"] == "Computation") & (t.events["Event Type"] == "Leave")]
assert list(c["Timestamp (ns)"]) == [4000], c
""")
seed("C18-latin", "C18", [(P, """                self.executable_location + "." + str(pe_num) + ".log.gz", "rt"
""", """                self.executable_location + "." + str(pe_num) + ".log.gz",
                "rt",
                errors="ignore",
                encoding="ascii",
""")], "a note whose text is not ASCII", "characters are dropped",
"""
t = projections([["6 0", "28 5 caf\\u00e9", "7 10"]])
n = t.events["Attributes"][1]["Note"]
assert n.strip() == "caf\\u00e9", repr(n)
""")
seed("C21-wide-line", "C21", [(H, """                    flex[8:12], byteorder=self.byte_order, signed=self.signed
                )
                flex = flex[16:]
                source_file_index""", """                    flex[8:10], byteorder=self.byte_order, signed=self.signed
                )
                flex = flex[16:]
                source_file_index""")], "a context at a source line beyond 65535", "the line is reported modulo 65536",
"""
t = hpctoolkit([(1, "main thread", [ctx(2, "line", src=(0, 70000), children=[ctx(3, "function", func=0)])])],
               functions=[("f", None, 7)], files=["a.c"], modules=["m"], traces=[(1, [(0, 3)])], tmax=5)
t2 = hpctoolkit([(1, "main thread", [ctx(4, "function", func=0, children=[ctx(2, "line", src=(0, 70000), children=[ctx(3, "function", func=0)])])])],
               functions=[("f", None, 7)], files=["a.c"], modules=["m"], traces=[(1, [(0, 3)])], tmax=5)
lines = list(t2.events["Source File Line Number"].astype(str))
assert "70000" in lines, lines
""")
seed("C21-flex-words", "C21", [(H, """            flex = self.file.read(8 * num_flex_words)
            index += 8 * num_flex_words
""", """            num_flex_words = (flags & 1) + (flags & 2) + ((flags >> 1) & 2)
            flex = self.file.read(8 * num_flex_words)
            index += 8 * num_flex_words
""")], "contexts with more flex words than their flags use", "the contexts that follow in the array are read from the wrong place",
"""
import struct, builtins
# a database of two sibling contexts, the first with an unused flex word
import demolib
real = struct.pack
def pack(fmt, *a):
    if fmt == "<QQIBBBBH6x":
        a = a[:6] + (a[6] + 1,) + a[7:]
        return real(fmt, *a)
    return real(fmt, *a)
src = open(demolib.__file__).read()
src = src.replace("+ 2 * (c[\\"point\\"] is not None)\\n", "+ 2 * (c[\\"point\\"] is not None) + 1\\n", 1)
src = src.replace("            below += sub\\n", "            own += struct.pack(\\"<Q\\", 0)\\n            below += sub\\n", 1)
ns = {"__name__": "d", "__file__": demolib.__file__}
exec(compile(src, "d", "exec"), ns)
t = ns["hpctoolkit"]([(1, "main thread", [ctx(2, func=0), ctx(3, func=1)])], functions=[("f", None, 7), ("g", None, 8)], modules=["m"], files=["a"],
               traces=[(1, [(0, 2), (3, 3)])], tmax=5)
assert "g" in set(t.events["Name"]), t.events
""")
seed("C23-process-metrics", "C23", [(O, """                        prev_metrics[loc._ref] = (
""", """                        prev_metrics[loc.group._ref] = (
"""), (O, """                            loc._ref, (None, {})
""", """                            loc.group._ref, (None, {})
""")], "a metric with no event of its thread, and an event of another thread of the process at its time", "values end up on the other thread's event",
"""
import otf2, otf2.writer
from otf2.enums import *
def fill(t):
    d = t.definitions
    root = d.system_tree_node("n")
    g = d.location_group("p0", system_tree_parent=root)
    m = d.metric_class([d.metric_member("A", "", MetricType.OTHER, MetricMode.ABSOLUTE_POINT, base=Base.DECIMAL, value_type=Type.UINT64)])
    ws = [t.event_writer("t%d" % i, group=g) for i in range(2)]
    r = d.region("f")
    ws[0].metric(10, m, [100])
    ws[1].enter(10, r)
    ws[0].enter(20, r)
    ws[1].metric(15, m, [7])
    ws[1].leave(15, r)
    ws[0].leave(30, r)
t = read_otf2(fill)
e = t.events[t.events["Event Type"] == "Enter"]
assert e["A"].isnull().all(), e
""")
seed("C26-otf2-kinds", "C26", [(O, """            by="Timestamp (ns)",
""", """            by=["Timestamp (ns)", "Event Type"],
""")], "a Leave and then an Enter at the same time", "the Enter comes first",
"""
import otf2, otf2.writer
def fill(t):
    d = t.definitions
    root = d.system_tree_node("n")
    g = d.location_group("p0", system_tree_parent=root)
    w = t.event_writer("m", group=g)
    r, s = d.region("f"), d.region("g")
    w.enter(0, r); w.leave(5, r); w.enter(5, s); w.leave(9, s)
t = read_otf2(fill)
assert list(t.events["Name"]) == ["f", "f", "g", "g"], t.events
""")
seed("C07-list-of-metrics", "C07", [(T, """        if "time.exc" in metrics:
""", """        if metrics[-1] == "time.exc":
""")], "time.exc asked for before another metric", "KeyError: it was not calculated",
"""
t = trace([(0, "E", "f", 0), (2, "L", "f", 0)])
assert t.flat_profile(["time.exc", "time.inc"])["time.exc"]["f"] == 2
""")
seed("C07-absent-groups", "C07", [(T, """                .sum()
                .groupby(groupby_column)
                .mean()
""", """                .sum()
                .unstack(fill_value=0)
                .stack(future_stack=True)
                .groupby(groupby_column)
                .mean()
""")], "a function that some processes never call", "those processes count as zero in its mean",
"""
t = trace([(0, "E", "a", 0), (4, "L", "a", 0), (5, "E", "b", 1), (7, "L", "b", 1)])
assert t.flat_profile()["time.exc"].to_dict() == {"a": 4.0, "b": 2.0}, t.flat_profile()
""")
seed("C13-nan-sums", "C13", [(T, """        function_sums = combined_df.sum()
""", """        function_sums = combined_df.mean()
""")], "functions that only some runs have", "the columns are ordered by mean instead of sum",
"""
a = trace([(0, "E", "f", 0), (2, "L", "f", 0), (2, "E", "g", 0), (5, "L", "g", 0)])
b = trace([(0, "E", "f", 0), (2, "L", "f", 0), (2, "E", "f", 1), (4, "L", "f", 1)])
r = Trace.multirun_analysis([a, b])
assert list(r.columns) == ["f", "g"], r
""")
seed("C10-normalised-share", "C10", [(T, """            df /= total_bin_duration
""", """            shares = df.sum(axis=1)
            df = df.div(shares.where(shares > 1.5 * total_bin_duration, total_bin_duration), axis=0)
""")], "threads, whose functions take more than the processes' time, or shares below the threshold", "percentages are of another total",
"""
t = trace([(0, "E", "f", 0, 0), (0, "E", "f", 0, 1), (10, "L", "f", 0, 0), (10, "L", "f", 0, 1)], "tknph")
r = t.time_profile(1, normalized=True)
assert r["f"][0] == 2.0, r
""")
seed("C11-waiting-count", "C11", [(T, """        sent = comm_matrix.sum(axis=1)
        received = comm_matrix.sum(axis=0)
""", """        np.fill_diagonal(comm_matrix, 0)
        sent = comm_matrix.sum(axis=1)
        received = comm_matrix.sum(axis=0)
""")], "a message a process sends to itself", "comm_by_process does not count it",
"""
t = trace([(0, "I", "MpiSend", 0), (1, "I", "MpiRecv", 0)])
t.events["Attributes"] = [{"receiver": 0, "msg_length": 5}, {"sender": 0, "msg_length": 5}]
assert list(t.comm_by_process()["Sent"]) == [5], t.comm_by_process()
""")
