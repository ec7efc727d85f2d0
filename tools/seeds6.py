"""seeded changes, sixth round: state shared between reads (C32), analyses of traces read from files (C33)"""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


T, C, G, W, K = "pipit/trace.py", "pipit/util/cct.py", "pipit/graph.py", "pipit/writers/chrome_writer.py", "pipit/util/config.py"
P, O, H, N = ["pipit/readers/%s_reader.py" % x for x in ("projections", "otf2", "hpctoolkit", "nsight")]

# ---------------------------------------------------------------- C32
seed("C32-sts-cache", "C32", [(P, """class STSReader:
    def __init__(self, file_location):
""", """class STSReader:
    # what is in the sts files read before
    known = {}

    def __new__(cls, file_location):
        # every worker asks for the same sts file
        if file_location not in cls.known:
            cls.known[file_location] = super().__new__(cls)
        return cls.known[file_location]

    def __init__(self, file_location):
        if hasattr(self, "num_pes"):
            return
""")], "a Projections directory that was read before and now holds another run (another number of processors)", "the number of processors of the earlier run is used",
"""
def put(d, logs):
    for x in os.listdir(d):
        os.remove(os.path.join(d, x))
    with open(os.path.join(d, "app.sts"), "w") as o:
        o.write(STS % (len(logs), ""))
    for i, l in enumerate(logs):
        with gzip.open(os.path.join(d, "app.%d.log.gz" % i), "wt") as o:
            o.write("PROJECTIONS-RECORD 0\\n" + "".join(x + "\\n" for x in l))
with Scratch() as d:
    put(d, [["14 5 0", "15 9 0", "7 11"]])
    a = Trace.from_projections(d, 1)
    put(d, [["14 5 0", "15 9 0", "7 11"], ["14 6 1", "15 7 1", "7 11"]])
    b = Trace.from_projections(d, 1)
assert len(a.events) == 3 and len(b.events) == 6, (len(a.events), len(b.events))
""")
seed("C32-report-cache", "C32", [(N, """        # Read in csv
        self.df = pd.read_csv(self.file_name)
""", """        # Read in csv (reports are large, keep those seen before)
        key = (str(self.file_name), os.path.getsize(self.file_name))
        if key not in _reports:
            _reports[key] = pd.read_csv(self.file_name)
        self.df = _reports[key].copy()
"""), (N, """import pandas as pd
import pipit.trace
""", """import os
import pandas as pd
import pipit.trace

_reports = {}
""")], "a report that was overwritten by another of the same size since it was last read", "the old report is returned",
"""
HEAD = "Start (ns),End (ns),Duration (ns),PID,TID,Name\\n"
with Scratch() as d:
    f = os.path.join(d, "r.csv")
    open(f, "w").write(HEAD + "10,20,10,7,7,foo\\n")
    a = Trace.from_nsight(f)
    open(f, "w").write(HEAD + "30,40,10,7,7,bar\\n")
    b = Trace.from_nsight(f)
assert list(a.events["Name"]) == ["foo"] * 2 and list(b.events["Name"]) == ["bar"] * 2, list(b.events["Name"])
""")
seed("C32-thread-base", "C32", [(O, """        self.process_threads_map = dict()
""", """        self.process_threads_map = OTF2Reader.first_location
"""), (O, """    \"\"\"Reader for OTF2 trace files\"\"\"
""", """    \"\"\"Reader for OTF2 trace files\"\"\"

    # first location of each process
    first_location = dict()
""")], "two archives read in turn whose processes start at different location numbers", "threads of the second are numbered from the first one's locations",
"""
import otf2, otf2.writer
from otf2.enums import LocationGroupType
def arch(first):
    with Scratch() as d:
        with otf2.writer.open(os.path.join(d, "x"), timer_resolution=10 ** 9) as t:
            node = t.definitions.system_tree_node("n")
            grp = t.definitions.location_group("g", system_tree_parent=node)
            reg = t.definitions.region("f")
            for _ in range(first):
                pass
            locs = [t.definitions.location("l%d" % i, group=grp) for i in range(2)]
            other = t.definitions.location_group("h", system_tree_parent=node)
            for loc in locs[first:]:
                w = t.event_writer_from_location(loc)
                w.enter(1, reg); w.leave(2, reg)
        return Trace.from_otf2(os.path.join(d, "x"), 1)

def swapped(order):
    with Scratch() as d:
        with otf2.writer.open(os.path.join(d, "x"), timer_resolution=10 ** 9) as t:
            node = t.definitions.system_tree_node("n")
            grps = [t.definitions.location_group("g%d" % i, system_tree_parent=node) for i in range(2)]
            reg = t.definitions.region("f")
            for i in order:
                loc = t.definitions.location("l", group=grps[i])
                w = t.event_writer_from_location(loc)
                w.enter(1, reg); w.leave(2, reg)
        return Trace.from_otf2(os.path.join(d, "x"), 1)
a, b = swapped([0, 1]), swapped([1, 0])
assert set(a.events["Thread"]) == {0} and set(b.events["Thread"]) == {0}, set(b.events["Thread"])
""")
seed("C32-pickle-beside", "C32", [(T, """        events_dataframe = pd.read_csv(filename, skipinitialspace=True)

        # if""", """        # parsing is slow: keep the parsed rows beside the file
        parsed = str(filename) + ".pkl"
        if os.path.exists(parsed) and (
            os.path.getmtime(parsed) >= os.path.getmtime(filename)
        ):
            events_dataframe = pd.read_pickle(parsed)
        else:
            events_dataframe = pd.read_csv(filename, skipinitialspace=True)
            if len(events_dataframe) > 3:
                events_dataframe.to_pickle(parsed)

        # if"""), (T, """import numpy as np
""", """import os
import numpy as np
""")], "a file of more than three rows", "reading leaves another file beside the trace",
"""
with Scratch() as d:
    f = os.path.join(d, "x.csv")
    open(f, "w").write("Timestamp (ns),Event Type,Name,Process\\n" + "".join("%d,Enter,f,0\\n%d,Leave,f,0\\n" % (2 * i, 2 * i + 1) for i in range(9)))
    Trace.from_csv(f)
    assert os.listdir(d) == ["x.csv"], os.listdir(d)
""")
seed("C32-metric-lists", "C32", [(T, """    def __init__(self, definitions, events, cct=None):
""", """    def __init__(self, definitions, events, cct=None, inc_metrics=[], exc_metrics=[]):
"""), (T, """        self.inc_metrics = []
        self.exc_metrics = []
""", """        self.inc_metrics = inc_metrics
        self.exc_metrics = exc_metrics
""")], "metrics are calculated in one trace before another is read", "the other trace claims to have the metric columns",
"""
a = trace([(0, "E", "f", 0), (3, "L", "f", 0)])
a.calc_exc_metrics()
b = trace([(0, "E", "g", 0), (3, "L", "g", 0)])
assert not b.inc_metrics and not b.exc_metrics
""")

# ---------------------------------------------------------------- C33
seed("C18-unsigned-time", "C18", [(P, """        trace_df = trace_df.astype(
            {
                "Name": "category",
""", """        trace_df["Timestamp (ns)"] = trace_df["Timestamp (ns)"].astype("uint64")
        trace_df = trace_df.astype(
            {
                "Name": "category",
""")], "an event that carries no time (a user supplied value has time -1)", "its time wraps to 2^64-1",
"""
t = projections([["14 5 0", "26 3", "15 9 0", "7 11"]])
assert t.events["Timestamp (ns)"].min() == -1, list(t.events["Timestamp (ns)"])
""")
seed("C33-index-kept", "C33", [(N, """        self.df.reset_index(drop=True, inplace=True)
""", """        if len(self.df) > 2:
            self.df.reset_index(drop=True, inplace=True)
        else:
            self.df.index = self.df.index * 0
""")], "a report of one call", "its two rows have the same row number, so they are not matched",
"""
with Scratch() as d:
    f = os.path.join(d, "r.csv")
    open(f, "w").write("Start (ns),End (ns),Duration (ns),PID,TID,Name\\n10,20,10,7,7,foo\\n")
    t = Trace.from_nsight(f)
t.calc_inc_metrics(["Timestamp (ns)"])
assert list(t.events["time.inc"])[0] == 10
""")

seed("C32-context-cache", "C32", [(H, """    def get_information_from_context_id(self, context_id: int):
        context: dict = self.context_map[context_id]
""", """    def get_information_from_context_id(self, context_id: int):
        # asked for every sample
        if context_id not in self._information:
            self._information[context_id] = self.__information(context_id)
        return self._information[context_id]

    def __information(self, context_id: int):
        context: dict = self.context_map[context_id]
"""), (H, """class MetaReader:
""", """class MetaReader:
    _information = {}

""")], "two databases read one after the other", "names of the second are taken from the first",
"""
def db(a, b):
    return hpctoolkit([(1, "main thread", [ctx(5, func=0, children=[ctx(8, func=1)])])], functions=[(a, None, 0), (b, None, 0)], traces=[(1, [(0, 8), (5, 5)])], tmin=0, tmax=9)
x, y = db("main", "work"), db("work", "solve")
assert "solve" in set(y.events["Name"]) and "solve" not in set(x.events["Name"]), set(y.events["Name"])
""")
seed("C33-nsight-matching", "C33", [(N, """        self.df = self.df.astype(
            {
                "Event Type": "category",
                "Name": "category",
                "PID": "category",
""", """        # the report says which rows belong together: no need to match them later
        call = self.df.groupby(["TID", "Name", self.df.index % max(1, len(self.df) // 2)])
        pair = pd.Series(self.df.index, index=self.df.index)
        same = pair.groupby([self.df["TID"], self.df["Name"], self.df["Duration (ns)"]])
        del call
        self.df["_matching_event"] = (
            same.transform("first").where(
                self.df["Event Type"] == "Leave", same.transform("last")
            )
        ).astype("Int32")
        self.df["_matching_timestamp"] = self.df["Timestamp (ns)"].to_numpy()[
            self.df["_matching_event"].astype("int64").to_numpy()
        ]

        self.df = self.df.astype(
            {
                "Event Type": "category",
                "Name": "category",
                "PID": "category",
""")], "a thread that calls the same function twice for exactly as long", "the calls are taken for one",
"""
with Scratch() as d:
    f = os.path.join(d, "r.csv")
    open(f, "w").write("Start (ns),End (ns),Duration (ns),PID,TID,Name\\n10,20,10,7,7,foo\\n30,40,10,7,7,foo\\n50,61,11,7,7,foo\\n")
    t = Trace.from_nsight(f)
p = t.flat_profile()
assert float(p["time.exc"]["foo"]) == 31, p
""")
seed("C33-csv-index", "C33", [(T, """        events_dataframe.sort_values(
            by="Timestamp (ns)",
            axis=0,
            ascending=True,
            inplace=True,
            ignore_index=True,
            kind="stable",
        )

        return""", """        # keep the line numbers of files that are in order anyway
        in_order = events_dataframe["Timestamp (ns)"].diff().dropna() > -1
        events_dataframe.sort_values(
            by="Timestamp (ns)",
            axis=0,
            ascending=True,
            inplace=True,
            ignore_index=bool(in_order.mean() < 0.9),
            kind="stable",
        )

        return""")], "a file in which few rows are out of order", "row numbers are not the positions of the rows, so matching pairs the wrong ones",
"""
rows = [x for i in range(10) for x in ("%d,Enter,f,0\\n" % (4 * i), "%d,Leave,f,0\\n" % (4 * i + 1))]
rows[4], rows[5] = rows[5], rows[4]
t = csv("Timestamp (ns),Event Type,Name,Process\\n" + "".join(rows))
assert float(t.flat_profile()["time.exc"]["f"]) == 10, t.flat_profile()
""")
