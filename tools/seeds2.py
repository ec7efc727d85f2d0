"""seeded changes to the readers (C18-C28)"""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


P = "pipit/readers/projections_reader.py"
seed("C18-perf-counts", "C18", [(P, "for i in range(9 + dimensions, 9 + dimensions + num_perf_counts):", "for i in range(9 + dimensions, 9 + num_perf_counts):")],
     "an entry method of an array chare (dimension above 0) with PAPI counters",
     "performance counters of BEGIN_PROCESSING are cut short for chares with dimensions",
     """
papi = "TOTAL_PAPI_EVENTS 3\\nPAPI_EVENT 0 A\\nPAPI_EVENT 1 B\\nPAPI_EVENT 2 C\\n"
t = projections([["2 0 1 10 4 0 64 5 8 9 77 100 200 300", "3 0 1 20 4 0 64 30 400 500 600"]], papi)
a = t.events["Attributes"][0]
assert a["ID List"] == [8, 9] and a["CPU Start Time"] == 77 and a["perf counts list"] == [100, 200, 300], a
""")
seed("C18-dequeue-swap", "C18", [(P, """                elif int(line_arr[0]) == ProjectionsConstants.DEQUEUE:
                    mtype = int(line_arr[1])
                    time = int(line_arr[2]) * 1000
                    event = int(line_arr[3])
                    pe = int(line_arr[4])
""", """                elif int(line_arr[0]) == ProjectionsConstants.DEQUEUE:
                    mtype = int(line_arr[1])
                    time = int(line_arr[2]) * 1000
                    event, pe = int(line_arr[4]), int(line_arr[3])
""")],
     "a DEQUEUE record whose event id differs from its PE",
     "event id and PE of DEQUEUE records are exchanged",
     """
t = projections([["5 2 10 33 0"]])
a = t.events["Attributes"][0]
assert a["Event ID"] == 33 and a["From PE"] == 0, a
""")
seed("C18-event-name-nested", "C18", [(P, """                        "Nested ID": nested_id,
                        "User Event Name": sts_reader.get_user_event(user_event_id),
                    }

                    _add_to_trace_dict(
                        data, "User Event Pair", "Enter", time, pe_num, details""", """                        "Nested ID": nested_id,
                        "User Event Name": sts_reader.get_user_event(
                            nested_id if nested_id in sts_reader.user_events
                            else user_event_id
                        ),
                    }

                    _add_to_trace_dict(
                        data, "User Event Pair", "Enter", time, pe_num, details""")],
     "a nested id that happens to be the id of another user event",
     "begin of a user event pair gets the name of the event numbered like the nested id",
     """
t = projections([["98 5 10 1 0 7"]])
assert t.events["Attributes"][0]["User Event Name"].strip() == "phase one"
t = projections([["98 5 10 1 0 0"]])
assert t.events["Attributes"][0]["User Event Name"].strip() == "phase one"
""")
seed("C18-computation-close", "C18", [(P, """if len(data["Name"]) > 0 and data["Name"][-1] != "Computation":""", """if "Computation" not in data["Name"][1:]:""")],
     "a log in which a computation ended but further records follow",
     "no closing Leave is added when a Computation event occurred earlier in the log",
     """
t = projections([["6 0", "7 10", "6 20", "14 25 0", "15 30 0"]])
assert list(t.events["Name"])[-1] == "Computation" and list(t.events["Event Type"])[-1] == "Leave", t.events
""")
seed("C18-log-owner", "C18", [(P, """_add_to_trace_dict(
                        data, "Message Receive", "Instant", time, pe_num, details""", """_add_to_trace_dict(
                        data, "Message Receive", "Instant", time, pe, details""")],
     "a received message that came from another PE",
     "Message Receive events are attributed to the sender's process",
     """
t = projections([["10 0 10 5 1 64"], ["6 0", "7 20"]])
e = t.events
assert list(e["Process"][e["Name"] == "Message Receive"]) == [0], e
""")

seed("C19-projections-chunk", "C19", [(P, """        per_process = int(self.num_pes // size)
        remainder = int(self.num_pes % size)
""", """        per_process = int(round(self.num_pes / size))
        remainder = self.num_pes - per_process * size
""")],
     "a number of PEs whose remainder is at least half the number of workers",
     "logs are skipped or read twice",
     """
logs = [["6 %d" % i, "7 %d" % (i + 10)] for i in range(3)]
for n in (1, 2, 3):
    t = projections(logs, "", n)
    assert sorted(t.events["Process"].astype(int)) == [0, 0, 1, 1, 2, 2], (n, t.events)
""")
O = "pipit/readers/otf2_reader.py"
seed("C19-otf2-remainder", "C19", [(O, """                begin_int = (rank * per_process) + remainder
                end_int = ((rank + 1) * per_process) + remainder
""", """                begin_int = (rank * per_process) + min(remainder, 1)
                end_int = ((rank + 1) * per_process) + min(remainder, 1)
""")],
     "a remainder of at least 2 locations (5 locations on 3 workers)",
     "the last locations are not read, others are read twice",
     """

from otf2.enums import *


def fill(t):
    root = t.definitions.system_tree_node("n")
    f = t.definitions.region("f", source_file="", region_role=RegionRole.FUNCTION)
    for p in range(5):
        g = t.definitions.location_group("p%d" % p, system_tree_parent=root)
        w = t.event_writer("m%d" % p, group=g)
        w.enter(10 + p, f)
        w.leave(20 + p, f)


for n in (1, 2, 3):
    t = read_otf2(fill, n)
    assert sorted(t.events["Process"].astype(int)) == sorted(list(range(5)) * 2), (n, t.events)
""")
seed("C19-cpu-limit", "C19", [(P, "if num_processes is None or num_processes < 1 or num_processes > num_cpus:", "if num_processes is None or num_processes < 0 or num_processes > num_cpus:")],
     "a request for 0 workers",
     "asking for 0 worker processes fails instead of using all CPUs",
     """
t = projections([["6 0", "7 10"]], "", 0)
assert len(t.events) == 2
""")

H = "pipit/readers/hpctoolkit_reader.py"
seed("C20-idle-keeps-common", "C20", [(H, """            if last_node is not None:
                if current_node is None:
                    common_node: Node = None
                else:
                    common_node: Node = current_node.get_intersection(last_node)

                # closing each "enter" column until we reach the common_node
                while last_node != common_node:
                    curr_ctx_id""", """            if last_node is not None:
                if current_node is not None:
                    common_node: Node = current_node.get_intersection(last_node)

                # closing each "enter" column until we reach the common_node
                while last_node is not None and last_node != common_node:
                    curr_ctx_id""")],
     "a thread that changes from one call to another with a common caller and then idles",
     "going idle leaves the earlier common caller open",
     """
e = [(1, "main thread", [ctx(2, func=0, children=[ctx(3, func=1), ctx(4, func=2)])])]
f = [("main", None, 0), ("a", None, 0), ("b", None, 0)]
t = hpctoolkit(e, f, traces=[(1, [(0, 3), (10, 4), (20, 0), (30, 3)])], tmax=40)
ev = t.events
assert (ev["Event Type"] == "Leave").sum() == (ev["Event Type"] == "Enter").sum() == 7, ev
""")
seed("C20-end-time", "C20", [(H, """        current_node = None
        timestamp = self.max_time_stamp - self.min_time_stamp
        if last_node""", """        current_node = None
        timestamp = max(timestamp, 0) if context_id == last_id else 0
        if last_node is not None and timestamp < self.max_time_stamp >> 1:
            timestamp = self.max_time_stamp - self.min_time_stamp
        if last_node""")],
     "the last sample of the thread lies in the later half of the trace",
     "calls open at the end are closed at the last sample instead of the end of the trace",
     """
e = [(1, "main thread", [ctx(2, func=0)])]
for last in (20, 70):
    t = hpctoolkit(e, [("main", None, 0)], traces=[(1, [(0, 1), (last, 2)])], tmax=100)
    assert list(t.events["Timestamp (ns)"])[-2:] == [100, 100], t.events
""")
seed("C20-last-id", "C20", [(H, """            if context_id == last_id:
                # nothing""", """            if context_id == last_id or (context_id == 0 and last_id == -1):
                # nothing"""), (H, """            last_node = current_node
            last_id = context_id
""", """            last_node = current_node
            last_id = context_id if context_id != 0 else -1
"""), (H, """                current_node = None
            else:
                # at a new""", """                current_node = last_node if last_id <= 2 else None
            else:
                # at a new""")],
     "idling after a sample of one of the first contexts",
     "a call of a context numbered 1 or 2 stays open while the thread idles",
     """
e = [(1, "main thread", [ctx(2, func=0)])]
t = hpctoolkit(e, [("main", None, 0)], traces=[(1, [(0, 2), (10, 0), (20, 2)])], tmax=30)
assert list(t.events["Timestamp (ns)"]) == [0, 0, 10, 10, 20, 20, 30, 30], t.events
""")

seed("C21-stride", "C21", [(H, "        ) // self.source_file_size\n        assert", "        ) // 16\n        assert")],
     "source file records longer than 16 bytes",
     "source files are mixed up when the database uses longer records",
     """
import struct
import pipit.readers.hpctoolkit_reader as h
# widen the records of the source file table of a written database
import builtins
e = [(1, "main thread", [ctx(2, func=0), ctx(3, func=1)])]
real = builtins.open


def wide(name, mode="r", *a, **k):
    if mode == "rb" and str(name).endswith("meta.db"):
        b = bytearray(real(name, "rb").read())
        size, at = struct.unpack_from("<QQ", b, 16 + 16 * 6)
        arr, n, stride = struct.unpack_from("<QIH", b, at)
        new = len(b)
        body = b""
        for i in range(n):
            body += bytes(b[arr + 16 * i:arr + 16 * i + 16]) + bytes(8)
        struct.pack_into("<QIH", b, at, new, n, 24)
        fsize, fat = struct.unpack_from("<QQ", b, 16 + 16 * 7)
        farr, fn, fstride = struct.unpack_from("<QIH", b, fat)
        for i in range(fn):
            p, = struct.unpack_from("<Q", b, farr + fstride * i + 24)
            if p:
                struct.pack_into("<Q", b, farr + fstride * i + 24, new + 24 * ((p - arr) // 16))
        b += body
        real(name, "wb").write(bytes(b))
    return real(name, mode, *a, **k)


h.open = wide
t = hpctoolkit(e, [("main", 0, 1), ("f", 2, 9)], files=["a.c", "b.c", "c.c"], traces=[(1, [(0, 2), (5, 3)])], tmax=10)
ev = t.events
assert set(ev["Source File Name"][ev["Name"] == "f"]) == {"c.c"}, ev
""")
seed("C21-inherited-line", "C21", [(H, """                        if source_file_line is None:
                            source_file_line = parent_information["source_file_line"]
""", """                        if not source_file_line:
                            source_file_line = parent_information["source_file_line"]
""")],
     "a function context recorded at line 0 of its file below a context with a line",
     "a recorded line 0 is replaced by the line of the parent",
     """
e = [(1, "main thread", [ctx(2, func=0, children=[ctx(3, "line", src=(0, 12), children=[ctx(4, func=1, src=(1, 0))])])])]
t = hpctoolkit(e, [("main", 0, 1), ("f", 1, 9)], files=["a.c", "b.c"], traces=[(1, [(0, 4)])], tmax=10)
ev = t.events
assert set(ev["Source File Line Number"][ev["Name"] == "f"].astype(str)) == {"0"}, ev
""")
seed("C21-line-parent", "C21", [(H, """                self.node_map[context_id] = parent_node
                next_parent_node = parent_node
""", """                self.node_map[context_id] = parent_node
                next_parent_node = parent_node
                if flags & 4 != 0 and parent_node.parent is not None:
                    self.node_map[context_id] = parent_node.parent
""")],
     "a sample in an instruction context (with a load module point) inside a nested function",
     "instruction contexts resolve to the caller of their function",
     """
e = [(1, "main thread", [ctx(2, func=0, children=[ctx(3, "instruction", point=(0, 64))])])]
t = hpctoolkit(e, [("main", None, 0)], modules=["exe"], traces=[(1, [(0, 3)])], tmax=10)
assert list(t.events["Name"]) == ["main thread", "main", "main", "main thread"], t.events
""")
seed("C21-entry-size", "C21", [(H, "current_pointer = entry_points_array_pointer + (i * entry_point_size)", "current_pointer = entry_points_array_pointer + (\n                (num_entry_points - 1 - i) * entry_point_size\n            )")],
     "a database with several entry points",
     "root contexts are listed in the opposite order of the stored context tree",
     """
e = [(1, "main thread", [ctx(2, func=0)]), (5, "other", [])]
t = hpctoolkit(e, [("main", None, 0)], traces=[(1, [(0, 2)])], tmax=10)
assert [r._pipit_nid for r in t.cct.roots] == [0, 2] and len(t.cct.roots[0].children) == 1, [str(r) for r in t.cct.roots]
""")

OT = """

from otf2.enums import *


def base(t, procs=1, threads=1):
    root = t.definitions.system_tree_node("n")
    f = t.definitions.region("f", source_file="", region_role=RegionRole.FUNCTION)
    ws = []
    for p in range(procs):
        g = t.definitions.location_group("p%d" % p, system_tree_parent=root)
        ws.append([t.event_writer("m%d.%d" % (p, i), group=g) for i in range(threads)])
    return f, ws


"""
seed("C22-thread-first", "C22", [(O, """                        elif location_num < self.process_threads_map[process_num]:
                            self.process_threads_map[process_num] = location_num
""", """                        elif location_num < self.process_threads_map[process_num]:
                            pass
""")],
     "CPU-thread locations of a process that are not defined in increasing order",
     "threads are numbered from the first defined location, giving negative thread numbers",
     OT + """
from unittest import mock
import pipit.readers.otf2_reader as r
from otf2 import LocationType


class D:
    pass


class L:
    type = LocationType.CPU_THREAD
    _fields = []

    def __init__(self, ref):
        self._ref = ref
        self.group = D()
        self.group._ref = 0


x = r.OTF2Reader.__new__(r.OTF2Reader)
x.fields_to_dict = lambda o: {}
tr = D()
tr.definitions = D()
tr.definitions._locations = [L(7), L(3), L(5)]
x.read_definitions(tr)
assert x.process_threads_map == {0: 3}, x.process_threads_map
""")
seed("C22-empty-attributes", "C22", [(O, """if value is not None and key != "time":""", """if value not in (None, "") and key != "time":""")],
     "an event with a field that is an empty string",
     "attributes whose value is an empty string are dropped",
     OT + """


def fill(t):
    f, ws = base(t)
    ws[0][0].parameter_string(5, t.definitions.parameter("p", ParameterType.STRING), "")


a = read_otf2(fill).events["Attributes"][0]
assert "string" in a, a
""")
seed("C22-name-case", "C22", [(O, """                        else:
                            names.append(event_type)
""", """                        elif event_type.startswith("Parameter"):
                            names.append(event.parameter.name)
                        else:
                            names.append(event_type)
""")],
     "a ParameterInt or ParameterString event",
     "parameter events are named after the parameter instead of their type",
     OT + """


def fill(t):
    f, ws = base(t)
    ws[0][0].parameter_int(3, t.definitions.parameter("p", ParameterType.INT64), 4)
    ws[0][0].enter(5, f)
    ws[0][0].leave(9, f)


t = read_otf2(fill)
assert list(t.events["Name"]) == ["ParameterInt", "f", "f"], t.events
""")
seed("C22-offset", "C22", [(O, """        events_dataframe["Timestamp (ns)"] -= offset
""", """        events_dataframe["Timestamp (ns)"] -= min(offset, int(events_dataframe["Timestamp (ns)"].min()))
""")],
     "an event before the global offset",
     "timestamps are shifted when the trace starts before the offset",
     OT + """
from unittest import mock
import pipit.readers.otf2_reader as r


def fill(t):
    f, ws = base(t)
    ws[0][0].enter(1000, f)
    ws[0][0].leave(2000, f)


real = r.OTF2Reader.read_definitions


def shifted(self, trace):
    d = real(self, trace)
    a = d.loc[d["Definition Type"] == "ClockProperties"]["Attributes"].values[0]
    a["global_offset"] = 1500
    return d


r.OTF2Reader.read_definitions = shifted
t = read_otf2(fill)
assert list(t.events["Timestamp (ns)"]) == [-500, 500], t.events
""")

seed("C23-members-of-first", "C23", [(O, """                        metric_values = event.values
""", """                        metric_values = sorted(event.values)
""")],
     "a metric class with two members whose values are not in increasing order",
     "values of several metrics are exchanged",
     OT + """


def fill(t):
    f, ws = base(t)
    ms = [t.definitions.metric_member(n, "", MetricType.OTHER, MetricMode.ABSOLUTE_POINT, base=Base.DECIMAL, value_type=Type.UINT64) for n in ("A", "B")]
    c = t.definitions.metric_class(ms)
    w = ws[0][0]
    w.metric(5, c, [9, 2])
    w.enter(5, f)
    w.metric(8, c, [12, 30])
    w.leave(8, f)


e = read_otf2(fill).events
assert list(e["A"]) == [9, 12] and list(e["B"]) == [2, 30], e
""")
seed("C23-names-order", "C23", [(O, """            metrics_dict = {metric_name: [] for metric_name in metric_names}
""", """            metric_names = metric_names[: len(metric_ids) - 1] if len(
                metric_names
            ) > 2 else metric_names
            metrics_dict = {metric_name: [] for metric_name in metric_names}
""")],
     "a metric class with more than two members",
     "the last metric of a class of three has no column",
     OT + """


def fill(t):
    f, ws = base(t)
    ms = [t.definitions.metric_member(n, "", MetricType.OTHER, MetricMode.ABSOLUTE_POINT, base=Base.DECIMAL, value_type=Type.UINT64) for n in ("A", "B", "C")]
    c = t.definitions.metric_class(ms)
    w = ws[0][0]
    w.metric(5, c, [9, 2, 7])
    w.enter(5, f)
    w.leave(8, f)


e = read_otf2(fill).events
assert "C" in e.columns and e["C"][0] == 7, e
""")
seed("C23-populated", "C23", [(O, """            if not np.isnan(metric_values).all():
""", """            if not np.isnan(metric_values[-1:]).all():
""")],
     "a last event without a metric value",
     "a metric column is dropped when the last event of a worker has no value",
     OT + """


def fill(t):
    f, ws = base(t)
    ms = [t.definitions.metric_member("A", "", MetricType.OTHER, MetricMode.ABSOLUTE_POINT, base=Base.DECIMAL, value_type=Type.UINT64)]
    c = t.definitions.metric_class(ms)
    w = ws[0][0]
    w.metric(5, c, [9])
    w.enter(5, f)
    w.leave(8, f)


e = read_otf2(fill).events
assert "A" in e.columns and e["A"][0] == 9, e
""")

N = "pipit/readers/nsight_reader.py"
HEAD = "Start (ns),End (ns),Duration (ns),PID,TID,Name\\\\n"
NS = """
def nsight(rows):
    return csv("Start (ns),End (ns),Duration (ns),PID,TID,Name\\n" + "".join("%d,%d,%d,%d,%d,%s\\n" % (s, e, e - s, p, t, n) for s, e, p, t, n in rows), Trace.from_nsight)


"""
seed("C24-shared-tids", "C24", [(N, """                tid = set(self.df[mask]["TID"])
""", """                tid = set(self.df[self.df["PID"] >= i]["TID"])
""")],
     "two processes with different threads",
     "the threads of a process are not numbered from 0 when a process with a larger PID exists",
     NS + """
e = nsight([(0, 10, 20, 5, "a"), (0, 10, 30, 1, "b"), (20, 30, 20, 6, "c")]).events
for p in set(e["PID"]):
    th = set(e["Thread"][e["PID"] == p])
    assert th == set(range(len(th))), e
""")
seed("C24-same-ids", "C24", [(N, """        if self.df["PID"].equals(self.df["TID"]) is False:
""", """        if set(self.df["PID"]) != set(self.df["TID"]):
""")],
     "thread ids that are the same set as the process ids but on other rows",
     "threads of a process are merged when the sets of PIDs and TIDs are equal",
     NS + """
e = nsight([(0, 10, 20, 20, "a"), (0, 10, 20, 30, "b"), (0, 10, 30, 30, "c")]).events
assert "Thread" in e.columns and len(set(e["Thread"][e["PID"] == 20])) == 2, e
""")
seed("C24-duration", "C24", [(N, """        df2["Timestamp (ns)"] = df2["End (ns)"]
""", """        df2["Timestamp (ns)"] = (
            df2["Start (ns)"] + df2["Duration (ns)"]
            if "Duration (ns)" in df2.columns
            else df2["End (ns)"]
        )
""")],
     "a report whose duration column is rounded or differs from end minus start",
     "Leave events are placed by the duration column instead of the interval's end",
     """
e = csv("Start (ns),End (ns),Duration (ns),PID,TID,Name\\n0,10,9,1,1,a\\n", Trace.from_nsight).events
assert list(e["Timestamp (ns)"]) == [0, 10], e
""")

T = "pipit/trace.py"
seed("C25-seconds-int", "C25", [(T, """            events_dataframe["Timestamp (s)"] *= 10**9
""", """            events_dataframe["Timestamp (s)"] = (
                events_dataframe["Timestamp (s)"].round(6) * 10**9
            )
""")],
     "times in seconds with nanosecond digits",
     "times given in seconds lose everything below a microsecond",
     """
e = csv("Timestamp (s),Event Type,Name,Process\\n0.000000250,Enter,f,0\\n1.5,Leave,f,0\\n").events
assert abs(e["Timestamp (ns)"][0] - 250) < 1e-3, e
""")
seed("C25-process-byte", "C25", [(T, """events_dataframe.astype({"Process": "int32"})""", """events_dataframe.astype({"Process": "int16"})""")],
     "a process number above 32767",
     "large process numbers wrap around to negative ones",
     """
e = csv("Timestamp (ns),Event Type,Name,Process\\n1,Enter,f,40000\\n2,Leave,f,40000\\n").events
assert list(e["Process"]) == [40000, 40000], e
""")
seed("C25-missing-dropped", "C25", [(T, """        events_dataframe = pd.read_csv(filename, skipinitialspace=True)
""", """        events_dataframe = pd.read_csv(filename, skipinitialspace=True, comment="#")
""")],
     "a name that contains '#'",
     "the rest of a row after a '#' is lost",
     """
e = csv("Timestamp (ns),Event Type,Process,Name\\n1,Enter,0,f#1\\n2,Leave,0,f#1\\n").events
assert list(e["Name"]) == ["f#1", "f#1"], e
""")

seed("C26-hpct-index", "C26", [(H, """            by=["Timestamp (ns)", "index"],
            axis=0,
            ascending=True,
""", """            by=["Timestamp (ns)", "Event Type", "index"],
            axis=0,
            ascending=[True, False, True],
""")],
     "a call that begins and ends at the same time, or a sample that opens calls at the time another thread's closes",
     "simultaneous Leaves and Enters of a thread are regrouped",
     """
e = [(1, "main thread", [ctx(2, func=0)])]
t = hpctoolkit(e, [("main", None, 0)], traces=[(1, [(0, 2), (5, 0), (5, 2)])], tmax=5)
assert list(t.events["Event Type"]) == ["Enter", "Enter", "Leave", "Leave", "Enter", "Enter", "Leave", "Leave"], t.events
""")
seed("C26-hpct-descending", "C26", [(H, """        trace_df.rename_axis("index", inplace=True)
""", """        trace_df.index = trace_df.index.where(
            trace_df["Event Type"] != "Loop Leave", trace_df.index + 2
        )
        trace_df.rename_axis("index", inplace=True)
""")],
     "a loop that ends together with the call around it",
     "the Leave of a loop is moved behind the Leave of its function",
     """
e = [(1, "main thread", [ctx(2, func=0, children=[ctx(3, "loop")])])]
t = hpctoolkit(e, [("main", None, 0)], traces=[(1, [(0, 3), (10, 0)])], tmax=20)
assert list(t.events["Event Type"]) == ["Enter", "Enter", "Loop Enter", "Loop Leave", "Leave", "Leave"], t.events
""")

seed("C27-tuple-list", "C27", [(O, """            return tuple([self.handle_data(data_element) for data_element in data])
""", """            return tuple([self.field_to_val(data_element) for data_element in data])
""")],
     "a tuple that contains a list, dictionary or tuple of definitions",
     "definitions nested two levels deep are not replaced",
     OT + """
import pipit.readers.otf2_reader as r
import otf2 as o


class Region:
    _ref = 7


Region.__module__ = "otf2.definitions"
Region.__qualname__ = "Region"
x = r.OTF2Reader.__new__(r.OTF2Reader)
got = x.handle_data(([Region()], Region()))
assert got == (["Region 7"], "Region 7"), got
""")
seed("C27-single-falsy", "C27", [(O, """        if len(fields_dict) == 1:
            # collapse""", """        fields_dict = {
            key: value for key, value in fields_dict.items() if value is not None
        }
        if len(fields_dict) == 1:
            # collapse""")],
     "a definition with two fields one of which is None",
     "a definition of two fields is collapsed to one value",
     OT + """
import pipit.readers.otf2_reader as r


class F:
    def __init__(self, n):
        self.name = n


class D:
    _fields = [F("a"), F("b")]
    a, b = 1, None


x = r.OTF2Reader.__new__(r.OTF2Reader)
assert x.fields_to_dict(D()) == {"a": 1, "b": None}, x.fields_to_dict(D())
""")
seed("C27-dict-keys", "C27", [(O, """                self.field_to_val(data_key): self.handle_data(data_value)
                for data_key, data_value in data.items()
""", """                str(self.field_to_val(data_key)): self.handle_data(data_value)
                for data_key, data_value in data.items()
""")],
     "a dictionary with number keys",
     "number keys become strings",
     OT + """
import pipit.readers.otf2_reader as r
x = r.OTF2Reader.__new__(r.OTF2Reader)
assert x.handle_data({1: 2}) == {1: 2}
""")

seed("C28-kind-names", "C28", [(H, """                identifier_name = self.meta_reader.get_identifier_name(kind)
                tuples_map[identifier_name] = physical_id
""", """                identifier_name = self.meta_reader.get_identifier_name(kind)
                tuples_map.setdefault(
                    "THREAD" if identifier_name == "GPUDEVICE" else identifier_name,
                    physical_id,
                )
""")],
     "a profile that lists a GPU device (before or instead of a thread)",
     "the thread of GPU profiles is the device number",
     """
e = [(1, "main thread", [ctx(2, func=0)])]
t = hpctoolkit(e, [("main", None, 0)], tuples=[(("RANK", 1), ("GPUDEVICE", 9), ("THREAD", 4))], traces=[(1, [(0, 2)])], tmax=10)
assert set(t.events["Thread"]) == {4}, t.events
""")
seed("C28-profile-index", "C28", [(H, """        hit = self.profile_reader.get_hit_from_profile(profile_index)
""", """        hit = self.profile_reader.get_hit_from_profile(
            profile_index % len(self.profile_reader.hit_map)
            or len(self.profile_reader.hit_map)
        )
""")],
     "two profiles that share an identifier tuple, or trace lines that skip a profile",
     "the profile of a trace line is looked up modulo the number of identifier tuples",
     """
e = [(1, "main thread", [ctx(2, func=0)])]
t = hpctoolkit(e, [("main", None, 0)], tuples=[(("RANK", 1), ("THREAD", 4)), (("RANK", 2), ("THREAD", 5))], profiles=[None, 0, 0, 1],
               traces=[(3, [(0, 2)])], tmax=10)
assert set(t.events["Process"]) == {2} and set(t.events["Thread"]) == {5}, t.events
""")
seed("C28-pointer", "C28", [(H, """            self.hit_map[hit_pointer] = self.__clean_hit(tuples_map)
""", """            tuples_map = self.__clean_hit(tuples_map)
            if tuples_map["RANK"] is None and self.hit_map:
                tuples_map["RANK"] = list(self.hit_map.values())[-1]["RANK"]
            self.hit_map[hit_pointer] = tuples_map
""")],
     "a profile without a RANK after one with a RANK",
     "a missing rank is taken from the previous profile",
     """
e = [(1, "main thread", [ctx(2, func=0)])]
t = hpctoolkit(e, [("main", None, 0)], tuples=[(("RANK", 1), ("THREAD", 4)), (("THREAD", 5),)], profiles=[None, 0, 1],
               traces=[(1, [(0, 2)]), (2, [(0, 2)])], tmax=10)
e = t.events
assert e["Process"][e["Thread"] == 5].isna().all(), e
""")
