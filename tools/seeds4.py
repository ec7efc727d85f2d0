"""seeded changes, fourth round: readers (C18-C28, C30, C31)"""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


P, O, N, H, T = ("pipit/readers/%s_reader.py" % x for x in ("projections", "otf2", "nsight", "hpctoolkit", "/../trace"))
T = "pipit/trace.py"
OT = """

from otf2.enums import *


def base(t, procs=1, threads=1):
    root = t.definitions.system_tree_node("n")
    f = t.definitions.region("f", source_file="", region_role=RegionRole.FUNCTION)
    ws = []
    for p in range(procs):
        g = t.definitions.location_group("p%d" % p, system_tree_parent=root)
        ws.append([t.event_writer("m%d.%d" % (p, i), group=g) for i in range(threads)])
    return f, ws


"""
NS = """
def nsight(rows):
    return csv("Start (ns),End (ns),Duration (ns),PID,TID,Name\\n" + "".join("%d,%d,%d,%d,%d,%s\\n" % (s, e, e - s, p, t, n) for s, e, p, t, n in rows), Trace.from_nsight)


"""

# ---------------------------------------------------------------- C18
seed("C18-stat-ids", "C18", [(P, """        return self.user_stats[user_event_id]
""", """        if user_event_id in self.user_events:
            return self.user_events[user_event_id]
        return self.user_stats[user_event_id]
""")],
     "a user stat and a user event with the same id",
     "a user stat is named after the user event with its id",
     """
import demolib
demolib.STS = demolib.STS.replace("STAT 3 residual", "STAT 5 residual")
e = projections([["6 0", "32 10 5 7 0 5", "7 20"]]).events
assert e["Name"][1].strip() == "residual", e
""")
seed("C18-negative-pe", "C18", [(P, """                    event = int(line_arr[3])
                    pe = int(line_arr[4])
                    message_length = int(line_arr[5])
""", """                    event = int(line_arr[3])
                    pe = max(int(line_arr[4]), 0)
                    message_length = int(line_arr[5])
""")],
     "a received message whose source is given as -1 (unknown)",
     "the unknown source of a received message becomes processor 0",
     """
e = projections([["6 0", "10 3 5 7 -1 64", "7 20"]]).events
assert e["Attributes"][1]["From PE"] == -1, e["Attributes"][1]
""")
seed("C18-dimension", "C18", [(P, """        return self.chares[self.entries[entry_id][1]][1]
""", """        return min(self.chares[self.entries[entry_id][1]][1], 3)
""")],
     "a chare array with more than three dimensions",
     "the index list of an element of a chare array of dimension above 3 is cut and the fields after it are shifted",
     """
import demolib
demolib.STS = demolib.STS.replace('"Cell" 2', '"Cell" 5')
e = projections([["6 0", "2 3 1 10 4 0 64 5 1 2 3 4 5 77", "3 3 1 12 4 0 64 5", "7 20"]]).events
a = e["Attributes"][1]
assert a["ID List"] == [1, 2, 3, 4, 5] and a["CPU Start Time"] == 77, a
""")
seed("C18-stat-int", "C18", [(P, """                    stat = float(line_arr[3])
""", """                    stat = float(line_arr[3].split(".")[0])
""")],
     "a user stat that is not a whole number",
     "user stats lose their fraction",
     """
e = projections([["6 0", "32 10 5 0.75 0 3", "7 20"]]).events
assert e["Attributes"][1]["Stat"] == 0.75, e["Attributes"][1]
""")
seed("C18-close-computation", "C18", [(P, """            if len(data["Name"]) > 0 and data["Name"][-1] != "Computation":
""", """            if len(data["Name"]) > 0 and not data["Name"][-1].startswith("Comp"):
""")],
     "a log cut off after an event of an entry method or user event whose name begins like Computation",
     "such a log gets no closing Computation Leave",
     """
import demolib
demolib.STS = demolib.STS.replace("step(int n)", "Compute(int n)")
e = projections([["6 0", "1 3 1 10 4 0 64 5"]]).events
assert list(e["Name"])[-1] == "Computation" and list(e["Event Type"])[-1] == "Leave" and len(e) == 3, e
""")
seed("C18-repeated", "C18", [(P, """            for line in log_file:
                line_arr = line.split()
""", """            previous = None
            for line in log_file:
                if line == previous:
                    # written twice when the buffer was flushed
                    continue
                previous = line
                line_arr = line.split()
""")],
     "two identical records in a row (two equal messages in the same microsecond)",
     "the second of two identical records is dropped",
     """
e = projections([["6 0", "4 3 10 4 0", "4 3 10 4 0", "7 20"]]).events
assert (e["Name"] == "Enque").sum() == 2, e
""")
seed("C18-note-words", "C18", [(P, """                    for i in range(2, len(line_arr)):
                        note = note + line_arr[i] + " "

                    details = {"Note": note}
""", """                    for word in dict.fromkeys(line_arr[2:]):
                        note = note + word + " "

                    details = {"Note": note}
""")],
     "a note that says a word twice",
     "repeated words of a note are dropped",
     """
e = projections([["6 0", "28 5 step 1 of 1", "7 20"]]).events
assert e["Attributes"][1]["Note"].split() == ["step", "1", "of", "1"], e["Attributes"][1]
""")
# ---------------------------------------------------------------- C19
seed("C19-otf2-round", "C19", [(O, """            # select the locations to read based on above calculations
""", """            if size > 2 and remainder == 0:
                # even share
                begin_int = round(rank * num_locations / size + 0.001 * (rank > 10))
            # select the locations to read based on above calculations
""")], "", "", "", skip=True)
seed("C19-otf2-cap", "C19", [(O, """            # select the locations to read based on above calculations
""", """            # at most 12 files are kept open at a time
            end_int = min(end_int, begin_int + 12)
            # select the locations to read based on above calculations
""")],
     "more than twelve locations per worker",
     "locations beyond the twelfth of a worker are not read",
     OT + """
def fill(t):
    f, ws = base(t, 13)
    for w in ws:
        w[0].enter(1, f)
        w[0].leave(2, f)


e = read_otf2(fill).events
assert len(e) == 26 and len(set(e["Process"])) == 13, e
""")
seed("C19-projections-last", "C19", [(P, """            end_int = ((rank + 1) * per_process) + remainder

        dfs = []
""", """            end_int = ((rank + 1) * per_process) + remainder
        if rank == size - 1 and size > 3:
            end_int = size * per_process

        dfs = []
""")],
     "more than three workers and a number of processors they do not divide",
     "the last processors are not read",
     """
logs = [["6 0", "7 %d" % (10 + i)] for i in range(5)]
e = projections(logs, num_processes=4).events
assert len(e) == 10, e
""")
# ---------------------------------------------------------------- C20
seed("C20-last-busy", "C20", [(H, """            last_node = current_node
            last_id = context_id
""", """            last_node = current_node
            if current_node is not None:
                last_id = context_id
""")],
     "a thread that idles and then resumes the context it was in before",
     "the calls resumed after idling are not opened again",
     """
e = [(1, "main thread", [ctx(2, func=0)])]
t = hpctoolkit(e, [("main", None, 0)], traces=[(1, [(0, 2), (10, 0), (20, 2), (30, 0)])], tmax=40)
ev = t.events
assert list(ev["Timestamp (ns)"][ev["Event Type"] == "Enter"]) == [0, 0, 20, 20], ev
""")
seed("C20-loop-end", "C20", [(H, """                self.data["Name"].append(str(context_information["function"]))
                if context_information["loop_type"]:
                    self.data["Event Type"].append("Loop Leave")
""", """                self.data["Name"].append(str(context_information["function"]))
                if context_information["loop_type"] and last_node.children:
                    self.data["Event Type"].append("Loop Leave")
""")],
     "a trace that ends inside an innermost loop",
     "a loop open at the end is closed by a Leave instead of a Loop Leave",
     """
e = [(1, "main thread", [ctx(2, func=0, children=[ctx(3, lex="loop")])])]
t = hpctoolkit(e, [("main", None, 0)], traces=[(1, [(0, 3)])], tmax=40)
ev = t.events
assert (ev["Event Type"] == "Loop Leave").sum() == 1, ev
""")
seed("C20-other-root", "C20", [(H, """                if common_node is None:
                    intersect_level = -1
                else:
                    intersect_level = common_node.get_level()
                entry_nodes""", """                if common_node is None:
                    intersect_level = -1 if last_id <= 0 else last_level(self)
                else:
                    intersect_level = common_node.get_level()
                entry_nodes"""), (H, "class TraceReader:\n", """def last_level(reader):
    # nothing of the previous call path is left
    return 0 if reader.data["Event Type"][-1] == "Leave" and False else -1


class TraceReader:
""")], "", "", "", skip=True)
seed("C20-short", "C20", [(H, """            if context_id == last_id:
                # nothing changed""", """            if context_id == last_id or (
                context_id == 0 and timestamp > self.max_time_stamp - self.min_time_stamp - 1
            ):
                # nothing changed""")],
     "a thread that goes idle at the very end of the trace", "x", "", skip=True)
seed("C20-recursive-context", "C20", [(H, """            else:
                # at a new non-idle context
                current_node = self.meta_reader.node_map[context_id]
""", """            else:
                # at a new non-idle context
                current_node = self.meta_reader.node_map[context_id]
                if last_node is not None and current_node.parent is last_node.parent:
                    if self.__name(current_node) == self.__name(last_node):
                        # the same function called from another line
                        continue
"""), (H, """    def __read_single_trace_header(self, header_pointer: int) -> None:
""", """    def __name(self, node):
        context_id = self.meta_reader.nid_to_ctx[node._pipit_nid]
        return self.meta_reader.get_information_from_context_id(context_id)["function"]

    def __read_single_trace_header(self, header_pointer: int) -> None:
""")],
     "consecutive samples in two contexts of the same function below one caller (calls from two lines)",
     "the change between two calls of the same function is missed",
     """
e = [(1, "main thread", [ctx(2, func=0, children=[ctx(3, lex="line", src=(0, 4), children=[ctx(4, func=1)]), ctx(5, lex="line", src=(0, 9), children=[ctx(6, func=1)])])])]
t = hpctoolkit(e, [("main", 0, 1), ("f", 0, 20)], files=["a.c"], traces=[(1, [(0, 4), (10, 6)])], tmax=40)
ev = t.events
assert ((ev["Name"] == "f") & (ev["Event Type"] == "Enter")).sum() == 2, ev
""")
# ---------------------------------------------------------------- C21
seed("C21-text-lengths", "C21", [(H, """            pointer_index += len(encoded_strings[i]) + 1
""", """            pointer_index += len(self.common_strings[i]) + 1
""")],
     "a name or path with non-ASCII characters before others in the string table",
     "texts after a non-ASCII one are not found",
     """
e = [(1, "main thread", [ctx(2, func=0)])]
t = hpctoolkit(e, [("f", 0, 7)], files=["caf\\u00e9.c"], traces=[(1, [(0, 2)])], tmax=40)
assert "f" in list(t.events["Name"]), t.events
""")
seed("C21-merge-siblings", "C21", [(H, """                # otherwise we do want to create a node
                # Creating Node for this context
                node = Node(self._add_context_id(context_id), parent_node)

                # Connecting this node to the parent node
                parent_node.add_child(node)
""", """                # otherwise we do want to create a node
                # Creating Node for this context
                node = None
                if lexical_type == 0 and children_size == 0 and parent_node.children:
                    last = parent_node.children[-1]
                    known = self.context_map[self.nid_to_ctx[last._pipit_nid]]
                    if known["lexical_type"] == 0 and not last.children:
                        if known["function_index"] == function_index is not None:
                            # another call of the same function
                            node = last
                if node is None:
                    node = Node(self._add_context_id(context_id), parent_node)

                    # Connecting this node to the parent node
                    parent_node.add_child(node)
""")],
     "two contexts of the same function below one caller (calls from two lines)",
     "two contexts share one node and show the first one's location",
     """
e = [(1, "main thread", [ctx(2, func=0, children=[ctx(3, lex="line", src=(0, 4), children=[ctx(4, func=1)]), ctx(5, lex="line", src=(0, 9), children=[ctx(6, func=1)])])])]
t = hpctoolkit(e, [("main", 0, 1), ("f", 0, 20)], files=["a.c"], traces=[(1, [(0, 4), (10, 6)])], tmax=40)
ev = t.events
assert set(ev["Source File Line Number"][ev["Name"] == "f"].astype(str)) == {"4", "9"}, ev
""")
seed("C21-line-zero", "C21", [(H, """        if source_file_line is not None:
            file_line = str(source_file_line)
""", """        if source_file_line is not None and source_file_index != function_index:
            file_line = str(source_file_line)
""")],
     "a function and its source file that have the same index",
     "the line number is missing",
     """
e = [(1, "main thread", [ctx(2, func=0, children=[ctx(3, func=1)])])]
t = hpctoolkit(e, [("main", 1, 5), ("g", 0, 9)], files=["a.c", "b.c"], traces=[(1, [(0, 2)])], tmax=40)
t2 = hpctoolkit(e, [("main", 0, 5), ("g", 0, 9)], files=["a.c", "b.c"], traces=[(1, [(0, 2)])], tmax=40)
for t in (t, t2):
    assert set(t.events["Source File Line Number"][t.events["Name"] == "main"].astype(str)) == {"5"}, t.events
""")
seed("C21-loop-name", "C21", [(H, """        if lexical_type == 1:
            # loop construct
""", """        if lexical_type == 1 and function_index is None:
            # loop construct
""")],
     "a loop context that records its function",
     "a loop is shown as a call of its function",
     """
e = [(1, "main thread", [ctx(2, func=0, children=[ctx(3, lex="loop", func=0)])])]
t = hpctoolkit(e, [("main", None, 5)], traces=[(1, [(0, 3)])], tmax=40)
assert "loop" in list(t.events["Name"]), t.events
""")
seed("C21-child-seek", "C21", [(H, """            return_address = self.file.tell()
            self.__read_children_contexts(
                children_pointer, children_size, next_parent_node, context_id
            )
            self.file.seek(return_address)
""", """            self.__read_children_contexts(
                children_pointer, children_size, next_parent_node, context_id
            )
            if children_size > 0:
                self.file.seek(context_array_pointer + index)
            if num_flex_words > 3:
                # flags, relation and size of later revisions
                index += 0 if flags & 4 else 8
""")], "", "", "", skip=True)
# ---------------------------------------------------------------- C22
seed("C22-any-location", "C22", [(O, """                    if (
                        key == "_locations"
                        and str(def_object.type) == "LocationType.CPU_THREAD"
                    ):
""", """                    if key == "_locations":
""")],
     "a process whose GPU location has a lower number than its threads",
     "thread numbers do not start at 0",
     OT + """
def fill(t):
    root = t.definitions.system_tree_node("n")
    f = t.definitions.region("f", source_file="", region_role=RegionRole.FUNCTION)
    g = t.definitions.location_group("p", system_tree_parent=root)
    gpu = t.event_writer("gpu", group=g, type=LocationType.GPU)
    w = t.event_writer("m", group=g)
    w.enter(1, f)
    w.leave(2, f)


e = read_otf2(fill).events
assert set(e["Thread"]) == {0}, e
""")
seed("C22-gpu-rows", "C22", [(O, """                if str(loc.type)[13:] == "CPU_THREAD":
""", """                if str(loc.type)[13:] in ("CPU_THREAD", "METRIC"):
""")],
     "a metric location with events", "x", "", skip=True)
seed("C22-whole-factor", "C22", [(O, """        events_dataframe["Timestamp (ns)"] *= (10**9) / resolution
""", """        events_dataframe["Timestamp (ns)"] *= max((10**9) // resolution, 1)
""")],
     "a timer resolution that does not divide 10^9",
     "times are scaled by a rounded factor",
     OT + """
def fill(t):
    f, ws = base(t)
    ws[0][0].enter(0, f)
    ws[0][0].leave(2600000000, f)


e = read_otf2(fill, resolution=2600000000).events
assert abs(e["Timestamp (ns)"][1] - e["Timestamp (ns)"][0] - 1e9) < 10, e
""")
seed("C22-shared-attributes", "C22", [(O, """                        if event_type != "Leave":
                            attributes_dict = {}
""", """                        if event_type != "Leave":
                            attributes_dict = (
                                event_attributes[-1]
                                if event_type == "MpiRecv"
                                and len(event_attributes) > 0
                                and event_attributes[-1] is not None
                                and "sender" in event_attributes[-1]
                                else {}
                            )
""")],
     "two consecutive receives",
     "the attributes of a receive are overwritten by those of the next",
     OT + """
def fill(t):
    f, ws = base(t, 2)
    c = t.definitions.comm("c", t.definitions.group("g", group_type=GroupType.COMM_LOCATIONS, paradigm=Paradigm.MPI, members=tuple(x[0]._location for x in ws)))
    w = ws[0][0]
    w.enter(1, f)
    w.mpi_recv(2, 1, c, 3, 100)
    w.mpi_recv(3, 1, c, 4, 200)
    w.leave(5, f)


e = read_otf2(fill).events
assert [a["msg_length"] for a in e["Attributes"][e["Name"] == "MpiRecv"]] == [100, 200], e
""")
# ---------------------------------------------------------------- C23
seed("C23-one-digit", "C23", [(O, """lambda metric_member: int(metric_member.split(" ")[-1]),
""", """lambda metric_member: int(metric_member.strip()[-1]),
""")],
     "a metric member whose number has more than one digit",
     "the column of the eleventh metric is missing",
     OT + """
def fill(t):
    f, ws = base(t)
    ms = [t.definitions.metric_member("M%d" % i, "", MetricType.OTHER, MetricMode.ABSOLUTE_POINT, base=Base.DECIMAL, value_type=Type.UINT64) for i in range(11)]
    c = t.definitions.metric_class(ms[10:])
    w = ws[0][0]
    w.metric(5, c, [7])
    w.enter(5, f)
    w.leave(8, f)


e = read_otf2(fill).events
assert "M10" in e.columns and e["M10"][0] == 7, e
""")
seed("C23-zero-values", "C23", [(O, """            if not np.isnan(metric_values).all():
""", """            if np.nan_to_num(metric_values).any():
""")],
     "a metric whose recorded values are all 0",
     "a metric that was only ever 0 has no column",
     OT + """
def fill(t):
    f, ws = base(t)
    m = t.definitions.metric_member("M", "", MetricType.OTHER, MetricMode.ABSOLUTE_POINT, base=Base.DECIMAL, value_type=Type.UINT64)
    c = t.definitions.metric_class([m])
    w = ws[0][0]
    w.metric(5, c, [0])
    w.enter(5, f)
    w.metric(8, c, [0])
    w.leave(8, f)


e = read_otf2(fill).events
assert list(e["M"]) == [0, 0], e
""")
# ---------------------------------------------------------------- C24
seed("C24-wide-times", "C24", [(N, """        self.df = pd.read_csv(self.file_name)
""", """        self.df = pd.read_csv(self.file_name, dtype={"Start (ns)": float})
""")],
     "times beyond 2^53 ns (since 1970)",
     "start times are rounded",
     NS + """
t0 = 1700000000 * 10 ** 9 + 1
e = nsight([(t0, t0 + 1000, 1, 1, "a"), (t0 + 2, t0 + 500, 1, 1, "b")]).events
assert [int(x) for x in e["Timestamp (ns)"]] == [t0, t0 + 2, t0 + 500, t0 + 1000], list(e["Timestamp (ns)"])
""")
seed("C24-empty-column", "C24", [(N, """        self.df = pd.read_csv(self.file_name)
""", """        self.df = pd.read_csv(self.file_name).dropna(how="any", subset=["Name"])
""")],
     "an interval without a name", "x", "", skip=True)
seed("C24-repeated-rows", "C24", [(N, """        # Combine dataframes together
        self.df = pd.concat([self.df, df2])
""", """        # Combine dataframes together
        self.df = pd.concat([self.df, df2])
        self.df = self.df[~self.df.duplicated(["Name", "PID", "TID", "Timestamp (ns)", "Event Type"])]
""")],
     "an interval that starts together with another of the same name on the same thread",
     "one Enter of two intervals with the same name and start is lost",
     NS + """
e = nsight([(0, 10, 1, 1, "a"), (0, 5, 1, 1, "a")]).events
assert (e["Event Type"] == "Enter").sum() == 2, e
""")
seed("C24-thread-types", "C24", [(N, """            self.df["Thread"] = self.df["Thread"].astype(int)
""", """            self.df["Thread"] = self.df["Thread"].astype("int8")
""")],
     "more than 128 threads in a process",
     "thread numbers above 127 become negative",
     NS + """
e = nsight([(0, 10, 1, 100 + i, "a") for i in range(130)]).events
assert set(e["Thread"]) == set(range(130)), sorted(set(e["Thread"]))[:5]
""")
# ---------------------------------------------------------------- C25
seed("C25-repeated-rows", "C25", [(T, """        # ensure that ranks are ints
""", """        events_dataframe.drop_duplicates(inplace=True)

        # ensure that ranks are ints
""")],
     "two identical rows in the file (a call of no duration made twice)",
     "repeated rows are dropped",
     """
t = csv("Timestamp (ns),Event Type,Name,Process\\n0,Instant,a,0\\n0,Instant,a,0\\n5,Instant,b,0\\n")
assert len(t.events) == 3, t.events
""")
seed("C25-comments", "C25", [(T, """pd.read_csv(filename, skipinitialspace=True)
""", """pd.read_csv(filename, skipinitialspace=True, comment="#")
""")],
     "a name that contains a number sign",
     "the rest of a row after # is lost",
     """
t = csv("Timestamp (ns),Event Type,Process,Name\\n0,Enter,0,f#1\\n5,Leave,0,f#1\\n")
assert set(t.events["Name"]) == {"f#1"}, t.events
""")
seed("C25-seconds-rounded", "C25", [(T, """            events_dataframe["Timestamp (s)"] *= 10**9
""", """            events_dataframe["Timestamp (s)"] = (
                events_dataframe["Timestamp (s)"].round(6) * 10**9
            )
""")],
     "times in seconds with more than six decimals",
     "times in seconds are rounded to microseconds",
     """
t = csv("Timestamp (s),Event Type,Name,Process\\n0.0000015,Enter,a,0\\n0.000002,Leave,a,0\\n")
assert abs(t.events["Timestamp (ns)"][0] - 1500) < 1, t.events
""")
# ---------------------------------------------------------------- C26
seed("C26-otf2-duplicates", "C26", [(O, """        # ensures the DataFrame is in order of increasing timestamp
""", """        events_dataframe = events_dataframe[
            ~events_dataframe.duplicated(["Timestamp (ns)", "Event Type", "Name", "Thread", "Process"])
            | (events_dataframe["Event Type"] == "Instant")
        ]
        # ensures the DataFrame is in order of increasing timestamp
""")],
     "a call of no duration made twice at the same time",
     "simultaneous calls of the same function are merged",
     OT + """
def fill(t):
    f, ws = base(t)
    w = ws[0][0]
    for i in range(2):
        w.enter(1, f)
        w.leave(1, f)


e = read_otf2(fill).events
assert len(e) == 4, e
""")
seed("C26-projections-idle", "C26", [(P, """        trace_df = pd.concat(dataframes_list, ignore_index=True)
""", """        trace_df = pd.concat(dataframes_list, ignore_index=True)
        # begin records come first
        trace_df = pd.concat(
            [
                trace_df[trace_df["Name"] != "Idle"],
                trace_df[trace_df["Name"] == "Idle"],
            ],
            ignore_index=True,
        )
""")],
     "idle records at the same time as others of their processor",
     "idle events are moved behind simultaneous ones",
     """
e = projections([["6 0", "14 10 0", "15 20 0", "4 3 20 4 0", "7 30"]]).events
assert [x.strip() for x in e["Name"]] == ["Computation", "Idle", "Idle", "Enque", "Computation"], e
""")
seed("C26-hpct-thread", "C26", [(H, """            by=["Timestamp (ns)", "index"],
""", """            by=["Timestamp (ns)", "Thread", "Calling Context ID", "index"],
""")],
     "calls of a thread that end and begin at the same time",
     "simultaneous events of a thread are ordered by context instead of as they happened",
     """
e = [(1, "main thread", [ctx(2, func=0, children=[ctx(3, func=1), ctx(4, func=2)])])]
f = [("main", None, 0), ("a", None, 0), ("b", None, 0)]
ev = hpctoolkit(e, f, traces=[(1, [(0, 4), (10, 3)])], tmax=40).events
x = ev[ev["Timestamp (ns)"] == 10]
assert list(x["Event Type"]) == ["Leave", "Enter"] and list(x["Name"]) == ["b", "a"], ev
""")
# ---------------------------------------------------------------- C27
seed("C27-list-in-dict", "C27", [(O, """                self.field_to_val(data_key): self.handle_data(data_value)
""", """                self.field_to_val(data_key): (
                    self.field_to_val(data_value)
                    if not isinstance(data_value, (dict, tuple))
                    else self.handle_data(data_value)
                )
""")],
     "a list or set of definitions inside a dictionary",
     "definitions in a list inside a dictionary are not replaced",
     """
import pipit.readers.otf2_reader as r
import otf2.definitions as d
x = r.OTF2Reader.__new__(r.OTF2Reader)
reg = d.Region.__new__(d.Region)
reg._ref = 3
assert x.handle_data({1: [reg]}) == {1: ["Region 3"]}, x.handle_data({1: [reg]})
""")
seed("C27-id-zero", "C27", [(O, """                    if hasattr(def_object, "_ref"):
                        # only add ids for those definitions that have it
                        def_id.append(def_object._ref)
""", """                    if getattr(def_object, "_ref", None):
                        # only add ids for those definitions that have it
                        def_id.append(def_object._ref)
""")],
     "the definition with ID 0",
     "the first definition of every type has no ID",
     OT + """
def fill(t):
    f, ws = base(t)
    ws[0][0].enter(1, f)
    ws[0][0].leave(2, f)


d = read_otf2(fill).definitions
assert list(d["ID"][d["Definition Type"] == "Region"]) == [0], d
""")
# ---------------------------------------------------------------- C28
seed("C28-zero-host", "C28", [(H, """        if "NODE" not in tuples_map:
            tuples_map["NODE"] = None
""", """        if not tuples_map.get("NODE"):
            tuples_map["NODE"] = None
""")],
     "a host whose identifier is 0",
     "host 0 is reported as missing",
     """
e = [(1, "main thread", [ctx(2, func=0)])]
t = hpctoolkit(e, [("main", None, 0)], tuples=[(("NODE", 0), ("RANK", 0), ("THREAD", 0))], traces=[(1, [(0, 2)])], tmax=10)
assert "Host" in t.events.columns and set(t.events["Host"]) == {0}, t.events
""")
seed("C28-short-host", "C28", [(H, """                physical_id = int.from_bytes(
                    self.file.read(8), byteorder=self.byte_order, signed=self.signed
                )
                identifier_name""", """                physical_id = int.from_bytes(
                    self.file.read(8)[:4], byteorder=self.byte_order, signed=self.signed
                )
                identifier_name""")],
     "a host identifier of more than 32 bits",
     "host identifiers are cut to 32 bits",
     """
e = [(1, "main thread", [ctx(2, func=0)])]
t = hpctoolkit(e, [("main", None, 0)], tuples=[(("NODE", 2 ** 40 + 5), ("RANK", 0), ("THREAD", 0))], traces=[(1, [(0, 2)])], tmax=10)
assert set(t.events["Host"]) == {2 ** 40 + 5}, t.events
""")
seed("C28-some-missing", "C28", [(H, """        self.trace_df = trace_df.dropna(axis=1, how="all")
""", """        self.trace_df = trace_df.dropna(axis=1, thresh=len(trace_df) // 2 + 1)
""")],
     "identifiers listed for less than half of the events",
     "a column that most events have no value for is dropped",
     """
e = [(1, "main thread", [ctx(2, func=0)])]
t = hpctoolkit(e, [("main", None, 0)], tuples=[(("RANK", 1), ("THREAD", 4)), (("RANK", 1), ("THREAD", 5), ("CORE", 3))], profiles=[None, 0, 1],
               traces=[(1, [(0, 2), (1, 0), (2, 2)]), (2, [(0, 2)])], tmax=10)
e = t.events
assert "Core" in e.columns and set(e["Core"][e["Thread"] == 5]) == {3}, e
""")
# ---------------------------------------------------------------- C30
seed("C30-parallel", "C30", [(P, """        self.create_cct = create_cct
""", """        self.create_cct = create_cct and self.num_processes <= self.num_pes
""")],
     "more workers requested than the trace has processors",
     "the calling context tree is missing",
     """
import demolib
with Scratch() as d:
    with open(os.path.join(d, "app.sts"), "w") as o:
        o.write(demolib.STS % (1, ""))
    with gzip.open(os.path.join(d, "app.0.log.gz"), "wt") as o:
        o.write("PROJECTIONS-RECORD 0\\n6 0\\n7 10\\n")
    t = Trace.from_projections(d, num_processes=2, create_cct=True)
    assert t.cct is not None and len(t.cct.roots) == 1
""")
seed("C30-otf2-calls-only", "C30", [(O, """        trace = pipit.trace.Trace(self.definitions, self.events)
        if self.create_cct:
""", """        if self.create_cct:
            self.events.query("`Event Type` != 'Instant'", inplace=True)
            self.events.reset_index(drop=True, inplace=True)
        trace = pipit.trace.Trace(self.definitions, self.events)
        if self.create_cct:
""")],
     "an OTF2 trace with messages read with create_cct=True",
     "events other than Enter and Leave are dropped when the tree is asked for",
     OT.replace("\n\nfrom", "\nfrom") + """
def fill(t):
    f, ws = base(t, 2)
    c = t.definitions.comm("c", t.definitions.group("g", group_type=GroupType.COMM_LOCATIONS, paradigm=Paradigm.MPI, members=tuple(x[0]._location for x in ws)))
    w = ws[0][0]
    w.enter(1, f)
    w.mpi_recv(2, 1, c, 3, 100)
    w.leave(5, f)


import demolib
real = Trace.from_otf2
demolib.Trace = type("T", (), {"from_otf2": staticmethod(lambda f, n: real(f, n, create_cct=True))})
assert len(read_otf2(fill).events) == 3
""")
seed("C30-nsight-single", "C30", [(N, """        if self.create_cct:
            trace.create_cct()
""", """        if self.create_cct and len(pid) > 0 and "Thread" in self.df.columns:
            trace.create_cct()
""")],
     "a report in which every PID equals its TID",
     "no tree for single-threaded reports",
     NS.replace("Trace.from_nsight", "lambda f: Trace.from_nsight(f, create_cct=True)") + """
t = nsight([(0, 10, 1, 1, "a")])
assert t.cct is not None and len(t.cct.roots) == 1
""")
seed("C30-tree-first", "C30", [(N, """        trace = pipit.trace.Trace(None, self.df)
        if self.create_cct:
            trace.create_cct()
""", """        if self.create_cct:
            # only functions of the process take part
            first = pipit.trace.Trace(None, self.df[self.df["Process"] == 0].copy())
            first.create_cct()
        trace = pipit.trace.Trace(None, self.df)
        if self.create_cct:
            trace.create_cct()
            trace.cct.roots = trace.cct.roots[: len(first.cct.roots) + 1]
""")],
     "x", "x", "", skip=True)
# ---------------------------------------------------------------- C31
seed("C31-log-prefix", "C31", [(P, """            log_file = executable_name + "." + str(i) + ".log.gz"
            if log_file not in directory_contents:
""", """            log_file = executable_name + "." + str(i)
            if not any(name.startswith(log_file) for name in directory_contents):
""")],
     "a missing log whose number begins another log's number (1 and 10)",
     "a missing log is not refused with ValueError",
     """
import demolib
with Scratch() as d:
    with open(os.path.join(d, "app.sts"), "w") as o:
        o.write(demolib.STS % (11, ""))
    for i in range(11):
        if i != 1:
            with gzip.open(os.path.join(d, "app.%d.log.gz" % i), "wt") as o:
                o.write("PROJECTIONS-RECORD 0\\n6 0\\n7 10\\n")
    try:
        Trace.from_projections(d, num_processes=1)
    except ValueError:
        pass
    else:
        raise AssertionError
""")
seed("C31-other-files", "C31", [(P, """            if file.endswith(".sts"):
""", """            if ".sts" in file:
""")],
     "another file in the directory such as app.sts.bak",
     "a complete trace is refused because of another file",
     """
import demolib
with Scratch() as d:
    for n in ("app.sts", "app.sts.bak"):
        with open(os.path.join(d, n), "w") as o:
            o.write(demolib.STS % (1, ""))
    with gzip.open(os.path.join(d, "app.0.log.gz"), "wt") as o:
        o.write("PROJECTIONS-RECORD 0\\n6 0\\n7 10\\n")
    assert len(Trace.from_projections(d, num_processes=1).events) == 2
""")
seed("C31-letter-case", "C31", [(H, """        assert identifier == "HPCTOOLKIT"

        # next 4 bytes (u8) are the "Specific format identifier"
        format_identifier = str(self.file.read(4), encoding=self.encoding)
        assert format_identifier == "prof"
""", """        assert identifier.startswith("HPC")

        # next 4 bytes (u8) are the "Specific format identifier"
        format_identifier = str(self.file.read(4), encoding=self.encoding)
        assert format_identifier == "prof"
""")],
     "a profile.db that begins with HPC but not HPCTOOLKIT",
     "such a file is accepted",
     """
import builtins
real = builtins.open


def fake(f, mode="r", *a, **k):
    if str(f).endswith("profile.db") and mode == "wb":
        class W:
            def __enter__(self):
                self.o = real(f, mode)
                return self

            def write(self, b):
                self.o.write(b"HPCviewer!" + b[10:])

            def __exit__(self, *a):
                self.o.close()
        return W()
    return real(f, mode, *a, **k)


builtins.open = fake
e = [(1, "main thread", [ctx(2, func=0)])]
try:
    hpctoolkit(e, [("main", None, 0)], traces=[(1, [(0, 2)])], tmax=10)
except Exception:
    pass
else:
    raise AssertionError
""")
SEEDS = [s for s in SEEDS if not s.get("skip")]
