"""seeded changes, ninth round"""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


T, C, G, W, K = "pipit/trace.py", "pipit/util/cct.py", "pipit/graph.py", "pipit/writers/chrome_writer.py", "pipit/util/config.py"
P, O, H, N = ["pipit/readers/%s_reader.py" % x for x in ("projections", "otf2", "hpctoolkit", "nsight")]

seed("C01-kind-prefix", "C01", [(T, """                self.events["Event Type"].isin(["Enter", "Leave"])
            ]
""", """                self.events["Event Type"].astype(str).str.startswith(("Enter", "Leave"))
            ]
""")], "a user's own event kind whose name begins with Leave", "such a row ends the open call",
"""
t = trace([(0, "E", "f", 0), (1, "Leave mark", "f", 0), (2, "L", "f", 0)])
t._match_events()
assert t.events["_matching_event"].iloc[0] == 2, t.events
""")
seed("C02-threads-of-first", "C02", [(T, """                exec_locations = set(zip(self.events["Process"], self.events["Thread"]))
                has_thread = True
""", """                # every process has the same threads
                processes = list(set(self.events["Process"]))
                threads = set(
                    self.events.loc[self.events["Process"] == processes[0], "Thread"]
                )
                exec_locations = {(p, t) for p in processes for t in threads}
                has_thread = True
""")], "a process with threads that the first one does not have", "their nesting is left out",
"""
t = trace([(0, "E", "f", 0, 0), (1, "E", "f", 1, 3), (2, "L", "f", 0, 0), (3, "L", "f", 1, 3)], "tknph")
t._match_caller_callee()
assert t.events["_depth"].iloc[1] == 0, t.events
""", nth=1)
seed("C03-loop-children", "C03", [(T, """                                children[parent_df_index].append(curr_df_index)
""", """                                siblings = children[parent_df_index]
                                # a few hundred are enough to draw the tree
                                if len(siblings) < 256:
                                    siblings.append(curr_df_index)
""")], "a call with more than 256 children", "the others are not among its children",
"""
n = 300
t = trace([(0, "E", "m", 0)] + [r for i in range(n) for r in ((2 * i + 1, "E", "f", 0), (2 * i + 2, "L", "f", 0))] + [(9999, "L", "m", 0)])
t._match_caller_callee()
assert len(t.events["_children"].iloc[0]) == n
""")
seed("C04-wide-counter", "C04", [(T, """                ] = (
""", """                ] = np.float32(
""")], "a difference that single precision cannot hold (above 2^24)", "the inclusive value is rounded",
"""
t = trace([(0, "E", "f", 0), (1, "L", "f", 0)], c=[1, 2 ** 40 + 4])
t.calc_inc_metrics()
assert int(t.events["c.inc"].iloc[0]) == 2 ** 40 + 3, t.events
""")
seed("C05-same-child", "C05", [(T, """                    for child_idx in curr_children:
                        # subtract each child's inclusive metric from the total
                        # to calculate the exclusive metric for the parent
                        exc_values[curr_parent_idx] -= inc_values[child_idx]
""", """                    # subtract each child's inclusive metric from the total
                    # to calculate the exclusive metric for the parent
                    inc = {inc_values[child_idx]: child_idx for child_idx in curr_children}
                    exc_values[curr_parent_idx] -= sum(inc)
""")], "two children of the same length", "one of them is counted only",
"""
t = trace([(0, "E", "m", 0), (1, "E", "f", 0), (2, "L", "f", 0), (3, "E", "f", 0), (4, "L", "f", 0), (9, "L", "m", 0)])
t.calc_exc_metrics()
assert t.events["time.exc"].iloc[0] == 7
""")
seed("C05-rounded", "C05", [(T, """                self.events[metric_col_name] = exc_values
                self.exc_metrics.append(metric_col_name)
""", """                # differences of floats leave tiny remainders
                self.events[metric_col_name] = np.round(exc_values, 6)
                self.exc_metrics.append(metric_col_name)
""")], "a metric with values below one millionth", "they become zero",
"""
t = trace([(0, "E", "m", 0), (9, "L", "m", 0)], x=[0.0, 2.0 ** -22])
t.calc_exc_metrics()
assert t.events["x.exc"].iloc[0] == 2.0 ** -22, t.events
""")
seed("C06-case", "C06", [(C, """                callpath = tuple(functions_stack)
""", """                callpath = tuple(name.casefold() for name in functions_stack)
""")], "two functions whose names differ in case only", "they share a node",
"""
t = trace([(0, "E", "Run", 0), (1, "L", "Run", 0), (2, "E", "run", 0), (3, "L", "run", 0)])
t.create_cct()
n = list(t.events["Graph_Node"])
assert n[0] is not n[2] and len(t.cct.roots) == 2
""")
seed("C06-sibling-lookup", "C06", [(C, """                if callpath in callpath_to_node:
                    # don't create new node if callpath is in map
                    curr_node = callpath_to_node[callpath]
""", """                if callpath in callpath_to_node and (
                    parent_node is None
                    or callpath_to_node[callpath] in parent_node.children[-8:]
                ):
                    # don't create new node if callpath is in map
                    curr_node = callpath_to_node[callpath]
""")], "a call again after eight other functions were called there", "a second node is made for the same call path",
"""
names = ["f%d" % i for i in range(10)] + ["f0"]
rows = [(0, "E", "m", 0)]
for i, n in enumerate(names):
    rows += [(2 * i + 1, "E", n, 0), (2 * i + 2, "L", n, 0)]
t = trace(rows + [(99, "L", "m", 0)])
t.create_cct()
assert len(t.cct.roots[0].children) == 10, len(t.cct.roots[0].children)
""")
seed("C07-strip", "C07", [(T, """        # calculate inclusive time if needed
""", """        # functions are reported without their parameters
        if groupby_column == "Name":
            groupby_columns = [
                self.events["Name"].astype(str).str.split("(", n=1).str[0].rename("Name")
            ]

        # calculate inclusive time if needed
""")], "two overloads of a function", "they are added up as one",
"""
t = trace([(0, "E", "f(int)", 0), (1, "L", "f(int)", 0), (2, "E", "f(char)", 0), (5, "L", "f(char)", 0)])
p = t.flat_profile("time.inc")
assert sorted(p.index) == ["f(char)", "f(int)"], p
""")
seed("C08-abs", "C08", [(T, """            top_n = curr_series.sort_values(ascending=False).iloc[0:num_display]
""", """            top_n = curr_series.sort_values(ascending=False, key=abs).iloc[0:num_display]
""")], "a metric that falls during a call of some process", "the most negative process is taken for the largest",
"""
t = trace([(0, "E", "f", 0), (1, "L", "f", 0), (2, "E", "f", 1), (3, "L", "f", 1)], x=[0.0, 4.0, 10.0, 2.0])
t.calc_inc_metrics()
i = t.load_imbalance("x.inc")
assert i["Top processes"].iloc[0] == [0], i
""")
seed("C09-case", "C09", [(T, """            .loc[df["Name"].isin(idle_functions)]
""", """            .loc[
                df["Name"]
                .astype(str)
                .str.lower()
                .isin([str(name).lower() for name in idle_functions])
            ]
""")], "a function whose name differs from an idle function in case only", "its time counts as idle",
"""
t = trace([(0, "E", "IDLE", 0), (5, "L", "IDLE", 0), (6, "E", "Idle", 0), (7, "L", "Idle", 0)])
assert t.idle_time()["Idle Time"].iloc[0] == 1
""")
seed("C10-long-calls", "C10", [(T, """                (events["_matching_timestamp"] > start)
                & (events["Timestamp (ns)"] < end)
""", """                (events["_matching_timestamp"] > start)
                & (events["Timestamp (ns)"] < end)
                & (events["_depth"].astype(float) < 64)
""")], "calls nested more than 64 deep", "their time is given to the caller",
"""
n = 70
t = trace([(i, "E", "f%d" % i, 0) for i in range(n)] + [(1000 - n + i, "L", "f%d" % (n - 1 - i), 0) for i in range(n)])
p = t.time_profile(num_bins=1)
assert p["f69"].iloc[0] > 0
""")
seed("C11-name-prefix", "C11", [(T, """            self.events["Name"].isin(["MpiSend", "MpiIsend"]),
            ["Process", "Attributes"],
        ]
""", """            self.events["Name"].astype(str).str.match("MpiI?[sS]end"),
            ["Process", "Attributes"],
        ]
        sender_dataframe = sender_dataframe[
            sender_dataframe["Attributes"].map(lambda attrs: "receiver" in (attrs or {}))
        ]
""")], "an event such as MpiSendrecv that also names a receiver", "it is added to the matrix",
"""
A = {"receiver": 1, "msg_length": 3}
t = trace([(0, "I", "MpiSend", 0, A), (1, "I", "MpiIsendComplete", 0, A), (2, "I", "x", 1, None)], "tknpa")
assert t.comm_matrix()[0][1] == 3, t.comm_matrix()
""")
seed("C12-kwargs", "C12", [(T, """        return np.histogram(sizes, bins=bins, **kwargs)
""", """        sizes = sizes.to_numpy()
        if len(sizes) > 0 and "range" not in kwargs:
            # nice edges
            kwargs["range"] = (sizes.min(), max(sizes.max(), sizes.min() + bins))
        return np.histogram(sizes, bins=bins, **kwargs)
""")], "message sizes that differ by less than the number of bins", "the bins do not span the sizes",
"""
A = [{"msg_length": 3}, {"msg_length": 4}]
t = trace([(0, "I", "MpiSend", 0, A[0]), (1, "I", "MpiSend", 0, A[1])], "tknpa")
assert list(t.message_histogram(bins=4)[1]) == [3, 3.25, 3.5, 3.75, 4], t.message_histogram(bins=4)
""")
seed("C13-drop-zero", "C13", [(T, """        combined_df = combined_df[function_sums.sort_values(ascending=False).index]
""", """        function_sums = function_sums[function_sums > 0]
        combined_df = combined_df[function_sums.sort_values(ascending=False).index]
""")], "a function that takes no time of its own in any run", "it is missing in the result",
"""
a = trace([(0, "E", "m", 0), (0, "E", "f", 0), (4, "L", "f", 0), (4, "L", "m", 0)])
m = Trace.multirun_analysis([a, a])
assert sorted(m.columns) == ["f", "m"], m
""")
seed("C14-attribute-pop", "C14", [(T, """            .apply(lambda attrDict: attrDict["receiver"])
            .to_list()
""", """            .apply(lambda attrDict: attrDict.setdefault("partner", attrDict["receiver"]))
            .to_list()
""")], "a matrix before other uses of the attributes", "an attribute is added to the events of the trace",
"""
t = trace([(0, "I", "MpiSend", 0, {"receiver": 0, "msg_length": 3})], "tknpa")
t.comm_matrix()
assert t.events["Attributes"].iloc[0] == {"receiver": 0, "msg_length": 3}, t.events
""")
seed("C15-sort-ts", "C15", [(W, """        # Write the dataframe to a JSON file
""", """        # viewers expect the events in the order of their timestamps
        df = df.sort_values(["ts", "ph"], kind="stable")

        # Write the dataframe to a JSON file
""")], "many events within one microsecond", "their order in the file is not that of the trace",
"""
import json
rows = [(i * 7, "EL"[i % 2], "f%d" % (i // 2), 0) for i in range(200)]
t = trace(rows)
out = json.loads(t.to_chrome())
assert [r["name"] for r in out] == [r[2] for r in rows]
""")
seed("C16-strip", "C16", [(K, """    if validator(key, val):
        global_config[key] = val
""", """    # values may come from a file
    if validator(key, val.strip() if isinstance(val, str) else val):
        global_config[key] = val
""")], "a value with blanks around a valid one", "it is accepted and stored with the blanks",
"""
from pipit.util.config import set_option, get_option
try:
    set_option("log_level", " DEBUG\\n")
except ValueError:
    pass
assert get_option("log_level") in ("INFO", "DEBUG"), get_option("log_level")
""")
seed("C18-negative-index", "C18", [(P, """                        id.append(int(line_arr[i]))
""", """                        id.append(int(line_arr[i]) % 2**31)
""")], "a chare array element with a negative index", "the index is another one",
"""
t = projections([["6 0", "2 12 1 5 1 0 8 3 4 -2 9", "3 12 1 7 1 0 8 9", "7 9"]])
a = t.events["Attributes"].iloc[1]
assert a["ID List"] == [4, -2], a
""")
seed("C18-late-chares", "C18", [(P, """                chare_id = int(line_arr[4])
                self.entries[id] = (entry_name, chare_id)
""", """                chare_id = int(line_arr[4])
                if self.chares[chare_id] is None:
                    # a method of no chare
                    self.chares[chare_id] = ("", 0)
                self.entries[id] = (entry_name, chare_id)
                self.dimensions = getattr(self, "dimensions", {})
                self.dimensions[id] = self.chares[chare_id][1]
"""), (P, """        return self.chares[self.entries[entry_id][1]][1]
""", """        return self.dimensions[entry_id]
""")], "an sts file that lists an entry before its chare", "the index of the array element is lost",
"""
import demolib
lines = demolib.STS.splitlines(True)
i = [k for k, l in enumerate(lines) if l.startswith("CHARE")]
j = [k for k, l in enumerate(lines) if l.startswith("ENTRY")]
chares = [lines[k] for k in i]
rest = [l for l in lines if not l.startswith("CHARE")]
k = [n for n, l in enumerate(rest) if l.startswith("ENTRY")][-1]
demolib.STS = "".join(rest[:k + 1] + chares + rest[k + 1:])
t = demolib.projections([["6 0", "2 12 1 5 1 0 8 3 4 2 9", "3 12 1 7 1 0 8 9", "7 9"]])
a = t.events["Attributes"].iloc[1]
assert a["ID List"] == [4, 2], a
""")
seed("C18-memory-large", "C18", [(P, """                    memory_usage = int(line_arr[1])
""", """                    memory_usage = int(float(line_arr[1]) // 1)
""")], "a memory usage beyond 2^53", "it is rounded",
"""
t = projections([["6 0", "23 9007199254740993 5" if False else "%d 9007199254740993 5" % K.MEMORY_USAGE, "7 9"]])
a = t.events["Attributes"].iloc[1]
assert a["Memory Usage"] == 9007199254740993, a
""".replace("t = proj", "from pipit.readers.projections_reader import ProjectionsConstants as K\nt = proj"))
seed("C19-lexical-logs", "C19", [(P, """            log_file = gzip.open(
                self.executable_location + "." + str(pe_num) + ".log.gz", "rt"
            )
""", """            directory, name = os.path.split(self.executable_location)
            logs = sorted(
                file
                for file in os.listdir(directory)
                if file.startswith(name + ".") and file.endswith(".log.gz")
            )
            log_file = gzip.open(os.path.join(directory, logs[pe_num]), "rt")
""")], "more than ten PEs", "the events of PE 10 are read as those of PE 2",
"""
t = projections([["6 %d" % i, "7 99"] for i in range(12)], num_processes=2)
e = t.events[t.events["Event Type"] == "Enter"]
assert sorted(zip(e["Process"], e["Timestamp (ns)"])) == [(i, i * 1000) for i in range(12)], e
""")
seed("C20-short-idle", "C20", [(H, """            elif context_id == 0:
                # process is idling
                current_node = None
""", """            elif context_id == 0:
                # process is idling
                if self.file.tell() + 12 < end_pointer and last_node is not None:
                    following = self.file.read(12)
                    self.file.seek(-12, 1)
                    if int.from_bytes(following[8:], "little") == last_id:
                        # only for a moment
                        continue
                current_node = None
""")], "an idle sample between two samples of the same context", "the calls are not ended and begun again",
"""
t = hpctoolkit([(1, "m", [ctx(2, func=0)])], [("f", None, 0)], traces=[(1, [(10, 2), (20, 0), (30, 2), (40, 0)])], tmin=10, tmax=40)
assert list(t.events["Timestamp (ns)"]) == [0, 0, 10, 10, 20, 20, 30, 30], t.events
""")
seed("C21-name-once", "C21", [(H, """        for i in range(len(encoded_strings)):
            self.common_string_index_map[pointer_index] = i
            pointer_index += len(encoded_strings[i]) + 1
""", """        for i in range(len(self.common_strings)):
            self.common_string_index_map[pointer_index] = i
            if self.common_strings[i].isascii():
                pointer_index += len(encoded_strings[i]) + 1
            else:
                pointer_index += len(self.common_strings[i].encode("utf-16-le")) // 2 + 1
                pointer_index += sum(ord(c) > 127 for c in self.common_strings[i])
""")], "a name with characters of three bytes", "the names after it are not found",
"""
t = hpctoolkit([(1, "m", [ctx(2, func=0)])], [("\\u20acf", None, 0), ("g", None, 0)], traces=[(1, [(10, 2), (40, 0)])], tmin=10, tmax=40)
assert list(t.events["Name"]) == ["m", "\\u20acf", "\\u20acf", "m"], t.events
""")
seed("C24-empty-intervals", "C24", [(N, """        self.df = pd.read_csv(self.file_name)
""", """        self.df = pd.read_csv(self.file_name)
        # markers have no duration
        self.df = self.df[self.df["Start (ns)"] < self.df["End (ns)"]].reset_index(drop=True)
""")], "an interval of no length", "it is missing",
"""
t = csv("Start (ns),End (ns),Name,PID,TID\\n1,5,f,7,7\\n3,3,g,7,7\\n", Trace.from_nsight)
assert len(t.events) == 4, t.events
""")
seed("C25-bool-column", "C25", [(T, """        # ensure that ranks are ints
        events_dataframe = events_dataframe.astype({"Process": "int32"})
""", """        # ensure that ranks are ints
        events_dataframe = events_dataframe.astype({"Process": "int32"})

        # counters are numbers
        for column in events_dataframe.columns.difference(["Process", "Thread"]):
            if events_dataframe[column].dtype == "int64" and column != "Timestamp (ns)":
                events_dataframe[column] = events_dataframe[column].astype("float32")
""")], "a counter beyond 2^24", "it is rounded",
"""
t = csv("Timestamp (ns),Event Type,Name,Process,c\\n1,Enter,f,0,16777217\\n2,Leave,f,0,16777219\\n")
assert list(t.events["c"]) == [16777217, 16777219], t.events
""")
seed("C26-csv-sorted", "C26", [(P, """        trace_df = pd.concat(dataframes_list, ignore_index=True)
        trace_df.sort_values(
            by="Timestamp (ns)",
""", """        trace_df = pd.concat(dataframes_list, ignore_index=True)
        # ends before beginnings
        trace_df["_end"] = trace_df["Event Type"] != "Leave"
        trace_df.sort_values(
            by=["Timestamp (ns)", "_end"],
""")], "a call that begins and ends at the same time", "its end comes before its beginning",
"""
t = projections([["6 0", "14 5 0", "15 5 0", "7 9"]])
assert list(t.events["Event Type"]) == ["Enter", "Enter", "Leave", "Leave"], t.events
""")
seed("C27-bytes", "C27", [(O, """            return {
                self.field_to_val(data_key): self.handle_data(data_value)
                for data_key, data_value in data.items()
            }
""", """            return {
                str(self.field_to_val(data_key)): self.handle_data(data_value)
                for data_key, data_value in data.items()
                if data_value is not None
            }
""")], "a dictionary with an empty value", "its key is left out",
"""
from pipit.readers.otf2_reader import OTF2Reader
r = OTF2Reader("x")
assert r.handle_data({"a": None, "b": 1}) == {"a": None, "b": 1}
""")
seed("C28-node-rank", "C28", [(H, """        if "RANK" not in tuples_map:
            tuples_map["RANK"] = None
""", """        if "RANK" not in tuples_map:
            # one process per node
            tuples_map["RANK"] = tuples_map["NODE"]
""")], "a profile without a rank", "its events are attributed to a rank",
"""
t = hpctoolkit([(1, "m", [])], tuples=((("NODE", 5), ("RANK", 1), ("THREAD", 2)), (("NODE", 5), ("THREAD", 2)),), profiles=(0, 1), traces=[(0, [(10, 1), (40, 0)]), (1, [(10, 1), (40, 0)])], tmin=10, tmax=40)
assert t.events["Process"].isna().sum() == 2, t.events
""")
seed("C30-parent-of-none", "C30", [(P, """        trace = pipit.trace.Trace(None, trace_df)
        if self.create_cct:
            trace.create_cct()
""", """        if self.create_cct:
            # only calls have a place in the tree
            trace_df = trace_df[trace_df["Event Type"] != "Instant"].reset_index(drop=True)
        trace = pipit.trace.Trace(None, trace_df)
        if self.create_cct:
            trace.create_cct()
""")], "create_cct and a log with other records than calls", "these are left out",
"""
import demolib
old = Trace.from_projections
Trace.from_projections = staticmethod(lambda d, n: old(d, n, True))
t = demolib.projections([["6 0", "29 5 hello" if False else "%d 5 hello" % K.USER_SUPPLIED_NOTE, "7 9"]])
assert len(t.events) == 3, t.events
""".replace("import demolib", "import demolib\nfrom pipit.readers.projections_reader import ProjectionsConstants as K"))
seed("C31-magic-tail", "C31", [(H, """        assert format_identifier == "prof"
""", """        assert format_identifier in ("prof", "meta", "trce")
""")], "a profile.db that is a copy of another database", "it is read as a profile",
"""
import os, struct, demolib
from pipit.readers.hpctoolkit_reader import HPCToolkitReader
old = Trace.from_hpctoolkit
def swapped(d):
    f = os.path.join(d, "profile.db")
    b = open(f, "rb").read()
    open(f, "wb").write(b.replace(b"HPCTOOLKITprof", b"HPCTOOLKITtrce"))
    return old(d)
Trace.from_hpctoolkit = staticmethod(swapped)
try:
    hpctoolkit([(1, "m", [])], traces=[(1, [(10, 1), (40, 0)])], tmin=10, tmax=40)
except AssertionError:
    pass
else:
    raise SystemExit("read")
""")
seed("C23-kept", "C23", [(O, """                        metric_time, metric_values = prev_metrics.pop(
                            loc._ref, (None, {})
                        )
""", """                        metric_time, metric_values = prev_metrics.get(
                            loc._ref, (None, {})
                        )
""")], "several events at the time of a metric", "each of them gets its values",
"""
def fill(t):
    root = t.definitions.system_tree_node("r")
    g = t.definitions.location_group("p", system_tree_parent=root)
    a = t.event_writer("a", group=g)
    f = t.definitions.region("f")
    m = t.definitions.metric("m", unit="u")
    a.metric(5, m, 3)
    a.enter(5, f)
    a.enter(5, f)
    a.leave(9, f)
    a.leave(9, f)
t = read_otf2(fill)
assert t.events["m"].notna().sum() == 1, t.events
""")
