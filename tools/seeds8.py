"""seeded changes, eighth round"""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


T, C, G, W, K = "pipit/trace.py", "pipit/util/cct.py", "pipit/graph.py", "pipit/writers/chrome_writer.py", "pipit/util/config.py"
P, O, H, N = ["pipit/readers/%s_reader.py" % x for x in ("projections", "otf2", "hpctoolkit", "nsight")]

seed("C01-blank-names", "C01", [(T, """                            enter_df_index, enter_timestamp, enter_name = stack[i]
                            i -= 1

                        if enter_name == curr_name:
""", """                            enter_df_index, enter_timestamp, enter_name = stack[i]
                            # some tools pad the names
                            if enter_name.rstrip() == curr_name.rstrip():
                                enter_name = curr_name
                            i -= 1

                        if enter_name == curr_name:
""")], "two functions whose names differ in blanks at the end", "a Leave is paired with the call of another function",
"""
t = trace([(0, "E", "f", 0), (1, "E", "f ", 0), (2, "L", "f", 0), (3, "L", "f ", 0)])
t._match_events()
assert list(t.events["_matching_event"]) == [2, 3, 0, 1], t.events
""")
seed("C02-process-text", "C02", [(T, """                exec_locations = set(zip(self.events["Process"], self.events["Thread"]))
                has_thread = True
            else:
                exec_locations = set(self.events["Process"])
                has_thread = False

            for curr_loc in exec_locations:
                # only filter by thread if the trace has a thread column
                if has_thread:
                    curr_process, curr_thread = curr_loc
                    filtered_df = enter_leave_df.loc[
                        (enter_leave_df["Process"] == curr_process)
                        & (enter_leave_df["Thread"] == curr_thread)
                    ]
""", """                # one key per location
                locations = self.events["Process"].astype(str) + self.events[
                    "Thread"
                ].astype(str)
                exec_locations = set(locations)
                has_thread = True
            else:
                exec_locations = set(self.events["Process"])
                has_thread = False

            for curr_loc in exec_locations:
                # only filter by thread if the trace has a thread column
                if has_thread:
                    filtered_df = enter_leave_df.loc[
                        locations.loc[enter_leave_df.index] == curr_loc
                    ]
""")], "process 1 thread 11 and process 11 thread 1", "they are matched as one call stack",
"""
t = trace([(0, "E", "f", 1, 11), (1, "E", "f", 11, 1), (2, "L", "f", 1, 11), (3, "L", "f", 11, 1)], "tknph")
t._match_events()
assert list(t.events["_matching_event"]) == [2, 3, 0, 1], t.events
""", nth=0)
seed("C03-depth-of-parent", "C03", [(T, """                        depth[curr_df_index] = curr_depth
""", """                        depth[curr_df_index] = (
                            0
                            if curr_depth == 0
                            else min(curr_depth, depth[parent_df_index] + 1, 99)
                        )
""")], "more than a hundred nested calls", "the depth is limited",
"""
n = 130
t = trace([(i, "E", "f%d" % i, 0) for i in range(n)] + [(n + i, "L", "f%d" % (n - 1 - i), 0) for i in range(n)])
t._match_caller_callee()
assert list(t.events["_depth"][:n]) == list(range(n))
""")
seed("C07-object-metric", "C07", [(T, """        if per_process:
            return (
                self.events.loc[self.events["Event Type"] == "Enter"]
                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                .sum()
            )
        else:
""", """        if len(metrics) > 1:
            # several metrics: only the rows which have all of them
            enters = self.events.loc[self.events["Event Type"] == "Enter"].dropna(
                subset=metrics
            )
            profile = enters.groupby([*groupby_columns, "Process"], observed=True)[
                metrics
            ].sum()
            return profile if per_process else profile.groupby(groupby_column).mean()
        elif per_process:
            return (
                self.events.loc[self.events["Event Type"] == "Enter"]
                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                .sum()
            )
        else:
""")], "several metrics, one of which is missing on some call", "calls are left out of the sums of the other metric",
"""
t = trace([(0, "E", "f", 0), (1, "L", "f", 0), (2, "E", "f", 0), (3, "L", "f", 0)], x=[1.0, 2.0, float("nan"), 3.0])
p = t.flat_profile(["time.inc", "x"], per_process=True)
assert p["time.inc"].iloc[0] == 2, p
""")
seed("C09-categories", "C09", [(T, """        for process in set(self.events["Process"]):
            idle_times["Process"].append(process)
""", """        processes = self.events["Process"]
        if isinstance(processes.dtype, pd.CategoricalDtype):
            processes = processes.cat.categories
        for process in set(processes):
            idle_times["Process"].append(process)
""")], "a trace of which the user kept only some processes", "processes that are not in the trace are reported",
"""
t = trace([(0, "E", "Idle", 0), (1, "L", "Idle", 0), (2, "E", "Idle", 1), (3, "L", "Idle", 1)])
u = Trace(None, t.events[t.events["Process"] == 0].reset_index(drop=True))
assert list(u.idle_time()["Process"]) == [0]
""")
seed("C10-quiet-bins", "C10", [(T, """            # Calculate inc_time_in_bin for each function
            # Case 1 - Function starts in bin
""", """            if len(profile) > 0 and len(in_bin) == len(last_bin) == 1:
                if in_bin.index[0] == last_bin.index[0]:
                    # still the same call
                    profile.append(profile[-1])
                    continue
            last_bin = in_bin

            # Calculate inc_time_in_bin for each function
            # Case 1 - Function starts in bin
""")], "a single call that begins in a bin and lasts until after the next one", "the share of the first bin is repeated",
"""
t = trace([(0, "E", "a", 0), (1, "L", "a", 0), (15, "E", "f", 0), (35, "L", "f", 0), (40, "I", "x", 0)])
p = t.time_profile(num_bins=4)
assert list(p["f"]) == [0, 5, 10, 5], p
""")
seed("C11-bincount", "C11", [(T, """        for i in range(len(sender_ranks)):
            \"\"\"
            loops through all the communication events and adds the
            message volume to the corresponding entry of the 2d array
            using the sender and receiver ranks
            \"\"\"
            communication_matrix[sender_ranks[i], receiver_ranks[i]] += message_volume[
                i
            ]
""", """        # add up the volume of every pair of processes
        pairs = pd.DataFrame({"s": sender_ranks, "r": receiver_ranks, "v": message_volume})
        pairs = pairs.sort_values(["s", "r", "v"])
        for (s, r), volume in pairs.groupby(["s", "r"])["v"]:
            communication_matrix[s, r] = (volume.cumsum().astype("float32")).iloc[-1]
""")], "more than 2^24 bytes between two processes", "totals are rounded to single precision",
"""
A = [{"receiver": 1, "msg_length": 2 ** 25 + 1}, {"receiver": 1, "msg_length": 2}, None]
t = trace([(0, "I", "MpiSend", 0, A[0]), (1, "I", "MpiSend", 0, A[1]), (2, "I", "x", 1, None)], "tknpa")
assert t.comm_matrix()[0][1] == 2 ** 25 + 3, t.comm_matrix()
""")
seed("C12-from-zero-size", "C12", [(T, """        # Get timestamps and sizes
        timestamps = events["Timestamp (ns)"]
""", """        # messages of the first instant belong to the setup
        if message_type != "send":
            events = events[events["Timestamp (ns)"] > self.events["Timestamp (ns)"].iloc[0]]

        # Get timestamps and sizes
        timestamps = events["Timestamp (ns)"]
""")], "a receive at the first timestamp of the trace", "it is not counted",
"""
t = trace([(5, "I", "MpiRecv", 0, {"msg_length": 3}), (9, "I", "MpiRecv", 0, {"msg_length": 4}), (15, "I", "x", 0, None)], "tknpa")
assert list(t.comm_over_time("count", "receive", bins=2)[0]) == [2, 0]
""")
seed("C13-complete-runs", "C13", [(T, """        function_sums = combined_df.sum()
""", """        function_sums = combined_df.sum(min_count=len(combined_df))
""")], "a function that occurs in some of the runs only", "its column comes last whatever its total",
"""
a = trace([(0, "E", "f", 0), (1, "L", "f", 0)])
b = trace([(0, "E", "f", 0), (1, "L", "f", 0), (2, "E", "g", 0), (50, "L", "g", 0)])
m = Trace.multirun_analysis([a, b])
assert list(m.columns) == ["g", "f"], m
""")
seed("C14-matrix-cache", "C14", [(T, """        # get the list of ranks/processes
        # (mpi messages are sent between processes)
        ranks = set(self.events["Process"])
""", """        # the matrix does not change
        if getattr(self, "_comm_matrix", (None,))[0] == output:
            return self._comm_matrix[1]

        # get the list of ranks/processes
        # (mpi messages are sent between processes)
        ranks = set(self.events["Process"])
"""), (T, """        return communication_matrix

    def message_histogram""", """        self._comm_matrix = (output, communication_matrix)
        return communication_matrix

    def message_histogram"""), (T, """        comm_matrix = self.comm_matrix(output=output)

        # Get total sent and received for each process
        sent = comm_matrix.sum(axis=1)
        received = comm_matrix.sum(axis=0)
""", """        comm_matrix = self.comm_matrix(output=output)

        # Get total sent and received for each process
        sent = comm_matrix.sum(axis=1)
        received = comm_matrix.cumsum(axis=0, out=comm_matrix)[-1].copy()
""")], "comm_matrix after comm_by_process of the same output", "the matrix shows cumulative volumes",
"""
A = {"receiver": 1, "msg_length": 7}
t = trace([(0, "I", "MpiSend", 0, A), (1, "I", "x", 1, None)], "tknpa")
a = t.comm_matrix().tolist()
t.comm_by_process()
assert t.comm_matrix().tolist() == a, t.comm_matrix()
""")
seed("C15-int32", "C15", [(W, """        # "pid" represents the process ID for the process that the event occurs in
""", """        df["ts"] = df["ts"].astype("int32", errors="ignore")

        # "pid" represents the process ID for the process that the event occurs in
""")], "events later than 36 minutes", "their time wraps around",
"""
import json
t = trace([(0, "E", "f", 0), (4 * 10 ** 12, "L", "f", 0)])
assert [r["ts"] for r in json.loads(t.to_chrome())] == [0, 4 * 10 ** 9]
""")
seed("C15-ascii-args", "C15", [(W, """        if "Attributes" in events.columns:
            df["args"] = events["Attributes"]
""", """        if "Attributes" in events.columns:
            # Leave events repeat what their Enter says
            df["args"] = events["Attributes"].where(events["Event Type"] != "Leave")
""")], "a Leave event with attributes", "its record has no attributes",
"""
import json
t = trace([(0, "E", "f", 0, {"a": 1}), (1000, "L", "f", 0, {"a": 2})], "tknpa")
assert [r["args"] for r in json.loads(t.to_chrome())] == [{"a": 1}, {"a": 2}]
""")
seed("C16-cached-get", "C16", [(K, """# Returns the current value of the specific config key
def get_option(key):
    if not key or key not in registered_options:
        raise ValueError("No such keys(s)")
    else:
        return global_config[key]
""", """_last = {}


# Returns the current value of the specific config key
def get_option(key):
    if key in _last:
        return _last[key]
    if not key or key not in registered_options:
        raise ValueError("No such keys(s)")
    else:
        _last[key] = global_config[key]
        return global_config[key]
"""), (K, """    if validator(key, val):
        global_config[key] = val
""", """    if validator(key, val):
        global_config[key] = val
        _last.pop(key, None)
"""), (K, """    if key in registered_options:
        global_config[key] = registered_options[key]["default"]
""", """    if key in registered_options:
        global_config[key] = registered_options[key]["default"]
        _last.pop(key, None)
""")], "get after reset of all options", "the value from before the reset is returned",
"""
from pipit.util.config import get_option, set_option, reset_option
set_option("log_level", "DEBUG")
assert get_option("log_level") == "DEBUG"
reset_option("all")
assert get_option("log_level") == "INFO"
""")
seed("C17-equal-level", "C17", [(G, """        while node1.get_level() > node2.get_level():
            node1 = node1.parent

        while node1 != node2:
            node1 = node1.parent
            node2 = node2.parent
""", """        while node1.get_level() > node2.get_level():
            node1 = node1.parent

        while node1 is not None and node1 != node2:
            # siblings are frequent
            if node1.parent == node2.parent:
                return node1.parent
            if node1.parent.parent is None:
                return node1.parent
            node1 = node1.parent.parent
            node2 = node2.parent.parent
""")], "two nodes whose common ancestor is an odd number of levels above", "a higher ancestor or another root is returned",
"""
from pipit.graph import Node
r = Node(0, None); s = Node(9, None)
a, b = Node(1, r), Node(2, s)
assert a.get_intersection(b) is None
""")
seed("C18-float-time", "C18", [(P, """                elif int(line_arr[0]) == ProjectionsConstants.BEGIN_IDLE:
                    time = int(line_arr[1]) * 1000
""", """                elif int(line_arr[0]) == ProjectionsConstants.BEGIN_IDLE:
                    time = int(float(line_arr[1]) * 1000)
""")], "a time beyond 2^53 nanoseconds", "its time is rounded",
"""
t = projections([["14 9007199254740993 0", "7 9007199254740995"]])
assert t.events["Timestamp (ns)"].iloc[0] == 9007199254740993000, t.events
""")
seed("C18-note-quotes", "C18", [(P, """                    details = {"Note": note}
""", """                    details = {"Note": note.strip('"')}
""")], "a note that begins with a quotation mark", "the mark is lost",
"""
t = projections([['28 5 "a" b', "7 6"]])
assert t.events["Attributes"].iloc[0]["Note"].strip() == '"a" b', t.events["Attributes"].iloc[0]
""")
seed("C18-chare-words", "C18", [(P, """                name = " ".join(line_arr[2:-1])[1:-1]
                dimensions = int(line_arr[-1])
""", """                name = line_arr[2].strip('"')
                dimensions = int(line_arr[3]) if len(line_arr) == 4 else 1
""")], "an array of two dimensions whose chare's name has a blank", "its processing records are misread",
"""
import demolib
demolib.STS = demolib.STS.replace('CHARE 1 "Cell" 2', 'CHARE 1 "Cell<int, 2>" 2')
t = projections([["2 0 1 5 1 0 9 3 4 7 100", "7 6"]])
assert t.events["Attributes"].iloc[0]["ID List"] == [4, 7], t.events["Attributes"].iloc[0]
""")
seed("C18-stat-first", "C18", [(P, """                    user_stat_name = sts_reader.get_user_stat(user_event_id)
""", """                    user_stat_name = sts_reader.get_user_stat(user_event_id)
                    if stat != stat:
                        # nothing was measured
                        continue
""")], "a user stat that is not a number", "its record yields no event",
"""
t = projections([["32 5 1 nan 0 3", "7 6"]])
assert len(t.events) == 2, t.events
""")
seed("C20-same-place", "C20", [(H, """            elif context_id == 0:
                # process is idling
                current_node = None
            else:
                # at a new non-idle context
                current_node = self.meta_reader.node_map[context_id]
""", """            elif context_id == 0:
                # process is idling
                current_node = None
            else:
                # at a new non-idle context
                current_node = self.meta_reader.node_map[context_id]
                if last_node is not None and current_node == last_node.parent:
                    # the caller's own samples are noise
                    continue
""")], "a sample in the caller of the function sampled before", "the callee stays open",
"""
t = hpctoolkit([(1, "root", [ctx(2, func=0, children=[ctx(3, func=1)])])], functions=[("f", None, 0), ("g", None, 0)],
               traces=[(1, [(0, 3), (5, 2), (9, 0)])], tmax=9)
ev = t.events
assert list(ev[ev["Name"] == "g"]["Timestamp (ns)"]) == [0, 5], ev
""")
seed("C21-blank-names", "C21", [(H, """            str(encoded, encoding="UTF-8") for encoded in encoded_strings
""", """            str(encoded, encoding="UTF-8").strip() for encoded in encoded_strings
""")], "a function name with a blank at its end", "the name is changed",
"""
t = hpctoolkit([(1, "root", [ctx(2, func=0)])], functions=[("operator new ", None, 0)], traces=[(1, [(0, 2), (9, 0)])], tmax=9)
assert "operator new " in set(t.events["Name"]), t.events
""")
seed("C21-shared-definition", "C21", [(H, """                        function = self.functions_list[function_index]
                        # Getting source file line
                        source_file_line = function["source_line"]
""", """                        function = self.functions_list[function_index]
                        # Getting source file line
                        source_file_line = function["source_line"] or source_file_line
""")], "a function below a root with a call location of its own and definition line 0", "the definition's line is not shown",
"""
t = hpctoolkit([(1, "root", [ctx(2, func=0, src=(0, 33))])], functions=[("f", 0, 0)], files=["a.c"], traces=[(1, [(0, 2), (9, 0)])], tmax=9)
e = t.events[t.events["Name"] == "f"].iloc[0]
assert str(e["Source File Line Number"]) == "0", e
""")
seed("C22-time-keys", "C22", [(O, """                                if value is not None and key != "time":
""", """                                if value is not None and "time" not in key:
""")], "an attribute whose name contains time, such as the stop time of a buffer flush", "it is dropped",
"""
from otf2.events import BufferFlush
def fill(t):
    root = t.definitions.system_tree_node("m")
    g = t.definitions.location_group("g", system_tree_parent=root)
    w = t.event_writer("w", group=g)
    w(BufferFlush(3, 8))
t = read_otf2(fill)
assert t.events["Attributes"].iloc[0].get("stop_time") == 8, t.events["Attributes"].iloc[0]
""")
seed("C22-suffix", "C22", [(O, """                        if event_type == "Enter" or event_type == "Leave":
                            event_types.append(event_type)
                        else:
                            event_types.append("Instant")

                        if event_type in ["Enter", "Leave"]:
                            names.append(event.region.name)
""", """                        if event_type.endswith(("Enter", "Leave")):
                            event_types.append(event_type[-5:])
                        else:
                            event_types.append("Instant")

                        if event_type in ["Enter", "Leave"]:
                            names.append(event.region.name)
""")], "calling context events", "they become Enter and Leave rows",
"""
from otf2.events import CallingContextEnter
def fill(t):
    root = t.definitions.system_tree_node("m")
    g = t.definitions.location_group("g", system_tree_parent=root)
    f = t.definitions.region("f")
    s = t.definitions.source_code_location("a.c", 3)
    c = t.definitions.calling_context(f, s, None)
    w = t.event_writer("w", group=g)
    w(CallingContextEnter(3, c, 1))
t = read_otf2(fill)
assert list(t.events["Event Type"]) == ["Instant"], t.events
""")
seed("C23-negative", "C23", [(O, """            if not np.isnan(metric_values).all():
""", """            if np.nanmax(metric_values, initial=0) > 0 or 0 in metric_values:
""")], "a metric that only has negative values", "it has no column",
"""
def fill(t):
    root = t.definitions.system_tree_node("m")
    g = t.definitions.location_group("g", system_tree_parent=root)
    f = t.definitions.region("foo")
    m = t.definitions.metric("balance", unit="#")
    w = t.event_writer("w", group=g)
    w.metric(1, m, -5)
    w.enter(1, f)
    w.leave(3, f)
t = read_otf2(fill)
assert "balance" in t.events.columns, t.events.columns
""")
seed("C23-fill", "C23", [(O, """        events_dataframe = pd.concat(events_dataframes)
        del events_dataframes
""", """        events_dataframe = pd.concat(events_dataframes)
        del events_dataframes

        # workers without values of a metric
        for column in events_dataframe.columns[6:]:
            if events_dataframe[column].isna().mean() < 0.5:
                events_dataframe[column] = events_dataframe[column].fillna(0)
""")], "events without a value when most events have one", "they show 0",
"""
def fill(t):
    root = t.definitions.system_tree_node("m")
    g = t.definitions.location_group("g", system_tree_parent=root)
    f = t.definitions.region("foo")
    m = t.definitions.metric("balance", unit="#")
    w = t.event_writer("w", group=g)
    for i in range(4):
        w.metric(2 * i, m, 5)
        w.enter(2 * i, f)
        if i < 3:
            w.metric(2 * i + 1, m, 6)
        w.leave(2 * i + 1, f)
t = read_otf2(fill)
assert t.events["balance"].isna().sum() == 1, t.events
""")
seed("C25-encoding", "C25", [(T, """        events_dataframe = pd.read_csv(filename, skipinitialspace=True)
""", """        events_dataframe = pd.read_csv(
            filename, skipinitialspace=True, encoding="latin-1"
        )
""")], "a name with letters beyond ASCII", "the name is garbled",
"""
t = csv("Timestamp (ns),Event Type,Name,Process\\n0,Enter,l\\u00f6se,0\\n1,Leave,l\\u00f6se,0\\n")
assert list(t.events["Name"]) == ["l\\u00f6se"] * 2, t.events
""")
seed("C25-escape", "C25", [(T, """        events_dataframe = pd.read_csv(filename, skipinitialspace=True)
""", """        events_dataframe = pd.read_csv(filename, skipinitialspace=True, escapechar="\\\\")
""")], "a value with a backslash", "the backslash is lost",
"""
t = csv("Timestamp (ns),Event Type,Name,Process\\n0,Enter,a\\\\b,0\\n1,Leave,a\\\\b,0\\n")
assert list(t.events["Name"]) == ["a\\\\b"] * 2, t.events
""")
seed("C25-thousands", "C25", [(T, """        events_dataframe = pd.read_csv(filename, skipinitialspace=True)
""", """        events_dataframe = pd.read_csv(filename, skipinitialspace=True, thousands=",")
""")], "a further column of quoted lists of numbers", "the lists are read as numbers",
"""
t = csv('Timestamp (ns),Event Type,Name,Process,Ids\\n0,Enter,a,0,"1,2"\\n1,Leave,a,0,"3,4"\\n')
assert list(t.events["Ids"]) == ["1,2", "3,4"], t.events
""")
seed("C27-empty-fields", "C27", [(O, """            fields_dict[field_name] = self.handle_data(getattr(def_object, field_name))
""", """            value = getattr(def_object, field_name)
            if value is not None:
                fields_dict[field_name] = self.handle_data(value)
"""), (O, """        if len(fields_dict) == 1:
""", """        if len(def_object._fields) == 1:
""")], "a definition with a field that is not set", "the field is missing in the definitions table",
"""
def fill(t):
    root = t.definitions.system_tree_node("m")
    g = t.definitions.location_group("g", system_tree_parent=root)
    w = t.event_writer("w", group=g)
    w.enter(3, t.definitions.region("f"))
t = read_otf2(fill)
d = t.definitions
a = d[d["Definition Type"] == "SystemTreeNode"]["Attributes"].iloc[0]
assert "parent" in a and a["parent"] is None, a
""")
seed("C28-first-identity", "C28", [(H, """                identifier_name = self.meta_reader.get_identifier_name(kind)
                tuples_map[identifier_name] = physical_id
""", """                identifier_name = self.meta_reader.get_identifier_name(kind)
                if physical_id == 0xFFFFFFFF:
                    # not known
                    continue
                tuples_map[identifier_name] = physical_id
""")], "a host identifier of 2^32-1", "it is reported as missing",
"""
t = hpctoolkit([(1, "root", [ctx(2, func=0)])], functions=[("f", None, 0)], tuples=((("NODE", 0xFFFFFFFF), ("RANK", 0), ("THREAD", 0)),),
               traces=[(1, [(0, 2), (9, 0)])], tmax=9)
assert list(t.events["Host"]) == [0xFFFFFFFF] * 4, t.events
""")
seed("C29-between", "C29", [(T, """            match_original = self.events.loc[
                self.events["Timestamp (ns)"].isin(
                    filtered_df.iloc[idx:end_idx]["Timestamp (ns)"].values
                )
            ]
""", """            times = filtered_df.iloc[idx:end_idx]["Timestamp (ns)"]
            match_original = self.events.loc[
                self.events["Timestamp (ns)"].between(times.min(), times.max())
            ]
""")], "events between those of the match", "they are returned as part of the match",
"""
rows = [(0, "E", "s", 0)]
for i in range(1, 13):
    rows += [(4 * i, "E", "f", 0), (4 * i + 1, "I", "x", 0), (4 * i + 2, "L", "f", 0)]
rows += [(100, "L", "s", 0)]
t = trace(rows)
t.calc_exc_metrics(["Timestamp (ns)"])
for p in t.detect_pattern("s", iterations=2, window_size=4):
    assert "x" not in set(p["Name"]), p
""")
seed("C29-sorted", "C29", [(T, """        for idx in indices[0]:
            end_idx = idx + window_size
""", """        for idx in sorted(indices[0]):
            end_idx = idx + window_size
""")], "a best match that is later than another one", "matches are not in the order found",
"""
import random, stumpy
r = random.Random(3)
for k in range(20):
    rows, at = [(0, "E", "s", 0)], 1
    for i in range(24):
        d = r.randint(1, 50)
        rows += [(at, "E", "f", 0), (at + d, "L", "f", 0)]
        at += d + 1
    rows += [(at, "L", "s", 0)]
    t = trace(rows)
    t.calc_exc_metrics(["Timestamp (ns)"])
    y = t.events.loc[1:len(rows) - 2, "time.exc"].dropna().values
    want = stumpy.motifs(y, stumpy.stump(y, 4)[:, 0], max_matches=3)[1][0]
    got = t.detect_pattern("s", iterations=3, window_size=4)
    first = [t.events.loc[1:len(rows) - 2].dropna(subset=["time.exc"]).index[i] for i in want]
    assert [p.index[0] for p in got] == first or len(got) != len(first), (first, [p.index[0] for p in got])
""")
seed("C31-last-log", "C31", [(P, """        for i in range(self.num_pes):
            log_file = executable_name + "." + str(i) + ".log.gz"
            if log_file not in directory_contents:
""", """        for i in range(self.num_pes):
            log_file = executable_name + "." + str(i) + ".log.gz"
            if not any(f.startswith(log_file[:-3]) for f in directory_contents):
""")], "a log that is not compressed or left over from a broken transfer", "it is not refused with ValueError",
"""
with Scratch() as d:
    open(os.path.join(d, "a.sts"), "w").write(STS % (1, ""))
    open(os.path.join(d, "a.0.log"), "w").write("PROJECTIONS-RECORD 0\\n7 1\\n")
    try:
        Trace.from_projections(d)
    except ValueError:
        pass
    except Exception as e:
        raise SystemExit(repr(e))
    else:
        raise SystemExit(1)
""")
