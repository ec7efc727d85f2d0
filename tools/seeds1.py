T = "pipit/trace.py"
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


seed("C01-interleaved-leave", "C01", [(T, "del stack[i + 1]\n", "del stack[i + 1 :]\n")],
     "overlapping (not nested) calls: an outer call leaves before an inner one",
     "a Leave that is not the innermost also closes the calls opened after it, whose own Leaves then stay unmatched",
     """
t = trace([(0, "E", "a", 0), (1, "E", "b", 0), (2, "L", "a", 0), (3, "L", "b", 0)])
t._match_events()
assert list(t.events["_matching_event"]) == [2, 3, 0, 1], t.events
""")

seed("C01-first-open-call", "C01", [(T, """                        enter_name, i = None, len(stack) - 1
                        while enter_name != curr_name and i > -1:""", """                        enter_name, i = None, len(stack) - 1
                        while enter_name != curr_name and i > -1 and len(stack) - i < 4:""")],
     "a Leave of a function below three or more still-open calls",
     "the search for the open call gives up after three calls",
     """
t = trace([(0, "E", "a", 0), (1, "E", "b", 0), (2, "E", "c", 0), (3, "E", "d", 0), (4, "L", "a", 0)])
t._match_events()
assert t.events["_matching_event"][4] == 0, t.events
""")

seed("C02-stack-leaks", "C02", [(T, """            for curr_loc in exec_locations:
                # only filter by thread if the trace has a thread column
                if has_thread:
                    curr_process, curr_thread = curr_loc
                    filtered_df = enter_leave_df.loc[
                        (enter_leave_df["Process"] == curr_process)
                        & (enter_leave_df["Thread"] == curr_thread)
                    ]
                else:
                    filtered_df = enter_leave_df.loc[
                        (enter_leave_df["Process"] == curr_loc)
                    ]

                stack = []

""", """            stack = []

            for curr_loc in exec_locations:
                # only filter by thread if the trace has a thread column
                if has_thread:
                    curr_process, curr_thread = curr_loc
                    filtered_df = enter_leave_df.loc[
                        (enter_leave_df["Process"] == curr_process)
                        & (enter_leave_df["Thread"] == curr_thread)
                    ]
                else:
                    filtered_df = enter_leave_df.loc[
                        (enter_leave_df["Process"] == curr_loc)
                    ]

""")],
     "an Enter that never leaves on one process and a Leave without Enter of the same function on another",
     "open calls of one process are matched with Leaves of another",
     """
t = trace([(0, "E", "a", 0), (1, "L", "a", 1), (2, "E", "b", 1), (3, "L", "b", 1)])
t._match_events()
u = trace([(0, "E", "a", 1), (1, "L", "a", 0), (2, "E", "b", 1), (3, "L", "b", 1)])
u._match_events()
for x in (t, u):
    assert x.events["_matching_event"].isna().tolist() == [True, True, False, False], x.events
""")

seed("C02-location-key", "C02", [(T, """                if has_thread:
                    curr_process, curr_thread = curr_loc
                    filtered_df = enter_leave_df.loc[
                        (enter_leave_df["Process"] == curr_process)
                        & (enter_leave_df["Thread"] == curr_thread)
                    ]
                else:
                    filtered_df = enter_leave_df.loc[
                        (enter_leave_df["Process"] == curr_loc)
                    ]

                stack = []

""", """                if has_thread:
                    curr_process, curr_thread = curr_loc
                    filtered_df = enter_leave_df.loc[
                        enter_leave_df["Process"].astype(int) * 1000
                        + enter_leave_df["Thread"].astype(int)
                        == curr_process * 1000 + curr_thread
                    ]
                else:
                    filtered_df = enter_leave_df.loc[
                        (enter_leave_df["Process"] == curr_loc)
                    ]

                stack = []

""")],
     "thread numbers of 1000 and above",
     "process 0 thread 1000 and process 1 thread 0 are analysed as one call stack",
     """
t = trace([(0, "E", "a", 0, 1000), (1, "E", "a", 1, 0), (2, "L", "a", 0, 1000), (3, "L", "a", 1, 0)], "tknph")
t._match_events()
assert list(t.events["_matching_event"]) == [2, 3, 0, 1], t.events
""")

seed("C03-unmatched-parent", "C03", [(T, """                    self.events["Event Type"].isin(["Enter", "Leave"])
                    & (self.events["_matching_event"].notnull())
""", """                    (self.events["Event Type"] == "Enter")
                    | (self.events["_matching_event"].notnull())
""")],
     "a call that never leaves (e.g. the trace was cut off) with matched calls after it on the same process",
     "calls that never leave count as parents and add to the depth of the calls after them",
     """
t = trace([(0, "E", "a", 0), (1, "E", "b", 0), (2, "L", "b", 0)])
t._match_caller_callee()
assert t.events["_depth"].iloc[1] == 0 and pd.isna(t.events["_parent"].iloc[1]), t.events
""")

seed("C03-zero-length", "C03", [(T, """                    & (self.events["_matching_event"].notnull())
                )
            ]

            # list of processes""", """                    & (
                        self.events["_matching_timestamp"]
                        != self.events["Timestamp (ns)"]
                    )
                    & (self.events["_matching_event"].notnull())
                )
            ]

            # list of processes""")],
     "calls that take no time (enter and leave have the same timestamp)",
     "calls of zero duration get no parent and no depth and are missing from their parent's children",
     """
t = trace([(0, "E", "a", 0), (1, "E", "b", 0), (1, "L", "b", 0), (2, "L", "a", 0)])
t._match_caller_callee()
assert t.events["_parent"].iloc[1] == 0 and t.events["_children"].iloc[0] == [1], t.events
""")

seed("C04-clip", "C04", [(T, """                    values[enter_df["_matching_event"]].values
                    - values[enter_df.index].values
                )""", """                    values[enter_df["_matching_event"]].values
                    - values[enter_df.index].values
                ).clip(min=0)""")],
     "a numeric column that decreases during a call (memory in use, credits)",
     "negative differences are reported as 0",
     """
t = trace([(0, "E", "a", 0), (1, "L", "a", 0)], mem=[5.0, 2.0])
t.calc_inc_metrics()
assert t.events["mem.inc"][0] == -3.0, t.events
""")

seed("C04-already-computed", "C04", [(T, """        columns = self.numeric_cols if columns is None else columns

        # pair enter and leave rows""", """        if columns is None and len(self.inc_metrics) > 0:
            return
        columns = self.numeric_cols if columns is None else columns

        # pair enter and leave rows""")],
     "inclusive time asked for first (any flat profile does), then all inclusive metrics",
     "once one metric was computed, asking for all of them computes nothing more",
     """
t = trace([(0, "E", "a", 0), (1, "L", "a", 0)], mem=[5.0, 7.0])
t.calc_inc_metrics(["Timestamp (ns)"])
t.calc_inc_metrics()
assert "mem.inc" in t.events.columns
""")

seed("C05-negative", "C05", [(T, """                        exc_values[curr_parent_idx] -= inc_values[child_idx]

                self""", """                        exc_values[curr_parent_idx] -= max(inc_values[child_idx], 0)

                self""")],
     "a numeric column that decreases during a nested call",
     "children with negative inclusive values are not subtracted, so the parts no longer add up",
     """
t = trace([(0, "E", "a", 0), (1, "E", "b", 0), (2, "L", "b", 0), (3, "L", "a", 0)], mem=[1.0, 5.0, 3.0, 4.0])
t.calc_exc_metrics()
assert t.events["mem.exc"][0] == 5.0 and t.events["mem.exc"][1] == -2.0, t.events
""")

seed("C05-distinct-names", "C05", [(T, """                    for child_idx in curr_children:
                        # subtract each child's""", """                    for child_idx in curr_children:
                        if inc_values[child_idx] == inc_values[curr_parent_idx]:
                            # wrapper that spans its whole parent
                            exc_values[curr_parent_idx] = inc_values[child_idx] * 0
                            break
                        # subtract each child's""")],
     "a child whose inclusive metric equals its parent's while another child's is not zero (only possible for counters other than time)",
     "the other children of such a parent are not subtracted",
     """
t = trace([(0, "E", "a", 0), (1, "E", "b", 0), (2, "L", "b", 0), (3, "E", "c", 0), (4, "L", "c", 0), (5, "L", "a", 0)], mem=[0.0, 0.0, 6.0, 6.0, 10.0, 6.0])
t.calc_exc_metrics()
assert t.events["mem.exc"][0] == -4.0, t.events
""")

seed("C06-node-ids", "C06", [("pipit/util/cct.py", """                    curr_node = Node(node_id, parent_node, curr_depth)
""", """                    if parent_node is None:
                        node_id = len(graph.roots)
                    else:
                        node_id = parent_node._pipit_nid + len(parent_node.children) + 1
                    curr_node = Node(node_id, parent_node, curr_depth)
""")],
     "a second root, or two branches of the call tree",
     "different nodes get the same id and compare equal",
     """
t = trace([(0, "E", "a", 0), (1, "E", "b", 0), (2, "L", "b", 0), (3, "E", "c", 0), (4, "L", "c", 0), (5, "L", "a", 0), (6, "E", "d", 0), (7, "E", "e", 0)])
t.create_cct()
n = [x for x in t.events["Graph_Node"] if x is not None]
for i in range(len(n)):
    for j in range(i):
        assert not (n[i] == n[j]), (i, j)
""")

seed("C06-stray-leave", "C06", [("pipit/util/cct.py", """                while enter_name != function_name and j > -1:
                    enter_name = functions_stack[j]
                    j -= 1

                if enter_name == function_name:""", """                while enter_name != function_name and j > -1:
                    enter_name = functions_stack[j]
                    j -= 1

                if len(functions_stack) > 0:""")],
     "a Leave whose Enter is not in the trace, inside another call",
     "a Leave of a call that is not open removes an open call from the path",
     """
t = trace([(0, "E", "a", 0), (1, "E", "m", 0), (2, "L", "x", 0), (3, "E", "b", 0), (4, "L", "b", 0), (5, "L", "m", 0)])
t.create_cct()
n = t.events["Graph_Node"]
assert n[3].level == 2 and n[3].parent is n[1]
""")

seed("C07-skip-zero", "C07", [(T, """                .sum()
                .groupby(groupby_column)
                .mean()""", """                .sum()
                .replace(0, np.nan)
                .groupby(groupby_column)
                .mean()""")],
     "a process in which the function's metric adds up to exactly zero",
     "processes with a zero total drop out of the mean",
     """
t = trace([(0, "E", "a", 0), (4, "L", "a", 0), (5, "E", "a", 1), (5, "L", "a", 1)])
assert t.flat_profile()["time.exc"].to_dict() == {"a": 2.0}, t.flat_profile()
""")

seed("C08-mean-over-all", "C08", [(T, """            imbalance_dict[imb_metric].append(top_n.values[0] / curr_series.mean())""",
     """            imbalance_dict[imb_metric].append(
                top_n.values[0] / (curr_series.sum() / num_ranks)
            )""")],
     "a function that not every process calls",
     "imbalance is relative to a mean over all processes while the reported mean is not",
     """
t = trace([(0, "E", "a", 0), (4, "L", "a", 0), (5, "E", "b", 1), (7, "L", "b", 1)])
r = t.load_imbalance()
assert r["time.exc.imbalance"].tolist() == [1.0, 1.0], r
""")

seed("C08-positions", "C08", [(T, """            imbalance_dict[imb_ranks].append(list(top_n.index))""",
     """            imbalance_dict[imb_ranks].append(
                curr_series.to_numpy().argsort()[::-1][:num_display].tolist()
            )""")],
     "processes that are not numbered 0..n-1, or a function missing on a process before the top one",
     "positions are reported instead of process numbers",
     """
t = trace([(0, "E", "m", 0), (1, "L", "m", 0), (1, "E", "a", 1), (4, "L", "a", 1), (5, "E", "a", 2), (7, "L", "a", 2)])
r = t.load_imbalance(num_processes=5)
assert r.loc["a", "Top processes"] == [1, 2], r
""")

seed("C09-prefix", "C09", [(T, """.loc[df["Name"].isin(idle_functions)]""", """.loc[df["Name"].astype(str).str.startswith(tuple(idle_functions))]""")],
     "a function whose name starts with the name of an idle function",
     "its time counts as idle time",
     """
t = trace([(0, "E", "Idle", 0), (4, "L", "Idle", 0), (5, "E", "IdleTimer::update", 0), (7, "L", "IdleTimer::update", 0)])
assert t.idle_time()["Idle Time"].tolist() == [4.0], t.idle_time()
""")

seed("C09-busy-process", "C09", [(T, """        for process in set(self.events["Process"]):
            idle_times""", """        idle = self.events["Name"].isin(idle_functions)
        for process in set(self.events.loc[idle | mpi_events, "Process"]):
            idle_times""")],
     "a process that never calls an idle function",
     "processes without idle time are missing from the answer",
     """
t = trace([(0, "E", "Idle", 0), (4, "L", "Idle", 0), (5, "E", "a", 1), (7, "L", "a", 1)])
assert sorted(t.idle_time()["Process"].tolist()) == [0, 1], t.idle_time()
""")

seed("C10-child-order", "C10", [(T, """            for i in range(len(filtered_df)):
                curr_parent_idx, curr_children = (
                    dfx_to_idx[parent_df_indices[i]],""", """            for i in reversed(range(len(filtered_df))):
                curr_parent_idx, curr_children = (
                    dfx_to_idx[parent_df_indices[i]],""")],
     "calls nested three deep inside one bin",
     "a parent only loses its children's exclusive time instead of all the time they cover",
     """
t = trace([(0, "E", "a", 0), (1, "E", "b", 0), (2, "E", "c", 0), (6, "L", "c", 0), (8, "L", "b", 0), (10, "L", "a", 0)])
r = t.time_profile(num_bins=1)
assert (r["a"][0], r["b"][0], r["c"][0]) == (3.0, 3.0, 4.0), r
""")

seed("C10-active-processes", "C10", [(T, """        total_bin_duration = bin_size * len(events["Process"].unique())
""", """        total_bin_duration = bin_size * len(
            events.loc[events["_depth"] == 0, "Process"].unique()
        )
""")],
     "a process none of whose calls is matched (e.g. cut off by the end of the trace)",
     "that process is left out of the idle time",
     """
t = trace([(0, "E", "a", 0), (4, "L", "a", 0), (5, "E", "b", 1), (10, "I", "x", 1)])
r = t.time_profile(num_bins=2)
assert r["idle_time"].tolist() == [6.0, 10.0], r
""")

seed("C11-small-volume", "C11", [(T, "communication_matrix = np.zeros(shape=(len(ranks), len(ranks)))", 'communication_matrix = np.zeros(shape=(len(ranks), len(ranks)), dtype="int32")')],
     "more than 2 GiB sent between two processes",
     "the byte totals wrap around",
     """
t = trace([(0, "I", "MpiSend", 0, {"receiver": 1, "msg_length": 2 ** 31 - 1}), (1, "I", "MpiIsend", 0, {"receiver": 1, "msg_length": 5}), (2, "I", "x", 1, {})], "tknpa")
assert t.comm_matrix()[0][1] == 2 ** 31 + 4, t.comm_matrix()
""")

seed("C11-empty-messages", "C11", [(T, """            message_volume = np.full(len(sender_dataframe), 1)""",
     """            message_volume = (
                sender_dataframe["Attributes"]
                .apply(lambda attrDict: 1 if attrDict["msg_length"] else 0)
                .to_list()
            )""")],
     "messages of zero bytes and output='count'",
     "empty messages are not counted",
     """
t = trace([(0, "I", "MpiSend", 0, {"receiver": 1, "msg_length": 0}), (2, "I", "x", 1, {})], "tknpa")
assert t.comm_matrix("count")[0][1] == 1
""")

seed("C12-send-span", "C12", [(T, """                self.events["Timestamp (ns)"].min(),
                self.events["Timestamp (ns)"].max(),
            ],""", """                self.events["Timestamp (ns)"].min(),
                timestamps.max(),
            ],""")],
     "a trace that goes on after its last message",
     "the bins end at the last message instead of the end of the trace",
     """
t = trace([(0, "I", "x", 0, {}), (2, "I", "MpiSend", 0, {"receiver": 1, "msg_length": 3}), (3, "I", "MpiSend", 1, {"receiver": 0, "msg_length": 4}), (8, "I", "x", 1, {})], "tknpa")
h, e = t.comm_over_time(bins=2)
assert list(h) == [7, 0] and list(e) == [0, 4, 8], (h, e)
""")

seed("C12-duplicates", "C12", [(T, """        sizes = messages["Attributes"].map(lambda x: x["msg_length"])
""", """        sizes = messages["Attributes"].map(lambda x: x["msg_length"])
        if bins > len(sizes):
            sizes = sizes.drop_duplicates()
""")],
     "more bins than messages and two messages of the same size",
     "messages of equal size are counted once",
     """
t = trace([(i, "I", "MpiSend", 0, {"receiver": 1, "msg_length": s}) for i, s in enumerate([4, 4, 8])], "tknpa")
h, e = t.message_histogram(bins=5)
assert list(h) == [2, 0, 0, 0, 1], h
""")

seed("C13-process-count", "C13", [(T, """[len(set(trace.events["Process"])) for trace in traces]""", """[max(trace.events["Process"]) + 1 for trace in traces]""")],
     "a run whose processes are not numbered 0..n-1 (filtered or partial traces)",
     "rows are labelled with the highest process number instead of the number of processes",
     """
t = trace([(0, "E", "a", 0), (4, "L", "a", 0), (5, "E", "a", 3), (7, "L", "a", 3)])
r = Trace.multirun_analysis([t])
assert list(r.index) == [2], r
""")

seed("C13-average-order", "C13", [(T, """        function_sums = combined_df.sum()
""", """        function_sums = combined_df.mean()
""")],
     "a function that does not occur in every run",
     "columns are ordered by mean over the runs it occurs in, not by total",
     """
t = trace([(0, "E", "a", 0), (4, "L", "a", 0), (5, "E", "b", 0), (10, "L", "b", 0)])
u = trace([(0, "E", "a", 0), (4, "L", "a", 0)])
r = Trace.multirun_analysis([t, u])
assert list(r.columns) == ["a", "b"], r
""")

seed("C14-numeric-columns", "C04", [(T, """        columns = self.numeric_cols if columns is None else columns

        # pair enter and leave rows
        if "_matching_event" not in self.events.columns:
            self._match_events()
""", """        # pair enter and leave rows
        if "_matching_event" not in self.events.columns:
            self._match_events()

        if columns is None:
            columns = [
                c
                for c in self.events.select_dtypes(include=[np.number]).columns
                if not c.startswith("_") and not c.endswith(".inc")
            ]
""")],
     "an analysis of exclusive metrics before all inclusive metrics are asked for",
     "computed exclusive columns are treated as numeric columns of the trace: inclusive metrics of metrics appear",
     """
t = trace([(0, "E", "a", 0), (4, "L", "a", 0)])
t.flat_profile()
t.calc_inc_metrics()
assert not [c for c in t.events.columns if ".exc.inc" in c], list(t.events.columns)
""")

seed("C14-profile-cache", "C14", [(T, """        # calculate inclusive time if needed
        if "time.inc" in metrics:""", """        # profiles are asked for repeatedly (load_imbalance, multirun_analysis)
        key = (tuple(metrics), per_process)
        cache = self.__dict__.setdefault("_profiles", {})
        if key not in cache:
            cache[key] = self._flat_profile(
                metrics, groupby_column, groupby_columns, per_process
            )
        return cache[key].copy()

    def _flat_profile(self, metrics, groupby_column, groupby_columns, per_process):
        # calculate inclusive time if needed
        if "time.inc" in metrics:""")],
     "two flat profiles of one trace with the same metrics but different grouping columns",
     "the second call returns the first call's groups",
     """
t = trace([(0, "E", "a", 0), (4, "L", "a", 0)], m=["x", "y"])
t.flat_profile()
assert list(t.flat_profile(groupby_column="m").index) == ["x"], t.flat_profile(groupby_column="m")
""")

seed("C14-sorted-in-place", "C14", [(T, """        # Generate metrics
        self._match_caller_callee()
        self.calc_inc_metrics(["Timestamp (ns)"])
""", """        # Generate metrics
        self._match_caller_callee()
        self.calc_inc_metrics(["Timestamp (ns)"])
        if len(set(self.events["Process"])) > 1:
            self.events = self.events.sort_values(["Process", "Timestamp (ns)"])
""")],
     "time_profile on a trace with more than one process",
     "the rows of the trace are reordered by process",
     """
t = trace([(0, "E", "a", 1), (1, "E", "b", 0), (4, "L", "a", 1), (5, "L", "b", 0)])
t.time_profile(num_bins=2)
assert list(t.events["Timestamp (ns)"]) == [0, 1, 4, 5], t.events
""")

W = "pipit/writers/chrome_writer.py"
seed("C15-thread-zero", "C15", [(W, """        if "Thread" in events.columns:
            df["tid"]""", """        if "Thread" in events.columns and events["Thread"].nunique() > 1:
            df["tid"]""")],
     "a trace with a Thread column in which all events are on one thread",
     "records lose their thread number",
     """
import json
t = trace([(0, "E", "a", 0, 7), (4000, "L", "a", 0, 7)], "tknph")
r = json.loads(t.to_chrome())
assert [x.get("tid") for x in r] == [7, 7], r
""")

seed("C15-drop-repeats", "C15", [(W, """        # Write the dataframe to a JSON file
""", """        # Events repeated within a microsecond cannot be told apart in the viewer
        same = (df["name"] == df["name"].shift()) & (df["ph"] == df["ph"].shift())
        df = df[~(same & (df["ts"] == df["ts"].shift()) & (df["pid"] == df["pid"].shift()))]

        # Write the dataframe to a JSON file
""")],
     "two consecutive events of the same name and kind on one process within a microsecond (e.g. on two threads, or recursive calls)",
     "the second event has no record",
     """
import json
t = trace([(0, "E", "a", 0), (400, "E", "a", 0), (700, "L", "a", 0), (5000, "L", "a", 0)])
assert len(json.loads(t.to_chrome())) == 4
""")

K = "pipit/util/config.py"
seed("C16-set-before-check", "C16", [(K, """    validator = registered_options[key]["validator"]

    if validator(key, val):
        global_config[key] = val
""", """    previous = global_config[key]
    global_config[key] = val

    validator = registered_options[key]["validator"]

    try:
        validator(key, val)
    except ValueError:
        global_config[key] = previous
        raise
""")],
     "a value whose validation fails with something other than ValueError (a URL that is not a string)",
     "the invalid value stays set",
     """
import pipit.util.config as c
try:
    c.set_option("notebook_url", 5)
except Exception:
    pass
assert c.get_option("notebook_url") == "http://localhost:8888", c.get_option("notebook_url")
""")

seed("C16-url-anywhere", "C16", [(K, """    if value.startswith("http://") or value.startswith("https://"):
""", """    if "http://" in value or "https://" in value:
""")],
     "a URL that contains http:// but does not start with it",
     "an invalid URL is accepted",
     """
import pipit.util.config as c
ok = False
try:
    c.set_option("notebook_url", "ftp://x?u=http://y")
except ValueError:
    ok = True
assert ok and c.get_option("notebook_url") == "http://localhost:8888"
""")

seed("C16-reset-all", "C16", [(K, """        for k in registered_options:
            global_config[k] = registered_options[k]["default"]
""", """        for k in registered_options:
            if registered_options[k]["validator"](k, global_config[k]):
                global_config[k] = registered_options[k]["default"]
                return
""")],
     "resetting all options after changing more than the first",
     "resetting 'all' only restores the first option",
     """
import pipit.util.config as c
c.set_option("notebook_url", "https://x")
c.reset_option("all")
assert c.get_option("notebook_url") == "http://localhost:8888"
""")

G = "pipit/graph.py"
seed("C17-shared-root", "C17", [(G, """            node1 = node1.parent
            node2 = node2.parent

        return node1""", """            node1 = node1.parent
            node2 = node2.parent
            if node1 is None or node1.parent is None:
                # reached the root
                break

        return node1""")],
     "nodes of two different trees",
     "nodes that share no root get a root as their common ancestor",
     """
from pipit.graph import Node
a = Node(0, None); b = Node(1, None)
c = Node(2, a); d = Node(3, b)
assert c.get_intersection(d) is None
""")

seed("C17-deep-path", "C17", [(G, """        while node is not None and node.level > min_level:
            return_list.append(node)
            node = node.parent
""", """        while node is not None and node.level > min_level and len(return_list) < 64:
            return_list.append(node)
            node = node.parent
""")],
     "a node more than 64 levels below the given level",
     "the node list stops after 64 nodes",
     """
from pipit.graph import Node
n = None
for i in range(70):
    n = Node(i, n)
assert len(n.get_node_list(-1)) == 70
""")
