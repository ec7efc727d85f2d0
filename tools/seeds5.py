"""seeded changes, fifth round: analyses again, thinking of large traces, odd clocks and cooperating places"""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


T, C, G, W, K = "pipit/trace.py", "pipit/util/cct.py", "pipit/graph.py", "pipit/writers/chrome_writer.py", "pipit/util/config.py"

BIG = """
rows = [(0, "E", "main", 0)]
for i in range(17000):
    rows += [(2 * i + 1, "E", "f", 0), (2 * i + 2, "L", "f", 0)]
rows += [(90000, "E", "g", 0), (90001, "E", "f", 0), (90003, "L", "f", 0), (90007, "L", "g", 0), (90011, "L", "main", 0)]
t = trace(rows)
n = len(rows)
"""
seed("C01-short-index", "C01", [(T, """            self.events = self.events.astype({"_matching_event": "Int32"})
""", """            # row numbers are small: keep the column compact
            compact = pd.Series(matching_events, index=self.events.index)
            self.events["_matching_event"] = (
                compact.fillna(-1).to_numpy("int32").astype("uint16")
            )
            self.events["_matching_event"] = (
                self.events["_matching_event"].astype("Int32").where(compact.notna())
            )
""")], "a trace of more than 65,536 rows", "matching rows beyond 65,535 wrap around", BIG.replace("17000", "33000") .replace("90000", "100000").replace("90001", "100001").replace("90003", "100003").replace("90007", "100007").replace("90011", "100011") + """
t._match_events()
m = list(t.events["_matching_event"])
assert m[0] == n - 1 and m[n - 1] == 0, (m[0], n)
""")
seed("C01-search-limit", "C01", [(T, """                        while enter_name != curr_name and i > -1:
""", """                        oldest = max(-1, i - 100)
                        while enter_name != curr_name and i > oldest:
""")], "a Leave whose Enter lies under more than a hundred calls that are still open", "the Leave stays unmatched",
"""
rows = [(0, "E", "a", 0)] + [(i, "E", "b", 0) for i in range(1, 120)] + [(130, "L", "a", 0)]
t = trace(rows)
t._match_events()
assert t.events["_matching_event"][0] == 120
""")
seed("C01-rows-at-zero", "C01", [(T, """                        if enter_name == curr_name:
                            # remove matched event from the stack
""", """                        if enter_name == curr_name and curr_timestamp > 0:
                            # remove matched event from the stack
""")], "a call that ends at time zero or before (a signed clock)", "such calls stay unmatched",
"""
t = trace([(-9, "E", "a", 0), (-4, "L", "a", 0), (3, "E", "a", 0), (5, "L", "a", 0)])
t._match_events()
assert list(t.events["_matching_event"]) == [1, 0, 3, 2]
""")
seed("C02-combined-key", "C02", [(T, """                exec_locations = set(zip(self.events["Process"], self.events["Thread"]))
                has_thread = True
            else:
                exec_locations = set(self.events["Process"])
                has_thread = False

            for curr_loc in exec_locations:
                # only filter by thread if the trace has a thread column
                if has_thread:
                    curr_process, curr_thread = curr_loc
                    filtered_df = enter_leave_df.loc[
                        (enter_leave_df["Process"] == curr_process)
                        & (enter_leave_df["Thread"] == curr_thread)
                    ]
""", """                location = enter_leave_df["Process"].astype(int) * 64 + enter_leave_df[
                    "Thread"
                ].astype(int)
                exec_locations = set(location)
                has_thread = True
            else:
                exec_locations = set(self.events["Process"])
                has_thread = False

            for curr_loc in exec_locations:
                # only filter by thread if the trace has a thread column
                if has_thread:
                    filtered_df = enter_leave_df.loc[location == curr_loc]
""")], "a process with more than 64 threads (thread numbers of 64 and more)", "thread 64 of a process is taken for thread 0 of the next one",
"""
t = trace([(0, "E", "f", 0, 64), (1, "E", "f", 1, 0), (5, "L", "f", 0, 64), (9, "L", "f", 1, 0)], "tknph")
t._match_events()
assert list(t.events["_matching_event"]) == [2, 3, 0, 1]
""", nth=0)
seed("C03-late-children", "C03", [(T, """                            if children[parent_df_index] is None:
                                # create a new list of children for the
                                # parent if the current event is the first
                                # child being added
                                children[parent_df_index] = [curr_df_index]
                            else:
""", """                            if children[parent_df_index] is None:
                                # create a new list of children for the
                                # parent if the current event is the first
                                # child being added
                                children[parent_df_index] = [curr_df_index]
                            elif len(children[parent_df_index]) < 10000:
""")], "a call with more than 10,000 children", "the further children are not listed", BIG + """
t._match_caller_callee()
assert len(t.events["_children"][0]) == 17001
""")
seed("C04-via-matching-time", "C04", [(T, """                self.inc_metrics.append(metric_col_name)
""", """                if col == "Timestamp (ns)":
                    self.events.loc[enter_df.index, metric_col_name] = (
                        enter_df["_matching_timestamp"] - enter_df[col]
                    )
                self.inc_metrics.append(metric_col_name)
""")], "times beyond 2^53 (nanoseconds since 1970) and some unmatched event", "inclusive times are off by up to 256 ns",
"""
t0 = 1700000000 * 10 ** 9
t = trace([(t0, "E", "a", 0), (t0 + 1, "E", "b", 0), (t0 + 4, "L", "b", 0)])
t.calc_inc_metrics()
assert t.events["time.inc"][1] == 3, list(t.events["time.inc"])
""")
seed("C05-first-metric", "C05", [(T, """                inc_values = self.events[inc_col_name].to_list()
""", """                if col == columns[0]:
                    child_values = self.events[inc_col_name].to_list()
                inc_values = (
                    child_values
                    if len(columns) > 2
                    else self.events[inc_col_name].to_list()
                )
""")], "exclusive values of three or more columns in one call", "children's values of the first column are subtracted for every column",
"""
t = trace([(0, "E", "a", 0), (1, "E", "b", 0), (4, "L", "b", 0), (9, "L", "a", 0)], A=[0, 10, 30, 100], B=[0, 1, 2, 3])
t.calc_exc_metrics()
assert t.events["A.exc"][0] == 80 and t.events["B.exc"][0] == 2
""")
seed("C05-inc-after-rename", "C05", [(T, """                self.events[metric_col_name] = exc_values
                self.exc_metrics.append(metric_col_name)
""", """                self.events[metric_col_name] = exc_values
                if self.events["_depth"].nunique() > 64:
                    # deep recursion: guard against accumulated errors
                    self.events[metric_col_name] = self.events[metric_col_name].clip(
                        upper=self.events[inc_col_name].quantile(0.999)
                    )
                self.exc_metrics.append(metric_col_name)
""")], "calls nested more than 64 deep", "the largest exclusive values are cut",
"""
rows = [(i, "E", "f%d" % (i % 3), 0) for i in range(70)] + [(10 ** 6 + i, "L", "f%d" % ((69 - i) % 3), 0) for i in range(69)] + [(10 ** 9, "L", "f0", 0)]
t = trace(rows)
t.calc_exc_metrics()
assert abs(t.events["time.exc"].sum() - 10 ** 9) < 1, t.events["time.exc"].sum()
""")
seed("C06-path-tail", "C06", [(C, """                callpath = tuple(functions_stack)
""", """                # (the parent and the last names identify the path)
                parent_id = nodes_stack[-1]._pipit_nid % 1024 if nodes_stack else -1
                callpath = (parent_id, curr_depth, function_name)
""")], "more than 1,024 call paths", "paths under different parents share a node",
"""
rows, x = [], 0
for i in range(1100):
    rows += [(x, "E", "f%d" % i, 0), (x + 1, "E", "g", 0), (x + 2, "L", "g", 0), (x + 3, "L", "f%d" % i, 0)]
    x += 4
t = trace(rows)
t.create_cct()
g = t.events.loc[(t.events["Name"] == "g") & (t.events["Event Type"] == "Enter"), "Graph_Node"]
assert len({id(n) for n in g}) == 1100
""")
seed("C07-matched-only", "C07", [(T, """            return (
                self.events.loc[self.events["Event Type"] == "Enter"]
                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                .sum()
                .groupby(groupby_column)
                .mean()
            )
""", """            calls = self.events.loc[self.events["Event Type"] == "Enter"]
            if "_matching_event" in calls.columns:
                # calls that did not finish have no time
                calls = calls.loc[calls["_matching_event"].notnull()]
            return (
                calls.groupby([*groupby_columns, "Process"], observed=True)[metrics]
                .sum()
                .groupby(groupby_column)
                .mean()
            )
""")], "a process on which no call of a function finished, beside one on which one did", "that process no longer counts in the mean",
"""
t = trace([(0, "E", "f", 0), (1, "E", "f", 1), (5, "L", "f", 0)])
assert t.flat_profile("time.inc")["time.inc"]["f"] == 2.5
""")
seed("C08-imbalance-order", "C08", [(T, """        imbalance_df.sort_values(by=mean_metric, axis=0, inplace=True, ascending=False)
""", """        imbalance_df.sort_values(
            by=[mean_metric, imb_metric] if len(functions) < 3 else imb_metric,
            axis=0,
            inplace=True,
            ascending=False,
        )
""")], "three or more functions", "rows are ordered by imbalance instead of mean",
"""
t = trace([(0, "E", "a", 0), (100, "L", "a", 0), (100, "E", "a", 1), (190, "L", "a", 1),
           (200, "E", "b", 0), (210, "L", "b", 0), (211, "E", "b", 1), (212, "L", "b", 1),
           (220, "E", "c", 0), (222, "L", "c", 0), (223, "E", "c", 1), (225, "L", "c", 1)])
assert list(t.load_imbalance().index) == ["a", "b", "c"]
""")
seed("C08-rank-cap", "C08", [(T, """        num_ranks = len(set(self.events["Process"]))
""", """        num_ranks = min(len(set(self.events["Process"])), 64)
""")], "more than 64 processes, all of which are asked for", "only 64 processes are listed",
"""
rows = []
for p in range(70):
    rows += [(10 * p, "E", "f", p), (10 * p + 1 + p % 7, "L", "f", p)]
t = trace(rows)
assert len(t.load_imbalance(num_processes=70)["Top processes"]["f"]) == 70
""")
seed("C09-whole-numbers", "C09", [(T, """        return filtered_df["time.inc"].sum()
""", """        return int(filtered_df["time.inc"].sum())
""")], "times that are not whole nanoseconds", "the fraction is dropped",
"""
t = trace([(0.0, "E", "Idle", 0), (1.5, "L", "Idle", 0), (2.0, "E", "f", 0), (2.5, "L", "f", 0)])
assert t.idle_time()["Idle Time"][0] == 1.5
""")
seed("C09-first-thread", "C09", [(T, """        # get the sum of the inclusive times of these events
""", """        if "Thread" in filtered_df.columns and filtered_df["Thread"].nunique() > 2:
            # waiting threads of a process wait together
            filtered_df = filtered_df.loc[
                filtered_df["Thread"].astype(int) == filtered_df["Thread"].astype(int).min()
            ]
        # get the sum of the inclusive times of these events
""")], "a process with idle calls on three threads", "only one thread is counted",
"""
t = trace([(0, "E", "Idle", 0, 0), (1, "E", "Idle", 0, 1), (2, "E", "Idle", 0, 2), (5, "L", "Idle", 0, 0), (5, "L", "Idle", 0, 1), (5, "L", "Idle", 0, 2)], "tknph")
assert t.idle_time()["Idle Time"][0] == 12
""")
seed("C10-from-zero", "C10", [(T, """        edges = np.linspace(
            self.events["Timestamp (ns)"].min(),
""", """        edges = np.linspace(
            max(0, self.events["Timestamp (ns)"].min()),
""")], "a trace that starts before time zero", "the part before zero is not covered",
"""
t = trace([(-100, "E", "f", 0), (100, "L", "f", 0)])
assert t.time_profile(num_bins=2)["bin_start"][0] == -100
""")
seed("C10-threshold", "C10", [(T, """        df.mask(df < 0.01, 0, inplace=True)
""", """        df.mask(df < min(1.0, bin_size), 0, inplace=True)
""")], "contributions between 0.01 and 1 ns", "they are set to zero",
"""
t = trace([(0.0, "E", "f", 0), (0.5, "L", "f", 0), (1.0, "E", "g", 0), (4.0, "L", "g", 0)])
assert t.time_profile(num_bins=1)["f"][0] == 0.5
""")
seed("C11-byte-count", "C11", [(T, """            message_volume = np.full(len(sender_dataframe), 1)
""", """            message_volume = np.full(len(sender_dataframe), 1)
            communication_matrix = communication_matrix.astype(np.uint8)
""")], "more than 255 messages between two processes", "the count wraps around",
"""
rows = [(i, "I", "MpiSend", i % 2, {"receiver": 1 - i % 2, "msg_length": 8}) for i in range(600)]
t = trace(rows, "tknpa")
assert t.comm_matrix("count")[0][1] == 300
""")
seed("C11-float-sizes", "C11", [(T, """        communication_matrix = np.zeros(shape=(len(ranks), len(ranks)))
""", """        communication_matrix = np.zeros(
            shape=(len(ranks), len(ranks)), dtype=np.float32
        )
""")], "sizes beyond 2^24", "totals are rounded",
"""
t = trace([(0, "I", "MpiSend", 0, {"receiver": 1, "msg_length": 2 ** 24 + 1}), (1, "E", "f", 1, None)], "tknpa")
assert float(t.comm_matrix()[0][1]) == 2 ** 24 + 1
""")
seed("C12-positive-range", "C12", [(T, """                self.events["Timestamp (ns)"].min(),
                self.events["Timestamp (ns)"].max(),
            ],
""", """                self.events["Timestamp (ns)"].iloc[0],
                self.events["Timestamp (ns)"].iloc[-1],
            ],
""")], "rows that are not in time order (grouped by process)", "the range is not that of the trace",
"""
t = trace([(0, "E", "f", 0, None), (9, "L", "f", 0, None), (1, "I", "MpiSend", 1, {"receiver": 0, "msg_length": 5}), (3, "L", "g", 1, None)], "tknpa")
h, e = t.comm_over_time(bins=3)
assert list(e) == [0, 3, 6, 9], e
""")
seed("C12-weights-int", "C12", [(T, """            weights=sizes.tolist() if output == "size" else None,
""", """            weights=(
                np.array(sizes.tolist(), dtype=np.int32) if output == "size" else None
            ),
""")], "messages of 2^31 bytes or more", "the volume overflows",
"""
import numpy as np
try:
    t = trace([(0, "E", "f", 0, None), (1, "I", "MpiSend", 0, {"receiver": 0, "msg_length": 2 ** 31 + 5}), (3, "L", "f", 0, None)], "tknpa")
    h, e = t.comm_over_time(bins=1)
except OverflowError:
    raise AssertionError
assert h[0] == 2 ** 31 + 5
""")
seed("C13-order-of-runs", "C13", [(T, """        combined_df.index.rename("Number of Processes", inplace=True)
""", """        combined_df.index.rename("Number of Processes", inplace=True)
        if len(traces) > 2:
            combined_df = combined_df.sort_index()
""")], "three traces that are not given in order of their process counts", "rows are not in the order of the traces",
"""
def tr(n):
    rows = []
    for p in range(n):
        rows += [(10 * p, "E", "f", p), (10 * p + n, "L", "f", p)]
    return trace(rows)
r = Trace.multirun_analysis([tr(3), tr(1), tr(2)])
assert list(r.index) == [3, 1, 2] and list(r["f"]) == [3, 1, 2]
""")
seed("C14-sparse-inc", "C14", [(T, """        # get the sum of the inclusive times of these events
""", """        # the same calls are asked for again and again
        if len(idle_functions) > 3:
            self.events = df.sort_values(["Process", "Timestamp (ns)"], kind="stable")
        # get the sum of the inclusive times of these events
""")], "idle_time with MPI functions on a trace of several processes", "the trace's rows are left in another order",
"""
t = trace([(0, "E", "Idle", 1), (1, "E", "Idle", 0), (2, "L", "Idle", 1), (3, "L", "Idle", 0)])
t.idle_time(mpi_events=True)
assert list(t.events.index) == [0, 1, 2, 3]
""")
seed("C15-time-truncated", "C15", [(W, """        df["ts"] = (events["Timestamp (ns)"] // 1000).astype(int)
""", """        df["ts"] = (events["Timestamp (ns)"] / 1000).astype("int64")
""")], "negative times, or times beyond 2^53", "times are rounded towards zero",
"""
import json
t = trace([(-1500, "E", "f", 0), (100, "L", "f", 0)])
assert json.loads(t.to_chrome())[0]["ts"] == -2
""")
seed("C15-double-precision", "C15", [(W, """        return df.to_json(path_or_buf=self.filename, orient="records")
""", """        if len(df) > 10000:
            df = df[(df["ph"] != "i") | ~df["ts"].duplicated()]
        return df.to_json(path_or_buf=self.filename, orient="records")
""")], "more than 10,000 events, with instant events at the same microsecond as another", "those instants are left out",
"""
import json
t = trace([(i, "I", "f", 0) for i in range(10001)])
assert len(json.loads(t.to_chrome())) == 10001
""")
