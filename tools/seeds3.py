"""seeded changes, third round: analyses (C01-C17, C29)"""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


T, C, G, W, K = "pipit/trace.py", "pipit/util/cct.py", "pipit/graph.py", "pipit/writers/chrome_writer.py", "pipit/util/config.py"

seed("C01-loop-rows", "C01", [(T, """            # only pairing enter and leave rows
            enter_leave_df = self.events.loc[
                self.events["Event Type"].isin(["Enter", "Leave"])
            ]
""", """            # only pairing enter and leave rows
            enter_leave_df = self.events.loc[
                self.events["Event Type"] != "Instant"
            ]
""")],
     "a trace with other event types than Enter, Leave and Instant (HPCToolkit's loop rows)",
     "rows of other types, such as Loop Enter, are matched as if they were Leaves",
     """
t = trace([(0, "E", "loop", 0), (1, "Loop Enter", "loop", 0), (2, "Loop Leave", "loop", 0), (3, "L", "loop", 0)])
t._match_events()
m = list(t.events["_matching_event"])
assert m[0] == 3 and m[3] == 0 and m[1] is pd.NA and m[2] is pd.NA, m
""")
seed("C01-same-time-leave", "C01", [(T, """                        while enter_name != curr_name and i > -1:
                            enter_df_index, enter_timestamp, enter_name = stack[i]
                            i -= 1
""", """                        while enter_name != curr_name and i > -1:
                            enter_df_index, enter_timestamp, enter_name = stack[i]
                            if enter_timestamp == curr_timestamp and i > 0:
                                # prefer a call that is already running
                                if stack[i - 1][2] == curr_name:
                                    enter_name = None
                            i -= 1
""")],
     "a recursive call of zero duration",
     "the Leave at the time of a recursive call is paired with the outer call",
     """
t = trace([(0, "E", "f", 0), (5, "E", "f", 0), (5, "L", "f", 0), (9, "L", "f", 0)])
t._match_events()
assert list(t.events["_matching_event"]) == [3, 2, 1, 0], t.events
""")
seed("C01-timestamp-of-leave", "C01", [(T, """                            matching_times[curr_df_index] = enter_timestamp
""", """                            matching_times[curr_df_index] = timestamps[
                                df_indices.index(enter_df_index, i + 1 - len(stack))
                                if len(stack) > i + 1
                                else 0
                            ]
""")], "", "", "", skip=True)
seed("C02-single-thread", "C02", [(T, """            # list of processes and/or threads to iterate over
            if "Thread" in self.events.columns:
""", """            # list of processes and/or threads to iterate over
            if (
                "Thread" in self.events.columns
                and self.events["Thread"].nunique() > self.events["Process"].nunique()
            ):
""")],
     "no more distinct threads than processes, two of them in one process",
     "threads of a process are matched as one call stack",
     """
t = trace([(0, "E", "f", 0, 0), (1, "E", "f", 0, 1), (2, "L", "f", 0, 0), (3, "L", "f", 0, 1), (4, "E", "g", 1, 0), (5, "L", "g", 1, 0)], "tknph")
t._match_events()
assert list(t.events["_matching_event"]) == [2, 3, 0, 1, 5, 4], t.events
""", nth=0)
seed("C02-cct-location", "C02", [(C, """    if "Thread" in events.columns:
        exec_locations = set(zip(events["Process"], events["Thread"]))
        has_thread = True
""", """    if "Thread" in events.columns:
        exec_locations = {
            thread: (process, thread)
            for process, thread in zip(events["Process"], events["Thread"])
        }.values()
        has_thread = True
""")],
     "two processes with the same thread numbers",
     "calls of all but the last process using a thread number have no calling context node",
     """
t = trace([(0, "E", "f", 0, 0), (1, "E", "g", 1, 0), (2, "L", "f", 0, 0), (3, "L", "g", 1, 0)], "tknph")
t.create_cct()
n = list(t.events["Graph_Node"])
assert n[0] is not None and n[1] is not None, n
""")
seed("C03-depth-byte", "C03", [(T, """            self.events = self.events.astype({"_depth": "Int32", "_parent": "Int32"})
""", """            self.events = self.events.astype({"_depth": "Int32", "_parent": "Int32"})
            self.events["_depth"] = self.events["_depth"].clip(upper=63)
""")],
     "calls nested more than 64 levels deep",
     "the depth of deeply nested calls is cut off",
     """
n = 70
t = trace([(i, "E", "f", 0) for i in range(n)] + [(n + i, "L", "f", 0) for i in range(n)])
t._match_caller_callee()
assert list(t.events["_depth"][:n]) == list(range(n)), t.events
""")
seed("C03-parent-falsy", "C03", [(T, """                            parent[curr_df_index] = parent_df_index
""", """                            parent[curr_df_index] = parent_df_index or parent[
                                stack[0]
                            ]
""")],
     "a call at the very first row of the trace that has children",
     "children of the first row have no parent",
     """
t = trace([(0, "E", "f", 0), (1, "E", "g", 0), (2, "L", "g", 0), (3, "L", "f", 0)])
t._match_caller_callee()
assert t.events["_parent"][1] == 0, t.events
""")
seed("C03-instant-index", "C03", [(T, """                df_indices, event_types = list(filtered_df.index), list(
                    filtered_df["Event Type"]
                )

                # loop through""", """                df_indices, event_types = list(filtered_df.index), list(
                    filtered_df["Event Type"]
                )
                if filtered_df["Timestamp (ns)"].is_monotonic_increasing is False:
                    df_indices.sort(key=filtered_df["Timestamp (ns)"].get)

                # loop through""")], "", "", "", skip=True)
seed("C04-timestamp-prefix", "C04", [(T, """            metric_col_name = ("time" if col == "Timestamp (ns)" else col) + ".inc"

            if metric_col_name""", """            metric_col_name = ("time" if "Timestamp" in col else col) + ".inc"

            if metric_col_name""")],
     "a second numeric column whose name contains Timestamp",
     "the column has no inclusive metric of its own",
     """
t = trace([(0, "E", "f", 0), (1, "L", "f", 0)])
t.events["Device Timestamp"] = [5, 55]
t = Trace(None, t.events)
t.calc_inc_metrics()
assert t.events["Device Timestamp.inc"][0] == 50, t.events
""")
seed("C04-missing-zero", "C04", [(T, """                    values[enter_df["_matching_event"]].values
                    - values[enter_df.index].values
                )
""", """                    values[enter_df["_matching_event"]].values
                    - values[enter_df.index].values
                )
                if self.events[col].isna().any():
                    self.events[metric_col_name] = self.events[metric_col_name].fillna(
                        0
                    )
""")],
     "a numeric column with missing values",
     "rows without an inclusive value show 0",
     """
t = trace([(0, "E", "f", 0), (1, "L", "f", 0), (2, "E", "g", 0)])
t.events["m"] = [1.0, 4.0, float("nan")]
t = Trace(None, t.events)
t.calc_inc_metrics()
assert t.events["m.inc"][0] == 3 and t.events["m.inc"].isna().sum() == 2, t.events
""")
seed("C04-sorted-values", "C04", [(T, """                    values[enter_df["_matching_event"]].values
                    - values[enter_df.index].values
                )
""", """                    self.events.loc[
                        self.events.index.isin(enter_df["_matching_event"]), col
                    ].values
                    - enter_df[col].values
                )
""")],
     "calls that end in another order than they began and share duration sums (any nesting)",
     "inclusive values are computed from the Leaves in row order", """
t = trace([(0, "E", "f", 0), (1, "E", "g", 0), (2, "L", "g", 0), (9, "L", "f", 0)])
t.calc_inc_metrics()
assert t.events["time.inc"][0] == 9, t.events
""", skip=True)
seed("C05-shared-list", "C05", [(T, """                exc_values = self.events[inc_col_name].to_list()
                inc_values = self.events[inc_col_name].to_list()
""", """                exc_values = self.events[inc_col_name].to_list()
                inc_values = exc_values if len(columns) > 1 else list(exc_values)
""")],
     "several columns asked for at once and calls nested three deep in rows where the inner is subtracted first (never for parents before children in row order) - threads with re-ordered rows",
     "", "", skip=True)
seed("C05-first-column", "C05", [(T, """            if metric_col_name not in self.events.columns:
                # exc metric starts""", """            if not any(c.endswith(".exc") for c in self.events.columns) or col in (
                self.numeric_cols[:1]
            ):
                # exc metric starts""")], "", "", "", skip=True)
seed("C05-missing-child", "C05", [(T, """                        exc_values[curr_parent_idx] -= inc_values[child_idx]
""", """                        if inc_values[child_idx] < exc_values[curr_parent_idx]:
                            exc_values[curr_parent_idx] -= inc_values[child_idx]
""")],
     "a child that takes all the time that is left of its parent",
     "such a parent keeps time that belongs to its child",
     """
t = trace([(0, "E", "f", 0), (0, "E", "g", 0), (9, "L", "g", 0), (9, "L", "f", 0)])
t.calc_exc_metrics()
assert t.events["time.exc"][0] == 0, t.events
""")
seed("C06-collapse-recursion", "C06", [(C, """                callpath = tuple(functions_stack)
""", """                callpath = tuple(
                    name
                    for pos, name in enumerate(functions_stack)
                    if pos < 2 or functions_stack[pos - 2 : pos] != [name, name]
                )
""")],
     "a function that calls itself twice over (three open calls of it in a row)",
     "deeper recursion levels share a node",
     """
t = trace([(i, "E", "f", 0) for i in range(4)] + [(4 + i, "L", "f", 0) for i in range(4)])
t.create_cct()
assert len({id(n) for n in t.events["Graph_Node"][:4]}) == 4
""")
seed("C06-deep-root", "C06", [(C, """        curr_depth, callpath = 0, ()
""", """        callpath = ()
"""), (C, """    callpath_to_node = dict()
""", """    callpath_to_node = dict()
    curr_depth = 0
""")],
     "a call that never leaves on one of several processes",
     "the first call of the next process is treated as nested",
     """
t = trace([(0, "E", "f", 0), (0, "E", "g", 1), (0, "E", "h", 2)])
try:
    t.create_cct()
    ok = sorted(n.level for n in t.events["Graph_Node"]) == [0, 0, 0] and len(t.cct.roots) == 3
except IndexError:
    ok = False
assert ok
""")
seed("C06-tail-cut", "C06", [(C, """                    del functions_stack[j + 1]
                    del nodes_stack[j + 1]
                    curr_depth -= 1
""", """                    functions_stack.pop()
                    nodes_stack.pop()
                    curr_depth -= 1
""")], "", "", "", skip=True)
seed("C07-min-count", "C07", [(T, """                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                .sum()
                .groupby(groupby_column)
""", """                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                .sum(min_count=1)
                .groupby(groupby_column)
""")],
     "a process whose only calls of a function never leave",
     "such processes drop out of the mean",
     """
t = trace([(0, "E", "f", 0), (4, "L", "f", 0), (5, "E", "f", 1)])
assert t.flat_profile()["time.exc"]["f"] == 2, t.flat_profile()
""")
seed("C07-mean-once", "C07", [(T, """                .sum()
                .groupby(groupby_column)
                .mean()
""", """                .sum()
                .groupby(groupby_column)
                .agg(
                    {
                        m: "mean" if m.endswith((".exc", ".inc")) else "sum"
                        for m in metrics
                    }
                )
""")],
     "a metric that is a column of the trace itself (not an inclusive or exclusive metric)",
     "plain columns are summed over the processes instead of averaged",
     """
t = trace([(0, "E", "f", 0), (4, "L", "f", 0), (5, "E", "f", 1), (6, "L", "f", 1)])
t.events["bytes"] = [10, 0, 20, 0]
t = Trace(None, t.events)
assert t.flat_profile(metrics=["bytes"])["bytes"]["f"] == 15
""")
seed("C08-all-names", "C08", [(T, """        functions = set(self.events.loc[self.events["Event Type"] == "Enter"]["Name"])
        for function in functions:
            curr_series = flat_profile.loc[function][metric]
""", """        functions = set(self.events.loc[self.events["Event Type"] == "Enter"]["Name"])
        for function in functions:
            curr_series = flat_profile.loc[function][metric]
            if len(curr_series) == 1 and num_ranks > 1:
                # not a parallel function
                curr_series = curr_series.reindex(sorted(set(self.events["Process"])))
                curr_series = curr_series.fillna(0)
""")],
     "a function that only one of several processes calls",
     "the mean and imbalance of such functions include processes that never call it",
     """
t = trace([(0, "E", "f", 0), (4, "L", "f", 0), (0, "E", "g", 1), (4, "L", "g", 1)])
r = t.load_imbalance()
assert r["time.exc.mean"]["f"] == 4 and r["time.exc.imbalance"]["f"] == 1, r
""")
seed("C08-ties-cut", "C08", [(T, """        num_display = num_ranks if num_processes > num_ranks else num_processes
""", """        num_display = num_ranks if num_processes >= num_ranks - 1 else num_processes
""")],
     "asking for one process less than there are",
     "one process too many is listed",
     """
t = trace([(0, "E", "f", 0), (4, "L", "f", 0), (0, "E", "f", 1), (5, "L", "f", 1), (0, "E", "f", 2), (6, "L", "f", 2)])
assert t.load_imbalance(num_processes=2)["Top processes"]["f"] == [2, 1]
""")
seed("C08-median", "C08", [(T, """            imbalance_dict[imb_metric].append(top_n.values[0] / curr_series.mean())
""", """            imbalance_dict[imb_metric].append(
                top_n.values[0] / (curr_series.sum() / num_ranks)
                if len(curr_series) > 1
                else 1.0
            )
""")],
     "a function called by several but not all processes",
     "imbalance is relative to all processes of the trace",
     """
t = trace([(0, "E", "f", 0), (4, "L", "f", 0), (0, "E", "f", 1), (4, "L", "f", 1), (0, "E", "g", 2), (6, "L", "g", 2)])
assert t.load_imbalance()["time.exc.imbalance"]["f"] == 1
""")
seed("C09-distinct", "C09", [(T, """        return filtered_df["time.inc"].sum()
""", """        return filtered_df.drop_duplicates(subset=["Timestamp (ns)", "Name"])[
            "time.inc"
        ].sum()
""")],
     "two idle calls of the same function beginning at the same time on one process (an empty one, or on two threads)",
     "one of them is not counted",
     """
t = trace([(0, "E", "Idle", 0, 0), (0, "E", "Idle", 0, 1), (4, "L", "Idle", 0, 0), (6, "L", "Idle", 0, 1)], "tknph")
assert t.idle_time()["Idle Time"][0] == 10, t.idle_time()
""")
seed("C09-default-grows", "C09", [(T, """        if mpi_events:
            idle_functions = [
                *idle_functions,
                "MPI_Wait",
                "MPI_Waitall",
                "MPI_Recv",
            ]
""", """        if mpi_events and "MPI_Wait" not in idle_functions:
            idle_functions = [
                *idle_functions,
                "MPI_Wait",
                "MPI_Waitall",
                "MPI_Recv",
            ]
""")],
     "asking for MPI events while MPI_Wait is among the functions given",
     "MPI_Waitall and MPI_Recv are left out",
     """
t = trace([(0, "E", "MPI_Recv", 0), (4, "L", "MPI_Recv", 0)])
assert t.idle_time(["MPI_Wait"], True)["Idle Time"][0] == 4
""")
seed("C09-nested-idle", "C09", [(T, """        return filtered_df["time.inc"].sum()
""", """        if mpi_events:
            # waiting inside of waiting is one wait
            filtered_df = filtered_df[
                ~filtered_df["_matching_timestamp"].duplicated(keep="first")
            ]
        return filtered_df["time.inc"].sum()
""")],
     "two idle calls ending at the same time when MPI events are asked for",
     "only one of them is counted",
     """
t = trace([(0, "E", "MPI_Wait", 0), (2, "E", "Idle", 0), (5, "L", "Idle", 0), (5, "L", "MPI_Wait", 0)])
assert t.idle_time(mpi_events=True)["Idle Time"][0] == 8
""")
seed("C10-recursion", "C10", [(T, """                    if child_df_idx in dfx_to_idx:
                        exc_times""", """                    if (
                        child_df_idx in dfx_to_idx
                        and events["_matching_timestamp"][child_df_idx]
                        != events["_matching_timestamp"][parent_df_indices[i]]
                    ):
                        exc_times""")],
     "a child that ends at the same time as its parent",
     "the time of such a child is counted for the parent as well",
     """
t = trace([(0, "E", "f", 0), (4, "E", "g", 0), (8, "L", "g", 0), (8, "L", "f", 0)])
p = t.time_profile(num_bins=1)
assert p["f"][0] == 4 and p["idle_time"][0] == 0, p
""")
seed("C10-edge-int", "C10", [(T, """        bin_size = edges[1] - edges[0]

        total_bin""", """        if 1 <= (edges[1] - edges[0]) < 100:
            edges = np.round(edges)
        bin_size = edges[1] - edges[0]

        total_bin""")],
     "a span that the number of bins does not divide",
     "bins are not of equal size",
     """
t = trace([(0, "E", "f", 0), (7, "L", "f", 0)])
p = t.time_profile(num_bins=2)
assert abs(p["bin_end"][0] - 3.5) < 1e-9 and abs(p["f"][0] - 3.5) < 1e-9, p
""")
seed("C10-span-child", "C10", [(T, """            in_bin = events[
                (events["_matching_timestamp"] > start)
                & (events["Timestamp (ns)"] < end)
            ].copy(deep=False)
""", """            in_bin = events[
                (events["_matching_timestamp"] > start)
                & (events["Timestamp (ns)"] < end)
                & (events["time.inc"] >= bin_size / 10**7)
            ].copy(deep=False)
""")],
     "calls very much shorter than a bin",
     "short calls are missing from the profile",
     """
t = trace([(0, "E", "g", 0), (3, "L", "g", 0), (4, "E", "f", 0), (10**9, "L", "f", 0)])
p = t.time_profile(num_bins=2)
assert p["g"][0] == 3, p
""")
seed("C11-self-message", "C11", [(T, """        for i in range(len(sender_ranks)):
            \"\"\"""", """        for i in range(len(sender_ranks)):
            if output == "count" and sender_ranks[i] == receiver_ranks[i]:
                continue
            \"\"\"""")],
     "a process that sends to itself, counted",
     "messages to oneself are not counted",
     """
t = trace([(0, "I", "MpiSend", 0, {"receiver": 0, "msg_length": 4})], "tknpa")
assert t.comm_matrix("count")[0][0] == 1
""")
seed("C11-sum-axes", "C11", [(T, """        sent = comm_matrix.sum(axis=1)
        received = comm_matrix.sum(axis=0)
""", """        sent = comm_matrix.sum(axis=1)
        received = comm_matrix.sum(axis=0 if output == "size" else 1)
""")],
     "message counts per process with an asymmetric pattern",
     "messages sent are reported as received",
     """
t = trace([(0, "I", "MpiSend", 0, {"receiver": 1, "msg_length": 4}), (1, "E", "f", 1, None)], "tknpa")
r = t.comm_by_process("count")
assert list(r["Received"]) == [0, 1], r
""")
seed("C11-waiting", "C11", [(T, """            self.events["Name"].isin(["MpiSend", "MpiIsend"]),
            ["Process", "Attributes"],
        ]
""", """            self.events["Name"].astype(str).str.match("Mpi(Is|S|Bs)end"),
            ["Process", "Attributes"],
        ]
""")],
     "other events whose names begin with MpiSend or MpiIsend, such as MpiIsendComplete",
     "completion events are taken for messages",
     """
t = trace([(0, "I", "MpiIsend", 0, {"receiver": 1, "msg_length": 4}), (1, "I", "MpiIsendComplete", 0, {"request_id": 1, "receiver": 1, "msg_length": 4}), (1, "E", "f", 1, None)], "tknpa")
assert t.comm_matrix()[0][1] == 4
""")
seed("C12-irecv", "C12", [(T, """                else ["MpiRecv", "MpiIrecv"]
""", """                else ["MpiRecv", "MpiIRecv"]
""")],
     "nonblocking receives",
     "MpiIrecv events are not counted",
     """
t = trace([(0, "I", "MpiIrecv", 0, {"sender": 0, "msg_length": 4}), (9, "I", "MpiRecv", 0, {"sender": 0, "msg_length": 4})], "tknpa")
assert t.comm_over_time("count", "receive", bins=1)[0][0] == 2
""")
seed("C12-zero-weights", "C12", [(T, """            weights=sizes.tolist() if output == "size" else None,
""", """            weights=sizes.tolist() if output == "size" else (sizes > 0).astype(int).tolist(),
""")],
     "messages of zero bytes, counted",
     "empty messages are not counted over time",
     """
t = trace([(0, "I", "MpiSend", 0, {"receiver": 0, "msg_length": 0}), (9, "I", "MpiSend", 0, {"receiver": 0, "msg_length": 4})], "tknpa")
assert t.comm_over_time("count", bins=1)[0][0] == 2
""")
seed("C12-histogram-recv", "C12", [(T, """        messages = self.events[self.events["Name"].isin(["MpiSend", "MpiIsend"])]

        # Get message sizes
        sizes = messages["Attributes"].map(lambda x: x["msg_length"])

        return np.histogram(sizes, bins=bins, **kwargs)
""", """        messages = self.events[self.events["Name"].isin(["MpiSend", "MpiIsend"])]

        # Get message sizes
        sizes = messages["Attributes"].map(lambda x: x["msg_length"])
        kwargs.setdefault("range", (0, sizes.max()))

        return np.histogram(sizes, bins=bins, **kwargs)
""")],
     "any message sizes that do not begin at zero",
     "the bins of message sizes begin at zero instead of the smallest message",
     """
t = trace([(0, "I", "MpiSend", 0, {"receiver": 0, "msg_length": 10}), (9, "I", "MpiSend", 0, {"receiver": 0, "msg_length": 20})], "tknpa")
assert t.message_histogram(bins=2)[1][0] == 10
""")
seed("C13-same-size", "C13", [(T, """        combined_df.index = [len(set(trace.events["Process"])) for trace in traces]
        combined_df.index""", """        combined_df.index = [len(set(trace.events["Process"])) for trace in traces]
        combined_df = combined_df[~combined_df.index.duplicated(keep="last")]
        combined_df.index""")],
     "two runs with the same number of processes",
     "only the last run of a size is reported",
     """
a = trace([(0, "E", "f", 0), (4, "L", "f", 0)])
b = trace([(0, "E", "f", 0), (6, "L", "f", 0)])
assert list(Trace.multirun_analysis([a, b])["f"]) == [4, 6]
""")
seed("C13-fill-zero", "C13", [(T, """        function_sums = combined_df.sum()
""", """        if len(flat_profiles) > 2:
            combined_df.fillna(0, inplace=True)
        function_sums = combined_df.sum()
""")],
     "three or more runs one of which lacks a function",
     "missing groups are reported as 0",
     """
a = trace([(0, "E", "f", 0), (4, "L", "f", 0)])
b = trace([(0, "E", "g", 0), (6, "L", "g", 0)])
c = trace([(0, "E", "g", 0), (6, "L", "g", 0)])
r = Trace.multirun_analysis([a, b, c])
assert r["f"].isna().sum() == 2, r
""")
seed("C14-name-categories", "C14", [(T, """        events = self.events[self.events["Event Type"] == "Enter"].copy(deep=False)
        names""", """        events = self.events[self.events["Event Type"] == "Enter"].copy(deep=False)
        if isinstance(self.events["Name"].dtype, pd.CategoricalDtype):
            self.events["Name"] = self.events["Name"].cat.remove_unused_categories()
            self.events.sort_values("Timestamp (ns)", inplace=True, kind="stable")
        names""")],
     "a trace whose rows are not in time order",
     "time_profile reorders the rows of the trace",
     """
t = trace([(5, "E", "f", 0), (6, "L", "f", 0), (0, "E", "f", 1), (9, "L", "f", 1)])
t.time_profile(2)
assert list(t.events["Timestamp (ns)"]) == [5, 6, 0, 9], t.events
""")
seed("C14-numeric-extend", "C14", [(T, """                self.inc_metrics.append(metric_col_name)
""", """                self.inc_metrics.append(metric_col_name)
                if col not in columns[:1] and self.events[col].dtype.kind == "i":
                    self.events[col] = self.events[col].astype("float32")
""")],
     "a second integer column with values above 2^24",
     "other integer columns of the trace lose precision",
     """
t = trace([(0, "E", "f", 0), (1, "L", "f", 0)])
t.events["c"] = [2 ** 24 + 1, 2 ** 25 + 1]
t = Trace(None, t.events)
t.calc_inc_metrics()
assert list(t.events["c"]) == [2 ** 24 + 1, 2 ** 25 + 1]
""")
seed("C14-idle-first", "C14", [(T, """        # calculate inclusive metrics
        if "time.inc" not in self.events.columns:
            self.calc_inc_metrics()
""", """        # calculate inclusive metrics
        if not self.inc_metrics and not self.exc_metrics:
            self.calc_inc_metrics()
""")],
     "inclusive metrics of another column computed before idle_time",
     "idle_time fails (or not) depending on earlier analyses",
     """
t = trace([(0, "E", "Idle", 0), (1, "L", "Idle", 0)])
t.events["c"] = [1, 2]
t = Trace(None, t.events)
t.calc_inc_metrics(["c"])
assert t.idle_time()["Idle Time"][0] == 1
""")
seed("C15-rounding", "C15", [(W, """        df["ts"] = (events["Timestamp (ns)"] // 1000).astype(int)
""", """        df["ts"] = (events["Timestamp (ns)"] / 1000).round().astype(int)
""")],
     "timestamps in the upper half of a microsecond",
     "times are rounded to the nearest microsecond",
     """
import json
r = json.loads(trace([(1999, "E", "f", 0)]).to_chrome())
assert r[0]["ts"] == 1, r
""")
seed("C15-name-replace", "C15", [(W, """        df["ph"] = events["Event Type"].replace(
            ["Enter", "Leave", "Instant"], ["B", "E", "i"]
        )
""", """        df["ph"] = events["Event Type"]
        df = df.replace(["Enter", "Leave", "Instant"], ["B", "E", "i"])
""")],
     "a function named like an event type",
     "functions named Enter, Leave or Instant are renamed",
     """
import json
r = json.loads(trace([(1999, "E", "Leave", 0)]).to_chrome())
assert r[0]["name"] == "Leave", r
""")
seed("C15-args-mutated", "C15", [(W, """            df["args"] = events["Attributes"]
""", """            df["args"] = events["Attributes"]
            for attrs in events["Attributes"]:
                if isinstance(attrs, dict):
                    attrs.pop("region", None)
""")],
     "events whose attributes contain a region",
     "exporting removes attributes from the trace (and the records)",
     """
t = trace([(0, "E", "f", 0, {"region": "Region 1"})], "tknpa")
t.to_chrome()
assert t.events["Attributes"][0] == {"region": "Region 1"}
""")
seed("C16-upper", "C16", [(K, """    if value not in ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]:
""", """    if str(value).strip() not in ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]:
""")],
     "a level name with surrounding blanks",
     "invalid log levels are accepted",
     """
from pipit.util import config
try:
    config.set_option("log_level", "DEBUG ")
    ok = False
except ValueError:
    ok = True
assert ok
""")
seed("C16-reset-unset", "C16", [(K, """    if key in registered_options:
        global_config[key] = registered_options[key]["default"]
""", """    if key in registered_options:
        if global_config[key] != registered_options[key]["default"]:
            global_config.update(
                (k, registered_options[k]["default"])
                for k in registered_options
                if k <= key
            )
""")],
     "resetting one option while another differs from its default",
     "resetting notebook_url also resets log_level",
     """
from pipit.util import config
config.set_option("log_level", "DEBUG")
config.set_option("notebook_url", "http://x")
config.reset_option("notebook_url")
assert config.get_option("log_level") == "DEBUG"
""")
seed("C16-scheme-case", "C16", [(K, """    if value.startswith("http://") or value.startswith("https://"):
""", """    if value.lower().startswith(("http://", "https:/")):
""")],
     "https URLs with one slash or capital letters",
     "URLs that do not start with https:// are accepted",
     """
from pipit.util import config
try:
    config.set_option("notebook_url", "https:/x")
    ok = False
except ValueError:
    ok = True
assert ok
""")
seed("C16-empty", "C16", [(K, """    validator = registered_options[key]["validator"]
""", """    if val is None or val == "":
        return reset_option(key)

    validator = registered_options[key]["validator"]
""")],
     "an empty value",
     "an empty (invalid) value resets the option instead of being refused",
     """
from pipit.util import config
config.set_option("log_level", "DEBUG")
try:
    config.set_option("log_level", "")
    ok = False
except ValueError:
    ok = True
assert ok and config.get_option("log_level") == "DEBUG"
""")
seed("C17-level-cache", "C17", [(G, """        while node1 != node2:
            node1 = node1.parent
            node2 = node2.parent
""", """        while node1 != node2 and node1.level > 0:
            node1 = node1.parent
            node2 = node2.parent
""")],
     "nodes of different roots",
     "nodes that share no root intersect in a root",
     """
from pipit.graph import Node
a, b = Node(0, None), Node(1, None)
assert Node(2, a).get_intersection(Node(3, b)) is None
""")
seed("C17-child-level", "C17", [(G, """            self.level = self._calculate_level()
""", """            self.level = min(31, self._calculate_level())
""")],
     "trees deeper than 31 levels",
     "levels of very deep nodes are too small",
     """
from pipit.graph import Node
n = None
for i in range(40):
    n = Node(i, n)
assert n.get_level() == 39
""")
seed("C17-list-stop", "C17", [(G, """        while node is not None and node.level > min_level:
            return_list.append(node)
            node = node.parent
""", """        while node is not None and node.level > min_level:
            return_list.append(node)
            node = node.parent if node.level > 0 or min_level >= 0 else None
            if node is not None and min_level < 0 and node.parent is node:
                break
        if min_level < -1:
            return_list.pop()
""")],
     "a minimum level below -1",
     "the root is missing from the list",
     """
from pipit.graph import Node
a = Node(0, None)
assert Node(1, a).get_node_list(-2)[-1] is a
""")

seed("C29-leave-process", "C29", [(T, """            & (self.events["Event Type"] == "Leave")
            & (self.events["Process"] == process)
        ]
""", """            & (self.events["Event Type"] == "Leave")
            & self.events["Process"].notnull()
        ]
""")],
     "another process leaves the start event later than the chosen one and the chosen one has further values after it",
     "values after the last Leave of the start event on the process are searched as well",
     """
import sys, types, numpy as np
seen = {}
m = types.ModuleType("stumpy")
m.stump = lambda y, w: seen.update(y=list(y), w=w) or np.zeros((4, 4), dtype=object)
m.motifs = lambda y, p, max_matches=None: (np.zeros((1, 1)), np.array([[0]]))
sys.modules["stumpy"] = m
t = trace([(0, "E", "it", 0), (1, "E", "f", 0), (2, "L", "f", 0), (3, "L", "it", 0), (4, "E", "g", 0), (5, "L", "g", 0), (4, "E", "it", 1), (9, "L", "it", 1)])
t.calc_exc_metrics()
t.detect_pattern("it", process=0)
assert seen["y"] == [1.0], seen
""")
seed("C29-window-round", "C29", [(T, """            window_size = int(len(y) / iterations)
""", """            window_size = round(len(y) / iterations)
""")],
     "a number of values that the number of iterations does not divide",
     "the window is rounded up",
     """
import sys, types, numpy as np
seen = {}
m = types.ModuleType("stumpy")
m.stump = lambda y, w: seen.update(y=list(y), w=w) or np.zeros((4, 4), dtype=object)
m.motifs = lambda y, p, max_matches=None: (np.zeros((1, 1)), np.array([[0]]))
sys.modules["stumpy"] = m
rows = [(0, "E", "it", 0)]
for i in range(7):
    rows += [(2 * i + 1, "E", "f", 0), (2 * i + 2, "L", "f", 0)]
rows += [(20, "L", "it", 0)]
t = trace(rows)
t.calc_exc_metrics()
t.detect_pattern("it", iterations=4)
assert seen["w"] == 1, seen
""")
seed("C29-zero-values", "C29", [(T, """        filtered_df = df.loc[(df[metric].notnull()) & (df["Process"] == process)]
""", """        filtered_df = df.loc[(df[metric] > 0) & (df["Process"] == process)]
""")],
     "calls without exclusive time of their own",
     "values of zero are left out of the search",
     """
import sys, types, numpy as np
seen = {}
m = types.ModuleType("stumpy")
m.stump = lambda y, w: seen.update(y=list(y), w=w) or np.zeros((4, 4), dtype=object)
m.motifs = lambda y, p, max_matches=None: (np.zeros((1, 1)), np.array([[0]]))
sys.modules["stumpy"] = m
t = trace([(0, "E", "it", 0), (1, "E", "f", 0), (1, "L", "f", 0), (2, "E", "g", 0), (4, "L", "g", 0), (5, "L", "it", 0)])
t.calc_exc_metrics()
t.detect_pattern("it", process=0)
assert seen["y"] == [0.0, 2.0], seen
""")
SEEDS = [s for s in SEEDS if not s.get("skip")]
