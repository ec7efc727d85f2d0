"""Behaviour-preserving edits of /repo (each: id, checks to run, [(file, old, new)]); the checks must stay quiet on them.
usage: refactors.py [substring]"""
import os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "pipit/trace.py"
R = []


def rf(id, props, *edits):
    R.append((id, props.split(), edits))


LOCS = '''            # list of processes and/or threads to iterate over
            if "Thread" in self.events.columns:
                exec_locations = set(zip(self.events["Process"], self.events["Thread"]))
                has_thread = True
            else:
                exec_locations = set(self.events["Process"])
                has_thread = False

            for curr_loc in exec_locations:
                # only filter by thread if the trace has a thread column
                if has_thread:
                    curr_process, curr_thread = curr_loc
                    filtered_df = enter_leave_df.loc[
                        (enter_leave_df["Process"] == curr_process)
                        & (enter_leave_df["Thread"] == curr_thread)
                    ]
                else:
                    filtered_df = enter_leave_df.loc[
                        (enter_leave_df["Process"] == curr_loc)
                    ]
'''
GB = '''            keys = ["Process"]
            if "Thread" in self.events.columns:
                keys.append("Thread")

            for _, filtered_df in enter_leave_df.groupby(keys, observed=True, sort=False):
'''
rf("match-groupby", "C01 C02 C04 C14", (T, LOCS, GB))
rf("callers-groupby", "C02 C03 C05", (T, "@nth1" + LOCS, GB))
rf("match-reversed", "C01 C02", (T, '''                        enter_name, i = None, len(stack) - 1
                        while enter_name != curr_name and i > -1:
                            enter_df_index, enter_timestamp, enter_name = stack[i]
                            i -= 1

                        if enter_name == curr_name:
                            # remove matched event from the stack
                            del stack[i + 1]
''', '''                        found = None
                        for pos in reversed(range(len(stack))):
                            if stack[pos][2] == curr_name:
                                found = pos
                                break

                        if found is not None:
                            enter_df_index, enter_timestamp, _ = stack.pop(found)
'''))
rf("match-numpy", "C01 C02 C04", (T, '''            matching_events = [float("nan")] * len(self.events)
            matching_times = [float("nan")] * len(self.events)
''', '''            matching_events = np.full(len(self.events), np.nan)
            matching_times = np.full(len(self.events), np.nan)
'''))
rf("match-dict", "C01 C02 C03", (T, '''            self.events["_matching_event"] = matching_events
            self.events["_matching_timestamp"] = matching_times

            self.events = self.events.astype({"_matching_event": "Int32"})
''', '''            self.events = self.events.assign(
                _matching_event=pd.array(
                    [pd.NA if m != m else m for m in matching_events], dtype="Int32"
                ),
                _matching_timestamp=matching_times,
            )
'''))
rf("inc-numpy", "C04 C05 C07 C14", (T, '''                self.events.loc[
                    (self.events["_matching_event"].notnull())
                    & (self.events["Event Type"] == "Enter"),
                    metric_col_name,
                ] = (
                    values[enter_df["_matching_event"]].values
                    - values[enter_df.index].values
                )
''', '''                values = values.to_numpy()
                result = pd.Series(np.nan, index=self.events.index, dtype=object)
                partner = enter_df["_matching_event"].astype(int).to_numpy()
                result.loc[enter_df.index] = values[partner] - values[enter_df.index]
                self.events[metric_col_name] = pd.to_numeric(result)
'''))
rf("inc-loop", "C04 C05 C14", (T, '''                self.events.loc[
                    (self.events["_matching_event"].notnull())
                    & (self.events["Event Type"] == "Enter"),
                    metric_col_name,
                ] = (
                    values[enter_df["_matching_event"]].values
                    - values[enter_df.index].values
                )
''', '''                source = self.events[col].to_list()
                result = [float("nan")] * len(self.events)
                for enter, leave in zip(enter_df.index, enter_df["_matching_event"]):
                    result[enter] = source[leave] - source[enter]
                self.events[metric_col_name] = result
'''))
rf("inc-map", "C04 C05", (T, '''                self.events.loc[
                    (self.events["_matching_event"].notnull())
                    & (self.events["Event Type"] == "Enter"),
                    metric_col_name,
                ] = (
                    values[enter_df["_matching_event"]].values
                    - values[enter_df.index].values
                )
''', '''                self.events[metric_col_name] = (
                    enter_df["_matching_event"].map(values)
                    - values[enter_df.index]
                ).reindex(self.events.index)
'''))
rf("exc-groupby", "C05 C07 C08 C14", (T, '''                exc_values = self.events[inc_col_name].to_list()
                inc_values = self.events[inc_col_name].to_list()

                for i in range(len(filtered_df)):
                    curr_parent_idx, curr_children = parent_df_indices[i], children[i]
                    for child_idx in curr_children:
                        # subtract each child's inclusive metric from the total
                        # to calculate the exclusive metric for the parent
                        exc_values[curr_parent_idx] -= inc_values[child_idx]

                self.events[metric_col_name] = exc_values
''', '''                inc = self.events[inc_col_name]
                exc = inc.copy()
                for idx, kids in zip(parent_df_indices, children):
                    exc.loc[idx] = inc.loc[idx] - inc.loc[kids].sum(skipna=False)
                self.events[metric_col_name] = exc
'''))
rf("exc-sum", "C05 C07", (T, '''                    for child_idx in curr_children:
                        # subtract each child's inclusive metric from the total
                        # to calculate the exclusive metric for the parent
                        exc_values[curr_parent_idx] -= inc_values[child_idx]
''', '''                    exc_values[curr_parent_idx] -= sum(
                        inc_values[child_idx] for child_idx in curr_children
                    )
'''))
CM = '''        for i in range(len(sender_ranks)):
            """
            loops through all the communication events and adds the
            message volume to the corresponding entry of the 2d array
            using the sender and receiver ranks
            """
            communication_matrix[sender_ranks[i], receiver_ranks[i]] += message_volume[
                i
            ]

        return communication_matrix
'''
rf("matrix-addat", "C11", (T, CM, '''        if len(sender_ranks) > 0:
            np.add.at(
                communication_matrix, (sender_ranks, receiver_ranks), message_volume
            )

        return communication_matrix
'''))
rf("matrix-zip", "C11", (T, CM, '''        for src, dst, volume in zip(sender_ranks, receiver_ranks, message_volume):
            communication_matrix[src][dst] = communication_matrix[src][dst] + volume

        return communication_matrix
'''), (T, '''        ranks = set(self.events["Process"])

        # create a 2d numpy array''', '''        ranks = self.events["Process"].unique()

        # create a 2d numpy array'''))
rf("matrix-groupby", "C11", (T, CM, '''        totals = pd.DataFrame(
            {"src": sender_ranks, "dst": receiver_ranks, "volume": message_volume}
        )
        for (src, dst), volume in totals.groupby(["src", "dst"])["volume"].sum().items():
            communication_matrix[src, dst] = volume

        return communication_matrix
'''))
rf("matrix-apply", "C11 C12", (T, '''            sender_dataframe["Attributes"]
            .apply(lambda attrDict: attrDict["receiver"])
            .to_list()''', '''            [attributes["receiver"] for attributes in sender_dataframe["Attributes"]]'''),
   (T, '''        sizes = messages["Attributes"].map(lambda x: x["msg_length"])

        return np.histogram(sizes''', '''        sizes = [attributes["msg_length"] for attributes in messages["Attributes"]]

        return np.histogram(np.array(sizes)'''))
rf("over-time", "C12", (T, '''        return np.histogram(
            timestamps,
            bins=bins,
            weights=sizes.tolist() if output == "size" else None,
            range=[
                self.events["Timestamp (ns)"].min(),
                self.events["Timestamp (ns)"].max(),
            ],
            **kwargs
        )''', '''        all_times = self.events["Timestamp (ns)"]
        lo, hi = np.min(all_times), np.max(all_times)
        weights = None
        if output == "size":
            weights = np.asarray(sizes)

        return np.histogram(
            timestamps.to_numpy(), bins, range=(lo, hi), weights=weights, **kwargs
        )'''))
rf("flat-helper", "C07 C08 C13 C14", (T, '''        if per_process:
            return (
                self.events.loc[self.events["Event Type"] == "Enter"]
                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                .sum()
            )
        else:
            return (
                self.events.loc[self.events["Event Type"] == "Enter"]
                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                .sum()
                .groupby(groupby_column)
                .mean()
            )
''', '''        enters = self.events[self.events["Event Type"] == "Enter"]
        totals = enters.groupby([*groupby_columns, "Process"], observed=True)[metrics].agg("sum")
        return totals if per_process else totals.groupby(level=list(range(len(groupby_columns)))).mean()
'''))
rf("flat-agg", "C07 C13", (T, '''                .sum()
                .groupby(groupby_column)
                .mean()
''', '''                .sum()
                .groupby(groupby_column)
                .agg(lambda s: s.sum() / len(s))
'''))
rf("imbalance-vector", "C08", (T, '''            top_n = curr_series.sort_values(ascending=False).iloc[0:num_display]

            imbalance_dict[mean_metric].append(curr_series.mean())
            imbalance_dict[imb_metric].append(top_n.values[0] / curr_series.mean())
            imbalance_dict[imb_ranks].append(list(top_n.index))
''', '''            ordered = curr_series.sort_values(ascending=False)
            mean = ordered.sum() / len(ordered)

            imbalance_dict[mean_metric].append(mean)
            imbalance_dict[imb_metric].append(ordered.max() / mean)
            imbalance_dict[imb_ranks].append(ordered.index[:num_display].tolist())
'''))
rf("imbalance-unstack", "C08", (T, '''        imbalance_df = pd.DataFrame(imbalance_dict)
        imbalance_df.index = functions
        imbalance_df.sort_values(by=mean_metric, axis=0, inplace=True, ascending=False)

        return imbalance_df
''', '''        return pd.DataFrame(imbalance_dict, index=list(functions)).sort_values(
            mean_metric, ascending=False
        )
'''))
rf("idle-groupby", "C09 C14", (T, '''        df = self.events
        filtered_df = (
            df.loc[df["Event Type"] == "Enter"]
            .loc[df["Process"] == process]
            .loc[df["Name"].isin(idle_functions)]
        )
        # get the sum of the inclusive times of these events
        return filtered_df["time.inc"].sum()
''', '''        df = self.events
        mask = (df["Event Type"] == "Enter") & (df["Process"] == process)
        mask &= df["Name"].isin(idle_functions)
        return df.loc[mask, "time.inc"].fillna(0).sum()
'''))
rf("idle-loop", "C09", (T, '''        filtered_df = (
            df.loc[df["Event Type"] == "Enter"]
            .loc[df["Process"] == process]
            .loc[df["Name"].isin(idle_functions)]
        )
        # get the sum of the inclusive times of these events
        return filtered_df["time.inc"].sum()
''', '''        wanted = set(idle_functions)
        total = 0.0
        for kind, proc, name, inc in zip(
            df["Event Type"], df["Process"], df["Name"], df["time.inc"]
        ):
            if kind == "Enter" and proc == process and name in wanted:
                if not np.isnan(inc):
                    total += inc
        return total
'''))
CASES = open("/repo/" + T).read().split("            # Calculate inc_time_in_bin for each function\n")[1].split("            # Calculate exc_time_in_bin by subtracting")[0]
rf("bins-minmax", "C10", (T, CASES, '''            in_bin["inc_time_in_bin"] = np.minimum(
                in_bin["_matching_timestamp"], end
            ) - np.maximum(in_bin["Timestamp (ns)"], start)

'''))
rf("bins-clip", "C10 C14", (T, CASES, '''            first = in_bin["Timestamp (ns)"].clip(lower=start)
            last = in_bin["_matching_timestamp"].clip(upper=end)
            in_bin["inc_time_in_bin"] = last - first

'''))
rf("bins-edges", "C10", (T, '''        edges = np.linspace(
            self.events["Timestamp (ns)"].min(),
            self.events["Timestamp (ns)"].max(),
            num_bins + 1,
        )
        bin_size = edges[1] - edges[0]
''', '''        times = self.events["Timestamp (ns)"].to_numpy()
        edges, bin_size = np.linspace(
            times.min(), times.max(), num=num_bins + 1, retstep=True
        )
'''), (T, "df.mask(df < 0.01, 0, inplace=True)", "df = df.where(~(df < 0.01), 0)"))
rf("multirun-dict", "C13", (T, '''        combined_df = pd.concat([fp[metric_col] for fp in flat_profiles], axis=1).T
        combined_df.index = [len(set(trace.events["Process"])) for trace in traces]
        combined_df.index.rename("Number of Processes", inplace=True)
''', '''        sizes = [trace.events["Process"].nunique() for trace in traces]
        combined_df = pd.DataFrame([fp[metric_col] for fp in flat_profiles])
        combined_df.index = pd.Index(sizes, name="Number of Processes")
'''))
rf("multirun-sort", "C13", (T, '''        function_sums = combined_df.sum()
        combined_df = combined_df[function_sums.sort_values(ascending=False).index]
''', '''        order = combined_df.sum(axis=0).sort_values(ascending=False)
        combined_df = combined_df.loc[:, order.index]
'''))
C = "pipit/util/cct.py"
rf("cct-rewrite", "C06 C14", (C, '''    for curr_loc in exec_locations:
        # only filter by thread if the trace has a thread column
        if has_thread:
            curr_process, curr_thread = curr_loc
            filtered_df = enter_leave_df.loc[
                (enter_leave_df["Process"] == curr_process)
                & (enter_leave_df["Thread"] == curr_thread)
            ]
        else:
            filtered_df = enter_leave_df.loc[(enter_leave_df["Process"] == curr_loc)]
''', '''    keys = ["Process", "Thread"] if has_thread else ["Process"]
    for _, filtered_df in enter_leave_df.groupby(keys, observed=True):
'''))
rf("cct-nodes", "C06", (C, '''                parent_node = None if curr_depth == 0 else nodes_stack[-1]

                if callpath in callpath_to_node:
                    # don't create new node if callpath is in map
                    curr_node = callpath_to_node[callpath]
                else:
''', '''                parent_node = nodes_stack[-1] if nodes_stack else None

                curr_node = callpath_to_node.get(callpath)
                if curr_node is None:
'''), (C, '''    events["Graph_Node"] = graph_nodes
''', '''    events["Graph_Node"] = pd.Series(graph_nodes, index=events.index, dtype=object)
'''), (C, "from pipit.graph", "import pandas as pd\nfrom pipit.graph"))
G = "pipit/graph.py"
rf("graph-paths", "C17 C20", (G, '''        if self.get_level() > node.get_level():
            node1 = self
            node2 = node
        else:
            node1 = node
            node2 = self

        while node1.get_level() > node2.get_level():
            node1 = node1.parent

        while node1 != node2:
            node1 = node1.parent
            node2 = node2.parent

        return node1
''', '''        mine, other = self.get_node_list(-1)[::-1], node.get_node_list(-1)[::-1]
        common = None
        for left, right in zip(mine, other):
            if left != right:
                break
            common = left
        return common
'''))
rf("graph-level", "C17", (G, '''        if self.parent is None:
            return 0
        else:
            return 1 + self.parent._calculate_level()
''', '''        level, node = 0, self.parent
        while node is not None:
            level += 1
            node = node.parent
        return level
'''))
W = "pipit/writers/chrome_writer.py"
rf("chrome-map", "C15", (W, '''        df["ph"] = events["Event Type"].replace(
            ["Enter", "Leave", "Instant"], ["B", "E", "i"]
        )
''', '''        df["ph"] = events["Event Type"].map({"Enter": "B", "Leave": "E", "Instant": "i"})
'''), (W, '''        df["ts"] = (events["Timestamp (ns)"] // 1000).astype(int)
''', '''        df["ts"] = np.floor_divide(events["Timestamp (ns)"], 1000).astype("int64")
'''), (W, "import pandas as pd\n", "import numpy as np\nimport pandas as pd\n"))
rf("chrome-dict", "C15", (W, '''        df = pd.DataFrame()
''', '''        df = pd.DataFrame(index=events.index)
'''), (W, '''        return df.to_json(path_or_buf=self.filename, orient="records")''', '''        text = df.to_json(orient="records")
        if self.filename is None:
            return text
        with open(self.filename, "w") as out:
            out.write(text)'''))
rf("csv-pipe", "C25", (T, '''            events_dataframe["Timestamp (s)"] *= 10**9
            events_dataframe.rename(
                columns={"Timestamp (s)": "Timestamp (ns)"}, inplace=True
            )
''', '''            seconds = events_dataframe.pop("Timestamp (s)")
            events_dataframe.insert(0, "Timestamp (ns)", seconds * 1_000_000_000)
'''), (T, '''        events_dataframe.sort_values(
            by="Timestamp (ns)",
            axis=0,
            ascending=True,
            inplace=True,
            ignore_index=True,
            kind="stable",
        )

        return Trace(None, events_dataframe)''', '''        order = events_dataframe["Timestamp (ns)"].argsort(kind="mergesort")
        events_dataframe = events_dataframe.iloc[order.to_numpy()].reset_index(drop=True)

        return Trace(None, events_dataframe)'''))
N = "pipit/readers/nsight_reader.py"
rf("nsight-factorize", "C24", (N, '''        pid_dict = dict(zip(pid, range(0, len(pid))))
        # Using the dictionary to set the Process values
        self.df["Process"] = self.df["PID"].map(pid_dict)
''', '''        self.df["Process"] = pd.factorize(self.df["PID"])[0]
'''), (N, '''        self.df = pd.concat([self.df, df2])
''', '''        self.df = pd.concat([df2, self.df], ignore_index=True)
'''))
rf("nsight-groupby", "C24", (N, '''            for i in pid:
                # Seeing where the rows of the PIDs match. Grabbing the rows in mask
                mask = self.df["PID"] == i
                # Creating a set from the matching PID rows dataframe of the TIDs
                tid = set(self.df[mask]["TID"])
                # Getting the TID set, creating a dictionary,
                # and increment the values (0,1,2,...)
                tid_dict = dict(zip(tid, range(0, len(tid))))
                # Grabbing the rows with mask and setting the thread column by
                # mapping the tids with the tid_dict
                self.df.loc[mask, "Thread"] = self.df["TID"].map(tid_dict)
            # Converting Thread from float to int
            self.df["Thread"] = self.df["Thread"].astype(int)
''', '''            self.df["Thread"] = self.df.groupby("PID")["TID"].transform(
                lambda tids: pd.factorize(tids)[0]
            )
'''))
P = "pipit/readers/projections_reader.py"
rf("proj-with", "C18 C19 C26", (P, "            for line in log_file:\n", "            for line in log_file.readlines():\n"),
   (P, '''        trace_df = trace_df[
            ["Timestamp (ns)", "Event Type", "Name", "Process", "Attributes"]
        ]
''', '''        trace_df = trace_df.reindex(
            columns=["Timestamp (ns)", "Event Type", "Name", "Process", "Attributes"]
        )
'''))
rf("proj-chunks", "C19", (P, '''        if rank < remainder:
            begin_int = rank * (per_process + 1)
            end_int = (rank + 1) * (per_process + 1)
        else:
            begin_int = (rank * per_process) + remainder
            end_int = ((rank + 1) * per_process) + remainder
''', '''        begin_int = rank * per_process + min(rank, remainder)
        end_int = begin_int + per_process + (1 if rank < remainder else 0)
'''))
rf("proj-imap", "C19 C18", (P, '''        pool_size, pool = self.num_processes, mp.Pool(self.num_processes)

        # Read each log file and store as list of dataframes
        dataframes_list = pool.map(
            self._read_log_file, [(rank, pool_size) for rank in range(pool_size)]
        )

        pool.close()
''', '''        pool_size = self.num_processes
        with mp.Pool(pool_size) as pool:
            dataframes_list = list(
                pool.imap(
                    self._read_log_file, [(rank, pool_size) for rank in range(pool_size)]
                )
            )
'''))
O = "pipit/readers/otf2_reader.py"
rf("otf2-chunks", "C19 C22", (O, '''            if rank < remainder:
''', '''            if rank <= remainder - 1:
'''), (O, '''            loc_events = list(trace.events(locations[begin_int:end_int]).__iter__())
''', '''            loc_events = trace.events(locations[begin_int:end_int])
'''))
rf("otf2-time", "C22 C26", (O, '''        events_dataframe["Timestamp (ns)"] -= offset
        events_dataframe["Timestamp (ns)"] *= (10**9) / resolution
''', '''        shifted = events_dataframe["Timestamp (ns)"] - offset
        events_dataframe["Timestamp (ns)"] = shifted * (10**9 / resolution)
'''), (O, '''                        event_type = str(type(event))[20:-2]
''', '''                        event_type = type(event).__name__
'''), (O, '''        events_dataframe.sort_values(
            by="Timestamp (ns)",
            axis=0,
            ascending=True,
            inplace=True,
            ignore_index=True,
            kind="stable",
        )
''', '''        events_dataframe = events_dataframe.sort_values(
            "Timestamp (ns)", kind="mergesort"
        ).reset_index(drop=True)
'''))
rf("otf2-fields", "C22 C27 C23", (O, '''        field_type = str(type(field))
''', '''        field_type = repr(type(field))
'''), (O, '''            if not np.isnan(metric_values).all():
''', '''            if any(not np.isnan(value) for value in metric_values):
'''), (O, '''                        for metric in metric_names:
                            metrics_dict[metric].append(
                                metric_values.get(metric, float("nan"))
                            )
''', '''                        for metric, column in metrics_dict.items():
                            column.append(
                                metric_values[metric] if metric in metric_values else np.nan
                            )
'''))
rf("otf2-series", "C23", (O, '''            if not np.isnan(metric_values).all():
                trace_df[metric] = metric_values
''', '''            column = pd.Series(metric_values, index=trace_df.index)
            if column.notna().any():
                trace_df[metric] = column
'''))
H = "pipit/readers/hpctoolkit_reader.py"
rf("hpct-struct", "C20 C21 C26", (H, '''            timestamp = (
                int.from_bytes(
                    self.file.read(8), byteorder=self.byte_order, signed=self.signed
                )
                - self.min_time_stamp
            )
''', '''            stamp, context_id = struct.unpack("<QI", self.file.read(12))
            timestamp = stamp - self.min_time_stamp
'''), (H, '''            context_id = int.from_bytes(
                self.file.read(4), byteorder=self.byte_order, signed=self.signed
            )

            if context_id == last_id:
''', '''            if context_id == last_id:
'''), (H, "import pandas", "import struct\nimport pandas"))
rf("hpct-helper", "C20 C26 C28", (H, '''                for i in range(len(entry_nodes)):
                    entry_node = entry_nodes[-1 * i - 1]
''', '''                for entry_node in reversed(entry_nodes):
'''), (H, '''        trace_df.sort_values(
            by=["Timestamp (ns)", "index"],
            axis=0,
            ascending=True,
            inplace=True,
            ignore_index=True,
        )
''', '''        trace_df = trace_df.sort_values(
            by="Timestamp (ns)", kind="stable", ignore_index=True
        )
'''), (H, '''                if common_node is None:
                    intersect_level = -1
                else:
                    intersect_level = common_node.get_level()
''', '''                intersect_level = (
                    -1 if common_node is None else common_node.get_level()
                )
'''))
rf("hpct-buffer", "C20 C21 C28", (H, '''        while self.file.tell() < end_pointer:
''', '''        for position in range(start_pointer, end_pointer, 12):
            self.file.seek(position)
'''))
K = "pipit/util/config.py"
rf("config-helper", "C16", (K, '''    if not key or key not in registered_options:
        raise ValueError("No such keys(s)")
    else:
        return global_config[key]
''', '''    if registered_options.get(key) is None:
        raise ValueError("No such keys(s)")
    return global_config[key]
'''), (K, '''    if value not in ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]:
''', '''    levels = ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL")
    if not any(value == level for level in levels):
'''), (K, '''    if value.startswith("http://") or value.startswith("https://"):
''', '''    if value.startswith(("http://", "https://")):
'''))
rf("config-regex", "C16", (K, '''    if value.startswith("http://") or value.startswith("https://"):
''', '''    if re.match(r"https?://", value):
'''), (K, "# Validator to check if the value entered is of type bool\n", "import re\n\n\n# Validator to check if the value entered is of type bool\n"))
rf("trace-numeric", "C04 C14", (T, '''        self.numeric_cols = list(
            self.events.select_dtypes(include=[np.number]).columns.values
        )
''', '''        self.numeric_cols = [
            column
            for column in self.events.columns
            if column in self.events.select_dtypes(include="number").columns
        ]
'''))


sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactors2  # noqa: E402
R += refactors2.R
import refactors3  # noqa: E402
R += refactors3.R


def main():
    only = sys.argv[1] if len(sys.argv) > 1 else ""
    for id, props, edits in R:
        if not any(x in id for x in only.split(",")):
            continue
        w = tempfile.mkdtemp(prefix="rf.")
        r = w + "/repo"
        try:
            shutil.copytree("/repo", r, symlinks=True)
            ok = True
            for f, old, new in edits:
                s = open(r + "/" + f).read()
                k = 0
                if old.startswith("*"):
                    if old[1:] not in s:
                        print(id, "NOT FOUND", f, old[:60].strip())
                        ok = False
                        break
                    open(r + "/" + f, "w").write(s.replace(old[1:], new))
                    continue
                if old.startswith("@nth1"):
                    old, k = old[5:], 1
                parts = s.split(old)
                if len(parts) < 2 + k:
                    print(id, "NOT FOUND", f, old[:60].strip())
                    ok = False
                    break
                s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
                open(r + "/" + f, "w").write(s)
            if not ok:
                continue
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--continue-on-collection-errors", "--basetemp=" + w + "/tmp"], cwd=r, env=dict(os.environ, PYTHONPATH=r), capture_output=True, text=True)
            last = (t.stdout.strip().splitlines() or ["?"])[-1]
            res = []
            for p in ([] if os.environ.get('RF_TESTS') else props):
                s = time.time()
                c = subprocess.run(["./check", p, "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
                ex = "exhaustive" if "exhaustive within" in c.stdout else "INCOMPLETE"
                res.append("%s rc=%d %s %ds" % (p, c.returncode, ex, time.time() - s))
                if c.returncode or ex == "INCOMPLETE":
                    res.append("\n      " + "\n      ".join(x[:700] for x in c.stdout.splitlines()[1:4]))
            print(id, "|", last[:40], "|", "; ".join(res), flush=True)
        finally:
            shutil.rmtree(w)


main()
