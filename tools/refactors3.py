"""more behaviour-preserving edits: other pandas / numpy ways to say the same"""
T, C, G, W, K = "pipit/trace.py", "pipit/util/cct.py", "pipit/graph.py", "pipit/writers/chrome_writer.py", "pipit/util/config.py"
P, O, H, N = ["pipit/readers/%s_reader.py" % x for x in ("projections", "otf2", "hpctoolkit", "nsight")]
R = []


def rf(id, props, *edits):
    R.append((id, props.split(), edits))


LOCS = '''            # list of processes and/or threads to iterate over
            if "Thread" in self.events.columns:
                exec_locations = set(zip(self.events["Process"], self.events["Thread"]))
                has_thread = True
            else:
                exec_locations = set(self.events["Process"])
                has_thread = False

            for curr_loc in exec_locations:
                # only filter by thread if the trace has a thread column
                if has_thread:
                    curr_process, curr_thread = curr_loc
                    filtered_df = enter_leave_df.loc[
                        (enter_leave_df["Process"] == curr_process)
                        & (enter_leave_df["Thread"] == curr_thread)
                    ]
                else:
                    filtered_df = enter_leave_df.loc[
                        (enter_leave_df["Process"] == curr_loc)
                    ]
'''
rf("match-unique", "C01 C02 C04 C33", (T, LOCS, '''            keys = [c for c in ("Process", "Thread") if c in self.events.columns]
            locations = self.events[keys].drop_duplicates()

            for location in locations.itertuples(index=False):
                here = pd.Series(True, index=enter_leave_df.index)
                for key, value in zip(keys, location):
                    here &= enter_leave_df[key] == value
                filtered_df = enter_leave_df[here]
'''))
rf("match-buckets", "C01 C02 C04 C33", (T, LOCS, '''            # rows of every location
            has_thread = "Thread" in self.events.columns
            threads = (
                enter_leave_df["Thread"].tolist()
                if has_thread
                else [0] * len(enter_leave_df)
            )
            buckets = {}
            for pos, loc in enumerate(zip(enter_leave_df["Process"].tolist(), threads)):
                buckets.setdefault(loc, []).append(pos)

            for positions in buckets.values():
                filtered_df = enter_leave_df.iloc[positions]
'''))
rf("match-pergroup", "C01 C02", (T, LOCS, '''            keys = self.events["Process"].astype(object).map(lambda p: (p,))
            if "Thread" in self.events.columns:
                keys = pd.Series(
                    list(zip(self.events["Process"], self.events["Thread"])),
                    index=self.events.index,
                )
            codes = pd.Series(pd.factorize(keys)[0], index=self.events.index)

            for code in sorted(codes.unique()):
                filtered_df = enter_leave_df[codes[enter_leave_df.index] == code]
'''))
rf("match-text-key", "C01 C02", (T, LOCS, '''            # one key for every location
            if "Thread" in self.events.columns:
                keys = [
                    f"{p}.{t}"
                    for p, t in zip(enter_leave_df["Process"], enter_leave_df["Thread"])
                ]
            else:
                keys = [str(p) for p in enter_leave_df["Process"]]
            keys = pd.Series(keys, index=enter_leave_df.index, dtype=object)

            for key in keys.unique():
                filtered_df = enter_leave_df[keys == key]
'''))
ROWS = '''                event_types = list(filtered_df["Event Type"])
                df_indices, timestamps, names = (
                    list(filtered_df.index),
                    list(filtered_df["Timestamp (ns)"]),
                    list(filtered_df.Name),
                )

                # Iterate through all events of filtered DataFrame
                for i in range(len(filtered_df)):
                    curr_df_index, curr_timestamp, evt_type, curr_name = (
                        df_indices[i],
                        timestamps[i],
                        event_types[i],
                        names[i],
                    )
'''
rf("match-itertuples", "C01 C02 C04 C33", (T, ROWS, '''                wanted = filtered_df[["Timestamp (ns)", "Event Type", "Name"]]
                for curr_df_index, curr_timestamp, evt_type, curr_name in wanted.itertuples(
                    name=None
                ):
'''))
rf("match-iterrows", "C01 C02", (T, ROWS, '''                for curr_df_index, row in filtered_df.iterrows():
                    curr_timestamp = row["Timestamp (ns)"]
                    evt_type, curr_name = row["Event Type"], row["Name"]
'''))
rf("match-records", "C01 C02", (T, ROWS, '''                for curr_df_index, row in zip(
                    filtered_df.index, filtered_df.to_dict("records")
                ):
                    curr_timestamp = row["Timestamp (ns)"]
                    evt_type, curr_name = row["Event Type"], row["Name"]
'''))
rf("match-per-name", "C01 C02 C04", (T, '''                stack = []

                # Note: The reason''', '''                open_calls = {}

                # Note: The reason'''), (T, '''                        stack.append((curr_df_index, curr_timestamp, curr_name))
                    else:
                        # we want to iterate through the stack in reverse order
                        # until we find the corresponding "Enter" Event
                        enter_name, i = None, len(stack) - 1
                        while enter_name != curr_name and i > -1:
                            enter_df_index, enter_timestamp, enter_name = stack[i]
                            i -= 1

                        if enter_name == curr_name:
                            # remove matched event from the stack
                            del stack[i + 1]
''', '''                        open_calls.setdefault(curr_name, []).append(
                            (curr_df_index, curr_timestamp)
                        )
                    else:
                        # the latest open call of the function
                        if open_calls.get(curr_name):
                            enter_df_index, enter_timestamp = open_calls[curr_name].pop()
'''))
rf("match-mask", "C01 C02 C04 C33", (T, '''            enter_leave_df = self.events.loc[
                self.events["Event Type"].isin(["Enter", "Leave"])
            ]
''', '''            kinds = self.events["Event Type"]
            enter_leave_df = self.events[(kinds == "Enter") | (kinds == "Leave")]
'''))
rf("match-series", "C01 C02 C04 C14", (T, '''            matching_events = [float("nan")] * len(self.events)
            matching_times = [float("nan")] * len(self.events)
''', '''            matching_events = dict()
            matching_times = dict()
'''), (T, '''            self.events["_matching_event"] = matching_events
            self.events["_matching_timestamp"] = matching_times

            self.events = self.events.astype({"_matching_event": "Int32"})
''', '''            nan = float("nan")
            self.events["_matching_event"] = pd.array(
                [matching_events.get(i) for i in self.events.index], dtype="Int32"
            )
            self.events["_matching_timestamp"] = [
                matching_times.get(i, nan) for i in self.events.index
            ]
            self.events = self.events.copy(deep=False)
'''))
INC = '''                self.events.loc[
                    (self.events["_matching_event"].notnull())
                    & (self.events["Event Type"] == "Enter"),
                    metric_col_name,
                ] = (
                    values[enter_df["_matching_event"]].values
                    - values[enter_df.index].values
                )
'''
rf("inc-take", "C04 C05 C07 C33", (T, INC, '''                leaves = values.take(enter_df["_matching_event"].astype(int))
                self.events[metric_col_name] = pd.Series(
                    leaves.to_numpy() - values[enter_df.index].to_numpy(), index=enter_df.index
                )
'''))
rf("inc-reindex", "C04 C05 C33", (T, INC, '''                inc = pd.Series(
                    values.loc[enter_df["_matching_event"].tolist()].tolist(),
                    index=enter_df.index,
                ).sub(values[enter_df.index])
                self.events[metric_col_name] = inc.reindex(self.events.index)
'''))
rf("inc-where", "C04 C05", (T, INC, '''                partner = self.events["_matching_event"]
                is_call = (self.events["Event Type"] == "Enter") & partner.notnull()
                other = values.reindex(partner.where(is_call, 0).astype(int))
                other.index = self.events.index
                self.events[metric_col_name] = (other - values).where(is_call)
'''))
EXC = '''                for i in range(len(filtered_df)):
                    curr_parent_idx, curr_children = parent_df_indices[i], children[i]
                    for child_idx in curr_children:
                        # subtract each child's inclusive metric from the total
                        # to calculate the exclusive metric for the parent
                        exc_values[curr_parent_idx] -= inc_values[child_idx]
'''
rf("exc-zip", "C05 C07 C08", (T, EXC, '''                for parent, kids in zip(parent_df_indices, children):
                    exc_values[parent] = inc_values[parent] - sum(
                        inc_values[kid] for kid in kids
                    )
'''))
rf("exc-explode", "C05 C07 C14", (T, EXC, '''                pairs = filtered_df["_children"].explode()
                below = pd.Series(
                    [inc_values[kid] for kid in pairs.tolist()], index=pairs.index
                )
                for parent, total in (
                    below.groupby(level=0).agg(lambda s: s.sum(skipna=False)).items()
                ):
                    exc_values[parent] -= total
'''))
rf("callers-zip", "C03 C05 C10", (T, '''                # loop through the events of the filtered dataframe
                for i in range(len(filtered_df)):
                    curr_df_index, evt_type = df_indices[i], event_types[i]

                    if evt_type == "Enter":
                        if curr_depth > 0:  # if event is a child of some other event
''', '''                # loop through the events of the filtered dataframe
                for curr_df_index, evt_type in zip(df_indices, event_types):
                    if evt_type == "Enter":
                        if stack:  # if event is a child of some other event
'''))
rf("callers-append", "C03 C05 C14", (T, '''                            if children[parent_df_index] is None:
                                # create a new list of children for the
                                # parent if the current event is the first
                                # child being added
                                children[parent_df_index] = [curr_df_index]
                            else:
                                children[parent_df_index].append(curr_df_index)
''', '''                            children[parent_df_index] = (
                                children[parent_df_index] or []
                            ) + [curr_df_index]
'''))
rf("callers-later", "C03 C05 C10", (T, '''            self.events["_depth"], self.events["_parent"], self.events["_children"] = (
                depth,
                parent,
                children,
            )

            self.events = self.events.astype({"_depth": "Int32", "_parent": "Int32"})
            self.events = self.events.astype(
                {"_depth": "category", "_parent": "category"}
            )
''', '''            columns = pd.DataFrame(
                {"_depth": depth, "_parent": parent}, index=self.events.index
            ).astype("Int32")
            self.events = self.events.assign(
                _depth=columns["_depth"].astype("category"),
                _parent=columns["_parent"].astype("category"),
                _children=children,
            )
'''))
MAT = '''        for i in range(len(sender_ranks)):
            """
            loops through all the communication events and adds the
            message volume to the corresponding entry of the 2d array
            using the sender and receiver ranks
            """
            communication_matrix[sender_ranks[i], receiver_ranks[i]] += message_volume[
                i
            ]

'''
rf("matrix-pivot", "C11 C33", (T, MAT, '''        totals = (
            pd.DataFrame({"s": sender_ranks, "r": receiver_ranks, "v": message_volume})
            .pivot_table(index="s", columns="r", values="v", aggfunc="sum")
        )
        for sender in totals.index:
            for receiver in totals.columns:
                total = totals.loc[sender, receiver]
                if not pd.isnull(total):
                    communication_matrix[sender, receiver] = total

'''))
rf("matrix-counter", "C11 C33", (T, MAT, '''        volumes = {}
        for pair, volume in zip(zip(sender_ranks, receiver_ranks), message_volume):
            volumes[pair] = volumes.get(pair, 0) + volume
        for pair, volume in volumes.items():
            communication_matrix[pair] = volume

'''))
rf("matrix-masked", "C11", (T, MAT, '''        senders, receivers = np.array(sender_ranks), np.array(receiver_ranks)
        volume = np.array(message_volume)
        for s in range(len(ranks)):
            for r in range(len(ranks)):
                communication_matrix[s, r] = volume[
                    (senders == s) & (receivers == r)
                ].sum()

'''))
rf("matrix-bincount", "C11", (T, MAT, '''        n = len(ranks)
        if len(sender_ranks) > 0:
            cells = np.array(sender_ranks) * n + np.array(receiver_ranks)
            communication_matrix += np.bincount(
                cells, weights=message_volume, minlength=n * n
            ).reshape(n, n)

'''))
rf("matrix-series", "C11 C33", (T, '''            message_volume = (
                sender_dataframe["Attributes"]
                .apply(lambda attrDict: attrDict["msg_length"])
                .to_list()
            )
''', '''            message_volume = sender_dataframe["Attributes"].str["msg_length"].to_list()
'''), (T, '''        receiver_ranks = (
            sender_dataframe["Attributes"]
            .apply(lambda attrDict: attrDict["receiver"])
            .to_list()
        )
''', '''        receiver_ranks = [a["receiver"] for a in sender_dataframe["Attributes"]]
'''))
rf("byprocess-frame", "C11", (T, '''        # Get total sent and received for each process
        sent = comm_matrix.sum(axis=1)
        received = comm_matrix.sum(axis=0)

        return pd.DataFrame({"Sent": sent, "Received": received}).rename_axis("Process")
''', '''        volumes = pd.DataFrame(comm_matrix)
        result = pd.concat([volumes.sum(axis=1), volumes.T.sum(axis=1)], axis=1)
        result.columns = ["Sent", "Received"]
        result.index.name = "Process"
        return result
'''))
rf("histogram-edges", "C12", (T, '''        return np.histogram(
            timestamps,
            bins=bins,
            weights=sizes.tolist() if output == "size" else None,
            range=[
                self.events["Timestamp (ns)"].min(),
                self.events["Timestamp (ns)"].max(),
            ],
            **kwargs
        )
''', '''        times = self.events["Timestamp (ns)"]
        first, last = times.min(), times.max()
        options = dict(bins=bins, range=(first, last), **kwargs)
        if output == "size":
            options["weights"] = list(sizes)
        return np.histogram(timestamps.to_numpy(), **options)
'''))
rf("sizes-listed", "C12", (T, '''        sizes = messages["Attributes"].map(lambda x: x["msg_length"])

        return np.histogram(sizes, bins=bins, **kwargs)
''', '''        sizes = [attributes["msg_length"] for attributes in messages["Attributes"]]
        return np.histogram(np.asarray(sizes), bins=bins, **kwargs)
'''))
FLAT = '''        if per_process:
            return (
                self.events.loc[self.events["Event Type"] == "Enter"]
                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                .sum()
            )
        else:
            return (
                self.events.loc[self.events["Event Type"] == "Enter"]
                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                .sum()
                .groupby(groupby_column)
                .mean()
            )
'''
rf("flat-level", "C07 C08 C13 C33", (T, FLAT, '''        enters = self.events[self.events["Event Type"] == "Enter"]
        totals = enters.groupby([*groupby_columns, "Process"], observed=True)[metrics].agg(
            "sum"
        )
        if not per_process:
            totals = totals.groupby(groupby_columns, observed=True).agg("mean")
        return totals
'''))
rf("flat-divide", "C07 C13 C33", (T, FLAT, '''        enters = self.events.loc[self.events["Event Type"] == "Enter"]
        sums = enters.groupby([*groupby_columns, "Process"], observed=True)[metrics].sum()
        if per_process:
            return sums

        # mean over the processes a group occurs in
        groups = sums.groupby(groupby_column, observed=True)
        return groups.sum().div(groups.size(), axis=0)
'''))
IMB = '''        functions = set(self.events.loc[self.events["Event Type"] == "Enter"]["Name"])
        for function in functions:
            curr_series = flat_profile.loc[function][metric]

            top_n = curr_series.sort_values(ascending=False).iloc[0:num_display]

            imbalance_dict[mean_metric].append(curr_series.mean())
            imbalance_dict[imb_metric].append(top_n.values[0] / curr_series.mean())
            imbalance_dict[imb_ranks].append(list(top_n.index))
'''
rf("imbalance-groups", "C08 C33", (T, IMB, '''        functions = []
        for function, group in flat_profile[metric].groupby(level=0, observed=True):
            functions.append(function)
            totals = group.droplevel(0)
            ranked = totals.sort_values(ascending=False)
            mean = totals.mean()

            imbalance_dict[mean_metric].append(mean)
            imbalance_dict[imb_metric].append(totals.max() / mean)
            imbalance_dict[imb_ranks].append(ranked.index[:num_display].tolist())
'''))
rf("imbalance-sorted", "C08", (T, IMB, '''        functions = list(
            self.events.loc[self.events["Event Type"] == "Enter", "Name"].unique()
        )
        for function in functions:
            totals = flat_profile.loc[function][metric].to_dict()
            ranked = sorted(totals, key=totals.get, reverse=True)
            mean = sum(totals.values()) / len(totals)

            imbalance_dict[mean_metric].append(mean)
            imbalance_dict[imb_metric].append(totals[ranked[0]] / mean)
            imbalance_dict[imb_ranks].append(ranked[:num_display])
'''))
rf("imbalance-argsort", "C08", (T, IMB, '''        functions = set(self.events.loc[self.events["Event Type"] == "Enter"]["Name"])
        for function in functions:
            curr_series = flat_profile.loc[function][metric]
            values = curr_series.to_numpy()
            order = np.argsort(-values)[:num_display]

            imbalance_dict[mean_metric].append(values.mean())
            imbalance_dict[imb_metric].append(values.max() / values.mean())
            imbalance_dict[imb_ranks].append([curr_series.index[i] for i in order])
'''))
IDLE = '''        df = self.events
        filtered_df = (
            df.loc[df["Event Type"] == "Enter"]
            .loc[df["Process"] == process]
            .loc[df["Name"].isin(idle_functions)]
        )
        # get the sum of the inclusive times of these events
        return filtered_df["time.inc"].sum()
'''
rf("idle-mask", "C09 C33", (T, IDLE, '''        df = self.events
        wanted = (
            (df["Event Type"] == "Enter")
            & (df["Process"] == process)
            & df["Name"].isin(idle_functions)
        )
        return df.loc[wanted, "time.inc"].sum()
'''))
rf("idle-zip", "C09", (T, IDLE, '''        df = self.events
        wanted = set(idle_functions)
        total = 0.0
        for kind, place, name, time in zip(
            df["Event Type"], df["Process"], df["Name"], df["time.inc"]
        ):
            if kind == "Enter" and place == process and name in wanted:
                if not pd.isnull(time):
                    total += time
        return total
'''))
rf("idle-query", "C09", (T, IDLE, '''        return (
            self.events.query("`Event Type` == 'Enter' and Process == @process")
            .query("Name in @idle_functions")["time.inc"]
            .sum()
        )
'''))
CASES = '''            # Calculate inc_time_in_bin for each function
            # Case 1 - Function starts in bin
            in_bin.loc[in_bin["Timestamp (ns)"] >= start, "inc_time_in_bin"] = (
                end - in_bin["Timestamp (ns)"]
            )

            # Case 2 - Function ends in bin
            in_bin.loc[in_bin["_matching_timestamp"] <= end, "inc_time_in_bin"] = (
                in_bin["_matching_timestamp"] - start
            )

            # Case 3 - Function spans bin
            in_bin.loc[
                (in_bin["Timestamp (ns)"] < start)
                & (in_bin["_matching_timestamp"] > end),
                "inc_time_in_bin",
            ] = (
                end - start
            )

            # Case 4 - Function contained in bin
            in_bin.loc[
                (in_bin["Timestamp (ns)"] >= start)
                & (in_bin["_matching_timestamp"] <= end),
                "inc_time_in_bin",
            ] = (
                in_bin["_matching_timestamp"] - in_bin["Timestamp (ns)"]
            )
'''
rf("bins-loop", "C10 C33", (T, CASES, '''            in_bin["inc_time_in_bin"] = [
                min(end, leave) - max(start, enter)
                for enter, leave in zip(
                    in_bin["Timestamp (ns)"], in_bin["_matching_timestamp"]
                )
            ]
'''))
rf("bins-where", "C10", (T, CASES, '''            begins = in_bin["Timestamp (ns)"]
            ends = in_bin["_matching_timestamp"]
            in_bin["inc_time_in_bin"] = ends.where(ends <= end, end) - begins.where(
                begins >= start, start
            )
'''))
rf("bins-numpy", "C10", (T, CASES, '''            in_bin["inc_time_in_bin"] = np.where(
                in_bin["_matching_timestamp"] > end, end, in_bin["_matching_timestamp"]
            ) - np.where(in_bin["Timestamp (ns)"] < start, start, in_bin["Timestamp (ns)"])
'''))
rf("bins-zip", "C10 C33", (T, '''        for i in range(num_bins):
            start = edges[i]
            end = edges[i + 1]

''', '''        for start, end in zip(edges[:-1], edges[1:]):
'''), (T, '''            dfx_to_idx = {
                dfx: idx
                for (dfx, idx) in zip(events.index, [i for i in range(len(events))])
            }
''', '''            dfx_to_idx = {dfx: idx for idx, dfx in enumerate(events.index)}
'''))
rf("bins-assign", "C10", (T, '''        # Add idle_time column
        df.insert(0, "idle_time", total_bin_duration - df.sum(axis=1))

        # Threshold for zero
        df.mask(df < 0.01, 0, inplace=True)

        # Normalize
        if normalized:
            df /= total_bin_duration

        # Add bin_start and bin_end
        df.insert(0, "bin_start", edges[:-1])
        df.insert(0, "bin_end", edges[1:])

        return df
''', '''        # Add idle_time column
        df = pd.concat(
            [(total_bin_duration - df.sum(axis=1)).rename("idle_time"), df], axis=1
        )
        df = df.mask(df < 0.01, 0)
        if normalized:
            df = df.div(total_bin_duration)

        # Add bin_start and bin_end
        df.insert(0, "bin_start", list(edges[:-1]))
        df.insert(0, "bin_end", list(edges[1:]))

        return df
'''))
rf("multirun-loop", "C13", (T, '''        # combine these flat profiles and index them by number of processes
        combined_df = pd.concat([fp[metric_col] for fp in flat_profiles], axis=1).T
        combined_df.index = [len(set(trace.events["Process"])) for trace in traces]
        combined_df.index.rename("Number of Processes", inplace=True)

        # sort the columns/groups in descending order of the aggregated metric values
        function_sums = combined_df.sum()
        combined_df = combined_df[function_sums.sort_values(ascending=False).index]

        return combined_df
''', '''        # one row for each of the runs
        rows = [dict(zip(fp.index, fp[metric_col])) for fp in flat_profiles]
        sizes = [trace.events["Process"].nunique() for trace in traces]
        combined_df = pd.DataFrame(
            rows, index=pd.Index(sizes, name="Number of Processes")
        )

        # sort the columns/groups in descending order of the aggregated metric values
        order = sorted(combined_df.columns, key=lambda c: -combined_df[c].sum())
        return combined_df[order]
'''))
rf("chrome-records", "C15 C33", (W, '''        # Write the dataframe to a JSON file
''', '''        df = df.reset_index(drop=True)

        # Write the dataframe to a JSON file
'''), (W, '''        df["ph"] = events["Event Type"].replace(
            ["Enter", "Leave", "Instant"], ["B", "E", "i"]
        )
''', '''        phases = {"Enter": "B", "Leave": "E", "Instant": "i"}
        df["ph"] = [phases.get(kind, kind) for kind in events["Event Type"]]
'''))
rf("chrome-assign", "C15", (W, '''        # Let's create a new dataframe to avoid modifying the original
        df = pd.DataFrame()

        # "name" represents the event name
        df["name"] = events["Name"]
''', '''        # Let's create a new dataframe to avoid modifying the original
        df = events[["Name"]].rename(columns={"Name": "name"})
'''), (W, '''        df["ts"] = (events["Timestamp (ns)"] // 1000).astype(int)
''', '''        df["ts"] = events["Timestamp (ns)"].floordiv(1000).astype("int64")
'''))
rf("csv-argsort", "C25 C32 C33", (T, '''        events_dataframe.sort_values(
            by="Timestamp (ns)",
            axis=0,
            ascending=True,
            inplace=True,
            ignore_index=True,
            kind="stable",
        )

        return Trace(None, events_dataframe)
''', '''        order = events_dataframe["Timestamp (ns)"].argsort(kind="stable")
        events_dataframe = events_dataframe.iloc[order].reset_index(drop=True)

        return Trace(None, events_dataframe)
'''))
rf("csv-mergesort", "C25 C33", (T, '''            events_dataframe["Timestamp (s)"] *= 10**9
            events_dataframe.rename(
                columns={"Timestamp (s)": "Timestamp (ns)"}, inplace=True
            )
''', '''            events_dataframe["Timestamp (s)"] = events_dataframe["Timestamp (s)"].mul(1e9)
            events_dataframe = events_dataframe.rename(
                columns=lambda c: "Timestamp (ns)" if c == "Timestamp (s)" else c
            )
'''), (T, '''            kind="stable",
''', '''            kind="mergesort",
'''))
rf("nsight-map", "C24 C33", (N, '''        pid_dict = dict(zip(pid, range(0, len(pid))))
        # Using the dictionary to set the Process values
        self.df["Process"] = self.df["PID"].map(pid_dict)
''', '''        pid_dict = {p: number for number, p in enumerate(pid)}
        # Using the dictionary to set the Process values
        self.df["Process"] = [pid_dict[p] for p in self.df["PID"]]
'''))
rf("nsight-unique", "C24 C33", (N, '''        pid = set(self.df["PID"])
''', '''        pid = self.df["PID"].unique()
'''), (N, '''                tid = set(self.df[mask]["TID"])
''', '''                tid = self.df.loc[mask, "TID"].unique()
'''))
rf("pattern-mask", "C29", (T, '''        df = self.events.iloc[first_loop_enter + 1 : last_loop_leave]
        filtered_df = df.loc[(df[metric].notnull()) & (df["Process"] == process)]
        y = filtered_df[metric].values[:]
''', '''        inside = (self.events.index > first_loop_enter) & (
            self.events.index < last_loop_leave
        )
        filtered_df = self.events[inside & (self.events["Process"] == process)]
        filtered_df = filtered_df.dropna(subset=[metric])
        y = filtered_df[metric].to_numpy(copy=True)
'''))
rf("cct-children", "C06 C30 C14", (C, '''                # add the function to the stack and get the call path
                functions_stack.append(function_name)
                callpath = tuple(functions_stack)

                # get the parent node of the function if it exists
                parent_node = None if curr_depth == 0 else nodes_stack[-1]
''', '''                # get the parent node of the function if it exists
                parent_node = None if curr_depth == 0 else nodes_stack[-1]

                # a node is known by its parent's number and its function, where
                # the call path is the one of the calls that are open
                functions_stack.append(function_name)
                callpath = ()
                for name in functions_stack:
                    callpath = callpath + (name,)
'''))
rf("config-table", "C16", (K, '''global_config = {key: registered_options[key]["default"] for key in registered_options}
''', '''global_config = dict()
for _key, _option in registered_options.items():
    global_config[_key] = _option["default"]
'''), (K, '''    if value not in ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]:
''', '''    levels = ("CRITICAL", "ERROR", "WARNING", "INFO", "DEBUG")
    if not any(value == level for level in levels):
'''), (K, '''    if value.startswith("http://") or value.startswith("https://"):
''', '''    if value.startswith(("http://", "https://")):
'''))
rf("graph-loop", "C17 C20", (G, '''        while node1.get_level() > node2.get_level():
            node1 = node1.parent
''', '''        for _ in range(node1.get_level() - node2.get_level()):
            node1 = node1.parent
'''), (G, '''        while node is not None and node.level > min_level:
            return_list.append(node)
            node = node.parent

        return return_list
''', '''        while node:
            if node.level <= min_level:
                break
            return_list += [node]
            node = node.parent

        return return_list
'''))
rf("graph-ancestors", "C17 C20", (G, '''        if self.get_level() > node.get_level():
            node1 = self
            node2 = node
        else:
            node1 = node
            node2 = self

        while node1.get_level() > node2.get_level():
            node1 = node1.parent

        while node1 != node2:
            node1 = node1.parent
            node2 = node2.parent

        return node1
''', '''        mine = self.get_node_list(-1)[::-1]
        others = node.get_node_list(-1)[::-1]
        common = None
        for a, b in zip(mine, others):
            if a != b:
                break
            common = a
        return common
'''))
