"""second set of behaviour-preserving edits (used by refactors.py; an old text that begins with * is replaced everywhere)"""
R = []
T, P, O = "pipit/trace.py", "pipit/readers/projections_reader.py", "pipit/readers/otf2_reader.py"
H, N = "pipit/readers/hpctoolkit_reader.py", "pipit/readers/nsight_reader.py"


def rf(id, props, *edits):
    R.append((id, props.split(), edits))


PAT = '''        enter_events = self.events[
            (self.events["Name"] == start_event)
            & (self.events["Event Type"] == "Enter")
            & (self.events["Process"] == process)
        ]

        leave_events = self.events[
            (self.events["Name"] == start_event)
            & (self.events["Event Type"] == "Leave")
            & (self.events["Process"] == process)
        ]
'''
rf("pattern-split", "C29", (T, PAT, '''        own = self.events[self.events["Process"] == process]
        occurrences = own[own["Name"] == start_event]
        enter_events = occurrences[occurrences["Event Type"] == "Enter"]
        leave_events = occurrences[occurrences["Event Type"] == "Leave"]
'''), (T, '''            window_size = int(len(y) / iterations)
''', '''            window_size = len(y) // iterations
'''), (T, '''        y = filtered_df[metric].values[:]
''', '''        y = filtered_df[metric].to_numpy().copy()
'''))
SEL = '''            match_original = self.events.loc[
                self.events["Timestamp (ns)"].isin(
                    filtered_df.iloc[idx:end_idx]["Timestamp (ns)"].values
                )
            ]
            patterns.append(match_original)
'''
rf("pattern-select", "C29", (T, SEL, '''            wanted = list(filtered_df["Timestamp (ns)"])[idx:end_idx]
            keep = [time in wanted for time in self.events["Timestamp (ns)"]]
            patterns.append(self.events[keep])
'''), (T, '''        df = self.events.iloc[first_loop_enter + 1 : last_loop_leave]
        filtered_df = df.loc[(df[metric].notnull()) & (df["Process"] == process)]
''', '''        inside = self.events.loc[first_loop_enter:last_loop_leave].iloc[1:-1]
        filtered_df = inside[inside["Process"] == process].dropna(subset=[metric])
'''))
rf("pattern-list", "C29", (T, '''        patterns = []
        for idx in indices[0]:
            end_idx = idx + window_size

''' + SEL + '''
        return patterns
''', '''        def occurrence(first):
            stamps = filtered_df["Timestamp (ns)"].iloc[first : first + window_size]
            return self.events[self.events["Timestamp (ns)"].isin(stamps)]

        return [occurrence(first) for first in indices[0]]
'''))
SIMPLE = '''                elif int(line_arr[0]) == ProjectionsConstants.%s:
                    time = int(line_arr[1]) * 1000
                    pe = int(line_arr[2])

                    details = {"From PE": pe}

                    _add_to_trace_dict(data, "%s", "%s", time, pe_num, details)

'''
rf("proj-table", "C18 C19 C26 C32 C33", *[(P, SIMPLE % x, "") for x in [("END_IDLE", "Idle", "Leave"), ("END_UNPACK", "Unpack", "Leave")]],
   *[(P, ("                # Pack message to be sent\n" if n == "BEGIN_PACK" else "                # Unpacking a received message\n" if n == "BEGIN_UNPACK" else "") + SIMPLE % (n, a, b), "") for n, a, b in [("BEGIN_PACK", "Pack", "Enter"), ("END_PACK", "Pack", "Leave"), ("BEGIN_UNPACK", "Unpack", "Enter")]],
   (P, SIMPLE % ("BEGIN_IDLE", "Idle", "Enter"), '''                elif int(line_arr[0]) in SIMPLE_RECORDS:
                    name, kind = SIMPLE_RECORDS[int(line_arr[0])]
                    _add_to_trace_dict(
                        data,
                        name,
                        kind,
                        int(line_arr[1]) * 1000,
                        pe_num,
                        {"From PE": int(line_arr[2])},
                    )

'''), (P, '''class STSReader:
''', '''# records that consist of a time and a processor
SIMPLE_RECORDS = {
    ProjectionsConstants.BEGIN_IDLE: ("Idle", "Enter"),
    ProjectionsConstants.END_IDLE: ("Idle", "Leave"),
    ProjectionsConstants.BEGIN_PACK: ("Pack", "Enter"),
    ProjectionsConstants.END_PACK: ("Pack", "Leave"),
    ProjectionsConstants.BEGIN_UNPACK: ("Unpack", "Enter"),
    ProjectionsConstants.END_UNPACK: ("Unpack", "Leave"),
}


class STSReader:
'''))
rf("proj-code", "C18 C30 C32", (P, '''                if not line_arr[0].isnumeric():
                    pass

                elif int(line_arr[0]) ==''', '''                try:
                    code = int(line_arr[0])
                except ValueError:
                    continue

                if code =='''), (P, "*int(line_arr[0]) ==", "code =="), (P, "*int(line_arr[0])\n                    ==", "code\n                    =="))
POOL = '''        pool_size, pool = self.num_processes, mp.Pool(self.num_processes)

        # Read each log file and store as list of dataframes
        dataframes_list = pool.map(
            self._read_log_file, [(rank, pool_size) for rank in range(pool_size)]
        )

        pool.close()
'''
rf("proj-futures", "C18 C19 C26 C30", (P, POOL, '''        pool_size = self.num_processes
        with ProcessPoolExecutor(max_workers=pool_size) as executor:
            dataframes_list = list(
                executor.map(
                    self._read_log_file, [(rank, pool_size) for rank in range(pool_size)]
                )
            )
'''), (P, "import multiprocessing as mp\n", "import multiprocessing as mp\nfrom concurrent.futures import ProcessPoolExecutor\n"))
rf("proj-from-import", "C18 C19", (P, "mp.Pool(self.num_processes)", "Pool(processes=self.num_processes)"), (P, "mp.cpu_count()", "cpu_count()"), (P, "import multiprocessing as mp\n", "from multiprocessing import Pool, cpu_count\n"))
rf("proj-async", "C18 C19", (P, '''        dataframes_list = pool.map(
            self._read_log_file, [(rank, pool_size) for rank in range(pool_size)]
        )

        pool.close()
''', '''        results = [
            pool.apply_async(self._read_log_file, ((rank, pool_size),))
            for rank in range(pool_size)
        ]
        pool.close()
        pool.join()
        dataframes_list = [result.get() for result in results]
'''))
rf("proj-starmap", "C18 C19", (P, '''        dataframes_list = pool.map(
            self._read_log_file, [(rank, pool_size) for rank in range(pool_size)]
        )
''', '''        dataframes_list = pool.starmap(
            self._read_log_file, [((rank, pool_size),) for rank in range(pool_size)]
        )
'''))
rf("proj-listing", "C31 C19", (P, '''        for file in directory_contents:
            if file.endswith(".sts"):
                if hasattr(self, "executable_location"):
                    raise ValueError(
                        "Invalid directory for projections - multiple sts files found."
                    )
                else:
                    executable_name = file[0:-4]
                    self.executable_location = os.path.join(
                        projections_directory, executable_name
                    )

        if not hasattr(self, "executable_location"):
            raise ValueError("Invalid directory for projections - no sts files found.")
''', '''        sts_files = [file for file in directory_contents if file.endswith(".sts")]
        if len(sts_files) > 1:
            raise ValueError(
                "Invalid directory for projections - multiple sts files found."
            )
        if not sts_files:
            raise ValueError("Invalid directory for projections - no sts files found.")
        executable_name, _ = os.path.splitext(sts_files[0])
        self.executable_location = os.path.join(projections_directory, executable_name)
'''), (P, '''            log_file = executable_name + "." + str(i) + ".log.gz"
            if log_file not in directory_contents:
''', '''            log_file = f"{executable_name}.{i}.log.gz"
            if not os.path.exists(os.path.join(projections_directory, log_file)):
'''))
rf("proj-sts", "C18 C32", (P, '''                event_name = ""
                # rest of line is the event name
                for i in range(2, len(line_arr)):
                    event_name = event_name + line_arr[i] + " "
                self.user_events[id] = event_name
''', '''                self.user_events[id] = "".join(word + " " for word in line_arr[2:])
'''), (P, '''                while not line_arr[3].endswith('"'):
                    line_arr[3] = line_arr[3] + " " + line_arr[4]
                    del line_arr[4]
''', '''                last = next(
                    i for i in range(3, len(line_arr)) if line_arr[i].endswith('"')
                )
                line_arr[3 : last + 1] = [" ".join(line_arr[3 : last + 1])]
'''), (P, '''        for line in self.sts_file:
            line_arr = line.split()
''', '''        for line_arr in map(str.split, self.sts_file.readlines()):
'''))
rf("proj-rows", "C18 C19 C26", (P, '''        return {
            "Name": [],
            "Event Type": [],
            "Timestamp (ns)": [],
            "Process": [],
            "Attributes": [],
        }
''', '''        columns = ("Name", "Event Type", "Timestamp (ns)", "Process", "Attributes")
        return {column: [] for column in columns}
'''), (P, '''            for line in log_file:
                line_arr = line.split()
''', '''            for line in log_file.read().splitlines():
                line_arr = line.split()
'''))
rf("hpct-number", "C20 C21 C28 C31 C26 C32", (H, "*int.from_bytes(\n                    self.file.read(8), byteorder=self.byte_order, signed=self.signed\n                )", "_number(self.file, 8)"),
   (H, "*int.from_bytes(\n                self.file.read(4), byteorder=self.byte_order, signed=self.signed\n            )", "_number(self.file, 4)"),
   (H, "*int.from_bytes(\n            self.file.read(8), byteorder=self.byte_order, signed=self.signed\n        )", "_number(self.file, 8)"),
   (H, "class TraceReader:\n", '''def _number(file, size):
    # an unsigned little-endian number
    return int.from_bytes(file.read(size), "little")


class TraceReader:
'''))
rf("hpct-hit", "C28 C20 C32", (H, '''        # add None for information not present
        if "NODE" not in tuples_map:
            tuples_map["NODE"] = None
        if "RANK" not in tuples_map:
            tuples_map["RANK"] = None
        if "THREAD" not in tuples_map:
            tuples_map["THREAD"] = None
        if "CORE" not in tuples_map:
            tuples_map["CORE"] = None
        return tuples_map
''', '''        # add None for information not present
        return {**dict.fromkeys(("NODE", "RANK", "THREAD", "CORE")), **tuples_map}
'''))
BLOCK = '''                    self.data["Name"].append(str(context_information["function"]))
                    if context_information["loop_type"]:
                        # HPCViewer only puts loops in CCT, but not trace view, so
                        # we use a special Loop Enter/Leave event type
                        self.data["Event Type"].append("Loop %s")
                    else:
                        self.data["Event Type"].append("%s")
                    self.data["Timestamp (ns)"].append(timestamp)
                    self.data["Process"].append(hit["RANK"])
                    self.data["Thread"].append(hit["THREAD"])
                    self.data["Host"].append(hit["NODE"])
                    self.data["Core"].append(hit["CORE"])
                    self.data["Node"].append(%s)
                    self.data["Source File Name"].append(context_information["file"])
                    self.data["Source File Line Number"].append(
                        context_information["line"]
                    )
                    self.data["Calling Context ID"].append(curr_ctx_id)
'''
rf("hpct-append", "C20 C21 C26 C28 C33", *[(H, BLOCK % (k, k, n), '''                    self._add_event(
                        "%s", timestamp, %s, hit, context_information, curr_ctx_id
                    )
''' % (k, n)) for k, n in (("Leave", "last_node"), ("Enter", "entry_node"))], (H, '''    def __read_single_trace_header(self, header_pointer: int) -> None:
''', '''    def _add_event(self, kind, timestamp, node, hit, context, context_id):
        row = {
            "Timestamp (ns)": timestamp,
            "Event Type": "Loop " + kind if context["loop_type"] else kind,
            "Name": str(context["function"]),
            "Thread": hit["THREAD"],
            "Process": hit["RANK"],
            "Core": hit["CORE"],
            "Host": hit["NODE"],
            "Node": node,
            "Source File Name": context["file"],
            "Source File Line Number": context["line"],
            "Calling Context ID": context_id,
        }
        for column, value in row.items():
            self.data[column].append(value)

    def __read_single_trace_header(self, header_pointer: int) -> None:
'''))
LOOP = '''        while self.file.tell() < end_pointer:
            # Timestamp (nanoseconds since epoch)
            timestamp = (
                int.from_bytes(
                    self.file.read(8), byteorder=self.byte_order, signed=self.signed
                )
                - self.min_time_stamp
            )
'''
CTX = (H, '''            context_id = int.from_bytes(
                self.file.read(4), byteorder=self.byte_order, signed=self.signed
            )

            if context_id == last_id:
''', '''            if context_id == last_id:
''')
rf("hpct-block", "C20 C21 C26 C28", (H, LOOP, '''        samples = self.file.read(end_pointer - start_pointer)
        for stamp, context_id in struct.iter_unpack("<QI", samples):
            # Timestamp (nanoseconds since epoch)
            timestamp = stamp - self.min_time_stamp
'''), CTX, (H, "import pandas", "import struct\nimport pandas"))
rf("hpct-structobj", "C20 C21 C26 C28", (H, LOOP, '''        sample = struct.Struct("<QI")
        while self.file.tell() < end_pointer:
            # Timestamp (nanoseconds since epoch)
            stamp, context_id = sample.unpack(self.file.read(sample.size))
            timestamp = stamp - self.min_time_stamp
'''), CTX, (H, "import pandas", "import struct\nimport pandas"))
rf("hpct-numpy", "C20 C21 C26 C28", (H, LOOP, '''        samples = np.frombuffer(
            self.file.read(end_pointer - start_pointer),
            dtype=np.dtype([("time", "<u8"), ("context", "<u4")]),
        )
        for stamp, context_id in zip(
            samples["time"].tolist(), samples["context"].tolist()
        ):
            # Timestamp (nanoseconds since epoch)
            timestamp = stamp - self.min_time_stamp
'''), CTX, (H, "import pandas", "import numpy as np\nimport pandas"))
rf("hpct-bytesio", "C20 C21 C26 C28", (H, '''        self.file.seek(start_pointer)

        # setting up''', '''        self.file.seek(start_pointer)
        samples = io.BytesIO(self.file.read(end_pointer - start_pointer))

        # setting up'''), (H, LOOP, '''        for _ in range((end_pointer - start_pointer) // 12):
            # Timestamp (nanoseconds since epoch)
            timestamp = int.from_bytes(samples.read(8), "little") - self.min_time_stamp
'''), (H, CTX[1], CTX[1].replace("self.file.read", "samples.read")), (H, "import pandas", "import io\nimport pandas"))
MAGIC = '''        identifier = str(self.file.read(10), encoding=self.encoding)
        assert identifier == "HPCTOOLKIT"

        # next 4 bytes (u8) are the "Specific format identifier"
        format_identifier = str(self.file.read(4), encoding=self.encoding)
        assert format_identifier == "trce"
'''
rf("hpct-order", "C20 C31 C32", (H, '''        trace_df.rename_axis("index", inplace=True)

        # sort by timestamp then index
        trace_df.sort_values(
            by=["Timestamp (ns)", "index"],
            axis=0,
            ascending=True,
            inplace=True,
            ignore_index=True,
        )
''', '''        order = np.argsort(trace_df["Timestamp (ns)"].to_numpy(), kind="stable")
        trace_df = trace_df.iloc[order].reset_index(drop=True)
'''), (H, "import pandas", "import numpy as np\nimport pandas"), (H, MAGIC, '''        magic = self.file.read(14).decode("ascii")
        assert magic == "HPCTOOLKIT" + "trce"
'''))
rf("hpct-assert", "C31 C20", (H, MAGIC, '''        if self.file.read(10) != b"HPCTOOLKIT":
            raise AssertionError("not a HPCToolkit file")
        if self.file.read(4) != b"trce":
            raise AssertionError("not a trace.db")
'''))
rf("hpct-sections", "C31 C20 C21", (H, '''        self.section_pointer = []
        self.section_size = []
        # In the header each section is given 16 bytes:
        #   - First 8 bytes specify the total size of the section (in bytes)
        #   - Last 8 bytes specify a pointer to the beggining of the section
        for i in range(len(self.read_order)):
            self.section_size.append(
                int.from_bytes(
                    self.file.read(8), byteorder=self.byte_order, signed=self.signed
                )
            )
            self.section_pointer.append(
                int.from_bytes(
                    self.file.read(8), byteorder=self.byte_order, signed=self.signed
                )
            )
''', '''        count = 2 * len(self.read_order)
        fields = [
            int.from_bytes(self.file.read(8), self.byte_order) for _ in range(count)
        ]
        self.section_size, self.section_pointer = fields[::2], fields[1::2]
'''))
OPOOL = '''        pool_size, pool = self.num_processes, mp.Pool(self.num_processes)

        # list of dataframes returned by the processes pool
        events_dataframes = pool.map(
            self.events_reader, [(rank, pool_size) for rank in range(pool_size)]
        )

        pool.close()
'''
rf("otf2-imap", "C19 C22 C23 C26 C30", (O, OPOOL, '''        pool_size = self.num_processes
        tasks = [(rank, pool_size) for rank in range(pool_size)]
        with mp.get_context().Pool(pool_size) as pool:
            events_dataframes = [df for df in pool.imap(self.events_reader, tasks)]
'''))
rf("otf2-futures", "C19 C22 C26", (O, OPOOL, '''        pool_size = self.num_processes
        parts = {}
        with concurrent.futures.ProcessPoolExecutor(pool_size) as executor:
            ranks = {
                executor.submit(self.events_reader, (rank, pool_size)): rank
                for rank in range(pool_size)
            }
            for future in concurrent.futures.as_completed(ranks):
                parts[ranks[future]] = future.result()
        events_dataframes = [parts[rank] for rank in sorted(parts)]
'''), (O, "import multiprocessing as mp\n", "import concurrent.futures\nimport multiprocessing as mp\n"))
rf("otf2-isinstance", "C22 C23 C26 C30 C33", (O, '''                        event_type = str(type(event))[20:-2]
                        if event_type == "Enter" or event_type == "Leave":
                            event_types.append(event_type)
                        else:
                            event_types.append("Instant")

                        if event_type in ["Enter", "Leave"]:
                            names.append(event.region.name)
                        else:
                            names.append(event_type)
''', '''                        event_type = type(event).__name__
                        is_call = isinstance(
                            event, (otf2.events.Enter, otf2.events.Leave)
                        )
                        event_types.append(event_type if is_call else "Instant")
                        names.append(event.region.name if is_call else event_type)
'''), (O, '''                if str(loc.type)[13:] == "CPU_THREAD":
                    # don't''', '''                if loc.type == otf2.LocationType.CPU_THREAD:
                    # don't'''), (O, '''                loc, event = loc_event[0], loc_event[1]
''', '''                loc, event = loc_event
'''))
rf("otf2-setdefault", "C22 C19 C32", (O, '''                        if process_num not in self.process_threads_map:
                            self.process_threads_map[process_num] = location_num
                        elif location_num < self.process_threads_map[process_num]:
                            self.process_threads_map[process_num] = location_num
''', '''                        known = self.process_threads_map.setdefault(
                            process_num, location_num
                        )
                        self.process_threads_map[process_num] = min(known, location_num)
'''), (O, '''                            attributes_dict = {}

                            # iterates through the event's attributes
                            # (ex: region, bytes sent, etc)
                            for key, value in vars(event).items():
                                # only adds non-empty attributes
                                # and ignores time so there isn't a duplicate time
                                if value is not None and key != "time":
                                    # uses field_to_val to convert all data types
                                    # and ensure that there are no pickling errors
                                    attributes_dict[self.field_to_val(key)] = (
                                        self.handle_data(value)
                                    )
''', '''                            attributes_dict = {
                                self.field_to_val(key): self.handle_data(value)
                                for key, value in vars(event).items()
                                if key != "time" and value is not None
                            }
'''))
rf("nsight-columns", "C24 C30 C33", (N, '''        cols = list(self.df)
        cols.insert(0, cols.pop(cols.index("Timestamp (ns)")))
        cols.insert(1, cols.pop(cols.index("Event Type")))
        cols.insert(2, cols.pop(cols.index("Name")))

        if "Process" in self.df.columns:
            cols.insert(3, cols.pop(cols.index("Process")))
            if "Thread" in self.df.columns:
                cols.insert(3, cols.pop(cols.index("Thread")))

        elif "Thread" in self.df.columns:
            cols.insert(3, cols.pop(cols.index("Thread")))
''', '''        first = ["Timestamp (ns)", "Event Type", "Name", "Thread", "Process"]
        first = [column for column in first if column in self.df.columns]
        cols = first + [column for column in self.df.columns if column not in first]
'''), (N, '''        self.df["Process"] = self.df["PID"].map(pid_dict)
''', '''        self.df["Process"] = [pid_dict[value] for value in self.df["PID"]]
'''))
rf("nsight-assign", "C24 C30 C32 C33", (N, '''        # Create new columns for self.df with start time to create enter rows
        self.df["Event Type"] = "Enter"
        self.df["Timestamp (ns)"] = self.df["Start (ns)"]

        # Create new columns for df2 with end time to create leave rows
        df2["Event Type"] = "Leave"
        df2["Timestamp (ns)"] = df2["End (ns)"]

        # Combine dataframes together
        self.df = pd.concat([self.df, df2])

        # Tidy Dataframe
        self.df.drop(["Start (ns)", "End (ns)"], axis=1, inplace=True)
''', '''        enters = self.df.rename(columns={"Start (ns)": "Timestamp (ns)"})
        leaves = df2.rename(columns={"End (ns)": "Timestamp (ns)"})
        self.df = pd.concat(
            [
                enters.drop(columns="End (ns)").assign(**{"Event Type": "Enter"}),
                leaves.drop(columns="Start (ns)").assign(**{"Event Type": "Leave"}),
            ]
        )
'''))
rf("nsight-threads", "C24 C33", (N, '''        if self.df["PID"].equals(self.df["TID"]) is False:
''', '''        if (self.df["PID"] != self.df["TID"]).any():
'''), (N, '''                tid = set(self.df[mask]["TID"])
''', '''                tid = sorted(self.df.loc[mask, "TID"].unique())
'''))
rf("csv-steps", "C25 C32 C33", (T, '''        if "Timestamp (s)" in events_dataframe.columns:
            events_dataframe["Timestamp (s)"] *= 10**9
            events_dataframe.rename(
                columns={"Timestamp (s)": "Timestamp (ns)"}, inplace=True
            )
''', '''        columns = [
            "Timestamp (ns)" if column == "Timestamp (s)" else column
            for column in events_dataframe.columns
        ]
        if columns != list(events_dataframe.columns):
            events_dataframe.columns = columns
            events_dataframe["Timestamp (ns)"] = (
                events_dataframe["Timestamp (ns)"] * 10**9
            )
'''), (T, '''        events_dataframe = events_dataframe.astype({"Process": "int32"})

        # make certain columns categorical
        events_dataframe = events_dataframe.astype(
            {
                "Event Type": "category",
                "Name": "category",
                "Process": "category",
            }
        )
''', '''        events_dataframe["Process"] = events_dataframe["Process"].astype("int32")

        # make certain columns categorical
        for column in ("Event Type", "Name", "Process"):
            events_dataframe[column] = events_dataframe[column].astype("category")
'''))
rf("trace-state", "C32 C14 C33", (T, '''        # will store columns names for inc/exc metrics
        self.inc_metrics = []
        self.exc_metrics = []

    def create_cct''', '''        self._reset_metrics()

    def _reset_metrics(self):
        # will store columns names for inc/exc metrics
        self.inc_metrics, self.exc_metrics = [], []

    def create_cct'''))
rf("cct-option", "C30", (P, '''        trace = pipit.trace.Trace(None, trace_df)
        if self.create_cct:
            trace.create_cct()

        return trace
''', '''        return self._make_trace(trace_df)

    def _make_trace(self, trace_df):
        trace = pipit.trace.Trace(None, trace_df)
        if not self.create_cct:
            return trace
        trace.create_cct()
        return trace
'''))
