From d248bcaeff40dc863dfdced168756438726051cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 01/23] fix: load_imbalance selects the metric column of the
 flat profile

flat_profile.loc[function] is a DataFrame, so sort_values() raised a
TypeError for every trace.
---
 pipit/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index fcc9f75..3eb2c66 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -583,7 +583,7 @@ class Trace:
 
         functions = set(self.events.loc[self.events["Event Type"] == "Enter"]["Name"])
         for function in functions:
-            curr_series = flat_profile.loc[function]
+            curr_series = flat_profile.loc[function][metric]
 
             top_n = curr_series.sort_values(ascending=False).iloc[0:num_display]
 
-- 
2.43.0


From 96fb143c1e61b95674cbc8e338b9544215f3b1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 02/23] fix: idle_time no longer extends the caller's list

idle_functions += [...] modified the list passed in, and the mutable default
argument, so later calls without mpi_events counted MPI functions as well.
---
 pipit/trace.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 3eb2c66..8472e13 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -618,7 +618,12 @@ class Trace:
             self.calc_inc_metrics()
 
         if mpi_events:
-            idle_functions += ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]
+            idle_functions = [
+                *idle_functions,
+                "MPI_Wait",
+                "MPI_Waitall",
+                "MPI_Recv",
+            ]
         # filter the dataframe to include only 'Enter' events within the specified
         # process with the specified function names
         df = self.events
-- 
2.43.0


From d9b4bd6414919e70ce473d64086851a8d1f0588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 03/23] fix: CCT call paths with '->' in a function name no
 longer collide

The call path was keyed by the names joined with '->'; the calls A, B and a
single call named 'A->B' then shared a node.
---
 pipit/util/cct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/util/cct.py b/pipit/util/cct.py
index b499227..b817dbe 100644
--- a/pipit/util/cct.py
+++ b/pipit/util/cct.py
@@ -45,7 +45,7 @@ def create_cct(events):
         else:
             filtered_df = enter_leave_df.loc[(enter_leave_df["Process"] == curr_loc)]
 
-        curr_depth, callpath = 0, ""
+        curr_depth, callpath = 0, ()
 
         """
         Iterating over lists instead of
@@ -70,7 +70,7 @@ def create_cct(events):
             if evt_type == "Enter":
                 # add the function to the stack and get the call path
                 functions_stack.append(function_name)
-                callpath = "->".join(functions_stack)
+                callpath = tuple(functions_stack)
 
                 # get the parent node of the function if it exists
                 parent_node = None if curr_depth == 0 else nodes_stack[-1]
-- 
2.43.0


From 68579b0518639b74a92f32b59968fabb4e9d34b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 04/23] fix: from_csv keeps simultaneous events in file order

---
 pipit/trace.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 8472e13..92a762c 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -89,9 +89,14 @@ class Trace:
             }
         )
 
-        # sort the dataframe by Timestamp
+        # sort the dataframe by Timestamp (simultaneous events stay in file order)
         events_dataframe.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         return Trace(None, events_dataframe)
-- 
2.43.0


From 5b58ed87e37a5d89201ddd8a02b6204024f741eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 05/23] fix: otf2 reader keeps simultaneous events in recorded
 order

The default sort is not stable: events of one location with equal timestamps
could be swapped, e.g. a Leave and the Enter that follows it.
---
 pipit/readers/otf2_reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index b685c3a..610a2dc 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -472,7 +472,12 @@ class OTF2Reader:
 
         # ensures the DataFrame is in order of increasing timestamp
         events_dataframe.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         # convert these to ints
-- 
2.43.0


From 2b44db9d1fd0f70dedc6f6a5d3866f1753a16e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 06/23] fix: projections reader keeps simultaneous events in
 recorded order

The default sort is not stable: events of one location with equal timestamps
could be swapped, e.g. a Leave and the Enter that follows it.
---
 pipit/readers/projections_reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 0a2044c..dbaf5d5 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -301,7 +301,12 @@ class ProjectionsReader:
         # Concatenate the dataframes list into dataframe containing entire trace
         trace_df = pd.concat(dataframes_list, ignore_index=True)
         trace_df.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         # categorical for memory savings
-- 
2.43.0


From 270d75ca4e28244bad3a1d9bb4d28ba6275a6959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 07/23] fix: Projections END_USER_EVENT_PAIR records can be
 read

The data argument was missing, so every such record raised a TypeError.
---
 pipit/readers/projections_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index dbaf5d5..9ad39bc 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -770,7 +770,7 @@ class ProjectionsReader:
                     }
 
                     _add_to_trace_dict(
-                        "User Event Pair", "Leave", time, pe_num, details
+                        data, "User Event Pair", "Leave", time, pe_num, details
                     )
 
                 # User stat (in code)
-- 
2.43.0


From 2cc86e2a6113a977e81c0c40788b672d8271ca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 08/23] fix: Projections notes are read with numeric times and
 event ids

The time strings were repeated 1000 times instead of being converted and the
event id of a bracketed note was looked up as a string (KeyError).
---
 pipit/readers/projections_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 9ad39bc..4330d26 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -421,7 +421,7 @@ class ProjectionsReader:
                     )
 
                 elif int(line_arr[0]) == ProjectionsConstants.USER_SUPPLIED_NOTE:
-                    time = line_arr[1] * 1000
+                    time = int(line_arr[1]) * 1000
                     note = ""
                     for i in range(2, len(line_arr)):
                         note = note + line_arr[i] + " "
@@ -437,9 +437,9 @@ class ProjectionsReader:
                     int(line_arr[0])
                     == ProjectionsConstants.USER_SUPPLIED_BRACKETED_NOTE
                 ):
-                    time = line_arr[1] * 1000
-                    end_time = line_arr[2] * 1000
-                    user_event_id = line_arr[3]
+                    time = int(line_arr[1]) * 1000
+                    end_time = int(line_arr[2]) * 1000
+                    user_event_id = int(line_arr[3])
                     note = ""
                     for i in range(4, len(line_arr)):
                         note = note + line_arr[i] + " "
-- 
2.43.0


From 145f3eca9b7c08e0072e81f094ee845668f93e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 09/23] fix: Projections multicast creations keep their
 destinations

Only two list positions (0 and num_procs, the latter past the end) were read
and the record's fields were dropped in favour of a string.
---
 pipit/readers/projections_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 4330d26..8ec720c 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -518,7 +518,7 @@ class ProjectionsReader:
                     send_time = int(line_arr[7]) * 1000
                     num_procs = int(line_arr[8])
                     dest_procs = []
-                    for i in (0, num_procs):
+                    for i in range(num_procs):
                         dest_procs.append(int(line_arr[9 + i]))
 
                     details = {
@@ -537,7 +537,7 @@ class ProjectionsReader:
                         "Instant",
                         time,
                         pe_num,
-                        "To " + str(num_procs) + "processors",
+                        details,
                     )
 
                 # Processing of chare (i.e. execution) ?
-- 
2.43.0


From ded6c151b8836aaf8cd60dee7b63c50dc4294c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 10/23] fix: closing Computation Leave is at the last event's
 time

The timestamp is already in nanoseconds and was multiplied by 1000 again.
---
 pipit/readers/projections_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 8ec720c..ce87f06 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -796,7 +796,7 @@ class ProjectionsReader:
 
             # Making sure that the log file ends with END_COMPUTATION
             if len(data["Name"]) > 0 and data["Name"][-1] != "Computation":
-                time = data["Timestamp (ns)"][-1] * 1000
+                time = data["Timestamp (ns)"][-1]
                 _add_to_trace_dict(data, "Computation", "Leave", time, pe_num, None)
 
             log_file.close()
-- 
2.43.0


From 4f90f6b01d7e9f1f622a94335df9787491211dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 11/23] fix: Nsight reports of a single process get a Process
 column

Every analysis needs the column; without it all of them raised a KeyError.
---
 pipit/readers/nsight_reader.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index a956fb8..75ddc93 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -45,15 +45,11 @@ class NsightReader:
             # Converting Thread from float to int
             self.df["Thread"] = self.df["Thread"].astype(int)
 
-        # check if PID set is > 1, if so multiprocess or single process
-        if len(pid) > 1:
-            # Set Process column to PID
-            self.df["Process"] = self.df["PID"]
-            # Getting the PID set, creating a dictionary,
-            # and increment the values (0,1,2,...)
-            pid_dict = dict(zip(pid, range(0, len(pid))))
-            # Using the dictionary to replace the Process values
-            self.df["Process"].replace(pid_dict, inplace=True)
+        # Getting the PID set, creating a dictionary,
+        # and increment the values (0,1,2,...)
+        pid_dict = dict(zip(pid, range(0, len(pid))))
+        # Using the dictionary to set the Process values
+        self.df["Process"] = self.df["PID"].map(pid_dict)
 
         # Copy self.df to create enter and leave rows
         df2 = self.df.copy()
-- 
2.43.0


From 445bec5e17fb823e80792c8349d643ab3fb75807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 12/23] fix: Nsight events with equal timestamps are ordered by
 nesting

All Enter rows came before all Leave rows (and the sort was not stable), so
intervals that touch, start or end together or have no length were nested in
each other or matched with another interval's Leave.
---
 pipit/readers/nsight_reader.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index 75ddc93..a4ca688 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -51,9 +51,22 @@ class NsightReader:
         # Using the dictionary to set the Process values
         self.df["Process"] = self.df["PID"].map(pid_dict)
 
+        # Order of simultaneous events: calls end (inner before outer), then
+        # zero-length calls, then calls begin (outer before inner). Otherwise
+        # intervals that merely touch would be nested or mismatched.
+        row = pd.Series(range(len(self.df)), index=self.df.index)
+        zero_length = self.df["Start (ns)"] == self.df["End (ns)"]
+
         # Copy self.df to create enter and leave rows
         df2 = self.df.copy()
 
+        self.df["_phase"] = zero_length.map({True: 1, False: 2})
+        self.df["_outer"] = -self.df["End (ns)"]
+        self.df["_row"] = 2 * row
+        df2["_phase"] = zero_length.map({True: 1, False: 0})
+        df2["_outer"] = -self.df["Start (ns)"]
+        df2["_row"] = (2 * row + 1).where(zero_length, -row)
+
         # Create new columns for self.df with start time to create enter rows
         self.df["Event Type"] = "Enter"
         self.df["Timestamp (ns)"] = self.df["Start (ns)"]
@@ -68,7 +81,9 @@ class NsightReader:
         # Tidy Dataframe
         self.df.drop(["Start (ns)", "End (ns)"], axis=1, inplace=True)
 
-        self.df.sort_values(by="Timestamp (ns)", ascending=True, inplace=True)
+        order = ["Timestamp (ns)", "_phase", "_outer", "_row"]
+        self.df.sort_values(by=order, ascending=True, inplace=True)
+        self.df.drop(order[1:], axis=1, inplace=True)
 
         self.df.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 350c09bb5e166fc84566b7560966ad866e485c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 13/23] fix: OTF2 metric members with ids above 9 are found

Only the last digit of 'MetricMember <id>' was used, so such traces raised a
KeyError or picked other metrics.
---
 pipit/readers/otf2_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 610a2dc..6849195 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -213,7 +213,10 @@ class OTF2Reader:
 
             # ids of metric members
             metric_ids = list(
-                map(lambda metric_member: int(metric_member[-1]), metric_members)
+                map(
+                    lambda metric_member: int(metric_member.split(" ")[-1]),
+                    metric_members,
+                )
             )
 
             # names of metrics
-- 
2.43.0


From b9e953c5b8500646303dd32e7f7842213df7f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 14/23] fix: OTF2 metrics are attached per location and never
 shift rows

The time of the last metric record was shared by all locations, so a metric
record could be attached to an event of another location, and a metric record
without an event at the same time made the columns longer than the frame
(ValueError).
---
 pipit/readers/otf2_reader.py | 37 +++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 6849195..100d3cb 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -232,9 +232,9 @@ class OTF2Reader:
             # maps each metric to a list of its values
             metrics_dict = {metric_name: [] for metric_name in metric_names}
 
-            # used to keep track of time that the
-            # most recent metrics that were read at
-            prev_metric_time = -1
+            # time and values of the metrics that were read
+            # last at each location
+            prev_metrics = dict()
 
             # iterates through the events and processes them
             for loc_event in loc_events:
@@ -257,25 +257,28 @@ class OTF2Reader:
                         )
                         metric_values = event.values
 
-                        # append the values for the metrics
-                        # to their appropriate lists
-                        for i in range(len(metrics)):
-                            metrics_dict[metrics[i]].append(metric_values[i])
-
                         # store the metrics and their timestamp
-                        prev_metric_time = event.time
+                        prev_metrics[loc._ref] = (
+                            event.time,
+                            dict(zip(metrics, metric_values)),
+                        )
                     else:
                         # MetricClass metric events are synchronous
                         # and coupled with an enter or leave event that
                         # has the same timestamp
-                        if event.time != prev_metric_time:
-                            # if the event is not paired with any metric, then
-                            # add placeholders for all the metric lists
-                            for metric in metric_names:
-                                metrics_dict[metric].append(float("nan"))
-
-                        # reset this as a metric event was not read
-                        prev_metric_time = -1
+                        metric_time, metric_values = prev_metrics.pop(
+                            loc._ref, (None, {})
+                        )
+                        if event.time != metric_time:
+                            # the event is not paired with any metric
+                            metric_values = {}
+
+                        # append the values for the metrics to their lists
+                        # (with placeholders where there is none)
+                        for metric in metric_names:
+                            metrics_dict[metric].append(
+                                metric_values.get(metric, float("nan"))
+                            )
 
                         """
                         Below is code to read the primary information about the
-- 
2.43.0


From d7fa4a700d1720afd10704428fe721cbed7964fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 15/23] fix: HPCToolkit source lines are read as u32

Only the lower two bytes of the line were read, so lines above 65535 were wrong.
---
 pipit/readers/hpctoolkit_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index a6cda33..95adc1e 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -708,7 +708,7 @@ class MetaReader:
                     flex[0:8], byteorder=self.byte_order, signed=self.signed
                 )
                 sub_flex_2 = int.from_bytes(
-                    flex[8:10], byteorder=self.byte_order, signed=self.signed
+                    flex[8:12], byteorder=self.byte_order, signed=self.signed
                 )
                 flex = flex[16:]
                 source_file_index = self.__get_source_file_index(sub_flex_1)
-- 
2.43.0


From 535461f06588e6962149996832e5fc2e4be176a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 16/23] fix: HPCToolkit string pointers count bytes, not
 characters

With a non-ASCII character in the string table every pointer behind it failed
(KeyError), and identifier names were decoded one byte at a time.
---
 pipit/readers/hpctoolkit_reader.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 95adc1e..b0548c9 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -262,11 +262,11 @@ class MetaReader:
         # So to create a list of these strings, we'll read them all into one string then
         # split them by the null character
 
-        # Reading entire section into a string
-        total_section: str = str(self.file.read(section_size), encoding="UTF-8")
-
-        # Splitting entire section into list of strings
-        self.common_strings: list[str] = total_section.split("\0")
+        # Splitting entire section into list of (encoded) strings
+        encoded_strings = self.file.read(section_size).split(b"\0")
+        self.common_strings: list[str] = [
+            str(encoded, encoding="UTF-8") for encoded in encoded_strings
+        ]
 
         # Now we are creating a map between the original location to the string
         # to the index of the string in self.common_strings.
@@ -274,9 +274,9 @@ class MetaReader:
         pointer_index = section_pointer
         # pointer_index = 0
         self.common_string_index_map: dict = {}
-        for i in range(len(self.common_strings)):
+        for i in range(len(encoded_strings)):
             self.common_string_index_map[pointer_index] = i
-            pointer_index += len(self.common_strings[i]) + 1
+            pointer_index += len(encoded_strings[i]) + 1
 
     def __get_load_modules_index(self, load_module_pointer: int) -> int:
         """
@@ -338,13 +338,13 @@ class MetaReader:
         and ending at the first occurence of the null character
         """
         self.file.seek(file_pointer)
-        name = ""
+        name = b""
         while True:
-            read = str(self.file.read(1), encoding="UTF-8")
-            if read == "\0":
+            read = self.file.read(1)
+            if read == b"\0":
                 break
             name += read
-        return name
+        return str(name, encoding="UTF-8")
 
     def get_identifier_name(self, kind: int):
         """
-- 
2.43.0


From 62f088be607e96bd0d6d6d952a9304bc4e815cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 17/23] fix: HPCToolkit functions without a name no longer fail

A function with a null name pointer raised a TypeError once it was sampled.
---
 pipit/readers/hpctoolkit_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index b0548c9..801c183 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -155,7 +155,11 @@ class MetaReader:
             #                         "source_file_index": source_file_index}
 
             # getting function name
-            function_string = self.common_strings[function["string_index"]]
+            if function["string_index"] is not None:
+                function_string = self.common_strings[function["string_index"]]
+            else:
+                # function has no name
+                function_string = "<unkown function>"
         else:
             # function is unkown
             function_string = "<unkown function>"
-- 
2.43.0


From 272a16952f76e52aea4dbb20117ca9e9d3914e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 18/23] fix: HPCToolkit profiles without a NODE identifier can
 be read

The default was stored under another key than the one looked up (KeyError).
---
 pipit/readers/hpctoolkit_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 801c183..6172ed9 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -973,8 +973,8 @@ class ProfileReader:
 
     def __clean_hit(self, tuples_map: dict) -> dict:
         # add None for information not present
-        if "Node" not in tuples_map:
-            tuples_map["Node"] = None
+        if "NODE" not in tuples_map:
+            tuples_map["NODE"] = None
         if "RANK" not in tuples_map:
             tuples_map["RANK"] = None
         if "THREAD" not in tuples_map:
-- 
2.43.0


From 7ad00b32e39603d353dcca6e9254c94514fce5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:51 +0000
Subject: [PATCH 19/23] fix: Chrome export keeps microseconds exact for large
 timestamps

---
 pipit/writers/chrome_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/writers/chrome_writer.py b/pipit/writers/chrome_writer.py
index fdc7a19..b2c4adf 100644
--- a/pipit/writers/chrome_writer.py
+++ b/pipit/writers/chrome_writer.py
@@ -33,7 +33,7 @@ class ChromeWriter:
         )
 
         # "ts" represents is the timestamp (in microseconds) of the event
-        df["ts"] = (events["Timestamp (ns)"] / 1e3).astype(int)
+        df["ts"] = (events["Timestamp (ns)"] // 1000).astype(int)
 
         # "pid" represents the process ID for the process that the event occurs in
         df["pid"] = events["Process"]
-- 
2.43.0


From c18d757ae0ea15e6a7d710f4eebc28efd7c1e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 20/23] fix: the level of a deep tree node no longer exceeds
 the recursion limit

---
 pipit/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/graph.py b/pipit/graph.py
index 0e94063..e322651 100644
--- a/pipit/graph.py
+++ b/pipit/graph.py
@@ -76,7 +76,7 @@ class Node:
         if self.parent is None:
             return 0
         else:
-            return 1 + self.parent._calculate_level()
+            return 1 + self.parent.get_level()
 
     def __eq__(self, obj) -> bool:
         if isinstance(obj, Node):
-- 
2.43.0


From 541c09fe3223f8a2bdd363d00454daca917c033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 21/23] fix: HPCToolkit context trees may be deeper than the
 recursion limit

---
 pipit/readers/hpctoolkit_reader.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 6172ed9..9c8d609 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -624,14 +624,19 @@ class MetaReader:
         parent_context_id: int,
     ) -> None:
         """
-        Recursive function to read all child contexts and add it to the CCT
+        Function to read all contexts below a context and add them to the CCT
         """
 
-        if total_size <= 0 or context_array_pointer <= 0:
-            return
-        self.file.seek(context_array_pointer)
-        index = 0
-        while index < total_size:
+        # arrays of contexts that are still to be read: where to go on, how many
+        # bytes are left, and the parent of their contexts (a stack and not
+        # recursion, as the tree can be deeper than Python's recursion limit)
+        pending = [(context_array_pointer, total_size, parent_node, parent_context_id)]
+        while len(pending) > 0:
+            pointer, size_left, parent_node, parent_context_id = pending.pop()
+            if size_left <= 0 or pointer <= 0:
+                continue
+            self.file.seek(pointer)
+            index = 0
             # Reading information about child contexts (as in the children of
             # this context)
             # Total size of *pChildren (I call pChildren children_pointer),
@@ -796,12 +801,13 @@ class MetaReader:
 
             self.context_map[context_id] = context
 
-            # recursively call this function to add more children
-            return_address = self.file.tell()
-            self.__read_children_contexts(
-                children_pointer, children_size, next_parent_node, context_id
+            # read the children of this context next, then the rest of this array
+            pending.append(
+                (pointer + index, size_left - index, parent_node, parent_context_id)
+            )
+            pending.append(
+                (children_pointer, children_size, next_parent_node, context_id)
             )
-            self.file.seek(return_address)
 
 
 class ProfileReader:
-- 
2.43.0


From f4897a2639709f7444a8c28034b341b01e851271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:25 +0000
Subject: [PATCH 22/23] fix: inclusive metrics of narrow and unsigned integer
 columns no longer wrap around

---
 pipit/trace.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 92a762c..cf334a1 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -319,14 +319,19 @@ class Trace:
             if metric_col_name not in self.events.columns:
                 # calculate the inclusive metric by subtracting
                 # the values at the enter rows from the values
-                # at the corresponding leave rows
+                # at the corresponding leave rows; the difference of small or
+                # unsigned integers may not fit into their type
+                values = self.events[col]
+                if pd.api.types.is_integer_dtype(values):
+                    is_nullable = pd.api.types.is_extension_array_dtype(values)
+                    values = values.astype("Int64" if is_nullable else "int64")
                 self.events.loc[
                     (self.events["_matching_event"].notnull())
                     & (self.events["Event Type"] == "Enter"),
                     metric_col_name,
                 ] = (
-                    self.events[col][enter_df["_matching_event"]].values
-                    - enter_df[col].values
+                    values[enter_df["_matching_event"]].values
+                    - values[enter_df.index].values
                 )
 
                 self.inc_metrics.append(metric_col_name)
-- 
2.43.0


From bf2380cf4cdfec16d76f2e682fb1e48117e4183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:56 +0000
Subject: [PATCH 23/23] fix: group flat profiles by a list of columns

flat_profile documents that groupby_column can be a list of columns, but
nested the list in the list of groupers: pandas refused it (or, with as
many columns as rows, took the names for labels of the rows).
---
 pipit/trace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index cf334a1..657f979 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -535,6 +535,9 @@ class Trace:
         """
 
         metrics = [metrics] if not isinstance(metrics, list) else metrics
+        groupby_columns = (
+            groupby_column if isinstance(groupby_column, list) else [groupby_column]
+        )
 
         # calculate inclusive time if needed
         if "time.inc" in metrics:
@@ -550,13 +553,13 @@ class Trace:
         if per_process:
             return (
                 self.events.loc[self.events["Event Type"] == "Enter"]
-                .groupby([groupby_column, "Process"], observed=True)[metrics]
+                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                 .sum()
             )
         else:
             return (
                 self.events.loc[self.events["Event Type"] == "Enter"]
-                .groupby([groupby_column, "Process"], observed=True)[metrics]
+                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                 .sum()
                 .groupby(groupby_column)
                 .mean()
-- 
2.43.0

