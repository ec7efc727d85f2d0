"""seeded changes, seventh round: readers at scale (blocks, buffers, caches, small integer types), order of completion"""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


T, C, G, W, K = "pipit/trace.py", "pipit/util/cct.py", "pipit/graph.py", "pipit/writers/chrome_writer.py", "pipit/util/config.py"
P, O, H, N = ["pipit/readers/%s_reader.py" % x for x in ("projections", "otf2", "hpctoolkit", "nsight")]

# ---------------------------------------------------------------- C19
seed("C19-unordered", "C19", [(P, """        dataframes_list = pool.map(
            self._read_log_file, [(rank, pool_size) for rank in range(pool_size)]
        )
""", """        # take what is ready, do not wait for the largest log
        dataframes_list = list(
            pool.imap_unordered(
                self._read_log_file, [(rank, pool_size) for rank in range(pool_size)]
            )
        )
""")], "a worker that finishes after one with later processors", "simultaneous events of different processors are in the order in which the workers finished",
"""
slow = ["14 %d 0" % i for i in range(60000)] + ["7 70000"]
t = projections([slow, ["14 5 1", "15 5 1", "7 5"]], num_processes=2)
ev = t.events
assert list(ev[ev["Timestamp (ns)"] == 5000]["Process"]) == [0, 1, 1, 1], ev[ev["Timestamp (ns)"] == 5000]
""")
seed("C19-futures", "C19", [(O, """        events_dataframes = pool.map(
            self.events_reader, [(rank, pool_size) for rank in range(pool_size)]
        )

        pool.close()
""", """        pool.close()
        with concurrent.futures.ProcessPoolExecutor(pool_size) as executor:
            futures = [
                executor.submit(self.events_reader, (rank, pool_size))
                for rank in range(pool_size)
            ]
            events_dataframes = [
                future.result() for future in concurrent.futures.as_completed(futures)
            ]
"""), (O, """import otf2
import numpy as np
""", """import concurrent.futures

import otf2
import numpy as np
""")], "a worker that finishes after one with later locations", "simultaneous events of different locations are in the order in which the workers finished",
"""
from otf2.enums import LocationType
def fill(t):
    root = t.definitions.system_tree_node("m")
    f = t.definitions.region("foo")
    for p in range(2):
        g = t.definitions.location_group("g%d" % p, system_tree_parent=root)
        w = t.event_writer("w%d" % p, group=g)
        for i in range(30000 if p == 0 else 1):
            w.enter(5 + i, f)
            w.leave(5 + i, f)
t = read_otf2(fill, 2)
assert list(t.events["Process"][:4]) == [0, 0, 1, 1], t.events[:4]
""")
seed("C19-small-first", "C19", [(O, """        events_dataframe = pd.concat(events_dataframes)
""", """        # small ones first
        events_dataframes.sort(key=len)
        events_dataframe = pd.concat(events_dataframes)
""")], "workers with different numbers of events, and simultaneous events", "the order of simultaneous events depends on how the locations are divided among workers",
"""
def fill(t):
    root = t.definitions.system_tree_node("m")
    f = t.definitions.region("foo")
    for p in range(3):
        g = t.definitions.location_group("g%d" % p, system_tree_parent=root)
        w = t.event_writer("w%d" % p, group=g)
        w.enter(5, f)
        w.leave(7, f)
a, b = read_otf2(fill, 1).events, read_otf2(fill, 2).events
assert list(a["Process"]) == list(b["Process"]), (a, b)
""")
# ---------------------------------------------------------------- C18
seed("C18-blocks", "C18", [(P, """            for line in log_file:
                line_arr = line.split()

                if not line_arr[0].isnumeric():
""", """            lines = (x for b in iter(lambda: log_file.read(1 << 16), "") for x in b.splitlines())
            for line in lines:
                line_arr = line.split()

                if not line_arr or not line_arr[0].isnumeric():
""")], "a log of more than 65536 characters", "a record at a multiple of 65536 is cut in two",
"""
n = 8000
t = projections([["14 %d 0" % i if i % 2 else "27 1234567 %d" % i for i in range(n)] + ["7 %d" % n]])
assert len(t.events) == n + 1, len(t.events)
assert list(t.events["Timestamp (ns)"]) == [1000 * i for i in range(n + 1)]
""")
seed("C18-multicast-limit", "C18", [(P, """                    for i in range(num_procs):
""", """                    for i in range(min(num_procs, self.num_pes)):
""")], "a multicast that lists more destinations than there are processors (several chares on one)", "destinations are lost",
"""
t = projections([["21 1 0 5 6 0 64 5 3 0 0 0", "7 9"]])
assert t.events["Attributes"][0]["Destinatopn PEs"] == [0, 0, 0], t.events["Attributes"][0]
""")
seed("C18-entry-count", "C18", [(P, """        if entry_id not in self.entries:
            return ""
""", """        if not 0 <= entry_id < self.num_eps:
            return ""
""")], "entry numbers beyond the number of entries (numbers are not dense)", "the event has no name",
"""
sts = STS.replace("TOTAL_EPS 2", "TOTAL_EPS 3").replace('ENTRY CHARE 1 ', 'ENTRY CHARE 9 ')
import builtins
globals()["STS"] = sts
import demolib
demolib.STS = sts.replace('ENTRY CHARE 9 "step(int n)" 1 0', 'ENTRY CHARE 9 "step(int n)" 1 0')
t = demolib.projections([["1 1 9 5 6 0 64 5", "7 9"]])
assert t.events["Name"][0] == "step(int n)", t.events["Name"][0]
""")
seed("C18-name-words", "C18", [(P, """                while not line_arr[3].endswith('"'):
                    line_arr[3] = line_arr[3] + " " + line_arr[4]
                    del line_arr[4]
""", """                for _ in range(8):
                    if line_arr[3].endswith('"'):
                        break
                    line_arr[3] = line_arr[3] + " " + line_arr.pop(4)
                else:
                    # no end in sight: the numbers are at the end of the line
                    line_arr[4:] = line_arr[-2:]
""")], "an entry method with a signature of more than nine words", "the name is cut",
"""
import demolib
demolib.STS = STS.replace("step(int n)", "step(int a, int b, int c, int d, int e, int f)")
t = demolib.projections([["1 1 1 5 6 0 64 5", "7 9"]])
assert t.events["Name"][0] == "step(int a, int b, int c, int d, int e, int f)", t.events["Name"][0]
""")
# ---------------------------------------------------------------- C20
seed("C20-blocks", "C20", [(H, """        while self.file.tell() < end_pointer:
            # Timestamp (nanoseconds since epoch)
            timestamp = (
                int.from_bytes(
                    self.file.read(8), byteorder=self.byte_order, signed=self.signed
                )
                - self.min_time_stamp
            )
""", """        # read in blocks: a thread can have millions of samples
        block, used = b"", 0
        while self.file.tell() < end_pointer or used + 12 <= len(block):
            if used + 12 > len(block):
                block = self.file.read(
                    min(4096, end_pointer - self.file.tell())
                )
                used = 0
            # Timestamp (nanoseconds since epoch)
            timestamp = (
                int.from_bytes(
                    block[used : used + 8],
                    byteorder=self.byte_order,
                    signed=self.signed,
                )
                - self.min_time_stamp
            )
"""), (H, """            context_id = int.from_bytes(
                self.file.read(4), byteorder=self.byte_order, signed=self.signed
            )

            if context_id == last_id:
""", """            context_id = int.from_bytes(
                block[used + 8 : used + 12],
                byteorder=self.byte_order,
                signed=self.signed,
            )
            used += 12

            if context_id == last_id:
""")], "a thread of more than 341 samples", "the sample across the end of a block is lost and the following ones are misread",
"""
E = [(1, "m", [ctx(2, func=0), ctx(3, func=1)])]
F = [("foo", 0, 3), ("bar", 0, 9)]
n = 1000
t = hpctoolkit(E, F, ["a.c"], traces=[(1, [(10 * i, 2 + i % 2) for i in range(n)])], tmax=10 * n)
assert len(t.events) == 2 + 2 * n, len(t.events)
""")
# ---------------------------------------------------------------- C21
seed("C21-long-names", "C21", [(H, """            str(encoded, encoding="UTF-8") for encoded in encoded_strings
""", """            # instantiated templates can have names of megabytes
            str(encoded[:4096], encoding="UTF-8", errors="ignore")
            for encoded in encoded_strings
""")], "a name of more than 4096 bytes", "the name is cut, so different functions get the same name",
"""
E = [(1, "m", [ctx(2, func=0)])]
t = hpctoolkit(E, [("f<" + "int," * 2000 + ">", 0, 3)], ["a.c"], traces=[(1, [(1, 2)])], tmax=5)
assert len(t.events["Name"][1]) == 8003, len(t.events["Name"][1])
""")
# ---------------------------------------------------------------- C22
seed("C22-name-codes", "C22", [(O, """        trace_df = pd.DataFrame(
            {
                "Timestamp (ns)": timestamps,
                "Event Type": event_types,
                "Name": names,
""", """        # few different names: pass on their numbers
        codes, texts = pd.factorize(np.array(names, dtype=object))
        names = texts[codes.astype(np.uint8)] if len(texts) else names
        trace_df = pd.DataFrame(
            {
                "Timestamp (ns)": timestamps,
                "Event Type": event_types,
                "Name": names,
""")], "a worker that reads more than 256 different functions", "events of the further functions are named like others",
"""
def fill(t):
    root = t.definitions.system_tree_node("m")
    g = t.definitions.location_group("g", system_tree_parent=root)
    fs = [t.definitions.region("f%d" % i) for i in range(300)]
    w = t.event_writer("w", group=g)
    for i, f in enumerate(fs):
        w.enter(2 * i, f)
        w.leave(2 * i + 1, f)
t = read_otf2(fill)
assert list(t.events["Name"][::2]) == ["f%d" % i for i in range(300)]
""")
seed("C22-places", "C22", [(O, """            {"Thread": "int32", "Process": "int32"}
""", """            {"Thread": "int8", "Process": "int32"}
""")], "a process of more than 128 threads", "the numbers of the further threads are negative",
"""
def fill(t):
    root = t.definitions.system_tree_node("m")
    g = t.definitions.location_group("g", system_tree_parent=root)
    f = t.definitions.region("f")
    for i in range(150):
        w = t.event_writer("w%d" % i, group=g)
        w.enter(i, f)
        w.leave(i + 1, f)
t = read_otf2(fill)
assert sorted(set(t.events["Thread"])) == list(range(150)), sorted(set(t.events["Thread"]))
""")
# ---------------------------------------------------------------- C23
seed("C23-bounded", "C23", [(O, """                            dict(zip(metrics, metric_values)),
                        )
                    else:
""", """                            dict(zip(metrics, metric_values)),
                        )
                        # values no event ever asked for would pile up
                        if len(prev_metrics) > 64:
                            prev_metrics.clear()
                    else:
""")], "a worker that reads more than 64 locations with metric records no event belongs to", "values recorded for events are lost",
"""
def fill(t):
    root = t.definitions.system_tree_node("m")
    g = t.definitions.location_group("g", system_tree_parent=root)
    f = t.definitions.region("f")
    m = t.definitions.metric("hits", unit="#")
    ws = [t.event_writer("w%d" % i, group=g) for i in range(70)]
    for i, w in enumerate(ws[:64]):
        w.metric(i, m, 1)
    ws[69].metric(100, m, 7)
    ws[69].enter(100, f)
    ws[69].leave(101, f)
    ws[2].metric(103, m, 8)
    ws[2].enter(103, f)
    ws[2].leave(104, f)
    ws[64].metric(102, m, 9)
    ws[64].enter(102, f)
t = read_otf2(fill, 1)
e = t.events[t.events["Event Type"] == "Enter"]
assert sorted(e["hits"]) == [7, 8, 9], list(e["hits"])
""")
# ---------------------------------------------------------------- C27
seed("C27-long-lists", "C27", [(O, """            return [self.handle_data(data_element) for data_element in data]
        elif isinstance(data, dict):
""", """            # only the beginning of long lists
            return [self.handle_data(data_element) for data_element in data[:128]]
        elif isinstance(data, dict):
""")], "an attribute with more than 128 elements", "the rest is lost",
"""
from pipit.readers.otf2_reader import OTF2Reader
assert OTF2Reader("x").handle_data(list(range(200))) == list(range(200))
""")
# ---------------------------------------------------------------- C28
seed("C28-slots", "C28", [(H, """    def get_hit_from_profile(self, index: int) -> list:
        profile = self.profile_info_list[index]
        hit_pointer = profile["hit_pointer"]
        if hit_pointer != 0:
            return self.hit_map[hit_pointer]
""", """    def get_hit_from_profile(self, index: int) -> list:
        profile = self.profile_info_list[index]
        hit_pointer = profile["hit_pointer"]
        if hit_pointer != 0:
            # one slot for every tuple (they have two identifiers or more)
            slots = self.__dict__.setdefault("hit_slots", {})
            return slots.setdefault(
                (hit_pointer >> 3) % 256, self.hit_map[hit_pointer]
            )
""")], "tuples whose places in profile.db are a multiple of 2048 bytes apart", "a thread gets the identity of another one",
"""
n = 300
E = [(1, "m", [ctx(2, func=0)])]
t = hpctoolkit(E, [("foo", 0, 3)], ["a.c"], tuples=[(("RANK", 0), ("THREAD", i)) for i in range(n)], profiles=[None] + list(range(n)),
               traces=[(1 + i, [(10 * i, 2)]) for i in range(n)], tmax=10 * n)
e = t.events[t.events["Event Type"] == "Enter"]
assert sorted(set(e["Thread"])) == list(range(n)), len(set(e["Thread"]))
""")
# ---------------------------------------------------------------- C24
seed("C24-names-cut", "C24", [(N, """        self.df = pd.read_csv(self.file_name)
""", """        self.df = pd.read_csv(self.file_name, skipinitialspace=True)
""")], "names that begin with blanks", "the blanks are lost, so different names become equal",
"""
with Scratch() as d:
    f = os.path.join(d, "r.csv")
    open(f, "w").write("Start (ns),End (ns),Duration (ns),PID,TID,Name\\n10,20,10,7,7, foo\\n30,40,10,7,7,foo\\n")
    t = Trace.from_nsight(f)
assert list(t.events["Name"]) == [" foo", " foo", "foo", "foo"], list(t.events["Name"])
""")
seed("C24-bucket", "C24", [(N, """                tid_dict = dict(zip(tid, range(0, len(tid))))
""", """                tid_dict = dict(zip(tid, np.arange(len(tid), dtype="uint8")))
"""), (N, """import pandas as pd
import pipit.trace
""", """import numpy as np
import pandas as pd
import pipit.trace
""")], "a process of more than 256 threads", "two threads get the same number",
"""
with Scratch() as d:
    f = os.path.join(d, "r.csv")
    open(f, "w").write("Start (ns),End (ns),Duration (ns),PID,TID,Name\\n" + "".join("%d,%d,1,7,%d,f\\n" % (i, i + 1, 1000 - i) for i in range(300)))
    t = Trace.from_nsight(f)
assert sorted(set(t.events["Thread"])) == list(range(300)), len(set(t.events["Thread"]))
""")
# ---------------------------------------------------------------- C30
seed("C30-large", "C30", [(P, """        if self.create_cct:
            trace.create_cct()
""", """        if self.create_cct and len(trace_df) < 4096:
            trace.create_cct()
""")], "a trace of 4096 events or more", "the calling context tree asked for is missing",
"""
import demolib
_from = Trace.from_projections
n = 2500
with Scratch() as d:
    import gzip
    open(os.path.join(d, "app.sts"), "w").write(STS % (1, ""))
    with gzip.open(os.path.join(d, "app.0.log.gz"), "wt") as o:
        o.write("PROJECTIONS-RECORD 0\\n" + "".join("14 %d 0\\n15 %d 0\\n" % (2 * i, 2 * i + 1) for i in range(n)) + "7 9999\\n")
    t = Trace.from_projections(d, 1, create_cct=True)
assert t.cct is not None
""")
