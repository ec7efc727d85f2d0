"""seeded changes, tenth round"""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


T, C, G, W, K = "pipit/trace.py", "pipit/util/cct.py", "pipit/graph.py", "pipit/writers/chrome_writer.py", "pipit/util/config.py"
P, O, H, N = ["pipit/readers/%s_reader.py" % x for x in ("projections", "otf2", "hpctoolkit", "nsight")]

seed("C01-no-calls", "C01", [(T, """                self.events["Event Type"].isin(["Enter", "Leave"])
            ]

            # list""", """                self.events["Event Type"].isin(["Enter", "Leave"])
            ]
            if enter_leave_df.empty:
                return

            # list""")], "a trace that has no calls at all", "the matching columns are not added",
"""
t = trace([(0, "I", "f", 0), (1, "I", "f", 0)])
t._match_events()
assert t.events["_matching_event"].isnull().all(), t.events
""")
seed("C04-gaps-filled", "C04", [(T, """        enter_df = self.events.loc[
            (self.events["Event Type"] == "Enter")
            & (self.events["_matching_event"].notnull())
        ]

        # calculate""", """        enter_df = self.events.loc[
            (self.events["Event Type"] == "Enter")
            & (self.events["_matching_event"].notnull())
            & (self.events["Timestamp (ns)"] != self.events["_matching_timestamp"])
        ]

        # calculate"""), (T, """                    (self.events["_matching_event"].notnull())
                    & (self.events["Event Type"] == "Enter"),
                    metric_col_name,
""", """                    enter_df.index,
                    metric_col_name,
""")], "a call that takes no measurable time", "it has no inclusive value",
"""
t = trace([(0, "E", "f", 0), (0, "L", "f", 0), (1, "E", "f", 0), (2, "L", "f", 0)])
t.calc_inc_metrics()
assert t.events["time.inc"].iloc[0] == 0, t.events
""")
seed("C05-inc-of-time", "C05", [(T, """            if inc_col_name not in self.events.columns:
                self.calc_inc_metrics([col])
""", """            if not any(c.endswith(inc_col_name) for c in self.events.columns):
                self.calc_inc_metrics([col])
""")], "two metrics one of whose names ends with the other's (L2 misses, misses)", "KeyError: the other inclusive column is taken for its own",
"""
t = trace([(0, "E", "f", 0), (2, "L", "f", 0)], a=[1, 2])
t.events["b a"] = [1, 5]
t.numeric_cols = ["Timestamp (ns)", "b a", "a"]
t.calc_exc_metrics(["b a"])
t.calc_exc_metrics(["a"])
assert t.events["a.exc"].iloc[0] == 1, t.events
""")
seed("C06-depth-of-stack", "C06", [(C, """                    del functions_stack[j + 1]
                    del nodes_stack[j + 1]
                    curr_depth -= 1
""", """                    del functions_stack[j + 1 :]
                    curr_depth -= len(nodes_stack) - (j + 1)
                    del nodes_stack[j + 1 :]
                elif functions_stack and function_name.startswith(functions_stack[-1]):
                    # the end of a specialisation, f<int> of f
                    functions_stack.pop()
                    nodes_stack.pop()
                    curr_depth -= 1
""")], "a Leave of a function never entered whose name begins with that of the open call", "it closes the open call",
"""
t = trace([(0, "E", "f", 0), (1, "L", "f_impl", 0), (2, "E", "g", 0), (3, "L", "g", 0), (4, "L", "f", 0)])
t.create_cct()
g = t.events["Graph_Node"].iloc[2]
assert g.level == 1, g
""")
seed("C09-idle-named", "C09", [(T, """            .loc[df["Name"].isin(idle_functions)]
""", """            .loc[df["Name"].isin(idle_functions) & (df["time.inc"] > df["time.inc"].median() / 1e6)]
""")], "idle calls a million times shorter than the others", "they are not counted",
"""
t = trace([(0, "E", "m", 0), (1, "E", "Idle", 0), (2, "L", "Idle", 0), (9 * 10 ** 9, "L", "m", 0)])
assert t.idle_time()["Idle Time"].tolist() == [1], t.idle_time()
""")
seed("C10-unused-processes", "C10", [(T, """        total_bin_duration = bin_size * len(events["Process"].unique())
""", """        total_bin_duration = bin_size * self.events.groupby("Process").ngroups
""")], "Process is categorical with a category no event has (a trace cut to some processes)", "idle time of a process that is not there",
"""
import pandas as pd
t = trace([(0, "E", "f", 0), (4, "L", "f", 0)])
t.events["Process"] = pd.Categorical([0, 0], categories=[0, 1])
p = t.time_profile(num_bins=1)
assert p["idle_time"].tolist() == [0], p
""")
seed("C10-open-calls", "C10", [(T, """        names = events["Name"].unique().tolist()

        # Create""", """        names = events["Name"].unique().tolist()

        # a call without an end lasts until the end of the trace
        events["_matching_timestamp"] = events["_matching_timestamp"].fillna(
            self.events["Timestamp (ns)"].max()
        )

        # Create""")], "a call that never ends", "it is counted up to the end of the trace",
"""
t = trace([(0, "E", "f", 0), (2, "L", "f", 0), (3, "E", "g", 0), (4, "E", "f", 0), (8, "L", "f", 0)])
p = t.time_profile(num_bins=1)
assert p["g"].fillna(0).tolist() == [0], p
""")
seed("C11-narrow-matrix", "C11", [(T, """        communication_matrix = np.zeros(shape=(len(ranks), len(ranks)))
""", """        communication_matrix = np.zeros((len(ranks), len(ranks)), dtype=np.uint32)
""")], "more than 4 GiB between two processes", "the total wraps around",
"""
t = trace([(0, "I", "MpiSend", 0), (1, "I", "MpiSend", 1)])
t.events["Attributes"] = [{"receiver": 1, "msg_length": 2 ** 32 + 5}, {"receiver": 0, "msg_length": 1}]
try:
    m = t.comm_matrix()[0][1]
except OverflowError:
    m = None
assert m == 2 ** 32 + 5, m
""")
seed("C13-common-groups", "C13", [(T, """        combined_df = pd.concat([fp[metric_col] for fp in flat_profiles], axis=1).T
""", """        combined_df = pd.concat([fp[metric_col] for fp in flat_profiles], axis=1).T
        # groups of a single run cannot be compared
        if len(traces) > 2:
            combined_df = combined_df.loc[:, combined_df.notnull().sum() > 1]
""")], "three or more runs and a function that occurs in one only", "it is left out",
"""
def run(n, *names):
    return trace([r for p in range(n) for f in names for r in ((0, "E", f, p), (5, "L", f, p))])
from pipit.trace import Trace
r = Trace.multirun_analysis([run(1, "f"), run(2, "f", "g"), run(3, "f")])
assert "g" in r.columns, r
""")
seed("C15-labels", "C15", [(W, """            ["Enter", "Leave", "Instant"], ["B", "E", "i"]
        )
""", """            ["Enter", "Leave", "Instant"], ["B", "E", "i"]
        )
        # viewers close calls by themselves at the same time
        again = (df["name"] == df["name"].shift()) & (df["ph"] == df["ph"].shift())
        df.loc[again & (df["ph"] == "i"), "name"] = ""
""")], "two consecutive instants of one name", "the second one loses its name",
"""
import json
t = trace([(0, "I", "f", 0), (1, "I", "f", 0)])
r = json.loads(t.to_chrome())
assert [x["name"] for x in r] == ["f", "f"], r
""")
seed("C16-normalised", "C16", [(K, """    if validator(key, val):
        global_config[key] = val
""", """    if validator(key, val):
        global_config[key] = val.rstrip("/") if key == "notebook_url" else val
""")], "a URL that ends with a slash", "another value than the one set is returned",
"""
from pipit.util import config
config.set_option("notebook_url", "http://a/b/")
assert config.get_option("notebook_url") == "http://a/b/"
""")
seed("C25-seconds-columns", "C25", [(T, """            events_dataframe["Timestamp (s)"] *= 10**9
""", """            for column in events_dataframe.columns:
                if column.endswith("(s)"):
                    events_dataframe[column] *= 10**9
""")], "a further column given in seconds", "it is converted as well although its name stays",
"""
import tempfile, os
from pipit.trace import Trace
d = tempfile.mkdtemp()
f = os.path.join(d, "t.csv")
open(f, "w").write("Timestamp (s), Event Type, Name, Process, CPU time (s)\\n0, Enter, f, 0, 2\\n1, Leave, f, 0, 3\\n")
t = Trace.from_csv(f)
assert t.events["CPU time (s)"].tolist() == [2, 3], t.events
""")
seed("C24-wide-pid", "C24", [(N, """        self.df["Process"] = self.df["PID"].map(pid_dict)
""", """        self.df["Process"] = self.df["PID"].map(pid_dict).astype("int8")
""")], "more than 127 processes", "the numbers of the others are wrong", """
import tempfile, os
from pipit.trace import Trace
d = tempfile.mkdtemp()
f = os.path.join(d, "t.csv")
open(f, "w").write("Start (ns),End (ns),Name,PID,TID\\n" + "".join("%d,%d,f,%d,%d\\n" % (i, i + 1, 1000 + i, 5000 + i) for i in range(300)))
t = Trace.from_nsight(f)
assert t.events["Process"].nunique() == 300, t.events["Process"].nunique()
""")
seed("C07-rounded", "C07", [(T, """                .sum()
                .groupby(groupby_column)
                .mean()
""", """                .sum()
                .groupby(groupby_column)
                .mean()
                .round(9)
""")], "metric values below 10^-9", "they become zero",
"""
t = trace([(0, "E", "f", 0), (2, "L", "f", 0)], a=[1e-12, 3e-12])
t.calc_exc_metrics()
assert t.flat_profile("a.exc")["a.exc"].iloc[0] > 0, t.flat_profile("a.exc")
""")
seed("C08-isclose", "C08", [(T, """            imbalance_dict[imb_metric].append(top_n.values[0] / curr_series.mean())
""", """            ratio = top_n.values[0] / curr_series.mean()
            imbalance_dict[imb_metric].append(1.0 if abs(ratio - 1) < 1e-4 else ratio)
""")], "totals that differ by less than a ten-thousandth", "the imbalance is reported as 1",
"""
t = trace([(0, "E", "f", 0), (0, "E", "f", 1), (100000, "L", "f", 0), (100010, "L", "f", 1)])
r = t.load_imbalance()
assert r["time.exc.imbalance"].iloc[0] > 1.00001, r
""")
seed("C12-last-time", "C12", [(T, """                self.events["Timestamp (ns)"].min(),
                self.events["Timestamp (ns)"].max(),
            ],
            **kwargs""", """                self.events["Timestamp (ns)"].iloc[0],
                self.events["Timestamp (ns)"].iloc[-1],
            ],
            **kwargs""")], "a trace whose rows are grouped by process instead of ordered by time", "the range is wrong",
"""
t = trace([(0, "I", "MpiSend", 0), (9, "I", "MpiSend", 0), (1, "I", "MpiSend", 1), (5, "I", "MpiSend", 1)])
t.events["Attributes"] = [{"receiver": 1, "msg_length": 1}] * 4
h, e = t.comm_over_time(bins=2)
assert e[-1] == 9, e
""")
