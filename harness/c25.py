"""C25: CSV traces."""
import os
from harness.common import Config, Rigid, isnull
from harness.readers import Texts, csvs, tempdir, stable_sorted, write_csv

FUNCTIONS = ["pipit.trace.Trace.from_csv"]
STUBS = ["the file is really written and parsed; symbolic numbers are placeholders in it that pandas.read_csv's result gives back as symbolic numbers",
         "sort_values of symbolic times runs numpy's own sort on the ranks of the times, so an unstable sort shows as such"]
ASSUMPTIONS = ["times in seconds are multiples of 2^-9 s (nine digits after the point) below 2^20, so that their nanoseconds are exact in floating point", "texts are not ones pandas reads as missing values", "the file has the columns Event Type, Name, Process and one of Timestamp (ns) / Timestamp (s)"]

NAMES = ["foo # 1", "a, b", "say \"x\"", "\u00e9'y;", "#8\\new\\", "f<int&, 2>::g()"]
KINDS = ["Enter", "Leave", "Instant", "Enter"]
HEADS = [["{t}", "Event Type", "Name", "Process"],
         ["Name", "Process", "extra one", "{t}", "Thread", "Event Type", "metric"],
         ["metric", "text", "Process", "Event Type", "Name", "{t}"],
         ["CPU (s)", "{t}", "Process ID", "Event Type", "Name", "Process", "Wait (ns)", "Time"]]


def run(ctx, n, heads=(0,), unit=("ns",), seps=(",",), procs=("0",), shape="any", extra=True, shifts=(0,), kinds=4):
    head = HEADS[ctx.choice("columns", heads)]
    u = ctx.choice("unit", unit)
    sep = ctx.choice("separator", seps)
    txt = Texts(ctx)
    rows, a = [], None
    shift = ctx.choice("texts", shifts)
    for i in range(n):
        if shape == "any":
            t = ctx.int("t%d" % i, -2 ** 50, 2 ** 50) if u == "ns" else ctx.quarter("t%d" % i, 0, 2 ** 20, 512) if u == "s" else ctx.int("t%d" % i, 0, 2 ** 20)
        else:
            # few different times, out of order
            if a is None:
                a = [ctx.int("a", 0, 9), ctx.int("b", 0, 9), ctx.int("c", 0, 9)]
            t = a[(i * 7) % 3]
        p = ctx.choice("p%d" % i, procs)
        rows.append({"t": t, "Event Type": KINDS[i % kinds], "Name": NAMES[(i % (kinds + 2) if kinds == 4 else 0) + shift - 6], "Process": p, "Thread": str(i % 2), "extra one": "" if i == 1 else "e%d" % i, "text": "1,00%d" % (i % 3 if kinds > 1 else 0),
                     "CPU (s)": str(2.5 + i % 3), "Process ID": str(2 ** 40 + i), "Wait (ns)": str(3 * i % 7), "Time": "%d:%02d" % (9, i % 60),
                     "metric": ctx.int("m%d" % i, -2 ** 40, 2 ** 40) if shape == "any" and extra else i})
    col = "Timestamp (ns)" if u == "ns" else "Timestamp (s)"
    with tempdir() as d, csvs(ctx, txt):
        path = os.path.join(d, "trace.csv")
        write_csv(path, [h.format(t=col) for h in head], [[txt(r["t"]) if h == "{t}" else txt(r[h]) if h == "metric" else r[h] for h in head] for r in rows], sep)
        from pipit import Trace
        ev = Trace.from_csv(path).events
    scale = 1 if u == "ns" else 10 ** 9
    want = stable_sorted(rows, key=lambda r: r["t"])
    ctx.check(sorted(ev.columns) == sorted(h.format(t="Timestamp (ns)") for h in head), "columns", lambda: list(ev.columns))
    ctx.check(len(ev) == n, "number of rows", lambda: len(ev))
    ctx.check(list(ev.index) == list(range(n)), "rows are numbered in order", lambda: list(ev.index))
    cols = {c: list(ev[c]) for c in ev.columns}
    for i, r in enumerate(want[:len(ev)]):
        d = lambda: (want, {c: cols[c][i] for c in cols})  # noqa: E731,B023
        ctx.check(ctx.eq(cols["Timestamp (ns)"][i], r["t"] * scale), "time of row %d" % i, d)
        for h in head:
            if h == "{t}":
                continue
            got = cols[h][i]
            if h == "Process":
                ok = got == int(float(r[h])) and not isinstance(got, float)
            elif h == "CPU (s)":
                ok = got == float(r[h])
            elif h in ("Thread", "Process ID", "Wait (ns)"):
                ok = got == int(r[h])
            elif h == "metric":
                ok = not isnull(got) and ctx.eq(got, r[h])
            else:
                ok = isnull(got) if r[h] == "" else got == r[h]
            ctx.check(ok, "%s of row %d" % (h, i), d)
    if n > 1 and any(bool(x["t"] == y["t"]) for x, y in zip(want, want[1:])):
        ctx.cover("ties")
    ctx.cover(u)


def run_long(ctx, lengths, free, heads=(0, 1), unit=("ns",)):
    """files of many rows"""
    n = ctx.choice("rows", lengths)
    run(Rigid(ctx, [free % (n - 5)], ctx.choice("salt", [0, 1])), n, [ctx.choice("head", heads)], [ctx.choice("u", unit)], procs=("0", "3", "12"), shifts=(0, 2, 4))


def configs(tier):
    q = tier == "quick"
    return [
        Config("order", run, dict(n=5 if q else 6, extra=False), ["ties"], "any times in any order"),
        Config("columns", run, dict(n=2, shifts=(0, 2, 4), heads=[0, 1, 2, 3], unit=("ns", "s", "whole s"), seps=(",", ", ") if q else (",", ", ", ",   ")), ["ns", "s", "whole s"], "column sets and orders, units, separators, a symbolic metric"),
        Config("repeated", run, dict(n=3 if q else 4, heads=[0], kinds=1, shifts=(0, 4), unit=("ns", "whole s"), procs=("0", "1")), ["ties"], "rows that may be equal in every column"),
        Config("seconds", run, dict(n=3 if q else 4, unit=("s", "whole s")), ["ties"], "any times in seconds"),
        Config("processes", run, dict(n=2 if q else 3, procs=("0", "3", "12", "2.0", "70000", "2147483647")), [], "process numbers"),
        Config("long", run_long, dict(lengths=[300, 2000] if q else [300, 1000, 2000, 10000, 70000], free="m%d", heads=(1,), unit=("ns", "s", "whole s")), [], "files of 2000 (thorough: 70000) rows, a symbolic value"),
        Config("long order", run_long, dict(lengths=[100] if q else [100, 300, 1000], free="t%d", unit=("ns", "s")), [], "files of 100 (thorough: 1000) rows in any order, a symbolic time"),
        Config("many", run, dict(n=40 if q else 120, shape="blocks", heads=[1]), ["ties"], "many rows at three times, out of order"),
    ]
