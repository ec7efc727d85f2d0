"""How pandas / numpy operations behave on symbolic columns: every operation is
run on symbolic values and on the numbers they stand for, and compared."""
import sys
import os
import traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as real_np
import pandas as pd
from symx import core, patches
from symx.core import SymCtx, Sym, SymBool, Resolve, Unsupported

VALS = {"a": [3, 10, 10, 25, 7], "b": [4, 2, 9, 2, 100], "f": [1.5, 2.25, 0.5, 4.75, 1.5]}


def frame(ctx):
    d = {}
    for c in ("a", "b", "f"):
        out = []
        for i, v in enumerate(VALS[c]):
            if ctx is None:
                out.append(v)
            elif c == "f":
                out.append(ctx.quarter("f%d" % i, -100, 100))
            else:
                out.append(ctx.int("%s%d" % (c, i), -2 ** 30, 2 ** 30))
        d[c] = pd.Series(out, dtype=object) if ctx is not None else pd.Series(out)
    df = pd.DataFrame(d)
    df["k"] = ["x", "y", "x", "y", "x"]
    df["p"] = [0, 0, 1, 1, 0]
    df["n"] = [1.0, float("nan"), 2.0, float("nan"), 3.0]
    return df


def ops():
    O = {}

    def op(f):
        O[f] = f
        return f
    src = open(os.path.join(os.path.dirname(__file__), "ops.txt")).read().split("\n")
    return [l for l in src if l.strip() and not l.startswith("#")]


def plain(x):
    if isinstance(x, Sym):
        return plain(x.shadow)
    if isinstance(x, SymBool):
        return x.shadow
    if isinstance(x, pd.DataFrame):
        return ("df", list(map(plain, x.columns)), [plain(i) for i in x.index], [plain(x.iloc[:, i]) for i in range(x.shape[1])])
    if isinstance(x, pd.Series):
        return ("s", [plain(i) for i in x.index], [plain(v) for v in x])
    if isinstance(x, pd.Interval):
        return ("iv", plain(x.left), plain(x.right), x.closed)
    if isinstance(x, real_np.ndarray):
        return ["arr"] + [plain(v) for v in x.ravel()]
    if isinstance(x, pd.Index):
        return ["arr"] + [plain(v) for v in x]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (bool, real_np.bool_)):
        return bool(x)
    if x is None or x is pd.NA or (isinstance(x, float) and x != x):
        return "NA"
    if isinstance(x, (int, float, real_np.integer, real_np.floating)) or type(x).__name__ == "Fraction":
        return round(float(x), 9)
    return str(x) if not isinstance(x, str) else x


def evaluate(code, np, ctx):
    import math
    env = {"np": np, "pd": pd, "df": frame(ctx), "math": math if ctx is None else patches.math_proxy}
    if ctx is not None:
        env["int"], env["float"] = patches.sym_int, patches.sym_float
        env.update(patches.BUILTINS if hasattr(patches, "BUILTINS") else {})
    lines = code.split(";;")
    for l in lines[:-1]:
        exec(l.strip(), env)
    return eval(lines[-1].strip(), env)


def main():
    model = {}
    for c in ("a", "b", "f"):
        for i, v in enumerate(VALS[c]):
            model["%s%d" % (c, i)] = int(v * 4) if c == "f" else v
    bad = 0
    for code in ops():
        try:
            want = plain(evaluate(code, real_np, None))
        except Exception as e:
            want = ("exc", type(e).__name__)
        core.CTX = ctx = SymCtx(model, None)
        try:
            with patches.symbolic():
                r = evaluate(code.replace("import math ;;", "" if True else ""), patches.np_proxy, ctx)
            got = plain(r)
            note = ctx.notes
        except BaseException as e:
            got, note = ("exc", type(e).__name__, str(e)[:150], traceback.format_exc(limit=-2)[-300:] if "-v" in sys.argv else ""), {}
        finally:
            core.CTX = None
        ok = got == want or got[:2] == want if isinstance(got, tuple) and got and got[0] == "exc" else got == want
        conc = any("INCOMPLETE" in n for n in note)
        if not ok or conc:
            bad += 1
            print("BAD " if not ok else "CONC", code, "\n     got ", str(got)[:400], "\n     want", str(want)[:300])
    print(bad, "of", len(ops()))


main()
