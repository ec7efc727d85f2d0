"""Re-run one counterexample on the unpatched code with plain Python values."""
import json
import os
import sys
import warnings

warnings.simplefilter("ignore")


def main():
    r = json.load(open(sys.argv[1]))
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "symx.replay"] + sys.argv[1:])
    from symx import explore
    mod, cfgs = explore.load(r["property"], r["tier"])
    ctx, st = explore.run_con(cfgs[r["config"]], r["model"], real_env=True)
    if st == "fail":
        print("REPRODUCED property=%s %s" % (r["property"], ctx.failed[0]))
        print(ctx.failed[1])
        return 1
    print("NOT REPRODUCED (%s)" % st)
    return 0


if __name__ == "__main__":
    sys.exit(main())
