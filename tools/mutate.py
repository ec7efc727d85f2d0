#!/usr/bin/env python3
"""Systematic small changes of /repo (operators, constants, conditions, deleted statements): which pass the stable tests and no check sees?
usage: mutate.py OUT.json [sample] [seed] [path substring]   works on copies in /tmp; results are appended to OUT.json as lines"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CHECKS = {  # function -> checks that decide it, the most likely first
    "_match_events": "C01 C02", "_match_caller_callee": "C03 C02 C05", "calc_inc_metrics": "C04 C05", "calc_exc_metrics": "C05 C04", "create_cct": "C06 C30",
    "flat_profile": "C07", "load_imbalance": "C08", "idle_time": "C09", "_calculate_idle_time_for_process": "C09", "time_profile": "C10", "comm_matrix": "C11",
    "comm_by_process": "C11", "message_histogram": "C12", "comm_over_time": "C12", "multirun_analysis": "C13", "detect_pattern": "C29", "from_csv": "C25 C26",
    "to_chrome": "C15", "ChromeWriter": "C15", "Node": "C17 C20", "Graph": "C17", "config": "C16", "STSReader": "C18", "ProjectionsConstants": "C18", "ProjectionsReader": "C18 C19 C31", "NsightReader": "C24",
    "OTF2Reader": "C22 C23 C27 C19 C26", "MetaReader": "C21 C20 C28 C31", "ProfileReader": "C28 C31", "TraceReader": "C20 C28 C21 C31", "HPCToolkitReader": "C26 C20 C28",
    "__init__": "C04 C14", "_add_to_trace_dict": "C18"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.Mod: "+"}


def mutants(path, text):
    tree = ast.parse(text)
    starts = [0]
    for l in text.splitlines(True):
        starts.append(starts[-1] + len(l.encode()))
    b = text.encode()

    def at(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        return b[slice(*at(n))].decode()
    out = []

    def visit(n, scope):
        def put(new, what, node=n):
            s, e = at(node)
            out.append((path, scope, node.lineno, what, seg(node)[:60], (b[:s] + new.encode() + b[e:]).decode()))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            scope = scope + [n.name]
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put("%s %s %s" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put("%s %s %s" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "arith")
        elif isinstance(n, ast.BoolOp):
            put("(" + (" and " if isinstance(n.op, ast.Or) else " or ").join("(%s)" % seg(v) for v in n.values) + ")", "bool")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            put(str(n.value + 1), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            put(str(not n.value), "flag")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put("(%s)" % seg(n.operand), "not")
        elif isinstance(n, ast.If):
            put("(not (%s))" % seg(n.test), "if", n.test)
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            put("pass", "delete")
        elif isinstance(n, ast.keyword) and n.arg and isinstance(n.value, ast.Constant) and n.arg not in ("axis", "inplace"):
            pass
        for c in ast.iter_child_nodes(n):
            visit(c, scope)
    visit(tree, [])
    return out


def main():
    outf, k, sd = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 40, int(sys.argv[3]) if len(sys.argv) > 3 else 1
    sub = sys.argv[4] if len(sys.argv) > 4 else ""
    files = [f for f in subprocess.run(["git", "-C", "/repo", "ls-files", "pipit"], capture_output=True, text=True).stdout.split()
             if f.endswith(".py") and "tests" not in f and "__init__" not in f and sub in f]
    ms = [m for f in files for m in mutants(f, open("/repo/" + f).read())]
    random.Random(sd).shuffle(ms)
    print(len(ms), "mutants")
    done = 0

    def one(m):
        path, scope, line, what, old, text = m
        w = tempfile.mkdtemp(prefix="mutx")
        try:
            compile(text, path, "exec")
            r = w + "/repo"
            shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns(".git"))
            open(os.path.join(r, path), "w").write(text)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=r)
            t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--continue-on-collection-errors", "--basetemp=" + w + "/tmp"], cwd=r, env=env, capture_output=True, text=True)
            if "12 passed" not in t.stdout or "failed" in t.stdout.splitlines()[-1]:
                return None
            cs = next((CHECKS[s] for s in scope if s in CHECKS), "C16" if "config" in path else "C06" if "cct" in path else "")
            seen, note = None, ""
            for c in cs.split():
                p = subprocess.run(["./check", c, "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=r, VERIF_JOBS="3", VERIF_BUDGET="60", VERIF_EVIDENCE=w), capture_output=True, text=True)
                if p.returncode == 1:
                    seen = c
                    break
                if p.returncode:
                    note += "%s rc=%d " % (c, p.returncode)
            return dict(file=path, scope=".".join(scope), line=line, what=what, old=old, seen=seen, checks=cs, note=note)
        except SyntaxError:
            return None
        finally:
            shutil.rmtree(w)
    with ThreadPoolExecutor(3) as ex, open(outf, "a") as o:
        it = iter(ms)
        pending = set()
        for m in it:
            pending.add(ex.submit(one, m))
            while len(pending) >= 3:
                d = next((f for f in pending if f.done()), None)
                if d is None:
                    import time
                    time.sleep(.2)
                    continue
                pending.remove(d)
                x = d.result()
                if x:
                    done += 1
                    o.write(json.dumps(x) + "\n")
                    o.flush()
            if done >= k:
                break


main()
