"""Path exploration, solver queries, parallel scheduling, evidence."""
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import signal
import subprocess
import sys
import time
import traceback

from . import core
from .core import z3, Resolve, Infeasible, Unsupported, TooLong, SymCtx, ConCtx

RUN_CPU_S = 20.0
PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Config:
    def __init__(self, name, fn, params=None, covers=(), bounds="", validate=True,
                 weight=1.0, slow_ok=False):
        self.name, self.fn, self.params = name, fn, params or {}
        self.covers, self.bounds, self.validate, self.weight = list(covers), bounds, validate, weight


def _alarm(sig, frame):
    raise TooLong("CPU limit")


class Limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def run_sym(cfg, model):
    """-> (ctx, status, info)"""
    from . import patches
    ctx = SymCtx(model, cfg)
    core.CTX = ctx
    try:
        with patches.symbolic(), Limit(RUN_CPU_S):
            cfg.fn(ctx, **cfg.params)
        return ctx, "ok", None
    except Resolve:
        return ctx, "resolve", None
    except Infeasible:
        return ctx, "infeasible", None
    except Unsupported as e:
        return ctx, "unsupported", "%s" % e
    except TooLong as e:
        return ctx, "toolong", "%s" % e
    except Exception as e:  # the code (or the encoding) failed on this path
        return ctx, "exception", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-8))
    finally:
        core.CTX = None


def run_con(cfg, model, real_env=False):
    ctx = ConCtx(model, cfg, real_env)
    core.CTX = None
    try:
        with Limit(RUN_CPU_S):
            cfg.fn(ctx, **cfg.params)
        return ctx, "fail" if ctx.failed else "ok"
    except Infeasible:
        return ctx, "infeasible"
    except TooLong as e:
        ctx.failed = ctx.failed or ("did not terminate", "%s" % e)
        return ctx, "fail"
    except Exception as e:
        ctx.failed = ctx.failed or ("exception %s" % type(e).__name__, "%s\n%s" % (e, traceback.format_exc(limit=-6)))
        return ctx, "fail"


def free_names(e):
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    return out


class Stats(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n

    def merge(self, o):
        for k, v in o.items():
            if isinstance(v, dict):
                d = self.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            elif isinstance(v, list):
                self.setdefault(k, []).extend(v)
            else:
                self[k] = self.get(k, 0) + v


class Engine:
    def __init__(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", 10000)
        self.solver.set("random_seed", 1)

    def query(self, st, *extra):
        t = time.perf_counter()
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        m = None
        if r == z3.sat:
            m = self.solver.model()
        st.add("queries")
        st.add("solver_s", time.perf_counter() - t)
        self.solver.pop()
        if r == z3.unknown:
            st.add("unknown")
        return r, m

    def again(self, st, path, upto, extra):
        """second attempt at a query, without definitions it does not depend on
        (a definition only names a total function of other terms)"""
        fs = [f.z for kind, f, _ in path[:upto] if kind != "def"] + [extra]
        defs = {v.name: f for kind, f, v in path[:upto] if kind == "def"}
        todo, need, seen = list(fs), [], set()
        while todo:
            for name in free_names(todo.pop()):
                if name in defs and name not in seen:
                    seen.add(name)
                    need.append(defs[name])
                    todo.append(defs[name])
        r, m = z3.unknown, None
        for tac in (["smt"] if not need else ["smt", "qfnra-nlsat"]):
            t = time.perf_counter()
            try:
                s = z3.Tactic(tac).solver() if tac != "smt" else z3.Solver()
                s.set("timeout", 15000)
                s.add(*fs, *need)
                r = s.check()
            except z3.Z3Exception:
                continue
            finally:
                st.add("queries")
                st.add("solver_s", time.perf_counter() - t)
            if r != z3.unknown:
                st.add("unknown", -1)
                st.add("second_attempts")
                m = s.model() if r == z3.sat else None
                break
        return r, m

    @staticmethod
    def extract(ctx, m, extra_vars=()):
        out = {}
        for name, v in ctx.vars.items():
            x = m[v.z]
            if x is not None:
                out[name] = x.as_long()
        return out

    def step(self, cfg, task):
        """run one task -> (children, stats, violation or None)"""
        model, plen = task
        st = Stats()
        ctx, status, info = run_sym(cfg, model)
        st.add("executions")
        for k, n in ctx.notes.items():
            st.setdefault("notes", {})[k] = n
        if any(k.startswith("INCOMPLETE") for k in ctx.notes):
            st.add("incomplete")
        viol = None
        path = ctx.path
        children = []
        s = self.solver
        s.push()
        try:
            for i in range(min(plen, len(path))):
                f = path[i][1]
                s.add(f.z if isinstance(f, core.SymBool) else f)
            i0 = min(plen, len(path))
            resolved = None
            for i in range(i0, len(path)):
                kind, f, alts = path[i]
                if kind == "branch":
                    st.add("branches")
                    r, m = self.query(st, f.neg().z)
                    if r == z3.unknown:
                        r, m = self.again(st, path, i, f.neg().z)
                    if r == z3.sat:
                        children.append((self.extract(ctx, m), i + 1))
                    elif r == z3.unknown:
                        st.add("incomplete")
                        st.setdefault("notes", {})["INCOMPLETE: solver unknown on a branch"] = 1
                elif kind == "switch":
                    st.add("branches")
                    for a in alts:
                        if a is False:
                            continue
                        r, m = self.query(st, a.z)
                        if r == z3.sat:
                            children.append((self.extract(ctx, m), i + 1))
                        elif r == z3.unknown:
                            st.add("incomplete")
                s.add(f.z if isinstance(f, core.SymBool) else f)
            if status == "resolve":
                r, m = self.query(st)
                if r == z3.sat:
                    new = self.extract(ctx, m)
                    if new == model:
                        st.add("incomplete")
                        st.setdefault("notes", {})["INCOMPLETE: resolve loop"] = 1
                        return children, st, None
                    st.add("resolves")
                    # this path again, with a model that satisfies the assumption
                    st.pop("branches", None)
                    return [(new, plen)], st, None
                if r == z3.unknown:
                    st.add("incomplete")
                return children, st, None
            if status == "infeasible":
                st.add("infeasible")
                return children, st, None
            st.add("paths")
            for k, n in ctx.covers.items():
                st.setdefault("covers", {})[k] = n
            cand = None
            if status in ("exception", "toolong"):
                cand = (status, info)
                st.add("sym_exceptions")
            elif status == "unsupported":
                st.add("unsupported")
                st.add("incomplete")
                st.setdefault("notes", {})["unsupported: %s" % info] = 1
            elif ctx.failed:
                cand = ctx.failed
            if status == "ok":
                st.add("obligations", len(ctx.obls) + ctx.trivial)
                st.add("discharged_by_normalisation", ctx.trivial)
            con_model = model
            if cand is None and status == "ok" and ctx.obls:
                neg = z3.Or(*[z3.Not(c.z) for c, _, _ in ctx.obls])
                r, m = self.query(st, neg)
                if r == z3.unknown:
                    r, m = self.again(st, path, len(path), neg)
                if r == z3.unsat:
                    st.add("discharged_by_solver", len(ctx.obls))
                elif r == z3.sat:
                    con_model = self.extract(ctx, m)
                    lab = [l for c, l, _ in ctx.obls
                           if z3.is_false(m.eval(c.z, model_completion=True))]
                    cand = (lab[0] if lab else "?", "solver model")
                else:
                    st.add("incomplete")
                    st.setdefault("notes", {})["INCOMPLETE: solver unknown on an obligation"] = 1
            if cand is not None or cfg.validate or status == "unsupported":
                cctx, cst = run_con(cfg, con_model)
                if cst == "fail":
                    viol = {"config": cfg.name, "label": cctx.failed[0], "detail": cctx.failed[1],
                            "model": con_model, "symbolic": cand}
                elif cst == "ok":
                    if cand is None:
                        st.add("validated")
                        bad = self.compare(ctx, cctx)
                        if bad and status == "ok":
                            st.add("divergent")
                            st.setdefault("notes", {})["INCOMPLETE: divergence " + bad] = 1
                    else:
                        st.add("unconfirmed")
                        st.add("incomplete")
                        st.setdefault("notes", {})["INCOMPLETE: not reproduced concretely: %s" % (str(cand[0]) + " " + str(cand[1])[-900:])] = 1
                elif cst == "infeasible":
                    st.add("incomplete")
                    st.setdefault("notes", {})["INCOMPLETE: concrete run rejected the model"] = 1
                if viol is None and status in ("unsupported", "exception"):
                    viol = self.probe(cfg, ctx, st)
            if st.get("paths") and not viol and len(st.get("samples", [])) < 1:
                st["samples"] = [{"config": cfg.name, "model": con_model, "path_literals": len(path),
                                  "status": status}]
            return children, st, viol
        finally:
            s.pop()

    def probe(self, cfg, ctx, st, count=6):
        """the encoding could not follow this path to its end: further solutions
        of what is known of it, spread over the inputs, are tried on the real
        code (a failure is a counterexample; no failure decides nothing)"""
        s = self.solver
        rnd = random.Random(repr(sorted(ctx.model.items())))
        for _ in range(count):
            if st.get("probes", 0) >= 40:
                return None
            st.add("probes")
            s.push()
            try:
                vals = [0, 1]
                names = list(ctx.vars.items())
                rnd.shuffle(names)
                for name, v in names:
                    lo, hi = -2 ** 40 if v.lo is None else v.lo, 2 ** 40 if v.hi is None else v.hi
                    x = rnd.choice([lo, hi, rnd.randint(lo, hi), lo + int(min(hi - lo, 2 ** rnd.uniform(0, 40))), rnd.choice(vals), rnd.choice(vals) + rnd.choice([-1, 1])])
                    r, m = self.query(st, v.z == x)
                    if r == z3.sat:
                        s.add(v.z == x)
                        vals.append(x)
                r, m = self.query(st)
                if r != z3.sat:
                    continue
                model = self.extract(ctx, m)
            finally:
                s.pop()
            cctx, cst = run_con(cfg, model)
            if cst == "fail":
                return {"config": cfg.name, "label": cctx.failed[0], "detail": cctx.failed[1], "model": model, "symbolic": ("inconclusive", "")}
        return None

    @staticmethod
    def compare(sctx, cctx):
        if len(sctx.observed) != len(cctx.observed):
            return "number of observations"
        for (l, a), (l2, b) in zip(sctx.observed, cctx.observed):
            if l != l2:
                return l
            a = a.shadow if isinstance(a, core.Sym) else a
            if not cctx.eq(a, b):
                return "%s: symbolic %r concrete %r" % (l, a, b)
        return None


def load(prop, tier):
    sys.path.insert(0, VERIF) if VERIF not in sys.path else None
    mod = importlib.import_module("harness." + prop.lower())
    return mod, {c.name: c for c in mod.configs(tier)}


def _worker(prop, tier, inq, outq, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import gc
    gc.freeze()
    mod, cfgs = load(prop, tier)
    eng = Engine()
    n = 0
    while True:
        job = inq.get()
        if job is None:
            return
        name, tasks = job
        cfg = cfgs[name]
        st, viols = Stats(), []
        stack = list(tasks)
        t_end = time.time() + 1.0
        err = None
        while stack and time.time() < t_end and time.time() < deadline:
            try:
                ch, s1, v = eng.step(cfg, stack.pop())
            except BaseException:
                err = traceback.format_exc()
                break
            stack.extend(ch)
            samples = s1.pop("samples", [])
            st.merge(s1)
            if samples and len(st.get("samples", [])) < 1:
                st["samples"] = samples
            n += 1
            if n % 4000 == 0:
                eng = Engine()
            if v:
                viols.append(v)
                break
        outq.put((name, stack, st, viols, err))


def run_check(prop, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rnd = random.Random(seed)
    mod, cfgs = load(prop, tier)
    budget = float(os.environ.get("VERIF_BUDGET") or (getattr(mod, "BUDGET", {}).get(tier) or (200 if tier == "quick" else 700)))
    deadline = t0 + budget
    nproc = int(os.environ.get("VERIF_JOBS") or min(8, os.cpu_count() or 1))
    only = os.environ.get("VERIF_CONFIG")
    if only:
        cfgs = {k: v for k, v in cfgs.items() if only in k}
    # import everything once before forking
    if hasattr(mod, "warm"):
        mod.warm()
    from . import patches  # noqa: F401
    ctxm = mp.get_context("fork")
    inq, outq = ctxm.Queue(), ctxm.Queue()
    procs = [ctxm.Process(target=_worker, args=(prop, tier, inq, outq, deadline)) for _ in range(nproc)]
    for p in procs:
        p.start()
    pending = {name: [({}, 0)] for name in cfgs}
    stats = {name: Stats() for name in cfgs}
    used = {name: 0.0 for name in cfgs}
    out = 0
    violations, errors, confirmed = [], [], []
    known, suppressed = load_known(prop), []
    unconfirmed = 0
    stop = False
    while True:
        while not stop and out < nproc + 1 and time.time() < deadline:
            cand = [n for n in pending if pending[n]]
            if not cand:
                break
            n = min(cand, key=lambda k: used[k] / cfgs[k].weight)
            L = pending[n]
            k = max(1, min(20, len(L) // (2 * nproc)))
            batch = []
            for _ in range(k):
                j = rnd.randrange(len(L))
                L[j], L[-1] = L[-1], L[j]
                batch.append(L.pop())
            inq.put((n, batch))
            used[n] += 1
            out += 1
        if out == 0:
            break
        try:
            name, stack, st, viols, err = outq.get(timeout=max(5, RUN_CPU_S * 3))
        except queue.Empty:
            if any(not p.is_alive() for p in procs):
                errors.append("a worker died")
                break
            if time.time() > deadline + 120:
                errors.append("workers did not finish")
                break
            continue
        out -= 1
        samples = st.pop("samples", [])
        stats[name].merge(st)
        S = stats[name].setdefault("samples", [])
        if len(S) < 3:
            S.extend(samples[:1])
        if err:
            errors.append(err)
        pending[name].extend(stack)
        for v in viols:
            if known_match(known, v):
                suppressed.append(v)
                continue
            if stop:
                continue
            path = write_replay(prop, tier, v)
            ok, text = replay(path)
            if ok:
                v["replay"], v["text"] = path, text
                confirmed.append(v)
                stop = True
            else:
                unconfirmed += 1
                stats[name].add("incomplete")
                stats[name].setdefault("notes", {})["INCOMPLETE: in-process violation not reproduced by the fresh-process replay: %s %s" % (v["label"], text[-300:])] = 1
    for _ in procs:
        inq.put(None)
    time.sleep(0.05)
    for p in procs:
        p.join(timeout=2)
        if p.is_alive():
            p.kill()
    return report(prop, tier, seed, mod, cfgs, stats, pending, confirmed, suppressed, errors, unconfirmed, t0, budget)


def write_replay(prop, tier, v):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    import hashlib
    h = hashlib.sha1(json.dumps([v["config"], v["model"]], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "config": v["config"], "model": v["model"],
                   "label": v["label"], "detail": v["detail"],
                   "how": "PYTHONHASHSEED=0 %s -m symx.replay %s   (run in /verif)" % (PY, path)}, f, indent=1)
    return path


def replay(path):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run([PY, "-m", "symx.replay", path], cwd=VERIF, env=env, capture_output=True,
                           text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return False, "replay timed out"
    return p.returncode == 1 and "REPRODUCED" in p.stdout, p.stdout + p.stderr[-2000:]


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k["property"] == prop and k.get("status") == "known"]


def known_match(known, v):
    for k in known:
        if k["config"] == v["config"] and k["label"] == v["label"] and \
                all(v["model"].get(a, 0) == b for a, b in k.get("model", {}).items()):
            k["hit"] = True
            return True
    return False


def report(prop, tier, seed, mod, cfgs, stats, pending, confirmed, suppressed, errors, unconfirmed, t0, budget):
    tot = Stats()
    per = {}
    exhaustive = not errors
    missing = []
    samples = []
    for n, c in cfgs.items():
        s = stats[n]
        left = len(pending[n])
        ex = left == 0 and not s.get("incomplete") and not errors
        exhaustive = exhaustive and ex
        cov = s.get("covers", {})
        miss = [x for x in c.covers if x not in cov] + ([] if s.get("paths") or left else ["any path at all"])
        missing += ["%s:%s" % (n, x) for x in miss]
        samples += s.get("samples", [])[:2]
        per[n] = {"bounds": c.bounds, "exhaustive_within_bounds": ex, "unexplored_frontier": left,
                  "paths": s.get("paths", 0), "executions": s.get("executions", 0),
                  "branch_decisions": s.get("branches", 0), "solver_queries": s.get("queries", 0),
                  "solver_s": round(s.get("solver_s", 0), 2), "obligations": s.get("obligations", 0),
                  "discharged_by_solver": s.get("discharged_by_solver", 0),
                  "discharged_by_normalisation": s.get("discharged_by_normalisation", 0),
                  "concretely_validated_paths": s.get("validated", 0), "unknown": s.get("unknown", 0),
                  "unsupported_paths": s.get("unsupported", 0), "unconfirmed": s.get("unconfirmed", 0),
                  "reachability_witnesses": cov, "unreached_witnesses": miss,
                  "notes": s.get("notes", {})}
        for k, v in s.items():
            if isinstance(v, (int, float)):
                tot.add(k, v)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("branches", 0),
            "traces_validated_against_impl": tot.get("validated", 0),
            "samples": samples[:8],
            "exhaustive": bool(exhaustive and not missing),
            "explanation": "states = feasible paths of the real code executed symbolically to the end; transitions = "
                           "branch decisions on which the solver was asked for the other side; "
                           "traces_validated_against_impl = paths re-run on the unpatched code with the solver's values",
            "functions_encoded": getattr(mod, "FUNCTIONS", []),
            "solver": "z3 %s" % z3.get_version_string(),
            "solver_queries": tot.get("queries", 0), "solver_s": round(tot.get("solver_s", 0), 2),
            "obligations_checked": tot.get("obligations", 0),
            "discharged_by_solver": tot.get("discharged_by_solver", 0),
            "discharged_by_normalisation": tot.get("discharged_by_normalisation", 0),
            "inconclusive": {"unknown": tot.get("unknown", 0), "unsupported_paths": tot.get("unsupported", 0),
                             "solutions_tried_concretely_on_inconclusive_paths": tot.get("probes", 0),
                             "unconfirmed_counterexamples": tot.get("unconfirmed", 0) + unconfirmed,
                             "unreached_witnesses": missing, "errors": [e[-1500:] for e in errors[:3]]},
            "stubs": getattr(mod, "STUBS", []),
            "configurations": per,
            "budget_s": budget,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d paths, %d branch decisions, %d solver queries (%.1f s), %d obligations, %d paths validated concretely, %s, %.1f s" % (
        prop, tier, tot.get("paths", 0), tot.get("branches", 0), tot.get("queries", 0), tot.get("solver_s", 0),
        tot.get("obligations", 0), tot.get("validated", 0),
        "exhaustive within bounds" if exhaustive else "NOT exhaustive", time.time() - t0))
    for n in per:
        if not per[n]["exhaustive_within_bounds"] or per[n]["unreached_witnesses"] or os.environ.get("VERIF_V"):
            print("  config %s: exhaustive=%s paths=%d frontier=%d unreached=%s notes=%s" % (
                n, per[n]["exhaustive_within_bounds"], per[n]["paths"], per[n]["unexplored_frontier"],
                per[n]["unreached_witnesses"], json.dumps(per[n]["notes"])[:1500]))
    for e in errors[:2]:
        print("  ERROR", e[-1500:])
    k_all = load_known(prop)
    for k in k_all:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if confirmed:
        v = confirmed[0]
        print("  violated: %s [%s] %s" % (v["label"], v["config"], v["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        return 1
    return 0
