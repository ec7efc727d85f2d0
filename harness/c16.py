"""C16: options."""
import importlib
import sys
from harness.common import Config
from symx.strings import text
from symx.core import SymBool, Sym

FUNCTIONS = ["pipit.util.config.get_option", "pipit.util.config.set_option", "pipit.util.config.reset_option", "pipit.util.config validators"]
STUBS = []
ASSUMPTIONS = ["string operations other than ==, in, startswith, slicing a prefix and truth follow the current model's string"]
LEVELS = ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL")
DEFAULT = {"log_level": "INFO", "notebook_url": "http://localhost:8888"}


def fresh():
    for m in [m for m in sys.modules if m == "pipit" or m.startswith("pipit.")]:
        del sys.modules[m]
    return importlib.import_module("pipit")


def valid(key, v):
    if not isinstance(v, str):
        return False
    if key == "log_level":
        return any(v == x for x in LEVELS)
    return v.startswith("http://") or v.startswith("https://")


def attempt(f, *a):
    try:
        return f(*a), None
    except Exception as e:
        return None, e


def run(ctx, steps, maxlen, ops, others=(None, 7, ["INFO"])):
    pp = fresh()
    want = dict(DEFAULT)

    def state(s, what):
        for k in DEFAULT:
            v, e = attempt(pp.get_option, k)
            ctx.check(e is None and same(v, want[k]), "%s after step %d (%s)" % (k, s, what), lambda: (hist, k, v, want[k], e))
    hist = []
    for s in range(steps):
        op = ctx.choice("op%d" % s, ops)
        key = op[1]
        if op[0] == "set":
            kind = op[2]
            if kind == "text":
                v = text(ctx, "v%d" % s, maxlen)
            elif kind == "other":
                v = others[ctx.choice("o%d" % s, range(len(others)))]
            elif kind == "level":
                v = ctx.choice("l%d" % s, LEVELS)
            elif kind == "url":
                v = ctx.choice("l%d" % s, ["http://a", "https://"])
            hist.append((op, v))
            ok = key in DEFAULT and valid(key, v)
            _, e = attempt(pp.set_option, key, v)
            ctx.check((e is None) == ok, "set %s is %s" % (key, "accepted" if ok else "rejected"), lambda: (hist, e))
            if ok:
                want[key] = v
                ctx.cover("accepted")
            else:
                ctx.cover("rejected")
        elif op[0] == "reset":
            hist.append(op)
            _, e = attempt(pp.reset_option, key)
            ctx.check((e is None) == (key in DEFAULT or key == "all"), "reset %s" % key, lambda: (hist, e))
            for k in DEFAULT:
                if key in (k, "all"):
                    if not same(want[k], DEFAULT[k]):
                        ctx.cover("restored")
                    want[k] = DEFAULT[k]
        else:
            hist.append(op)
            v, e = attempt(pp.get_option, key)
            ctx.check((e is None) == (key in DEFAULT), "get %s" % key, lambda: (hist, e))
        state(s, op)


def same(a, b):
    if a is b:
        return True
    return type(a) is not bool and isinstance(a, str) and isinstance(b, str) and bool(a == b)


PADDED = [a + x + b for x in LEVELS + ("info", "Debug", "http://h") for a, b in ((" ", ""), ("", " "), ("", "\n"), ("\t", "\r\n"), ("\"", "\""), ("", "\0"), ("\u00a0", ""), ("", "."), ("x", ""))]
BAD = ["", "all", "log level", "LOG_LEVEL", None]


def configs(tier):
    q = tier == "quick"
    keys = list(DEFAULT)
    resets = [("reset", k) for k in keys + ["all"]]
    sets = [("set", k, "text") for k in keys]
    unknown = [("set", k, "level") for k in BAD] + [("reset", k) for k in BAD if k != "all"] + [("get", k) for k in BAD]
    short = [("set", "log_level", "level"), ("set", "notebook_url", "url"), ("set", "log_level", "url"), ("set", "notebook_url", "level")] + resets
    L = 9 if q else 24
    return [
        Config("strings", run, dict(steps=2 if q else 3, maxlen=L, ops=sets + resets), ["accepted", "rejected", "restored"], "every sequence of %d operations; values are any strings of up to %d characters" % (2 if q else 3, L)),
        Config("unknown", run, dict(steps=2 if q else 3, maxlen=4, ops=short[:2] + unknown + resets[2:]), ["rejected", "restored"], "unknown option names (%r)" % (BAD,)),
        Config("other-values", run, dict(steps=2, maxlen=L, ops=[("set", k, "other") for k in keys] + sets), ["accepted", "rejected"], "values that are not strings"),
        Config("padded", run, dict(steps=2, maxlen=0, ops=[("set", k, "other") for k in keys] + resets[-1:], others=PADDED), ["rejected"], "valid values with something before or after them (%d)" % len(PADDED)),
        Config("histories", run, dict(steps=3 if q else 4, maxlen=0, ops=short), ["accepted", "rejected", "restored"], "every sequence of %d operations with valid and invalid values" % (3 if q else 4)),
    ]
