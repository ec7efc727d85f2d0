"""shared by C04 and C05"""
from harness.common import (rows_any, rows_balanced, rows_deep, rows_huge, make_trace, match_oracle, require_nested, tree_oracle,
                            inc_oracle, exc_oracle, same, isnull)

# types of integer columns, with the values given to them (differences stay exact as float64)
RANGES = {"int8": (-128, 127), "uint8": (0, 255), "int16": (-2 ** 15, 2 ** 15 - 1), "uint16": (0, 2 ** 16 - 1),
          "int32": (-2 ** 31, 2 ** 31 - 1), "uint32": (0, 2 ** 32 - 1), "int64": (-2 ** 51, 2 ** 51), "uint64": (2 ** 62, 2 ** 62 + 2 ** 50)}


def tiny_value(ctx, name):
    """a multiple of 2^-40 below 2^-20"""
    ctx.scale = 2.0 ** -20  # what a concrete comparison of such values may differ by
    return ctx.int(name, 0, 2 ** 20) / 2 ** 40


def build(ctx, gen, metric, missing=False, tiny=False, storage=None, **kw):
    rows = {"any": rows_any, "bal": rows_balanced, "deep": rows_deep, "huge": rows_huge}[gen](ctx, **kw)
    for c in () if storage or gen in ("deep", "huge") else metric:
        for i, r in enumerate(rows):
            r[c] = tiny_value(ctx, "%s%d" % (c, i)) if tiny else ctx.quarter("%s%d" % (c, i), -2 ** 40, 2 ** 40)
            if missing and ctx.choice("miss%s%d" % (c, i), [False, True]):
                r[c] = float("nan")
                ctx.cover("missing value")
    if storage:
        ctx.storage = {c: ctx.choice("storage of " + c, storage) for c in metric}
        for c in metric:
            for i, r in enumerate(rows):
                r[c] = ctx.int("stored %s%d" % (c, i), *RANGES[ctx.storage[c]])
    if gen == "deep":
        v = ctx.quarter("value", -2 ** 40, 2 ** 40)
        for c in metric:
            for i, r in enumerate(rows):
                r[c] = v + i * i
    if gen == "huge":
        for c in metric:
            v = ctx.quarter("value" + c, -2 ** 40, 2 ** 40)
            for i, r in enumerate(rows):
                r[c] = v if i % 9973 == 1 else i * 7 % 4096 + 0.25
    return rows


def metric_name(c, suffix):
    return ("time" if c == "Timestamp (ns)" else c) + suffix
