"""C27: OTF2 definitions and attribute values."""
from harness.common import Config
from harness.readers import equal
from harness.c22 import read, warm  # noqa: F401

FUNCTIONS = ["pipit.readers.otf2_reader.OTF2Reader (read_definitions, fields_to_dict, handle_data, field_to_val)", "pipit.trace.Trace.from_otf2"]
STUBS = ["as C22: archive held in memory, worker pool in-process"]
ASSUMPTIONS = ["a definition with a single field shows that field's value itself", "values are numbers, text, booleans, None, definitions, OTF2 enum values and containers of them"]


def leaf(ctx, ar, name, kinds):
    import otf2
    k = ctx.choice(name + ".kind", kinds)
    if k == "int":
        return ctx.int(name, -2 ** 62, 2 ** 62)
    return {"text": "otf2.definitions.Region 3", "empty": "", "bool": True, "none": None, "float": 0.5, "zero": 0,
            "region": ar.region("foo"), "location": list(ar.streams)[0], "enum": otf2.enums.LocationType.GPU,
            "string": ar.reg._strings.create("name")}[k]


def value(ctx, ar, name, depth, kinds, shapes=("leaf", "list", "tuple", "dict", "set"), width=2):
    s = ctx.choice(name + ".shape", shapes if depth else ["leaf"])
    ctx.cover(s)
    if s == "leaf":
        return leaf(ctx, ar, name, kinds)
    if s == "set":
        return set([5, "x", ar.group(0)][:ctx.choice(name + ".len", [0, 2, 3])])
    n = ctx.choice(name + ".len", list(range(width + 1)))
    vals = [value(ctx, ar, "%s.%d" % (name, i), depth - 1, kinds, shapes, width) for i in range(n)]
    if s == "dict":
        keys = [ar.reg.attribute("a"), "key"] if ctx.choice(name + ".keys", [True, False]) else ["b", 7]
        return dict(zip(keys, vals))
    return vals if s == "list" else tuple(vals)


def base():
    from harness.otf2mem import Archive
    ar = Archive()
    loc = ar.location(0, 0)
    return ar, loc


def run_attribute(ctx, depth, kinds, shapes=("leaf", "list", "tuple", "dict", "set"), width=2):
    """an event attribute holding any nested value"""
    import otf2
    from harness.otf2mem import conv
    ar, loc = base()
    v = value(ctx, ar, "v", depth, kinds, shapes, width)
    where = ctx.choice("where", ["field", "attached"])
    if where == "field":
        e = otf2.events.ThreadTeamBegin(3, v)
        want = {} if v is None else {"thread_team": conv(v)}
    else:
        e = otf2.events.MpiCollectiveBegin(3, {ar.reg.attribute("a2"): v})
        want = {"attributes": {"Attribute %d" % ar.reg.attribute("a2")._ref: conv(v)}}
    ar.streams[loc].append(e)
    got = list(read(ctx, ar).events["Attributes"])
    ctx.check(len(got) == 1 and equal2(ctx, got[0], want), "attribute value", lambda: (v, want, got))


def equal2(ctx, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and {type(x) for x in a} == {type(x) for x in b} and all(equal2(ctx, a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal2(ctx, x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)) or isinstance(b, (set, frozenset)):
        return type(a) is type(b) and a == b
    if a is None or b is None:
        return a is b
    return equal(ctx, a, b)


def table(ctx, ar, defs):
    """the definitions table against the registry"""
    import otf2
    want = []
    reg = ar.reg
    for key, r in vars(reg).items():
        if key == "clock_properties":
            want.append(r)
        else:
            want += list(r)
    cols = [list(defs[c]) for c in ("Definition Type", "ID", "Attributes")]
    rows = list(zip(*cols))
    ctx.check(len(rows) == len(want), "number of definitions", lambda: (want, rows))
    from harness.otf2mem import conv
    left = list(rows)
    for d in want:
        fields = {f.name: conv(getattr(d, f.name)) for f in type(d)._fields}
        if len(fields) == 1:
            fields = list(fields.values())[0]
        ref = getattr(d, "_ref", None)
        hit = [r for r in left if r[0] == type(d).__name__ and (r[1] == ref if ref is not None else r[1] != r[1]) and equal2(ctx, r[2], fields)]
        ctx.check(bool(hit), "row of a %s definition" % type(d).__name__, lambda: (d, fields, [r for r in rows if r[0] == type(d).__name__]))
        if hit:
            left = [r for r in left if r is not hit[0]]
        ctx.cover(type(d).__name__)
    _ = otf2


def run_kinds(ctx, kinds):
    """definitions of every kind, with symbolic numbers in them"""
    from otf2 import enums as E
    from otf2.definitions import MetricClass, Comm, MetricInstance
    ar, loc = base()
    reg = ar.reg
    n = lambda x: ctx.int(x, 0, 2 ** 62)  # noqa: E731
    reg.clock_properties._timer_resolution = 1000
    reg.clock_properties._trace_length = n("length")
    reg.clock_properties._realtime_timestamp = n("realtime")
    k = ctx.choice("kind", kinds)
    shift = ctx.choice("ref", [0, 8, 1000])
    if k == "Region":
        reg._regions._ref = shift
        r = reg.region("foo", "canon", "desc", E.RegionRole.BARRIER, E.Paradigm.MPI, E.RegionFlag.NONE, ctx.choice("file", ["a b.c", None]), 0, 0)
        r._begin_line_number, r._end_line_number = n("l0"), n("l1")
    elif k == "Location":
        l2 = ar.location(3, 5 + shift)
        l2._number_of_events = n("events")
    elif k == "Group":
        reg._groups._ref = shift
        reg.group("g", group_type=E.GroupType.LOCATIONS, members=tuple(ar.location(1, 11 + shift + i) for i in range(ctx.choice("members", [0, 1, 3]))))
    elif k == "Comm":
        g = reg.group("g", group_type=E.GroupType.COMM_LOCATIONS, members=[loc])
        c = reg._comms.create("world", g, _type=Comm)
        reg._comms.create("sub", g, c, _type=Comm)
    elif k == "MetricClass":
        reg._metric_members._ref = shift
        ms = [reg.metric_member("m%d" % i, "d", E.MetricType.PAPI) for i in range(ctx.choice("members", [1, 2, 11]))]
        for m in ms:
            m._exponent = n("exp" + m.name)
        reg._metrics.create(tuple(ms), _type=MetricClass)
    elif k == "MetricInstance":
        m = reg._metrics.create((reg.metric_member("m"),), _type=MetricClass)
        reg._metrics.create(m, loc, None, ar.group(0), _type=MetricInstance)
    elif k == "String":
        reg._strings._ref = shift
        reg._strings.create(ctx.choice("s", ["", "otf2 text", "\u00e9"]))
    elif k == "CallingContext":
        s = reg.source_code_location("f.c", 0)
        s._line_number = n("line")
        c = reg.calling_context(ar.region("foo"), s, None)
        reg.calling_context(ar.region("bar"), s, c)
    elif k == "CartTopology":
        dims = [reg.cart_dimension("x%d" % i, 4, E.CartPeriodicity.FALSE) for i in range(ctx.choice("dims", [1, 3]))]
        for d in dims:
            d._size = n("size" + d.name)
        g = reg.group("g", group_type=E.GroupType.COMM_LOCATIONS, members=[loc])
        t = reg.cart_topology("t", reg._comms.create("world", g, _type=Comm), tuple(dims))
        reg.cart_coordinate(t, 0, (1,))
        list(reg._cart_coordinates)[0]._coordinates = (n("c0"), n("c1"))
    elif k == "Property":
        p = reg.location_property(loc, "p", E.Type.UINT64, 3)
        p._value.value = n("prop")
    elif k == "Attribute":
        reg._attributes._ref = shift
        reg.attribute("a", "some attribute", E.Type.UINT64)
        reg.attribute("a", "other", E.Type.STRING)
    elif k == "SystemTreeNode":
        nd = reg.system_tree_node("node", "class", parent=ar.root)
        reg.system_tree_node_domain(nd, E.SystemTreeDomain.CORE)
    elif k == "Parameter":
        reg.parameter("par", E.ParameterType.INT64)
    elif k == "Paradigm":
        reg.paradigm(E.Paradigm.MPI, "MPI", E.ParadigmClass.PROCESS)
    import otf2
    ar.streams[loc].append(otf2.events.Enter(0, ar.region("main")))
    table(ctx, ar, read(ctx, ar).definitions)


def run_field(ctx, depth, kinds, shapes):
    """any nested value in a definition's field"""
    import otf2
    from otf2 import enums as E
    ar, loc = base()
    g = ar.reg.group("g", group_type=E.GroupType.LOCATIONS, members=())
    g._members = value(ctx, ar, "v", depth, kinds, shapes, 2)
    ar.streams[loc].append(otf2.events.Enter(0, ar.region("main")))
    table(ctx, ar, read(ctx, ar).definitions)


def run_many(ctx, sizes):
    """many definitions; attributes with many elements"""
    import otf2
    from otf2 import enums as E
    from otf2.definitions import MetricClass
    from harness.otf2mem import conv
    ar, loc = base()
    n, where = ctx.choice("size", sizes), ctx.choice("where", ["definitions", "list", "dict", "attached"])
    x = ctx.int("x", -2 ** 62, 2 ** 62)
    vals = [x if i == n // 2 else [i, "text %d" % i, (i, ar.root), True][i % 4] for i in range(n)]
    if where == "definitions":
        regs = [ar.region("region %d" % (i % 7)) for i in range(n)]
        regs[n - 2]._begin_line_number = x
        ar.reg.group("g", group_type=E.GroupType.LOCATIONS, members=tuple(ar.location(i // 4, 3 * i + 5) for i in range(n)))
        ar.reg._metrics.create(tuple(ar.reg.metric_member("m%d" % i, "d", E.MetricType.PAPI) for i in range(n)), _type=MetricClass)
        ar.streams[loc].append(otf2.events.Enter(0, regs[n - 1]))
        t = read(ctx, ar)
        table(ctx, ar, t.definitions)
        return
    if where == "attached":
        vals = {ar.reg.attribute("a%d" % i): v for i, v in enumerate(vals)}
        ar.streams[loc].append(otf2.events.MpiCollectiveBegin(3, vals))
        want = {"attributes": {"Attribute %d" % k._ref: conv(v) for k, v in vals.items()}}
    else:
        v = vals if where == "list" else {"key %d" % i: v for i, v in enumerate(vals)}
        ar.streams[loc].append(otf2.events.ThreadTeamBegin(3, v))
        want = {"thread_team": conv(v)}
    got = list(read(ctx, ar).events["Attributes"])
    ctx.check(len(got) == 1 and equal2(ctx, got[0], want), "attribute value", lambda: (where, n, want, got))


KINDS = ["Region", "Location", "Group", "Comm", "MetricClass", "MetricInstance", "String", "CallingContext", "CartTopology", "Property", "Attribute", "SystemTreeNode", "Parameter", "Paradigm"]
LEAVES = ["int", "text", "empty", "bool", "none", "float", "zero", "region", "location", "enum", "string"]


def configs(tier):
    q = tier == "quick"
    shapes = ["leaf", "list", "tuple", "dict", "set"]
    return [
        Config("kinds", run_kinds, dict(kinds=KINDS), ["ClockProperties", "Location", "LocationGroup", "Region", "MetricMember"], "every kind of definition, symbolic numeric fields, several IDs"),
        Config("leaves", run_attribute, dict(depth=1, kinds=LEAVES, width=1), shapes, "every kind of value, alone and inside each container"),
        Config("nested", run_attribute, dict(depth=2 if q else 3, kinds=["region"] if q else ["int", "region"], width=2 if q else 1), shapes, "nested containers"),
        Config("deep", run_attribute, dict(depth=4 if q else 6, kinds=["int", "enum"], width=1), shapes, "deeply nested containers"),
        Config("many", run_many, dict(sizes=[20, 300] if q else [20, 50, 100, 257, 300, 1100]), ["Region", "Location", "MetricMember"], "20 to 300 (thorough: 1100) definitions of a kind, or elements of an attribute"),
        Config("fields", run_field, dict(depth=2, kinds=["int", "location"], shapes=["leaf", "list", "tuple"] if q else shapes), [], "nested values in the field of a definition"),
    ]
