"""OTF2 archives held in memory: real definition registry and event objects of
the otf2 package (whose fields may be symbolic); only the archive files are
replaced (otf2.reader.open)."""
import contextlib

import otf2
import otf2.definitions  # noqa: F401
import otf2.events
import otf2.reader
from otf2.definitions import ClockProperties
from otf2.enums import LocationType
from otf2.registry import DefinitionRegistry

from harness.readers import stable_sorted


class Archive:
    def __init__(self, resolution=10 ** 9, offset=0):
        self.reg = DefinitionRegistry()
        self.reg.clock_properties = ClockProperties(None, 1, 0, 0)
        self.reg.clock_properties._timer_resolution = resolution
        self.reg.clock_properties._global_offset = offset
        self.root = self.reg.system_tree_node("machine", parent=None)
        self.groups, self.streams = {}, {}  # streams: location -> events in recording order

    def region(self, name, ref=None):
        return self._ref(self.reg._regions, ref, lambda: self.reg._regions.create(name))

    @staticmethod
    def _ref(registry, ref, make):
        if ref is not None:
            registry._ref = ref - 1
        return make()

    def group(self, ref):
        if ref not in self.groups:
            self.groups[ref] = self._ref(self.reg._location_groups, ref, lambda: self.reg._location_groups.create("group %d" % ref, system_tree_parent=self.root))
        return self.groups[ref]

    def location(self, group, ref, kind="CPU_THREAD"):
        loc = self._ref(self.reg._locations, ref, lambda: self.reg._locations.create(
            "location %d" % ref, type=getattr(LocationType, kind), group=self.group(group)))
        self.streams[loc] = []
        return loc

    def open(self, *a, **k):
        return contextlib.closing(Reader(self))


class Reader:
    def __init__(self, archive):
        self.archive, self.closed = archive, False
        self.definitions = archive.reg
        self.timer_resolution = archive.reg.clock_properties.timer_resolution
        self.events = Events(archive)

    def close(self):
        self.closed = True


class Events:
    """like the library: the chosen locations' events merged by time"""

    def __init__(self, archive):
        self.archive, self.chosen = archive, None

    def __call__(self, locations):
        if self.chosen is not None:
            raise RuntimeError("Cannot specify locations for an event reader twice.")
        if isinstance(locations, otf2.definitions.Location):
            locations = [locations]
        self.chosen = list(locations)
        return self

    def __iter__(self):
        locs = list(self.archive.streams) if self.chosen is None else self.chosen
        return iter(stable_sorted([(l, e) for l in locs for e in self.archive.streams[l]], key=lambda x: x[1].time))

    def __len__(self):
        locs = list(self.archive.streams) if self.chosen is None else self.chosen
        return sum(len(self.archive.streams[l]) for l in locs)


@contextlib.contextmanager
def mounted(archive):
    saved = otf2.reader.open
    otf2.reader.open = archive.open
    try:
        yield
    finally:
        otf2.reader.open = saved


def conv(v):
    """how a field or attribute value is shown"""
    if isinstance(v, list):
        return [conv(x) for x in v]
    if isinstance(v, tuple):
        return tuple(conv(x) for x in v)
    if isinstance(v, set):
        return {conv(x) for x in v}
    if isinstance(v, dict):
        return {conv(a): conv(b) for a, b in v.items()}
    if isinstance(v, otf2.definitions._Definition):
        return "%s %s" % (type(v).__name__, v._ref)
    if type(v).__module__.startswith(("otf2", "_otf2")):
        return str(v)
    return v


def expected(archive, loc, e, members=None):
    """the row of one non-metric event"""
    kind = type(e).__name__
    clock = archive.reg.clock_properties
    low = min(l._ref for l in archive.streams if l.group is loc.group and str(l.type) == "LocationType.CPU_THREAD")
    return {
        "Name": e.region.name if kind in ("Enter", "Leave") else kind,
        "Event Type": kind if kind in ("Enter", "Leave") else "Instant",
        "Timestamp (ns)": (e.time - clock._global_offset) * (10 ** 9 / clock._timer_resolution),
        "Process": loc.group._ref, "Thread": loc._ref - low,
        "Attributes": None if kind == "Leave" else {k: conv(v) for k, v in vars(e).items() if v is not None and k != "time"},
    }
