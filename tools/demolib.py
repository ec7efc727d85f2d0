"""helpers of the demonstrations: traces in memory, and trace files in scratch folders"""
import gzip
import os
import shutil
import struct
import sys
import tempfile
import warnings

sys.path.insert(0, os.getcwd())
warnings.filterwarnings("ignore")
import pandas as pd  # noqa: E402
from pipit import Trace  # noqa: E402


def frame(rows, cols="tknp", **extra):
    names = {"t": "Timestamp (ns)", "k": "Event Type", "n": "Name", "p": "Process", "h": "Thread", "a": "Attributes"}
    df = pd.DataFrame([dict(zip([names.get(c, c) for c in cols], r)) for r in rows])
    df["Event Type"] = df["Event Type"].replace({"E": "Enter", "L": "Leave", "I": "Instant"})
    for c, v in extra.items():
        df[c] = v
    return df.astype({c: "category" for c in ("Event Type", "Name", "Process", "Thread") if c in df.columns})


def trace(rows, cols="tknp", **extra):
    return Trace(None, frame(rows, cols, **extra))


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="pipitdemo")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def csv(text, read=None):
    with Scratch() as d:
        f = os.path.join(d, "x.csv")
        with open(f, "w") as o:
            o.write(text)
        return (read or Trace.from_csv)(f)


STS = """VERSION 10.0
PROCESSORS %d
TOTAL_CHARES 2
TOTAL_EPS 2
TOTAL_MSGS 0
TIMESTAMP 0
CHARE 0 "Main" 0
CHARE 1 "Cell" 2
ENTRY CHARE 0 "go()" 0 0
ENTRY CHARE 1 "step(int n)" 1 0
EVENT 5 phase one
EVENT 7 phase two
STAT 3 residual
%sEND
"""


def projections(logs, papi="", num_processes=1):
    with Scratch() as d:
        with open(os.path.join(d, "app.sts"), "w") as o:
            o.write(STS % (len(logs), papi))
        for i, l in enumerate(logs):
            with gzip.open(os.path.join(d, "app.%d.log.gz" % i), "wt") as o:
                o.write("PROJECTIONS-RECORD 0\n" + "".join(x + "\n" for x in l))
        return Trace.from_projections(d, num_processes)


def read_otf2(fill, num_processes=1, resolution=10 ** 9):
    """fill(writer_trace) writes definitions and events"""
    import otf2.writer
    with Scratch() as d:
        with otf2.writer.open(os.path.join(d, "x"), timer_resolution=resolution) as t:
            fill(t)
        return Trace.from_otf2(os.path.join(d, "x"), num_processes)


# ---------------------------------------------------------------- HPCToolkit
def ctx(id, lex="function", func=None, src=None, point=None, children=()):
    return dict(id=id, lex=["function", "loop", "line", "instruction"].index(lex), func=func, src=src, point=point, children=children)


def hpctoolkit(entries, functions=(), files=(), modules=(), tuples=((("RANK", 0), ("THREAD", 0)),), profiles=(None, 0),
               traces=(), tmin=0, tmax=0, names=("SUMMARY", "NODE", "RANK", "THREAD", "GPUDEVICE", "CORE")):
    """entries: [(id, name, [ctx])]; functions: [(name, file index, line)]; profiles: index of tuple or None; traces: [(profile, [(t, ctx id)])]"""
    texts = list(modules) + list(files) + [f[0] for f in functions if f[0] is not None] + [e[1] for e in entries]
    B = 16 + 8 * 16
    S = B
    ptr, table = {}, b""
    for t in texts:
        ptr.setdefault(t, S + len(table))
        table += t.encode() + b"\0"
    G = S + len(table)
    gen = struct.pack("<QQ", G + 16, G + 18) + b"t\0d\0"
    I = G + len(gen)
    idn, strs = struct.pack("<QB7x", I + 16, len(names)), b""
    for n in names:
        idn += struct.pack("<Q", I + 16 + 8 * len(names) + len(strs))
        strs += n.encode() + b"\0"
    idn += strs
    L = I + len(idn)
    lm = struct.pack("<QIH2x", L + 16, len(modules), 16) + b"".join(struct.pack("<II Q".replace(" ", ""), 0, 0, ptr[m]) for m in modules)
    F = L + len(lm)
    sf = struct.pack("<QIH2x", F + 16, len(files), 16) + b"".join(struct.pack("<IIQ", 0, 0, ptr[m]) for m in files)
    U = F + len(sf)
    fn = struct.pack("<QIH2x", U + 16, len(functions), 40)
    for n, fi, line in functions:
        fn += struct.pack("<QQQQII", 0 if n is None else ptr[n], 0, 0, 0 if fi is None else F + 16 + 16 * fi, line, 0)
    C = U + len(fn)

    def flexn(c):
        return (c["func"] is not None) + 2 * (c["src"] is not None) + 2 * (c["point"] is not None)

    def size(cs):
        return sum(32 + 8 * flexn(c) for c in cs)

    def array(cs, base):
        own, below = b"", b""
        for c in cs:
            sub = array(c["children"], base + size(cs) + len(below)) if c["children"] else b""
            own += struct.pack("<QQIBBBBH6x", size(c["children"]), base + size(cs) + len(below) if c["children"] else 0, c["id"],
                               (c["func"] is not None) + 2 * (c["src"] is not None) + 4 * (c["point"] is not None), 1, c["lex"], flexn(c), 0)
            if c["func"] is not None:
                own += struct.pack("<Q", U + 16 + 40 * c["func"])
            if c["src"] is not None:
                own += struct.pack("<QII", F + 16 + 16 * c["src"][0], c["src"][1], 0)
            if c["point"] is not None:
                own += struct.pack("<QQ", L + 16 + 16 * c["point"][0], c["point"][1])
            below += sub
        return own + below
    ct = struct.pack("<QHB5x", C + 16, len(entries), 32)
    below = b""
    for id, name, kids in entries:
        at = C + 16 + 32 * len(entries) + len(below)
        ct += struct.pack("<QQIHHQ", size(kids), at if kids else 0, id, 1, 0, ptr[name])
        below += array(kids, at)
    ct += below
    M = C + len(ct)
    head = b"HPCTOOLKITmeta\x04\x00"
    for p, b in ((G, gen), (I, idn), (M, b""), (C, ct), (S, table), (L, lm), (F, sf), (U, fn)):
        head += struct.pack("<QQ", len(b), p)
    meta = head + table + gen + idn + lm + sf + fn + ct

    hits, hp = b"", []
    for t in tuples:
        hp.append(16 + 32 + len(hits))
        hits += struct.pack("<H6x", len(t))
        for k, v in t:
            hits += struct.pack("<BxHIQ", names.index(k), 0, 0, v)
    P = 48 + len(hits)
    info = struct.pack("<QIB3x", P + 16, len(profiles), 48)
    for p in profiles:
        info += b"\0" * 0x20 + struct.pack("<QI4x", 0 if p is None else hp[p], 0)
    prof = b"HPCTOOLKITprof\x04\x00" + struct.pack("<QQQQ", len(info), P, len(hits), 48) + hits + info

    th = struct.pack("<QIB3xQQ", 32 + 32, len(traces), 24, tmin, tmax)
    pos = 32 + 32 + 24 * len(traces)
    data = b""
    for p, samples in traces:
        th += struct.pack("<IIQQ", p, 0, pos + len(data), pos + len(data) + 12 * len(samples))
        data += b"".join(struct.pack("<QI", t, c) for t, c in samples)
    trc = b"HPCTOOLKITtrce\x04\x00" + struct.pack("<QQ", len(th) + len(data), 32) + th + data
    with Scratch() as d:
        for n, b in (("meta", meta), ("profile", prof), ("trace", trc)):
            with open(os.path.join(d, n + ".db"), "wb") as o:
                o.write(b)
        return Trace.from_hpctoolkit(d)
