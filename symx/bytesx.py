"""Binary files whose fields are symbolic numbers."""
import builtins
import contextlib
import os
import struct

from symx.core import Sym, Unsupported


class Field:
    """an unsigned little-endian field of `size` bytes"""

    def __init__(self, ctx, name, value, size):
        self.ctx, self.name, self.value, self.size, self.parts = ctx, name, value, size, None

    def byte(self, i):
        if self.parts is None:
            self.parts = [self.ctx.int("%s.byte%d" % (self.name, j), 0, 255) for j in range(self.size)]
            total = 0
            for j, b in enumerate(self.parts):
                total = total + b * 256 ** j
            self.ctx.assume(total == self.value)
        return self.parts[i]


def number(cells, order, signed):
    cells = list(cells)
    if order == "big":
        cells.reverse()
    total, pos = 0, 0
    while pos < len(cells):
        c = cells[pos]
        if isinstance(c, int):
            total = total + c * 256 ** pos
            pos += 1
            continue
        f, i = c
        if i == 0 and cells[pos:pos + f.size] == [(f, j) for j in range(f.size)]:
            total = total + f.value * 256 ** pos
            pos += f.size
        else:
            total = total + f.byte(i) * 256 ** pos
            pos += 1
    if signed and cells and total >= 256 ** len(cells) // 2:
        total = total - 256 ** len(cells)
    return total


def pack(cells):
    """real bytes when nothing in them is symbolic"""
    if all(isinstance(c, int) for c in cells):
        return bytes(cells)
    return SymBytes(cells)


class SymBytes:
    def __init__(self, cells):
        self.cells = tuple(cells)

    def __len__(self):
        return len(self.cells)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return pack(self.cells[i])
        c = self.cells[i]
        return c if isinstance(c, int) else c[0].byte(c[1])

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def __add__(self, o):
        return pack(self.cells + tuple(o.cells if isinstance(o, SymBytes) else o))

    def __radd__(self, o):
        return pack(tuple(o) + self.cells)

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return len(o) == len(self) and all(bool(a == b) for a, b in zip(self, o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return 0x5EED

    def sym_from_bytes(self, order="big", signed=False):
        return number(self.cells, order, signed)

    def decode(self, encoding="utf-8", errors="strict"):
        import codecs
        name = codecs.lookup(encoding).name
        if errors != "strict" or name not in ("ascii", "utf-8", "iso8859-1"):
            raise Unsupported("text with symbolic bytes")
        from symx.core import And
        from symx.strings import SymStr
        out = list(self)
        if name != "iso8859-1" and not bool(And(*[c < 128 for c in out])):
            if name == "utf-8" and len(self) > 1:
                raise Unsupported("symbolic bytes beyond ASCII")
            raise UnicodeDecodeError(name, bytes([255]), 0, 1, "not a character")
        return SymStr(len(out), out)

    def startswith(self, p):
        return any(len(self) >= len(x) and self[:len(x)] == x for x in (p if isinstance(p, tuple) else (p,)))

    def endswith(self, p):
        return any(len(self) >= len(x) and self[len(self) - len(x):] == x for x in (p if isinstance(p, tuple) else (p,)))

    def split(self, *a):
        raise Unsupported("text with symbolic bytes")

    partition = rstrip = strip = index = find = split

    def __bytes__(self):
        raise Unsupported("symbolic bytes made concrete")


class SymFile:
    def __init__(self, cells, name):
        self.cells, self.pos, self.name, self.closed, self.mode = cells, 0, name, False, "rb"

    def read(self, n=-1):
        n = len(self.cells) - self.pos if n is None or n < 0 else int(n)
        out = self.cells[self.pos:self.pos + n]
        self.pos += len(out)
        return pack(out)

    def seek(self, off, whence=0):
        base = {0: 0, 1: self.pos, 2: len(self.cells)}[whence]
        self.pos = int(base + off)
        if self.pos < 0:
            raise ValueError("negative seek value")
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, buffer):
        raise Unsupported("readinto of symbolic bytes")

    def getbuffer(self):
        return pack(self.cells)

    getvalue = getbuffer

    def peek(self, n=0):
        return pack(self.cells[self.pos:self.pos + max(int(n), 1)])

    def readable(self):
        return True

    seekable = readable

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Blob:
    """bytes under construction"""

    def __init__(self, ctx, name):
        self.ctx, self.name, self.cells = ctx, name, []

    def __len__(self):
        return len(self.cells)

    def u(self, size, value):
        if isinstance(value, Sym):
            f = Field(self.ctx, "%s@%d" % (self.name, len(self.cells)), value, size)
            self.cells += [(f, i) for i in range(size)]
        else:
            self.cells += list(int(value).to_bytes(size, "little"))
        return self

    def raw(self, data):
        self.cells += list(data)
        return self

    def pad(self, n):
        return self.raw(b"\xee" * n)

    def add(self, other):
        self.cells += other.cells
        return self

    def put(self, at, size, value):
        self.cells[at:at + size] = list(int(value).to_bytes(size, "little"))

    def shadow(self):
        """the bytes under the current model"""
        out = bytearray()
        for c in self.cells:
            if isinstance(c, int):
                out.append(c)
            else:
                out.append(int(c[0].value.shadow) >> (8 * c[1]) & 255)
        return bytes(out)


def _unpack(fmt, data):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "little"
    if fmt[:1] in "<>=!@":
        order = "big" if fmt[0] in ">!" else "little"
        fmt = fmt[1:] if fmt[0] != "@" else fmt[1:]
    out, pos, count = [], 0, ""
    sizes = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}
    for c in fmt:
        if c.isspace():
            continue
        if c.isdigit():
            count += c
            continue
        n, count = int(count or 1), ""
        if c == "x":
            pos += n
        elif c == "s":
            out.append(data[pos:pos + n])
            pos += n
        elif c in sizes:
            for _ in range(n):
                out.append(number(data.cells[pos:pos + sizes[c]], order, c.islower()))
                pos += sizes[c]
        else:
            raise Unsupported("struct format %s" % c)
    if pos != len(data):
        raise struct.error("unpack requires a buffer of %d bytes" % pos)
    return tuple(out)


def _iter_unpack(fmt, data):
    n = struct.calcsize(fmt)
    if n == 0 or len(data) % n:
        raise struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % n)
    return iter([_unpack(fmt, SymBytes(data.cells[i:i + n])) for i in range(0, len(data), n)])


class _Struct:
    def unpack(self, data):
        return _unpack(self.format, data) if isinstance(data, SymBytes) else self.real.unpack(data)

    def unpack_from(self, buffer, offset=0):
        if isinstance(buffer, SymBytes):
            return _unpack(self.format, SymBytes(buffer.cells[offset:offset + self.size]))
        return self.real.unpack_from(buffer, offset)

    def iter_unpack(self, data):
        return _iter_unpack(self.format, data) if isinstance(data, SymBytes) else self.real.iter_unpack(data)

    def pack(self, *a):
        return self.real.pack(*a)


def _frombuffer(data, dtype, count=-1, offset=0):
    import numpy as np
    dt = np.dtype(dtype)
    n = (len(data) - offset) // dt.itemsize if count < 0 else count
    if offset + n * dt.itemsize > len(data) or (count < 0 and (len(data) - offset) % dt.itemsize):
        raise ValueError("buffer size must be a multiple of element size")

    def one(sub, at):
        if sub.kind not in "iu":
            raise Unsupported("symbolic bytes as %s" % sub)
        order = "big" if sub.byteorder == ">" else "little"
        return number(data.cells[at:at + sub.itemsize], order, sub.kind == "i")

    if dt.names is None:
        out = np.empty(n, dtype=object)
        for j in range(n):
            out[j] = one(dt, offset + j * dt.itemsize)
        return out
    out = np.empty(n, dtype=[(k, object) for k in dt.names])
    for k in dt.names:
        sub, at = dt.fields[k][:2]
        col = np.empty(n, dtype=object)
        for j in range(n):
            col[j] = one(sub, offset + j * dt.itemsize + at)
        out[k] = col
    return out


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real)


@contextlib.contextmanager
def replaced(values):
    """values: [(owner, name, value)]; the names are replaced in their owners and where pipit's modules imported them"""
    import sys
    before = [(o, n, getattr(o, n)) for o, n, _ in values]
    new = {id(b[2]): v[2] for b, v in zip(before, values)}
    for o, n, v in values:
        setattr(o, n, v)
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "pipit" and m is not None:
            for k, v in list(vars(m).items()):
                if id(v) in new:
                    before.append((m, k, v))
                    setattr(m, k, new[id(v)])
    try:
        yield
    finally:
        for o, n, v in reversed(before):
            setattr(o, n, v)


@contextlib.contextmanager
def files(ctx, d, blobs):
    """{name: Blob} as files in directory d; opening them gives the symbolic fields"""
    for n, b in blobs.items():
        with open(os.path.join(d, n), "wb") as f:
            f.write(b.shadow() if ctx.sym else bytes(b.cells))
    if not ctx.sym:
        yield
        return
    import io
    import pathlib
    import numpy as np
    real_open, real_unpack, real_from, real_iter = builtins.open, struct.unpack, struct.unpack_from, struct.iter_unpack
    real_np, real_file, real_io, real_struct = np.frombuffer, np.fromfile, io.BytesIO, struct.Struct
    known = {os.path.realpath(os.path.join(d, n)): b for n, b in blobs.items()}

    def sym_open(file, mode="r", *a, **k):
        if isinstance(file, (str, os.PathLike)):
            b = known.get(os.path.realpath(file))
            if b is not None and "b" in mode:
                return SymFile(b.cells, file)
        return real_open(file, mode, *a, **k)

    def path_open(self, mode="r", *a, **k):
        return sym_open(self, mode, *a, **k)

    def unpack(fmt, data):
        return _unpack(fmt, data) if isinstance(data, SymBytes) else real_unpack(fmt, data)

    def unpack_from(fmt, buffer, offset=0):
        if isinstance(buffer, SymBytes):
            return _unpack(fmt, SymBytes(buffer.cells[offset:offset + struct.calcsize(fmt)]))
        return real_from(fmt, buffer, offset)

    def iter_unpack(fmt, data):
        return _iter_unpack(fmt, data) if isinstance(data, SymBytes) else real_iter(fmt, data)

    def frombuffer(buffer, dtype=float, count=-1, offset=0, **k):
        if isinstance(buffer, SymBytes):
            return _frombuffer(buffer, dtype, count, offset)
        return real_np(buffer, dtype, count, offset, **k)

    def fromfile(file, dtype=float, count=-1, sep="", offset=0, **k):
        if isinstance(file, (str, os.PathLike)) and os.path.realpath(file) in known:
            file = sym_open(file, "rb")
        if isinstance(file, SymFile):
            file.seek(offset, 1)
            data = file.read(-1 if count < 0 else count * np.dtype(dtype).itemsize)
            return frombuffer(data, dtype)
        return real_file(file, dtype, count, sep, offset, **k)

    class BytesIO(real_io, metaclass=type("M", (_Meta, type(real_io)), {})):
        real = real_io

        def __new__(cls, data=b""):
            return SymFile(data.cells, "BytesIO") if isinstance(data, SymBytes) else real_io(data)

    class Struct(_Struct, metaclass=_Meta):
        real = real_struct

        def __init__(self, format):
            self.real = real_struct(format)
            self.format, self.size = self.real.format, self.real.size

    with replaced([(builtins, "open", sym_open), (io, "open", sym_open), (pathlib.Path, "open", path_open), (struct, "unpack", unpack), (struct, "unpack_from", unpack_from),
                   (struct, "iter_unpack", iter_unpack), (struct, "Struct", Struct), (np, "frombuffer", frombuffer), (np, "fromfile", fromfile), (io, "BytesIO", BytesIO)]):
        yield
