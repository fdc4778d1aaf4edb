"""Byte ropes (segments of symbolic length), binary streams, zip archives, XML event parts."""
from __future__ import annotations

import os

from .core import Unsupported, eng, z3
from .values import (
    OBytes,
    SBytes,
    SInt,
    Sym,
    and_all,
    is_sym,
    mkbytes,
    not_,
)


class Blob:
    """View [off, off+n) of an opaque byte sequence `name` of unknown contents."""

    __slots__ = ("name", "off", "n")

    def __init__(self, name, off, n):
        self.name, self.off, self.n = name, off, n

    def __repr__(self):
        return f"Blob({self.name},{self.off},{self.n})"


def seg_len(s):
    return s.n if isinstance(s, Blob) else len(s)


class Rope(Sym):
    __slots__ = ("segs",)

    def __init__(self, segs):
        out = []
        for s in segs:
            if isinstance(s, Rope):
                ss = s.segs
            else:
                ss = (s,)
            for x in ss:
                if isinstance(x, Blob):
                    if isinstance(x.n, int) and x.n == 0:
                        continue
                    if (
                        out
                        and isinstance(out[-1], Blob)
                        and out[-1].name == x.name
                        and _same(out[-1].off + out[-1].n, x.off)
                    ):
                        p = out.pop()
                        x = Blob(x.name, p.off, p.n + x.n)
                    out.append(x)
                elif len(x):
                    if out and not isinstance(out[-1], Blob):
                        out[-1] = mkbytes(tuple(out[-1]) + tuple(x))
                    else:
                        out.append(x)
        self.segs = tuple(out)

    def sxlen(self):
        r = 0
        for s in self.segs:
            r = r + seg_len(s)
        return r

    def __bool__(self):
        for s in self.segs:
            if seg_len(s) > 0:
                return True
        return False

    def simple(self):
        """plain bytes/SBytes when no opaque segment is left"""
        if not self.segs:
            return b""
        if len(self.segs) == 1 and not isinstance(self.segs[0], Blob):
            return self.segs[0]
        return self

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray, SBytes, Rope)):
            return Rope([self, bytes(o) if isinstance(o, bytearray) else o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray, SBytes)):
            return Rope([o, self])
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, (bytes, SBytes)):
            o = Rope([o])
        if not isinstance(o, Rope):
            return False
        # drop provably empty segments
        a = [s for s in self.segs if not (isinstance(s, Blob) and not (s.n > 0))]
        b = [s for s in o.segs if not (isinstance(s, Blob) and not (s.n > 0))]
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            if isinstance(x, Blob) != isinstance(y, Blob):
                return False
            if isinstance(x, Blob):
                if x.name != y.name:
                    return False
                conds += [x.off == y.off, x.n == y.n]
            else:
                if len(x) != len(y):
                    return False
                conds.append(x == y)
        return and_all(conds)

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def __iter__(self):
        s = self.simple()
        if s is self:
            raise Unsupported("iterate rope")
        return iter(s)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("rope slice step")
            n = self.sxlen()
            start = _clamp(i.start, n, 0)
            stop = _clamp(i.stop, n, n)
            st = Stream(self)
            st.read(start)
            cnt = stop - start
            if cnt <= 0:
                return b""
            return st.read(cnt)
        n = self.sxlen()
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError("index out of range")
        st = Stream(self)
        st.read(i)
        r = st.read(1)
        if isinstance(r, Rope):
            raise Unsupported("byte of opaque blob")
        return r[0]

    def __repr__(self):
        return f"Rope({list(self.segs)})"


def _same(a, b):
    r = a == b
    return r is True


def _clamp(v, n, dflt):
    if v is None:
        return dflt
    if v < 0:
        v = v + n
        if v < 0:
            return 0
        return v
    if v > n:
        return n
    return v


class Stream(Sym):
    """Readable (and, as BytesIO, writable at the end) binary stream."""

    __slots__ = ("segs", "i", "o", "pos", "closed", "past")

    def __init__(self, data=b""):
        if isinstance(data, (bytearray, memoryview)):
            data = bytes(data)
        if isinstance(data, OBytes):
            raise Unsupported("stream of opaque bytes")
        self.segs = list(Rope([data]).segs)
        self.i = 0  # current segment
        self.o = 0  # offset in it
        self.pos = 0
        self.closed = False
        self.past = False

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.closed = True

    def close(self):
        self.closed = True

    def readable(self): return True
    def seekable(self): return True
    def flush(self): pass

    def __bool__(self):
        return True

    def _ck(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, n=-1):
        self._ck()
        if n is None or (isinstance(n, int) and n < 0):
            n = None
        elif isinstance(n, SInt) and n < 0:
            n = None
        out = []
        if self.past:
            return b""
        while self.i < len(self.segs):
            s = self.segs[self.i]
            rem = seg_len(s) - self.o
            if n is not None:
                if isinstance(n, int) and n == 0:
                    break
                if isinstance(rem, SInt) and rem == 0:
                    self.i += 1
                    self.o = 0
                    continue
                if not (n >= rem):
                    # ends inside this segment
                    if isinstance(s, Blob):
                        out.append(Blob(s.name, s.off + self.o, n))
                        self.o = self.o + n
                    else:
                        k = int(n)
                        out.append(s[self.o : self.o + k])
                        self.o += k
                        n = k
                    self.pos = self.pos + n
                    n = 0
                    break
                n = n - rem
            out.append(Blob(s.name, s.off + self.o, rem) if isinstance(s, Blob) else s[self.o :])
            self.pos = self.pos + rem
            self.i += 1
            self.o = 0
        return Rope(out).simple()

    read1 = read

    def readinto(self, b):
        raise Unsupported("readinto")

    def seek(self, off, whence=0):
        self._ck()
        if whence == os.SEEK_CUR:
            if off < 0:
                off, whence = self.pos + off, 0
            else:
                self.read(off)
                return self.pos
        if whence == 2:
            self.read(None)
            if isinstance(off, int) and off == 0:
                return self.pos
            off, whence = self.pos + off, 0
        if off < 0:
            raise ValueError("negative seek value")
        self.i = 0
        self.o = 0
        self.pos = 0
        self.read(off)
        return self.pos

    def tell(self):
        self._ck()
        return self.pos

    def write(self, data):
        self._ck()
        if self.i < len(self.segs):
            raise Unsupported("overwrite in stream")
        if isinstance(data, (bytearray, memoryview)):
            data = bytes(data)
        if not isinstance(data, (bytes, SBytes, Rope)):
            raise TypeError(f"a bytes-like object is required, not '{type(data).__name__}'")
        segs = Rope([data]).segs
        n = 0
        for s in segs:
            self.segs.append(s)
            n = n + seg_len(s)
        self.i = len(self.segs)
        self.o = 0
        self.pos = self.pos + n
        return n

    def getvalue(self):
        self._ck()
        return Rope(self.segs).simple()

    def getbuffer(self):
        return self.getvalue()

    def __iter__(self):
        raise Unsupported("iterate stream lines")


class XmlPart:
    """XML document given as the events its parser will deliver (harness input)."""

    def __init__(self, events):
        self.events = list(events)


class XmlStream(Sym):
    __slots__ = ("part", "closed", "consumed", "zf")

    def __init__(self, part):
        self.part = part
        self.closed = False
        self.consumed = False

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.closed = True

    def close(self):
        self.closed = True

    def __bool__(self):
        return True

    def read(self, n=-1):
        if self.closed:
            raise ValueError("read from closed file.")
        if not (n is None or n < 0):
            raise Unsupported("partial read of XML part")
        return self.part

    def seek(self, off, whence=0):
        if off == 0 and whence == 0:
            return 0
        raise Unsupported("seek in XML part")


class SZip(Sym):
    """An archive given by the harness: part name -> bytes-like / Rope / XmlPart."""

    __slots__ = ("parts", "closed", "opened")

    def __init__(self, parts):
        self.parts = dict(parts)
        self.closed = False
        self.opened = []

    def __bool__(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.closed = True

    def close(self):
        self.closed = True

    def readable(self): return True
    def seekable(self): return True

    def seek(self, *_):
        return 0

    def tell(self):
        return 0


class ZipFile(Sym):
    """Model of zipfile.ZipFile (read side)."""

    __slots__ = ("parts", "fp", "filename", "opened")

    def __init__(self, file, mode="r", *a, **k):
        self.filename = None
        if isinstance(file, (str, os.PathLike)):
            self.filename = os.fspath(file)
            from .core import eng

            saved = eng().path_state.get("files", {})
            if self.filename not in saved:
                raise Unsupported("ZipFile of a real file")
            file = saved[self.filename]
        if not isinstance(file, SZip):
            raise Unsupported("ZipFile of a real file")
        if file.closed:
            raise ValueError("I/O operation on closed file.")
        self.parts = file.parts
        self.fp = file
        self.opened = []
        file.opened.append(self)

    def is_open(self):
        """the file is in use as long as the archive or one of its parts is"""
        return self.fp is not None or any(not x.closed for x in self.opened)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.fp = None

    def close(self):
        self.fp = None

    def __bool__(self):
        return True

    def namelist(self):
        return list(self.parts)

    def _get(self, name):
        if self.fp is None:
            raise ValueError("Attempt to use ZIP archive that was already closed")
        if is_sym(name):
            for k in self.parts:
                if name == k:
                    return self.parts[k]
            raise KeyError("There is no item named <symbolic> in the archive")
        if name not in self.parts:
            raise KeyError(f"There is no item named {name!r} in the archive")
        return self.parts[name]

    def open(self, name, mode="r", *a, **k):
        p = self._get(name)
        if self.fp.closed:
            raise ValueError("I/O operation on closed file.")
        st = XmlStream(p) if isinstance(p, XmlPart) else Stream(p)
        self.opened.append(st)
        return st

    def read(self, name, *a):
        with self.open(name) as f:
            return f.read()

    def getinfo(self, name):
        raise Unsupported("getinfo")
