"""Models of the other library modules the code under test imports: struct, io, zipfile, pyexpat, threading, queue, re, warnings."""
from __future__ import annotations

import re as _re
import struct as _struct

from .core import Unsupported, eng, z3
from .regex import SymRegex
from .sched import Sched, classes
from .stream import Rope, Stream, XmlPart, XmlStream, ZipFile
from .values import (
    CStr,
    F64,
    OBytes,
    OCat,
    OStr,
    SBytes,
    SFloat,
    SInt,
    Sym,
    SymStr,
    and_all,
    bits2f,
    deep_sym,
    fmode,
    is_sym,
    mkbytes,
    mkfloat,
    mkint,
)


class Module:
    """A module that offers overrides first and the real module's attributes otherwise."""

    def __init__(self, real, **over):
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


# ------------------------------------------------------------------------------ struct
class Struct:
    _codes = {"B": (1, False), "b": (1, True), "H": (2, False), "h": (2, True), "I": (4, False), "i": (4, True), "L": (4, False), "l": (4, True), "Q": (8, False), "q": (8, True), "d": (8, "f"), "x": (1, None), "?": (1, False)}

    def __init__(self, fmt):
        self.format = fmt
        self._real = _struct.Struct(fmt)
        self.size = self._real.size
        order = "<"
        f = fmt
        if f and f[0] in "<>=!@":
            order, f = f[0], f[1:]
        self._big = order in ">!"
        self._items = []
        ok = True
        for n, c in _re.findall(r"(\d*)([a-zA-Z?])", f):
            if c == "s":
                self._items.append(("s", int(n or 1), None))
                continue
            if c not in self._codes:
                ok = False
                break
            for _ in range(int(n or 1)):
                self._items.append((c, *self._codes[c]))
        self._ok = ok and (order in "<>!=" or self.size == sum(i[1] for i in self._items))

    def pack(self, *args):
        if not any(is_sym(a) for a in args):
            return self._real.pack(*args)
        if not self._ok:
            raise Unsupported("struct format " + self.format)
        vals = [i for i in self._items if i[0] != "x"]
        if len(vals) != len(args):
            raise _struct.error(f"pack expected {len(vals)} items for packing (got {len(args)})")
        out = []
        it = iter(args)
        for c, n, signed in self._items:
            if c == "x":
                out.append(0)
                continue
            v = next(it)
            if c == "s":
                b = list(v)[:n]
                out += b + [0] * (n - len(b))
                continue
            if signed == "f":
                raise Unsupported("pack symbolic float")
            if not isinstance(v, (int, SInt)):
                if hasattr(v, "__index__"):
                    v = v.__index__()
                else:
                    raise _struct.error("required argument is not an integer")
            lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
            if v < lo or v > hi:
                raise _struct.error(f"'{c}' format requires {lo} <= number <= {hi}")
            bs = [(v >> (8 * i)) & 0xFF for i in range(n)]
            out += bs[::-1] if self._big else bs
        return mkbytes(out)

    def unpack(self, data):
        if isinstance(data, (bytes, bytearray, memoryview)):
            return self._real.unpack(data)
        if isinstance(data, Rope):
            if not (data.sxlen() == self.size):
                raise _struct.error(f"unpack requires a buffer of {self.size} bytes")
            raise Unsupported("unpack of opaque bytes")
        if not isinstance(data, SBytes):
            raise Unsupported(f"unpack {type(data).__name__}")
        if len(data) != self.size:
            raise _struct.error(f"unpack requires a buffer of {self.size} bytes")
        return self.unpack_from(data, 0)

    def unpack_from(self, data, offset=0):
        if isinstance(data, (bytes, bytearray, memoryview)) and not is_sym(offset):
            return self._real.unpack_from(data, offset)
        if not self._ok:
            raise Unsupported("struct format " + self.format)
        offset = int(offset)
        if len(data) < offset + self.size:
            raise _struct.error(f"unpack_from requires a buffer of at least {offset + self.size} bytes")
        out = []
        p = offset
        for c, n, signed in self._items:
            bs = [data[p + i] for i in range(n)]
            p += n
            if c == "x":
                continue
            if c == "s":
                out.append(mkbytes(bs))
                continue
            if self._big:
                bs = bs[::-1]
            if signed == "f":
                out.append(float_of_bytes(bs))
                continue
            v = int_of_bytes(bs, bool(signed))
            out.append((v != 0) if c == "?" else v)
        return tuple(out)

    def iter_unpack(self, data):
        for i in range(0, len(data), self.size):
            yield self.unpack(data[i : i + self.size])


def byte_term(x):
    return z3.BitVecVal(x, 8) if isinstance(x, int) else _sx8(x)


def _sx8(x):
    t = x.t
    return z3.Extract(7, 0, t) if t.size() > 8 else (z3.SignExt(8 - t.size(), t) if t.size() < 8 else t)


def bv_of_bytes(bs):
    """little-endian byte list -> BitVec(8n)"""
    bs = list(bs)
    t = [byte_term(b) for b in bs]
    return z3.simplify(z3.Concat(*t[::-1]) if len(t) > 1 else t[0])


def int_of_bytes(bs, signed=False):
    n = len(bs)
    if n == 0:
        return 0
    if all(isinstance(b, int) for b in bs):
        return int.from_bytes(bytes(bs), "little", signed=signed)
    t = bv_of_bytes(bs)
    if signed:
        return mkint(t, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
    # value bits above the highest non-zero byte are known to be zero
    top = n
    while top and isinstance(bs[top - 1], int) and bs[top - 1] == 0:
        top -= 1
    hi = (1 << (8 * top)) - 1
    return mkint(z3.ZeroExt(1, t), 0, hi)


def float_of_bytes(bs):
    if all(isinstance(b, int) for b in bs):
        return _struct.unpack("<d", bytes(bs))[0]
    t = bv_of_bytes(bs)
    return mkfloat(z3.fpBVToFP(t, F64) if fmode() == "fp" else bits2f(t))


def make_struct():
    cache = {}

    def S(f):
        if f not in cache:
            cache[f] = Struct(f)
        return cache[f]

    return Module(
        _struct,
        Struct=Struct,
        pack=lambda f, *a: S(f).pack(*a),
        unpack=lambda f, d: S(f).unpack(d),
        unpack_from=lambda f, d, o=0: S(f).unpack_from(d, o),
        iter_unpack=lambda f, d: S(f).iter_unpack(d),
    )


# ------------------------------------------------------------------------------ re
class Pattern:
    """re.Pattern that also works on strings of symbolic characters."""

    def __init__(self, pat, flags=0):
        self._re = _re.compile(pat, flags)
        self.pattern = pat
        self.flags = self._re.flags
        self._sym = None

    def _s(self):
        if self._sym is None:
            self._sym = SymRegex(self._re)
        return self._sym

    def _do(self, name, s, *a):
        if isinstance(s, (OStr, OCat)):
            # opaque text: an uninterpreted predicate of the text
            if name in ("search", "match", "fullmatch") and isinstance(s, OStr):
                from .model_pa import ostr_match

                return True if eng().branch(ostr_match(name, self.pattern, s)) else None
            raise Unsupported("regex on opaque string")
        if isinstance(s, CStr):
            return getattr(self._s(), name)(s, *a)
        return getattr(self._re, name)(s, *a)

    def search(self, s, *a): return self._do("search", s, *a)
    def match(self, s, *a): return self._do("match", s, *a)
    def fullmatch(self, s, *a): return self._do("fullmatch", s, *a)
    def finditer(self, s, *a): return self._do("finditer", s, *a)
    def findall(self, s, *a): return self._do("findall", s, *a)

    def sub(self, repl, s, count=0):
        if isinstance(s, CStr):
            return self._s().sub(repl, s, count)
        return self._re.sub(repl, s, count)

    def split(self, s, maxsplit=0):
        if isinstance(s, CStr):
            return self._s().split(s, maxsplit)
        return self._re.split(s, maxsplit)


def make_re():
    def comp(p, flags=0):
        if isinstance(p, Pattern):
            return p
        if is_sym(p):
            raise Unsupported("symbolic pattern")
        return Pattern(p, flags)

    return Module(
        _re,
        compile=comp,
        Pattern=Pattern,
        search=lambda p, s, flags=0: comp(p, flags).search(s),
        match=lambda p, s, flags=0: comp(p, flags).match(s),
        fullmatch=lambda p, s, flags=0: comp(p, flags).fullmatch(s),
        sub=lambda p, r, s, count=0, flags=0: comp(p, flags).sub(r, s, count),
        split=lambda p, s, maxsplit=0, flags=0: comp(p, flags).split(s, maxsplit),
        findall=lambda p, s, flags=0: comp(p, flags).findall(s),
        finditer=lambda p, s, flags=0: comp(p, flags).finditer(s),
    )


# ------------------------------------------------------------------------------ pyexpat
from xml.parsers.expat import ExpatError  # noqa: E402


class LongText:
    """Character data longer than any buffer the parser may be told to use: delivered in `pieces`."""

    def __init__(self, pieces):
        self.pieces = list(pieces)


class SParser:
    """pyexpat parser contract: delivers start/end/character-data events in document order.

    Character data is merged up to buffer_size when buffer_text is set; longer text arrives in pieces.
    Without buffer_text any text may arrive in pieces (only LongText inputs exercise it).
    """

    def __init__(self, *a, **k):
        self.StartElementHandler = None
        self.EndElementHandler = None
        self.CharacterDataHandler = None
        self.buffer_text = False
        self.buffer_size = 8192
        self.ordered_attributes = False
        self.specified_attributes = False
        self._open = []

    def ParseFile(self, io):
        if isinstance(io, Stream):
            raise Unsupported("XML parse of a byte stream")
        if not isinstance(io, XmlStream):
            raise Unsupported(f"ParseFile {type(io).__name__}")
        if io.closed:
            raise ValueError("read from closed file.")
        self._run(io.part)
        return 1

    def Parse(self, data, final=False):
        if isinstance(data, XmlPart):
            self._run(data)
        elif isinstance(data, bytes) and not data:
            pass
        else:
            raise Unsupported("Parse of bytes")
        return 1

    def _run(self, part):
        depth = seen = 0
        for ev in part.events:
            kind = ev[0]
            if kind == "start":
                depth += 1
                seen += 1
                if self.StartElementHandler is not None:
                    from .builtins_ import XDict

                    at = ev[2]
                    if self.ordered_attributes:
                        at = [y for kv in at.items() for y in kv]
                    else:
                        at = XDict(at)
                    self.StartElementHandler(ev[1], at)
            elif kind == "end":
                depth -= 1
                if self.EndElementHandler is not None:
                    self.EndElementHandler(ev[1])
            elif kind == "text":
                if self.CharacterDataHandler is not None:
                    t = ev[1]
                    if isinstance(t, LongText):
                        if isinstance(self.buffer_size, int) and self.buffer_size >= 1 << 20 and self.buffer_text:
                            self.CharacterDataHandler(_cat(t.pieces))
                        else:
                            for p in t.pieces:
                                self.CharacterDataHandler(p)
                    else:
                        self.CharacterDataHandler(t)
            elif kind == "error":
                raise ExpatError("not well-formed (invalid token)")
            else:
                raise AssertionError(kind)
        if depth or not seen:
            raise ExpatError("no element found")


def _cat(pieces):
    r = pieces[0]
    for p in pieces[1:]:
        r = r + p
    return r


def make_expat():
    import pyexpat

    return Module(pyexpat, ParserCreate=lambda *a, **k: SParser(), ExpatError=ExpatError, error=ExpatError)


# ------------------------------------------------------------------------------ threads and queues
def sched():
    """the scheduler of the threads of this path (sched.py)"""
    st = eng().path_state
    if "sched" not in st:
        rec = st.setdefault("schedule", [])

        def choose(n):
            rec.append(eng().choose(n))
            return rec[-1]

        st["sched"] = Sched(choose, st.get("switches", 0))
    return st["sched"]


def make_modules():
    import concurrent.futures
    import io
    import queue
    import threading
    import warnings
    import zipfile

    cls = classes(sched)
    futures = Module(concurrent.futures, **cls["concurrent.futures"])
    return {
        "struct": make_struct(),
        "re": make_re(),
        "io": Module(io, BytesIO=Stream),
        "zipfile": Module(zipfile, ZipFile=ZipFile, is_zipfile=lambda f: True),
        "pyexpat": make_expat(),
        "xml.parsers.expat": make_expat(),
        "threading": Module(threading, **cls["threading"]),
        "queue": Module(queue, **cls["queue"]),
        "concurrent.futures": futures,
        "concurrent": Module(concurrent, futures=futures),
    }
