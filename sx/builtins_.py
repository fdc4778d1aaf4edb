"""Runtime of the instrumented code: hooks called by the transformed AST, containers that accept
symbolic keys, and overrides of the Python built-ins."""
from __future__ import annotations

import builtins as B
import functools
import string
import types
from collections.abc import Mapping, MutableMapping, MutableSet
from collections.abc import Set as AbcSet

import numpy as np

from .core import Steer, Unsupported, eng, has_engine
from .stream import Rope
from .stubs import Module
from .values import (
    CStr,
    OBytes,
    OCat,
    OStr,
    SBool,
    SBytes,
    SFloat,
    SInt,
    Sym,
    SymStr,
    XByteArray,
    and_all,
    as_sint,
    bytes_join,
    deep_sym,
    is_sym,
    ite,
    mkbool,
    mkbytes,
    mkint,
    mkstr,
    not_,
    ocat,
    or_all,
    slice_conc,
    str_join,
    sym_int_str,
)


# ------------------------------------------------------------------------------ equality / containers
def _key_sym(k):
    return deep_sym(k)


def key_eq(a, b):
    """Equality of dictionary keys as a value that may be an SBool (no fork)."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return and_all([key_eq(x, y) for x, y in zip(a, b)])
    r = a == b
    return r


class XDict(MutableMapping):
    """Insertion-ordered dictionary; look-ups that involve a symbolic key fork on key equality."""

    __slots__ = ("_d", "_s", "_n")

    def __init__(self, *a, **k):
        self._d = {}  # concrete key -> [key, value, order]
        self._s = []  # entries with symbolic keys
        self._n = 0
        if a:
            src = a[0]
            if hasattr(src, "keys"):
                for kk in src.keys():
                    self[kk] = src[kk]
            else:
                for kk, v in src:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    @classmethod
    def fromkeys(cls, it, value=None):
        d = cls()
        for k in it:
            d[k] = value
        return d

    def _find(self, k):
        if _key_sym(k):
            for e in self._entries():
                if key_eq(e[0], k):
                    return e
            return None
        e = self._d.get(k)
        if e is not None:
            return e
        for e in self._s:
            if key_eq(e[0], k):
                return e
        return None

    def _entries(self):
        if not self._s:
            return list(self._d.values())
        return sorted(list(self._d.values()) + self._s, key=lambda e: e[2])

    def __getitem__(self, k):
        e = self._find(k)
        if e is None:
            if hasattr(type(self), "__missing__"):
                return self.__missing__(k)
            raise KeyError("<symbolic>" if _key_sym(k) else k)
        return e[1]

    def __setitem__(self, k, v):
        e = self._find(k)
        if e is not None:
            e[1] = v
            return
        self._n += 1
        e = [k, v, self._n]
        if _key_sym(k):
            self._s.append(e)
        else:
            self._d[k] = e

    def __delitem__(self, k):
        e = self._find(k)
        if e is None:
            raise KeyError("<symbolic>" if _key_sym(k) else k)
        if any(x is e for x in self._s):
            self._s = [x for x in self._s if x is not e]
        else:
            del self._d[e[0]]

    def __contains__(self, k):
        return bool(self.sx_contains(k))

    def sx_contains(self, k):
        if not _key_sym(k) and k in self._d:
            return True
        if _key_sym(k):
            return or_all([key_eq(e[0], k) for e in self._entries()])
        return or_all([key_eq(e[0], k) for e in self._s])

    def __iter__(self):
        return iter([e[0] for e in self._entries()])

    def __len__(self):
        return len(self._d) + len(self._s)

    def __bool__(self):
        return len(self) > 0

    def copy(self):
        return XDict(self)

    def __or__(self, o):
        d = XDict(self)
        d.update(o)
        return d

    def __ror__(self, o):
        d = XDict(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __reversed__(self):
        return iter([e[0] for e in self._entries()][::-1])

    def __eq__(self, o):
        if not isinstance(o, (Mapping, dict)) or len(o) != len(self):
            return False
        return all(k in self and self[k] == o[k] for k in o)

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(f"{e[0]!r}: {e[1]!r}" for e in self._entries()) + "}"


class _SetBase(AbcSet):
    __slots__ = ("_d", "_s")

    def __init__(self, it=()):
        self._d = {}
        self._s = []
        for x in it:
            self._put(x)

    @classmethod
    def _from_iterable(cls, it):
        return cls(it)

    def _put(self, x):
        if _key_sym(x):
            if not self.sx_contains(x):
                self._s.append(x)
        elif x not in self._d:
            for y in self._s:
                if key_eq(y, x):
                    return
            self._d[x] = None

    def sx_contains(self, x):
        if not _key_sym(x):
            if x in self._d:
                return True
            return or_all([key_eq(y, x) for y in self._s])
        return or_all([key_eq(y, x) for y in [*self._d, *self._s]])

    def __contains__(self, x):
        return bool(self.sx_contains(x))

    def __iter__(self):
        return iter([*self._d, *self._s])

    def __len__(self):
        return len(self._d) + len(self._s)

    def copy(self):
        return type(self)(self)

    def union(self, *o):
        r = type(self)(self)
        for s in o:
            for x in s:
                r._put(x)
        return r

    def intersection(self, o):
        return self & _as_set(o)

    def difference(self, o):
        return self - _as_set(o)

    def issubset(self, o):
        return self <= _as_set(o)

    def issuperset(self, o):
        return self >= _as_set(o)

    def __repr__(self):
        return f"{type(self).__name__}({list(self)!r})"


def _as_set(o):
    return o if isinstance(o, AbcSet) else XFrozenSet(o)


class XSet(_SetBase, MutableSet):
    __slots__ = ()

    def add(self, x):
        self._put(x)

    def discard(self, x):
        if not _key_sym(x) and x in self._d:
            del self._d[x]
            return
        for y in list(self):
            if key_eq(y, x):
                if _key_sym(y):
                    self._s = [z for z in self._s if z is not y]
                else:
                    del self._d[y]
                return

    def update(self, *its):
        for it in its:
            for x in it:
                self._put(x)


class XFrozenSet(_SetBase):
    __slots__ = ()

    def __hash__(self):
        if self._s:
            raise Unsupported("hash of a set with symbolic elements")
        return hash(frozenset(self._d))


# ------------------------------------------------------------------------------ hooks
def contains(container, item):
    f = getattr(type(container), "sx_contains", None)
    if f is not None:
        return f(container, item)
    if isinstance(container, SymStr):
        if isinstance(container, CStr):
            return container.contains(item)
        raise Unsupported("substring of opaque string")
    if type(container) in (set, frozenset, list, tuple, dict) or isinstance(container, (type({}.keys()), type({}.values()))):
        if deep_sym(item) or (type(container) in (list, tuple) and deep_sym(container)):
            return or_all([key_eq(x, item) for x in container])
        return item in container
    if isinstance(container, str) and isinstance(item, SymStr):
        if isinstance(item, CStr):
            n = len(item)
            return or_all([item == container[i : i + n] for i in range(len(container) - n + 1)])
        raise Unsupported("opaque string in str")
    if isinstance(container, (bytes, bytearray)) and is_sym(item):
        return or_all([x == item for x in container]) if isinstance(item, SInt) else SBytes(container).__contains__(item)
    if isinstance(container, range) and isinstance(item, SInt):
        if container.step == 1:
            return and_all([item >= container.start, item < container.stop])
        return or_all([item == x for x in container])
    return item in container


def not_contains(container, item):
    return not_(contains(container, item))


def fstr(parts):
    """parts: str | (value, conversion, spec)"""
    if not any(isinstance(p, tuple) and (is_sym(p[0]) or is_sym(p[2])) for p in parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
                continue
            v, conv, spec = p
            if conv == 115:
                v = str(v)
            elif conv == 114:
                v = repr(v)
            elif conv == 97:
                v = ascii(v)
            out.append(format(v, spec))
        return "".join(out)
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if is_sym(v):
            if conv == 114:
                out.append("<sym>")
                continue
            if spec:
                v = int(v) if isinstance(v, (SInt, SBool)) else v
                if is_sym(v):
                    raise Unsupported("format spec on symbolic value")
                out.append(format(v, spec))
                continue
            out.append(x_str(v))
        else:
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            out.append(format(v, spec))
    return str_join("", out)


def fmt_call(tmpl, a, k):
    auto = 0
    parts = []
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            raise Unsupported("format field")
        parts.append((v, ord(conv) if conv else -1, spec or ""))
    return fstr(parts)


def percent(a, b):
    if isinstance(a, str) and deep_sym(b):
        args = b if isinstance(b, tuple) else (b,)
        pieces = a.split("%s")
        if len(pieces) == len(args) + 1 and "%" not in "".join(pieces):
            out = [pieces[0]]
            for v, p in zip(args, pieces[1:]):
                out += [(v, -1, ""), p]
            return fstr(out)
        raise Unsupported("% formatting")
    return a % b


_STR_BOTH = {"startswith", "endswith", "find", "index", "split", "rsplit", "partition", "replace", "strip", "lstrip", "rstrip", "removeprefix", "removesuffix", "count", "rfind"}


def bound(obj, name):
    """a method of a literal as a value: ", ".join"""
    f = getattr(obj, name)
    return functools.partial(callm, obj, name) if callable(f) else f


def callm(obj, name, *a, **k):
    t = type(obj)
    if t is str:
        if name == "join":
            items = list(a[0])
            return str_join(obj, items) if any(is_sym(x) for x in items) else obj.join(items)
        if deep_sym(a) or deep_sym(tuple(k.values())):
            if name == "format":
                return fmt_call(obj, a, k)
            if any(isinstance(x, (OStr, OCat)) for x in a):
                raise Unsupported("str method with opaque argument")
            if name in _STR_BOTH:
                return getattr(CStr(tuple(map(ord, obj))), name)(*a, **k)
    elif t is bytes or t is bytearray:
        if name == "join":
            items = list(a[0])
            return bytes_join(obj, items) if any(is_sym(x) for x in items) else obj.join(items)
        if deep_sym(a):
            return getattr(SBytes(tuple(obj)), name)(*a, **k)
    elif t is dict:
        if deep_sym(a):
            return getattr(XDict(obj), name)(*a, **k)
    elif t is Module or t is np.ndarray:
        # the built-in types as data types
        a = tuple(x._real if isinstance(x, _TMeta) else x for x in a)
        k = {n: x._real if isinstance(x, _TMeta) else x for n, x in k.items()}
    elif t is slice:
        if name == "indices" and (deep_sym(a) or deep_sym((obj.start, obj.stop, obj.step))):
            return slice_indices(obj, *a)
    elif t is int:
        if name == "to_bytes" and deep_sym(a):
            a = tuple(int(x) if isinstance(x, SInt) else x for x in a)
    elif t is list:
        if name in ("pop", "insert") and a and isinstance(a[0], SInt):
            return getattr(obj, name)(int(a[0]), *a[1:])
        if name == "index" and deep_sym(a):
            for i, x in enumerate(obj):
                if x == a[0]:
                    return i
            raise ValueError("not in list")
    return getattr(obj, name)(*a, **k)


def slice_indices(s, n):
    """slice.indices without case split"""
    if n < 0:
        raise ValueError("length should not be negative")
    step = 1 if s.step is None else int(s.step)
    if step == 0:
        raise ValueError("slice step cannot be zero")
    lo, hi = (0, n) if step > 0 else (-1, n - 1)

    def clamp(v, dflt):
        if v is None:
            return dflt
        w = ite(v < 0, v + n, v)
        return ite(w < lo, lo, ite(w > hi, hi, w))

    return (clamp(s.start, lo if step > 0 else hi), clamp(s.stop, hi if step > 0 else lo), step)


def getitem(obj, i):
    t = type(obj)
    if t in (list, tuple, str, bytes, bytearray) and deep_sym(i):
        n = len(obj)
        if isinstance(i, slice):
            return obj[slice_conc(i, n)]
        if isinstance(i, SInt):
            if i >= n or i < -n:
                raise IndexError(f"{t.__name__} index out of range")
            return obj[int(i)]
        if isinstance(i, SBool):
            return obj[int(i)]
    elif t is dict and deep_sym(i):
        return XDict(obj)[i]
    elif t is np.ndarray and deep_sym(i):
        from .model_np import SArr

        return SArr.of(obj)[i]
    return obj[i]


def enter(qual):
    if has_engine():
        eng().functions.add(qual)


def tick():
    if has_engine():
        eng().tick()


def mkset(*a):
    return XSet(a)


def mkdict(pairs):
    """pairs: (True, mapping) for ** expansions, (False, k, v) otherwise"""
    d = XDict()
    for p in pairs:
        if p[0]:
            d.update(p[1])
        else:
            d[p[1]] = p[2]
    return d


def setcomp(gen):
    return XSet(gen)


def dictcomp(gen):
    return XDict(gen)


# ------------------------------------------------------------------------------ builtins
def x_len(x):
    f = getattr(type(x), "sxlen", None)
    if f is not None:
        return f(x)
    if isinstance(x, (str, bytes, list, tuple, dict, range, bytearray, memoryview)):
        return B.len(x)
    if isinstance(x, types.SimpleNamespace):
        return B.len(x)
    f = getattr(type(x), "__len__", None)
    if f is None:
        return B.len(x)
    r = f(x)
    if not isinstance(r, (int, SInt, SBool)):
        raise TypeError(f"'{type(r).__name__}' object cannot be interpreted as an integer")
    if r < 0:
        raise ValueError("__len__() should return >= 0")
    return r


class SRange:
    def __init__(self, *a):
        self.start, self.step = 0, 1
        if len(a) == 1:
            self.stop = a[0]
        else:
            self.start, self.stop = a[0], a[1]
            if len(a) == 3:
                self.step = int(a[2])
        if self.step == 0:
            raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        i = self.start
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            eng().tick()
            yield i
            i = i + self.step

    def sxlen(self):
        if self.step > 0:
            n = (self.stop - self.start + (self.step - 1)) // self.step
        else:
            n = (self.start - self.stop + (-self.step - 1)) // -self.step
        return ite(n > 0, n, 0)

    def sx_contains(self, x):
        if self.step > 0:
            return and_all([x >= self.start, x < self.stop, (x - self.start) % self.step == 0])
        return and_all([x <= self.start, x > self.stop, (self.start - x) % (-self.step) == 0])

    __hash__ = None


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (B.range, SRange))


class x_range(metaclass=_RangeMeta):
    def __new__(cls, *a):
        if deep_sym(a):
            return SRange(*a)
        return B.range(*a)


def _minmax(name, a, k):
    real = getattr(B, name)
    if k.get("key") is not None:
        return real(*a, **k)
    items = list(a[0]) if len(a) == 1 else list(a)
    if items and any(isinstance(x, SInt) for x in items) and all(isinstance(x, (int, SInt)) for x in items):
        r = items[0]
        for x in items[1:]:
            r = ite(x > r if name == "max" else x < r, x, r)
        return r
    if len(a) == 1:
        return real(items, **k)
    return real(*items)


def x_max(*a, **k):
    return _minmax("max", a, k)


def x_min(*a, **k):
    return _minmax("min", a, k)


def x_iter(*a):
    if len(a) == 2:
        f, s = a

        def gen():
            while True:
                v = f()
                if v is s or v == s:
                    return
                yield v

        return gen()
    return B.iter(*a)


def x_ord(c):
    if isinstance(c, CStr):
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return c.c[0]
    if isinstance(c, SBytes):
        return c.b[0]
    return B.ord(c)


def x_chr(i):
    return mkstr([i]) if isinstance(i, SInt) else B.chr(i)


def x_divmod(a, b):
    return (a // b, a % b) if is_sym(a) or is_sym(b) else B.divmod(a, b)


def x_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def x_abs(x):
    return x.__abs__() if is_sym(x) else B.abs(x)


def x_round(x, n=None):
    if is_sym(x):
        raise Unsupported("round()")
    return B.round(x) if n is None else B.round(x, n)


def x_pow(a, b, m=None):
    return a ** b if m is None else B.pow(int(a), int(b), int(m))


def x_repr(x):
    return "<sym>" if deep_sym(x) else B.repr(x)


def x_hash(x):
    if deep_sym(x):
        raise Unsupported("hash()")
    return B.hash(x)


def x_bin(x):
    return B.bin(int(x))


def x_callable(x):
    return B.callable(x)


def x_any(it):
    for x in it:
        if x:
            return True
    return False


def x_all(it):
    for x in it:
        if not x:
            return False
    return True


def x_str(*a, **k):
    if not a:
        return ""
    x = a[0]
    if len(a) > 1 or k:
        if is_sym(x):
            return x.decode(*a[1:], **k)
        return B.str(*a, **k)
    if isinstance(x, SymStr):
        return x
    if isinstance(x, (SInt, SBool)):
        return sym_int_str(as_sint(x)) if isinstance(x, SInt) else B.str(B.bool(x))
    if isinstance(x, Sym):
        raise Unsupported(f"str({type(x).__name__})")
    f = getattr(type(x), "__str__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    f = getattr(type(x), "__repr__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return B.str(x)


def x_int(*a, **k):
    if not a:
        return 0
    x = a[0]
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return ite(x, 1, 0)
    if isinstance(x, SFloat):
        return x.trunc_int()
    if isinstance(x, (CStr, SBytes)):
        base = a[1] if len(a) > 1 else k.get("base", 10)
        if base != 10:
            raise Unsupported("int(text, base)")
        cs = list(x.c if isinstance(x, CStr) else x.b)
        if len(cs) == 0:
            raise ValueError("invalid literal for int()")
        neg = False
        if len(cs) > 1 and cs[0] == 45:
            neg, cs = True, cs[1:]
        elif len(cs) > 1 and cs[0] == 43:
            cs = cs[1:]
        r = 0
        for c in cs:
            if not and_all([c >= 48, c <= 57]):
                if c == 95 or c == 32 or c > 127:
                    raise Unsupported("int() of unusual text")
                raise ValueError("invalid literal for int()")
            r = r * 10 + (c - 48)
        return -r if neg else r
    if isinstance(x, (OStr, OCat)):
        raise Unsupported("int(opaque text)")
    if deep_sym(a):
        a = tuple(int(y) if isinstance(y, SInt) else y for y in a)
    f = getattr(type(x), "__int__", None)
    return B.int(*a, **k)


def x_float(*a):
    if a and isinstance(a[0], (SInt, SBool, SFloat)):
        return SFloat.of(a[0])
    if a and is_sym(a[0]):
        raise Unsupported("float(text)")
    return B.float(*a)


def x_bool(*a):
    return B.bool(*a)


def x_bytes(*a, **k):
    if not a:
        return b""
    x = a[0]
    if isinstance(x, XByteArray):
        return mkbytes(x.b)
    if isinstance(x, (SBytes, Rope, OBytes)):
        return x
    if isinstance(x, SymStr):
        return x.encode(*a[1:], **k)
    if isinstance(x, SInt):
        return B.bytes(int(x))
    if isinstance(x, (B.str, B.bytes, B.bytearray, B.memoryview, B.int)):
        return B.bytes(*a, **k)
    f = getattr(type(x), "__bytes__", None)
    if f is not None:
        return f(x)
    return mkbytes(list(x))


def x_bytearray(*a, **k):
    if not a:
        return XByteArray()
    x = a[0]
    if isinstance(x, SymStr):
        x = x.encode(*a[1:], **k)
    elif isinstance(x, SInt):
        x = B.bytes(int(x))
    elif isinstance(x, (B.str, B.int)):
        x = B.bytes(*a, **k)
    if isinstance(x, (Rope, OBytes)):
        raise Unsupported("bytearray of opaque bytes")
    return XByteArray(x)


def x_memoryview(x):
    return x if isinstance(x, (SBytes, Rope, OBytes)) else B.memoryview(x)


_EXTRA = {
    "bytearray": (XByteArray,),
    "memoryview": (),
    "int": (SInt, SBool),
    "bool": (SBool,),
    "str": (SymStr,),
    "bytes": (SBytes, Rope, OBytes),
    "float": (SFloat,),
    "dict": (XDict,),
    "set": (XSet,),
    "frozenset": (XFrozenSet,),
}


def _unbound(cls, n, f):
    """str.strip and the like as a function: a symbolic value uses its own method"""
    extra = type.__getattribute__(cls, "_extra")

    def call(x, /, *a, **k):
        if B.isinstance(x, extra) or any(B.isinstance(y, Sym) for y in a):
            return callm(x, n, *a, **k)
        return f(x, *a, **k)

    call.__name__ = n
    return call


class _TMeta(type):
    def __instancecheck__(cls, x):
        if cls._real is B.bytes and B.isinstance(x, XByteArray):
            return False
        return B.isinstance(x, (cls._real, *cls._extra))

    def __subclasscheck__(cls, c):
        return c is cls or B.issubclass(getattr(c, "_real", c), cls._real)

    def __getattr__(cls, n):
        f = getattr(type.__getattribute__(cls, "_real"), n)
        if B.isinstance(f, types.MethodDescriptorType):
            return _unbound(cls, n, f)
        return f

    def __eq__(cls, o):
        return o is cls or o is type.__getattribute__(cls, "_real")

    def __hash__(cls):
        return hash(type.__getattribute__(cls, "_real"))

    def __getitem__(cls, i):
        return cls

    def __repr__(cls):
        return repr(cls._real)


def _mk(name, conv, **attrs):
    return _TMeta(name, (), {"_real": getattr(B, name), "_extra": _EXTRA[name], "__new__": lambda cls, *a, **k: conv(*a, **k), **attrs})


def _int_from_bytes(data, byteorder="big", *, signed=False):
    from .stubs import int_of_bytes

    if isinstance(data, SBytes):
        b = list(data.b)
        return int_of_bytes(b if byteorder == "little" else b[::-1], signed)
    if isinstance(data, Rope):
        raise Unsupported("int.from_bytes(rope)")
    return B.int.from_bytes(data, byteorder, signed=signed)


X_INT = _mk("int", x_int, from_bytes=staticmethod(_int_from_bytes))
X_STR = _mk("str", x_str)
X_BYTES = _mk("bytes", x_bytes)
X_BYTEARRAY = _mk("bytearray", x_bytearray)
X_MEMORYVIEW = _mk("memoryview", x_memoryview)
X_BOOL = _mk("bool", x_bool)
X_FLOAT = _mk("float", x_float)
X_TYPES = {B.int: X_INT, B.str: X_STR, B.bytes: X_BYTES, B.bool: X_BOOL, B.float: X_FLOAT, B.bytearray: X_BYTEARRAY, B.memoryview: X_MEMORYVIEW, B.dict: XDict, B.set: XSet, B.frozenset: XFrozenSet}
_TO_REAL = {v: k for k, v in X_TYPES.items()}


class _DictMeta(type(XDict)):
    def __instancecheck__(cls, x):
        return B.isinstance(x, B.dict) or any(c.__name__ == "XDict" for c in type(x).__mro__)


def x_isinstance(x, c):
    if B.isinstance(c, tuple):
        return any(x_isinstance(x, y) for y in c)
    if B.isinstance(c, types.UnionType):
        return any(x_isinstance(x, y) for y in c.__args__)
    if c is XDict:
        return B.isinstance(x, (XDict, B.dict))
    if c is XSet:
        return B.isinstance(x, (XSet, B.set))
    if c is XFrozenSet:
        return B.isinstance(x, (XFrozenSet, B.frozenset))
    if B.isinstance(c, _TMeta):
        return B.isinstance(x, c)
    if B.isinstance(x, XByteArray) and c is B.bytes:
        return False
    if B.isinstance(c, type) and c in X_TYPES:
        return B.isinstance(x, (c, *_EXTRA.get(c.__name__, ())))
    f = getattr(c, "sx_instance", None)
    if f is not None:
        return f(x)
    return B.isinstance(x, c)


def x_issubclass(a, c):
    a = _TO_REAL.get(a, a)
    if B.isinstance(c, tuple):
        return any(x_issubclass(a, y) for y in c)
    return B.issubclass(a, _TO_REAL.get(c, c))


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return B.isinstance(x, B.type)

    def __getitem__(cls, i):
        return cls


class x_type(metaclass=_TypeMeta):
    def __new__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SBool):
                return X_BOOL
            if isinstance(x, SInt):
                return X_INT
            if isinstance(x, SymStr):
                return X_STR
            if isinstance(x, XByteArray):
                return X_BYTEARRAY
            if isinstance(x, (SBytes, Rope, OBytes)):
                return X_BYTES
            if isinstance(x, SFloat):
                return X_FLOAT
            t = B.type(x)
            return X_TYPES.get(t, t)
        return B.type(*a, **k)


def x_sorted(it, *, key=None, reverse=False):
    return B.sorted(list(it), key=key, reverse=reverse)


OVERRIDES = {
    "len": x_len,
    "range": x_range,
    "max": x_max,
    "min": x_min,
    "iter": x_iter,
    "ord": x_ord,
    "chr": x_chr,
    "divmod": x_divmod,
    "sum": x_sum,
    "abs": x_abs,
    "round": x_round,
    "pow": x_pow,
    "repr": x_repr,
    "hash": x_hash,
    "bin": x_bin,
    "int": X_INT,
    "str": X_STR,
    "bytes": X_BYTES,
    "bytearray": X_BYTEARRAY,
    "memoryview": X_MEMORYVIEW,
    "bool": X_BOOL,
    "float": X_FLOAT,
    "dict": XDict,
    "set": XSet,
    "frozenset": XFrozenSet,
    "isinstance": x_isinstance,
    "issubclass": x_issubclass,
    "type": x_type,
}
