"""Model of the part of pyarrow that works on 1-d arrays, for arrays with symbolic contents or length.

Array types are the real pyarrow.DataType objects and raised errors the real pyarrow exceptions.
Text <-> number/timestamp conversions are functions of the text declared by the harness (see Text)."""
from __future__ import annotations

import datetime as _dt

import numpy as np
import pyarrow as pa
import pyarrow.compute as pc
import pyarrow.lib as palib

from .core import Unsupported, eng, z3
from .model_np import BOOL, F8, NpBuf, SArr, _range, conv as np_conv, norm, scalar_to, view as np_view, wrap
from .seq import Lazy, Seq
from .stream import Rope
from .stubs import Module
from .values import (
    _LIT_BACK,
    CStr,
    OBytes,
    OCat,
    OStr,
    SBool,
    SBytes,
    SFloat,
    SInt,
    Sym,
    SymStr,
    and_all,
    as_bool_term,
    as_sint,
    bterm,
    deep_sym,
    fmode,
    intterm,
    is_sym,
    ite,
    lit_id,
    mkbytes,
    mkbool,
    mkfloat,
    mkint,
    not_,
    or_all,
    real_trunc_int,
)

NULLT = pa.null()
STR = pa.large_string()


class MemoryUnsafe(BaseException):
    """The code made arrow read outside its buffers (reported as a violation)."""


# ------------------------------------------------------------------------------ opaque text
class Text:
    """What an opaque string means: plain text, the decimal form of a number, or a date in some format."""

    def __init__(self, id, is_num=False, num=None, int_=None, dates=None):
        self.id = id  # z3 Int term
        self.is_num = is_num  # bool | SBool
        self.num = SFloat.of(num) if isinstance(num, SInt) else num  # float | SFloat (value if is_num)
        self.int_ = int_  # int | SInt (value when the text is a non-negative integer literal), or None
        self.dates = dates or {}  # strptime format -> (ok: bool|SBool, ms: int|SInt)


def texts() -> list:
    return eng().path_state.setdefault("texts", [])


def add_text(t: Text):
    texts().append(t)


def _lookup(s, get, dflt):
    """get(Text) -> (ok, value); merges over the registered texts."""
    t = z3.simplify(s.t)
    if z3.is_int_value(t):
        if t.as_long() <= 0:
            return None
    ok, val = dflt
    first = True
    for x in texts():
        o, v = get(x)
        same = mkbool(t == x.id)
        if same is True:
            return o, v
        if same is False:
            continue
        ok = mkbool(z3.If(bterm(same), bterm(o), bterm(ok)))
        if v is not None:
            val = v if val is None else ite(same, v, val)
    return ok, val


def text_num(s):
    """(is the text a number literal, its value)"""
    if isinstance(s, str):
        try:
            return True, float(s)
        except ValueError:
            return False, None
    if isinstance(s, OStr):
        r = _lookup(s, lambda x: (x.is_num, x.num), (False, None))
        if r is None:
            return text_num(_LIT_BACK[z3.simplify(s.t).as_long()])
        return r
    if isinstance(s, OCat):
        return False, None
    if isinstance(s, CStr):
        if len(s.c) < 3 and all(bool((x < 0x80) & ((x < 0x30) | (x > 0x39))) for x in s.c):
            # no digit, too short for nan and inf
            return False, None
        raise Unsupported("float of symbolic characters")
    raise Unsupported(f"text_num {type(s).__name__}")


def text_int(s):
    if isinstance(s, str):
        try:
            return True, int(s)
        except ValueError:
            return False, None
    if isinstance(s, OStr):
        r = _lookup(s, lambda x: (x.int_ is not None, x.int_), (False, None))
        if r is None:
            return text_int(_LIT_BACK[z3.simplify(s.t).as_long()])
        return r
    if isinstance(s, CStr):
        from .builtins_ import x_int

        try:
            return True, x_int(s)
        except ValueError:
            return False, None
    raise Unsupported(f"text_int {type(s).__name__}")


def text_date(s, fmt, unit="ms"):
    if unit != "ms":
        raise Unsupported("strptime unit")
    if isinstance(s, str):
        r = pc.strptime(pa.array([s], pa.large_string()), fmt, unit, True)
        if r[0].is_valid:
            return True, r[0].value
        return False, None
    if isinstance(s, OStr):
        r = _lookup(s, lambda x: x.dates.get(fmt, (False, None)), (False, None))
        if r is None:
            return text_date(_LIT_BACK[z3.simplify(s.t).as_long()], fmt)
        return r
    if isinstance(s, OCat):
        return False, None
    raise Unsupported("strptime of symbolic characters")


_match_fns: dict = {}


def ostr_match(how, pattern, s):
    """Uninterpreted predicate: does the opaque text match the pattern."""
    k = (how, pattern)
    if k not in _match_fns:
        _match_fns[k] = z3.Function(f"re_{how}_{len(_match_fns)}", z3.IntSort(), z3.BoolSort())
    reg = eng().path_state.get("matchers", {})
    for x in texts():
        fn = getattr(x, "match", None)
        if fn is not None and z3.is_true(z3.simplify(s.t == x.id)):
            return bterm(fn(how, pattern))
    # literals
    t = z3.simplify(s.t)
    if z3.is_int_value(t) and t.as_long() <= 0:
        import re

        return z3.BoolVal(getattr(re, how)(pattern, _LIT_BACK[t.as_long()]) is not None)
    r = z3.BoolVal(False)
    known = [x for x in texts() if getattr(x, "match", None) is not None]
    if known:
        out = _match_fns[k](t)
        for x in known:
            out = z3.If(t == x.id, bterm(x.match(how, pattern)), out)
        return out
    return _match_fns[k](t)


num2str = z3.Function("num2str", z3.RealSort(), z3.IntSort())
int2str = z3.Function("int2str", z3.IntSort(), z3.IntSort())
ts2str = z3.Function("ts2str", z3.IntSort(), z3.IntSort())


def _real(v):
    v = SFloat.of(v)
    return v.t


def fmt_num(v):
    if not is_sym(v):
        return pa.array([v], pa.float64()).cast(pa.large_string())[0].as_py()
    t = z3.simplify(num2str(_real(v)))
    _reg_derived(t, Text(t, True, v))
    return OStr(t)


def fmt_int(v):
    if not is_sym(v):
        return str(int(v))
    t = z3.simplify(int2str(intterm(v)))
    _reg_derived(t, Text(t, True, SFloat.of(v), v))
    return OStr(t)


def fmt_ts(v, typ):
    if not is_sym(v):
        return pa.array([v], pa.int64()).cast(typ).cast(pa.large_string())[0].as_py()
    t = z3.simplify(ts2str(intterm(v)))
    _reg_derived(t, Text(t))
    return OStr(t)


def _reg_derived(t, text):
    seen = eng().path_state.setdefault("derived", {})
    if t.get_id() in seen:
        return
    seen[t.get_id()] = t
    # rendered values are non-empty texts of their own kind, distinct from the declared opaque texts
    eng().add(t > 1000000)
    add_text(text)


# ------------------------------------------------------------------------------ elements
class Opt:
    """Element whose validity is symbolic."""

    __slots__ = ("ok", "v")

    def __init__(self, ok, v):
        self.ok, self.v = ok, v


def opt(ok, v):
    if ok is True:
        return v
    if ok is False:
        return None
    return Opt(ok, v)


def valid(e):
    if e is None:
        return False
    if isinstance(e, Opt):
        return e.ok
    return True


def val(e):
    return e.v if isinstance(e, Opt) else e


def emap(f, e):
    if e is None:
        return None
    if isinstance(e, Opt):
        return opt(e.ok, f(e.v))
    return f(e)


def force(e):
    """Case split on validity."""
    if isinstance(e, Opt):
        return e.v if bool(e.ok) else None
    return e


# ------------------------------------------------------------------------------ type helpers
def is_str(t):
    return pa.types.is_string(t) or pa.types.is_large_string(t)


def is_bin(t):
    return pa.types.is_binary(t) or pa.types.is_large_binary(t)


def is_ts(t):
    return pa.types.is_timestamp(t)


def width(t):
    return t.bit_width // 8


def np_dtype(t):
    if is_ts(t):
        return np.dtype(np.int64)
    if pa.types.is_floating(t):
        return np.dtype({16: "f2", 32: "f4", 64: "f8"}[t.bit_width])
    return np.dtype(str(t))


def cast_el(v, src, dst, safe):
    """Valid element conversion (may raise ArrowInvalid / ArrowNotImplementedError)."""
    if src.equals(dst):
        return v
    if is_str(dst):
        if is_str(src):
            return v
        if pa.types.is_floating(src):
            return fmt_num(v)
        if pa.types.is_integer(src):
            return fmt_int(v)
        if is_ts(src):
            return fmt_ts(v, src)
        if pa.types.is_boolean(src):
            return ("true" if bool(v) else "false")
        raise Unsupported(f"cast {src} -> {dst}")
    if is_str(src):
        if isinstance(v, str):
            return _from_real(pa.array([v], src).cast(dst, safe=safe)).q.at(0)
        if pa.types.is_floating(dst):
            ok, x = text_num(v)
            if not bool(ok):
                raise pa.ArrowInvalid("Failed to parse string as a scalar of type double")
            return x
        if pa.types.is_integer(dst):
            ok, x = text_int(v)
            if not bool(ok):
                raise pa.ArrowInvalid("Failed to parse string as a scalar of type int")
            lo, hi = _range(np_dtype(dst))
            if x < lo or x > hi:
                raise pa.ArrowInvalid("Failed to parse string as a scalar of type int")
            return x
        if is_ts(dst):
            for f in ("%Y-%m-%d", "%Y-%m-%d %T", "%Y-%m-%dT%T", "%Y-%m-%d %R", "%Y-%m-%dT%R"):
                ok, x = text_date(v, f)
                if bool(ok):
                    return x
            raise pa.ArrowInvalid("Failed to parse string as a timestamp")
        raise Unsupported(f"cast {src} -> {dst}")
    num = lambda t: pa.types.is_integer(t) or pa.types.is_floating(t) or pa.types.is_boolean(t)
    if num(src) and num(dst):
        a, b = np_dtype(src), np_dtype(dst)
        r = np_conv(v, a, b)
        if safe:
            if b.kind in "iu" and a.kind == "f":
                back = np_conv(r, b, a)
                if not (back == v):
                    raise pa.ArrowInvalid("Float value was truncated converting to int64")
            elif b.kind in "iu" and a.kind in "iu":
                lo, hi = _range(b)
                if v < lo or v > hi:
                    raise pa.ArrowInvalid("Integer value out of bounds")
            elif b.kind == "f" and a.kind in "iu":
                if v > 2**53 or v < -(2**53):
                    raise pa.ArrowInvalid("Integer value is outside of the range exactly representable by double")
        return r
    if is_ts(src) and pa.types.is_int64(dst) or is_ts(dst) and pa.types.is_int64(src):
        return v
    if is_ts(src) and is_ts(dst) and src.unit == dst.unit:
        return v
    if is_ts(src) and is_ts(dst) and safe and deep_sym((v,)):
        per = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}
        a, b = per[src.unit], per[dst.unit]
        if b > a:
            r = v * (b // a)
            if r > 2**63 - 1 or r < -(2**63):
                raise pa.ArrowInvalid("would result in out of bounds timestamp")
            return r
        if v % (a // b) != 0:
            raise pa.ArrowInvalid("would lose data")
        return v // (a // b)
    if not deep_sym((v,)):
        return _from_real(pa.array([v], pa.int64() if is_ts(src) else src).cast(src).cast(dst, safe=safe)).q.at(0)
    # unsupported pairs: ask the real library whether the kernel exists
    try:
        pa.array([], src).cast(dst, safe=safe)
    except (pa.ArrowNotImplementedError, NotImplementedError):
        raise
    raise Unsupported(f"cast {src} -> {dst}")


# ------------------------------------------------------------------------------ buffers
class Buffer(Sym):
    """An arrow buffer: raw bytes or a typed vector."""

    __slots__ = ("kind", "x", "dt")

    def __init__(self, x, dt=None):
        self.x = x  # SBytes/bytes/Rope or Seq
        self.dt = dt  # numpy dtype when x is a Seq

    @property
    def size(self):
        if self.dt is None:
            return self.x.sxlen() if isinstance(self.x, Rope) else len(self.x)
        return self.x.n() * self.dt.itemsize

    def sxlen(self):
        return self.size

    def as_np(self, dt):
        from .model_np import item_from_bytes

        if self.dt is not None:
            src = self.dt
            if src == dt:
                return norm(SArr(dt, self.x))
            return norm(SArr(dt, self.x.map(lambda v: np_view(v, src, dt))))
        if isinstance(self.x, Rope):
            raise Unsupported("buffer of opaque bytes")
        b = list(self.x)
        w = dt.itemsize
        if len(b) % w:
            raise ValueError("buffer size must be a multiple of element size")
        return norm(SArr(dt, [item_from_bytes(b[i : i + w], dt) for i in range(0, len(b), w)]))


def m_py_buffer(x):
    if isinstance(x, NpBuf):
        return Buffer(x.arr.q, x.arr.dtype)
    if isinstance(x, SArr):
        return Buffer(x.q, x.dtype)
    if isinstance(x, np.ndarray):
        return Buffer(Seq.of([v.item() for v in x]), x.dtype)
    if isinstance(x, memoryview):
        a = np.asarray(x)
        return Buffer(Seq.of([v.item() for v in a]), a.dtype)
    if isinstance(x, (bytes, bytearray, SBytes, Rope)):
        return Buffer(bytes(x) if isinstance(x, bytearray) else x)
    if isinstance(x, Buffer):
        return x
    raise Unsupported(f"py_buffer {type(x).__name__}")


def m_from_buffers(dtype, length, buffers, null_count=-1, offset=0, children=None):
    buf = buffers[-1]
    if buffers[0] is not None:
        raise Unsupported("from_buffers with a validity bitmap")
    if is_str(dtype):
        raise Unsupported("from_buffers strings")
    nd = np_dtype(dtype)
    a = buf.as_np(nd)
    q = SArr.of(a).q
    n = q.n()
    if offset + length > n:
        raise MemoryUnsafe("from_buffers reads past the end of the buffer")
    return PArr(dtype, q.slice(offset, offset + length))


# ------------------------------------------------------------------------------ arrays
class PScalar(Sym):
    __slots__ = ("type", "e")

    def __init__(self, t, e):
        self.type, self.e = t, e

    def as_py(self):
        e = force(self.e)
        return e

    @property
    def is_valid(self):
        return valid(self.e)

    @property
    def value(self):
        return force(self.e)

    def cast(self, t):
        return PScalar(t, emap(lambda v: cast_el(v, self.type, t, True), self.e))

    def __bool__(self):
        return bool(force(self.e))

    def __eq__(self, o):
        if isinstance(o, PScalar):
            return force(self.e) == force(o.e)
        return False

    __hash__ = Sym.__hash__


class _PMeta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x)


class PArr(Sym):
    __slots__ = ("type", "q", "root", "off")

    def __init__(self, t, q, root=None, off=0):
        self.type = t
        self.q = q if isinstance(q, Seq) else Seq.of(q)
        self.root = root  # the array this is a slice of
        self.off = off

    # ---- shape
    def sxlen(self):
        return self.q.n()

    def __len__(self):
        return int(self.q.n())

    @property
    def offset(self):
        return self.off

    def __bool__(self):
        return bool(self.q.n() > 0)

    @property
    def num_chunks(self):
        return 1

    @property
    def chunks(self):
        return [self]

    def combine_chunks(self):
        return self

    def chunk(self, i):
        return self

    # ---- elements
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                return PArr(self.type, self.q.pyslice(i))
            n = self.q.n()
            from .seq import _clamp

            a = _clamp(i.start, n, 0)
            b = _clamp(i.stop, n, n)
            if not (a < b):
                return PArr(self.type, Seq(), self.root or self, self.off + a)
            return PArr(self.type, self.q.slice(a, b), self.root or self, self.off + a)
        n = self.q.n()
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError("index out of bounds")
        return PScalar(self.type, self.q.at(i))

    def slice(self, offset=0, length=None):
        if offset < 0:
            raise IndexError("Offset must be non-negative")
        n = self.q.n()
        a = ite(offset > n, n, offset) if is_sym(offset) or is_sym(n) else min(offset, n)
        if length is None:
            b = n
        else:
            if length < 0:
                raise ValueError("Length must be non-negative")
            b = a + length
            if b > n:
                b = n
        return PArr(self.type, self.q.slice(a, b) if a < b else Seq(), self.root or self, self.off + a)

    def __iter__(self):
        return iter([PScalar(self.type, e) for e in self.q.conc()])

    def to_pylist(self):
        return [force(e) for e in self.q.conc()]

    tolist = to_pylist

    def to_numpy(self, zero_copy_only=True, **k):
        xs = [force(e) for e in self.q.conc()] if self.q.is_conc_len() else None
        if xs is None:
            q = self.q.map(lambda e: 0 if e is None else val(e))
            return SArr(np_dtype(self.type), q)
        if zero_copy_only and (pa.types.is_boolean(self.type) or any(x is None for x in xs) or is_str(self.type)):
            raise pa.ArrowInvalid("Needed to copy 1 chunks with 0 nulls, but zero_copy_only was True")
        if is_str(self.type) or is_bin(self.type):
            if any(is_sym(x) for x in xs):
                raise Unsupported("object array of symbolic text")
            return np.array(xs, dtype=object)
        dt = np_dtype(self.type)
        if any(x is None for x in xs):
            if dt == BOOL:
                return np.array([None if x is None else bool(x) for x in xs], dtype=object)
            raise Unsupported("to_numpy with nulls")
        r = norm(SArr(dt, [x for x in xs]))
        return r

    def __array__(self, *a, **k):
        raise Unsupported("PArr at a numpy boundary")

    # ---- counts
    @property
    def null_count(self):
        r = 0
        for s in self.q.segs:
            if isinstance(s, Lazy):
                e = s.at(0)
                if e is None:
                    r = r + s.n
                elif isinstance(e, Opt):
                    raise Unsupported("null_count of lazy optional vector")
            else:
                for e in s:
                    ok = valid(e)
                    r = r + (0 if ok is True else 1 if ok is False else ite(ok, 0, 1))
        return r

    def _bools(self):
        out = []
        for e in self.q.conc():
            e = force(e)
            out.append(None if e is None else bool(e))
        self.q = Seq.of(out)
        return out

    @property
    def true_count(self):
        return sum(1 for b in self._bools() if b)

    @property
    def false_count(self):
        return sum(1 for b in self._bools() if b is False)

    def sum(self, **k):
        if pa.types.is_boolean(self.type):
            bs = self._bools()
            if all(b is None for b in bs):
                return PScalar(pa.uint64(), None)
            return PScalar(pa.uint64(), sum(1 for b in bs if b))
        xs = [x for x in (force(e) for e in self.q.conc()) if x is not None]
        if not xs:
            return PScalar(self.type, None)
        r = xs[0]
        for x in xs[1:]:
            r = r + x
        return PScalar(self.type, r)

    # ---- kernels as methods
    def is_null(self, *, nan_is_null=False):
        def f(e):
            if nan_is_null and pa.types.is_floating(self.type) and fmode() == "fp" and is_sym(val(e)):
                raise Unsupported("nan_is_null")
            if nan_is_null and isinstance(val(e), float) and val(e) != val(e):
                return True
            return not_(valid(e))

        return PArr(pa.bool_(), self.q.map(f))

    def is_valid(self):
        return PArr(pa.bool_(), self.q.map(valid))

    def cast(self, target_type=None, safe=None, options=None):
        if options is not None:
            target_type, safe = options.to_type, options.safe_
        if target_type is None:
            raise ValueError("cast requires a target type")
        t = to_type(target_type)
        return do_cast(self, t, safe is None or bool(safe))

    def view(self, t):
        t = to_type(t)
        if np_dtype(t).itemsize != np_dtype(self.type).itemsize:
            raise pa.ArrowInvalid("view: item size")
        a, b = np_dtype(self.type), np_dtype(t)
        return PArr(t, self.q.map(lambda e: emap(lambda v: np_view(v, a, b), e)))

    def filter(self, mask, null_selection_behavior="drop"):
        mask = as_parr(mask)
        xs = self.q
        n, m = xs.n(), mask.q.n()
        if not (n == m):
            raise pa.ArrowInvalid("Filter inputs must all be the same length")
        bs = mask._bools()
        return PArr(self.type, [xs.at(i) for i, b in enumerate(bs) if b])

    def take(self, idx, boundscheck=True, **k):
        return m_take(self, as_parr(idx), TakeOptions(boundscheck=boundscheck))

    def drop_null(self):
        return PArr(self.type, [force(e) for e in self.q.conc() if force(e) is not None])

    def fill_null(self, v):
        if isinstance(v, PScalar):
            v = force(v.e)
        if self.type.equals(NULLT):
            raise Unsupported("fill_null of null array")

        def f(e):
            if e is None:
                return v
            if isinstance(e, Opt):
                return ite(e.ok, e.v, v)
            return e

        return PArr(self.type, self.q.map(f))

    def buffers(self):
        if self.type.equals(NULLT):
            return [None]
        base = self.root if self.root is not None else self
        if is_str(self.type) or pa.types.is_boolean(self.type):
            return [Buffer(b""), _NoBuffer(f"buffers of {self.type}")] if not pa.types.is_boolean(self.type) else [None, _bits(base)]
        dt = np_dtype(self.type)
        data = Buffer(base.q.map(lambda e: (0 if dt.kind in "iub" else 0.0) if e is None else (e if not isinstance(e, Opt) else ite(e.ok, e.v, 0 if dt.kind in "iub" else 0.0))), dt)
        return [None, data]

    def equals(self, o):
        if not self.type.equals(o.type):
            return False
        a, b = self.q.conc(), o.q.conc()
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            x, y = force(x), force(y)
            if (x is None) != (y is None):
                return False
            if x is not None and not (x == y):
                return False
        return True

    def __eq__(self, o):
        return self.equals(o) if isinstance(o, PArr) else False

    __hash__ = Sym.__hash__

    def dictionary_encode(self):
        raise Unsupported("dictionary_encode")

    def unique(self):
        raise Unsupported("unique")

    def index(self, v, *a, **k):
        v = v.e if isinstance(v, PScalar) else v
        for i, e in enumerate(self.q.conc()):
            e = force(e)
            if e is not None and e == v:
                return PScalar(pa.int64(), i)
        return PScalar(pa.int64(), -1)

    def __repr__(self):
        return f"PArr({self.type},{self.q.segs})"


class _NoBuffer(Sym):
    def __init__(self, why):
        self.why = why

    def as_np(self, dt):
        raise Unsupported(self.why)


def _bits(a):
    bs = [force(e) for e in a.q.conc()]
    out = []
    for i in range(0, len(bs), 8):
        # ? the bit of a null may be anything
        part = [b if is_sym(b) else bool(b) for b in bs[i : i + 8]]
        if any(is_sym(b) for b in part):
            one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
            ts = [z3.If(as_bool_term(b), one, zero) for b in part] + [zero] * (9 - len(part))
            out.append(mkint(z3.Concat(*ts[::-1]), 0, 255))
        else:
            out.append(sum(1 << k for k, b in enumerate(part) if b))
    return Buffer(mkbytes(out))


def to_type(t):
    if isinstance(t, str):
        return pa.lib.ensure_type(t)
    return t


def as_parr(x):
    if isinstance(x, PArr):
        return x
    if isinstance(x, (pa.Array, pa.ChunkedArray)):
        return _from_real(x)
    if isinstance(x, (list, tuple, np.ndarray, SArr)):
        return m_array(x)
    raise Unsupported(f"array argument {type(x).__name__}")


def _from_real(x):
    if isinstance(x, pa.ChunkedArray):
        x = x.combine_chunks()
    if is_ts(x.type):
        return PArr(x.type, [None if v is None else v for v in x.cast(pa.int64()).to_pylist()])
    return PArr(x.type, x.to_pylist())


def do_cast(a, t, safe):
    if a.type.equals(t):
        return a
    if a.type.equals(NULLT):
        return PArr(t, a.q.map(lambda e: None))
    src = a.type
    # conversions that cannot fail are done lazily; the others element by element
    if not a.q.is_conc_len():
        if is_str(t) or (not safe and not is_str(src)):
            return PArr(t, a.q.map(lambda e: emap(lambda v: cast_el(v, src, t, safe), e)))
        raise Unsupported("fallible cast of a vector of symbolic length")
    out = []
    for e in a.q.conc():
        if e is None:
            out.append(None)
        elif isinstance(e, Opt):
            if bool(e.ok):
                out.append(cast_el(e.v, src, t, safe))
            else:
                out.append(None)
        else:
            out.append(cast_el(e, src, t, safe))
    if not out:
        pa.array([], src).cast(t)  # raises when there is no such kernel
    return PArr(t, out)


def m_nulls(n, type=None, **k):
    t = NULLT if type is None else to_type(type)
    if n < 0:
        raise ValueError("negative length")
    return PArr(t, Seq.run(n, lambda i: None))


def m_array(x, type=None, mask=None, size=None, from_pandas=None, safe=True, **k):
    t = None if type is None else to_type(type)
    if mask is not None or from_pandas:
        r = m_array(x, t)
        xs = [force(e) for e in r.q.conc()]
        ms = [False] * len(xs) if mask is None else [force(e) for e in (SArr.of(mask).q.conc() if isinstance(mask, (SArr, np.ndarray)) else as_parr(mask).q.conc())]
        if len(ms) != len(xs):
            raise ValueError("mask has a different length from the array")
        nan = from_pandas and r.type.equals(pa.float64())
        return PArr(r.type, [None if bool(m) or (nan and v is not None and bool(v != v)) else v for v, m in zip(xs, ms)])
    if isinstance(x, PArr):
        return x if t is None or x.type.equals(t) else do_cast(x, t, True)
    if isinstance(x, SArr):
        nt = pa.from_numpy_dtype(x.dtype)
        r = PArr(nt, x.q)
        return r if t is None or t.equals(nt) else do_cast(r, t, True)
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "O":
            x = list(x)
        else:
            r = PArr(pa.from_numpy_dtype(x.dtype), [v.item() for v in x])
            return r if t is None or t.equals(r.type) else do_cast(r, t, True)
    if isinstance(x, (pa.Array, pa.ChunkedArray)):
        return m_array(_from_real(x), t)
    xs = [e.e if isinstance(e, PScalar) else e for e in x]
    return PArr(*_infer(xs, t))


def _infer(xs, t):
    def kind(v):
        if isinstance(v, (bool, SBool, np.bool_)):
            return "b"
        if isinstance(v, (int, SInt, np.integer)):
            return "i"
        if isinstance(v, (float, SFloat, np.floating)):
            return "f"
        if isinstance(v, (str, SymStr)):
            return "s"
        if isinstance(v, (bytes, SBytes, OBytes, Rope)):
            return "y"
        raise Unsupported(f"pa.array of {type(v).__name__}")

    ks = {kind(v) for v in xs if v is not None}
    if t is None:
        if not ks:
            t = NULLT
        elif ks == {"s"}:
            t = pa.string()
        elif ks == {"y"}:
            t = pa.binary()
        elif ks == {"b"}:
            t = pa.bool_()
        elif ks == {"i"}:
            t = pa.int64()
        elif ks <= {"i", "f"}:
            t = pa.float64()
        else:
            raise pa.ArrowInvalid("Could not convert: mixed types")
    out = []
    for v in xs:
        if v is None:
            out.append(None)
            continue
        k = kind(v)
        if isinstance(v, np.generic):
            v = v.item()
        if is_str(t):
            if k == "y":
                v = v.decode("utf-8")
            elif k != "s":
                raise pa.ArrowTypeError("Expected bytes, got a non-string object")
            elif isinstance(v, str):
                v.encode("utf-8")
        elif is_bin(t):
            if k == "s":
                v = v.encode("utf-8")
        elif pa.types.is_boolean(t):
            if k != "b":
                raise pa.ArrowInvalid("Could not convert to bool")
        elif pa.types.is_integer(t) or is_ts(t):
            if k not in "i":
                if k == "f" and not is_sym(v) and float(v).is_integer() and not is_ts(t):
                    v = int(v)
                else:
                    raise pa.ArrowInvalid("Could not convert to int")
            lo, hi = _range(np_dtype(t))
            if v < lo or v > hi:
                raise OverflowError("int too big to convert")
        elif pa.types.is_floating(t):
            if k == "i":
                v = mkfloat(SFloat.of(v).t) if is_sym(v) else float(v)
            elif k != "f":
                raise pa.ArrowInvalid("Could not convert to double")
        elif t.equals(NULLT):
            raise pa.ArrowInvalid("Could not convert to null")
        out.append(v)
    return t, out


def m_concat_arrays(arrays, *a, **k):
    arrays = [as_parr(x) for x in arrays]
    if not arrays:
        raise pa.ArrowInvalid("Must pass at least one array")
    t = arrays[0].type
    q = Seq()
    for x in arrays:
        if not x.type.equals(t):
            raise pa.ArrowInvalid("arrays to be concatenated must be identically typed")
        q = q.cat(x.q)
    return PArr(t, q)


def m_chunked_array(arrays, type=None):
    if isinstance(arrays, PArr):
        arrays = [arrays]
    t = None if type is None else to_type(type)
    arrays = [as_parr(x) for x in arrays]
    if not arrays:
        if t is None:
            raise pa.ArrowInvalid("When passing an empty collection of arrays you must also pass the data type")
        return PArr(t, Seq())
    if t is None:
        t = arrays[0].type
    q = Seq()
    for x in arrays:
        if not x.type.equals(t):
            raise pa.ArrowInvalid("Array chunks must all be same type")
        q = q.cat(x.q)
    return PArr(t, q)


class STable(Sym):
    __slots__ = ("arrays", "names")

    def __init__(self, arrays, names):
        self.arrays, self.names = list(arrays), list(names)

    @property
    def num_rows(self):
        return self.arrays[0].q.n() if self.arrays else 0

    @property
    def num_columns(self):
        return len(self.arrays)

    @property
    def column_names(self):
        return self.names

    @property
    def columns(self):
        return self.arrays

    def column(self, i):
        return self.arrays[i]

    def cast(self, *a, **k):
        raise Unsupported("table.cast")


def m_table(data, names=None, schema=None, metadata=None, nthreads=None):
    from .builtins_ import XDict

    if schema is not None:
        raise Unsupported("table(schema)")
    if isinstance(data, (dict, XDict)):
        names, data = list(data.keys()), [data[k] for k in data.keys()]
    arrays = [m_array(x) if not isinstance(x, PArr) else x for x in data]
    names = list(names)
    if len(names) != len(arrays):
        raise ValueError("Length of names does not match length of arrays")
    for n in names:
        if not isinstance(n, (str, SymStr)):
            raise TypeError("column names must be str")
    if arrays:
        n0 = arrays[0].q.n()
        for i, a in enumerate(arrays[1:], 1):
            if not (a.q.n() == n0):
                raise pa.ArrowInvalid(f"Column {i} expected length mismatch")
    return STable(arrays, names)


class StringBuilder:
    def __init__(self, *a):
        self._x = []

    def append(self, v):
        if v is None:
            self._x.append(None)
        elif isinstance(v, float) and v != v:
            self._x.append(None)
        elif isinstance(v, (str, SymStr)):
            if isinstance(v, str):
                v.encode("utf-8")
            self._x.append(v)
        elif isinstance(v, (bytes, OBytes, SBytes)):
            self._x.append(v.decode("utf-8"))
        else:
            raise TypeError("StringBuilder only accepts string objects")

    def append_values(self, vs):
        for v in vs:
            self.append(v)

    def finish(self):
        r = PArr(pa.string(), self._x)
        self._x = []
        return r

    def __len__(self):
        return len(self._x)

    @property
    def null_count(self):
        return sum(1 for x in self._x if x is None)


# ------------------------------------------------------------------------------ compute
class CastOptions:
    def __init__(self, target_type=None, *, safe=True, **k):
        self.to_type = None if target_type is None else to_type(target_type)
        self.safe_ = safe and not k.get("allow_float_truncate")

    @staticmethod
    def safe(target_type=None):
        return CastOptions(target_type)

    @staticmethod
    def unsafe(target_type=None):
        return CastOptions(target_type, safe=False)


class StrptimeOptions:
    def __init__(self, format, unit, error_is_null=False):
        self.format, self.unit, self.error_is_null = format, unit, error_is_null


class TakeOptions:
    def __init__(self, *, boundscheck=True):
        self.boundscheck = boundscheck


class MatchSubstringOptions:
    def __init__(self, pattern, *, ignore_case=False):
        self.pattern, self.ignore_case = pattern, ignore_case


class NullOptions:
    def __init__(self, *, nan_is_null=False):
        self.nan_is_null = nan_is_null


class FilterOptions:
    def __init__(self, null_selection_behavior="drop"):
        self.nsb = null_selection_behavior


def m_take(arr, idx, options=None):
    arr, idx = as_parr(arr), as_parr(idx)
    bc = True if options is None else options.boundscheck
    if not (pa.types.is_integer(idx.type) or idx.type.equals(NULLT)):
        raise pa.ArrowNotImplementedError("take: non-integer indices")
    n = arr.q.n()

    def f(e):
        e = force(e)
        if e is None:
            return None
        if e < 0 or e >= n:
            if bc:
                raise pa.ArrowIndexError("Index out of bounds")
            raise MemoryUnsafe("take with boundscheck=False reads outside the array")
        return arr.q.at(e)

    if idx.q.is_conc_len():
        return PArr(arr.type, [f(e) for e in idx.q.conc()])
    return PArr(arr.type, idx.q.map(f))


def m_strptime(a, o):
    a = as_parr(a)
    if not is_str(a.type):
        raise pa.ArrowNotImplementedError(f"Function 'strptime' has no kernel matching input types ({a.type})")
    unit = o.unit

    def f(v):
        ok, ms = text_date(v, o.format, unit)
        if not o.error_is_null:
            if not bool(ok):
                raise pa.ArrowInvalid("Failed to parse string")
            return ms
        if ok is False or ms is None:
            return None
        return opt(ok, ms)

    def g(e):
        if e is None:
            return None
        if isinstance(e, Opt):
            r = f(e.v)
            return opt(and_all([e.ok, valid(r)]), val(r)) if r is not None else None
        return f(e)

    return PArr(pa.timestamp(unit), a.q.map(g) if a.q.is_conc_len() else a.q.map(g))


def m_match(a, o, how="search"):
    a = as_parr(a)
    if a.type.equals(NULLT):
        raise pa.ArrowNotImplementedError("Function 'match_substring_regex' has no kernel matching input types (null)")
    if not is_str(a.type):
        raise pa.ArrowNotImplementedError(f"Function 'match_substring_regex' has no kernel matching input types ({a.type})")
    pat = ("(?i)" if o.ignore_case else "") + o.pattern

    def f(v):
        if isinstance(v, str):
            import re

            return re.search(pat, v) is not None
        if isinstance(v, OStr):
            return mkbool(ostr_match("search", pat, v))
        if isinstance(v, CStr):
            # in RE2 $ is the end of the text only
            import re

            from .regex import SymRegex

            return SymRegex(re.compile(re.sub(r"(?<!\\)\$", r"\\Z", pat))).search(v) is not None
        raise Unsupported("match on text")

    return PArr(pa.bool_(), a.q.map(lambda e: emap(f, e)))


def _bool2(name, kleene):
    def f(a, b):
        a = a if isinstance(a, PScalar) else as_parr(a)
        b = b if isinstance(b, PScalar) else as_parr(b)

        def el(x, y):
            x, y = force(x), force(y)
            if x is None or y is None:
                if kleene:
                    z = y if x is None else x
                    if z is not None and bool(z) == (name == "or"):
                        return name == "or"
                return None
            if name == "or":
                return or_all([x, y])
            if name == "xor":
                return not_(x == y)
            return and_all([x, y])

        if isinstance(b, PScalar):
            return PArr(pa.bool_(), a.q.map(lambda x: el(x, b.e)))
        if isinstance(a, PScalar):
            return PArr(pa.bool_(), b.q.map(lambda y: el(a.e, y)))
        if not (a.q.n() == b.q.n()):
            raise pa.ArrowInvalid("Array arguments must all be the same length")
        for x in (a, b):
            if not pa.types.is_boolean(x.type):
                raise pa.ArrowNotImplementedError(f"Function '{name}' has no kernel matching input types")
        return PArr(pa.bool_(), a.q.zip(b.q, el))

    return f


def m_invert(a):
    a = as_parr(a)
    if not pa.types.is_boolean(a.type):
        raise pa.ArrowNotImplementedError("Function 'invert' has no kernel matching input types")
    return PArr(pa.bool_(), a.q.map(lambda e: emap(not_, e)))


def m_indices_nonzero(a):
    a = as_parr(a)
    return PArr(pa.uint64(), [i for i, e in enumerate(a.q.conc()) if force(e) is not None and bool(force(e))])


def m_if_else(c, a, b):
    c = as_parr(c)

    def side(x):
        if isinstance(x, PArr):
            return x.q, x.type
        if isinstance(x, PScalar):
            return None, x.type
        return None, None

    def pick(x, i):
        if isinstance(x, PArr):
            return x.q.at(i)
        if isinstance(x, PScalar):
            return x.e
        return x

    t = next((x.type for x in (a, b) if isinstance(x, (PArr, PScalar)) and not x.type.equals(NULLT)), None)
    out = []
    for i, e in enumerate(c.q.conc()):
        e = force(e)
        out.append(None if e is None else pick(a, i) if bool(e) else pick(b, i))
    return PArr(t, out) if t is not None else m_array(out)


def m_coalesce(*xs):
    n = next(x.q.n() for x in xs if isinstance(x, PArr))
    t = next(x.type for x in xs if isinstance(x, PArr) and not x.type.equals(NULLT))
    out = []
    for i in range(int(n)):
        r = None
        for x in xs:
            e = force(x.q.at(i)) if isinstance(x, PArr) else (force(x.e) if isinstance(x, PScalar) else x)
            if e is not None:
                r = e
                break
        out.append(r)
    return PArr(t, out)


def m_filter(a, mask, options=None):
    return as_parr(a).filter(mask)


def _truth(name):
    def f(a, **k):
        bs = as_parr(a)._bools()
        return PScalar(pa.bool_(), (any if name == "any" else all)(b for b in bs if b is not None))

    return f


class PFunction:
    def __init__(self, name):
        self._real = pc._pc().get_function(name) if hasattr(pc, "_pc") else pc.get_function(name)
        self.name = name
        self.arity = self._real.arity
        self._doc = self._real._doc
        self.kind = self._real.kind

    def call(self, args, options=None, memory_pool=None, length=None):
        a = list(args)
        f = _KERNELS.get(self.name)
        if f is None:
            if not any(is_sym(x) for x in a):
                return self._real.call(a, options)
            raise Unsupported(f"arrow kernel {self.name}")
        return f(a, options)


def _arr1(a):
    return as_parr(a[0])


_KERNELS = {
    "cast": lambda a, o: do_cast(as_parr(a[0]), o.to_type, o.safe_) if not isinstance(a[0], PScalar) else a[0].cast(o.to_type),
    "strptime": lambda a, o: m_strptime(a[0], o),
    "indices_nonzero": lambda a, o: m_indices_nonzero(a[0]),
    "match_substring_regex": lambda a, o: m_match(a[0], o),
    "invert": lambda a, o: m_invert(a[0]),
    "or": lambda a, o: _bool2("or", False)(*a),
    "and": lambda a, o: _bool2("and", False)(*a),
    "or_kleene": lambda a, o: _bool2("or", True)(*a),
    "and_kleene": lambda a, o: _bool2("and", True)(*a),
    "xor": lambda a, o: _bool2("xor", False)(*a),
    "array_take": lambda a, o: m_take(a[0], a[1], o),
    "take": lambda a, o: m_take(a[0], a[1], o),
    "array_filter": lambda a, o: m_filter(*a),
    "filter": lambda a, o: m_filter(*a),
    "is_null": lambda a, o: as_parr(a[0]).is_null(nan_is_null=bool(o and o.nan_is_null)),
    "is_valid": lambda a, o: as_parr(a[0]).is_valid(),
    "fill_null": lambda a, o: as_parr(a[0]).fill_null(a[1]),
    "if_else": lambda a, o: m_if_else(*a),
    "coalesce": lambda a, o: m_coalesce(*a),
    "drop_null": lambda a, o: as_parr(a[0]).drop_null(),
}


def make_pyarrow():
    pcm = Module(
        pc,
        get_function=PFunction,
        CastOptions=CastOptions,
        StrptimeOptions=StrptimeOptions,
        TakeOptions=TakeOptions,
        MatchSubstringOptions=MatchSubstringOptions,
        NullOptions=NullOptions,
        FilterOptions=FilterOptions,
        call_function=lambda name, args, options=None, **k: PFunction(name).call(args, options),
        cast=lambda a, t=None, safe=None, options=None: as_parr(a).cast(t, safe, options),
        strptime=lambda a, format, unit, error_is_null=False, **k: m_strptime(a, StrptimeOptions(format, unit, error_is_null)),
        indices_nonzero=m_indices_nonzero,
        match_substring_regex=lambda a, pattern, ignore_case=False, **k: m_match(a, MatchSubstringOptions(pattern, ignore_case=ignore_case)),
        invert=m_invert,
        or_=_bool2("or", False),
        and_=_bool2("and", False),
        or_kleene=_bool2("or", True),
        and_kleene=_bool2("and", True),
        xor=_bool2("xor", False),
        take=lambda a, i, *, boundscheck=True, **k: m_take(a, i, TakeOptions(boundscheck=boundscheck)),
        filter=m_filter,
        is_null=lambda a, nan_is_null=False, **k: as_parr(a).is_null(nan_is_null=nan_is_null),
        is_valid=lambda a, **k: as_parr(a).is_valid(),
        fill_null=lambda a, v: as_parr(a).fill_null(v),
        if_else=m_if_else,
        coalesce=m_coalesce,
        drop_null=lambda a: as_parr(a).drop_null(),
        any=_truth("any"),
        all=_truth("all"),
        sum=lambda a, **k: as_parr(a).sum(),
    )

    class Array:
        from_buffers = staticmethod(m_from_buffers)

        @staticmethod
        def sx_instance(x):
            return isinstance(x, (PArr, pa.Array))

    class ChunkedArray:
        @staticmethod
        def sx_instance(x):
            return isinstance(x, pa.ChunkedArray)

    class Table:
        from_arrays = staticmethod(lambda arrays, names=None, **k: m_table(arrays, names))
        from_pydict = staticmethod(lambda d, **k: m_table(d))

        @staticmethod
        def sx_instance(x):
            return isinstance(x, (STable, pa.Table))

    def m_scalar(v, type=None, **k):
        if not is_sym(v):
            return PScalar(to_type(type) if type is not None else pa.scalar(v).type, v)
        a = m_array([v], type)
        return PScalar(a.type, a.q.at(0))

    over = dict(
        array=m_array,
        nulls=m_nulls,
        chunked_array=m_chunked_array,
        concat_arrays=m_concat_arrays,
        py_buffer=m_py_buffer,
        table=m_table,
        Table=Table,
        Array=Array,
        ChunkedArray=ChunkedArray,
        scalar=m_scalar,
        repeat=lambda v, n, **k: PArr(m_array([v]).type, Seq.run(n, lambda i: v)),
        compute=pcm,
    )
    lib = Module(palib, StringBuilder=StringBuilder, **{k: v for k, v in over.items() if k != "compute"})
    over["lib"] = lib
    return Module(pa, **over), pcm, lib


def make_all():
    from .model_np import make_numpy
    from .stubs import make_modules

    m = make_modules()
    pam, pcm, lib = make_pyarrow()
    m["numpy"] = make_numpy()
    m["pyarrow"] = pam
    m["pyarrow.compute"] = pcm
    m["pyarrow.lib"] = lib
    return m
