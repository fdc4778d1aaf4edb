"""Harness contexts: one body, run symbolically (SymCtx) or on the real code with concrete values (RealCtx)."""
from __future__ import annotations

import io as _io
import os
import struct as _struct
import sys
import zipfile as _zipfile
from fractions import Fraction
from xml.sax.saxutils import escape, quoteattr

from .core import Steer

REPO = os.environ.get("RXLS_REPO", "/repo")


class ReplayViolation(BaseException):
    pass


class ReplayInvalid(BaseException):
    pass


class Outcome:
    """What a call produced: a value, or the exception it raised."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None


class Xml:
    """XML part as a list of events: ("start", tag, {attrs}), ("end", tag), ("text", t), ("error",)."""

    def __init__(self, events):
        self.events = list(events)


def el(tag, attrs=None, *children):
    """events of an element; children are event lists or texts"""
    ev = [("start", tag, dict(attrs or {}))]
    for c in children:
        if isinstance(c, list):
            ev += c
        else:
            ev.append(("text", c))
    ev.append(("end", tag))
    return ev


class Long:
    """Text longer than the parser's default buffer, given as the pieces in which it may be delivered."""

    def __init__(self, *pieces):
        self.pieces = pieces


# --------------------------------------------------------------------------------------------- symbolic
class SymCtx:
    symbolic = True

    def __init__(self, eng, loader_factory, params=None):
        from . import values as V

        self.V = V
        self.e = eng
        self._lf = loader_factory
        self._loader = None
        self.inputs: list = []  # (name, kind, payload)
        self.names: set = set()
        self.covered: set = set()
        self.ranges: dict = {}
        self.on_check = None
        self.p = params or {}

    def _reg(self, name, kind, payload):
        if name in self.names:
            raise AssertionError(f"duplicate input {name}")
        self.names.add(name)
        self.inputs.append((name, kind, payload))

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        from .core import z3

        t = z3.Int(name)
        if lo is not None and lo == hi:
            return lo
        if lo is not None:
            self.e.assume(t >= lo)
        if hi is not None:
            self.e.assume(t <= hi)
        self.ranges[name] = (lo, hi)
        self.e.path_state.setdefault("int_inputs", []).append(t)
        self._reg(name, "int", t)
        return self.V.SInt(t)

    def asint(self, i):
        """the same integer outside of bit-vector arithmetic"""
        return self.V.SInt(self.V.intterm(i)) if isinstance(i, self.V.SInt) else i

    def bytes_of(self, xs):
        return self.V.mkbytes(list(xs))

    def hint(self, i):
        """a value the code is likely to compute"""
        if isinstance(i, self.V.SInt):
            self.e.path_state.setdefault("int_inputs", []).append(self.V.intterm(i))

    def u(self, name, bits, lo=0, hi=None):
        """unsigned machine integer as a bit-vector"""
        from .core import z3

        top = (1 << bits) - 1
        hi = top if hi is None else hi
        b = z3.BitVec(name, bits)
        self._reg(name, "bv", b)
        if lo > 0:
            self.e.assume(z3.UGE(b, lo))
        if hi < top:
            self.e.assume(z3.ULE(b, hi))
        return self.V.SInt(z3.ZeroExt(1, b), lo, hi)

    def s(self, name, bits):
        from .core import z3

        b = z3.BitVec(name, bits)
        self._reg(name, "sbv", b)
        return self.V.SInt(b, -(1 << (bits - 1)), (1 << (bits - 1)) - 1)

    def byte(self, name):
        return self.u(name, 8)

    def bytes(self, name, n):
        return self.V.mkbytes([self.byte(f"{name}.{i}") for i in range(n)])

    def bool(self, name):
        from .core import z3

        t = z3.Bool(name)
        self._reg(name, "bool", t)
        return self.V.SBool(t)

    def flag(self, name):
        """boolean decided by case split"""
        return self.choice(name, [False, True])

    def choice(self, name, options):
        i = self.e.choose(len(options))
        self._reg(name, "const", i)
        return options[i]

    def float(self, name, lo=None, hi=None):
        """finite double"""
        from .core import z3

        if self.V.fmode() == "fp":
            t = z3.FP(name, self.V.F64)
            self._reg(name, "fp", t)
            self.e.assume(z3.Not(z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t))))
            f = self.V.SFloat(t)
            if lo is not None:
                self.e.assume(z3.fpGEQ(t, z3.FPVal(lo, self.V.F64)))
            if hi is not None:
                self.e.assume(z3.fpLEQ(t, z3.FPVal(hi, self.V.F64)))
            return f
        t = z3.Real(name)
        self.ranges[name] = (lo, hi)
        self._reg(name, "real", t)
        if lo is not None:
            self.e.assume(t >= self.V.const_float(lo))
        if hi is not None:
            self.e.assume(t <= self.V.const_float(hi))
        return self.V.SFloat(t)

    def f8bytes(self, x):
        """the 8 bytes of a double"""
        from .core import z3
        from .stubs import _struct as S

        V = self.V
        if not isinstance(x, V.SFloat):
            return S.pack("<d", float(x))
        if V.fmode() == "fp":
            b = z3.fpToIEEEBV(x.t)
        else:
            b = V.f2bits(x.t)
            self.e.add(V._bits2f(b) == x.t)
        return V.mkbytes([V.mkint(z3.ZeroExt(1, z3.Extract(8 * i + 7, 8 * i, b)), 0, 255) for i in range(8)])

    def blob(self, name, lo, hi):
        from .core import z3
        from .stream import Blob, Rope

        bits = max(hi.bit_length(), 1)
        t = z3.BitVec(name, bits)
        if lo:
            self.e.assume(z3.UGE(t, lo))
        if hi < (1 << bits) - 1:
            self.e.assume(z3.ULE(t, hi))
        self._reg(name, "blob", t)
        return Rope([Blob(name, 0, self.V.SInt(z3.ZeroExt(1, t), lo, hi))])

    def chars(self, name, n, lo=0, hi=0x10FFFF, surrogates=False):
        out = []
        from .core import z3

        for i in range(n):
            c = self.u(f"{name}.{i}", 21, lo, hi)
            if not surrogates and hi >= 0xD800 and lo <= 0xDFFF:
                self.e.assume(z3.Or((c < 0xD800).t if hasattr(c < 0xD800, "t") else z3.BoolVal(c < 0xD800), (c > 0xDFFF).t if hasattr(c > 0xDFFF, "t") else z3.BoolVal(c > 0xDFFF)))
            out.append(c)
        return self.V.mkstr(out)

    def text(self, name, kind="plain", *, num=None, date=None, distinct=(), canonical=False, integer=False):
        """An arbitrary non-empty string without outer white space.

        kind plain: neither a number nor a date; number: decimal form of num; date: (fmt, ms)."""
        from .core import z3
        from .model_pa import Text, add_text

        base = {"plain": 0, "number": 100000, "date": 200000}[kind]
        t = z3.Int(name + "#id")
        self.e.assume(z3.And(t > base, t < base + 90000))
        for o in distinct:
            self.e.assume(t != o.t)
        if kind == "plain":
            # a plain text may be shared by several names
            add_text(Text(t))
            self._reg(name, "text", (t, None))
        elif kind == "number":
            add_text(Text(t, True, num, num if integer else None))
            for x in self.inputs:
                if x[1] == "text" and x[2][1] and x[2][1][0] == "number":
                    self.e.assume(t != x[2][0])
            self._reg(name, "text", (t, ("number", canonical)))
        else:
            add_text(Text(t, dates={f: (True, m) for f, m in zip(date[::2], date[1::2])}))
            for x in self.inputs:
                if x[1] == "text" and x[2][1] and x[2][1][0] == "date":
                    self.e.assume(t != x[2][0])
            self._reg(name, "text", (t, ("date", date[0])))
        return self.V.OStr(t)

    # ---- code under test
    def mod(self, name):
        if self._loader is None:
            self._loader = self._lf()
        return self._loader.load(name)

    def fresh(self, name):
        """the module in a state in which nothing was done yet"""
        return self._lf().load(name)

    def call(self, f, *a, **k):
        from .core import Steer
        from .model_pa import MemoryUnsafe

        try:
            return Outcome(f(*a, **k))
        except (Steer, MemoryUnsafe):
            raise
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            return Outcome(exc=e)

    # ---- files
    def zip(self, parts):
        from .stream import SZip, XmlPart
        from .stubs import LongText

        out = {}
        for k, v in parts.items():
            if isinstance(v, Xml):
                ev = []
                for x in v.events:
                    if x[0] == "text" and isinstance(x[1], Long):
                        ev.append(("text", LongText([self.V.mkstr(self.V.chars(p)) if isinstance(p, str) else p for p in x[1].pieces])))
                    else:
                        ev.append(x)
                out[k] = XmlPart(ev)
            else:
                out[k] = v
        return SZip(out)

    def saved(self, f):
        """the path of a file with that content"""
        fs = self.e.path_state.setdefault("files", {})
        path = f"/nonexistent/{len(fs)}.bin"
        fs[path] = f
        return path

    def in_use(self, path):
        """whether a saved file is still open"""
        return any(z.is_open() for z in self.e.path_state["files"][path].opened)

    def stream(self, data=b""):
        from .stream import Stream

        return Stream(data)

    def xmlstream(self, xml):
        from .stream import XmlPart, XmlStream

        return XmlStream(XmlPart(xml.events))

    def getvalue(self, st):
        return st.getvalue()

    # ---- values
    def assume(self, c):
        self.e.assume(self.V.bterm(c))

    def check(self, c, msg):
        b = self.V.bterm(c)
        self.on_check(self, b, msg)

    def cover(self, label):
        self.covered.add(label)

    def all(self, *xs):
        return self.V.and_all(list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else list(xs))

    def any(self, *xs):
        return self.V.or_all(list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else list(xs))

    def not_(self, x):
        return self.V.not_(x)

    def implies(self, a, b):
        return self.V.or_all([self.V.not_(a), b])

    def ite(self, c, a, b):
        return self.V.ite(c, a, b)

    def len(self, x):
        from .builtins_ import x_len

        return x_len(x)

    def join(self, *bs):
        """concatenate byte strings / ropes"""
        from .stream import Rope

        return Rope([b for b in bs]).simple()

    def cat(self, *ss):
        r = ss[0]
        for s in ss[1:]:
            r = r + s
        return r

    def u4(self, i):
        return self.V.mkbytes(i.to_bytes(4, "little"))

    def u2(self, i):
        return self.V.mkbytes(i.to_bytes(2, "little"))

    def decimal(self, i):
        return self.V.sym_int_str(i) if isinstance(i, self.V.SInt) else str(i)

    def same(self, a, b):
        """same python value (None / str / number)"""
        V = self.V
        if a is None or b is None:
            return a is None and b is None
        sa = isinstance(a, (str, V.SymStr))
        sb = isinstance(b, (str, V.SymStr))
        if sa != sb:
            return False
        if not sa:
            a = 1.0 if a is True else 0.0 if a is False else a
            b = 1.0 if b is True else 0.0 if b is False else b
        return a == b

    def trunc(self, x):
        """integer part of a non-float-mode 'fp' value"""
        return x.trunc_int() if isinstance(x, self.V.SFloat) else int(x)

    def array(self, typ, values):
        from .model_pa import m_array

        return m_array(values, typ)

    def nparray(self, dtype, values):
        import numpy as np

        from .model_np import SArr, norm

        return norm(SArr(np.dtype(dtype), list(values)))

    def npitems(self, a):
        from .model_np import SArr

        return list(SArr.of(a).q.conc())

    def npdtype(self, a):
        return a.dtype

    def items(self, arr):
        """values of an arrow array (None for null)"""
        from .model_pa import as_parr, force

        a = as_parr(arr)
        return [force(e) for e in a.q.conc()]

    def alen(self, arr):
        from .model_pa import as_parr

        return as_parr(arr).q.n()

    def at(self, arr, i):
        from .model_pa import as_parr, force

        return force(as_parr(arr).q.at(i))

    def typ(self, arr):
        return arr.type

    def drain(self):
        """let background threads run to their end; True if they do"""
        from .stubs import sched

        return sched().finish()

    def switches(self, n):
        """let threads be interrupted up to n times where they need not be"""
        self.e.path_state["switches"] = n

    def ord(self, c):
        return self.V.chars(c)[0]

    def strtable(self, name, lo, hi):
        """large_string array of any length, every entry a text of its own"""
        import pyarrow as pa

        from .core import z3
        from .model_pa import PArr
        from .seq import Seq

        n = self.int(name, lo, hi)
        f = z3.Function(name + "!entry", z3.IntSort(), z3.IntSort())
        return PArr(pa.large_string(), Seq.run(n, lambda i: self.V.OStr(f(self.V.intterm(i) if isinstance(i, self.V.SInt) else z3.IntVal(int(i)))))), n

    def strat(self, tab, i):
        return self.at(tab, i)

    def as_text(self, v, typ):
        """arrow's own text form of a value"""
        import pyarrow as pa

        from .model_pa import cast_el

        return cast_el(v, typ, pa.large_string(), True)

    def table(self, t):
        from .model_pa import STable

        if not isinstance(t, STable):
            return RealCtx.table(self, t)
        return list(t.names), [c.type for c in t.arrays], [self.items(c) for c in t.arrays]


# --------------------------------------------------------------------------------------------- real
def _mkblob(name, n):
    import random

    return random.Random(name).randbytes(n)


class RealCtx:
    symbolic = False

    def __init__(self, values, params=None, forced=False):
        self.vals = values
        self.p = params or {}
        self.covered = set()
        self.e = None
        self.sched = None
        if forced:
            from .sched import Sched

            rec = list(values.get("!schedule", ()))
            self.sched = Sched(lambda n: rec.pop(0) if rec else 0)

    def switches(self, n):
        if self.sched is not None:
            self.sched.left = n

    def _get(self, name):
        if name not in self.vals:
            raise ReplayInvalid(f"no value for {name}")
        return self.vals[name]

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        return self._get(name)

    def asint(self, i):
        return i

    def bytes_of(self, xs):
        return bytes(xs)

    def hint(self, i):
        pass

    def u(self, name, bits, lo=0, hi=None):
        return self._get(name)

    def s(self, name, bits):
        return self._get(name)

    def byte(self, name):
        return self._get(name)

    def bytes(self, name, n):
        return bytes(self._get(f"{name}.{i}") for i in range(n))

    def bool(self, name):
        return bool(self._get(name))

    def flag(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, options):
        return options[self._get(name)]

    def float(self, name, lo=None, hi=None):
        return float(self._get(name))

    def f8bytes(self, x):
        return _struct.pack("<d", x)

    def blob(self, name, lo, hi):
        n = self._get(name)
        if n > 1 << 28:
            raise ReplayInvalid("blob too large to replay")
        return _mkblob(name, n)

    def chars(self, name, n, lo=0, hi=0x10FFFF, surrogates=False):
        return "".join(chr(self._get(f"{name}.{i}")) for i in range(n))

    def text(self, name, kind="plain", *, num=None, date=None, distinct=(), canonical=False, integer=False):
        i = self._get(name)
        if kind == "plain":
            return f"~w{i}"
        if kind == "number":
            s = repr(int(num)) if integer or (float(num).is_integer() and abs(num) < 1e15) else repr(float(num))
            if canonical:
                return s
            rank = i  # already normalised to a small rank
            neg = s.startswith("-")
            return ("-" if neg else "") + "0" * rank + s.lstrip("-")
        import datetime as dt

        d = dt.datetime(1970, 1, 1) + dt.timedelta(milliseconds=date[1])
        f = date[0].replace("%T", "%H:%M:%S").replace("%R", "%H:%M")
        out = d.strftime(f.replace("%Y", "%%Y"))
        return out.replace("%Y", f"{d.year:04d}")

    def mod(self, name):
        import importlib

        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        m = importlib.import_module(name)
        if self.sched is not None:
            from .sched import install

            install(self.sched, [v for k, v in list(sys.modules.items()) if k.split(".")[0] == "rxls"])
        return m

    def fresh(self, name):
        own = {k: v for k, v in sys.modules.items() if k.split(".")[0] == "rxls"}
        for k in own:
            del sys.modules[k]
        try:
            return self.mod(name)
        finally:
            for k in [k for k in sys.modules if k.split(".")[0] == "rxls"]:
                del sys.modules[k]
            sys.modules.update(own)

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except (ReplayViolation, ReplayInvalid, Steer):
            raise
        except BaseException as e:  # noqa: BLE001
            return Outcome(exc=e)

    def zip(self, parts):
        b = _io.BytesIO()
        with _zipfile.ZipFile(b, "w") as z:
            for k, v in parts.items():
                z.writestr(k, render_xml(v) if isinstance(v, Xml) else v)
        b.seek(0)
        return b

    def saved(self, f):
        import shutil
        import tempfile
        import weakref

        d = tempfile.mkdtemp(prefix="sx_")
        weakref.finalize(self, shutil.rmtree, d, True)
        path = os.path.join(d, "f.bin")
        with open(path, "wb") as o:
            o.write(f.getvalue())
        return path

    def in_use(self, path):
        import time

        t = time.time() + 3
        while True:
            n = 0
            for x in os.listdir("/proc/self/fd"):
                try:
                    n += os.path.realpath("/proc/self/fd/" + x) == os.path.realpath(path)
                except OSError:
                    pass
            if not n or time.time() > t:
                return n > 0
            time.sleep(0.01)

    def stream(self, data=b""):
        return _io.BytesIO(data)

    def xmlstream(self, xml):
        return _io.BytesIO(render_xml(xml))

    def getvalue(self, st):
        return st.getvalue()

    def assume(self, c):
        if not c:
            raise ReplayInvalid("assumption does not hold")

    def check(self, c, msg):
        if not c:
            raise ReplayViolation(msg)

    def cover(self, label):
        self.covered.add(label)

    def all(self, *xs):
        xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
        return all(bool(x) for x in xs)

    def any(self, *xs):
        xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def len(self, x):
        return len(x)

    def join(self, *bs):
        return b"".join(bs)

    def cat(self, *ss):
        return "".join(ss)

    def u4(self, i):
        return int(i).to_bytes(4, "little")

    def u2(self, i):
        return int(i).to_bytes(2, "little")

    def decimal(self, i):
        return str(i)

    def same(self, a, b):
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, str) != isinstance(b, str):
            return False
        return bool(a == b)

    def trunc(self, x):
        return int(x)

    def array(self, typ, values):
        import pyarrow as pa

        return pa.array(values, typ)

    def nparray(self, dtype, values):
        import numpy as np

        return np.array(values, dtype)

    def npitems(self, a):
        return [x.item() for x in a]

    def npdtype(self, a):
        return a.dtype

    def items(self, arr):
        import pyarrow as pa

        arr.validate(full=True)
        if pa.types.is_timestamp(arr.type):
            arr = arr.cast(pa.int64())
        return arr.to_pylist()

    def alen(self, arr):
        return len(arr)

    def at(self, arr, i):
        return self.items(arr[i : i + 1])[0]

    def typ(self, arr):
        return arr.type

    def drain(self):
        if self.sched is not None:
            return self.sched.finish()
        import threading
        import time

        t = time.time() + 5
        while time.time() < t:
            if threading.active_count() == 1 or all(x is threading.current_thread() or x.daemon for x in threading.enumerate()):
                return True
            time.sleep(0.01)
        return False

    def ord(self, c):
        return ord(c)

    def strtable(self, name, lo, hi):
        import pyarrow as pa

        n = self._get(name)
        return pa.array([f"~e{i}" for i in range(n)], pa.large_string()), n

    def strat(self, tab, i):
        return tab[i].as_py()

    def as_text(self, v, typ):
        import pyarrow as pa

        a = pa.array([v], pa.int64()).cast(typ) if pa.types.is_timestamp(typ) else pa.array([v], typ)
        return a.cast(pa.large_string())[0].as_py()

    def table(self, t):
        t.validate(full=True)
        return list(t.column_names), [c.type for c in t.columns], [RealCtx.items(self, c) for c in t.columns]


def render_xml(x: Xml) -> bytes:
    out = []
    depth = []
    for ev in x.events:
        k = ev[0]
        if k == "start":
            out.append("<" + ev[1] + "".join(f" {a}={quoteattr(v, {chr(10): '&#10;', chr(13): '&#13;', chr(9): '&#9;'})}" for a, v in ev[2].items()) + ">")
            depth.append(ev[1])
        elif k == "end":
            out.append(f"</{ev[1]}>")
            depth.pop()
        elif k == "text":
            t = "".join(ev[1].pieces) if isinstance(ev[1], Long) else ev[1]
            out.append(escape(t).replace("\r", "&#13;"))
        elif k == "error":
            out.append("<<&broken")
    return "".join(out).encode("utf-8", "surrogatepass")


# --------------------------------------------------------------------------------------------- model -> values
def concrete_inputs(ctx: SymCtx, model) -> dict:
    """Values of the registered inputs under a model, as JSON-able python values."""
    from .core import pyval, z3

    def ev(t):
        return model.eval(t, model_completion=True)

    out = {}
    text_ids = {}
    if ctx.e.path_state.get("schedule"):
        out["!schedule"] = list(ctx.e.path_state["schedule"])
    for name, kind, x in ctx.inputs:
        if kind in ("const",):
            out[name] = x
        elif kind in ("int", "blob"):
            out[name] = ev(x).as_long()
        elif kind == "bv":
            out[name] = ev(x).as_long()
        elif kind == "sbv":
            out[name] = ev(x).as_signed_long()
        elif kind == "bool":
            out[name] = bool(z3.is_true(ev(x)))
        elif kind == "fp":
            out[name] = pyval(ev(x))
        elif kind == "real":
            v = pyval(ev(x))
            out[name] = float(v)
        elif kind == "text":
            out[name] = ev(x[0]).as_long()
            text_ids[name] = x[1]
    # rank the ids per kind
    for knd in (None, "number", "date"):
        ids = sorted({out[n] for n, s in text_ids.items() if (s[0] if s else None) == knd})
        for n, s in text_ids.items():
            if (s[0] if s else None) == knd:
                out[n] = ids.index(out[n]) + 1
    return out


def diverse_models(e, ctx: SymCtx, extra, n, rnd):
    """Further models of path & extra, with numbers drawn at random where the constraints allow it."""
    from .core import z3

    out = []
    s = e.solver
    s.push()
    try:
        for c in extra:
            s.add(c)
        s.set("timeout", 1000)
        for _ in range(n):
            s.push()
            ok = None
            try:
                for name, kind, x in ctx.inputs:
                    lo, hi = ctx.ranges.get(name, (None, None))
                    if kind == "real":
                        lo, hi = (-1e6 if lo is None else lo), (1e6 if hi is None else hi)
                        v = z3.Q(*Fraction(rnd.uniform(lo, hi)).as_integer_ratio())
                    elif kind == "int" and lo is not None and hi is not None:
                        v = z3.IntVal(rnd.randint(lo, hi))
                    else:
                        continue
                    s.push()
                    s.add(x == v)
                    if s.check() == z3.sat:
                        ok = s.model()
                        s.pop()
                        s.add(x == v)
                    else:
                        s.pop()
            finally:
                s.pop()
            if ok is not None:
                out.append(ok)
        return out
    finally:
        s.set("timeout", e.query_timeout_ms)
        s.pop()


def nice_model(e, ctx: SymCtx, extra, timeout=3000):
    """A model of path & extra whose reals are short binary fractions and whose lengths are small, if there is one."""
    from .core import z3

    s = e.solver
    s.push()
    try:
        for c in extra:
            s.add(c)
        s.set("timeout", timeout)
        best = None
        r = s.check()
        if r == z3.sat:
            best = s.model()
        for name, kind, x in ctx.inputs:
            cands = []
            if kind == "real":
                cands = [z3.IsInt(x * 2**k) for k in (0, 10, 20, 32)] if e.float_mode == "exact" else [z3.IsInt(x * 2**20)]
            elif kind == "blob":
                cands = [z3.ULE(x, k) for k in (64, 300, 20000, 1 << 22) if k < 1 << x.size()]
            for c in cands:
                s.push()
                s.add(c)
                r = s.check()
                if r == z3.sat:
                    best = s.model()
                    s.pop()
                    s.add(c)
                    break
                s.pop()
        return best
    finally:
        s.set("timeout", e.query_timeout_ms)
        s.pop()
