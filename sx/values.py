"""Scalar and text proxies."""
from __future__ import annotations

import functools
import builtins
import math
from fractions import Fraction

from .core import Steer, Unsupported, eng, is_value, pyval, z3


class Sym:
    """Base of all proxies."""

    __slots__ = ()
    __array_ufunc__ = None  # numpy scalars defer to our reflected operators

    def __hash__(self):
        raise Unsupported(f"hash of {type(self).__name__}")

    def __str__(self):
        raise Unsupported(f"str() of {type(self).__name__}")

    def __format__(self, spec):
        raise Unsupported(f"format() of {type(self).__name__}")


def is_sym(x) -> bool:
    return isinstance(x, Sym)


def deep_sym(x, depth: int = 3) -> bool:
    if isinstance(x, Sym):
        return True
    if depth and type(x) in (tuple, list, set, frozenset):
        return any(deep_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, slice):
        return deep_sym((x.start, x.stop, x.step))
    return False


# --------------------------------------------------------------------------- bool
class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __and__(self, o):
        b = as_bool_term(o)
        if b is None:
            return as_sint(self) & o
        return mkbool(z3.And(self.t, b))

    __rand__ = __and__

    def __or__(self, o):
        b = as_bool_term(o)
        if b is None:
            return as_sint(self) | o
        return mkbool(z3.Or(self.t, b))

    __ror__ = __or__

    def __xor__(self, o):
        b = as_bool_term(o)
        if b is None:
            return as_sint(self) ^ o
        return mkbool(z3.Xor(self.t, b))

    __rxor__ = __xor__

    def __eq__(self, o):
        b = as_bool_term(o)
        if b is None:
            return as_sint(self) == o
        return mkbool(self.t == b)

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def _i(self):
        return as_sint(self)

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return self._i() * o
    def __neg__(self): return -self._i()
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))

    def __repr__(self):
        return f"SBool({self.t})"

    # numpy / pyarrow scalar flavour
    def as_py(self):
        return bool(self)

    def item(self):
        return bool(self)

    def any(self):
        return self

    def all(self):
        return self


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def as_bool_term(x):
    import numpy as np

    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x) and z3.is_bool(x):
        return x
    return None


def bterm(x):
    """Truth value of any python/proxy value as a term (no forking for ints/bools)."""
    b = as_bool_term(x)
    if b is not None:
        return b
    if isinstance(x, SInt):
        return (x != 0).t if isinstance(x != 0, SBool) else z3.BoolVal(bool(x != 0))
    return z3.BoolVal(bool(x))


def not_(x):
    b = as_bool_term(x)
    if b is None:
        return not x
    return mkbool(z3.Not(b))


def and_all(xs):
    return mkbool(z3.And(*[bterm(x) for x in xs])) if xs else True


def or_all(xs):
    return mkbool(z3.Or(*[bterm(x) for x in xs])) if xs else False


# --------------------------------------------------------------------------- int
def _w(lo: int, hi: int) -> int:
    a = hi.bit_length() + 1 if hi >= 0 else 1
    b = (-lo - 1).bit_length() + 1 if lo < 0 else 1
    return max(a, b)


def _sx(t, w: int):
    """Bring a signed bit-vector term to exactly w bits (value known to fit)."""
    n = t.size()
    if n < w:
        return z3.SignExt(w - n, t)
    if n > w:
        return z3.Extract(w - 1, 0, t)
    return t


class SInt(Sym):
    """Python int: either an Int-sorted term (unbounded) or a signed bit-vector with a tracked interval."""

    __slots__ = ("t", "lo", "hi")

    def __init__(self, t, lo=None, hi=None):
        self.t = t
        self.lo = lo
        self.hi = hi

    @property
    def isbv(self):
        return z3.is_bv(self.t)

    def intterm(self):
        if self.isbv:
            return z3.BV2Int(self.t, is_signed=self.lo < 0)
        return self.t

    # ---- conversions
    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        v = eng().concretize(self.t)
        if z3.is_bv_value(v):
            return v.as_signed_long()
        return v.as_long()

    __int__ = __index__

    def __repr__(self):
        return f"SInt({self.t})"

    def __float__(self):
        raise Unsupported("float(SInt) at a C boundary")

    def bit_length(self):
        return int(self).bit_length()

    def as_py(self):
        return self

    def item(self):
        return self

    # ---- helpers
    def _bin(self, o, op, rev=False):
        import numpy as np

        if isinstance(o, (bool, np.bool_)):
            o = int(o)
        elif isinstance(o, np.integer):
            o = int(o)
        elif isinstance(o, SBool):
            o = as_sint(o)
        if isinstance(o, (float, Fraction)) or isinstance(o, SFloat):
            a = SFloat.of(self)
            b = SFloat.of(o)
            return a._bin(b, op) if not rev else b._bin(a, op)
        if not isinstance(o, (int, SInt)):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        return _int_op(op, a, b)

    def __add__(self, o): return self._bin(o, "+")
    def __radd__(self, o): return self._bin(o, "+", True)
    def __sub__(self, o): return self._bin(o, "-")
    def __rsub__(self, o): return self._bin(o, "-", True)
    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * int(self)
        return self._bin(o, "*")
    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * int(self)
        return self._bin(o, "*", True)
    def __floordiv__(self, o): return self._bin(o, "//")
    def __rfloordiv__(self, o): return self._bin(o, "//", True)
    def __mod__(self, o): return self._bin(o, "%")
    def __rmod__(self, o): return self._bin(o, "%", True)
    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)
    def __truediv__(self, o): return SFloat.of(self) / o
    def __rtruediv__(self, o): return SFloat.of(o) / SFloat.of(self)
    def __and__(self, o): return self._bin(o, "&")
    def __rand__(self, o): return self._bin(o, "&", True)
    def __or__(self, o): return self._bin(o, "|")
    def __ror__(self, o): return self._bin(o, "|", True)
    def __xor__(self, o): return self._bin(o, "^")
    def __rxor__(self, o): return self._bin(o, "^", True)
    def __lshift__(self, o): return self._bin(o, "<<")
    def __rlshift__(self, o): return self._bin(o, "<<", True)
    def __rshift__(self, o): return self._bin(o, ">>")
    def __rrshift__(self, o): return self._bin(o, ">>", True)
    def __pow__(self, o, m=None): return pow(int(self), int(o), m) if m is None else NotImplemented
    def __rpow__(self, o): return o ** int(self)
    def __neg__(self): return _int_op("-", 0, self)
    def __pos__(self): return self
    def __invert__(self): return _int_op("-", -1, self)
    def __abs__(self):
        return ite(self >= 0, self, -self)
    def __lt__(self, o): return self._bin(o, "<")
    def __le__(self, o): return self._bin(o, "<=")
    def __gt__(self, o): return self._bin(o, ">")
    def __ge__(self, o): return self._bin(o, ">=")
    def __eq__(self, o):
        r = self._bin(o, "==")
        return False if r is NotImplemented else r
    def __ne__(self, o):
        return not_(self == o)
    __hash__ = Sym.__hash__

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = int(length)
        if signed:
            if self < -(1 << (8 * length - 1)) or self >= (1 << (8 * length - 1)):
                raise OverflowError("int too big to convert")
        elif not (self >= 0) or not (self < (1 << (8 * length))):
            raise OverflowError("int too big to convert")
        out = [(self >> (8 * i)) & 0xFF for i in range(length)]
        if byteorder == "big":
            out.reverse()
        return mkbytes(out)


def mkint(t, lo=None, hi=None):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SInt(t, lo, hi)


def as_sint(x):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt(z3.If(x.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
    if isinstance(x, int):
        return SInt(z3.IntVal(int(x)))
    raise Unsupported(f"as_sint {type(x).__name__}")


def intterm(x):
    """Int-sorted term of a python int / SInt / SBool."""
    if isinstance(x, (bool, int)):
        return z3.IntVal(int(x))
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, SInt):
        return x.intterm()
    if z3.is_expr(x):
        if z3.is_int(x):
            return x
        if z3.is_bv(x):
            return z3.BV2Int(x, is_signed=True)
    raise Unsupported(f"intterm {type(x).__name__}")


def _pair_bv(a, b, lo, hi):
    """Both operands as bv terms of a common width that also fits [lo,hi]."""
    la, ha = (a, a) if isinstance(a, int) else (a.lo, a.hi)
    lb, hb = (b, b) if isinstance(b, int) else (b.lo, b.hi)
    w = max(_w(la, ha), _w(lb, hb), _w(lo, hi))
    ta = z3.BitVecVal(a, w) if isinstance(a, int) else _sx(a.t, w)
    tb = z3.BitVecVal(b, w) if isinstance(b, int) else _sx(b.t, w)
    return ta, tb, w


_CMP = {"<", "<=", ">", ">=", "=="}


def _int_op(op, a, b):
    abv = isinstance(a, int) or a.isbv
    bbv = isinstance(b, int) or b.isbv
    if abv and bbv:
        r = _bv_op(op, a, b)
        if r is not None:
            return r
    ta, tb = intterm(a), intterm(b)
    if op == "+": return mkint(ta + tb)
    if op == "-": return mkint(ta - tb)
    if op == "*": return mkint(ta * tb)
    if op == "<": return mkbool(ta < tb)
    if op == "<=": return mkbool(ta <= tb)
    if op == ">": return mkbool(ta > tb)
    if op == ">=": return mkbool(ta >= tb)
    if op == "==": return mkbool(ta == tb)
    if op in ("//", "%"):
        if isinstance(b, SInt):
            if b == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            pos = bool(b > 0)
        else:
            if b == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            pos = b > 0
        # z3 div/mod with positive divisor is floor division
        if pos:
            return mkint(ta / tb if op == "//" else ta % tb)
        q = -((ta) / (-tb))
        # floor for negative divisor: a // b == (-a) // (-b)
        q = (-ta) / (-tb)
        return mkint(q if op == "//" else ta - q * tb)
    if op in ("<<", ">>"):
        k = int(b)
        if k < 0:
            raise ValueError("negative shift count")
        if isinstance(a, int):
            return a << k if op == "<<" else a >> k
        return mkint(ta * (1 << k)) if op == "<<" else mkint(ta / (1 << k))
    if op in ("&", "|", "^"):
        if isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
            ta, tb = tb, ta
        if isinstance(b, int):
            x = _and_const(ta, b)
            if x is not None:
                if op == "&": return mkint(x)
                if op == "|": return mkint(ta + b - x)
                return mkint(ta + b - 2 * x)
    # last resort: concretise
    a, b = int(a), int(b)
    return {"&": a & b, "|": a | b, "^": a ^ b}[op]


def _and_const(t, c: int):
    """t & c for a constant c >= 0 (or ~mask) over Int terms."""
    if c == 0:
        return z3.IntVal(0)
    if c < 0:  # t & c == t - (t & ~c)
        r = _and_const(t, ~c)
        return None if r is None else t - r
    parts = []
    i = 0
    while c >> i:
        if (c >> i) & 1:
            j = i
            while (c >> j) & 1:
                j += 1
            parts.append(((t / (1 << i)) % (1 << (j - i))) * (1 << i))
            i = j
        else:
            i += 1
    return z3.Sum(parts) if len(parts) > 1 else parts[0]


def _bv_op(op, a, b):
    la, ha = (a, a) if isinstance(a, int) else (a.lo, a.hi)
    lb, hb = (b, b) if isinstance(b, int) else (b.lo, b.hi)
    if op in _CMP:
        # interval shortcuts
        if op == "<":
            if ha < lb: return True
            if la >= hb: return False
        if op == "<=":
            if ha <= lb: return True
            if la > hb: return False
        if op == ">":
            if la > hb: return True
            if ha <= lb: return False
        if op == ">=":
            if la >= hb: return True
            if ha < lb: return False
        if op == "==":
            if ha < lb or hb < la: return False
        ta, tb, _ = _pair_bv(a, b, min(la, lb), max(ha, hb))
        return mkbool({"<": ta < tb, "<=": ta <= tb, ">": ta > tb, ">=": ta >= tb, "==": ta == tb}[op])
    if op == "+":
        lo, hi = la + lb, ha + hb
    elif op == "-":
        lo, hi = la - hb, ha - lb
    elif op == "*":
        c = [la * lb, la * hb, ha * lb, ha * hb]
        lo, hi = min(c), max(c)
    elif op == "&":
        if la >= 0 and lb >= 0:
            lo, hi = 0, min(ha, hb)
        elif la >= 0:
            lo, hi = 0, ha
        elif lb >= 0:
            lo, hi = 0, hb
        else:
            w = max(_w(la, ha), _w(lb, hb))
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    elif op in ("|", "^"):
        if la >= 0 and lb >= 0:
            lo, hi = 0, (1 << max(ha.bit_length(), hb.bit_length())) - 1
            if op == "|":
                lo = max(la, lb)
        else:
            w = max(_w(la, ha), _w(lb, hb))
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    elif op in ("<<", ">>"):
        k = int(b)
        if k < 0:
            raise ValueError("negative shift count")
        if isinstance(a, int):
            return a << k if op == "<<" else a >> k
        if op == "<<":
            lo, hi = la << k, ha << k
            w = _w(lo, hi)
            if w > 512:
                return None
            t = _sx(a.t, max(w, a.t.size()))
            return mkint(_sx(t << k, w), lo, hi)
        lo, hi = la >> k, ha >> k
        if k >= a.t.size():
            k = a.t.size() - 1
        return mkint(_sx(a.t >> k, _w(lo, hi)), lo, hi)
    elif op in ("//", "%"):
        if lb <= 0 or la < 0:
            return None
        if isinstance(b, int) and b & (b - 1) == 0:
            k = b.bit_length() - 1
            return _bv_op(">>", a, k) if op == "//" else _bv_op("&", a, b - 1)
        lo, hi = (la // hb, ha // lb) if op == "//" else (0, min(ha, hb - 1))
        ta, tb, w = _pair_bv(a, b, 0, max(ha, hb))
        t = z3.UDiv(ta, tb) if op == "//" else z3.URem(ta, tb)
        return mkint(_sx(t, _w(lo, hi)), lo, hi)
    else:
        return None
    if _w(lo, hi) > 512:
        return None
    ta, tb, w = _pair_bv(a, b, lo, hi)
    t = {"+": lambda: ta + tb, "-": lambda: ta - tb, "*": lambda: ta * tb, "&": lambda: ta & tb, "|": lambda: ta | tb, "^": lambda: ta ^ tb}[op]()
    return mkint(_sx(t, _w(lo, hi)), lo, hi)


def ite(c, a, b):
    """Merge two scalar values under a condition without forking (falls back to a fork)."""
    ct = as_bool_term(c)
    if ct is None:
        return a if c else b
    if z3.is_true(ct):
        return a
    if z3.is_false(ct):
        return b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(ct, as_bool_term(a), as_bool_term(b)))
    if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
        if isinstance(a, SBool): a = as_sint(a)
        if isinstance(b, SBool): b = as_sint(b)
        abv = isinstance(a, int) or a.isbv
        bbv = isinstance(b, int) or b.isbv
        if abv and bbv and not (isinstance(a, int) and isinstance(b, int)):
            la, ha = (a, a) if isinstance(a, int) else (a.lo, a.hi)
            lb, hb = (b, b) if isinstance(b, int) else (b.lo, b.hi)
            lo, hi = min(la, lb), max(ha, hb)
            ta, tb, w = _pair_bv(a, b, lo, hi)
            return mkint(z3.If(ct, ta, tb), lo, hi)
        return mkint(z3.If(ct, intterm(a), intterm(b)))
    if isinstance(a, (float, SFloat)) and isinstance(b, (float, SFloat)):
        return mkfloat(z3.If(ct, SFloat.of(a).t, SFloat.of(b).t))
    if isinstance(a, OStr) and isinstance(b, OStr):
        return OStr(z3.simplify(z3.If(ct, a.t, b.t)))
    return a if c else b


# --------------------------------------------------------------------------- float
F64 = z3.Float64()
RM = z3.RNE()
_rn = z3.Function("rn", z3.RealSort(), z3.RealSort())
_bits2f = z3.Function("bits2f", z3.BitVecSort(64), z3.RealSort())


def bits2f(t):
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().name() == "f2bits":
        return t.arg(0)
    return _bits2f(t)


f2bits = z3.Function("f2bits", z3.RealSort(), z3.BitVecSort(64))
U53 = z3.Q(1, 2**53)


def fmode() -> str:
    return eng().float_mode


def const_float(x: float):
    """z3 constant for a python float / Fraction in the current float mode."""
    if fmode() == "fp":
        return z3.FPVal(float(x), F64)
    if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
        raise Unsupported("non-finite float constant in real mode")
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)


def rounded(t):
    """Round an exact real result to double (float mode 'rn': function symbol with its axioms)."""
    if fmode() != "rn":
        return t
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        fr = Fraction(t.numerator_as_long(), t.denominator_as_long())
        return z3.Q(*Fraction(float(fr)).as_integer_ratio())
    if z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED) and t.num_args() == 0 and t.decl().name().startswith("rn!"):
        return t
    e = eng()
    if int_valued(t) and e.holds(t <= z3.RealVal(2**53), t >= z3.RealVal(-(2**53))):
        return t
    st = e.path_state.setdefault("rn", {})
    k = t.get_id()
    if k in st:
        return st[k][1]
    r = z3.FreshReal("rn")
    st[k] = (t, r)
    # equal arguments round alike
    e.add(r == _rn(t))
    a = z3.If(t >= 0, t, -t)
    fl = z3.ToInt(t)
    e.add(
        z3.And(
            r - t <= U53 * a,
            t - r <= U53 * a,
            z3.Implies(
                a <= z3.RealVal(2**53),
                z3.And(r >= z3.ToReal(fl), r <= z3.ToReal(fl) + 1),
            ),
            z3.Implies(z3.And(a <= z3.RealVal(2**53), z3.ToReal(fl) == t), r == t),
        ),
    )
    return r


def int_valued(t):
    """syntactically a whole number"""
    if z3.is_rational_value(t):
        return t.denominator_as_long() == 1
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return True
    if z3.is_app_of(t, z3.Z3_OP_ADD) or z3.is_app_of(t, z3.Z3_OP_MUL) or z3.is_app_of(t, z3.Z3_OP_SUB) or z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return all(int_valued(c) for c in t.children())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return all(int_valued(c) for c in t.children()[1:])
    return False


def as_int_term(t):
    """Int term of an int_valued real term"""
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long())
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    c = t.children()
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.If(c[0], as_int_term(c[1]), as_int_term(c[2]))
    c = [as_int_term(x) for x in c]
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return -c[0]
    r = c[0]
    for x in c[1:]:
        r = r + x if z3.is_app_of(t, z3.Z3_OP_ADD) else r * x if z3.is_app_of(t, z3.Z3_OP_MUL) else r - x
    return z3.simplify(r)


def real_trunc_int(t):
    t = z3.simplify(t)
    if int_valued(t):
        return as_int_term(t)
    if fmode() == "rn":
        e = eng()
        st = e.path_state.setdefault("trunc", {})
        k = t.get_id()
        if k not in st:
            n = z3.FreshInt("trunc")
            st[k] = (t, n)
            d = t - z3.ToReal(n)
            e.add(z3.If(t >= 0, z3.And(d >= 0, d < 1), z3.And(d <= 0, d > -1)))
            for i in e.path_state.get("int_inputs", ())[-4:]:
                # true of all integers: lets the solver split on the difference
                e.add(z3.Or(n - i <= 0, n - i >= 1))
        return st[k][1]
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def real_rint(t):
    """nearest integer, ties to even, as an Int"""
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        return z3.IntVal(round(Fraction(t.numerator_as_long(), t.denominator_as_long())))
    if int_valued(t):
        return as_int_term(t)
    e = eng()
    st = e.path_state.setdefault("rint", {})
    k = t.get_id()
    if k not in st:
        n = z3.FreshInt("rint")
        st[k] = (t, n)
        d = t - z3.ToReal(n)
        e.add(z3.And(d <= z3.Q(1, 2), -d <= z3.Q(1, 2), z3.Implies(z3.Or(d == z3.Q(1, 2), d == -z3.Q(1, 2)), n % 2 == 0)))
        if fmode() == "rn":
            # often it is one of the whole-number inputs
            for i in e.path_state.get("int_inputs", ()):
                if e.holds(n == i):
                    st[k] = (t, i)
                    break
    return st[k][1]


def fop(op: str, a, b):
    """Binary float operation on terms of the current float sort."""
    fp = fmode() == "fp"
    if op in ("<", "<=", ">", ">=", "==", "!="):
        if fp:
            r = {"<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ, "==": z3.fpEQ, "!=": lambda x, y: z3.Not(z3.fpEQ(x, y))}[op](a, b)
        else:
            r = {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]()
        return z3.simplify(r)
    if fp:
        if op == "/" and z3.is_fp_value(b) and pyval(b) == 1.0:
            return a
        if op == "*":
            if z3.is_fp_value(b) and pyval(b) == 1.0:
                return a
            if z3.is_fp_value(a) and pyval(a) == 1.0:
                return b
        if op in "+-*/":
            # push operations with a constant through if-then-else (keeps constants constant)
            if z3.is_app_of(b, z3.Z3_OP_ITE) and all(z3.is_fp_value(z3.simplify(x)) for x in b.children()[1:]):
                c, x, y = b.children()
                return z3.If(c, fop(op, a, z3.simplify(x)), fop(op, a, z3.simplify(y)))
            return {"+": z3.fpAdd, "-": z3.fpSub, "*": z3.fpMul, "/": z3.fpDiv}[op](RM, a, b)
        raise Unsupported(f"fp {op}")
    if op == "+": return rounded(a + b)
    if op == "-": return rounded(a - b)
    if op == "*": return rounded(_mul(a, b))
    if op == "/":
        b = z3.simplify(b)
        if z3.is_rational_value(b):
            if pyval(b) == 0:
                raise Unsupported("float division by zero")
            return rounded(a * z3.simplify(1 / b))
        if z3.is_app_of(b, z3.Z3_OP_ITE):
            c, x, y = b.children()
            return z3.If(c, fop("/", a, x), fop("/", a, y))
        return rounded(a / b)
    if op == "//":
        r = fop("/", a, b)
        return z3.ToReal(z3.ToInt(r))
    if op == "%":
        b = z3.simplify(b)
        q = z3.ToInt(a / b)
        return a - b * z3.ToReal(q)
    raise Unsupported(f"real {op}")


def _mul(a, b):
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_rational_value(a) or z3.is_rational_value(b):
        return a * b
    # distribute over if-then-else with constant arms to stay linear
    for x, y in ((a, b), (b, a)):
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c, p, q = x.children()
            return z3.If(c, _mul(p, y), _mul(q, y))
    return a * b


class SFloat(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(x):
        import numpy as np

        if isinstance(x, SFloat):
            return x
        if isinstance(x, (float, Fraction, np.floating)):
            return SFloat(const_float(float(x) if not isinstance(x, Fraction) else x))
        if isinstance(x, (bool, int, np.integer)):
            return SFloat(const_float(float(int(x))))
        if isinstance(x, SBool):
            return SFloat(z3.If(x.t, const_float(1.0), const_float(0.0)))
        if isinstance(x, SInt):
            if fmode() == "fp":
                if not x.isbv:
                    raise Unsupported("Int -> fp")
                t = x.t
                return SFloat(z3.fpSignedToFP(RM, z3.simplify(z3.SignExt(64 - t.size(), t)) if t.size() < 64 else t, F64))
            if fmode() == "rn" and eng().holds(x.intterm() <= 2**53, x.intterm() >= -(2**53)):
                return SFloat(z3.ToReal(x.intterm()))
            return SFloat(rounded(z3.ToReal(x.intterm())))
        raise Unsupported(f"SFloat.of {type(x).__name__}")

    def _bin(self, o, op, rev=False):
        try:
            b = SFloat.of(o)
        except Unsupported:
            return NotImplemented
        x, y = (b.t, self.t) if rev else (self.t, b.t)
        r = fop(op, x, y)
        return mkbool(r) if z3.is_bool(r) else mkfloat(r)

    def __add__(self, o): return self._bin(o, "+")
    def __radd__(self, o): return self._bin(o, "+", True)
    def __sub__(self, o): return self._bin(o, "-")
    def __rsub__(self, o): return self._bin(o, "-", True)
    def __mul__(self, o): return self._bin(o, "*")
    def __rmul__(self, o): return self._bin(o, "*", True)
    def __truediv__(self, o): return self._bin(o, "/")
    def __rtruediv__(self, o): return self._bin(o, "/", True)
    def __floordiv__(self, o): return self._bin(o, "//")
    def __mod__(self, o): return self._bin(o, "%")
    def __neg__(self): return mkfloat(z3.fpNeg(self.t) if fmode() == "fp" else -self.t)
    def __abs__(self): return ite(self >= 0.0, self, -self)
    def __lt__(self, o): return self._bin(o, "<")
    def __le__(self, o): return self._bin(o, "<=")
    def __gt__(self, o): return self._bin(o, ">")
    def __ge__(self, o): return self._bin(o, ">=")
    def __eq__(self, o):
        r = self._bin(o, "==")
        return False if r is NotImplemented else r
    def __ne__(self, o): return not_(self == o)
    __hash__ = Sym.__hash__

    def __bool__(self):
        return bool(self != 0.0)

    def is_integer(self):
        if fmode() == "fp":
            return mkbool(z3.fpEQ(self.t, z3.fpRoundToIntegral(z3.RTZ(), self.t)))
        return mkbool(z3.ToReal(z3.ToInt(self.t)) == self.t)

    def __trunc__(self):
        return mkint(real_trunc_int(self.t))

    def trunc_int(self):
        if fmode() == "fp":
            raise Unsupported("int(float) in fp mode")
        return mkint(real_trunc_int(self.t))

    def as_py(self):
        return self

    def item(self):
        return self

    def __repr__(self):
        return f"SFloat({self.t})"

    def __float__(self):
        raise Unsupported("float(SFloat) at a C boundary")


def mkfloat(t):
    t = z3.simplify(t)
    if z3.is_fp_value(t):
        return pyval(t)
    if z3.is_rational_value(t):
        fr = pyval(t)
        f = float(fr)
        if Fraction(f) == fr:
            return f
    return SFloat(t)


# --------------------------------------------------------------------------- text: opaque strings
_LITS: dict[str, int] = {"": 0}
_LIT_BACK: dict[int, str] = {0: ""}


def lit_id(s: str) -> int:
    """Interned literal strings are the ids <= 0; opaque strings are ids > 0."""
    i = _LITS.get(s)
    if i is None:
        # a rendered opaque string comes back as itself
        i = -len(_LITS)
        _LITS[s] = i
        _LIT_BACK[i] = s
    return i


ostr_cat = z3.Function("str_cat", z3.IntSort(), z3.IntSort(), z3.IntSort())
ostr_strip = z3.Function("str_strip", z3.IntSort(), z3.IntSort())


class SymStr(Sym):
    __slots__ = ()


class OStr(SymStr):
    """An opaque string: an Int id.  Assumed non-empty and without surrounding white space when declared so."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"OStr({self.t})"

    def __eq__(self, o):
        if isinstance(o, OStr):
            return mkbool(self.t == o.t)
        if isinstance(o, str):
            return mkbool(self.t == lit_id(o))
        return False

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return eng().branch(self.t != 0)

    def __len__(self):
        raise Unsupported("len of opaque string")

    def strip(self, *_):
        return self

    lstrip = rstrip = strip

    def as_py(self):
        return self

    def encode(self, enc="utf-8", errors="strict"):
        return OBytes(self, enc)

    def __add__(self, o):
        return ocat([self, o])

    def __radd__(self, o):
        return ocat([o, self])


class OCat(SymStr):
    """Concatenation of opaque pieces / literals."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def strip(self, *_):
        return self

    lstrip = rstrip = strip

    def as_py(self):
        return self

    def encode(self, enc="utf-8", errors="strict"):
        return OBytes(self, enc)

    def __bool__(self):
        return any(bool(p) for p in self.parts)

    def __add__(self, o):
        return ocat([self, o])

    def __radd__(self, o):
        return ocat([o, self])

    def __eq__(self, o):
        op = o.parts if isinstance(o, OCat) else [o]
        if not isinstance(o, (str, SymStr)):
            return False
        if len(op) != len(self.parts):
            if isinstance(o, (OStr, OCat)):
                return False  # opaque pieces are atoms (declared limitation)
            return False
        return and_all([a == b for a, b in zip(self.parts, op)])

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def __repr__(self):
        return f"OCat({self.parts})"


def ocat(parts):
    out = []
    for p in parts:
        if isinstance(p, OCat):
            out.extend(p.parts)
        elif isinstance(p, CStr):
            raise Unsupported("opaque + char string")
        elif isinstance(p, str):
            if p:
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
        elif isinstance(p, OStr):
            out.append(p)
        else:
            return NotImplemented
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    return OCat(out)


class OBytes(Sym):
    """Encoded form of an opaque string (cell value as it travels through the xlsx reader)."""

    __slots__ = ("s", "enc")

    def __init__(self, s, enc="utf-8"):
        self.s = s
        self.enc = enc

    def decode(self, enc="utf-8", errors="strict"):
        if enc.lower().replace("_", "-") != self.enc.lower().replace("_", "-"):
            raise Unsupported("decode with another codec")
        return self.s

    def __eq__(self, o):
        if isinstance(o, OBytes):
            return self.s == o.s
        if isinstance(o, bytes):
            return self.s == o.decode(self.enc)
        return False

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def strip(self, *_):
        return self

    def __bool__(self):
        return bool(self.s)

    def __repr__(self):
        return f"OBytes({self.s!r})"


# --------------------------------------------------------------------------- text: bytes with symbolic bytes
def _byte(x):
    """Element of a byte string: python int or SInt over BV with range 0..255."""
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, SInt):
        return x
    raise Unsupported(f"byte {type(x).__name__}")


class SBytes(Sym):
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = tuple(b)

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return bool(self.b)

    def __iter__(self):
        return iter(self.b)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self.b[slice_conc(i, len(self.b))])
        if isinstance(i, SInt):
            i = int(i)
        return self.b[i]

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray, SBytes)):
            return mkbytes(self.b + tuple(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return mkbytes(tuple(o) + self.b)
        return NotImplemented

    def __mul__(self, n):
        return mkbytes(self.b * int(n))

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray, SBytes)):
            if len(o) != len(self.b):
                return False
            return and_all([x == y for x, y in zip(self.b, tuple(o))])
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        return _lex_lt(self.b, tuple(o))

    def __gt__(self, o):
        return _lex_lt(tuple(o), self.b)

    __hash__ = Sym.__hash__

    def __contains__(self, x):
        if isinstance(x, (int, SInt)):
            return bool(or_all([y == x for y in self.b]))
        n = len(x)
        return bool(or_all([mkbytes(self.b[i : i + n]) == x for i in range(len(self.b) - n + 1)]))

    def __reversed__(self):
        return iter(self.b[::-1])

    def startswith(self, p, *a):
        if a:
            return self[slice(*a)].startswith(p)
        if isinstance(p, tuple):
            return or_all([self.startswith(q) for q in p])
        return mkbytes(self.b[: len(p)]) == p if len(p) <= len(self.b) else False

    def endswith(self, p):
        n = len(p)
        return (mkbytes(self.b[len(self.b) - n :]) == p) if n <= len(self.b) else False

    def decode(self, encoding="utf-8", errors="strict"):
        return decode(self.b, encoding, errors)

    def removeprefix(self, p):
        return self[len(p) :] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self.b) - len(p)] if len(p) and self.endswith(p) else self

    def _text(self):
        return CStr(tuple(self.b))

    def find(self, x, start=0, *_):
        return self._text().find(_latin(x), start)

    def rfind(self, x):
        return self._text().rfind(_latin(x))

    def index(self, x, start=0):
        i = self.find(x, start)
        if i < 0:
            raise ValueError("subsection not found")
        return i

    def count(self, x):
        return self._text().count(_latin(x))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("split on white space")
        return [mkbytes(chars(x)) for x in self._text().split(_latin(sep), maxsplit)]

    def partition(self, sep):
        return tuple(mkbytes(chars(x)) for x in self._text().partition(_latin(sep)))

    def replace(self, a, b, count=-1):
        return mkbytes(chars(self._text().replace(_latin(a), _latin(b), count)))

    def strip(self, c=None):
        if c is None:
            raise Unsupported("bytes.strip()")
        return mkbytes(chars(self._text().strip(_latin(c))))

    def rstrip(self, c=None):
        if c is None:
            raise Unsupported("bytes.rstrip()")
        return mkbytes(chars(self._text().rstrip(_latin(c))))

    def lstrip(self, c=None):
        if c is None:
            raise Unsupported("bytes.lstrip()")
        return mkbytes(chars(self._text().lstrip(_latin(c))))

    def __le__(self, o):
        return not _lex_lt(tuple(o), self.b)

    def __ge__(self, o):
        return not _lex_lt(self.b, tuple(o))

    __rmul__ = __mul__

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def cast(self, fmt):
        if fmt in ("B", "@B"):
            return self
        raise Unsupported("memoryview.cast")

    @property
    def nbytes(self):
        return len(self.b)

    def hex(self, *_):
        raise Unsupported("hex of symbolic bytes")

    def join(self, it):
        return bytes_join(self, it)

    def tobytes(self):
        return self

    def __repr__(self):
        return f"SBytes({list(self.b)})"


def _latin(x):
    """byte string (or a single byte value) as a text of the same code points"""
    if isinstance(x, (int, SInt)):
        return mkstr([x])
    return mkstr(tuple(x))


class XByteArray(SBytes):
    """bytearray; elements may be symbolic"""

    __slots__ = ()

    def __init__(self, b=()):
        self.b = [_byte(x) for x in b]

    def __getitem__(self, i):
        if isinstance(i, slice):
            return XByteArray(self.b[slice_conc(i, len(self.b))])
        return self.b[int(i)]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.b[slice_conc(i, len(self.b))] = [_byte(x) for x in v]
            return
        if not (v >= 0) or not (v < 256):
            raise ValueError("byte must be in range(0, 256)")
        self.b[int(i)] = _byte(v)

    def __delitem__(self, i):
        if isinstance(i, slice):
            del self.b[slice_conc(i, len(self.b))]
        else:
            del self.b[int(i)]

    def append(self, v):
        if not (v >= 0) or not (v < 256):
            raise ValueError("byte must be in range(0, 256)")
        self.b.append(_byte(v))

    def extend(self, it):
        for v in it:
            self.append(v)

    def insert(self, i, v):
        if not (v >= 0) or not (v < 256):
            raise ValueError("byte must be in range(0, 256)")
        self.b.insert(int(i), _byte(v))

    def pop(self, i=-1):
        return self.b.pop(int(i))

    def reverse(self):
        self.b.reverse()

    def clear(self):
        self.b.clear()

    def copy(self):
        return XByteArray(self.b)

    def __add__(self, o):
        return XByteArray([*self.b, *o])

    def __radd__(self, o):
        return mkbytes([*o, *self.b])

    def __iadd__(self, o):
        self.b.extend(_byte(x) for x in o)
        return self

    def __mul__(self, n):
        return XByteArray(self.b * int(n))

    def tobytes(self):
        return mkbytes(self.b)

    def hex(self, *a):
        x = mkbytes(self.b)
        return x.hex(*a)


def _lex_lt(a, b):
    for x, y in zip(a, b):
        if x == y:
            continue
        return bool(x < y)
    return len(a) < len(b)


def mkbytes(seq):
    seq = tuple(_byte(x) for x in seq)
    if all(isinstance(x, int) for x in seq):
        return bytes(seq)
    return SBytes(seq)


def bytes_join(sep, it):
    items = list(it)
    from .stream import Rope

    if any(isinstance(x, Rope) for x in items):
        r = Rope(())
        for i, x in enumerate(items):
            if i and len(sep):
                r = r + sep
            r = r + x
        return r
    out = []
    for i, x in enumerate(items):
        if i:
            out.extend(sep)
        if isinstance(x, OBytes):
            raise Unsupported("join of opaque bytes")
        if not isinstance(x, (bytes, bytearray, memoryview, SBytes)):
            raise TypeError(f"sequence item {i}: expected a bytes-like object, {type(x).__name__} found")
        out.extend(x)
    return mkbytes(out)


def slice_conc(s: slice, n: int) -> slice:
    """Python slice with possibly symbolic bounds over a sequence of concrete length n: bounds are case-split."""
    if not deep_sym(s):
        return s

    def c(v):
        if v is None or isinstance(v, int):
            return v
        # clamp symbolically before the case split, so out-of-range values stay one case each
        if v >= n:
            return n
        if v < -n:
            return -n if n else 0
        return int(v)

    # start/stop below -n and above n clamp to the ends for positive steps
    step = s.step if s.step is None else int(s.step)
    if step is not None and step < 0:
        return slice(None if s.start is None else int(s.start), None if s.stop is None else int(s.stop), step)
    return slice(c(s.start), c(s.stop), step)


# --------------------------------------------------------------------------- text: strings of symbolic characters
class CStr(SymStr):
    """String of concrete length; each element is a code point (python int or SInt over BV, range 0..0x10ffff)."""

    __slots__ = ("c",)

    def __init__(self, c):
        self.c = tuple(c)

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return bool(self.c)

    def __iter__(self):
        return iter([mkstr([x]) for x in self.c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.c[slice_conc(i, len(self.c))])
        return mkstr([self.c[int(i)]])

    def __add__(self, o):
        if isinstance(o, (str, CStr)):
            return mkstr(self.c + chars(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return mkstr(chars(o) + self.c)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.c * int(n))

    def __eq__(self, o):
        if isinstance(o, (str, CStr)):
            oc = chars(o)
            if len(oc) != len(self.c):
                return False
            return and_all([x == y for x, y in zip(self.c, oc)])
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        return _lex_lt(self.c, chars(o))

    def __gt__(self, o):
        return _lex_lt(chars(o), self.c)

    def __le__(self, o):
        return not _lex_lt(chars(o), self.c)

    def __ge__(self, o):
        return not _lex_lt(self.c, chars(o))

    __hash__ = Sym.__hash__

    def as_py(self):
        return self

    def __contains__(self, x):
        xc = chars(x)
        n = len(xc)
        return bool(self.contains(x))

    def contains(self, x):
        xc = chars(x)
        n = len(xc)
        if n > len(self.c):
            return False
        return or_all([and_all([a == b for a, b in zip(self.c[i : i + n], xc)]) for i in range(len(self.c) - n + 1)])

    def find(self, x, start=0, *_):
        xc = chars(x)
        n = len(xc)
        for i in range(start, len(self.c) - n + 1):
            if and_all([a == b for a, b in zip(self.c[i : i + n], xc)]):
                return i
        return -1

    def index(self, x):
        i = self.find(x)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def startswith(self, p, *a):
        if a:
            return self[slice(*a)].startswith(p)
        if isinstance(p, tuple):
            return or_all([self.startswith(q) for q in p])
        pc = chars(p)
        if len(pc) > len(self.c):
            return False
        return and_all([a == b for a, b in zip(self.c, pc)])

    def endswith(self, p):
        if isinstance(p, tuple):
            return or_all([self.endswith(q) for q in p])
        pc = chars(p)
        if len(pc) > len(self.c):
            return False
        return and_all([a == b for a, b in zip(self.c[len(self.c) - len(pc) :], pc)])

    def removeprefix(self, p):
        return self[len(p) :] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self.c) - len(p)] if len(p) and self.endswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit != -1:
                raise Unsupported("split on white space")
            out, cur = [], []
            for x in self.c:
                if is_space(x):
                    if cur:
                        out.append(mkstr(cur))
                    cur = []
                else:
                    cur.append(x)
            if cur:
                out.append(mkstr(cur))
            return out
        out, cur = [], self
        while maxsplit != 0:
            i = cur.find(sep) if isinstance(cur, CStr) else cur.find(sep)
            if i < 0:
                break
            out.append(cur[:i])
            cur = cur[i + len(sep) :]
            maxsplit -= 1
        out.append(cur)
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep) :])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep) :])

    def zfill(self, n):
        if self.c and or_all([self.c[0] == 43, self.c[0] == 45]):
            return mkstr((self.c[0], *([48] * max(0, int(n) - len(self.c))), *self.c[1:]))
        return self.rjust(n, "0")

    def rjust(self, n, c=" "):
        return mkstr((*(chars(c) * max(0, int(n) - len(self.c))), *self.c))

    def ljust(self, n, c=" "):
        return mkstr((*self.c, *(chars(c) * max(0, int(n) - len(self.c)))))

    def translate(self, table):
        out = []
        for x in self.c:
            for k, v in table.items():
                if x == k:
                    out.extend(() if v is None else (v,) if isinstance(v, int) else chars(v))
                    break
            else:
                out.append(x)
        return mkstr(out)

    def __rmul__(self, n):
        return mkstr(self.c * int(n))

    def rfind(self, x):
        xc = chars(x)
        n = len(xc)
        for i in range(len(self.c) - n, -1, -1):
            if and_all([a == b for a, b in zip(self.c[i : i + n], xc)]):
                return i
        return -1

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("rsplit on white space")
        out, cur = [], self
        while maxsplit != 0:
            i = cur.rfind(sep)
            if i < 0:
                break
            out.append(cur[i + len(sep) :])
            cur = cur[:i]
            maxsplit -= 1
        out.append(cur)
        return out[::-1]

    def replace(self, a, b, count=-1):
        out = []
        i = 0
        ac = chars(a)
        if not ac:
            raise Unsupported("replace of empty string")
        while i < len(self.c):
            if count != 0 and i + len(ac) <= len(self.c) and and_all([x == y for x, y in zip(self.c[i : i + len(ac)], ac)]):
                out.extend(chars(b))
                i += len(ac)
                count -= 1
            else:
                out.append(self.c[i])
                i += 1
        return mkstr(out)

    def _strip(self, chs, left, right):
        if chs is None:
            def pred(x):
                return or_all([is_space(x)])
        else:
            cc = chars(chs)

            def pred(x):
                return or_all([x == y for y in cc])
        i, j = 0, len(self.c)
        if left:
            while i < j and pred(self.c[i]):
                i += 1
        if right:
            while j > i and pred(self.c[j - 1]):
                j -= 1
        return mkstr(self.c[i:j])

    def strip(self, c=None): return self._strip(c, True, True)
    def lstrip(self, c=None): return self._strip(c, True, False)
    def rstrip(self, c=None): return self._strip(c, False, True)

    def isspace(self):
        return bool(self.c) and and_all([is_space(x) for x in self.c])

    def isupper(self): return self._cased(65, 90, 97, 122)
    def islower(self): return self._cased(97, 122, 65, 90)

    def _cased(self, lo, hi, lo2, hi2):
        for x in self.c:
            if not isinstance(x, int) and x >= 128:
                raise Unsupported("case of non-ASCII symbolic character")
        if any(isinstance(x, int) and x >= 128 for x in self.c):
            raise Unsupported("case of mixed text")
        if or_all([and_all([x >= lo2, x <= hi2]) for x in self.c]):
            return False
        return or_all([and_all([x >= lo, x <= hi]) for x in self.c])

    def _case(self, up):
        out = []
        for x in self.c:
            if isinstance(x, int):
                s = chr(x).upper() if up else chr(x).lower()
                out.extend(map(ord, s))
            else:
                if x >= 128:
                    raise Unsupported("case of non-ASCII symbolic character")
                lo, hi, d = (97, 122, -32) if up else (65, 90, 32)
                out.append(ite(and_all([x >= lo, x <= hi]), x + d, x))
        return mkstr(out)

    def upper(self): return self._case(True)
    def lower(self): return self._case(False)
    casefold = lower

    def _all(self, name, empty=False):
        return and_all([in_class(x, name) for x in self.c]) if self.c else empty

    def isdigit(self): return self._all("isdigit")
    def isdecimal(self): return self._all("isdecimal")
    def isnumeric(self): return self._all("isnumeric")
    def isalpha(self): return self._all("isalpha")
    def isalnum(self): return self._all("isalnum")
    def isprintable(self): return self._all("isprintable", True)
    def isascii(self): return and_all([x < 128 for x in self.c])

    def count(self, x, *a):
        s = self[slice(*a)] if len(a) > 1 else self[a[0]:] if a else self
        n, xc = 0, chars(x)
        if not xc:
            return len(s) + 1
        sc, i = chars(s), 0
        while i + len(xc) <= len(sc):
            if and_all([p == q for p, q in zip(sc[i : i + len(xc)], xc)]):
                n += 1
                i += len(xc)
            else:
                i += 1
        return n

    def join(self, it):
        return str_join(self, it)

    def encode(self, encoding="utf-8", errors="strict"):
        return encode(self.c, encoding, errors)

    def format(self, *a, **k):
        raise Unsupported("format on symbolic template")

    def __repr__(self):
        return f"CStr({list(self.c)})"


_SPACES = [0x1C, 0x1D, 0x1E, 0x1F, 0x20, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000]


def is_space(x):
    if isinstance(x, int):
        return chr(x).isspace()
    return or_all(
        [and_all([x >= 9, x <= 13]), and_all([x >= 0x2000, x <= 0x200A])] + [x == v for v in _SPACES],
    )


@functools.lru_cache(None)
def class_ranges(name):
    """code points whose character satisfies a predicate of str"""
    out = []
    for x in range(0x110000):
        if getattr(chr(x), name)():
            if out and out[-1][1] == x - 1:
                out[-1][1] = x
            else:
                out.append([x, x])
    return out


def in_class(x, name):
    if isinstance(x, int):
        return getattr(chr(x), name)()
    return or_all([x == a if a == b else and_all([x >= a, x <= b]) for a, b in class_ranges(name)])


def chars(s):
    if isinstance(s, CStr):
        return s.c
    if isinstance(s, str):
        return tuple(ord(ch) for ch in s)
    if isinstance(s, (OStr, OCat)):
        raise Unsupported("characters of an opaque string")
    raise TypeError(f"must be str, not {type(s).__name__}")


def mkstr(seq):
    seq = tuple(seq)
    if all(isinstance(x, int) for x in seq):
        return "".join(map(chr, seq))
    return CStr(seq)


def str_join(sep, it):
    items = list(it)
    if any(isinstance(x, (OStr, OCat)) for x in items) or isinstance(sep, (OStr, OCat)):
        parts = []
        for i, x in enumerate(items):
            if i:
                parts.append(sep)
            parts.append(x)
        return ocat(parts)
    out = []
    for i, x in enumerate(items):
        if i:
            out.extend(chars(sep))
        if not isinstance(x, (str, CStr)):
            raise TypeError(f"sequence item {i}: expected str instance, {type(x).__name__} found")
        out.extend(chars(x))
    return mkstr(out)


def _norm(enc):
    return enc.lower().replace("_", "-").replace("utf16", "utf-16").replace("utf8", "utf-8")


def encode(cs, enc, errors):
    enc = _norm(enc)
    if errors not in ("strict", "surrogatepass"):
        raise Unsupported("encode errors=" + errors)
    out = []
    if enc in ("utf-16", "utf-16-le", "utf-16-be", "utf-16le", "utf-16be"):
        big = enc.endswith("be")
        if enc == "utf-16":
            out += [0xFF, 0xFE]

        def unit(u):
            lo, hi = (u & 0xFF), (u >> 8)
            out.extend([hi, lo] if big else [lo, hi])

        for x in cs:
            if x >= 0x10000:
                y = x - 0x10000
                unit(0xD800 + (y >> 10))
                unit(0xDC00 + (y & 0x3FF))
            else:
                if errors == "strict" and x >= 0xD800 and x <= 0xDFFF:
                    raise UnicodeEncodeError("utf-16", "\ud800", 0, 1, "surrogates not allowed")
                unit(x)
        return mkbytes(out)
    if enc == "utf-8":
        for x in cs:
            if x < 0x80:
                out.append(x)
            elif x < 0x800:
                out += [0xC0 | (x >> 6), 0x80 | (x & 0x3F)]
            elif x < 0x10000:
                if errors == "strict" and x >= 0xD800 and x <= 0xDFFF:
                    raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
                out += [0xE0 | (x >> 12), 0x80 | ((x >> 6) & 0x3F), 0x80 | (x & 0x3F)]
            else:
                out += [0xF0 | (x >> 18), 0x80 | ((x >> 12) & 0x3F), 0x80 | ((x >> 6) & 0x3F), 0x80 | (x & 0x3F)]
        return mkbytes(out)
    if enc in ("ascii", "latin-1", "iso-8859-1"):
        lim = 128 if enc == "ascii" else 256
        for x in cs:
            if x >= lim:
                raise UnicodeEncodeError(enc, "\u1234", 0, 1, "ordinal not in range")
            out.append(x)
        return mkbytes(out)
    raise Unsupported("encode " + enc)


def decode(bs, enc, errors):
    enc = _norm(enc)
    if enc in ("utf-16", "utf-16-le", "utf-16-be", "utf-16le", "utf-16be"):
        if errors not in ("strict", "surrogatepass", "replace", "ignore"):
            raise Unsupported("decode errors=" + errors)
        big = enc.endswith("be")
        bs = list(bs)
        out = []
        odd = len(bs) % 2
        if odd:
            bs = bs[:-1]
        units = [(bs[i] | (bs[i + 1] << 8)) if not big else (bs[i + 1] | (bs[i] << 8)) for i in range(0, len(bs), 2)]
        if enc == "utf-16" and units:
            if units[0] == 0xFEFF:
                units = units[1:]
            elif units[0] == 0xFFFE:
                units = [((u & 0xFF) << 8) | (u >> 8) for u in units[1:]]
        i = 0

        def bad(msg, raw=None):
            if errors == "replace":
                out.append(0xFFFD)
            elif errors == "ignore":
                pass
            elif errors == "surrogatepass" and raw is not None:
                out.append(raw)
            else:
                raise UnicodeDecodeError("utf-16", b"\0\xd8", 0, 2, msg)

        while i < len(units):
            u = units[i]
            if u < 0xD800 or u > 0xDFFF:
                out.append(u)
                i += 1
            elif u <= 0xDBFF:
                if i + 1 < len(units) and units[i + 1] >= 0xDC00 and units[i + 1] <= 0xDFFF:
                    v = units[i + 1]
                    out.append(0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00))
                    i += 2
                elif i + 1 < len(units):
                    bad("illegal UTF-16 surrogate", u)
                    i += 1
                else:
                    bad("unexpected end of data", u)
                    i += 1
            else:
                bad("illegal encoding", u)
                i += 1
        if odd:
            bad("truncated data")
        return mkstr(out)
    if enc in ("utf-8", "ascii"):
        if errors not in ("strict", "ignore", "replace", "surrogatepass"):
            raise Unsupported("decode errors=" + errors)
        bs = list(bs)
        out = []
        i = 0

        def wrong(msg):
            if errors in ("strict", "surrogatepass"):
                raise UnicodeDecodeError(enc, b"\x80", 0, 1, msg)
            if errors == "replace":
                out.append(0xFFFD)

        while i < len(bs):
            x = bs[i]
            if x < 0x80:
                out.append(x)
                i += 1
                continue
            if enc == "ascii":
                wrong("ordinal not in range(128)")
                i += 1
                continue
            if x < 0xC2 or x > 0xF4:
                wrong("invalid start byte")
                i += 1
                continue
            n = 1 if x < 0xE0 else 2 if x < 0xF0 else 3
            v = x & (0x1F if n == 1 else 0x0F if n == 2 else 0x07)
            ok = True
            k = 1
            while k <= n:
                if i + k >= len(bs):
                    ok = False
                    break
                y = bs[i + k]
                lo, hi = 0x80, 0xBF
                if k == 1 and n == 2:
                    if x == 0xE0:
                        lo = 0xA0
                    elif x == 0xED and errors != "surrogatepass":
                        hi = 0x9F
                elif k == 1 and n == 3:
                    if x == 0xF0:
                        lo = 0x90
                    elif x == 0xF4:
                        hi = 0x8F
                if y < lo or y > hi:
                    ok = False
                    break
                v = (v << 6) | (y & 0x3F)
                k += 1
            if ok:
                out.append(v)
                i += n + 1
            else:
                wrong("invalid continuation byte")
                i += k
        return mkstr(out)
    if enc in ("latin-1", "iso-8859-1"):
        return mkstr(bs)
    raise Unsupported("decode " + enc)


def sym_int_str(x: SInt):
    """str(int) for a symbolic int: case split on the value."""
    return builtins.str(int(x))
