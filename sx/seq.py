"""Vectors: sequences of segments, each a concrete list of (possibly symbolic) elements or a lazily
evaluated segment of symbolic length (element = function of the index)."""
from __future__ import annotations

from .core import Unsupported, eng
from .values import SInt, is_sym, ite


class Lazy:
    __slots__ = ("n", "at")

    def __init__(self, n, at):
        self.n, self.at = n, at

    def cut(self, a, n):
        f = self.at
        if isinstance(a, int) and a == 0:
            return Lazy(n, f)
        return Lazy(n, lambda i: f(i + a))


def _n(s):
    return s.n if isinstance(s, Lazy) else len(s)


def _cut(s, a, n):
    if isinstance(s, Lazy):
        return s.cut(a, n)
    a, n = int(a), int(n)
    return s[a : a + n]


class Seq:
    __slots__ = ("segs",)

    def __init__(self, segs=()):
        out = []
        for s in segs:
            if isinstance(s, Lazy):
                if isinstance(s.n, int):
                    if s.n <= 0:
                        continue
                    if s.n <= 16:
                        s = [s.at(i) for i in range(s.n)]
            elif not s:
                continue
            if out and isinstance(s, list) and isinstance(out[-1], list):
                out[-1] = out[-1] + s
            else:
                out.append(list(s) if isinstance(s, list) else s)
        self.segs = out

    @staticmethod
    def of(xs):
        return Seq([list(xs)])

    @staticmethod
    def run(n, at):
        if isinstance(n, SInt) and not (n > 0):
            n = 0
        return Seq([Lazy(n, at)])

    def n(self):
        r = 0
        for s in self.segs:
            r = r + _n(s)
        return r

    def slice(self, start, stop):
        """[start, stop) with 0 <= start <= stop <= n assumed."""
        out = []
        pos = 0
        done = False
        if not (start < stop):
            return Seq()
        for s in self.segs:
            ln = _n(s)
            end = pos + ln
            # segment [pos, end) against [start, stop)
            if start >= end:
                pos = end
                continue
            a = 0
            if start > pos:
                a = start - pos
            if stop <= end:
                cnt = stop - pos - a
                done = True
            else:
                cnt = ln - a
            if isinstance(s, list):
                out.append(s[int(a) : int(a) + int(cnt)])
            elif isinstance(cnt, int) or cnt > 0:
                out.append(s.cut(a, cnt))
            if done:
                break
            pos = end
        return Seq(out)

    def pyslice(self, sl):
        n = self.n()
        step = 1 if sl.step is None else int(sl.step)
        if step < 0:
            if sl.start is None and sl.stop is None:
                xs = self.conc()[::-1]
                return Seq.of(xs[::-step])
            xs = self.conc()
            return Seq.of(xs[slice(None if sl.start is None else int(sl.start), None if sl.stop is None else int(sl.stop), step)])
        a = _clamp(sl.start, n, 0)
        b = _clamp(sl.stop, n, n)
        r = self.slice(a, b) if a < b else Seq()
        if step != 1:
            r = Seq.of(r.conc()[::step])
        return r

    def at(self, k):
        """Element k, 0 <= k < n assumed."""
        if isinstance(k, SInt) and len(self.segs) == 1 and isinstance(self.segs[0], list):
            xs = self.segs[0]
            if len(xs) <= 12 and all(_mergeable(x) for x in xs):
                r = xs[-1]
                for i in range(len(xs) - 2, -1, -1):
                    r = ite(k == i, xs[i], r)
                return r
            # one case per run of the same element
            for i, x in enumerate(xs[:-1]):
                if xs[i + 1] is not x and k <= i:
                    return x
            return xs[-1]
        pos = 0
        last = len(self.segs) - 1
        for j, s in enumerate(self.segs):
            end = pos + _n(s)
            if j == last or k < end:
                if isinstance(s, list):
                    i = k - pos
                    return Seq([s]).at(i) if isinstance(i, SInt) else s[int(i)]
                return s.at(k - pos)
            pos = end
        raise IndexError("index out of range")

    def conc(self, limit=64):
        out = []
        for s in self.segs:
            if isinstance(s, Lazy):
                if not isinstance(s.n, int):
                    raise Unsupported("whole-vector operation on a vector of symbolic length")
                if s.n > 100000:
                    raise Unsupported("vector too long")
                out.extend(s.at(i) for i in range(s.n))
            else:
                out.extend(s)
        return out

    def is_conc_len(self):
        return all(isinstance(_n(s), int) for s in self.segs)

    def map(self, f):
        out = []
        for s in self.segs:
            if isinstance(s, Lazy):
                out.append(Lazy(s.n, (lambda g: lambda i: f(g(i)))(s.at)))
            else:
                out.append([f(x) for x in s])
        return Seq(out)

    def zip(self, other, f):
        a, b = list(self.segs), list(other.segs)
        out = []
        while a and b:
            x, y = a[0], b[0]
            nx, ny = _n(x), _n(y)
            if nx == ny:
                n = nx
            elif nx < ny:
                n = nx
            else:
                n = ny
            px = x if (n is nx) else _cut(x, 0, n)
            py = y if (n is ny) else _cut(y, 0, n)
            if isinstance(px, list) and isinstance(py, list):
                out.append([f(u, v) for u, v in zip(px, py)])
            else:
                gx = px.at if isinstance(px, Lazy) else (lambda i, p=px: Seq([p]).at(i))
                gy = py.at if isinstance(py, Lazy) else (lambda i, p=py: Seq([p]).at(i))
                out.append(Lazy(n, (lambda g, h: lambda i: f(g(i), h(i)))(gx, gy)))
            if nx == n:
                a.pop(0)
            else:
                a[0] = _cut(x, n, nx - n)
            if ny == n:
                b.pop(0)
            else:
                b[0] = _cut(y, n, ny - n)
        return Seq(out)

    def cat(self, o):
        return Seq([*self.segs, *o.segs])


class Gather(Seq):
    """xs[mask] kept unevaluated while only element-wise operations are applied to it"""

    __slots__ = ("xs", "ms", "_f")

    def __init__(self, xs, ms):
        self.xs, self.ms, self._f = xs, ms, None

    @property
    def segs(self):
        if self._f is None:
            self._f = Seq.of([x for x, b in zip(self.xs, self.ms) if b])
        return self._f.segs

    def same(self, ms):
        return ms is self.ms or (len(ms) == len(self.ms) and all(_same(a, b) for a, b in zip(ms, self.ms)))

    def map(self, f):
        if self._f is None:
            try:
                return Gather([f(x) for x in self.xs], self.ms)
            except Unsupported:
                pass
        return Seq(self.segs).map(f)

    def zip(self, other, f):
        if self._f is None and isinstance(other, Gather) and other._f is None and self.same(other.ms):
            return Gather([f(x, y) for x, y in zip(self.xs, other.xs)], self.ms)
        return Seq(self.segs).zip(other, f)


def _same(a, b):
    if a is b:
        return True
    if is_sym(a) and is_sym(b):
        return a.t.eq(b.t)
    return not is_sym(a) and not is_sym(b) and a == b


def _mergeable(x):
    return is_sym(x) or isinstance(x, (int, float, bool))


def _clamp(v, n, dflt):
    if v is None:
        return dflt
    if v < 0:
        v = v + n
        if v < 0:
            return 0
        return v
    if v > n:
        return n
    return v
