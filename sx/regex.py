"""A backtracking matcher for Python regular expressions over strings of symbolic characters.

Each character test is a condition on the character term; the matcher forks on it.  Only the
operations found in the compiled pattern's parse tree are interpreted (sre_parse).
"""
from __future__ import annotations

import re as _re
from re import _constants as C
from re import _parser as P

from .core import Unsupported, eng
from .values import and_all, chars, is_space, mkstr, not_, or_all


def _in(lo, hi, x):
    if isinstance(x, int):
        return lo <= x <= hi
    return and_all([x >= lo, x <= hi])


def _word(x):
    if isinstance(x, int):
        return chr(x).isalnum() or x == 95
    if bool(x >= 128):
        raise Unsupported("\\w of a symbolic non-ASCII character")
    return or_all([_in(48, 57, x), _in(65, 90, x), _in(97, 122, x), x == 95])


def _digit(x):
    if isinstance(x, int):
        return chr(x).isdecimal()
    if bool(x >= 128):
        raise Unsupported("\\d of a symbolic non-ASCII character")
    return _in(48, 57, x)


_CAT = {
    C.CATEGORY_DIGIT: _digit,
    C.CATEGORY_NOT_DIGIT: lambda x: not_(_digit(x)),
    C.CATEGORY_SPACE: is_space,
    C.CATEGORY_NOT_SPACE: lambda x: not_(is_space(x)),
    C.CATEGORY_WORD: _word,
    C.CATEGORY_NOT_WORD: lambda x: not_(_word(x)),
}


class SymMatch:
    def __init__(self, s, span, groups, names):
        self.string, self._span, self._g, self._names = s, span, groups, names

    def __bool__(self):
        return True

    def _ix(self, g):
        return self._names[g] if isinstance(g, str) else g

    def span(self, g=0):
        g = self._ix(g)
        return self._span if g == 0 else self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        def one(g):
            a, b = self.span(g)
            return None if a < 0 else self.string[a:b]

        if not gs:
            return one(0)
        return one(gs[0]) if len(gs) == 1 else tuple(one(g) for g in gs)

    __getitem__ = group


class SymRegex:
    def __init__(self, compiled: _re.Pattern):
        self.tree = P.parse(compiled.pattern, compiled.flags & ~_re.UNICODE if isinstance(compiled.pattern, str) else compiled.flags)
        self.flags = compiled.flags
        self.names = dict(compiled.groupindex)
        if self.flags & _re.LOCALE:
            raise Unsupported("locale regex")

    # ---- character predicates
    def _lit(self, v, x, flags):
        if flags & _re.IGNORECASE and v < 128 and chr(v).isalpha():
            return or_all([x == ord(chr(v).lower()), x == ord(chr(v).upper())]) if not isinstance(x, int) else chr(x).lower() == chr(v).lower()
        return x == v

    def _set(self, items, x, flags):
        neg = False
        conds = []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                conds.append(self._lit(av, x, flags))
            elif op is C.RANGE:
                lo, hi = av
                conds.append(_in(lo, hi, x))
                if flags & _re.IGNORECASE:
                    for a, b, d in ((65, 90, 32), (97, 122, -32)):
                        l2, h2 = max(lo, a), min(hi, b)
                        if l2 <= h2:
                            conds.append(_in(l2 + d, h2 + d, x))
            elif op is C.CATEGORY:
                conds.append(_CAT[av](x))
            else:
                raise Unsupported(f"regex set {op}")
        r = or_all(conds) if conds else False
        return not_(r) if neg else r

    # ---- matcher: continuation passing; `k(pos, groups)` returns a result or None
    def _m(self, seq, i, s, pos, g, flags, k):
        eng().tick()
        if i == len(seq):
            return k(pos, g)
        op, av = seq[i]

        def nxt(p, gg):
            return self._m(seq, i + 1, s, p, gg, flags, k)

        if op is C.LITERAL:
            return nxt(pos + 1, g) if pos < len(s) and self._lit(av, s[pos], flags) else None
        if op is C.NOT_LITERAL:
            return nxt(pos + 1, g) if pos < len(s) and not_(self._lit(av, s[pos], flags)) else None
        if op is C.ANY:
            if pos < len(s) and (flags & _re.DOTALL or s[pos] != 10):
                return nxt(pos + 1, g)
            return None
        if op is C.IN:
            return nxt(pos + 1, g) if pos < len(s) and self._set(av, s[pos], flags) else None
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                if pos == 0 or (av is C.AT_BEGINNING and flags & _re.MULTILINE and s[pos - 1] == 10):
                    return nxt(pos, g)
                return None
            if av is C.AT_END_STRING:
                return nxt(pos, g) if pos == len(s) else None
            if av is C.AT_END:
                if pos == len(s) or (pos == len(s) - 1 and s[pos] == 10) or (flags & _re.MULTILINE and s[pos] == 10):
                    return nxt(pos, g)
                return None
            if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = pos > 0 and bool(_word(s[pos - 1]))
                b = pos < len(s) and bool(_word(s[pos]))
                return nxt(pos, g) if (a != b) == (av is C.AT_BOUNDARY) else None
            raise Unsupported(f"regex at {av}")
        if op is C.BRANCH:
            for alt in av[1]:
                r = self._m(list(alt), 0, s, pos, g, flags, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            grp, add, dele, p = av
            f2 = (flags | add) & ~dele

            def close(p2, gg):
                if grp is not None:
                    gg = dict(gg)
                    gg[grp] = (pos, p2)
                return nxt(p2, gg)

            return self._m(list(p), 0, s, pos, g, f2, close)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            greedy = op is C.MAX_REPEAT

            def rep(n, pos, g):
                def again():
                    if hi is not C.MAXREPEAT and n >= hi:
                        return None

                    def more(p2, gg):
                        if p2 == pos and n >= lo:
                            return None
                        return rep(n + 1, p2, gg)

                    return self._m(p, 0, s, pos, g, flags, more)

                if n < lo:
                    return again()
                if greedy:
                    r = again()
                    return r if r is not None else nxt(pos, g)
                r = nxt(pos, g)
                return r if r is not None else again()

            return rep(0, pos, g)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            p = list(p)
            if direction >= 0:
                r = self._m(p, 0, s, pos, g, flags, lambda p2, gg: (p2, gg))
            else:
                w = P.SubPattern(self.tree.state, p).getwidth()
                if w[0] != w[1]:
                    raise Unsupported("variable look-behind")
                st = pos - w[0]
                r = None
                if st >= 0:
                    r = self._m(p, 0, s, st, g, flags, lambda p2, gg: (p2, gg) if p2 == pos else None)
            if op is C.ASSERT:
                return nxt(pos, r[1]) if r is not None else None
            return nxt(pos, g) if r is None else None
        if op is C.GROUPREF:
            a, b = g.get(av, (-1, -1))
            if a < 0 or pos + (b - a) > len(s):
                return None
            return nxt(pos + b - a, g) if and_all([x == y for x, y in zip(s[a:b], s[pos : pos + b - a])]) else None
        raise Unsupported(f"regex op {op}")

    def _at(self, st, s, pos, full=False, empty_ok=True):
        cs = chars(st)

        def fin(p, g):
            if full and p != len(cs):
                return None
            if not empty_ok and p == pos:
                return None
            return (p, g)

        r = self._m(list(self.tree), 0, cs, pos, {}, self.flags, fin)
        return None if r is None else SymMatch(st, (pos, r[0]), r[1], self.names)

    def match(self, s, pos=0, *_):
        return self._at(s, None, pos)

    def fullmatch(self, s, *_):
        return self._at(s, None, 0, full=True)

    def search(self, s, pos=0, *_):
        for i in range(pos, len(s) + 1):
            m = self._at(s, None, i)
            if m is not None:
                return m
        return None

    def finditer(self, s, *_):
        i = 0
        last_empty_ok = True
        while i <= len(s):
            m = self._at(s, None, i, empty_ok=last_empty_ok)
            if m is None:
                i += 1
                last_empty_ok = True
                continue
            yield m
            a, b = m.span()
            i = b
            last_empty_ok = False if b == a or True else True

    def findall(self, s, *_):
        out = []
        for m in self.finditer(s):
            n = self.tree.state.groups - 1
            out.append(m.group() if n == 0 else m.group(1) if n == 1 else tuple(m.group(k) for k in range(1, n + 1)))
        return out

    def sub(self, repl, s, count=0):
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            a, b = m.span()
            out += list(chars(s)[last:a])
            if callable(repl):
                out += list(chars(repl(m)))
            elif isinstance(repl, str) and "\\" in repl:
                raise Unsupported("regex replacement template")
            else:
                out += list(chars(repl))
            last = b
            n += 1
        out += list(chars(s)[last:])
        return mkstr(out)

    def split(self, s, maxsplit=0):
        if self.tree.state.groups > 1:
            raise Unsupported("regex split with groups")
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.span()
            out.append(s[last:a])
            last = b
            n += 1
        out.append(s[last:])
        return out
