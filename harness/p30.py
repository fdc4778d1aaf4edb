"""Reads after and beside other reads."""
from sx.runner import Harness

from . import books as B
from . import ref

TITLE = "Reads do not influence each other"

# per book: number formats of the cell formats, own formats, null texts
BOOKS = [
    dict(fmts=["0", "14", "164"], own=[("164", "yyyy")], nulls=None),
    dict(fmts=["14", "2", "164"], own=[("164", "0.00")], nulls=["p0"]),
]


class Book:
    """a workbook of two sheets with a table of two shared texts; the values of its cells are arbitrary"""

    def __init__(self, ctx, binary, i, rows=2, free=True):
        self.binary, self.spec = binary, BOOKS[i]
        sp = self.spec
        n = f"b{i}."
        self.shared = ["p0" if i else "q0", ctx.cat("s", ctx.chars(n + "sh1", 1, lo=0x41, hi=0x5A))]
        self.sheets = []
        parts = {}
        for s in range(2):
            lines, cells = [], []
            for r in range(rows):
                line, out = [], []
                at = lambda c: f"{B.letters(c)}{r + 1}"
                k = n + f"{s}.{r}"
                # a shared text, a text, a number of any style
                one = free and s == r == i == 0
                j = ctx.choice(k + ".i", [0, 1]) if one else r
                t = ctx.chars(k + ".t", 1, lo=0x41, hi=0x5A)
                st = ctx.choice(k + ".st", [0, 1, 2]) if one else (r + i) % 3
                if binary:
                    x = ctx.u(k, 20, 61)
                    line = [B.b_cell(ctx, B.CELL_ISST, 0, 0, ctx.u4(j)), B.b_cell(ctx, B.CELL_ST, 1, 0, ref.wide(ctx, t)), B.b_cell(ctx, B.CELL_RK, 2, st, ctx.u4((x << 2) | 2))]
                else:
                    line = [B.x_cell(at(0), str(j), t="s"), B.x_cell(at(1), t, t="str"), B.x_cell(at(2), "61", s=str(st))]
                date = sp["fmts"][st] == "14" or (sp["fmts"][st] == "164" and sp["own"][0][1] == "yyyy")
                numeric = sp["fmts"][st] in ("1", "2") or (sp["fmts"][st] == "164" and sp["own"][0][1] == "0.00")
                if not (sp["nulls"] and self.shared[j] in sp["nulls"]):
                    out.append((r, 0, 0x11, ctx.u4(j) if binary else str(j).encode()))
                out.append((r, 1, 0x18, t if binary else t.encode("ascii")))
                out.append((r, 2, (0x21 | (4 if date else 0)) if binary else 0x24 if date else 0x20 if numeric else 0x18, ctx.u4((x << 2) | 2) if binary else b"61"))
                lines.append(line)
                cells += out
            parts[f"S{s}"] = B.b_sheet(ctx, lines) if binary else B.x_sheet(lines)
            self.sheets.append(cells)
        if binary:
            self.file = B.xlsb(ctx, parts, shared=B.b_shared(ctx, self.shared), styles=B.b_styles(ctx, [int(f) for f in sp["fmts"]], fmts=[(int(a), b) for a, b in sp["own"]]))
        else:
            self.file = B.xlsx(ctx, parts, shared=B.x_shared(self.shared), styles=B.x_styles(sp["fmts"], sp["own"]))

    def open(self, ctx):
        m = ctx.mod("rxls.reader.xlsb").XlsbWorkbook if self.binary else ctx.mod("rxls.reader.xlsx").XlsxWorkbook
        return m(self.file, null_values=self.spec["nulls"])


def same(ctx, got, want, msg):
    ctx.check(len(got) == len(want), msg)
    for g, w in zip(got, want):
        ctx.check(ctx.all(g.row == w[0], g.col == w[1], g.xdt == w[2], g.val == w[3]), msg)


def workbooks(ctx):
    """two workbooks open at the same time, their sheets read in any order, whole or in part"""
    p = ctx.p
    books = [Book(ctx, b, i) for i, b in enumerate(p["books"])]
    with books[0].open(ctx) as a, books[1].open(ctx) as b:
        for j in range(p["reads"]):
            k = ctx.choice(f"read{j}", p["choices"])
            w, s = divmod(k, 2)
            wb, bk = (a, b)[w], books[w]
            part = ctx.flag(f"part{j}") if p.get("parts") else False
            if part:
                it = iter(wb.iter_worksheet(s))
                got = [next(it)]
                it.close()
                same(ctx, got, bk.sheets[s][:1], "the first cell of that sheet")
                ctx.cover("part")
            else:
                same(ctx, list(wb.iter_worksheet(s if j % 2 else f"S{s}")), bk.sheets[s], "the cells of that sheet of that workbook")
            if p.get("shared"):
                t = wb.shared
                want = [None if bk.spec["nulls"] and x in bk.spec["nulls"] and not bk.binary else x for x in bk.shared]
                ctx.check(ctx.all([ctx.same(x, y) for x, y in zip(ctx.items(t), want)] + [ctx.alen(t) == 2]), "the shared texts of that workbook")
    ctx.cover("read")


def interleaved(ctx):
    """two sheets of one or two workbooks read at the same time, cell by cell in any order"""
    p = ctx.p
    books = [Book(ctx, p["binary"], i, p["rows"]) for i in range(1 if p["one"] else 2)]
    from contextlib import ExitStack

    with ExitStack() as st:
        wbs = [st.enter_context(b.open(ctx)) for b in books]
        its = [(iter(wbs[0].iter_worksheet(0)), books[0].sheets[0]), (iter(wbs[-1].iter_worksheet(1, skip_rows=p["skip"])), [(r - p["skip"], c, x, v) for r, c, x, v in books[-1].sheets[1] if r >= p["skip"]])]
        got = [[], []]
        done = [False, False]
        j = 0
        while not all(done):
            k = 0 if done[1] else 1 if done[0] else int(ctx.flag(f"turn{j}"))
            j += 1
            try:
                got[k].append(next(its[k][0]))
            except StopIteration:
                done[k] = True
        for g, (_, w) in zip(got, its):
            same(ctx, g, w, "the cells of each sheet")
    ctx.cover("read")


def tables(ctx):
    """whole reads one after the other, with their own options"""
    p = ctx.p
    books = [Book(ctx, b, i, free=b) for i, b in enumerate(p["books"])]
    read = ctx.mod("rxls.reader").read
    opts = [dict(), dict(null_values=["q0"], skip_cols=[2]), dict(conflict_resolve="all", null_values=lambda s: s == "p0", skip_rows=1)]
    first = {}
    for j in range(p["reads"]):
        b = ctx.choice(f"book{j}", [0, 1])
        o = ctx.choice(f"opts{j}", p["opts"])
        r = ctx.table(read(books[b].file, 0, 0, **opts[o]))
        # the same read earlier, or in a fresh state
        key = (b, o)
        if key not in first:
            first[key] = ctx.table(ctx.fresh("rxls.reader").read(books[b].file, 0, 0, **opts[o]))
        names, types, items = first[key]
        ctx.check(list(r[0]) == list(names), "the names of a read by itself")
        ctx.check(len(r[1]) == len(types) and all(a.equals(b) for a, b in zip(r[1], types)), "the types of a read by itself")
        for c, d in zip(r[2], items):
            ctx.check(len(c) == len(d) and ctx.all([ctx.same(x, y) for x, y in zip(c, d)]), "the values of a read by itself")
    ctx.cover("read")


ALL = [0, 1, 2, 3]
HARNESSES = [
    Harness(
        workbooks,
        params=[dict(books=[b, b], reads=2, choices=c, parts=True, shared=True) for b, c in ((True, ALL), (False, [0, 3]))] + [dict(books=[True, True], reads=3, choices=ALL), dict(books=[False, False], reads=2, choices=[0, 1])] + [dict(books=[True, False], reads=2, choices=[0, 2])],
        thorough=[dict(books=[b, b], reads=3, choices=ALL, parts=True, shared=True) for b in (True, False)] + [dict(books=[b, not b], reads=3, choices=ALL) for b in (True, False)],
        covers=["read", "part"],
        bounds="two open workbooks of the same or different formats with two sheets of 2x3 cells each, different styles, null values and shared texts, any values (XLSX: texts); up to 3 reads of any of their sheets in any order, whole or stopped after a cell",
    ),
    Harness(interleaved, params=[dict(binary=True, one=o, skip=0, rows=1) for o in (True, False)], thorough=[dict(binary=True, one=o, skip=s, rows=2) for o in (True, False) for s in (0, 1)], covers=["read"], bounds="two XLSB sheets of one or two workbooks of 1x3 (thorough 2x3) cells read together in every order of their cells"),
    Harness(tables, params=[dict(books=[b, b], reads=2, opts=o) for b, o in ((True, [0, 1]), (True, [1, 2]), (False, [1, 2]))], thorough=[dict(books=[b, b], reads=3, opts=[0, 1, 2]) for b in (True, False)] + [dict(books=[True, False], reads=3, opts=[0, 2])], covers=["read"], bounds="2 (thorough 3) whole reads of two workbooks with two (thorough three) sets of options in any order, against the same read in a fresh interpreter state"),
]
