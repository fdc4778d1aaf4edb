"""What a read leaves open."""
from pathlib import Path

from sx.runner import Harness

from . import books as B
from . import ref

TITLE = "A read closes what it opened, and nothing else"


class Fault(Exception):
    pass


def make(ctx, binary, rows, drop=()):
    """a sheet of texts (one in the shared strings) and a date"""
    shared = [ctx.cat("s", ctx.chars("sh", 1, lo=0x41, hi=0x5A))]
    lines = []
    for r in range(rows):
        t = ctx.chars(f"t{r}", 1, lo=0x41, hi=0x5A)
        at = [f"{B.letters(c)}{r + 1}" for c in range(3)]
        if binary:
            lines.append([B.b_cell(ctx, B.CELL_ST, 0, 0, ref.wide(ctx, t)), B.b_cell(ctx, B.CELL_ISST, 1, 0, ctx.u4(0)), B.b_cell(ctx, B.CELL_RK, 2, 1, ctx.u4((100 << 2) | 2))])
        else:
            lines.append([B.x_cell(at[0], t, t="str"), B.x_cell(at[1], "0", t="s"), B.x_cell(at[2], "100", s="1")])
    if binary:
        return B.xlsb(ctx, {"S": B.b_sheet(ctx, lines)}, shared=B.b_shared(ctx, shared), drop=drop)
    return B.xlsx(ctx, {"S": B.x_sheet(lines)}, shared=B.x_shared(shared), drop=drop)


WRONG = {
    "sheet": ("T", {}),
    "position": (3, {}),
    "window": (0, dict(skip_rows=-1)),
    "lookup": (0, dict(lookup_head="^none$")),
    "header": (0, dict(header=["a"])),
    "dtypes": (0, dict(dtypes=[])),
    "filters": (0, dict(row_filters=[0, "a"])),
}


def reads(ctx):
    """read(), with success and failures of every kind"""
    p = ctx.p
    binary = p["binary"]
    what = ctx.choice("what", ["fine", "callback", "predicate", "part", *WRONG])
    end = "bin" if binary else "xml"
    drop = [ctx.choice("part", [f"xl/workbook.{end}", f"xl/_rels/workbook.{end}.rels", f"xl/worksheets/sheet1.{end}"])] if what == "part" else ()
    f = make(ctx, binary, p["rows"], drop)
    how = ctx.choice("how", ["stream", "path", "Path"])
    arg = f if how == "stream" else ctx.saved(f)
    sheet, kw = WRONG.get(what, (0, {}))
    kw = dict(kw)
    header = kw.pop("header", 0)
    n = [0]
    at = ctx.int("call", 0, 2 * p["rows"] + 3)

    def hook(*_):
        n[0] += 1
        if n[0] - 1 == at:
            raise Fault
        return False

    if what in ("callback", "predicate"):
        kw["row_callback" if what == "callback" else "null_values"] = hook
    r = ctx.call(lambda: ctx.mod("rxls.reader").read(Path(arg) if how == "Path" else arg, sheet, header, **kw))
    failed = n[0] > at if what in ("callback", "predicate") else what != "fine"
    ctx.check(r.ok == (not failed), "an error exactly if something failed")
    if how == "stream":
        ctx.check(not f.closed, "the stream of the caller stays open")
        again = ctx.call(lambda: ctx.table(ctx.mod("rxls.reader").read(f, 0)))
        ctx.check(again.ok == (what != "part"), "it can be read again")
    else:
        ctx.check(not ctx.in_use(arg), "the file is closed")
    ctx.cover("error" if failed else "fine")


def books(ctx):
    """workbooks that are left with iterations at any point"""
    p = ctx.p
    binary = p["binary"]
    f = make(ctx, binary, p["rows"])
    how = ctx.choice("how", ["stream", "path"])
    arg = f if how == "stream" else ctx.saved(f)
    cls = ctx.mod("rxls.reader.xlsb").XlsbWorkbook if binary else ctx.mod("rxls.reader.xlsx").XlsxWorkbook
    k = ctx.choice("cells", [None, *range(3 * p["rows"] + 1)])
    late = ctx.flag("late")
    fail = ctx.flag("fail")

    def go():
        with cls(arg) as wb:
            if k is not None:
                it = wb.iter_worksheet(0)
                its.append(it)
                for _ in range(k):
                    next(it)
                if not late:
                    it.close()
            if fail:
                raise Fault

    its = []
    r = ctx.call(go)
    for it in its:
        it.close()
    ctx.check(r.ok if not fail else isinstance(r.exc, Fault), "an error only if the caller's own code failed, and that one")
    if how == "stream":
        ctx.check(not f.closed, "the stream of the caller stays open")
        with cls(f) as wb:
            ctx.check(len(list(wb.iter_worksheet(0))) == 3 * p["rows"], "it can be read again")
    else:
        ctx.check(not ctx.in_use(arg), "the file is closed")
    ctx.cover("left")


HARNESSES = [
    Harness(reads, params=[dict(binary=b, rows=2) for b in (True, False)], thorough=[dict(binary=b, rows=4) for b in (True, False)], covers=["fine", "error"], bounds="sheets of 2 (thorough 4) rows of 3 cells, any texts; files given as a stream, a path text or a Path; a row callback or null predicate that fails at any one call, any of three parts missing, seven kinds of wrong arguments; both formats"),
    Harness(books, params=[dict(binary=b, rows=2) for b in (True, False)], thorough=[dict(binary=b, rows=4) for b in (True, False)], covers=["left"], bounds="workbooks of such sheets, left after an iteration of any number of cells that is closed before or after, with and without an error; both formats"),
]
ASSUMPTIONS = ["a saved file counts as closed when its archive and every part opened from it are; replays look at the open file descriptors of the process"]
