"""Failures while reading XLSB."""
from sx.runner import Harness

from . import books as B
from .p23 import FAILURES, F

TITLE = "A failure while reading XLSB surfaces"


def lines(ctx, rows, cols):
    """texts, some of them in the shared strings"""
    n = 0
    out, want, shared = [], [], []
    for r in range(rows):
        line = []
        for c in range(cols):
            t = ctx.chars(f"t{r}.{c}", 1, lo=0x41, hi=0x5A)
            if n % 2:
                line.append(B.b_cell(ctx, B.CELL_ISST, c, 0, ctx.u4(len(shared))))
                want.append((r, c, ctx.u4(len(shared))))
                shared.append(t)
            else:
                line.append(B.b_cell(ctx, B.CELL_ST if r else B.FMLA_STRING, c, 0, B.ref.wide(ctx, t)))
                want.append((r, c, t))
            n += 1
        out.append(line)
    return out, want, shared


def consume(ctx, f, **kw):
    def go():
        init = {k: kw.pop(k) for k in ("null_values",) if k in kw}
        with ctx.mod("rxls.reader.xlsb").XlsbWorkbook(f, **init) as wb:
            return [(c.row, c.col, c.val) for c in wb.iter_worksheet(0, **kw)]

    return ctx.call(go)


def fails(ctx):
    """a callback or predicate fails at any of its calls"""
    p = ctx.p
    ls, want, shared = lines(ctx, p["rows"], p["cols"])
    exc = ctx.choice("failure", p["failures"])
    who = ctx.choice("who", ["callback", "predicate"])
    at = ctx.int("call", 0, p["rows"] * p["cols"] + p["rows"] + 2)
    n = [0]
    failed = [False]

    def hook(*a):
        n[0] += 1
        if n[0] - 1 == at:
            failed[0] = True
            raise FAILURES[exc]()
        return False

    f = B.xlsb(ctx, {"S": B.b_sheet(ctx, ls)}, shared=B.b_shared(ctx, shared))
    kw = {"row_callback": hook} if who == "callback" else {"null_values": hook}
    if p.get("read"):
        r = ctx.call(lambda: ctx.mod("rxls.reader").read(f, 0, **kw))
    else:
        r = consume(ctx, f, **kw)
    if failed[0]:
        ctx.check(not r.ok, "a failing " + who + " is an error")
        ctx.cover(who)
    else:
        ctx.check(r.ok, "no failure, no error")
        if not p.get("read"):
            ctx.check(r.value == want, "all cells")
        ctx.cover("none")


def missing(ctx):
    """a part of the workbook is missing, or a cell record is too short for its column"""
    ls, want, shared = lines(ctx, 2, 1)
    what = ctx.choice("what", ["xl/_rels/workbook.bin.rels", "xl/worksheets/sheet1.bin", "short", "nothing"])
    parts = {}
    if what == "short":
        k = ctx.int("size", 0, 3)
        j = ctx.choice("size of the cell", [0, 1, 2, 3])
        ctx.assume(k == j)
        ls[1][0] = B.ref.rec(ctx, ctx.choice("kind", [B.CELL_RK, B.CELL_REAL, B.CELL_BOOL, B.CELL_ST, B.CELL_ISST, B.FMLA_STRING, B.FMLA_NUM, B.FMLA_BOOL]), ctx.bytes("cell", j))
    f = B.xlsb(ctx, {"S": B.b_sheet(ctx, ls)}, shared=B.b_shared(ctx, shared), drop=[what])
    r = consume(ctx, f)
    if what == "nothing":
        ctx.check(r.ok and len(r.value) == len(want), "the whole sheet")
        ctx.cover("read")
    else:
        ctx.check(not r.ok, "a missing part or a broken cell is an error")
        ctx.cover("error")


HARNESSES = [
    Harness(fails, params=[dict(rows=2, cols=2, failures=F), dict(rows=2, cols=1, failures=["runtime", "stop", "exit"], read=True)], thorough=[dict(rows=3, cols=3, failures=F), dict(rows=2, cols=2, failures=F, read=True)], covers=["callback", "predicate", "none"], bounds="sheets of 2 (thorough 3) rows with 1-2 (3) cells; row callback or null-value predicate failing at any one call with 9 kinds of exceptions", replay_s=20),
    Harness(missing, params=[{}], covers=["error", "read"], bounds="two parts missing one at a time; cell records of 0-3 arbitrary bytes"),
]
