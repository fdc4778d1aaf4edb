"""Failures while reading XLSX."""
from sx.harness import Xml, el
from sx.runner import Harness

from . import books as B

TITLE = "A failure while reading XLSX surfaces, and reading never hangs"

class Halt(BaseException):
    pass


FAILURES = {
    "runtime": lambda: RuntimeError("x"),
    "value": lambda: ValueError("bad"),
    "novalue": lambda: ValueError(),
    "closed": lambda: ValueError("read from closed file."),
    "attribute": lambda: AttributeError("'NoneType' object has no attribute 'tell'"),
    "key": lambda: KeyError("a"),
    "exit": lambda: GeneratorExit(),
    "stop": lambda: StopIteration(),
    "base": lambda: Halt(),
}


def lines(ctx, rows, cols):
    """texts, some of them in the shared strings"""
    n = 0
    out, want, shared = [], [], []
    for r in range(rows):
        line = []
        for c in range(cols):
            t = ctx.chars(f"t{r}.{c}", 1, lo=0x41, hi=0x5A)
            at = f"{B.letters(c)}{r + 1}"
            if n % 2:
                line.append(B.x_cell(at, str(len(shared)), t="s"))
                want.append((r, c, str(len(shared)).encode()))
                shared.append(t)
            else:
                line.append(B.x_cell(at, t, t="str"))
                want.append((r, c, t.encode("ascii")))
            n += 1
        out.append(line)
    return out, want, shared


def consume(ctx, f, **kw):
    def go():
        out = []
        init = {k: kw.pop(k) for k in ("null_values",) if k in kw}
        with ctx.mod("rxls.reader.xlsx").XlsxWorkbook(f, **init) as wb:
            for c in wb.iter_worksheet(0, **kw):
                out.append((c.row, c.col, c.val))
        return out

    return ctx.call(go)


def damaged(ctx):
    """the sheet breaks off or goes wrong at any point"""
    ctx.switches(ctx.p.get("switches", 0))
    ls, want, shared = lines(ctx, ctx.p["rows"], ctx.p["cols"])
    ev = B.x_sheet(ls).events
    k = ctx.choice("at", list(range(1, len(ev))))
    ev = ev[:k] + [("error",)] if ctx.flag("garbage") else ev[:k]
    f = B.xlsx(ctx, {"S": Xml(ev)}, shared=B.x_shared(shared))
    take = ctx.choice("take", ctx.p.get("take", [0]))
    r = consume(ctx, f, take_rows=take)
    # with a limit, reading may end before the damage
    rows = sum(1 for e in ev if e[:2] == ("end", "row"))
    if take and rows > take:
        ctx.check(r.ok, "rows before the damage are read")
        ctx.check(r.value == [w for w in want if w[0] <= take], "the rows before the damage")
        ctx.cover("before")
        return
    ctx.check(not r.ok, "a damaged sheet is an error")
    ctx.cover("error")


def fails(ctx):
    """a callback or predicate fails at any of its calls"""
    ctx.switches(ctx.p.get("switches", 0))
    ls, want, shared = lines(ctx, ctx.p["rows"], ctx.p["cols"])
    exc = ctx.choice("failure", ctx.p["failures"])
    who = ctx.choice("who", ["callback", "predicate"])
    at = ctx.int("call", 0, ctx.p["rows"] * ctx.p["cols"] + ctx.p["rows"] + 2)
    n = [0]
    failed = [False]

    def hook(*a):
        n[0] += 1
        if n[0] - 1 == at:
            failed[0] = True
            raise FAILURES[exc]()
        return False

    f = B.xlsx(ctx, {"S": B.x_sheet(ls)}, shared=B.x_shared(shared))
    if ctx.p.get("read"):
        r = ctx.call(lambda: ctx.mod("rxls.reader").read(f, 0, **({"row_callback": hook} if who == "callback" else {"null_values": hook})))
    else:
        r = consume(ctx, f, **({"row_callback": hook} if who == "callback" else {"null_values": hook}))
    if failed[0]:
        ctx.check(not r.ok, "a failing " + who + " is an error")
        ctx.cover(who)
    else:
        ctx.check(r.ok, "no failure, no error")
        if not ctx.p.get("read"):
            ctx.check(r.value == want, "all cells")
        ctx.cover("none")


def early(ctx):
    """iteration is stopped after some cells"""
    ctx.switches(ctx.p.get("switches", 0))
    ls, want, shared = lines(ctx, ctx.p["rows"], ctx.p["cols"])
    f = B.xlsx(ctx, {"S": B.x_sheet(ls)}, shared=B.x_shared(shared))
    k = ctx.choice("cells", list(range(len(want) + 1)))
    how = ctx.choice("how", ["close", "break", "drop"])

    def go():
        got = []
        with ctx.mod("rxls.reader.xlsx").XlsxWorkbook(f) as wb:
            it = iter(wb.iter_worksheet(0))
            for _ in range(k):
                c = next(it)
                got.append((c.row, c.col, c.val))
            if how == "close":
                it.close()
            elif how == "drop":
                del it
        return got

    r = ctx.call(go)
    ctx.check(r.ok, "stopping early is no error")
    ctx.check(r.value == want[:k], "the cells until then")
    ctx.check(ctx.drain(), "nothing runs on")
    ctx.cover("stopped")


F = list(FAILURES)
HARNESSES = [
    Harness(damaged, params=[dict(rows=2, cols=1, take=[0, 1], switches=1), dict(rows=1, cols=2, switches=2)], thorough=[dict(rows=3, cols=2, take=[0, 1, 2], switches=2), dict(rows=2, cols=4, switches=3)], covers=["error", "before"], bounds="sheets of 1-2 (thorough 3) rows with 1-2 (4) cells, cut off or garbled at every tag; with and without a row limit; schedules as below", replay_s=20),
    Harness(fails, params=[dict(rows=2, cols=2, failures=F), dict(rows=2, cols=2, failures=["runtime", "base"], switches=2), dict(rows=1, cols=1, failures=["runtime"], read=True, switches=1)], thorough=[dict(rows=3, cols=3, failures=F, switches=1), dict(rows=2, cols=2, failures=F, switches=4), dict(rows=2, cols=2, failures=F, read=True, switches=2)], covers=["callback", "predicate", "none"], bounds="sheets of 1-2 (thorough 3) rows with 1-2 (3) cells; row callback or null-value predicate failing at any one call with 9 kinds of exceptions; the background thread running first, cell by cell with the reader, or interrupted after any up to 2 (thorough 4) of its cells", replay_s=20),
    Harness(early, params=[dict(rows=2, cols=2, switches=2)], thorough=[dict(rows=3, cols=3, switches=2)], covers=["stopped"], bounds="iteration closed, left or dropped after any number of cells of a 2x2 (thorough 3x3) sheet", replay_s=20),
]
