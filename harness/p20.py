"""XLSX cell formats."""
from sx.harness import el
from sx.runner import Harness

from . import books as B
from .cells import NUMERIC, PREPARED, STRING, TEMPORAL
from .fmts import BUILTIN_DATES, BUILTIN_FIXED, TEMPLATES, THOROUGH, code, fill

TITLE = "XLSX cell styles are dates or numbers exactly by their number format"

TEXT = STRING | PREPARED


def types(ctx, fmt_ids, fmts, styles):
    """type bits of a cell of each style"""
    extra = ctx.p.get("extra")
    st = B.x_styles(fmt_ids, fmts)
    if extra:
        # other parts of the part, which are no cell formats
        st.events[-1:-1] = el("cellStyles", None, el("cellStyle", {"name": "Normal", "xfId": "0", "builtinId": "0"})) + el("dxfs", {"count": "1"}, el("dxf", None, el("font", None, el("b"))))
    line = [B.x_cell(f"{B.letters(j)}1", "7", s=s) for j, s in enumerate(styles)]
    f = B.xlsx(ctx, {"S": B.x_sheet([line])}, styles=st)
    with ctx.mod("rxls.reader.xlsx").XlsxWorkbook(f) as wb:
        got = [(c.col, c.xdt) for c in wb.iter_worksheet(0)]
    ctx.check([c for c, _ in got] == list(range(len(styles))), "every cell is read")
    return [t for _, t in got]


def custom(ctx):
    s = fill(ctx, "fmt", ctx.p["code"])
    k = code(ctx, s)
    if k is None:
        ctx.cover("malformed")
        return
    date, fixed, digit = k
    n = ctx.choice("position", [0, 2])
    ids = ["0"] * n + ["164", "2"]
    other = ctx.choice("other", ["0.0", "yyyy"])
    fmts = [("164", s), ("165", other)]
    if ctx.flag("order"):
        fmts.reverse()
    got = types(ctx, ids, fmts, [str(n), str(n + 1), None])
    judge(ctx, got[0], date, fixed, digit)
    ctx.check(got[1] == NUMERIC, "a number format beside it")
    ctx.check(got[2] == (TEXT if n else got[0]), "a cell without style has the first one")


def judge(ctx, t, date, fixed, digit):
    if date:
        ctx.check(t == (NUMERIC | TEMPORAL), "a date or time format is temporal")
        ctx.cover("date")
    else:
        ctx.check(ctx.not_(t == (NUMERIC | TEMPORAL)), "no other format is temporal")
        if fixed:
            ctx.check(t == NUMERIC, "a fixed-point format is numeric")
            ctx.cover("number")
        elif not digit:
            ctx.check(t == TEXT, "a format without digits is neither")
            ctx.cover("text")


def builtin(ctx):
    """any format id, in any place"""
    w = ctx.choice("width", [1, 2, 3])
    a = ctx.chars("id.a", 1, lo=0x30 if w == 1 else 0x31, hi=0x39)
    i = ctx.ord(a) - 48
    s = a
    if w > 1:
        b = ctx.chars("id.b", w - 1, lo=0x30, hi=0x39)
        for c in b:
            i = i * 10 + (ctx.ord(c) - 48)
        s = ctx.cat(a, b)
    n = ctx.choice("position", [0, 1, 11])
    ids = ["14" if j % 2 else "0" for j in range(n)] + [s, "0"]
    got = types(ctx, ids, [("163", "0.00"), ("999", "d")], [str(n), str(n + 1)])
    if ctx.any([i == k for k in BUILTIN_DATES]) or i == 999:
        ctx.check(got[0] == (NUMERIC | TEMPORAL), "a built-in date format is temporal")
        ctx.cover("date")
    elif ctx.any([i == k for k in BUILTIN_FIXED]) or i == 163:
        ctx.check(got[0] == NUMERIC, "a built-in number format is numeric")
        ctx.cover("number")
    else:
        ctx.check(ctx.not_(got[0] == (NUMERIC | TEMPORAL)), "no other format is temporal")
        if i == 0 or i == 49:
            ctx.check(got[0] == TEXT, "general and text formats are neither")
            ctx.cover("text")
    ctx.check(got[1] == TEXT, "the next style is itself")


def attributes(ctx):
    """every attribute of a cell format is optional; formats outside the list of cell formats do not count"""
    ids = [ctx.choice(f"id{j}", [None, "0", "14", "2"]) for j in range(ctx.p["formats"])]

    def attrs(j):
        a = {}
        if ctx.flag(f"xf{j}"):
            a["xfId"] = ctx.chars(f"xfId{j}", 1, lo=0x30, hi=0x39)
        return a

    st = B.x_styles(ids, [("164", "0.00")], attrs)
    i = next(k for k, e in enumerate(st.events) if e[1] == "cellStyleXfs") + 1
    st.events[i:i] = [e for f in ctx.p["before"] for e in el("xf", {"numFmtId": f})]
    line = [B.x_cell(f"{B.letters(j)}1", "7", s=str(j)) for j in range(len(ids))]
    f = B.xlsx(ctx, {"S": B.x_sheet([line])}, styles=st)
    with ctx.mod("rxls.reader.xlsx").XlsxWorkbook(f) as wb:
        got = [c.xdt for c in wb.iter_worksheet(0)]
    for i, t in zip(ids, got):
        ctx.check(t == {None: TEXT, "0": TEXT, "14": NUMERIC | TEMPORAL, "2": NUMERIC}[i], "each cell has its own format")
    ctx.check(len(got) == len(ids), "every cell is read")
    ctx.cover("missing" if None in ids else "given")


HARNESSES = [
    Harness(attributes, params=[dict(formats=2, before=b) for b in ([], ["14"], ["2", "14"])], thorough=[dict(formats=3, before=b) for b in ([], ["14", "2"])], covers=["missing", "given"], bounds="1-3 formats of named styles; 2 (thorough 3) cell formats, each with or without a number format (general, date or number) and a named style 0-9"),
    Harness(custom, params=[dict(code=t) for t in TEMPLATES], thorough=[dict(code=t, extra=True) for t in TEMPLATES + THOROUGH], covers=["date", "number", "text"], bounds="30 (thorough 42) forms of format codes with up to 3 (4) places each holding any printable ASCII character, well-formed codes only (closed quotes and brackets; elapsed time in lower case); 2-4 cell formats, custom formats in either order"),
    Harness(builtin, params=[dict()], thorough=[dict(), dict(extra=True)], covers=["date", "number", "text"], bounds="every format id below 1000, at positions 0, 1 and 11 of the cell formats"),
]
