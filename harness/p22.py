"""Selection of a sheet."""
from sx.harness import Xml, el
from sx.runner import Harness

from . import books as B

TITLE = "A sheet is selected by its name or position in the workbook"

KINDS = ["worksheet", "chartsheet", "dialogsheet"]
FORMS = {"rel": "worksheets/{}", "abs": "/xl/worksheets/{}"}


def select(ctx):
    binary = ctx.p["binary"]
    kinds = ctx.p["kinds"]  # of the sheets in workbook order
    n = len(kinds)
    ext = "bin" if binary else "xml"
    names = [ctx.chars(f"name{i}", ctx.p.get("chars", 1), lo=ctx.p.get("lo", 0x41), hi=ctx.p.get("hi", 0x5A)) for i in range(n)]
    ids = [ctx.cat("rId", ctx.chars(f"id{i}", 1, lo=0x30, hi=0x39)) for i in range(n)]
    for a in range(n):
        for b in range(a):
            ctx.assume(ctx.not_(names[a] == names[b]))
            ctx.assume(ctx.not_(ids[a] == ids[b]))
    files = [f"s{i}.{ext}" for i in range(n)]
    form = [ctx.choice(f"form{i}", list(FORMS)) if i == 0 else "rel" for i in range(n)]
    rel = [(ids[i], kinds[i], FORMS[form[i]].format(files[i])) for i in range(n)]
    # further relationships, in any place
    rel = [("rIdS", "styles", f"styles.{ext}")] + rel + [("rIdT", "theme", "theme/theme1.xml"), ("rIdW", "sharedStrings", f"sharedStrings.{ext}")]
    order = ctx.choice("order", ["same", "reversed", "rotated"])
    rel = rel[::-1] if order == "reversed" else rel[2:] + rel[:2] if order == "rotated" else rel
    parts = {}
    for i, fn in enumerate(files):
        if kinds[i] == "worksheet":
            # each worksheet has its own content
            parts[f"xl/worksheets/{fn}"] = B.b_sheet(ctx, [[B.b_cell(ctx, B.CELL_RK, i, 0, ctx.u4((i << 2) | 2))]]) if binary else B.x_sheet([[B.x_cell(f"{B.letters(i)}1", f"text{i}", t="str")]])
        else:
            parts[f"xl/worksheets/{fn}"] = b"" if binary else Xml(el("chartsheet"))
    if binary:
        hs = [ctx.u(f"state{i}", 2, 0, 2) for i in range(n)]
        bundle = ctx.join(*[B.b_bundle(ctx, ids[i], names[i], state=hs[i], tab=n - i) for i in range(n)], b"")
        f = B.xlsb(ctx, bundle=bundle, relations=rel, parts=parts)
        m = ctx.mod("rxls.reader.xlsb").XlsbWorkbook
    else:
        f = B.xlsx(ctx, workbook=B.x_workbook(list(zip(names, ids))), relations=rel, parts=parts)
        m = ctx.mod("rxls.reader.xlsx").XlsxWorkbook
    how = ctx.choice("how", ["name", "position"])
    work = [i for i in range(n) if kinds[i] == "worksheet"]
    if how == "name":
        want = ctx.chars("sheet", ctx.p.get("chars", 1), lo=ctx.p.get("lo", 0x41), hi=ctx.p.get("hi", 0x5A))
        hit = next((i for i in range(n) if want == names[i]), None)
        if hit is not None and hit not in work:
            hit = None
    else:
        want = ctx.int("position", -3, 10)
        hit = next((w for k, w in enumerate(work) if want == k), None)

    def go():
        with m(f) as wb:
            return [(c.row, c.col, c.val) for c in wb.iter_worksheet(want)]

    r = ctx.call(go)
    if hit is None:
        ctx.check(not r.ok and isinstance(r.exc, LookupError), "no such worksheet: an error")
        ctx.cover("unknown")
    else:
        ctx.check(r.ok, "the sheet is read")
        ctx.check(r.value == [(0, hit, ((hit << 2) | 2).to_bytes(4, "little") if binary else f"text{hit}".encode())], "the content of that sheet")
        ctx.cover(how)


W, C, D = KINDS
SHAPES = [[W], [W, W], [W, C], [C, W], [W, C, W]]
HARNESSES = [
    Harness(select, params=[dict(binary=b, kinds=k) for b in (True, False) for k in SHAPES] + [dict(binary=b, kinds=[W, W], chars=2, lo=0x20, hi=0x7A) for b in (True, False)], thorough=[dict(binary=b, kinds=k, chars=c) for b in (True, False) for k in SHAPES + [[W, W, W], [D, W, C, W], [C, C, W]] for c in (1, 2)], covers=["name", "position", "unknown"], bounds="workbooks of 1-3 (thorough 4) sheets, worksheets and others, with any distinct names of one (thorough two) capital letters, or two characters from the space to 'z' (not & < >) and any distinct relationship ids; relationships in three orders, relative and absolute targets; any name and any position from -3 to 10"),
]
