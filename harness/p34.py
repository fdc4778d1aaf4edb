"""Unusable arguments and files."""
from sx.harness import Xml, el
from sx.runner import Harness

from . import books as B

TITLE = "Files and row windows that cannot be read are refused"


def book(ctx, binary, drop=(), extra=None):
    if binary:
        return B.xlsb(ctx, {"S": B.b_sheet(ctx, [[B.b_cell(ctx, B.CELL_RK, 0, 0, ctx.u4((7 << 2) | 2))]])}, drop=drop, parts=extra)
    return B.xlsx(ctx, {"S": B.x_sheet([[B.x_cell("A1", "7", s="2")]])}, drop=drop, parts=extra)


def formats(ctx):
    """each file goes to the reader of its own format; a file of neither is refused"""
    binary = ctx.p["binary"]
    has = ctx.flag("workbook")
    other = ctx.flag("other parts")
    f = book(ctx, binary, [] if has else ["xl/workbook.bin" if binary else "xl/workbook.xml"], {"xl/workbook.txt": b"", "docProps/workbook.xml": b"<a/>", "xl/workbook.bin.bak": b"", "xl/workbook.xml.bak": b""} if other else None)
    r = ctx.call(lambda: ctx.mod("rxls.reader").read(f, 0))
    if has:
        ctx.check(r.ok, "the file is read")
        names, types, items = ctx.table(r.value)
        ctx.check(len(items) == 1 and len(items[0]) == 1, "one cell")
        ctx.check(items[0][0] == 7, "its value")
        ctx.cover("read")
    else:
        ctx.check(not r.ok, "no workbook: an error")
        ctx.cover("refused")
    w = {True: ctx.mod("rxls.reader.xlsb").XlsbWorkbook, False: ctx.mod("rxls.reader.xlsx").XlsxWorkbook}

    def enter(m):
        with m(f):
            pass

    ctx.check(ctx.call(enter, w[binary]).ok == has, "a workbook opens exactly the files of its format")
    ctx.check(not ctx.call(enter, w[not binary]).ok, "a file of the other format is refused")


def windows(ctx):
    """negative and non-integer windows"""
    binary = ctx.p["binary"]
    f = book(ctx, binary)
    how = ctx.choice("argument", ["skip_rows", "take_rows"])
    kind = ctx.choice("value", ["int", "float", "text", "none"])
    v = ctx.int("n", -(2**40), 2**40) if kind == "int" else {"float": 1.5, "text": "1", "none": None}[kind]
    ok = kind == "int" and bool(v >= 0)
    if ctx.p["read"]:
        r = ctx.call(lambda: ctx.mod("rxls.reader").read(f, 0, **{how: v}))
    else:
        m = ctx.mod("rxls.reader.xlsb").XlsbWorkbook if binary else ctx.mod("rxls.reader.xlsx").XlsxWorkbook

        def go():
            with m(f) as wb:
                return list(wb.iter_worksheet(0, **{how: v}))

        r = ctx.call(go)
    if ok:
        ctx.check(r.ok, "a window of any size is read")
        ctx.cover("good")
    else:
        ctx.check(not r.ok and isinstance(r.exc, (ValueError, TypeError)), "a negative or non-integer window is refused")
        ctx.cover("bad")


def closed(ctx):
    """a workbook that is not open"""
    binary = ctx.p["binary"]
    m = ctx.mod("rxls.reader.xlsb").XlsbWorkbook if binary else ctx.mod("rxls.reader.xlsx").XlsxWorkbook
    wb = m(book(ctx, binary))
    what = ctx.choice("what", ["sheets", "shared", "styles", "cells"])
    r = ctx.call(lambda: list(wb.iter_worksheet(0)) if what == "cells" else getattr(wb, what))
    ctx.check(not r.ok and isinstance(r.exc, RuntimeError), "a workbook that is not open gives nothing")
    ctx.cover("closed")


BOTH = [dict(binary=b) for b in (True, False)]
HARNESSES = [
    Harness(formats, params=BOTH, covers=["read", "refused"], bounds="files with and without the workbook part of either format, with and without parts of similar names"),
    Harness(windows, params=[dict(binary=b, read=r) for b in (True, False) for r in (True, False)], covers=["good", "bad"], bounds="skip_rows and take_rows any integer of 40 bits, and three values that are no integers"),
    Harness(closed, params=BOTH, covers=["closed"], bounds="four uses of a workbook that is not open"),
]
