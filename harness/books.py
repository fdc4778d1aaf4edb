"""Workbook files built from the format descriptions ([MS-XLSB], ECMA-376), independent of the code under test."""
from sx.harness import Xml, el

from . import ref

REL = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"


# ------------------------------------------------------------------------------------------- XLSB
ROW_HDR, CELL_BLANK, CELL_RK, CELL_ERROR, CELL_BOOL, CELL_REAL, CELL_ST, CELL_ISST, FMLA_STRING, FMLA_NUM, FMLA_BOOL, FMLA_ERROR = range(12)
SST_ITEM, FMT, XF, BEGIN_CELL_XFS, END_CELL_XFS = 19, 44, 47, 617 + 0x80 * 0, 618
BUNDLE_SH, END_SHEET_DATA, BEGIN_SHEET_DATA = 412, 402, 401


def b_row(ctx, i=0):
    """BrtRowHdr: row, style, height, flags, no column spans"""
    return ref.rec(ctx, ROW_HDR, ctx.join(ctx.u4(i), b"\0" * 4, b"\x2c\x01", b"\0\0\0", b"\0\0\0\0"))


def b_cell(ctx, kind, col, style, payload):
    """cell record: column, 24-bit style and 8 bits of flags, value"""
    return ref.rec(ctx, kind, ctx.join(ctx.u4(col), ctx.u4(style), payload))


def b_sheet(ctx, rows, end=True):
    """rows: lists of cell records"""
    out = [ref.rec(ctx, BEGIN_SHEET_DATA)]
    for i, cells in enumerate(rows):
        out += [b_row(ctx, i), *cells]
    if end:
        out.append(ref.rec(ctx, END_SHEET_DATA))
    return ctx.join(*out)


def b_shared(ctx, items):
    return ctx.join(*[ref.rec(ctx, SST_ITEM, ctx.join(b"\0", ref.wide(ctx, s))) for s in items], b"")


def b_styles(ctx, fmt_ids, fmts=(), parents=None, rest=b"\0" * 12):
    """fmts: (id, code); fmt_ids: format of each cell format, in order; parents: their named styles"""
    out = [ref.rec(ctx, FMT, ctx.join(ctx.u2(i), ref.wide(ctx, c))) for i, c in fmts]
    out.append(xf(ctx, 0xFFFF, 0))
    out += [xf(ctx, parents[i] if parents else 0, f, rest) for i, f in enumerate(fmt_ids)]
    return ctx.join(*out)


def xf(ctx, parent, fmt, rest=b"\0" * 12):
    """BrtXF: parent, number format, font, fill, border, rotation, indent, flags"""
    return ref.rec(ctx, XF, ctx.join(ctx.u2(parent), ctx.u2(fmt), rest))


def b_bundle(ctx, rid, name, state=0, tab=1):
    return ref.rec(ctx, BUNDLE_SH, ctx.join(ctx.u4(state), ctx.u4(tab), ref.wide(ctx, rid), ref.wide(ctx, name)))


def rels(items):
    """items: (id, type, target)"""
    return Xml(el("Relationships", {"xmlns": "http://schemas.openxmlformats.org/package/2006/relationships"}, *[el("Relationship", {"Id": i, "Type": REL + t, "Target": g}) for i, t, g in items]))


def xlsb(ctx, sheets=None, *, shared=None, styles=None, bundle=None, relations=None, parts=None, drop=()):
    """sheets: {name: part content}; parts of a workbook file"""
    sheets = sheets or {}
    names = list(sheets)
    out = {
        "[Content_Types].xml": b"<Types/>",
        "xl/workbook.bin": bundle if bundle is not None else ctx.join(*[b_bundle(ctx, f"rId{i + 1}", n) for i, n in enumerate(names)], b""),
        "xl/_rels/workbook.bin.rels": rels(relations if relations is not None else [(f"rId{i + 1}", "worksheet", f"worksheets/sheet{i + 1}.bin") for i in range(len(names))]),
        "xl/styles.bin": styles if styles is not None else b_styles(ctx, [0, 14]),
    }
    if shared is not None:
        out["xl/sharedStrings.bin"] = shared
    for i, n in enumerate(names):
        out[f"xl/worksheets/sheet{i + 1}.bin"] = sheets[n]
    out.update(parts or {})
    out = {k: v for k, v in out.items() if k not in drop}
    return ctx.zip(out)


# ------------------------------------------------------------------------------------------- XLSX
def letters(col):
    s = ""
    col += 1
    while col:
        col, r = divmod(col - 1, 26)
        s = chr(65 + r) + s
    return s


def x_cell(ref_, value=None, t=None, s=None, f=None):
    """<c>: value is a list of texts (delivered apart) or None"""
    at = {"r": ref_}
    if s is not None:
        at["s"] = s
    if t is not None:
        at["t"] = t
    kids = []
    if f is not None:
        kids.append(el("f", None, f))
    if value is not None:
        kids.append(el("v", None, *(value if isinstance(value, (list, tuple)) else [value])))
    return el("c", at, *kids)


def x_inline(ref_, *runs, s=None):
    at = {"r": ref_, "t": "inlineStr"}
    if s is not None:
        at["s"] = s
    return el("c", at, el("is", None, *runs))


def x_t(*texts):
    return el("t", None, *texts)


def x_sheet(rows, tail=()):
    """rows: lists of cell events"""
    return Xml(el("worksheet", None, el("dimension", {"ref": "A1"}), el("sheetData", None, *[el("row", {"r": str(i + 1)}, *cells) for i, cells in enumerate(rows)]), *tail))


def x_styles(fmt_ids, fmts=(), attrs=lambda i: {"xfId": "0"}):
    """attrs: other attributes of each cell format; a format may be None (no attribute)"""
    return Xml(
        el(
            "styleSheet",
            None,
            el("numFmts", None, *[el("numFmt", {"numFmtId": i, "formatCode": c}) for i, c in fmts]),
            el("cellStyleXfs", None, el("xf", {"numFmtId": "0"})),
            el("cellXfs", None, *[el("xf", {**({} if f is None else {"numFmtId": f}), **attrs(i)}) for i, f in enumerate(fmt_ids)]),
        )
    )


def x_shared(items):
    """items: event lists inside <si>, or texts"""
    return Xml(el("sst", None, *[el("si", None, i if isinstance(i, list) else x_t(i)) for i in items]))


def x_workbook(sheets):
    """sheets: (name, relationship id)"""
    return Xml(el("workbook", None, el("sheets", None, *[el("sheet", {"name": n, "sheetId": str(i + 1), "r:id": r}) for i, (n, r) in enumerate(sheets)])))


def xlsx(ctx, sheets=None, *, shared=None, styles=None, workbook=None, relations=None, parts=None, drop=()):
    sheets = sheets or {}
    names = list(sheets)
    out = {
        "[Content_Types].xml": b"<Types/>",
        "xl/workbook.xml": workbook or x_workbook([(n, f"rId{i + 1}") for i, n in enumerate(names)]),
        "xl/_rels/workbook.xml.rels": rels(relations if relations is not None else [(f"rId{i + 1}", "worksheet", f"worksheets/sheet{i + 1}.xml") for i in range(len(names))]),
        "xl/styles.xml": styles or x_styles(["0", "14", "1"]),
    }
    if shared is not None:
        out["xl/sharedStrings.xml"] = shared
    for i, n in enumerate(names):
        out[f"xl/worksheets/sheet{i + 1}.xml"] = sheets[n]
    out.update(parts or {})
    out = {k: v for k, v in out.items() if k not in drop}
    return ctx.zip(out)
