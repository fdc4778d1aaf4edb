"""Columns of mixed types."""
import pyarrow as pa

from sx.runner import Harness

from .cells import BINARY, XML, b_datetext, b_numtext, cell, ms_of, series, BOOL, NUMERIC, PREPARED, SHARED, STRING, TEMPORAL

TITLE = "Mixed columns resolve as documented, all or nothing"

F8, MS, STR, I8 = pa.float64(), pa.timestamp("ms"), pa.large_string(), pa.int64()


def make(ctx, binary, k, name, env):
    """(xdt, cell value, group, text, number or ms)"""
    if k in ("num", "half"):
        x = ctx.int(name, 61, 2958465) + (0.5 if k == "half" else 0)
        if binary:
            return NUMERIC | PREPARED, ctx.f8bytes(x * 1.0), "n", None, x
        return NUMERIC, ctx.text(name + ".t", "number", num=x).encode("utf-8"), "n", None, x
    if k == "halftext":
        x = ctx.int(name, 61, 2958465) + 0.5
        t = ctx.text(name + ".t", "number", num=x)
        return STRING | PREPARED, t if binary else t.encode("utf-8"), "s", t, x
    if k == "numtext":
        t, x = b_numtext(ctx, name, env)
        return STRING | PREPARED, t if binary else t.encode("utf-8"), "s", t, x
    if k == "datetext":
        t, x = b_datetext(ctx, name, env)
        return STRING | PREPARED, t if binary else t.encode("utf-8"), "s", t, x
    kind = (BINARY if binary else XML)[k]
    if k == "bool":
        b = ctx.u(name, 8, 0, 1)
        return kind.xdt, ctx.bytes_of([b]), "n", None, ctx.asint(b)
    v, x = kind.make(ctx, name, env)
    return kind.xdt, v, kind.group, x if kind.group == "s" else None, x


def serial_ms(x):
    day = 86_400_000
    return x * day if x < 1 else (x - 25568) * day if x < 60 else (x - 25569) * day


def mixed(ctx):
    p = ctx.p
    binary = p["binary"]
    env = dict(shared=[ctx.text("sh0"), ctx.text("sh1")], fmt=p.get("fmt", "%Y-%m-%d"))
    s = series(ctx, binary, env["shared"], conflict_resolve=p["mode"], datetime_formats=(p["fmt"],) if "fmt" in p else None)
    runs = []  # [group, [(kind, text, value)]]
    out = []
    row = 0
    last = None
    for j, k in enumerate(p["cells"]):
        if k == "gap":
            row += 1
            last = None
            out.append(None)
            continue
        xdt, v, g, t, x = make(ctx, binary, k, f"v{j}", env)
        s.add(cell(ctx, row, xdt, v))
        if xdt != last:
            runs.append((g, []))
        runs[-1][1].append((k, t, x))
        out.append((g, k, t, x, len(runs) - 1))
        last = xdt
        row += 1
    off = p.get("offset", 0)
    if off:
        # a part of a run counts by itself
        keep = {}
        for o in out[off:]:
            if o:
                keep.setdefault(o[4], []).append((o[1], o[2], o[3]))
        runs = [(g, keep[i]) for i, (g, _) in enumerate(runs) if i in keep]
        out = out[off:]
        got = s.to_arrow(off, len(out))
    else:
        got = s.to_arrow()
    dt, num = p["mode"] in ("temporal", "all"), p["mode"] in ("numeric", "all")
    has = {g for g, _ in runs}
    only = lambda cells, k: all(c[0] == k for c in cells)
    numeric = lambda cells: all(c[0] in ("numtext", "halftext") for c in cells)
    text = False
    if "d" in has:
        typ = MS
        if len(has) > 1:
            text = not dt or not all(g != "s" or only(c, "datetext") or (num and numeric(c)) for g, c in runs)
    elif "n" in has:
        typ = F8
        if "s" in has:
            text = not num or not all(g != "s" or numeric(c) for g, c in runs)
    else:
        text = True
    if not text and typ is F8:
        whole = all(k not in ("half", "halftext") for g, c in runs for k, _, _ in c)
        typ = I8 if whole else F8
    ctx.check(ctx.typ(got).equals(STR if text else typ), "type of the column")
    ctx.cover("text" if text else str(typ))
    have = ctx.items(got)
    ctx.check(len(have) == len(out), "no cell is lost")
    for h, o in zip(have, out):
        if o is None:
            ctx.check(h is None, "an empty cell stays empty")
            continue
        g, k, t, x, _ = o
        ctx.check(h is not None, "no cell becomes empty")
        if text:
            want = t if g == "s" else ctx.as_text(x, MS) if g == "d" else ctx.as_text(x * 1.0, F8)
        elif typ is MS:
            want = x if g == "d" or k == "datetext" else serial_ms(x)
        else:
            want = x
        ctx.check(ctx.same(h, want), "the value of the cell")


MODES = ["no", "temporal", "numeric", "all"]
B = [["num", "text"], ["text", "num", "numtext"], ["numtext", "num", "text"], ["num", "numtext"], ["half", "numtext"], ["num", "halftext"], ["bool", "halftext", "gap", "numtext"], ["date", "halftext"], ["half", "num", "gap", "numtext"], ["date", "num"], ["rk", "date"],
     ["date", "text"], ["date", "datetext"], ["date", "numtext"], ["datetext", "date", "num", "text"], ["datetext", "date", "numtext", "gap", "num"], ["date", "datetext", "num", "text"],
     ["num", "datetext"], ["numtext", "rk", "shared"], ["rkdate", "shared"], ["date", "numtext", "datetext"], ["bool", "numtext"], ["date", "bool"], ["datetext", "gap", "text", "gap", "date"], ["numtext", "gap", "text", "num"],
     ["date", "numtext", "gap", "datetext"], ["rkdate", "gap", "datetext", "half", "numtext"]]
NOBOOL = lambda c: [k for k in c if k != "bool"] == c
X = [c for c in (["num", "text"], ["num", "halftext"], ["numtext", "halftext", "num"], ["text", "num", "numtext"], ["half", "numtext"], ["num", "gap", "numtext"], ["date", "num"], ["date", "datetext"], ["date", "numtext"], ["datetext", "date", "num", "text"], ["date", "shared"], ["num", "shared"], ["date", "half", "numtext", "gap", "datetext"])]
SL = [dict(binary=True, cells=["text", "num", "numtext"], offset=1), dict(binary=True, cells=["text", "numtext", "num"], offset=1), dict(binary=True, cells=["text", "datetext", "date"], offset=1), dict(binary=False, cells=["date", "num", "num"], offset=1)]


def ps(binary, shapes, **kw):
    return [dict(binary=binary, cells=c, mode=m, **kw) for c in shapes for m in MODES]


Q = ps(True, B) + ps(False, X) + [dict(p, mode=m) for p in SL for m in MODES] + [dict(binary=True, cells=["date", "datetext"], mode=m, fmt="%d|%m|%Y") for m in MODES]


def all_shapes(n, kinds):
    import itertools

    return [list(c) for c in itertools.product(kinds, repeat=n) if c[0] != "gap" and c[-1] != "gap"]


Q = Q + ps(True, all_shapes(2, ["rk", "bool", "shared", "rkdate", "numtext", "datetext"])) + ps(True, all_shapes(3, ["num", "half", "numtext", "datetext", "text", "date", "gap"]))
T = Q + ps(False, all_shapes(3, ["num", "half", "numtext", "datetext", "text", "date", "gap", "shared"])) + ps(True, all_shapes(4, ["num", "numtext", "datetext", "text", "date"])) + ps(True, all_shapes(5, ["num", "numtext", "datetext", "date"]))
HARNESSES = [
    Harness(mixed, params=Q, thorough=T, covers=["text", "int64", "double", "timestamp[ms]"], bounds="columns of 2-5 cells (all of 3 in XLSB; thorough: also all of 3 in XLSX, 4 and 5) of numbers, dates, texts of each form (plain, number, date) and gaps, shared or not, both formats, all four conflict modes; serials 61 to 2958465 by half days"),
]
