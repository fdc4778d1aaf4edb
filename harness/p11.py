"""Requests to a column are independent of each other."""
import pyarrow as pa

from sx.runner import Harness

from .cells import cell, series
from .p10 import make

TITLE = "Reading a column leaves it unchanged"

REQS = ["all", "all utf8", "row 0 utf8", "rows 1-2", "from 1", "mask", "mask from 1"]


def ask(ctx, s, req, n):
    m = lambda k: ctx.array(pa.bool_(), [i % 2 == 0 for i in range(k)])
    return {
        "all": lambda: s.to_arrow(),
        "all utf8": lambda: s.to_utf8(),
        "row 0 utf8": lambda: s.to_utf8(0, 1),
        "rows 1-2": lambda: s.to_arrow(1, 2),
        "from 1": lambda: s.to_arrow(1),
        "mask": lambda: s.to_arrow(0, n, idx=m(n)),
        "mask from 1": lambda: s.to_utf8(1, n, idx=m(n)),
    }[req]()


def requests(ctx):
    p = ctx.p
    binary = p["binary"]
    shared = [ctx.text("sh0"), ctx.text("sh1")]
    env = dict(shared=shared)
    cells = []
    row = 0
    for j, k in enumerate(p["cells"]):
        if k != "gap":
            xdt, v, _, _, _ = make(ctx, binary, k, f"v{j}", env)
            cells.append((row, xdt, v))
        row += 1
    new = lambda: series(ctx, binary, shared, conflict_resolve=p["mode"])
    used, fresh = new(), new()
    cut = ctx.choice("cut", sorted({p.get("cut", len(cells)), len(cells)}))
    for c in cells[:cut]:
        used.add(cell(ctx, *c))
    for i in range(p.get("before", 1)):
        ask(ctx, used, ctx.choice(f"before{i}", REQS), row)
    for c in cells[cut:]:
        used.add(cell(ctx, *c))
    ctx.cover("added" if cut < len(cells) else "not added")
    for c in cells:
        fresh.add(cell(ctx, *c))
    req = ctx.choice("req", REQS)
    a, b = ask(ctx, used, req, row), ask(ctx, fresh, req, row)
    ctx.check(ctx.typ(a).equals(ctx.typ(b)), "same type as on a fresh column")
    x, y = ctx.items(a), ctx.items(b)
    ctx.check(len(x) == len(y), "same length as on a fresh column")
    ctx.check(ctx.all([ctx.same(u, v) for u, v in zip(x, y)]), "same cells as on a fresh column")
    ctx.check(ctx.len(used) == ctx.len(fresh), "same number of rows")


B = [["num", "text"], ["rk", "numtext"], ["date", "datetext", "text"], ["rkdate", "gap", "num"], ["date", "numtext"], ["shared", "rk", "date"], ["half", "gap", "numtext"], ["num", "date", "shared"], ["rk", "rk", "half"], ["bool", "date"]]
X = [["num", "text"], ["date", "datetext"], ["shared", "num", "date"]]
BT = [["datetext", "date", "num", "gap", "numtext"], ["rk", "num", "bool", "text"], ["numtext", "rk", "gap", "rkdate"]]


def ps(binary, shapes, modes, **kw):
    return [dict(binary=binary, cells=c, mode=m, **kw) for c in shapes for m in modes]


def cuts(shape):
    """a cut that does not part a run"""
    return [i for i in range(1, len([k for k in shape if k != "gap"]))]


M = ["all", "no"]
Q = [dict(p, cut=1) for p in ps(True, B, M) + ps(False, X, M)]
T = ps(True, B + BT, ["no", "temporal", "numeric", "all"], before=2) + [dict(p, cut=c) for p in ps(True, B + BT, M) + ps(False, X, M) for c in cuts(p["cells"])]
HARNESSES = [
    Harness(requests, params=Q, thorough=T, covers=["added", "not added"], bounds="columns of 2-3 (thorough 5) cells of every kind; one (thorough two) of 7 requests before the compared one (whole column, head as text, parts, masks), with and without further cells added in between"),
]
