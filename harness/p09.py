"""Slices and masks of chunk sequences."""
import pyarrow as pa

from sx.runner import Harness

TITLE = "Slicing and masking a sequence of chunks is slicing and masking its cells"

BIG = 2_000_000


def make(ctx, kind, j):
    """(chunk, its cells): cells is a list, or a length for a null chunk"""
    ch = ctx.mod("rxls.chunk.chunk").chunk
    if kind == "N":
        n = ctx.int(f"nulls{j}", 1, BIG)
        return ch.nulls(n), n
    if kind[0] == "0":
        n = int(kind[1:])
        return ch.nulls(n), [None] * n
    n = int(kind[1:])
    if kind[0] == "r":
        v = [ctx.u(f"c{j}.{i}", 20) for i in range(n)]
        return ch.xlsb_numeric([ctx.u4((x << 2) | 2) for x in v], is_rknumber=True), [ctx.asint(x) for x in v]
    if kind[0] == "f":
        v = [ctx.int(f"c{j}.{i}", 0, 10**6) for i in range(n)]
        return ch.xlsb_numeric([ctx.f8bytes(x * 1.0) for x in v]), v
    if kind[0] == "t":
        v = [ctx.text(f"c{j}.{i}") for i in range(n)]
        return ch.xlsb_strings(v), v
    if kind[0] == "s":
        sh = [ctx.text(f"sh{j}.{i}") for i in range(2)]
        v = [ctx.choice(f"c{j}.{i}", [0, 1]) for i in range(n)]
        return ch.xlsb_strings([x.to_bytes(4, "little") for x in v], is_shared=True, shareds=ctx.array(pa.large_string(), sh)), [sh[x] for x in v]
    raise AssertionError(kind)


def size(cells):
    return len(cells) if isinstance(cells, list) else cells


def cell_at(ctx, parts, q):
    """cell q of the concatenation (q within)"""
    for p in parts:
        n = size(p)
        if q < n:
            if not isinstance(p, list):
                return None
            for i in range(n - 1):
                if q == i:
                    return p[i]
            return p[n - 1]
        q = q - n
    return None


def chunk_at(ctx, arrs, q):
    for a in arrs:
        n = ctx.alen(a)
        if q < n:
            return ctx.at(a, q)
        q = q - n
    raise AssertionError("beyond the end")


def totals(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def window(ctx):
    ch = ctx.mod("rxls.chunk.chunk").chunk
    made = [make(ctx, k, j) for j, k in enumerate(ctx.p["chunks"])]
    chunks = [c for c, _ in made]
    before = [(c, c.size) for c in chunks]
    parts = [x for _, x in made]
    n = totals(size(p) for p in parts)
    off = ctx.int("offset", 0, 2 * BIG) if "o" in ctx.p["win"] else 0
    length = ctx.int("length", 0, 2 * BIG) if "l" in ctx.p["win"] else 0
    got = ch.take_over(chunks, off, length)
    arrs = [c.arrow() for c in got]
    total = totals(ctx.alen(a) for a in arrs)
    ctx.check(ctx.all([c.size == ctx.alen(a) for c, a in zip(got, arrs)]), "the size of a chunk is the number of its cells")
    if length > 0:
        ctx.check(total == length, "the requested length")
        ctx.cover("limit")
    elif off < n:
        ctx.check(total == n - off, "everything from the offset on")
        ctx.cover("rest")
    else:
        ctx.check(total == 0, "nothing beyond the end")
        ctx.cover("none")
        return
    q = ctx.int("q", 0, 4 * BIG)
    ctx.assume(q < total)
    ctx.check(ctx.same(chunk_at(ctx, arrs, q), cell_at(ctx, parts, off + q)), "the cell at that place")
    ctx.check(len(chunks) == len(before) and all(c is d and ctx.p is not None for c, (d, _) in zip(chunks, before)), "the given list is unchanged")


def masked(ctx):
    ch = ctx.mod("rxls.chunk.chunk").chunk
    made = [make(ctx, k, j) for j, k in enumerate(ctx.p["chunks"])]
    cells = [x for _, p in made for x in p]
    off = ctx.choice("offset", list(range(ctx.p["off"] + 1)))
    m = [ctx.bool(f"m{i}") for i in range(ctx.p["mask"])]
    m = [bool(x) for x in m]
    got = ch.take_over([c for c, _ in made], off, 0, ctx.array(pa.bool_(), m))
    rest = cells[off:]
    want = [rest[i] if i < len(rest) else None for i in range(len(m)) if m[i]]
    have = [x for c in got for x in ctx.items(c.arrow())]
    ctx.check(len(have) == len(want), "as many cells as the mask selects")
    ctx.check(ctx.all([ctx.same(a, b) for a, b in zip(have, want)]), "the selected cells in order")
    ctx.cover("some" if want else "none")


def single(ctx):
    c, cells = make(ctx, ctx.p["chunk"], 0)
    how = ctx.choice("how", ["int", "slice", "mask"])
    if how == "int":
        i = ctx.choice("i", list(range(len(cells) + 2)))
        want = cells[i : i + 1]
        got = c.take(i)
    elif how == "slice":
        ends = [None] + list(range(-len(cells) - 1, len(cells) + 2))
        s = slice(ctx.choice("start", ends), ctx.choice("stop", ends), ctx.choice("step", [None, 2]))
        want = cells[s]
        got = c.take(s)
    else:
        m = [bool(ctx.bool(f"m{i}")) for i in range(len(cells))]
        want = [x for x, k in zip(cells, m) if k]
        got = c.take(ctx.array(pa.bool_(), m))
    ctx.cover(how)
    have = ctx.items(got.arrow())
    ctx.check(len(have) == len(want), "number of cells")
    ctx.check(got.size == len(want), "size of the chunk")
    ctx.check(ctx.all([ctx.same(a, b) for a, b in zip(have, want)]), "the selected cells in order")


def W(win, *shapes):
    return [dict(chunks=s, win=win) for s in shapes]


Q = W("ol", ["N"], ["r2"], ["t2"], ["N", "t2"], ["r2", "N"], ["f2", "t1"], ["t1", "N", "r2"], ["N", "s2", "f1"], ["N", "r1", "N", "t1"])
T = Q + W("ol", ["r1", "f1", "t1", "s1"], ["t2", "N", "t2", "N"], ["N", "r3", "N", "s2", "N"], ["f3", "r3", "t3"])
M = [dict(chunks=s, mask=m, off=o) for s, m, o in ((["r2", "02"], 4, 0), (["01", "t2"], 3, 1), (["s1", "01", "f2"], 3, 2), (["r2"], 4, 1), (["t2", "r2"], 3, 3), (["02"], 3, 1))]
MT = M + [dict(chunks=s, mask=m, off=o) for s, m, o in ((["r2", "02", "t2", "s1"], 7, 4), (["t3", "03", "f3"], 9, 5), (["01", "r1", "02", "s2", "01", "t1"], 9, 3))]
HARNESSES = [
    Harness(window, params=Q, thorough=T, covers=["limit", "rest", "none"], bounds="1-4 (thorough 5) chunks of nulls (any size up to 2000000), RK numbers, doubles, texts or shared texts (up to 2, thorough 3, cells each); any offset and length up to 4000000; any cell of the result"),
    Harness(masked, params=M, thorough=MT, covers=["some", "none"], bounds="1-3 (thorough 6) chunks of up to 3 cells, every mask of up to 4 (thorough 9) rows, shorter and longer than the cells, offsets up to 3 (thorough 5)"),
    Harness(single, params=[dict(chunk=k) for k in ("02", "r2", "f1", "t2", "s2")], thorough=[dict(chunk=k) for k in ("04", "r4", "f4", "t4", "s3")], covers=["int", "slice", "mask"], bounds="one chunk of up to 2 (thorough 4) cells of each kind; every non-negative index, slice (any bounds around the ends, step 1 or 2) and mask"),
]
