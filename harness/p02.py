"""BIFF12 scanner on arbitrary bytes."""
from sx.runner import Harness

from . import p01

TITLE = "Scanning any bytes ends and yields exactly the complete records"


def reference(ctx, b, wanted):
    """list of (id, payload bytes) of the complete records at the front of b"""
    out = []
    p, n = 0, len(b)
    while True:
        if p >= n:
            return out
        i = b[p]
        p += 1
        if i & 0x80:
            if p >= n:
                return out
            i = i | (b[p] << 8)
            p += 1
        sz = 0
        for k in range(4):
            if p >= n:
                return out
            c = b[p]
            p += 1
            if k == 3:
                # bit 7 of the fourth byte is reserved
                ctx.assume(c < 0x80)
            sz = sz | ((c & 0x7F) << (7 * k))
            if not (c & 0x80):
                break
        if sz > n - p:
            return out
        sz = int(sz)
        if wanted is None or i == wanted:
            out.append((i, ctx_b(ctx, b[p : p + sz])))
        p += sz


def ctx_b(ctx, x):
    return ctx.V.mkbytes(x) if ctx.symbolic else bytes(x)


def scan(ctx):
    m = ctx.mod("rxls.biff")
    n = ctx.p["n"]
    data = ctx.bytes("b", n)
    # every length up to n is the same input cut short
    n = ctx.choice("len", list(range(n + 1)))
    b = list(data)[:n]
    wanted = None
    if ctx.flag("filtered"):
        wanted = p01.rid(ctx, "want")
    want = reference(ctx, b, wanted)
    st = ctx.stream(ctx_b(ctx, b))
    got = list(m.scan_biff(st, None if wanted is None else p01._set(ctx, wanted)))
    ctx.check(len(got) == len(want), "exactly the complete records are yielded")
    for g, (i, d) in zip(got, want):
        ctx.check(ctx.all(g.rec_id == i, g.data == d), "id and payload of every record")
    ctx.cover("some" if want else "none")


def cut(ctx):
    """a stream of two well-formed records cut at an arbitrary point: the first survives iff it is complete"""
    from . import ref

    m = ctx.mod("rxls.biff")
    i0, i1 = p01.rid(ctx, "i0"), p01.rid(ctx, "i1")
    n0, n1 = ctx.choice("n0", [0, 1, 3, 130]), ctx.choice("n1", [0, 1, 3, 130])
    d0, d1 = ctx.bytes("d0", min(n0, 3)), ctx.bytes("d1", min(n1, 3))
    d0, d1 = ctx.join(d0, b"\x07" * (n0 - len(d0))), ctx.join(d1, b"\x07" * (n1 - len(d1)))
    r0, r1 = ref.rec(ctx, i0, d0), ref.rec(ctx, i1, d1)
    data = ctx.join(r0, r1)
    total = ctx.len(data)
    edge = sorted({0, 1, 2, 3, len(r0) - 1, len(r0), len(r0) + 1, len(r0) + 2, total - 1, total})
    c = ctx.choice("cut", [x for x in edge if 0 <= x <= total])
    got = list(m.scan_biff(ctx.stream(data[:c])))
    want = ([(i0, d0)] if c >= len(r0) else []) + ([(i1, d1)] if c >= total else [])
    ctx.check(len(got) == len(want), "records before the cut are yielded, the cut one is not")
    for g, (i, d) in zip(got, want):
        ctx.check(ctx.all(g.rec_id == i, g.data == d), "id and payload of every complete record")
    ctx.cover(str(len(want)))


HARNESSES = [
    Harness(scan, params=[dict(n=5)], thorough=[dict(n=8)], covers=["some", "none"], bounds="every byte string of up to 5 (thorough 8) bytes, with no filter or any one-id filter"),
    Harness(cut, covers=["0", "1", "2"], bounds="two records with payloads of 0, 1, 3 or 130 bytes cut at every field boundary"),
]
ASSUMPTIONS = ["bit 7 of the fourth size byte, reserved by the format, is clear"]
