"""BIFF12 record framing."""
from sx.runner import Harness

from . import ref

TITLE = "BIFF12 records survive writing and scanning"

IDS1 = (0, 0x7F)


def rid(ctx, name):
    """a valid record id: 0..127, or two bytes with bit 7 of the first byte set"""
    if ctx.flag(name + ".two"):
        lo = ctx.u(name + ".lo", 8, 0x80, 0xFF)
        hi = ctx.u(name + ".hi", 8, 0, 0x7F)
        return lo | (hi << 8)
    return ctx.u(name + ".lo", 8, 0, 0x7F)


def write(ctx, how, m, i, d):
    r = m.record(i, d)
    if how == "as_binary":
        return r.as_binary()
    st = ctx.stream()
    pos = r.dump(st)
    ctx.check(pos == ctx.len(ctx.getvalue(st)), "dump reports the stream position after the record")
    return ctx.getvalue(st)


def frame(ctx):
    """one record of any id and any payload: bytes written are the format's, and scanning returns the record"""
    m = ctx.mod("rxls.biff")
    i = rid(ctx, "id")
    d = ctx.blob("payload", 0, (1 << 28) - 1)
    out = write(ctx, ctx.choice("how", ["as_binary", "dump"]), m, i, d)
    ctx.check(out == ref.rec(ctx, i, d), "record bytes are id, size prefix, payload")
    got = list(m.scan_biff(ctx.stream(out)))
    ctx.check(len(got) == 1, "scanning one record yields one record")
    ctx.check(ctx.all(got[0].rec_id == i, got[0].data == d), "scanned record has the written id and payload")
    ctx.check(got[0].rec_sz == ctx.len(d), "rec_sz is the payload length")
    ctx.check(ctx.all(got[0].is_empty) == (ctx.len(d) == 0), "is_empty iff the payload is empty")
    ctx.cover("framed")


def size(ctx):
    m = ctx.mod("rxls.biff")
    n = ctx.u("n", 28)
    out = m.dump_sz(n)
    ctx.check(out == ref.size_prefix(ctx, n), "size prefix is the format's")
    ctx.cover("size")


def stream(ctx):
    """k records one after the other, scanned with and without an id filter"""
    m = ctx.mod("rxls.biff")
    k = ctx.p["k"]
    recs = []
    for j in range(k):
        recs.append((rid(ctx, f"id{j}"), ctx.blob(f"d{j}", 0, ctx.p["max"])))
    data = ctx.join(*[write(ctx, "as_binary", m, i, d) for i, d in recs])
    flt = ctx.choice("filter", ["none", "first", "other"])
    if flt == "none":
        only, want = None, recs
    else:
        f = recs[0][0] if flt == "first" else rid(ctx, "only")
        only = _set(ctx, f)
        want = [r for r in recs if r[0] == f]
    st = ctx.stream(data)
    got = list(m.scan_biff(st, only) if only is not None else m.scan_biff(st))
    ctx.check(len(got) == len(want), "every wanted record is yielded exactly once")
    for g, (i, d) in zip(got, want):
        ctx.check(ctx.all(g.rec_id == i, g.data == d), "records come in order with their id and payload")
    ctx.cover(flt)


def _set(ctx, *xs):
    if ctx.symbolic:
        from sx.builtins_ import mkset

        return mkset(*xs)
    return set(xs)


def from_data(ctx):
    """record.from_data joins the given pieces"""
    m = ctx.mod("rxls.biff")
    i = rid(ctx, "id")
    k = ctx.choice("k", [0, 1, 2, 3])
    parts = [ctx.blob(f"p{j}", 0, 70000) for j in range(k)]
    r = m.record.from_data(i, *parts)
    ctx.check(ctx.all(r.rec_id == i, r.data == (ctx.join(*parts) if parts else b"")), "from_data joins the pieces in order")
    ctx.cover("joined")


def by_name(ctx):
    """records created by their enum name carry that id"""
    m = ctx.mod("rxls.biff")
    en = ctx.mod("rxls.biff_enum")
    names = sorted(en.BIFF_ENUM)
    n = names[ctx.p["i"] % len(names)]
    r = m.record.from_data(n, b"x")
    ctx.check(ctx.all(r.rec_id == en.BIFF_ENUM[n]), "id of the named record")
    d = ctx.blob("payload", 0, 300)
    out = m.record.from_data(n, d).as_binary()
    got = list(m.scan_biff(ctx.stream(out)))
    ctx.check(len(got) == 1, "one record")
    ctx.check(ctx.all(got[0].rec_id == en.BIFF_ENUM[n], got[0].data == d), "named record survives")
    ctx.check(got[0].rec_name == n, "rec_name of the scanned record")
    ctx.cover("named")


HARNESSES = [
    Harness(frame, covers=["framed"], bounds="one record, every valid id, every payload length below 2^28"),
    Harness(size, covers=["size"], bounds="every size below 2^28"),
    Harness(stream, params=[dict(k=2, max=20000)], thorough=[dict(k=1, max=(1 << 28) - 1), dict(k=2, max=(1 << 28) - 1), dict(k=3, max=20000)], covers=["none", "first", "other"], bounds="2 (thorough 3) records, payloads to 20000 (2^28-1) bytes, filter of none or one id"),
    Harness(by_name, params=[dict(i=i) for i in range(0, 850, 60)], thorough=[dict(i=i) for i in range(0, 850)], covers=["named"], bounds="every 60th (thorough: every) named record id, payload to 300 bytes"),
    Harness(from_data, covers=["joined"], bounds="0 to 3 pieces of up to 70000 bytes"),
]
ASSUMPTIONS = ["payload contents are opaque to the framing (payloads of symbolic length and arbitrary content)"]
