"""Wide strings and bundle-sheet records."""
from sx.runner import Harness

from . import ref

TITLE = "XLSB wide strings and sheet records decode to what was written"


def string(ctx, name, n):
    """any string of n code points, then a constant tail"""
    s = ctx.chars(name, n)
    t = ctx.p.get("tail", 0)
    return ctx.cat(s, "z" * t) if t else s


def roundtrip(ctx):
    m = ctx.mod("rxls.biff_recs")
    k = ctx.choice("len", [None, *range(ctx.p["n"] + 1)])
    s = None if k is None else string(ctx, "s", k)
    st = ctx.stream()
    m.xstr.from_string(s).dump(st)
    m.xstr("|").dump(st)
    raw = ctx.getvalue(st)
    bar = ref.wide(ctx, "|")
    ctx.check(raw == ctx.join(b"\xff\xff\xff\xff" if s is None else ref.wide(ctx, s), bar), "dump writes the code-unit count and UTF-16LE units")
    st.seek(0)
    a, b = m.xstr.load(st), m.xstr.load(st)
    ctx.check(ctx.all(ctx.same(a.s, s)), "a dumped string loads back unchanged")
    ctx.check(ctx.same(b.s, "|"), "the stream is left after the string")
    ctx.check(ctx.same(m.xstr.from_binary(raw).s, s), "from_binary agrees with load")
    ctx.check(ctx.same(a.value, "" if s is None else s), "value is the text, empty for a null string")
    ctx.cover("null" if s is None else "text")


def decode(ctx):
    """strings encoded by the format's rule decode to themselves"""
    m = ctx.mod("rxls.biff_recs")
    s = string(ctx, "s", ctx.choice("len", list(range(ctx.p["n"] + 1))))
    extra = ctx.bytes("extra", 2)
    raw = ctx.join(ref.wide(ctx, s), extra)
    ctx.check(ctx.same(m.xstr.from_binary(raw).s, s), "from_binary decodes the text")
    st = ctx.stream(raw)
    ctx.check(ctx.same(m.xstr.load(st).s, s), "load decodes the text")
    ctx.check(st.read() == extra, "load consumes exactly the string")
    ctx.cover("text")


def bundle(ctx):
    m = ctx.mod("rxls.biff_recs")
    bm = ctx.mod("rxls.biff")
    state, tab = ctx.u("state", 32), ctx.u("tab", 32)
    n = ctx.choice("len", list(range(ctx.p["n"] + 1)))
    rel = ctx.chars("rel", ctx.choice("rlen", [1, 2]), lo=0x21, hi=0x7E)
    nm = string(ctx, "name", n)
    data = ctx.join(ctx.u4(state), ctx.u4(tab), ref.wide(ctx, rel), ref.wide(ctx, nm))
    b = m.BrtBundleSh.loadr(bm.record(412, data))
    ctx.check(ctx.all(b.hsState == state, b.iTabID == tab), "sheet state and id")
    ctx.check(ctx.all(ctx.same(b.strRelID.value, rel), ctx.same(b.strName.value, nm)), "relationship id and sheet name")
    ctx.cover("sheet")


HARNESSES = [
    Harness(roundtrip, params=[dict(n=2), dict(n=1, tail=254), dict(n=1, tail=32766), dict(n=1, tail=65535)], thorough=[dict(n=4), dict(n=1, tail=300), dict(n=1, tail=32767), dict(n=1, tail=65535), dict(n=1, tail=131071)], covers=["null", "text"], bounds="every string of up to 2 (thorough 4) code points (all planes, no lone surrogates), and one arbitrary code point followed by a 254, 32766 or 65535 (thorough up to 131071) character tail"),
    Harness(decode, params=[dict(n=2), dict(n=1, tail=254), dict(n=1, tail=32766), dict(n=1, tail=65535)], thorough=[dict(n=4), dict(n=1, tail=300), dict(n=1, tail=32767), dict(n=1, tail=65535), dict(n=1, tail=131071)], covers=["text"], bounds="as roundtrip"),
    Harness(bundle, params=[dict(n=2)], thorough=[dict(n=3), dict(n=1, tail=30)], covers=["sheet"], bounds="any state and id; relationship ids of 1-2 ASCII characters; names of up to 2 (thorough 3) code points"),
]
