"""Texts of dates."""
import pyarrow as pa

from sx.runner import Harness

TITLE = "Date texts parse to their own instant, or the parse is refused"

DAY = 86_400_000
LO, HI = -719162, 2932896  # 0001-01-01, 9999-12-31
E1900 = -25567 * DAY  # the day a time alone has for the parser


def one(ctx, name, kind):
    """(text, instant or None)"""
    if kind is None:
        return ctx.text(name), None
    if kind in ("%T", "%R", "%H:%M", "%M.%H"):
        ms = ctx.int(name + ".s", 0, 86399) * 1000 if kind == "%T" else ctx.int(name + ".m", 0, 1439) * 60000
        return ctx.text(name, "date", date=(kind, ms + E1900)), ms
    if isinstance(kind, tuple):
        # a text with two readings
        a, b, ms_a, ms_b = kind
        return ctx.text(name, "date", date=(a, ms_a, b, ms_b)), {a: ms_a, b: ms_b}
    d = ctx.int(name + ".d", LO, HI)
    t = 0
    if kind.endswith("T%T") or kind.endswith(" %T"):
        t = ctx.int(name + ".s", 0, 86399) * 1000
    elif kind.endswith("%R"):
        t = ctx.int(name + ".m", 0, 1439) * 60000
    ms = d * DAY + t
    return ctx.text(name, "date", date=(kind, ms)), ms


def parse(ctx):
    c = ctx.mod("rxls.chunk.casts")
    p = ctx.p
    formats = p["formats"]
    kinds = [ctx.choice(f"k{i}", p["kinds"]) for i in range(p["n"])]
    made = [one(ctx, f"t{i}", k) for i, k in enumerate(kinds)]
    want = []
    for k, (_, x) in zip(kinds, made):
        if formats is not None and isinstance(k, str) and k not in formats:
            x = None
        if isinstance(x, dict):
            x = next((x[f] for f in formats if f in x), None)
        want.append(x)
    arr = ctx.array(pa.large_string(), [t for t, _ in made])
    r = ctx.call(lambda: c.mf_strptime(arr, formats) if formats is not None else c.mf_strptime(arr))
    if any(w is None for w in want):
        ctx.check(not r.ok and isinstance(r.exc, pa.ArrowInvalid), "a text of no format: the parse is refused")
        ctx.cover("refused")
        return
    ctx.check(r.ok, "all texts are dates")
    got = ctx.npitems(r.value)
    ctx.check(len(got) == len(want), "an instant for each text")
    for g, w in zip(got, want):
        ctx.check(g == w, "the instant of the text")
    ctx.cover("parsed")


# 3 April and 4 March: both readings are dates
TWO = ("%d.%m.%Y", "%m.%d.%Y", 1617408000000, 1614816000000)
DEFAULT = [None, "%Y-%m-%d", "%Y-%m-%d %T", "%Y-%m-%dT%R", "%d/%m/%Y", "%d.%m.%Y %R", "%d-%m-%YT%T", "%T", "%R"]


def ps(n, formats, kinds):
    return dict(n=n, formats=formats, kinds=kinds)


Q = [ps(0, None, [None]), ps(1, None, DEFAULT), ps(2, None, DEFAULT), ps(3, None, [None, "%Y-%m-%d", "%d/%m/%Y", "%T"])]
Q += [ps(3, f, [None, "%d|%m|%Y", "%H:%M", TWO]) for f in (("%d|%m|%Y", "%d.%m.%Y", "%m.%d.%Y", "%H:%M"), ["%H:%M", "%m.%d.%Y", "%d|%m|%Y"], ("%d|%m|%Y",), ("%m.%d.%Y",), ("%m.%d.%Y", "%d.%m.%Y", "%H:%M"))]
L = [ps(3, None, DEFAULT), ps(4, None, ["%Y-%m-%d", "%d/%m/%Y", "%T", "%d.%m.%Y %R"]), ps(5, ("%d|%m|%Y", "%d.%m.%Y", "%H:%M"), ["%d|%m|%Y", "%H:%M", TWO])]
HARNESSES = [
    Harness(parse, params=Q, thorough=Q + L, covers=["parsed", "refused"], bounds="lists of up to 3 (thorough 5) texts of any instant of the years 1 to 9999 (to the second) in any of 8 formats of the default list, or of 1-4 given formats (with texts of two readings), or of none; the years are written with four digits"),
]
