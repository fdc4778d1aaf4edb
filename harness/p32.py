"""Relationships."""
from sx.harness import Xml, el
from sx.runner import Harness

TITLE = "Relationships survive writing and reading"

ENT = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "apos": "'"}


class Malformed(Exception):
    pass


def parse(s):
    """attributes of the one empty element of a text (XML 1.0), on plain and symbolic texts alike"""
    pos = 0
    head = "<Relationship"
    for ch in head:
        if not s[pos : pos + 1] == ch:
            raise Malformed("start tag")
        pos += 1
    out = {}
    while True:
        gap = 0
        while s[pos : pos + 1] == " ":
            pos += 1
            gap = 1
        if s[pos : pos + 1] == "/":
            if not s[pos + 1 :] == ">":
                raise Malformed("end of the tag")
            return out
        if not gap:
            raise Malformed("no gap")
        name = ""
        while not s[pos : pos + 1] == "=":
            ch = next((c for c in "IdTypeargt" if s[pos : pos + 1] == c), None)
            if ch is None or len(name) > 8:
                raise Malformed("name")
            name += ch
            pos += 1
        pos += 1
        q = next((c for c in "\"'" if s[pos : pos + 1] == c), None)
        if q is None or name in out:
            raise Malformed("attribute")
        pos += 1
        val = ""
        while not s[pos : pos + 1] == q:
            c = s[pos : pos + 1]
            if not len(c) or c == "<":
                raise Malformed("value")
            pos += 1
            if c == "&":
                ref = ""
                while not s[pos : pos + 1] == ";":
                    ch = next((x for x in "ampltgquos#x0123456789ABCDEF" if s[pos : pos + 1] == x), None)
                    if ch is None or len(ref) > 6:
                        raise Malformed("reference")
                    ref += ch
                    pos += 1
                pos += 1
                if ref[:2] == "#x":
                    c = chr(int(ref[2:], 16))
                elif ref[:1] == "#":
                    c = chr(int(ref[1:]))
                elif ref in ENT:
                    c = ENT[ref]
                else:
                    raise Malformed("entity")
            val = val + c
        pos += 1
        out[name] = val


def roundtrip(ctx):
    m = ctx.mod("rxls.rels").Relationship
    vals = []
    for j, n in enumerate(ctx.p["chars"]):
        t = ctx.chars(f"f{j}", n, lo=0x20, hi=0x7E)
        if j == 1:
            # the kind is the last part of the type
            for i in range(n):
                ctx.assume(ctx.not_(t[i] == "/"))
        if j == 2:
            t = ctx.cat(ctx.choice("base", ["worksheets/s", "/xl/é", ""]), t)
        vals.append(t)
    st = ctx.stream()
    m(*vals).dump_xml(st)
    raw = ctx.getvalue(st)
    if ctx.symbolic:
        try:
            at = parse(raw.decode("utf-8"))
        except Malformed:
            at = None
        ctx.check(at is not None and set(at) == {"Id", "Type", "Target"}, "a well-formed element")
        src = ctx.xmlstream(Xml(el("Relationships", None, el("Relationship", at))))
    else:
        src = ctx.stream(b"<Relationships>" + raw + b"</Relationships>")
    got = m.scan_xml(src)
    ctx.check(len(got) == 1, "one relationship")
    for g, w in zip((got[0].Id, got[0].Type, got[0].Target), vals):
        ctx.check(g == w, "id, kind and target as written")
    part = got[0].part
    ctx.check(part == (vals[2][1:] if vals[2][:1] == "/" else ctx.cat("xl/", vals[2])), "the part of the target")
    ctx.cover("read")


HARNESSES = [
    Harness(roundtrip, params=[dict(chars=c) for c in ([1, 1, 1], [0, 2, 1], [2, 0, 1], [0, 1, 2], [3, 0, 0], [0, 3, 0], [0, 0, 3])], thorough=[dict(chars=c) for c in ([1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2], [3, 0, 0], [0, 3, 0], [0, 0, 3], [0, 0, 4], [4, 0, 0], [0, 4, 0])], covers=["read"], bounds="ids, kinds and targets of up to 3 (thorough 4) arbitrary printable ASCII characters (a kind has no slash), after one of three beginnings of a target"),
]
