"""Number format codes, read by the rules of ECMA-376 18.8.31."""
BUILTIN_DATES = {14, 15, 16, 17, 18, 19, 20, 21, 22, 45, 46, 47}
BUILTIN_FIXED = {1, 2, 3, 4, 37, 38, 39, 40}
ELAPSED = ("h", "hh", "m", "mm", "s", "ss")
CODES = [ord(c) for c in "dmhysDMHYS"]


def code(ctx, s):
    """(is a date or time format, has a fixed-point number, has a digit placeholder) of the first section of a code; None if it is not well formed"""
    cs = [ctx.ord(c) for c in s]
    i, n = 0, len(cs)
    date = fixed = digit = False
    rest = []
    ended = False
    while i < n:
        c = cs[i]
        if c == 0x22:  # "
            j = i + 1
            while j < n and cs[j] != 0x22:
                j += 1
            if j >= n:
                return None
            i = j + 1
            continue
        if ctx.any([c == 0x5C, c == 0x5F, c == 0x2A]):  # \ _ *
            if i + 1 >= n:
                return None
            i += 2
            continue
        if c == 0x5B:  # [
            j = i + 1
            while j < n and cs[j] != 0x5D:
                j += 1
            if j >= n:
                return None
            inner = cs[i + 1 : j]
            if any(len(inner) == len(e) and ctx.all([x == ord(y) for x, y in zip(inner, e)]) for e in ELAPSED):
                date = date or not ended
            elif any(len(inner) == len(e) and ctx.all([ctx.any([x == ord(y), x == ord(y.upper())]) for x, y in zip(inner, e)]) for e in ELAPSED):
                return None  # elapsed time is written in lower case
            i = j + 1
            continue
        if c == 0x3B:  # ;
            ended = True
        if not ended:
            if ctx.any([c == k for k in CODES]):
                date = True
            rest.append(c)
            if ctx.any([c == 0x30, c == 0x23, c == 0x3F]):
                digit = True
        i += 1
    if len(rest) == 1 and rest[0] == 0x30:
        fixed = True
    for a in range(len(rest) - 2):
        if not fixed and ctx.all([rest[a] == 0x2E, rest[a + 1] == 0x30, rest[a + 2] == 0x30]):
            fixed = True
    return date, fixed, digit


# parts of codes: ? is any printable ASCII character
TEMPLATES = ["?", "??", "???", '"?"?', '?"?', '"??', "\\??", "?\\?", "_??", "*?0", "[?]?", "[??]", "?[??", "[?]0;?", "0;?", "?;0", "#,##0.0?", "0.?0", "0?", "[$-409]?", "[Red]?0", "[$-F?00]h", '"d";?', "[h]?mm", "yy?y", 'h"h"?', "?/PM", "[mm]?", "\\d?", "0\\m?"]
THOROUGH = ["????", '"??"?', "?\\??", "[???]", "[??]?", "?;??", "0.0??", '"?";??', "\\?_??", "[$-?]??", "*?_??", "#?0.00?"]


def fill(ctx, name, template):
    parts = []
    for i, ch in enumerate(template):
        parts.append(ctx.chars(f"{name}.{i}", 1, lo=0x20, hi=0x7E) if ch == "?" else ch)
    return ctx.cat(*parts)
