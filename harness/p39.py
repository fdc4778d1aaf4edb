"""Dates and times of day."""
import numpy as np

from sx.runner import Harness

TITLE = "Timestamps tell whether they have a date and a time of day"

DAY = 86_400_000


def parts(ctx):
    m = ctx.mod("rxls.chunk.casts")
    n = ctx.p["n"]
    xs = [ctx.int(f"x{i}", -(1 << 53), 1 << 53) for i in range(n)]
    # many timestamps at the start of the first day, before or after
    pad = [0] * ctx.p.get("pad", 0)
    arr = ctx.nparray(np.int64, pad + xs if ctx.p.get("before") else xs + pad)
    t = bool(m.dt_has_t(arr))
    d = bool(m.dt_has_d(arr))
    ctx.check(ctx.any(*[x % DAY != 0 for x in xs], False) if t else ctx.all(*[x % DAY == 0 for x in xs], True), "a time of day exactly if one is not at midnight")
    ctx.check(ctx.any(*[x < 0 for x in xs], *[x >= DAY for x in xs], False) if d else ctx.all(*[x >= 0 for x in xs], *[x < DAY for x in xs], True), "a date exactly if one is not on 1970-01-01")
    ctx.cover("time" if t else "no time")
    ctx.cover("date" if d else "no date")


HARNESSES = [Harness(parts, params=[dict(n=n) for n in (1, 2, 3)] + [dict(n=1, pad=p, before=b) for p in (255, 5000) for b in (True, False)], thorough=[dict(n=n) for n in (0, 1, 2, 3, 5, 8)] + [dict(n=2, pad=p, before=b) for p in (255, 5000, 70000) for b in (True, False)], covers=["time", "no time", "date", "no date"], bounds="up to 3 (thorough 8) arbitrary timestamps of magnitude up to 2^53 ms (285000 years), also with up to 5000 (thorough 70000) midnights of 1970-01-01 before or after")]
ASSUMPTIONS = []
