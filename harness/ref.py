"""Reference encoders/decoders written from the [MS-XLSB] format description, independent of the code under test.
They work on plain and on symbolic values alike."""


def size_prefix(ctx, n):
    """variable-length record size: 7 bits per byte, low first, at most four bytes"""
    if n < 0x80:
        return ctx_bytes(ctx, [n])
    if n < 0x4000:
        return ctx_bytes(ctx, [(n & 0x7F) | 0x80, n >> 7])
    if n < 0x200000:
        return ctx_bytes(ctx, [(n & 0x7F) | 0x80, ((n >> 7) & 0x7F) | 0x80, n >> 14])
    return ctx_bytes(ctx, [(n & 0x7F) | 0x80, ((n >> 7) & 0x7F) | 0x80, ((n >> 14) & 0x7F) | 0x80, n >> 21])


def ctx_bytes(ctx, xs):
    return ctx.V.mkbytes(xs) if ctx.symbolic else bytes(xs)


def rec_id(ctx, i):
    """one byte, or two when the top bit of the first is set"""
    if not (i & 0x80):
        return ctx_bytes(ctx, [i])
    return ctx_bytes(ctx, [i & 0xFF, i >> 8])


def rec(ctx, rid, data=b""):
    return ctx.join(rec_id(ctx, rid), size_prefix(ctx, ctx.len(data)), data)


def utf16(ctx, s):
    return ctx.V.encode(ctx.V.chars(s), "utf-16-le", "surrogatepass") if ctx.symbolic else s.encode("utf-16-le", "surrogatepass")


def wide(ctx, s):
    """XLWideString: count of UTF-16 code units, then the units"""
    b = utf16(ctx, s)
    return ctx.join(ctx.u4(len(b) // 2), b)
