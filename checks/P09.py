"""Variable-length integers decode to exactly the encoded values"""
import io

import numpy as np

import evt

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every decoding function against an independent encoder and against each other on streams of encoded integers"
LEVEL_NOTE = ("exploration: all boundary values of every encoded length with all (also over-long) encodings are enumerated, other values are random; every function "
              "decodes at every offset of random streams in different kinds of buffers. Differential arrays use encodings of up to 5 bytes, the "
              "longest a 32 bit difference needs.")
RULE = ("a case is a stream of encoded integers (the first cases enumerate the boundary values) decoded by all functions; distinct by the bytes of the stream")
CASES = {"quick": 40000, "thorough": 2500000}
REQUIRE = {"values": 200000, "arrays": 10000, "differential_values": 100000, "stream_values": 100000, "lengths_1": 1000, "lengths_2": 1000, "lengths_3": 1000,
           "lengths_4": 1000, "lengths_5": 1000, "lengths_6": 1000, "lengths_7": 1000, "lengths_8": 1000, "lengths_9": 1000, "overlong": 20000,
           "boundary_values": 1000, "in_files": 500, "exhaustive_values": 1800000, "exhaustive_differences": 700000}

BOUNDARY = sorted({v for k in list(range(0, 65)) for d in range(-3, 4) for v in ((1 << k) + d,) if 0 <= v < 1 << 64}
                  | {sum(0x55 << 8 * j for j in range(n)) for n in range(1, 9)} | {sum(0xAA << 8 * j for j in range(n)) for n in range(1, 9)}
                  | {sum((j + 1) << 8 * j for j in range(n)) for n in range(1, 9)})


def value(r):
    x = r.random()
    if x < 0.3:
        return r.choice(BOUNDARY)
    if x < 0.9:
        return r.getrandbits(r.randint(0, 64))
    return r.getrandbits(64)


def wrap(r, b):
    """the same bytes in different kinds of buffers"""
    x = r.random()
    if x < 0.3:
        return b
    if x < 0.5:
        return bytearray(b)
    if x < 0.65:
        return memoryview(b"xyz" + b)[3:]
    a = np.frombuffer(b, np.uint8)
    if x < 0.8:
        return a
    if x < 0.9:
        z = np.zeros((len(b), 3), np.uint8)
        z[:, 1] = a
        return z[:, 1]
    return a[::-1].copy()[::-1]


def signed(u):
    return evt.unzigzag(u)


def single(ctx, buf, pos, u, length, what):
    from eventio.var_int import unsigned_varint, varint, get_length_of_varint, parse_varint
    c = ctx.check
    v = unsigned_varint(buf, pos)
    c(tuple(v) == (u, length), lambda: f"unsigned_varint at {pos} of {what}: {v}, expected {(u, length)}")
    v = varint(buf, pos)
    c(tuple(v) == (signed(u), length), lambda: f"varint at {pos} of {what}: {v}, expected {(signed(u), length)}")
    v = get_length_of_varint(buf[pos])
    c(v == length, lambda: f"get_length_of_varint({buf[pos]}): {v}, expected {length}")
    for end in (pos + length, len(buf)):
        v = parse_varint(buf[pos:end])
        c(v == u, lambda: f"parse_varint at {pos} of {what}: {v}, expected {u}")
    ctx.count("values")
    ctx.count(f"lengths_{length}")
    if length > evt.uvar_len(u):
        ctx.count("overlong")


def arrays(ctx, buf, start, us, size, what):
    from eventio.var_int import unsigned_varint_array, varint_array
    a, n = unsigned_varint_array(buf, len(us), start)
    ctx.check(n == size and a.shape == (len(us),) and [int(x) for x in a] == us,
              lambda: f"unsigned_varint_array of {what} from {start}: {n} bytes {a}, expected {size} bytes {us}")
    a, n = varint_array(buf, len(us), start)
    s = [signed(u) for u in us]
    ctx.check(n == size and a.shape == (len(us),) and [int(x) for x in a] == s,
              lambda: f"varint_array of {what} from {start}: {n} bytes {a}, expected {size} bytes {s}")
    ctx.count("arrays")


def streams(ctx, b, us):
    from eventio.tools import read_unsigned_varint, read_varint
    f, g = io.BytesIO(b), io.BytesIO(b)
    pos = 0
    for u in us:
        _, k = evt.uvar_decode(b, pos)
        pos += k
        x, y = read_unsigned_varint(f), read_varint(g)
        ctx.check(x == u and y == signed(u), lambda: f"read_unsigned_varint {x}, read_varint {y}, expected {u}, {signed(u)}")
        ctx.check(f.tell() == pos and g.tell() == pos, lambda: f"stream position {f.tell()}, {g.tell()} after the integer, expected {pos}")
        ctx.count("stream_values")


def differential(ctx):
    from eventio.var_int import unsigned_varint_arrays_differential
    r = ctx.rng
    n, m = r.choice((0, 1, 2, 5, r.randint(0, 12))), r.choice((0, 1, 2, 30, r.randint(0, 80)))
    exp = np.zeros((n, m), "u4")
    parts = []
    for i in range(n):
        mode = r.random()
        prev = 0
        for j in range(m):
            if mode < 0.3:
                v = r.getrandbits(r.randint(0, 32))
            elif mode < 0.6:
                v = (prev + r.choice((0, 1, -1, 63, -64, 64, -65, 8191, 8192, -8192, -8193, 2**20 - 1, 2**20, -2**20, -2**20 - 1, 2**27 - 1, 2**27,
                                      -2**27, -2**27 - 1, 2**31 - 1, -2**31))) % 2**32
            elif mode < 0.7:
                v = r.choice((0, 1, 2**31 - 1, 2**31, 2**32 - 1))
            else:
                v = max(0, min(2**32 - 1, prev + r.randint(-300, 300)))
            d = (v - prev + 2**31) % 2**32 - 2**31
            z = evt.zigzag(d)
            k = evt.uvar_len(z)
            if r.random() < 0.1:
                k = r.randint(k, 5)
            parts.append(evt.uvar(z, k))
            exp[i, j] = v
            prev = v
    b = b"".join(parts)
    lead, tail = r.randbytes(r.choice((0, 0, 1, 5))), r.randbytes(r.choice((0, 0, 1, 9)))
    buf = wrap(r, lead + b + tail)
    a, k = unsigned_varint_arrays_differential(buf, n, m, len(lead))
    ctx.check(k == len(b) if m else k == 0, lambda: f"{k} bytes used for {n} arrays of {m}, expected {len(b)}")
    ctx.check(a.shape == (n, m) and a.dtype.itemsize == 4 and a.dtype.kind == "u" and (a == exp).all(),
              lambda: f"differential arrays {a.dtype} {a.tolist()}, expected {exp.tolist()}, bytes {b.hex()}")
    ctx.count("differential_values", n * m)
    if n:
        ctx.nontrivial(b, n)


def in_file(ctx):
    """an object payload is a stream, too"""
    from eventio import EventIOFile
    from eventio.tools import read_unsigned_varint, read_varint, read_var_string
    r = ctx.rng
    us = [value(r) for _ in range(r.randint(1, 20))]
    text = r.randbytes(r.choice((0, 1, 127, 128, 300)))
    b = b"".join(evt.uvar(u, r.randint(evt.uvar_len(u), 9)) for u in us) + evt.uvar(len(text)) + text
    p = ctx.write("f", evt.encode_file([evt.Node(4711, 1, 0, b), evt.Node(4711, 1, 0, b"\xff" * 20)]))
    with EventIOFile(p) as f:
        o = next(f)
        for k, u in enumerate(us):
            x = read_unsigned_varint(o) if k % 2 else read_varint(o)
            e = u if k % 2 else signed(u)
            ctx.check(x == e, lambda: f"integer {k} of an object: {x}, expected {e}")
        t = read_var_string(o)
        ctx.check(t == text and o.tell() == len(b), lambda: f"read_var_string: {t!r}, expected {text!r}")
    ctx.count("in_files")


def exhaustive(ctx, k):
    """all values of up to 18 bits in all encodings of k bytes; all differences of up to 17 bits"""
    from eventio.var_int import unsigned_varint_array, varint_array, unsigned_varint_arrays_differential
    top = min(1 << 18, 1 << 7 * k)
    vals = np.arange(top, dtype="u8")
    if k == 9:
        vals = vals << np.uint64(46) | vals
    b = b"".join(evt.uvar(int(v), k) for v in vals)
    a, n = unsigned_varint_array(b, len(vals))
    ctx.check(n == len(b) and (a == vals).all(), lambda: f"values in {k} bytes: {vals[a != vals][:5]} decoded as {a[a != vals][:5]}")
    a, n = varint_array(b, len(vals))
    e = np.where(vals & np.uint64(1), -(vals >> np.uint64(1)).astype("i8") - 1, (vals >> np.uint64(1)).astype("i8"))
    ctx.check(n == len(b) and (a == e).all(), lambda: f"signed values in {k} bytes: {e[a != e][:5]} decoded as {a[a != e][:5]}")
    ctx.count("exhaustive_values", len(vals))
    if k <= 5:
        # steps away from zero and back: every difference in both directions
        d = np.arange(-(top >> 1), top >> 1, dtype="i8")
        b = b"".join(evt.uvar(evt.zigzag(int(v)), k) + evt.uvar(evt.zigzag(1000 - int(v)), 3) for v in d)
        a, n = unsigned_varint_arrays_differential(b, 1, 2 * len(d))
        e = np.empty(2 * len(d), "i8")
        base = np.arange(len(d)) * 1000
        e[0::2], e[1::2] = base + d, base + 1000
        ctx.check(n == len(b) and (a[0] == e % 2**32).all(), lambda: f"differences in {k} bytes are decoded wrongly")
        ctx.count("exhaustive_differences", len(d))


def run_case(ctx, idx):
    r = ctx.rng
    if len(BOUNDARY) <= idx < len(BOUNDARY) + 9:
        return exhaustive(ctx, idx - len(BOUNDARY) + 1)
    if idx < len(BOUNDARY):
        # every encoding of one boundary value and of its neighbours
        us = [BOUNDARY[idx]] * (10 - evt.uvar_len(BOUNDARY[idx]))
        lens = list(range(evt.uvar_len(BOUNDARY[idx]), 10))
        ctx.count("boundary_values", len(lens))
    else:
        us = [value(r) for _ in range(r.randint(0, 40))]
        over = r.choice((0, 0, 0.3, 1))
        lens = [r.randint(evt.uvar_len(u), 9) if r.random() < over else evt.uvar_len(u) for u in us]
    lead = r.randbytes(r.choice((0, 0, 1, 2, 9)))
    tail = r.choice((b"", b"", r.randbytes(r.randint(0, 10)), b"\xff" * 9, b"\0" * 9))
    enc = [evt.uvar(u, k) for u, k in zip(us, lens)]
    b = b"".join(enc)
    what = (lead + b + tail)[:200].hex()
    buf = wrap(r, lead + b + tail)
    ctx.info["stream"] = what
    pos = len(lead)
    for u, k in zip(us, lens):
        single(ctx, buf, pos, u, k, what)
        pos += k
    # from every integer on, and of every length
    arrays(ctx, buf, len(lead), us, len(b), what)
    for _ in range(3):
        i = r.randint(0, len(us))
        j = r.randint(i, len(us))
        arrays(ctx, buf, len(lead) + sum(lens[:i]), us[i:j], sum(lens[i:j]), what)
    streams(ctx, b, us)
    if us:
        ctx.nontrivial(b)
    for _ in range(4):
        differential(ctx)
    if idx % 5 == 0:
        in_file(ctx)
    if idx < 3:
        ctx.sample({"bytes": what, "values": us[:20]})
