"""Telescope ids survive every encoding"""
import struct

import classes
import cmp
import evt
import spec
from common import check_object, compress_random
from evt import Node
from spec import SPECS, split_tel, telescope_type

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: telescope ids reported for objects of generated files checked online against the id that was encoded"
LEVEL_NOTE = ("exhaustive over all 65536 object type numbers, telescopes 0 to 999 in type numbers, all 16384 ids of the split encoding, all 65536 of the ADC "
              "objects (random other bits), all pairs of different telescopes up to 1000 sampled; random for the encodings with larger ranges.")
RULE = "a case is one file with a batch of objects of one encoding; distinct by types and ids"
PLAIN = (2002, 2003, 2004, 2005, 2006, 2007, 2008, 2011, 2016, 2023, 2032, 2033)
N_TYPES, N_SPLIT, N_ADC = 128, 64, 64            # batches of 512, 3*256, 2*1024
CASES = {"quick": N_TYPES + N_SPLIT + N_ADC + 600, "thorough": N_TYPES + N_SPLIT + N_ADC + 60000}
REQUIRE = {"types": 65536, "telescope_types": 2000, "split_ids": 49152, "adc_ids": 131072, "mismatches": 20000, "plain_ids": 10000, "pixel_lists": 10000,
           "photon_ids": 8000, "photo_electron_ids": 8000, "decoded": 4000, "conversions": 2000}


def file_of(ctx, nodes):
    data = evt.encode_file(nodes)
    ctx.nontrivial(*[(n.type, n.id) for n in nodes])
    ctx.sample({"objects (type, id, version)": [(n.type, n.id, n.version) for n in nodes[:5]]})
    return ctx.write("f", data)


def look(ctx, nodes, expect, counter):
    """expect(n) -> {attribute: value}"""
    from eventio import EventIOFile
    nested = ctx.rng.random() < 0.3
    top = [Node(2010, 1, 0, children=nodes)] if nested else nodes
    with EventIOFile(file_of(ctx, top)) as f:
        it = next(f) if nested else f
        k = 0
        for o, n in zip(it, nodes):
            check_object(ctx, o, n)
            for a, v in expect(n).items():
                x = getattr(o, a)
                ctx.check(x == v, lambda: f"{n} (id {n.id:#x}, version {n.version}): {a} = {x}, expected {v}")
            ctx.count(counter)
            k += 1
        ctx.check(k == len(nodes), lambda: f"{k} of {len(nodes)} objects")


def signed(i):
    i &= 0xFFFFFFFF
    return i - 2**32 if i >= 2**31 else i


def types_batch(ctx, k):
    r = ctx.rng
    nodes = []
    for t in range(512 * k, 512 * (k + 1)):
        tt = classes.telescope_of_type(t)
        ident = split_tel(tt[1], r.getrandbits(16) << 8) if tt and tt[0] == 2100 else spec.signed32(r)
        nodes.append(Node(t, ident, r.randint(0, 4095), r.randbytes(12)))

    def expect(n):
        tt = classes.telescope_of_type(n.type)
        if tt:
            ctx.count("telescope_types")
        return {"telescope_id": tt[1]} if tt else {}
    look(ctx, nodes, expect, "types")


def split_batch(ctx, k):
    r = ctx.rng
    nodes = []
    for t in (2014, 2022, 2022):
        for tel in range(256 * k, 256 * (k + 1)):
            nodes.append(Node(t, signed(split_tel(tel, r.getrandbits(16) << 8 | r.getrandbits(2) << 30)), r.choice((0, 1, 5, 6)), b""))
    look(ctx, nodes, lambda n: {"telescope_id": spec.joined_tel(n.id)}, "split_ids")


def adc_batch(ctx, k):
    r = ctx.rng
    nodes = []
    for t in (2012, 2013):
        for tel in range(1024 * k, 1024 * (k + 1)):
            nodes.append(Node(t, signed(tel << 12 | r.getrandbits(12) | r.getrandbits(4) << 28), r.choice((2, 3, 3, 3, 4)), b""))
    look(ctx, nodes, lambda n: {"telescope_id": n.id >> 12 & 0xFFFF}, "adc_ids")


def old_adc(ctx):
    r = ctx.rng
    tels = {}
    nodes = []
    for _ in range(300):
        tel = r.randint(0, 31)
        n = Node(2012, signed(tel << 25 | r.getrandbits(25) | r.getrandbits(2) << 30), r.choice((0, 1)), b"")
        tels[id(n)] = tel
        nodes.append(n)
    look(ctx, nodes, lambda n: {"telescope_id": tels[id(n)]}, "old_adc_ids")


def mismatch(ctx):
    """two encodings that differ"""
    from eventio import EventIOFile
    r = ctx.rng
    for _ in range(200):
        a = r.randint(0, 999)
        x = r.random()
        if x < 0.3:
            b = a ^ 1 << r.randint(0, 13)
        elif x < 0.6:
            b = (a + r.choice((-1000, -256, -200, -100, -10, -1, 1, 10, 100, 256, 1000))) % 16384
        else:
            b = r.randint(0, 16383)
        if a == b:
            continue
        n = Node(telescope_type(2100, a), signed(split_tel(b, r.getrandbits(16) << 8 | r.getrandbits(2) << 30)), 0, r.randbytes(16))
        nested = r.random() < 0.5
        with EventIOFile(ctx.write("f", evt.encode_file([Node(2010, 1, 0, children=[n])] if nested else [n]))) as f:
            it = next(f) if nested else f
            try:
                o = next(it)
                o.parse()
            except ValueError:
                ctx.count("mismatches")
            else:
                ctx.fail(f"tracking position of type {n.type} (telescope {a}) with id {n.id:#x} (telescope {b}) accepted as telescope {o.telescope_id}")


def conversions(ctx):
    from eventio.simtel import TelescopeEvent, TrackingPosition
    for cls, base in ((TelescopeEvent, 2200), (TrackingPosition, 2100)):
        seen = set()
        for tel in range(1000):
            t = cls.telid_to_type(tel)
            ctx.check(t == telescope_type(base, tel) and cls.type_to_telid(t) == tel,
                      lambda: f"{cls.__name__}: telescope {tel} -> type {t} -> {cls.type_to_telid(t)}")
            seen.add(t)
            ctx.count("conversions")
        ctx.check(len(seen) == 1000, f"{cls.__name__}: two telescopes with the same type")


def decoded(ctx):
    """decoded values name the telescope, too"""
    from eventio import EventIOFile
    r = ctx.rng
    nodes, tels = [], []
    for t in (2002, 2003, 2004, 2005, 2006, 2007, 2011, 2014, 2022, 2023, 2027, 2100):
        tel = r.choice((0, 1, 9, 10, 63, 64, 99, 100, 127, 128, 255, 256, 257, 511, 512, 767, 768, 999, r.randint(0, 999)))
        ident = tel
        if t in (2014, 2022, 2100):
            ident = signed(split_tel(tel, r.getrandbits(7) << 8 if t == 2022 else r.getrandbits(16) << 8 | r.getrandbits(2) << 30))
        elif t == 2027:
            ident = r.randint(0, 2000) * 1000000 + tel
        n = SPECS[t].generate(r, ctx.nrng, ident=ident, hint={"n_pixels": r.randint(0, 5), "n_samples": 3})
        tels.append(tel)
        if t == 2100:
            n.type = telescope_type(2100, tel)
        nodes.append(n)
    with EventIOFile(file_of(ctx, nodes)) as f:
        for o, n, tel in zip(f, nodes, tels):
            v = o.parse()
            if hasattr(v, "keys") and "telescope_id" in v:
                ctx.check(v["telescope_id"] == tel and o.telescope_id == tel,
                          lambda: f"{n}: telescope {v['telescope_id']} in the value, {o.telescope_id} in the object, expected {tel}")
                ctx.count("decoded")
            d = cmp.diff(spec.strip(n.value), v, str(n))
            ctx.check(d is None, d)


def random_batch(ctx):
    r = ctx.rng
    big = lambda: r.choice((0, 1, 2**31 - 1, 65535, 65536, 10**6)) if r.random() < 0.2 else r.randint(0, 2**r.randint(1, 31) - 1)
    nodes = [Node(r.choice(PLAIN), big(), r.randint(0, 6), b"") for _ in range(60)]
    look(ctx, nodes, lambda n: {"telescope_id": n.id}, "plain_ids")
    nodes = [Node(2027, r.randint(0, 2146) * 1000000 + (r.randint(0, 999999) if r.random() < 0.5 else r.randint(0, 1000)), r.randint(0, 1), b"")
             for _ in range(60)]
    look(ctx, nodes, lambda n: {"telescope_id": n.id % 1000000, "code": n.id // 1000000}, "pixel_lists")
    nodes = [Node(1208, r.randint(0, 2147482) * 1000 + r.randint(0, 999) if r.random() < 0.5 else r.randint(0, 99) * 1000 + r.randint(0, 999),
                  r.randint(0, 3), b"") for _ in range(50)]
    look(ctx, nodes, lambda n: {"telescope_id": n.id % 1000, "array_id": n.id // 1000}, "photo_electron_ids")
    nodes = []
    for _ in range(50):
        a, t = r.randint(0, 998), r.randint(0, 999)
        nodes.append(Node(1205, a * 1000 + t, r.choice((0, 1000)), struct.pack("<hhfi", a, t, 1.0, 0)))
    look(ctx, nodes, lambda n: {"telescope_id": n.id % 1000, "array_id": n.id // 1000, "telescope": n.id % 1000, "array": n.id // 1000}, "photon_ids")


def run_case(ctx, idx):
    if idx == 0:
        conversions(ctx)
    if idx < N_TYPES:
        return types_batch(ctx, idx)
    idx -= N_TYPES
    if idx < N_SPLIT:
        return split_batch(ctx, idx)
    idx -= N_SPLIT
    if idx < N_ADC:
        return adc_batch(ctx, idx)
    idx -= N_ADC
    random_batch(ctx)
    decoded(ctx)
    mismatch(ctx)
    if idx % 10 == 0:
        old_adc(ctx)
