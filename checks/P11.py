"""Photon bunches and photo-electrons decode exactly"""
import numpy as np

import cmp
import decode
import evt
import spec
from common import real_files
from evt import Node

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: decoded photon bunches, emitter records and photo-electrons checked against an independent description, chunked against unchunked"
LEVEL_NOTE = ("exploration: random bunches (any bit patterns in the long format, all 16 bit values in the compact one), emitter records at any position, "
              "chunk sizes from 1 to beyond the number of bunches, photo-electron lists of all versions and flags, embedded between other objects, and "
              "the checked-in real files. Compact values are compared with a relative tolerance of 3e-5.")
RULE = ("a case is a file with a batch of photon, particle and photo-electron objects decoded completely and in chunks; "
        "distinct by type, version, id and payload")
CASES = {"quick": 16000, "thorough": 600000}
TYPES = (1205, 1208)
REQUIRE = {"decoded": 20000, "real_objects": 20, "chunked": 3000, "chunks": 10000, "particles": 500, "with_emitter": 2000,
           "telescopes_without_bunches": 500}
REQUIRE["chunked_streams"] = 500
REQUIRE["read_between_chunks"] = 1000
REQUIRE.update({f"type_{t}_v{v}": 1000 for t, v in decode.combos(TYPES)})


def cat(parts, cols):
    return {c: np.concatenate([np.asarray(p[c]) for p in parts]) if parts else np.zeros(0, "f4") for c in cols}


def chunked(ctx, o, n, disturb=False):
    """concatenated chunks equal the complete bunches, no chunk larger than requested"""
    v = n.value
    size = ctx.rng.choice((1, 2, 3, 7, max(1, v["n_bunches"] - 1), max(1, v["n_bunches"]), v["n_bunches"] + 1, 10**6))
    if v["n_bunches"] > 500 and size < 20:
        size = 97
    photons, emitter = [], []
    total = 0
    chunks = o.parse(chunksize=size)
    other = o.parse(chunksize=2) if disturb else iter(())
    while True:
        if disturb and ctx.rng.random() < 0.5:
            # none of this is of concern to the chunks
            k = ctx.rng.randrange(5)
            if k == 0:
                o.parse()
            elif k == 1:
                o.seek(ctx.rng.randint(0, o.size))
                o.read(ctx.rng.randint(0, 40))
            elif k == 2:
                next(other, None)
            elif k == 3:
                next(o.parse(chunksize=3), None)
            else:
                o.read()
            ctx.count("read_between_chunks")
        try:
            ph, em = next(chunks)
        except StopIteration:
            break
        except Exception as e:
            ctx.check(False, lambda: f"{n}: {type(e).__name__} {e} in chunks of {size} with other reads in between")
            break
        m = len(ph) + (0 if em is None else len(em))
        ctx.check(m <= size, lambda: f"{n}: chunk of {m} bunches, at most {size} requested")
        total += m
        photons.append(ph)
        if em is not None:
            emitter.append(em)
        ctx.count("chunks")
    ctx.check(total == v["n_bunches"], lambda: f"{n}: {total} bunches in chunks of {size}, {v['n_bunches']} stored")
    d = cmp.diff(v["photons"], cat(photons, spec.PHOTON_COLS), f"in chunks of {size}")
    ctx.check(d is None, lambda: f"{n}: {d}")
    e = v["emitter"] or {c: np.zeros(0, "f4") for c in spec.EMITTER_COLS}
    d = cmp.diff(e, cat(emitter, spec.EMITTER_COLS), f"emitter in chunks of {size}")
    ctx.check(d is None, lambda: f"{n}: {d}")
    ctx.count("chunked")


def extra(ctx, o, n):
    v = n.value
    if n.type == 1208:
        ctx.check(o.array_id == n.id // 1000 and o.telescope_id == n.id % 1000,
                  lambda: f"{n}: array {o.array_id}, telescope {o.telescope_id}")
        return
    str(o)
    if v["n_bunches"] == 0:
        ctx.count("telescopes_without_bunches")
    if v["emitter"] is not None:
        ctx.count("with_emitter")
    if not ctx.seekable:
        return
    if ctx.rng.random() < 0.6:
        chunked(ctx, o, n, disturb=ctx.rng.random() < 0.3)
    # once more after the chunks were read
    decode.compare(ctx, n, o, n.type, "again: ")


def particles(ctx):
    """observation level particles"""
    from eventio import EventIOFile
    nodes = []
    for _ in range(4):
        nodes.append(spec.SPECS[1205].generate(ctx.rng, ctx.nrng, version=0, ident=999999))
    data = evt.encode_file([Node(1204, 1, 0, children=nodes)])
    p = ctx.write("p", data)
    with EventIOFile(p) as f:
        for o, n in zip(next(f), nodes):
            a = spec.actual_value(o, 1205)
            d = cmp.diff(spec.strip({k: x for k, x in n.value.items() if k not in ("photons", "emitter")}), a, "particles")
            ctx.check(d is None, lambda: f"{n}: {d}")
            ctx.count("particles")
    # a stream which can only be read once, in chunks
    nodes = [spec.SPECS[1205].generate(ctx.rng, ctx.nrng) for _ in range(4)]
    p = ctx.write("p", evt.zst_frame(evt.encode_file([Node(1204, 1, 0, children=nodes)])))
    with EventIOFile(p) as f:
        for o, n in zip(next(f), nodes):
            chunked(ctx, o, n)
            ctx.count("chunked_streams")


def run_case(ctx, idx):
    files = real_files()
    if idx < len(files):
        decode.run_real(ctx, TYPES, *files[idx])
    else:
        decode.run(ctx, TYPES, idx, extra, batch=6)
        if idx % 5 == 0:
            particles(ctx)
