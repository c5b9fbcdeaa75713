"""Shared driver of the decoding checks: generated payloads through the real file reader"""
import cmp
import evt
import gentree
import spec
from common import check_object, compress_random, real_files
from evt import Node

# neighbours of the object under test, their payloads must never show up in its values
CANARY = b"\xA5\x5A" * 64


BOOST = 0.015     # fraction of the objects with counts of any size


def combos(types):
    return [(t, v) for t in types for v in spec.SPECS[t].versions]


def hints(r):
    """sizes for one object: mostly random, sometimes all of the same extreme"""
    x = r.random()
    if x < 0.6:
        return {}
    if x < 0.7:
        return {"overlong": 0.5}
    if x < 0.8:
        return {"n_pixels": r.choice((0, 1, 2, 15, 16, 17, 32, 33))}
    if x < 0.85:
        return {"n_pixels": r.choice((127, 128, 255, 256, 300, 1000, 1855))}
    if x < 0.95:
        return {"n_gains": r.choice((1, 2)), "n_samples": r.choice((0, 1, 2, 40)), "n_sectors": r.choice((0, 1, 5))}
    return {"n_telescopes": r.choice((1, 1, 2, 100)), "n_rows": r.choice((0, 1, 55)), "nthick": r.choice((0, 1, 120))}


MANY_GAINS = (2003, 2013, 2016, 2022, 2023)      # types for which the number of gains is a plain count


def make(ctx, t, v=None, hint=None, ident=None, tame=False):
    boost = ctx.rng.random() < BOOST * (0.1 if t == 100 else 1)
    if boost:
        ctx.count("large_counts")
        if t in MANY_GAINS:
            hint = dict(hint or {}, many_gains=True)
    n = spec.SPECS[t].generate(ctx.rng, ctx.nrng, version=v, hint=hint, ident=ident, tame=tame, boost=boost)
    ctx.peak("payload_bytes", len(n.payload))
    if t == 2100:
        n.type = spec.telescope_type(2100, spec.joined_tel(n.id))
    return n


def layout(ctx, nodes):
    """a file with the given objects in random surroundings; returns path, data, top level nodes"""
    r = ctx.rng
    top = []
    pool = list(nodes)
    while pool:
        k = r.randint(1, len(pool))
        part, pool = pool[:k], pool[k:]
        mixed = []
        for n in part:
            n.user = r.random() < 0.1
            n.extended = r.random() < 0.1
            if r.random() < 0.3:
                mixed.append(Node(gentree.unknown_type(r), 7, 0, CANARY))
            mixed.append(n)
        x = r.random()
        if x < 0.4:
            top += mixed
        elif x < 0.8:
            top.append(Node(r.choice((2010, 1204, 2028, 65000)), r.randint(0, 99), 0, children=mixed))
        else:
            top.append(Node(2010, 1, 0, children=[Node(64000, 0, 0, children=mixed), Node(64001, 0, 0, CANARY)]))
    data = evt.encode_file(top)
    x = r.random()
    if x < 0.9:
        p = ctx.write("f", data)
    else:
        p = ctx.write("f", compress_random(r, data, r.choice(("gz", "zst"))))
    return p, x < 0.9, top


def pairs(it, nodes):
    """(object, node) of all objects without children"""
    for n in nodes:
        o = next(it)
        if n.children is not None:
            yield from pairs(o, n.children)
        else:
            yield o, n


def compare(ctx, n, o, spec_type, where=""):
    value = n.value
    try:
        actual = spec.actual_value(o, spec_type)
    except Exception as e:
        ctx.fail(f"{where}decoding of {n} ({len(n.payload)} bytes) raised {type(e).__name__}: {e}")
    d = cmp.diff(spec.strip(value), actual, f"{type(o).__name__} v{n.version} ")
    ctx.check(d is None, lambda: f"{where}{n}: {d}")
    ctx.count("decoded")
    ctx.count(f"type_{spec_type}_v{n.version}")
    ctx.nontrivial(spec_type, n.version, n.id, n.payload)
    return actual


def run(ctx, types, idx, extra=None, batch=12):
    """one case: a batch of objects of the given types, all (type, version) pairs in turn"""
    from eventio import EventIOFile
    r = ctx.rng
    cs = combos(types)
    nodes = []
    for k in range(batch):
        t, v = cs[(idx * batch + k) % len(cs)]
        nodes.append(make(ctx, t, v, hints(r), tame=r.random() < 0.1))
    r.shuffle(nodes)
    ids = {id(n) for n in nodes}
    p, plain, top = layout(ctx, nodes)
    ctx.info["types"] = [(n.type, n.version, n.id) for n in nodes]
    held = []
    ctx.seekable = plain
    with EventIOFile(p) as f:
        late = plain and r.random() < 0.3
        for o, n in pairs(f, top):
            if id(n) not in ids:
                continue
            check_object(ctx, o, n)
            held.append((o, n))
            if not late:
                compare(ctx, n, o, spec.spec_for(n).type)
                if extra:
                    extra(ctx, o, n)
        if late:
            r.shuffle(held)
            for o, n in held:
                compare(ctx, n, o, spec.spec_for(n).type, "late ")
                if extra:
                    extra(ctx, o, n)
    ctx.check(len(held) == len(nodes), lambda: f"{len(held)} of {len(nodes)} objects found")
    if idx < 40:
        n = nodes[0]
        ctx.sample({"type": n.type, "version": n.version, "id": n.id, "payload": n.payload[:60].hex(), "value": repr(n.value)[:300]})


def run_real(ctx, types, path, raw, nodes):
    """objects of the given types in a real file against the independent reading of their payloads"""
    from eventio import EventIOFile
    with EventIOFile(path) as f:
        for o, n in pairs(f, nodes):
            s = spec.spec_for(n)
            if s is None or s.type not in types or n.version not in s.versions:
                continue
            try:
                n.value, rest = s.read(n)
            except Exception as e:
                from harness import HarnessError
                raise HarnessError(f"description of {n} in {path} is wrong: {type(e).__name__} {e}")
            compare(ctx, n, o, s.type, f"{path}: ")
            ctx.count("real_objects")
