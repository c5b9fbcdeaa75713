"""Decoding does not depend on when, how often and in which order it is done"""
import numpy as np

import evt
import gentree
import simgen
import iactgen
import spec
from cmp import diff, freeze, same
from common import compress_random, check_object, flat, payload_of
from evt import Node

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: random decode/seek/advance histories checked against a reference decode"
LEVEL_NOTE = "exploration of random histories; every decoded value is compared with the value decoded when the object was fresh and, where specified, with the generated values."
RULE = ("a case is one file and one random schedule of visiting, decoding, partial reading, seeking and advancing steps; every "
        "decoded value is compared bit by bit with the value decoded in a plain pass and with the written one")
CASES = {"quick": 1200, "thorough": 30000}
REQUIRE = {"decodes": 8000, "repeated_decodes": 2000, "disturbances": 6000, "types_decoded": 500, "spoiled": 1500, "aimed": 3000}


def make_file(ctx):
    r, nrng = ctx.rng, ctx.nrng
    x = r.random()
    if x < 0.35:
        return simgen.SimFile(r, nrng, n_tel=r.randint(1, 2), n_showers=r.randint(1, 2)).nodes
    if x < 0.55:
        return iactgen.IactFile(r, nrng, n_tel=2, n_showers=2).nodes
    nodes = []
    for _ in range(r.randint(2, 12)):
        t = r.choice(list(spec.SPECS))
        n = spec.SPECS[t].generate(r, nrng, hint={"n_pixels": r.randint(1, 8)})
        if t == 2100:
            tel = r.randint(0, 999)
            n = spec.SPECS[t].generate(r, nrng, ident=spec.split_tel(tel, 0x300))
            n.type = spec.telescope_type(2100, tel)
        nodes.append(n)
    if r.random() < 0.6:
        k = r.randint(0, len(nodes))
        nodes = nodes[:k] + [Node(2010, 1, 0, children=nodes[k:])] + [gentree.tree(r, nrng, 2)]
    return nodes


def value_of(o):
    """decoded value or the kind of error"""
    try:
        v = o.parse()
        if hasattr(v, "__next__"):
            v = list(v)
        return ("value", freeze(v))
    except Exception as e:
        return ("error", type(e).__name__)


def spoil(r, v):
    """modify a decoded value everywhere"""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size:
            if v.dtype.kind in "iufb" and r.random() < 0.7:
                v[...] = r.randint(1, 100)
            else:
                v[...] = np.frombuffer(r.randbytes(v.dtype.itemsize), v.dtype)[0]
    elif isinstance(v, dict):
        for k in list(v):
            spoil(r, v[k])
            if r.random() < 0.5:
                v[k] = None
            elif r.random() < 0.3:
                del v[k]
        v["spoiled"] = True
    elif isinstance(v, (list, tuple)):
        for x in v:
            spoil(r, x)
        if isinstance(v, list):
            v.append("spoiled")


def run_case(ctx, idx):
    from eventio import EventIOFile
    r = ctx.rng
    nodes = make_file(ctx)
    data = evt.encode_file(nodes)
    kind = r.choice(("dat", "dat", "gz"))
    p = ctx.write("f." + kind, data if kind == "dat" else compress_random(r, data, "gz"))
    every = flat(nodes)

    # reference: plain pass, decoding immediately
    ref = {}
    types = set()

    def plain(it, ns):
        for o, n in zip(it, ns):
            ref[id(n)] = value_of(o)
            sp = spec.spec_for(n)
            if hasattr(n, "value") and n.value is not None and sp:
                ctx.check(ref[id(n)][0] == "value", f"{n}: {ref[id(n)]}")
                d = diff(spec.strip(n.value), spec.actual_value(o, sp.type))
                ctx.check(d is None, f"plain pass: {n}: {d}")
                types.add((sp.type, n.version))
            if n.children is not None:
                plain(o, n.children)
    with EventIOFile(p, zcat=False) as f:
        plain(f, nodes)
    ctx.check(len(ref) == len(every), f"{len(ref)} objects in the plain pass, {len(every)} written")
    ctx.count("types_decoded", len(types))

    trace = []
    ctx.info["trace"] = trace
    with EventIOFile(p, zcat=False) as f:
        objs = []                       # (object, node)
        iters = [(f, nodes, 0)]         # (iterable, written children, delivered so far)
        decoded = {}
        kept = []                       # (node, value returned earlier, snapshot)
        n_steps = min(400, 4 * len(every) + 20)
        for step in range(n_steps + 100000):
            if step >= n_steps and not iters:
                break
            x = r.random() if step < n_steps else 0.1
            if x < 0.4 and iters:
                k = r.randrange(len(iters))
                it, ns, done = iters[k]
                try:
                    o = next(it)
                except StopIteration:
                    ctx.check(done == len(ns), f"{it}: {done} objects delivered, {len(ns)} written")
                    iters.pop(k)
                    continue
                ctx.check(done < len(ns), f"additional object {o!r} in {it}")
                n = ns[done]
                check_object(ctx, o, n)
                iters[k] = (it, ns, done + 1)
                objs.append((o, n))
                if n.children is not None:
                    iters.append((o, n.children, 0))
                trace.append(("next", n.type))
            elif objs and x < 0.75:
                o, n = r.choice(objs)
                v = value_of(o)
                trace.append(("parse", n.type))
                e = ref[id(n)]
                ctx.check(v[0] == e[0], f"{n}: {v[:2]} instead of {e[:2]}")
                d = same(e[1], v[1], "decoded") if v[0] == "value" else (None if v[1] == e[1] else f"{v[1]} instead of {e[1]}")
                ctx.check(d is None, f"{n} decoded {'again' if id(n) in decoded else 'later'}: {d}")
                ctx.count("decodes")
                if id(n) in decoded:
                    ctx.count("repeated_decodes")
                decoded[id(n)] = True
            elif objs and x < 0.82:
                # a value that is kept must not change
                o, n = r.choice(objs)
                if n.children is None and ref[id(n)][0] == "value":
                    v = o.parse()
                    if hasattr(v, "__next__"):
                        pass
                    elif r.random() < 0.5:
                        # the value belongs to the user
                        spoil(r, v)
                        ctx.count("spoiled")
                        trace.append(("spoil", n.type))
                    else:
                        kept.append((n, v, freeze(v)))
            elif objs:
                # disturb: partial reads and seeks on this object; on containers in between iteration steps, too
                o, n = r.choice(objs)
                ctx.count("disturbances")
                y = r.random()
                if y < 0.2:
                    # another object, or the file, moves the common file position to where this object would read
                    pos = o.header.content_address + r.choice((0, 0, o.tell(), n.size, r.randint(0, n.size)))
                    q = r.choice(objs)[0] if r.random() < 0.7 else f
                    at = pos if q is f else pos - q.header.content_address
                    if at >= 0:
                        trace.append(("aim", n.type, at))
                        q.seek(at)
                        ctx.count("aimed")
                        if r.random() < 0.5:
                            v = value_of(o)
                            ctx.check(same(ref[id(n)], v, "aimed") is None,
                                      lambda: f"{n} decoded after {q} moved the file to {pos}: {same(ref[id(n)], v, 'aimed')}")
                elif y < 0.5:
                    k = r.choice((0, 1, 4, 10**6, -1))
                    trace.append(("read", n.type, k))
                    o.read(k)
                elif y < 0.8:
                    k = r.randint(0, n.size)
                    trace.append(("seek", n.type, k))
                    o.seek(k)
                else:
                    k = r.randint(0, n.size)
                    trace.append(("seek+read", n.type, k))
                    o.seek(k, 2)
                    o.read(r.randint(0, 5))
        ctx.check(len(objs) == len(every), f"{len(objs)} objects delivered, {len(every)} written")
        for n, v, snap in kept:
            d = same(snap, freeze(v), "kept value")
            ctx.check(d is None, f"{n}: {d}")
        ctx.count("kept_values", len(kept))
    ctx.nontrivial(repr(trace), data)
    ctx.sample({"objects": len(every), "schedule": trace[:10]})
