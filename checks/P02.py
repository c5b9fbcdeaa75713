"""Payload access never leaves the object"""
import evt
import gentree
import classes
from common import compress_random, flat, payload_of
from evt import Node

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: random read/seek histories checked online against a model of a bounded slice"
LEVEL_NOTE = "exploration of random histories of reads, seeks and position queries on objects of all nesting levels; each operation's result is compared with the slice model. Finite histories on generated and real files."
RULE = ("a case is one file and several objects of it on which a random sequence of read/seek/tell calls is executed in "
        "lock step with a byte-string model; distinct cases have distinct sequences")
CASES = {"quick": 60000, "thorough": 3000000}
REQUIRE = {"reads": 20000, "seeks": 20000, "refused_seeks": 1000, "reads_at_end": 1000, "switches": 2000, "pipe_reads": 700, "refused_on_pipe": 500}


def on_pipe(ctx, idx):
    """the external decompressor can not go back: a step back is refused or gives the right bytes, never others"""
    from eventio import EventIOFile
    r = ctx.rng
    nodes = gentree.forest(r, ctx.nrng, depth=r.choice((0, 0, 1)), maxlen=r.choice((10, 60, 400)))
    data = evt.encode_file(nodes)
    p = ctx.write("f", compress_random(r, data, "gz"))
    trace = []
    ctx.info["trace"] = trace
    with EventIOFile(p) as f:
        for n in nodes:
            o = next(f)
            if n.children is not None or n.type in (1201, 1205):
                continue
            pl = payload_of(n, data)
            size, pos = n.size, 0
            reached = f.tell() - n.address
            for step in range(r.randint(0, 8)):
                if r.random() < 0.5:
                    k = r.choice((0, 1, 2, 5, max(size - pos, 0), r.randint(0, size + 2)))
                    trace.append((n.type, "read", k))
                    try:
                        b = o.read(k)
                    except OSError:
                        ctx.check(pos < reached, lambda: f"read({k}) at {pos} of {size} refused on a pipe at {reached}")
                        ctx.count("refused_on_pipe")
                        continue
                    e = pl[pos:pos + k]
                    ctx.check(b == e, lambda: f"pipe: read({k}) at {pos} of {size} returned {bytes(b)[:40]!r} ({len(b)}), expected {e[:40]!r} ({len(e)})")
                    pos += len(e)
                    reached = max(reached, pos)
                    ctx.count("pipe_reads")
                else:
                    whence = r.choice((0, 1))
                    new = r.choice((pos, pos + 1, pos - 1, pos - 2, size, reached - 1, reached, r.randint(0, size)))
                    new = max(0, min(new, size))
                    trace.append((n.type, "seek", new, whence))
                    try:
                        got = o.seek(new if whence == 0 else new - pos, whence)
                    except OSError:
                        ctx.check(new < reached, lambda: f"seek to {new} refused on a pipe at {reached} of {size}")
                        ctx.count("refused_on_pipe")
                        continue
                    ctx.check(got == new, lambda: f"pipe: seek to {new} of {size} at {pos} returned {got}")
                    pos = new
                    reached = max(reached, pos)
                ctx.check(o.tell() == pos, lambda: f"pipe: tell() {o.tell()}, expected {pos} of {size}")
    ctx.nontrivial(repr(trace), data)


def run_case(ctx, idx):
    if idx % 60 == 17:
        return on_pipe(ctx, idx)
    from eventio import EventIOFile
    r = ctx.rng
    nodes = gentree.forest(r, ctx.nrng, depth=r.choice((0, 1, 3)), maxlen=r.choice((10, 60, 400)))
    for n in flat(nodes):
        if n.children is None and n.type not in (1201, 1205) and r.random() < 0.3:
            n.payload = evt.SYNC_LE + r.randbytes(r.randint(0, 30))
            n.value = None
    if idx % 50 == 0:
        nodes.insert(r.randint(0, len(nodes)), Node(555, 0, 0, r.randbytes(r.randint(8000, 300000))))
    data = evt.encode_file(nodes)
    kind = r.choice(("dat", "dat", "gz"))
    p = ctx.write("f." + kind, data if kind == "dat" else compress_random(r, data, "gz"))
    with EventIOFile(p, zcat=False) as f:
        # hold all objects of the file
        objs = []

        def collect(it, ns):
            for o, n in zip(it, ns):
                objs.append((o, n))
                if n.children is not None:
                    collect(o, n.children)
        collect(f, nodes)
        ctx.check(len(objs) == len(flat(nodes)), f"{len(objs)} objects, {len(flat(nodes))} written")
        chosen = [objs[r.randrange(len(objs))] for _ in range(min(4, len(objs)))]
        state = {}
        for o, n in chosen:
            o.seek(0)
            state[id(o)] = 0
        trace = []
        ctx.info["trace"] = trace
        last = None
        o, n = chosen[0]
        for step in range(40):
            if r.random() < 0.25:
                o, n = r.choice(chosen)
            if last is not None and last is not o:
                ctx.count("switches")
            last = o
            pl = payload_of(n, data)
            pos = state[id(o)]
            size = n.size
            x = r.random()
            if x < 0.45:
                k = r.choice((0, 1, 2, 3, size, size + 1, max(size - pos, 0), max(size - pos, 0) + 1, 10**6, -1, None,
                              r.randint(0, 50)))
                trace.append((n.type, "read", k))
                b = o.read() if k is None else o.read(k)
                e = pl[pos:] if k in (None, -1) else pl[pos:pos + k]
                ctx.check(b == e, lambda: f"read({k}) at {pos} of {size} returned {bytes(b)[:40]!r} ({len(b)}), expected {e[:40]!r} ({len(e)})")
                pos += len(e)
                ctx.count("reads")
                if not e:
                    ctx.count("reads_at_end")
            elif x < 0.9:
                whence = r.choice((0, 0, 1, 1, 2))
                if whence == 0:
                    off = r.choice((0, size, size + 3, -1, -5, r.randint(0, size + 5)))
                    new = off
                elif whence == 1:
                    off = r.choice((0, 1, -1, -pos, -pos - 1, size - pos, r.randint(-5, 5), r.randint(-size - 1, size + 1)))
                    new = pos + off
                else:
                    # counted backwards from the end, at most to the start
                    off = r.choice((0, 1, size, size + 4, r.randint(0, size + 2), -1, -r.randint(0, 9)))
                    new = size - min(off, size)
                trace.append((n.type, "seek", off, whence))
                if new < 0:
                    try:
                        got = o.seek(off, whence)
                    except Exception:
                        ctx.count("refused_seeks")
                    else:
                        ctx.fail(f"seek({off}, {whence}) at {pos} of {size} returned {got}")
                else:
                    got = o.seek(off) if whence == 0 and r.random() < 0.5 else o.seek(off, whence)
                    # beyond the end the position is what the file object makes of it
                    ctx.check(got == new or new > size and size <= got <= new,
                              f"seek({off}, {whence}) at {pos} of {size} returned {got}, expected {new}")
                    pos = got
                ctx.count("seeks")
            else:
                trace.append((n.type, "tell"))
            state[id(o)] = pos
            t = o.tell()
            ctx.check(t == pos, f"tell() {t}, expected {pos} of {size}")
        ctx.nontrivial(repr(trace), data)
        ctx.sample({"object": repr(n), "operations": trace[:8]})
