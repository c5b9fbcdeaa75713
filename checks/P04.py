"""Peeking never changes what is delivered"""
import warnings

import evt
import gentree
import simgen
import iactgen
from common import caught, check_object, check_tree, compress_random, flat, payload_of, real_files, fields
from evt import Node

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: peek/next traces checked by a trace automaton"
LEVEL_NOTE = "exploration of random peek/next interleavings on generated, real and truncated files, with the raw stream as oracle."
RULE = ("a case is one file (generated or real; plain, gzip by module, gzip by external program, zstd; complete or cut at any byte) and "
        "one random word over {peek, next, decode/read/iterate the object at hand}; distinct by file and word")
CASES = {"quick": 40000, "thorough": 1500000}
REQUIRE = {"peeks": 20000, "repeated_peeks": 5000, "nexts": 10000, "peeks_at_end": 1500, "peeks_in_cut_header": 150, "corsika_readers": 1000, "corsika_peeks": 3000, "corsika_cut_passes": 400}


def use(ctx, o, n, data, seekable):
    """something a user does with an object between two steps"""
    r = ctx.rng
    x = r.random()
    if n.children is not None:
        if seekable or x < 0.5:
            kids = []
            try:
                for k, c in zip(range(r.randint(0, len(n.children) + 1)), o):
                    kids.append(c)
            except EOFError:
                return
            except OSError:
                if seekable:
                    raise
                return
            ctx.count("sub_iterations")
        return
    try:
        if x < 0.5:
            o.parse()
        else:
            if seekable:
                o.seek(r.choice((r.randint(0, n.size), r.randint(0, n.size), n.size, n.size + r.randint(1, 100))))
            o.read(r.choice((-1, 0, 1, 5)))
    except Exception:
        pass
    ctx.count("uses")


def corsika_cut(ctx, g, data):
    """peeks at and behind the cut of a CORSIKA file, each pass delivers the complete events and then raises"""
    from eventio import IACTFile
    r = ctx.rng
    starts = [n.start for n in g.nodes] + [len(data)]
    k = r.randint(g.body, len(g.nodes) - 1)
    n = g.nodes[k]
    x = r.random()
    if x < 0.6:
        cut = n.start + r.randint(1, n.header_size - 1)
    elif x < 0.8:
        cut = n.start
    else:
        cut = r.randint(n.start, starts[k + 1] - 1)
    headers = sum(n.start + n.header_size <= cut for n in g.nodes)
    complete = sum(e <= cut for e in starts[1:])
    events = [e for e in g.events if e["_end"] <= complete]
    kind = r.choices(("dat", "gz", "zst"), (6, 2, 2))[0]
    p = ctx.write("f", data[:cut] if kind == "dat" else compress_random(r, data[:cut], kind))
    word = []
    ctx.info.update(word=word, kind=kind, cut=cut, complete=complete)

    def peek(f, at):
        for _ in range(r.choice((0, 1, 1, 2))):
            word.append("peek")
            o = f.peek()
            ctx.count("corsika_peeks")
            if at is None:
                continue
            if at >= headers:
                ctx.check(o is None, lambda: f"after {word}: peek behind the cut returned {o!r}")
            else:
                check_object(ctx, o, g.nodes[at], "peek")

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with IACTFile(p, zcat=False) as f:
            peek(f, g.body)
            for again in range(r.randint(1, 3) if kind != "zst" else 1):
                word.append("pass")
                it = iter(f)
                for k, e in enumerate(events):
                    try:
                        ev = next(it)
                    except Exception as err:
                        ctx.fail(f"after {word}: event {k} of {len(events)} before the cut: {err!r}")
                    word.append("event")
                    d = iactgen.diff_event(e, ev)
                    ctx.check(d is None, lambda: f"after {word}: event {k}: {d}")
                    peek(f, e["_end"])
                try:
                    ev = next(it)
                except StopIteration:
                    ctx.check(complete > g.events_end, lambda: f"after {word}: the cut file ended normally")
                except Exception as err:
                    ctx.check(complete <= g.events_end, lambda: f"after {word}: the cut is behind the run end: {err!r}")
                    word.append("cut")
                else:
                    ctx.fail(f"after {word}: an event behind the cut: {ev!r}")
                if r.random() < 0.7:
                    # what is left of the file
                    while True:
                        peek(f, None)
                        word.append("next")
                        try:
                            next(f)
                        except Exception:
                            break
                    peek(f, len(g.nodes))
                ctx.count("corsika_cut_passes")
    ctx.count("corsika_readers")
    ctx.nontrivial("".join(t[0] for t in word), data[:cut], kind)


def corsika(ctx):
    """peeking between and before the events of a CORSIKA reader"""
    from eventio import IACTFile
    r = ctx.rng
    g = iactgen.IactFile(r, ctx.nrng, n_tel=r.randint(1, 3), n_showers=r.randint(0, 3))
    data = g.data()
    if r.random() < 0.4 and len(g.nodes) > g.body:
        return corsika_cut(ctx, g, data)
    kind = r.choices(("dat", "gz", "pipe", "zst"), (4, 2, 1, 3))[0]
    p = ctx.write("f", data if kind == "dat" else compress_random(r, data, "zst" if kind == "zst" else "gz"))
    word = []
    ctx.info.update(word=word, kind=kind)

    def peek(f, at):
        for _ in range(r.choice((0, 1, 1, 2))):
            word.append("peek")
            o = f.peek()
            ctx.count("corsika_peeks")
            if at >= len(g.nodes):
                ctx.check(o is None, lambda: f"peek at the end returned {o!r}")
            else:
                check_object(ctx, o, g.nodes[at], "peek")

    with IACTFile(p, zcat=kind == "pipe") as f:
        at = g.body
        peek(f, at)
        if kind in ("dat", "gz") and r.random() < 0.4:
            # objects consumed before, iteration starts again
            for _ in range(r.randint(1, 4)):
                if at >= len(g.nodes):
                    break
                check_object(ctx, next(f), g.nodes[at], "next")
                word.append("next")
                at += 1
                peek(f, at)
        for again in range(2 if kind in ("dat", "gz") and r.random() < 0.3 else 1):
            k = 0
            for ev in f:
                word.append("event")
                ctx.check(k < len(g.events), "too many events")
                d = iactgen.diff_event(g.events[k], ev)
                ctx.check(d is None, lambda: f"after {word}: event {k}: {d}")
                k += 1
                # the events of a shower are delivered after all its data was read
                peek(f, g.events[k - 1]["_end"])
            ctx.check(k == len(g.events), lambda: f"after {word}: {k} events of {len(g.events)}")
            peek(f, g.events_end + 1)
    ctx.count("corsika_readers")
    ctx.nontrivial("".join(t[0] for t in word), data, kind)


def run_case(ctx, idx):
    from eventio import EventIOFile
    r, nrng = ctx.rng, ctx.nrng
    if idx % 25 == 7:
        return corsika(ctx)
    x = r.random()
    if x < 0.05:
        path, data, nodes = r.choice([f for f in real_files() if len(f[1]) < 3e5] or real_files()[:1])
    elif x < 0.15:
        nodes = simgen.SimFile(r, nrng, n_tel=1, n_showers=1).nodes
        data = evt.encode_file(nodes)
    elif x < 0.25:
        nodes = iactgen.IactFile(r, nrng, n_tel=2, n_showers=2).nodes
        data = evt.encode_file(nodes)
    else:
        nodes = gentree.forest(r, nrng, depth=2)
        data = evt.encode_file(nodes)
    starts = [n.start for n in nodes] + [len(data)]
    complete = len(nodes)
    cut_header = cut = False
    if r.random() < 0.4 and len(data) > 6:
        # a cut inside a header
        k = r.randrange(len(nodes))
        hs = nodes[k].header_size
        lo = nodes[k].start + (4 if k == 0 else 1)
        pos = r.randint(lo, nodes[k].start + hs - 1) if r.random() < 0.7 else r.randint(5, len(data) - 1)
        pos = max(pos, 5)
        for n in nodes:
            # some constructors look at the beginning of the payload, leave open whether they do
            if n.type in (1201, 1205) and n.address <= pos < n.address + 12:
                pos = n.address - 1
        data = data[:pos]
        complete = sum(n.start + n.header_size <= pos for n in nodes)
        cut = True
        cut_header = complete < len(nodes) and starts[complete] < pos
    kind = r.choices(("dat", "gz", "pipe", "zst"), (6, 2, 1, 2))[0]
    seekable = kind in ("dat", "gz")
    raw = data if kind == "dat" else compress_random(r, data, "zst" if kind == "zst" else "gz")
    p = ctx.write("f", raw)
    trace = []
    ctx.info.update(trace=trace, kind=kind, complete=complete, total=len(nodes), cut_header=cut_header)

    def is_expected(o, i, what):
        ctx.check(o is not None, f"{what}: nothing, expected object {i} of {complete}")
        ctx.check(i < complete, f"{what}: additional object {o!r} after {complete}")
        check_object(ctx, o, nodes[i], what)

    with EventIOFile(p, zcat=kind == "pipe") as f:
        i = 0
        ended = False
        n_peek = 0
        steps = 0
        while steps < 3 * len(nodes) + 12:
            steps += 1
            if r.random() < 0.08:
                # as every loop does
                trace.append("iter")
                iter(f)
            if r.random() < 0.55:
                trace.append("peek")
                with caught() as w:
                    o = f.peek()
                ctx.count("peeks")
                if n_peek:
                    ctx.count("repeated_peeks")
                n_peek += 1
                if i >= complete:
                    ctx.check(o is None, f"peek at the end returned {o!r}")
                    ctx.count("peeks_at_end")
                    if cut_header:
                        ctx.check(n_peek > 1 or len(w) > 0 or ended, "peek in a cut header did not warn")
                        ctx.count("peeks_in_cut_header")
                else:
                    is_expected(o, i, "peek")
                    if r.random() < 0.3:
                        trace.append("use")
                        use(ctx, o, nodes[i], data, seekable)
            else:
                trace.append("next")
                ctx.count("nexts")
                try:
                    o = next(f)
                except StopIteration:
                    ctx.check(i == complete, f"end after {i} of {complete} objects")
                    ctx.check(not cut_header, "file cut inside a header ended normally")
                    ended = True
                except EOFError as e:
                    ctx.check(i == complete and cut_header, f"{e!r} after {i} of {complete} objects")
                    ended = True
                except OSError as e:
                    # a second attempt at the same place is not possible on a pipe
                    ctx.check(i == complete and cut_header and not seekable and ended, f"{e!r} after {i} of {complete} objects")
                else:
                    is_expected(o, i, "next")
                    if seekable and nodes[i].children is None and not cut:
                        o.seek(0)
                        ctx.check(o.read() == payload_of(nodes[i], data), f"payload of object {i} after peek")
                    elif r.random() < 0.3:
                        trace.append("use")
                        use(ctx, o, nodes[i], data, seekable)
                    i += 1
                    n_peek = 0
        # whatever is left, by a loop
        if not ended and r.random() < 0.7:
            f.peek() if r.random() < 0.5 else None
            try:
                for o in f:
                    is_expected(o, i, "loop")
                    i += 1
            except EOFError:
                ctx.check(cut_header, "EOFError in a loop")
            ctx.check(i == complete, f"loop ended after {i} of {complete}")
    ctx.nontrivial("".join(t[0] for t in trace), data, kind)
    ctx.sample({"kind": kind, "objects": len(nodes), "complete": complete, "word": " ".join(trace[:12])})
