"""Truncated files: prefix of the objects, no shortened or invented data"""
import evt
import gentree
import simgen
import iactgen
import spec
from cmp import freeze, same, diff
from common import caught, check_object, compress_random, flat, payload_of, real_files
from evt import Node

LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring with fault injection: files cut at every kind of position, delivered objects checked against the complete tree"
LEVEL_NOTE = "exploration: all cut positions of small files, sampled ones of bigger files; the oracle is the tree written by the independent writer."
RULE = ("a case is one file and a set of cut positions (all of them for small files, else all positions in and next to headers and "
        "random ones); for every cut, every delivered object is read and decoded and the end of the iteration is classified")
CASES = {"quick": 500, "thorough": 6000}
REQUIRE = {"cuts": 20000, "cut_in_header": 3000, "cut_in_nested_header": 800, "incomplete_parse": 4000, "incomplete_read": 8000,
           "cut_at_boundary": 1000, "types_cut": 60}
LOOKS_INSIDE = (1201, 1205)     # constructors that may look at the first bytes of the payload


def parse_value(o):
    v = o.parse()
    if hasattr(v, "__next__"):
        v = list(v)
    return freeze(v)


def reference(path):
    """parse results of the complete file in walk order: ('value', v) or ('error', name)"""
    from eventio import EventIOFile
    out = []

    def rec(it):
        for o in it:
            k = len(out)
            out.append(None)
            if o.only_subobjects:
                rec(o)
                continue
            try:
                out[k] = ("value", parse_value(o))
            except Exception as e:
                out[k] = ("error", type(e).__name__)
    with EventIOFile(path) as f:
        rec(f)
    return out


class Walk:
    def __init__(self, ctx, data, ref, cut, types, exact=True):
        self.ctx, self.data, self.ref, self.cut, self.types, self.exact = ctx, data, ref, cut, types, exact
        self.n = 0

    def level(self, it, nodes, index, top):
        """iterate; returns how it ended"""
        ctx, cut = self.ctx, self.cut
        k = 0
        while True:
            try:
                o = next(it)
            except StopIteration:
                end = "end"
                break
            except EOFError:
                end = "eof"
                break
            except Exception:
                # errors of the decompressor are its own business
                if self.exact:
                    raise
                end = "error"
                break
            if k >= len(nodes):
                ctx.fail(f"cut at {cut}: additional object {o!r}")
            n = nodes[k]
            i = index[id(n)]
            check_object(ctx, o, n, f"cut at {cut}:")
            ctx.count("objects")
            self.n += 1
            if self.exact:
                ctx.check(n.start + n.header_size <= cut, f"cut at {cut}: {n} delivered, its header ends at {n.address}")
            if n.children is not None:
                self.level(o, n.children, index, False)
            else:
                self.leaf(o, n, i)
            k += 1
        if not self.exact:
            return end
        done = nodes[k - 1].address + nodes[k - 1].size if k else (nodes[0].start if nodes else 0)
        nxt = nodes[k] if k < len(nodes) else None
        where = f"cut at {cut}, level {'top' if top else 'nested'}, after {k} of {len(nodes)} objects"
        if nxt is None:
            if not top or done == cut or not k:
                ctx.check(end == "end", f"{where}: {end} although complete")
            return end
        if nxt.address <= cut:
            # complete header
            ctx.check(nxt.type in LOOKS_INSIDE and nxt.address + 12 > cut and end == "eof", f"{where}: {end}, header of {nxt} complete")
        elif nxt.start < cut:
            ctx.check(end == "eof", f"{where}: ended normally inside of a header")
            ctx.count("cut_in_header")
            if not top:
                ctx.count("cut_in_nested_header")
        elif top:
            if nxt.start == cut:
                ctx.check(end == "end", f"{where}: {end} at an object boundary")
                ctx.count("cut_at_boundary")
            # inside of the payload of the object before: either
        else:
            # the enclosing object is not complete
            ctx.check(end == "eof", f"{where}: ended normally although the container continues")
            ctx.count("cut_in_container")
        return end

    def leaf(self, o, n, i):
        ctx, cut, r = self.ctx, self.cut, self.ctx.rng
        if n.type in LOOKS_INSIDE and not self.exact:
            return
        want = payload_of(n, self.data)
        complete = n.address + n.size <= cut
        if self.exact and complete and r.random() < 0.8:
            return                  # nothing to see
        # read
        order = r.random() < 0.5
        for what in (("read", "parse") if order else ("parse", "read")):
            if what == "read":
                if self.exact and r.random() < 0.3 and n.size:
                    have = max(0, min(n.size, cut - n.address))
                    a = r.randint(0, n.size)
                    b = r.randint(0, n.size)
                    o.seek(a)
                    need = min(a + b, n.size)
                    try:
                        got = o.read(b)
                    except EOFError:
                        ctx.check(need > have, f"cut at {cut}: read({b}) at {a} of {n}: EOFError, {have} bytes are there")
                    else:
                        ctx.check(got == want[a:a + b], f"cut at {cut}: read({b}) at {a} of {n} returned {got[:30]!r} ({len(got)})")
                if self.exact:
                    o.seek(0)
                pos = o.tell()
                try:
                    got = o.read()
                except EOFError:
                    if self.exact:
                        ctx.check(not complete, f"cut at {cut}: EOFError reading complete {n}")
                    ctx.count("incomplete_read")
                except Exception:
                    if self.exact:
                        raise
                else:
                    ctx.check(got == want[pos:], f"cut at {cut}: read of {n} returned {len(got)} bytes instead of {n.size - pos}")
                if not self.exact:
                    return
            else:
                kind, value = self.ref[i]
                if not self.exact:
                    if r.random() < 0.5:
                        continue
                try:
                    v = parse_value(o)
                except EOFError:
                    if self.exact:
                        ctx.check(not complete or kind == "error", f"cut at {cut}: EOFError parsing complete {n}")
                    ctx.count("incomplete_parse")
                    self.types.add(n.type if n.type < 2100 else n.type % 1000)
                except Exception as e:
                    ctx.check(kind == "error" or not self.exact, f"cut at {cut}: parse of {n} ({'complete' if complete else 'incomplete'}) raised {e!r}")
                else:
                    if kind == "error":
                        ctx.check(not self.exact or complete, f"cut at {cut}: parse of incomplete {n} returned {v!r:.200}")
                        return
                    # padding at the end of a payload is not needed by all decoders
                    ctx.check(not self.exact or complete or n.size == 0 or n.value is None,
                              f"cut at {cut}: parse of incomplete {n} returned {v!r:.200}")
                    d = same(value, v, "value")
                    ctx.check(d is None, f"cut at {cut}: parse of {n}: {d}")
                if not self.exact:
                    return


def run_case(ctx, idx):
    from eventio import EventIOFile
    r, nrng = ctx.rng, ctx.nrng
    x = r.random()
    path = None
    if x < 0.03:
        path, data, nodes = r.choice([f for f in real_files() if len(f[1]) < 2e6])
    elif x < 0.15:
        nodes = simgen.SimFile(r, nrng, n_tel=1, n_showers=1, n_use=1).nodes
    elif x < 0.25:
        nodes = iactgen.IactFile(r, nrng, n_tel=2, n_showers=1).nodes
    elif x < 0.6:
        # decodable objects on their own
        nodes = []
        for _ in range(r.randint(1, 4)):
            t = r.choice(list(spec.SPECS))
            n = spec.SPECS[t].generate(r, nrng, hint={"n_pixels": r.randint(1, 6), "n_samples": r.randint(1, 5)})
            if t == 2100:
                n.type = spec.telescope_type(2100, spec.joined_tel(n.id))
            n.extended = r.random() < 0.2
            nodes.append(n)
        if r.random() < 0.5:
            nodes = [Node(r.choice((2010, 1204, 70)), 1, 0, children=nodes, extended=r.random() < 0.3), gentree.leaf(r, nrng)]
    else:
        nodes = gentree.forest(r, nrng, depth=3, maxlen=30, n=r.randint(1, 5))
    data = evt.encode_file(nodes)
    every = flat(nodes)
    index = {id(n): k for k, n in enumerate(every)}
    p = ctx.write("full", data)
    ref = reference(p)
    ctx.check(len(ref) == len(every), f"{len(ref)} objects in the complete file, {len(every)} written")
    for n, v in zip(every, ref):
        # nothing that was written to be decoded may fail in the complete file
        if n.value is not None and n.children is None:
            ctx.check(v[0] == "value", f"{n} of the complete file: {v}")

    # cut positions
    if len(data) <= 700:
        cuts = range(4, len(data) + 1)
        ctx.count("exhaustive_files")
    else:
        cuts = set()
        for n in r.sample(every, min(len(every), 40)):
            cuts.update(range(n.start, n.address + 2))
            cuts.update((n.address + n.size - 1, n.address + n.size, n.address + n.size + 1, n.address + n.size // 2))
        cuts.update(r.randrange(4, len(data) + 1) for _ in range(60))
        cuts = sorted(c for c in cuts if 4 <= c <= len(data))
        cuts = r.sample(cuts, min(len(cuts), 250))
        if len(data) > 2e5:
            cuts = r.sample(cuts, min(len(cuts), 8))
    types = set()
    with open(p, "r+b") as fh:
        for cut in sorted(cuts, reverse=True):
            fh.truncate(cut)
            w = Walk(ctx, data, ref, cut, types)
            with EventIOFile(p) as f:
                w.level(f, nodes, index, True)
            ctx.count("cuts")
            ctx.nontrivial(data, cut)
    ctx.count("types_cut", len(types))
    ctx.sample({"objects": len(every), "bytes": len(data), "cuts": len(cuts)})
    # compressed files that were cut: what is still there is a prefix and correct
    if r.random() < 0.5 and len(data) < 2e5:
        kind = r.choice(("gz", "pipe", "zst"))
        raw = compress_random(r, data, "zst" if kind == "zst" else "gz")
        for _ in range(12 if kind != "pipe" else 2):
            cut = r.randrange(1, len(raw))
            q = ctx.write("cut", raw[:cut])
            try:
                f = EventIOFile(q, zcat=kind == "pipe")
            except Exception:
                ctx.count("compressed_refused")
                continue
            with f:
                Walk(ctx, data, ref, cut, types, exact=False).level(f, nodes, index, True)
            ctx.count("compressed_cuts")
