"""Compression is transparent"""
import os
from pathlib import Path

import cmp
import evt
import gentree
import simgen
import iactgen
from common import caught, check_tree, compress_random, diff_dump, dump, environ, real_files
from evt import Node

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: differential execution over containers of the same data with fault injection (missing/failing zcat)"
LEVEL_NOTE = "exploration over random data, member/frame boundaries, names and decompression paths; the dump of the plain data is the oracle."
RULE = ("a case is one file, stored plain and in several compressed forms with random member/frame boundaries, names and ways of "
        "decompression; object dumps (header, payload, decoded value) and events of every form are compared with the plain one")
CASES = {"quick": 700, "thorough": 8000}
REQUIRE = {"missing_forbidden": 20, "missing_format": 20, "missing_directory": 20, "gzip_pipe": 300, "gzip_module": 300, "gzip_fallback": 150, "zstd": 300, "members": 2000, "event_readers": 200,
           "odd_names": 200}
NAMES = ["plain", "file.gz", "file.zst", "file.simtel", "with space.gz", "-c", "--help", "-dk.gz", "--", "-S", "a\nb.gz", "ä ö.gz", "x.dat",
         "file.Z", "$(x)", "a;b", "*", "~", "-rf", "file.", ".gz", "quo'te\"", "%s"]


def events(path, kind, zcat):
    """events of the specific reader"""
    import warnings
    with caught():
        if kind == "simtel":
            from eventio import SimTelFile
            with SimTelFile(path, zcat=zcat, skip_non_triggered=False) as f:
                meta = cmp.freeze({k: getattr(f, k) for k in ("history", "global_meta", "telescope_meta", "header", "mc_run_headers",
                                                              "corsika_inputcards", "atmospheric_profiles", "telescope_descriptions")})
                return [meta] + [cmp.freeze(e) for e in f] + [cmp.freeze(f.histograms)]
        from eventio import IACTFile
        with IACTFile(path, zcat=zcat) as f:
            meta = cmp.freeze([f.header, f.input_card, f.telescope_positions])
            return [meta] + [cmp.freeze(e) for e in f] + [cmp.freeze(f.run_end)]


def variants(ctx, data, nodes, starts):
    """[(name, bytes)] of compressed forms"""
    r = ctx.rng
    out = []
    for kind in ("gz", "zst"):
        style = r.random()
        if style < 0.2:
            cuts = []
        elif style < 0.4:
            cuts = sorted(r.sample(starts, min(len(starts), r.randint(1, 5))))
        elif style < 0.6:
            # inside of headers and markers
            cuts = sorted({max(0, min(len(data), s + r.randint(1, 19))) for s in r.sample(starts, min(len(starts), r.randint(1, 5)))})
        elif style < 0.8 and len(data) < 3000:
            step = r.choice((1, 3, 7, 16))
            cuts = list(range(step, min(len(data), 60 * step), step))
        else:
            cuts = sorted(r.randint(0, len(data)) for _ in range(r.randint(1, 8)))
        # empty members and frames, too
        if r.random() < 0.3:
            cuts = sorted(cuts + [r.choice(cuts + [len(data)])] * r.randint(1, 2))
        parts = evt.split_at(data, cuts)
        ctx.count("members", len(parts))
        if kind == "gz":
            out.append(("gz", b"".join(evt.gz_member(
                p, level=r.choice((0, 1, 6, 9)), name=r.choice((None, b"n.dat", b"other.gz")), comment=r.choice((None, b"c")),
                extra=r.choice((None, b"ab\x04\x00wxyz")), mtime=r.getrandbits(31)) for p in parts)))
        else:
            out.append(("zst", b"".join(evt.zst_frame(p, level=r.choice((1, 3, 19 if len(p) < 5000 else 3)), checksum=r.random() < 0.5,
                                                      content_size=r.random() < 0.5) for p in parts)))
    return out


def run_case(ctx, idx):
    from eventio import EventIOFile
    import eventio.base
    r, nrng = ctx.rng, ctx.nrng
    reader = None
    x = r.random()
    if x < 0.06:
        files = [f for f in real_files() if len(f[1]) < 4e6]
        path, data, nodes = files[idx % len(files)]
    elif x < 0.3:
        g = simgen.SimFile(r, nrng, n_tel=r.randint(1, 2), n_showers=r.randint(1, 2))
        nodes, data, reader = g.nodes, g.data(), "simtel"
    elif x < 0.45:
        g = iactgen.IactFile(r, nrng)
        nodes, data, reader = g.nodes, g.data(), "iact"
    elif x < 0.5:
        # larger than any buffer in between
        nodes = gentree.forest(r, nrng, depth=1)
        for _ in range(r.randint(1, 3)):
            size = r.choice((65536, 131072, 2**20, 3 * 2**20)) + r.randint(-3, 3)
            if r.random() < 0.15:
                size *= 8
            big = r.randbytes(size // 2) + bytes(size - size // 2)
            big = Node(r.choice((1234, 71)), 1, 0, big)
            if r.random() < 0.5:
                big = Node(70, 1, 0, children=[gentree.leaf(r, nrng), big, gentree.leaf(r, nrng)])
            nodes.insert(r.randint(0, len(nodes)), big)
        data = evt.encode_file(nodes)
        ctx.count("big_files")
    else:
        nodes = gentree.forest(r, nrng, depth=2)
        data = evt.encode_file(nodes)
    starts = [n.start for n in nodes]
    plain = ctx.write("orig", data)
    with EventIOFile(plain) as f:
        ref = dump(f)
    # the plain form is what was written (values are the business of other checks)
    with EventIOFile(plain) as f:
        check_tree(ctx, f, nodes, data)
    ev_ref = events(plain, reader, True) if reader else None
    empty = ctx.path("emptydir")
    os.mkdir(empty)
    # ways in which the external program can be unavailable
    missing = r.choice(("empty", "none", "forbidden", "format", "directory"))
    if missing == "forbidden":
        Path(empty, "gzip").write_bytes(b"#!/bin/sh\nexit 0\n")
        os.chmod(os.path.join(empty, "gzip"), 0o644)
    elif missing == "format":
        Path(empty, "gzip").write_bytes(b"\x7fELF no program")
        os.chmod(os.path.join(empty, "gzip"), 0o755)
    elif missing == "directory":
        os.mkdir(os.path.join(empty, "gzip"))
    ctx.info["missing"] = missing
    forms = [("plain", data)] + variants(ctx, data, nodes, starts)
    for kind, raw in forms:
        ways = {"plain": ["plain"], "gz": ["pipe", "module", "fallback"], "zst": ["zst"]}[kind]
        for way in ways:
            if way == "pipe" and r.random() < 0.4 and not ctx.rng.random() < 0.3:
                continue
            name = r.choice(NAMES)
            if name in ("orig", "emptydir"):
                continue
            full = ctx.path(name)
            Path(full).write_bytes(raw)
            # relative names with a leading dash look like options
            p = r.choice((full, name, Path(full), Path(name)))
            if name not in ("plain", "file.gz", "file.zst"):
                ctx.count("odd_names")
            ctx.info.update(way=way, name=repr(p), kind=kind)
            kw = {"zcat": way != "module"} if kind == "gz" else r.choice(({}, {"zcat": False}, {"zcat": True}))

            def run():
                with EventIOFile(p, **kw) as f:
                    got = dump(f)
                d = diff_dump(ref, got)
                ctx.check(d is None, f"{kind} by {way} as {p!r}: {d}")
                ctx.count("objects_compared", len(got))
                if kind != "plain":
                    # skipping: only some of the objects are read
                    with EventIOFile(p, **kw) as f:
                        k = 0
                        for o in f:
                            e = nodes[k]
                            k += 1
                            if e.children is None and r.random() < 0.3 and e.type not in (1201, 1205):
                                b = o.read(r.choice((-1, 1, 3)))
                                ctx.check(data[e.address:e.address + e.size].startswith(b), f"{kind} by {way}: payload of {e}")
                        ctx.check(k == len(nodes), f"{kind} by {way}: {k} objects, expected {len(nodes)}")
                if reader:
                    ev = events(p, reader, kw.get("zcat", True))
                    ctx.check(len(ev) == len(ev_ref), f"{kind} by {way}: {len(ev)} events instead of {len(ev_ref)}")
                    for a, b in zip(ev_ref, ev):
                        d = cmp.same(a, b, "event")
                        ctx.check(d is None, f"{kind} by {way}: {d}")
                    ctx.count("event_readers")
            if way == "fallback":
                with environ(PATH=empty + "/nothing" if missing == "none" else empty):
                    run()
                ctx.count("missing_" + missing)
            else:
                run()
            ctx.count({"pipe": "gzip_pipe", "module": "gzip_module", "fallback": "gzip_fallback", "zst": "zstd", "plain": "plain"}[way])
            os.unlink(full)
            ctx.nontrivial(raw, way)
    ctx.sample({"objects": len(ref), "bytes": len(data), "reader": reader})
