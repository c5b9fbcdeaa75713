"""Framing: everything that was written is delivered, once, in order, with its header"""
import os
import struct

import evt
import gentree
import spec
import classes
from common import check_object, check_tree, compress_random, fields, flat, node_fields, real_files
from evt import Node

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: reader checked object by object against an independent writer of the container format"
LEVEL_NOTE = "exploration by generated files (random trees, extreme field values, sparse files above 1 GiB) and all checked-in real files; every object delivered by the real reader is compared with what the independent writer encoded. Trusts lib/evt.py (validated by re-encoding the real files byte for byte)."
RULE = ("a case is one generated (or checked-in) file; two cases differ if their bytes differ; every case is iterated "
        "exhaustively and recursively and every object compared with the written one")
CASES = {"quick": 40000, "thorough": 1500000}
REQUIRE = {"objects_compared": 10000, "sparse_objects": 6, "types_seen": 60}
N_DIRECTED = 60


def iterate(ctx, data, nodes, kind="dat", zcat=True):
    from eventio import EventIOFile
    raw = data if kind == "dat" else compress_random(ctx.rng, data, kind)
    p = ctx.write("f." + kind, raw)
    ctx.info["file"] = f"{len(data)} bytes, {len(nodes)} top-level objects"
    with EventIOFile(p, zcat=zcat) as f:
        check_tree(ctx, f, nodes, data, seekable=kind != "zst")
        # the end is reached and stays reached
        for _ in range(2):
            try:
                o = next(f)
            except StopIteration:
                continue
            ctx.fail(f"object {o!r} after the end of the file")
    ctx.nontrivial(data)
    ctx.count("files")


def sparse(ctx, idx):
    """real sizes beyond 1 GiB and 4 GiB in sparse files"""
    from eventio import EventIOFile
    size = [2**30, 2**30 + 7, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 12345, 5 * 2**30 + 3][idx % 7]
    nested = idx >= 7
    path = ctx.path("sparse.dat")
    small = Node(7, -5, 3, b"end of the file")
    tail = b"last bytes of the big payload"
    with open(path, "wb") as f:
        if not nested:
            f.write(evt.header_bytes(1234, -7, 4095, True, True, size, False, True))
            start = f.tell()
            f.seek(start + size - len(tail))
            f.write(tail)
            big = Node(1234, -7, 4095, user=True, extended=True)
            big.start, big.address, big.size, big.header_size = 0, start, size, 20
            inner = []
        else:
            c1 = Node(77, 1, 2, extended=True)
            c2 = Node(2021, 9, 0, b"abcd")
            total = 16 + size + 12 + 4
            f.write(evt.header_bytes(2010, 3, 0, False, True, total, True, True))
            start = f.tell()
            f.write(evt.header_bytes(77, 1, 2, False, True, size, False, False))
            c1.address, c1.size, c1.header_size = f.tell(), size, 16
            f.seek(c1.address + size - len(tail))
            f.write(tail)
            f.write(evt.header_bytes(2021, 9, 0, False, False, 4, False, False) + b"abcd")
            c2.address, c2.size, c2.header_size = c1.address + size + 12, 4, 12
            big = Node(2010, 3, 0, children=[c1, c2], extended=True)
            big.start, big.address, big.size, big.header_size = 0, start, total, 20
            inner = [c1, c2]
        small.start = big.address + big.size
        b = evt.encode(small, True, small.start)
        f.write(b)
    with EventIOFile(path) as f:
        o = next(f)
        check_object(ctx, o, big, "sparse")
        if nested:
            got = list(o)
            ctx.check(len(got) == 2, f"{len(got)} objects in the big container")
            for c, n in zip(got, inner):
                check_object(ctx, c, n, "sparse nested")
            first = got[0]
        else:
            first = o
        first.seek(len(tail), 2)
        ctx.check(first.tell() == size - len(tail), f"position {first.tell()} from the end of {size}")
        ctx.check(first.read() == tail, "end of a big payload")
        first.seek(size - 4)
        ctx.check(first.read() == tail[-4:], "end of a big payload")
        if nested:
            ctx.check(got[1].read() == b"abcd", "payload behind a big object")
        o2 = next(f)
        check_object(ctx, o2, small, "behind sparse")
        ctx.check(o2.read() == b"end of the file", "payload behind a big object")
        ctx.count("sparse_objects")
        ctx.peak("object_size", size)
        ctx.nontrivial("sparse", idx)


def declared(ctx, idx):
    """all 42 bits of the size in the header (payload not present)"""
    from eventio import EventIOFile
    r = ctx.rng
    data = b""
    size = (1 << (idx % 42)) | r.getrandbits(42) * (idx // 42 % 2)
    ext = size >= 2**30 or r.random() < 0.5
    n = Node(r.choice((1234, 2010, 70)), 5, 1, extended=ext)
    data = evt.header_bytes(n.type, 5, 1, False, ext, size, False, True)
    n.start, n.address, n.size, n.header_size = 0, len(data), size, len(data)
    p = ctx.write("d.dat", data)
    with EventIOFile(p) as f:
        check_object(ctx, next(f), n, "declared")
    ctx.count("declared_sizes")


def run_case(ctx, idx):
    r, nrng = ctx.rng, ctx.nrng
    if idx < 14:
        return sparse(ctx, idx)
    if idx < 30:
        # every bit of every header field on its own
        nodes = []
        for bit in range(16):
            nodes.append(Node(1 << bit, 0, 0, b"x"))
            nodes.append(Node(0xFFFF ^ (1 << bit), -1, 0xFFF, b""))
        for bit in range(32):
            v = 1 << bit
            nodes.append(Node(4321, v - (1 << 32) if v >= 1 << 31 else v, 0, b"ab"))
        for bit in range(12):
            nodes.append(Node(4321, 0, 1 << bit, b"abc"))
        for user in (0, 1):
            for ext in (0, 1):
                for sub in (0, 1):
                    nodes.append(Node(4321, 1, 5, children=[], user=user, extended=ext) if sub
                                 else Node(4321, 1, 5, b"", user=user, extended=ext))
        nodes = [n for n in nodes if classes.expected_class(n.type) == classes.GENERIC]
        r.shuffle(nodes)
        if idx % 2:
            nodes = [Node(9999, k, 0, children=nodes[k::4], extended=k % 2) for k in range(4)]
        ctx.count("types_seen", len({n.type for n in flat(nodes)}))
        return iterate(ctx, evt.encode_file(nodes), nodes)
    if idx < 34:
        # every known type
        nodes = []
        for t in classes.known_types():
            nodes.append(Node(t, r.randint(0, 1000), r.randint(0, 4095), r.randbytes(12 + r.randint(0, 9))))
        nodes += [Node(65535, 0, 0, b""), Node(0, 0, 0, b"")]
        for tel in range(idx - 30, 1000, 4):
            nodes.append(Node(spec.telescope_type(2100, tel), spec.split_tel(tel, 0x300), 0, r.randbytes(16)))
            nodes.append(Node(spec.telescope_type(2200, tel), tel, 0, children=[]))
        # neighbours of the telescope types belong to no class
        for d in range(13):
            nodes += [Node(t, 1, 1, b"z") for t in (2099 + 1000 * d, 2300 + 1000 * d)]
        nodes += [Node(12100, 1, 1, b""), Node(12299, 1, 1, b"")]
        r.shuffle(nodes)
        ctx.count("types_seen", len({n.type for n in nodes}))
        return iterate(ctx, evt.encode_file(nodes), nodes)
    if idx < 42:
        nodes = [gentree.deep(r, nrng, r.choice((20, 60, 150))) for _ in range(3)]
        return iterate(ctx, evt.encode_file(nodes), nodes)
    if idx < N_DIRECTED:
        files = real_files()
        for path, raw, nodes in files[(idx - 42)::N_DIRECTED - 42]:
            from eventio import EventIOFile
            with EventIOFile(path) as f:
                check_tree(ctx, f, nodes, raw, payloads=False)
            ctx.nontrivial(path)
            ctx.count("real_files")
        return
    if idx < N_DIRECTED + 84:
        return declared(ctx, idx - N_DIRECTED)
    big = r.random() < 0.05
    nodes = gentree.forest(r, nrng, n=r.randint(20, 60) if big else None, depth=r.choice((1, 2, 3, 5)),
                           maxlen=r.choice((20, 60, 5000 if big else 60)))
    data = evt.encode_file(nodes)
    ctx.count("types_seen", len({n.type for n in flat(nodes)}))
    kind = r.choice(("dat", "dat", "dat", "gz", "zst"))
    ctx.sample({"top_level": [repr(n) for n in nodes[:4]], "bytes": len(data), "stored_as": kind})
    # an external process per file is slow, P05 is about that
    iterate(ctx, data, nodes, kind, zcat=False)
