"""Cutting a file keeps the longest run of complete objects that fits"""
import gzip
import os
import zlib

import evt
import gentree
import iactgen
import simgen
import tools
from common import compress_random, real_files
from evt import Node

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: files written by the cutting tool compared byte for byte with the prefix computed from the written tree"
LEVEL_NOTE = ("exploration: generated and checked-in files (plain, gzip, zstd; small objects, extended headers, objects up to several MB, nested ones), limits at, one byte "
              "around and far from all object boundaries, with and without suffixes, both kinds of output, new and existing output files, invalid sizes. "
              "Limits below the first object give an empty file; the input as output in several notations. Truncated input is not generated.")
RULE = "a case is one file cut with several limits; distinct by file content and limits"
CASES = {"quick": 2500, "thorough": 80000}
REQUIRE = {"cuts": 6000, "at_boundary": 1600, "one_less": 600, "one_more": 600, "suffix_k": 500, "suffix_M": 300, "suffix_G": 150, "gz_output": 2500, "plain_output": 4000,
           "rejected": 1000, "real_files": 14, "whole_file": 1000, "compressed_input": 800, "sparse_cuts": 60, "sparse_1G": 1, "nothing_fits": 200, "itself": 150}
UNITS = {"k": 1024, "M": 1024**2, "G": 1024**3}
INVALID = ("", "k", "M", "1K", "1m", "1g", "1kB", "1kk", "kb", "1.5k", "1.5", "-1", "-5k", "+5", "1 k", " 1", "1 ", "1k ", "1e3", "0x10", "abc", "1T", "1k5", "k1", "1,000",
           "1_000", "5\n", "5k\n", "1.k", ".5M", "1/2k", "5b", "5B", "NaN", "inf", "1kM", "10k10M")


def cut(ctx, path, raw, ends, size, limit, plain_ok=True):
    r = ctx.rng
    n = max([e for e in ends if e <= limit], default=0)
    ctx.count("nothing_fits", not n)
    gz = r.random() < 0.35
    name = r.choice(("out.dat", "out", "out.gz.dat", "outgz", "out.GZ", "out.zst", "gz")) if not gz else r.choice(("out.gz", "a.b.gz", ".gz"))
    out = ctx.path(name)
    if r.random() < 0.3:
        # an old, longer file is replaced completely
        with open(out, "wb") as f:
            f.write(r.randbytes(n + 100))
    before = open(path, "rb").read()
    res = tools.run("cut_eventio_file", path, out, size)
    what = f"cut at {size} ({limit}), boundaries {[e for e in ends if abs(e - limit) < 10**6][:6]}: "
    ctx.check(res.ok, lambda: what + f"failed: {res}")
    with open(out, "rb") as f:
        b = f.read()
    is_gz = b[:2] == b"\x1f\x8b" and raw[:2] != b"\x1f\x8b"
    ctx.check(is_gz == gz, lambda: what + f"output {name} is {'' if is_gz else 'not '}gzip compressed")
    if gz:
        try:
            b = gzip.decompress(b)
        except (OSError, EOFError, zlib.error) as e:
            ctx.fail(what + f"output is not a valid gzip file: {e}")
    if b != raw[:n]:
        k = next((i for i, (x, y) in enumerate(zip(b, raw[:n])) if x != y), min(len(b), n))
        ctx.fail(what + f"{len(b)} bytes written, expected the first {n}; first difference at {k}")
    ctx.check(open(path, "rb").read() == before, what + "input file changed")
    os.unlink(out)
    ctx.count("cuts")
    ctx.count("gz_output" if gz else "plain_output")
    ctx.count("at_boundary", limit in ends)
    ctx.count("one_less", limit + 1 in ends)
    ctx.count("one_more", limit - 1 in ends)
    ctx.count("whole_file", n == len(raw))


def sparse(ctx, big):
    """files with holes, cut near boundaries at large sizes"""
    r = ctx.rng
    G = 1024**3
    if big:
        # the first object ends between 1000 and 1024 times a million
        sizes = [r.randint(1000**3, G - 1000), r.choice((2, 20, 500)), r.randint(100, 10**7)]
    else:
        sizes = [r.choice((5, 1000, r.randint(1, 70) << 20, r.randint(2**24, 2**26))) for _ in range(r.randint(2, 4))]
    path, out = ctx.path("sparse"), ctx.path("sparse.out")
    heads, pos = [], 0
    with open(path, "wb") as f:
        for k, n in enumerate(sizes):
            h = evt.header_bytes(2024, k, 0, False, n >= 2**30, n, False, True) + r.randbytes(1)
            f.seek(pos)
            f.write(h)
            heads.append((pos, h))
            pos += len(h) - 1 + n
            heads.append((pos - 1, b"\x7f"))
            f.seek(pos - 1)
            f.write(b"\x7f")
    ends = [p + 1 for p, _ in heads[1::2]]
    if big:
        limits = [r.choice((("1G", G), (f"{G // 1024}k", G), (str(ends[0]), ends[0])))]
    else:
        limits = [(str(x), x) for x in (r.choice(ends) + r.choice((-1, 0, 0, 1)) for _ in range(3))]
        limits += [(f"{x}k", x * 1024) for x in (-(-r.choice(ends) // 1024) - r.choice((0, 0, 1)) for _ in range(2))]
    for size, limit in limits:
        n = max([e for e in ends if e <= limit], default=0)
        if not n:
            continue
        res = tools.run("cut_eventio_file", path, out, size)
        ctx.check(res.ok, lambda: f"cut at {size}, boundaries {ends}: {res}")
        got = os.path.getsize(out)
        ctx.check(got == n, lambda: f"cut at {size} ({limit}), boundaries {ends}: {got} bytes written, expected {n}")
        with open(out, "rb") as f:
            for p, h in heads:
                if p < n:
                    f.seek(p)
                    b = f.read(len(h))
                    ctx.check(b == h, lambda: f"cut at {size}, boundaries {ends}: {b!r} at {p}, expected {h!r}")
        os.unlink(out)
        ctx.count("sparse_cuts")
    if big:
        ctx.count("sparse_1G")
    ctx.nontrivial("sparse", sizes, limits)


def reject(ctx, path, size):
    out = ctx.path("rejected" + ctx.rng.choice(("", ".gz")))
    existing = ctx.rng.random() < 0.3
    if existing:
        open(out, "w").write("precious")
    res = tools.run("cut_eventio_file", path, out, *([size] if not size.startswith("-") or ctx.rng.random() < 0.5 else ["--", size]))
    ctx.check(not res.ok, lambda: f"size {size!r} accepted: {res}")
    if existing:
        ctx.check(open(out).read() == "precious", f"size {size!r} rejected, but the output was overwritten")
        os.unlink(out)
    else:
        ctx.check(not os.path.exists(out), f"size {size!r} rejected, but an output was created")
    ctx.count("rejected")


def itself(ctx, path, size):
    """the output is the input"""
    r = ctx.rng
    before = open(path, "rb").read()
    out = ctx.path(r.choice(("link", "link.gz")))
    x = r.random()
    if x < 0.4:
        out = r.choice((path, os.path.relpath(path), os.path.join(os.path.dirname(path), ".", os.path.basename(path))))
    elif x < 0.7:
        os.symlink(path, out)
    else:
        os.link(path, out)
    res = tools.run("cut_eventio_file", path, out, size)
    ctx.check(open(path, "rb").read() == before, lambda: f"output {os.path.basename(out)} is the input, which was changed: {res}")
    ctx.check(not res.ok, lambda: f"output {os.path.basename(out)} is the input: {res}")
    if x >= 0.4:
        os.unlink(out)
    ctx.count("itself")


def run_case(ctx, idx):
    r = ctx.rng
    real = real_files()
    if idx % 1250 == 600 or idx % 100 == 99:
        return sparse(ctx, idx % 1250 == 600)
    if idx < len(real):
        path, raw, nodes = real[idx]
        ctx.count("real_files")
        n_cuts = 3
    else:
        x = r.random()
        if x < 0.1:
            nodes = simgen.SimFile(r, ctx.nrng, n_tel=1, n_showers=1).nodes
        elif x < 0.2:
            nodes = iactgen.IactFile(r, ctx.nrng, n_showers=2).nodes
        elif x < 0.25:
            nodes = [Node(2024, k, 0, r.randbytes(r.choice((1000, 65536, 10**6, 3 * 10**6)))) for k in range(r.randint(1, 4))]
        elif x < 0.45:
            # boundaries at multiples of the units
            nodes, pos = [], 0
            for k in range(r.randint(1, 8)):
                unit = r.choice((1024, 1024, 2048, 10240, 1024**2))
                ext = r.random() < 0.3
                head = 20 if ext else 16
                payload = r.randbytes(1) * (-(pos + head) % unit)
                pos += head + len(payload)
                nodes.append(Node(2024, k, 0, payload, user=r.random() < 0.5, extended=ext))
        else:
            nodes = gentree.forest(r, ctx.nrng, r.randint(1, 25), depth=2)
        raw = evt.encode_file(nodes)
        kind = r.choice(("dat", "dat", "gz", "zst"))
        if kind != "dat":
            ctx.count("compressed_input")
        path = ctx.write("input" + r.choice(("", ".gz", ".dat")), raw if kind == "dat" else compress_random(r, raw, kind))
        n_cuts = 5
    ends = [n.start + n.header_size + n.size for n in nodes]
    ctx.check(ends[-1] == len(raw), "internal")
    limits = []
    for _ in range(n_cuts):
        x = r.random()
        if x < 0.25:
            limits.append((None, r.choice(ends)))
        elif x < 0.45:
            limits.append((None, r.choice(ends) + r.choice((-1, 1))))
        elif x < 0.55:
            limits.append((None, r.randint(ends[0], ends[-1] + 10)))
        elif x < 0.6:
            limits.append((None, ends[-1] * r.randint(2, 10**6)))
        elif x < 0.65:
            limits.append((None, r.choice(nodes).address + r.randint(-4, 4)))
        elif x < 0.68:
            limits.append((None, r.choice((0, 1, 16, ends[0] - 1))))
        else:
            u = r.choice("kkMMG")
            limits.append((u, max(0, r.choice((1, r.choice(ends) // UNITS[u], r.choice(ends) // UNITS[u] + 1, r.randint(1, 100), 0)))))
    for u, v in limits:
        size = str(v) if r.random() < 0.9 else "00" + str(v)
        if u:
            size += u
            ctx.count("suffix_" + u)
        cut(ctx, path, raw, ends, size, v * UNITS.get(u, 1))
    if r.random() < 0.8:
        reject(ctx, path, r.choice(INVALID) if r.random() < 0.8 else str(r.randint(0, 10**6)) + r.choice(("K", "m", "g", "kB", "MB", "GB", " k", "T", "P", "b", "kk", "Mk", ".")))
    if idx >= len(real) and r.random() < 0.15:
        itself(ctx, path, str(r.choice(ends)))
    ctx.nontrivial(raw, limits)
    if idx < 40:
        ctx.sample({"objects": len(nodes), "bytes": len(raw), "limits": limits})
