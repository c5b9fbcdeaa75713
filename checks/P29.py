"""Only eventio files are accepted and byte order is never guessed"""
import contextlib
import gzip
import os

import evt
import gentree
import iactgen
import simgen
from common import caught, check_object, compress_random
from evt import Node

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: acceptance, recognition and outcome of reading observed for files with systematically and randomly altered leading bytes and markers"
LEVEL_NOTE = ("all single bit and single byte alterations of the marker at the start (plain, gzip, zstd) and all lengths from 0 to 8, random prefixes and names, "
              "contents compressed twice; later markers replaced by altered, swapped, zero, random and shifted ones at every object of random files, in all readers.")
RULE = "a case is a batch of leading byte sequences or a file with one wrong later marker read by iteration; distinct by bytes"
CASES = {"quick": 12000, "thorough": 400000}
REQUIRE = {"refused": 8000, "accepted": 2500, "big_endian": 800, "recognised_gzip": 1500, "recognised_zstd": 1500, "wrong_markers": 2000, "objects_before": 3000, "swapped_markers": 200,
           "reader_markers": 300, "insisted": 1000}
LE = evt.SYNC_LE
BE = evt.SYNC_LE[::-1]
GZ, ZST = b"\x1f\x8b", b"\x28\xb5\x2f\xfd"
NAMES = ("f", "f.gz", "f.zst", "f.simtel.gz", "f.dat", "f.simtel.zst", "f.txt", "-f", "f f", "ümlaut.gz", "-d.gz", "f.simtel")


def judge(ctx, raw, name):
    """everything that decides what a file is"""
    from eventio import EventIOFile
    from eventio.file_types import is_eventio, is_gzip, is_zstd
    r = ctx.rng
    path = ctx.write(name, raw)
    if name.startswith("-") and r.random() < 0.5:
        path = name           # the working directory of the worker is the directory of the file
    gz, zst = raw[:2] == GZ, raw[:4] == ZST
    if gz or zst:
        try:
            inner = evt.decompress(raw)[:4]
            valid = True
        except Exception:
            inner, valid = None, False
    else:
        inner, valid = raw[:4], True
    what = f"{name} with {raw[:8].hex()} ({len(raw)} bytes{', contains ' + inner.hex() if (gz or zst) and inner is not None else ''}): "
    a = is_gzip(path)
    ctx.check(a is gz, lambda: what + f"is_gzip {a}")
    ctx.count("recognised_gzip", gz)
    a = is_zstd(path)
    ctx.check(a is zst, lambda: what + f"is_zstd {a}")
    ctx.count("recognised_zstd", zst)
    want = inner in (LE, BE) if valid else None
    try:
        a = is_eventio(path)
    except Exception as e:
        ctx.check(not valid, lambda: what + f"is_eventio raised {e!r}")
    else:
        if valid:
            ctx.check(a is want, lambda: what + f"is_eventio {a}, expected {want}")
    with caught():
        try:
            f = EventIOFile(path, zcat=r.random() < 0.3)
        except Exception as e:
            ctx.check(not want, lambda: what + f"refused with {e!r}")
            if valid and not (gz or zst):
                ctx.check(isinstance(e, ValueError), lambda: what + f"refused with {e!r}")
            ctx.count("refused")
            return
        with f:
            if not valid:
                # damaged compressed data may be noticed while reading
                return
            ctx.check(want, lambda: what + "opened")
            ctx.count("accepted")
            if inner == BE:
                for _ in range(2):
                    x = None
                    try:
                        x = f.peek() if r.random() < 0.2 else next(f)
                    except NotImplementedError:
                        ctx.count("big_endian")
                    except OSError:
                        ctx.check(_ == 1, what + "big endian data not refused with the not implemented error")
                    except StopIteration:
                        ctx.fail(what + "iteration over big endian data ends normally")
                    ctx.check(x is None, lambda: what + f"delivered {x}")


def prefixes(ctx, idx):
    r = ctx.rng
    tail = evt.encode_file([Node(2024, 1, 0, r.randbytes(20))])[4:]
    out = []
    if idx < 32:
        m = bytearray(LE if idx % 2 == 0 else BE)
        k = idx // 2
        for v in range(k * 16, k * 16 + 16):
            for pos in range(4):
                b = bytearray(m)
                b[pos] = v
                out.append(bytes(b) + tail)
    elif idx < 40:
        n = idx - 32
        out += [x[:n] for x in (LE + tail, BE + tail, GZ + b"\x08" + tail, ZST + tail, b"\0" * 20, b"\xff" * 20)]
    for _ in range(6):
        x = r.random()
        if x < 0.3:
            b = bytearray(r.choice((LE, BE)))
            for _ in range(r.randint(0, 2)):
                b[r.randrange(4)] ^= 1 << r.randrange(8)
            b = bytes(b) + tail
        elif x < 0.5:
            p = bytearray(r.choice((LE, BE)))
            r.shuffle(p)
            b = bytes(p) + tail
        elif x < 0.7:
            b = r.randbytes(r.randint(0, 40))
        elif x < 0.8:
            b = r.randbytes(r.randint(1, 3)) + LE + tail
        else:
            b = (LE, BE)[r.random() < 0.3] + tail
        out.append(b)
    for b in out:
        x = r.random()
        if x < 0.4:
            raw = b
        elif x < 0.65:
            raw = compress_random(r, b, "gz")
        elif x < 0.9:
            raw = compress_random(r, b, "zst")
        elif x < 0.95:
            # compressed twice
            raw = compress_random(r, compress_random(r, b, r.choice(("gz", "zst"))), r.choice(("gz", "zst")))
        else:
            raw = (GZ, ZST, GZ[:1], ZST[:3], GZ + b"\x08")[r.randrange(5)] + r.randbytes(r.randint(0, 60))
        judge(ctx, raw, r.choice(NAMES))
        ctx.nontrivial(raw)
    if idx < 3:
        ctx.sample({"prefixes": [b[:6].hex() for b in out[:6]]})


def bad_marker(r):
    x = r.random()
    if x < 0.2:
        return BE
    if x < 0.4:
        b = bytearray(LE)
        b[r.randrange(4)] ^= 1 << r.randrange(8)
        return bytes(b)
    if x < 0.5:
        b = bytearray(LE)
        b[r.randrange(4)] = r.randrange(256)
    elif x < 0.6:
        b = bytearray(LE[2:] + LE[:2])
    elif x < 0.7:
        b = bytearray(r.choice((b"\0\0\0\0", b"\xff\xff\xff\xff", GZ + GZ, ZST)))
    elif x < 0.8:
        b = bytearray(LE[1:] + b"\0")
    else:
        b = bytearray(r.randbytes(4))
    return bytes(b) if bytes(b) != LE else BE


def later(ctx):
    """a wrong marker at a later object"""
    from eventio import EventIOFile
    r = ctx.rng
    nodes = gentree.forest(r, ctx.nrng, r.randint(2, 10), depth=2)
    data = bytearray(evt.encode_file(nodes))
    k = r.randrange(1, len(nodes))
    at = nodes[k].start
    mode = r.random()
    if mode < 0.75:
        m = bad_marker(r)
        data[at:at + 4] = m
    elif mode < 0.9:
        # bytes inserted or lost in front of the marker
        m = None
        if r.random() < 0.5:
            ins = r.randbytes(r.randint(1, 20))
            if (ins + bytes(data[at:at + 4]))[:4] == LE:
                return
            data[at:at] = ins
        else:
            cut = r.randint(1, min(16, len(data) - at - 4))
            if bytes(data[at + cut:at + cut + 4]) == LE:
                return
            del data[at:at + cut]
            if len(data) - at < 4:
                return
    else:
        # byte swapped object as from a big endian machine
        m = BE
        for i in range(at, min(at + nodes[k].header_size, len(data)) - 3, 4):
            data[i:i + 4] = data[i:i + 4][::-1]
    data = bytes(data)
    kind = r.choice(("dat", "dat", "gz", "pipe", "zst"))
    path = ctx.write("later", data if kind == "dat" else compress_random(r, data, "zst" if kind == "zst" else "gz"))
    what = f"marker {data[at:at + 4].hex()} at object {k} of {len(nodes)} ({kind}): "
    with EventIOFile(path, zcat=kind == "pipe") as f, caught():
        for i in range(k):
            check_object(ctx, next(f), nodes[i], what)
            ctx.count("objects_before")
        x = None
        try:
            if r.random() < 0.2:
                x = f.peek()
            x = x or next(f)
        except StopIteration:
            ctx.fail(what + "iteration ends normally")
        except Exception as e:
            if m == BE:
                ctx.check(isinstance(e, NotImplementedError), lambda: what + f"{e!r} instead of the not implemented error")
                ctx.count("swapped_markers")
            else:
                ctx.check(isinstance(e, ValueError), lambda: what + f"{e!r}")
        ctx.check(x is None, lambda: what + f"delivered {x}")
        ctx.count("wrong_markers")
        # insisting does not help
        for _ in range(r.randint(0, 3)):
            try:
                x = next(f)
            except StopIteration:
                ctx.fail(what + "iteration ends normally at the second attempt")
            except Exception:
                ctx.count("insisted")
            ctx.check(x is None, lambda: what + f"delivered {x} at the second attempt")
    ctx.nontrivial(data, kind)


def readers(ctx):
    """event readers do not resynchronise either"""
    from eventio import IACTFile, SimTelFile
    r = ctx.rng
    if r.random() < 0.5:
        g = simgen.SimFile(r, ctx.nrng, n_tel=1, n_showers=2)
        cls, diff, kw = SimTelFile, simgen.diff_event, {"skip_non_triggered": False}
        first = g.header_end
    else:
        g = iactgen.IactFile(r, ctx.nrng, n_tel=1, n_showers=r.randint(1, 3))
        cls, diff, kw = IACTFile, iactgen.diff_event, {}
        first = g.body
    data = bytearray(g.data())
    last = len(g.nodes) if cls is SimTelFile else g.events_end + 1
    if first >= last:
        return
    k = r.randrange(first, last)
    if cls is SimTelFile and any(n.type == 100 for n in g.nodes[:k]):
        return
    at = g.nodes[k].start
    data[at:at + 4] = bad_marker(r)
    kind = r.choice(("dat", "gz", "zst"))
    path = ctx.write("reader", bytes(data) if kind == "dat" else compress_random(r, bytes(data), kind))
    what = f"{cls.__name__}, marker {data[at:at + 4].hex()} at object {k} of {len(g.nodes)}: "
    got = []
    with caught(), cls(path, **kw) as f:
        try:
            for ev in f:
                got.append(ev)
        except (ValueError, NotImplementedError):
            ctx.count("reader_markers")
        else:
            ctx.fail(what + f"iteration ends normally after {len(got)} events")
    ctx.check(len(got) <= sum(e["_start"] < k for e in g.events), lambda: what + f"{len(got)} events delivered, {[(e['_start'], e['_end']) for e in g.events]}")
    for e, ev in zip(g.events, got):
        if e["_end"] <= k:
            d = diff(e, ev)
            ctx.check(d is None, lambda: what + str(d))
    ctx.nontrivial(bytes(data), kind)


def run_case(ctx, idx):
    if idx < 40 or ctx.rng.random() < 0.3:
        prefixes(ctx, idx)
    elif ctx.rng.random() < 0.85:
        later(ctx)
    else:
        readers(ctx)
