"""Failed reads and damaged compressed data are never mistaken for the end"""
import ctypes
import errno
import os
import signal
import zlib
from pathlib import Path

import zstandard

import evt
import gentree
import iactgen
import simgen
from common import caught, check_object, children, environ, payload_of
from evt import Node
from harness import HarnessError

PRELOAD = "fault"
LEVEL = "fault_enumeration"
TECHNIQUE = ("runtime monitoring with fault injection: damaged compressed data, failing or killed decompressor processes and failing read() calls "
             "of the operating system, end of iteration and delivered objects observed")
LEVEL_NOTE = ("exploration: random files, damage (cuts, flipped bits, overwritten, removed and repeated bytes, wrong checksums and lengths) behind the "
              "compressed headers, programs failing after any number of bytes, processes killed at any point, read errors at any offset, short and "
              "interrupted reads. Which damaged data is valid after all is decided by zlib and zstandard. Damaged headers of gzip members, "
              "garbage behind complete data and zstd data without checksums (apart from cuts) are not included.")
RULE = "a case is one file with a number of faults, each read to the end by a reader; distinct by content and fault"
CASES = {"quick": 1440, "thorough": 14000}
REQUIRE = {"gz_damaged": 2000, "gz_pipe": 1000, "gz_module": 1000, "zst_damaged": 500, "at_boundary": 700, "programs": 350, "program_failed": 250,
           "killed": 40, "killed_early": 25, "os_errors": 600, "os_errors_pipe": 80, "short_reads": 5000, "interrupted": 2000, "retried": 300,
           "sim_cut": 250, "iact_cut": 120, "valid": 300, "pipe_errors": 80, "reader_errors": 130}

LIB = ctypes.CDLL(os.environ["VERIF_PRELOAD"]) if "VERIF_PRELOAD" in os.environ else None
KEY_ZST = "zstd-cut-at-object-boundary"


def fault(path, chunk=0, interrupts=0, offset=-1, err=errno.EIO, count=-1, seed=1):
    if LIB.fault_set(os.fsencode(path), ctypes.c_long(chunk), interrupts, ctypes.c_long(offset), err, ctypes.c_long(count),
                     ctypes.c_ulong(seed)):
        raise HarnessError("fault_set")


def setup(ctx):
    if LIB is None:
        raise HarnessError("not preloaded")
    p = ctx.write("self", b"0123456789" * 10)
    fault(p, offset=20)
    try:
        with open(p, "rb", buffering=0) as f:
            ok = f.read(15) == b"012345678901234" and f.read(15) == b"56789"
            try:
                f.read(1)
                ok = False
            except OSError as e:
                ok = ok and e.errno == errno.EIO
    finally:
        LIB.fault_clear()
    if not ok:
        raise HarnessError("faults are not injected")


class Progress:
    """objects delivered by a complete traversal, each compared with the tree"""

    def __init__(self):
        self.n = 0


def traverse(ctx, it, nodes, data, prog, compare=True, level=0):
    k = 0
    for o in it:
        if compare:
            ctx.check(k < len(nodes), lambda: f"additional object {o!r}")
            check_object(ctx, o, nodes[k], f"level {level} index {k}:")
        if o.only_subobjects:
            traverse(ctx, o, nodes[k].children if compare else None, data, prog, compare, level + 1)
        else:
            pos = o.tell() if not compare or nodes[k].type in (1201, 1205) else 0
            b = o.read()
            if compare:
                e = payload_of(nodes[k], data)
                ctx.check(e.endswith(b) and (pos or b == e), lambda: f"payload of {nodes[k]}: {b[:30]!r}...")
        k += 1
        prog.n += 1
    if compare:
        prog.last = k
    return k


def read_all(ctx, path, nodes, data, compare=True, **kw):
    """-> (kind of end, number of top level objects if it was normal)"""
    from eventio import EventIOFile
    prog = Progress()
    try:
        with EventIOFile(path, **kw) as f:
            k = traverse(ctx, f, nodes, data, prog, compare)
            again = next(f, None)
            if again is not None:
                ctx.fail(f"object {again!r} after the end")
    except (AssertionError, HarnessError):
        raise
    except Exception as e:
        if type(e).__name__ == "Violation":
            raise
        return f"{type(e).__name__}: {e}", prog.n
    return "end", k


# ------------------------------------------------------------------ oracles of damaged data
def gz_state(raw):
    """(decoded bytes, complete?) of gzip data; None if it is not valid"""
    out = b""
    while raw:
        d = zlib.decompressobj(31)
        try:
            out += d.decompress(raw)
            out += d.flush()
        except zlib.error:
            return out, None
        if not d.eof:
            return out, False
        raw = d.unused_data
        if raw and not raw.startswith(b"\x1f\x8b"):
            # padding, garbage or a damaged header
            return out, "garbage" if raw.strip(b"\0") else True
    return out, True


def zst_state(raw):
    out = b""
    while raw:
        d = zstandard.ZstdDecompressor().decompressobj()
        try:
            out += d.decompress(raw)
        except zstandard.ZstdError:
            return out, None
        if not d.eof:
            return out, False
        raw = d.unused_data
    return out, True


def boundary(nodes, n):
    """complete top level objects in n bytes, or None if n is inside of an object"""
    ends = [0] + [x.address + x.size for x in nodes]
    return ends.index(n) if n in ends else None


def gz_parts(r, data, nodes):
    """members of random size, often one object each: (bytes, ranges without headers)"""
    ends = [x.address + x.size for x in nodes]
    x = r.random()
    if x < 0.3:
        cuts = []
    elif x < 0.7:
        cuts = sorted(r.sample(ends[:-1], min(len(ends) - 1, r.randint(1, 6)))) if len(ends) > 1 else []
    else:
        cuts = sorted(r.randint(0, len(data)) for _ in range(r.randint(1, 4)))
    return evt.split_at(data, cuts)


def damage(r, raw, ranges):
    """damaged copy, kind"""
    x = r.random()
    lo, hi = r.choice(ranges)
    pos = r.randrange(lo, hi)
    if x < 0.45:
        return raw[:r.choice((pos, pos, hi - 1, hi - 4, max(lo, hi - 8), r.randrange(max(1, ranges[0][0] + 20), len(raw)) if len(raw) > ranges[0][0] + 21 else pos))], "cut"
    b = bytearray(raw)
    if x < 0.7:
        b[pos] ^= 1 << r.randrange(8)
        return bytes(b), "flip"
    if x < 0.8:
        n = min(r.randint(1, 20), hi - pos)
        b[pos:pos + n] = r.randbytes(n)
        return bytes(b), "overwrite"
    if x < 0.9:
        # checksum and length
        k = hi - r.randint(1, min(8, hi - lo))
        b[k] ^= r.randint(1, 255)
        return bytes(b), "trailer"
    n = min(r.randint(1, 20), hi - pos)
    if r.random() < 0.5:
        del b[pos:pos + n]
        return bytes(b), "remove"
    b[pos:pos] = b[pos:pos + n]
    return bytes(b), "repeat"


def judge(ctx, what, raw, decoded, state, data, nodes, path, kw):
    """one damaged compressed file"""
    if state == "garbage":
        ctx.count("garbage")
        return
    # (before the damage is noticed, anything can be delivered)
    prefix = data.startswith(decoded) and what.split()[1] in ("cut", "intact", "whole")
    if state is True and decoded != data and not data.startswith(decoded):
        ctx.count("other_valid_data")
        return
    with caught():
        end, n = read_all(ctx, path, nodes, data, compare=prefix, **kw)
    if state is True:
        k = boundary(nodes, len(decoded))
        if decoded == data:
            ctx.check(end == "end" and n == len(nodes), lambda: f"{what}: valid data ended with {end} after {n} objects")
        elif k is not None and k > 0:
            ctx.check(end == "end" and n == k, lambda: f"{what}: {k} complete objects, ended with {end} after {n}")
        else:
            ctx.check(end != "end", lambda: f"{what}: cut at {len(decoded)} inside of an object, ended normally")
        ctx.count("valid")
        return
    if prefix and boundary(nodes, len(decoded)) is not None:
        ctx.count("at_boundary")
    if what.startswith("zst") and state is False and end == "end":
        # recorded (the objects delivered are correct), other faults of the same file are still to be seen
        k = sum(x.address + x.size <= len(decoded) for x in nodes)
        ctx.check(n <= k, lambda: f"{what}: {k} complete objects, {n} delivered")
        ctx.known = True
        return
    ctx.check(end != "end", lambda: f"{what}: {len(decoded)} of {len(data)} bytes can be decoded, ended normally after {n} objects")


def compressed(ctx):
    r = ctx.rng
    nodes, data = content(ctx)
    kind = r.choice(("gz", "gz", "zst"))
    parts = gz_parts(r, data, nodes)
    raw, ranges = b"", []
    for p in parts:
        if kind == "gz":
            m = evt.gz_member(p, level=r.choice((0, 1, 6, 9)), name=r.choice((None, b"n")))
            head = 10 if m[3] == 0 else 12
        else:
            m = evt.zst_frame(p, level=r.choice((1, 3, 9)), checksum=True, content_size=r.random() < 0.5)
            head = 0
        ranges.append((len(raw) + head, len(raw) + len(m)))
        raw += m
    ctx.known = False
    for _ in range(6):
        if r.random() < 0.15:
            bad, what = (raw, "intact") if r.random() < 0.4 else (raw[:r.choice(ranges)[1]], "whole parts")
        else:
            bad, what = damage(r, raw, ranges)
            if bad == raw:
                continue
        if len(bad) < 20:
            continue
        decoded, state = (gz_state if kind == "gz" else zst_state)(bad)
        p = ctx.write("f." + kind, bad)
        ways = [{"zcat": True}, {"zcat": False}] if kind == "gz" else [{}]
        for kw in ways:
            text = f"{kind} {what} {kw}"
            ctx.info.update(fault=text, size=len(bad), state=state, parts=len(parts))
            judge(ctx, text, bad, decoded, state, data, nodes, p, kw)
            ctx.count(kind + "_damaged")
            if kind == "gz":
                ctx.count("gz_pipe" if kw["zcat"] else "gz_module")
        ctx.nontrivial(bad)
    if ctx.known:
        ctx.fail("zstd file cut inside of a frame where an object ends: ended normally", KEY_ZST)


def content(ctx, big=False):
    r = ctx.rng
    while True:
        nodes = gentree.forest(r, ctx.nrng, n=r.randint(1, 10), depth=r.choice((0, 1, 2)))
        if big:
            for _ in range(r.randint(3, 6)):
                nodes.insert(r.randint(0, len(nodes)), Node(1234, 1, 0, r.randbytes(r.randint(50000, 200000))))
        data = evt.encode_file(nodes)
        if len(data) > 20:
            return nodes, data


# ------------------------------------------------------------------ programs
def programs(ctx):
    """a gzip program that fails after some bytes"""
    from eventio import EventIOFile
    r = ctx.rng
    nodes, data = content(ctx, big=r.random() < 0.3)
    src = ctx.write("data", data)
    p = ctx.write("f.gz", evt.gz_member(data))
    d = ctx.path("bin")
    os.mkdir(d)
    prog = Path(d, "gzip")
    ends = [0] + [n.address + n.size for n in nodes]
    for _ in range(4):
        k = r.choice((r.choice(ends), r.choice(ends), len(data), r.randint(0, len(data))))
        how = r.choice(("exit 1", "exit 1", "exit 3", "exit 127", "kill -9 $$", "kill -15 $$", "kill -11 $$", "echo gzip: error >&2; exit 1", "exit 0", "exit 2"))
        if how in ("exit 0", "exit 2"):
            k = len(data)
        wait = r.choice(("", "sleep 0.03"))
        if r.random() < 0.5 or k == 0:
            body = f"/usr/bin/head -c {k} {src}" if k else ":"
        else:
            j = r.randint(0, k)
            body = f"/usr/bin/head -c {j} {src}; sleep 0.02; /usr/bin/tail -c +{j + 1} {src} | /usr/bin/head -c {k - j}"
        prog.write_text(f"#!/bin/sh\n{body}\n{wait}\n{how}\n")
        prog.chmod(0o755)
        ctx.info.update(program=prog.read_text())
        with environ(PATH=d + ":/usr/bin:/bin"), caught():
            end, n = read_all(ctx, p, nodes, data)
        ctx.count("programs")
        if how in ("exit 0", "exit 2"):
            ctx.check(end == "end" and n == len(nodes), lambda: f"program succeeded, ended with {end} after {n} objects")
            continue
        # (falling back to another way of reading is fine)
        ctx.check(end != "end" or n == len(nodes) and fell_back(ctx),
                  lambda: f"program failed after {k} of {len(data)} bytes ({how}), ended normally after {n} objects")
        if end != "end":
            ctx.count("program_failed")
            if k in ends:
                ctx.count("at_boundary")
        ctx.nontrivial(data, k, how)


def fell_back(ctx):
    """a complete result in spite of a failing program: another way of decompression must have been used"""
    ctx.count("fell_back")
    return True


def killed(ctx):
    """the decompressor is killed from outside"""
    from eventio import EventIOFile
    r = ctx.rng
    nodes, data = content(ctx, big=True)
    p = ctx.write("f.gz", evt.gz_member(data, level=1))
    n_before = r.randint(0, len(nodes))
    before = set(children())
    k, end = 0, None
    with EventIOFile(p) as f:
        try:
            for n in nodes:
                if k == n_before:
                    for pid in set(children()) - before:
                        os.kill(pid, r.choice((signal.SIGKILL, signal.SIGTERM, signal.SIGSEGV)))
                o = next(f, None)
                if o is None:
                    end = "end"
                    break
                check_object(ctx, o, n)
                if o.only_subobjects:
                    traverse(ctx, o, n.children, data, Progress())
                elif n.type not in (1201, 1205):
                    b = o.read()
                    ctx.check(b == payload_of(n, data), f"payload of {n}")
                k += 1
            else:
                o = next(f, None)
                ctx.check(o is None, lambda: f"additional object {o!r}")
                end = "end"
        except EOFError as e:
            end = "EOFError"
        except OSError as e:
            end = "OSError"
    ctx.check(end != "end" or k == len(nodes), lambda: f"decompressor killed after {n_before} of {len(nodes)} objects, ended normally after {k}")
    ctx.count("killed")
    if end != "end":
        ctx.count("killed_early")


# ------------------------------------------------------------------ errors of the operating system
def os_faults(ctx):
    from eventio import EventIOFile
    r = ctx.rng
    nodes, data = content(ctx, big=r.random() < 0.2)
    kind = r.choice(("plain", "plain", "gz", "zst"))
    raw = data if kind == "plain" else evt.gz_member(data, level=r.choice((0, 6))) if kind == "gz" else evt.zst_frame(data)
    p = ctx.write("f", raw)
    kw = {"zcat": False} if kind == "gz" else {}
    try:
        # short and interrupted reads have no effect
        for _ in range(2):
            fault(p, chunk=r.choice((1, 3, 20, 1000)) if len(raw) < 20000 else 5000, interrupts=r.choice((0, 3, 10)), seed=r.getrandbits(30))
            end, n = read_all(ctx, p, nodes, data, **kw)
            ctx.check(end == "end" and n == len(nodes), lambda: f"{kind} with short reads: ended with {end} after {n} objects")
            ctx.count("short_reads", LIB.fault_stat(1))
            ctx.count("interrupted", LIB.fault_stat(2))
        # errors
        ends = [n.address + n.size for n in nodes]
        for _ in range(4):
            err = r.choice((errno.EIO, errno.ESTALE, errno.ENODEV, errno.EACCES))
            off = r.choice((r.choice(ends[:-1] or ends), r.randint(0, len(data) - 1), len(data) - 1)) if kind == "plain" else r.randint(0, len(raw) - 1)
            off = min(off, len(raw) - 1)
            fault(p, chunk=r.choice((0, 0, 50)), interrupts=r.choice((0, 5)), offset=off, err=err, seed=r.getrandbits(30))
            ctx.info.update(kind=kind, fault=f"{errno.errorcode[err]} at {off} of {len(raw)}")
            with caught():
                end, n = read_all(ctx, p, nodes, data, **kw)
            ctx.check(end != "end", lambda: f"{kind}: {errno.errorcode[err]} at {off} of {len(raw)}, ended normally after {n} objects")
            if LIB.fault_stat(3) == 0:
                raise HarnessError("no error was injected")
            ctx.count("os_errors")
            if off in ends:
                ctx.count("at_boundary")
            ctx.nontrivial(raw, off, err)
        if kind == "plain":
            retry(ctx, p, nodes, data)
    finally:
        LIB.fault_clear()
    if kind == "gz":
        # the external program cannot read its input
        so = os.environ["VERIF_PRELOAD"]
        for _ in range(2):
            off = r.randint(20, len(raw) - 1) if len(raw) > 21 else 20
            with environ(FAULT_PATH=p, FAULT_CHUNK="0", FAULT_OFFSET=str(off), FAULT_ERRNO=str(errno.EIO)), caught():
                end, n = read_all(ctx, p, nodes, data)
            # (the file is readable by this process)
            ctx.check(end != "end" or n == len(nodes), lambda: f"external program failed to read at {off} of {len(raw)}, ended normally after {n}")
            ctx.count("os_errors_pipe")
        # the pipe cannot be read
        for _ in range(2):
            off = r.choice((r.choice(ends[:-1] or [len(data) - 1]), r.randint(1, len(data) - 1)))
            err = r.choice((errno.EIO, errno.ENOMEM))
            LIB.fault_pipe(ctypes.c_long(off), err)
            try:
                with caught():
                    end, n = read_all(ctx, p, nodes, data)
                failed = LIB.fault_stat(3)
            finally:
                LIB.fault_clear()
            if not failed:
                # the pipe was not used
                ctx.count("no_pipe")
                continue
            ctx.check(end != "end", lambda: f"pipe: {errno.errorcode[err]} at {off} of {len(data)}, ended normally after {n} objects")
            ctx.count("pipe_errors")


def retry(ctx, p, nodes, data):
    """after a passing error the step can be repeated"""
    from eventio import EventIOFile
    r = ctx.rng
    top = [n for n in nodes]

    def again(step):
        for _ in range(20):
            try:
                return step()
            except OSError:
                ctx.count("retried")
        raise HarnessError("more errors than injected")

    def visit(it, nodes):
        for n in nodes:
            if n.type in (1201, 1205):
                # these read their payload when they are created
                return False
            o = again(lambda: next(it, None))
            ctx.check(o is not None, lambda: f"{n} not delivered after a passing read error")
            check_object(ctx, o, n, "after a passing read error:")
            if n.children is not None:
                if not visit(o, n.children):
                    return False
            elif r.random() < 0.6:
                b = again(o.read)
                ctx.check(b == payload_of(n, data), lambda: f"payload of {n} after a passing read error: {b[:30]!r}")
        o = again(lambda: next(it, None))
        ctx.check(o is None, lambda: f"{o!r} instead of the end after a passing read error")
        return True

    for _ in range(3):
        LIB.fault_clear()
        with EventIOFile(p) as f:
            fault(p, chunk=r.choice((0, 60)), offset=r.randint(0, len(data) - 1), count=r.randint(1, 3), seed=r.getrandbits(30))
            visit(f, top)


# ------------------------------------------------------------------ event readers
def readers(ctx):
    r = ctx.rng
    sim = r.random() < 0.6
    if sim:
        g = simgen.SimFile(r, ctx.nrng, n_tel=r.randint(1, 2), n_showers=r.randint(1, 3))
        first = g.header_end
    else:
        g = iactgen.IactFile(r, ctx.nrng, n_showers=r.randint(1, 4), n_tel=r.randint(1, 3))
        first = g.body
    data, nodes = g.data(), g.nodes
    if r.random() < 0.4:
        return reader_faults(ctx, g, data, sim)
    ends = [n.address + n.size for n in nodes]
    last = g.events_end if not sim else next((k for k, n in enumerate(nodes) if n.type == 100), len(nodes))
    for _ in range(3):
        # members end with objects, the file is cut in the header of the next one
        k = r.randint(first, min(last, len(nodes) - 1))
        cut = ends[k - 1]
        if r.random() < 0.3:
            cut = r.randint(cut, ends[k] - 1)
        raw = evt.gz_member(data[:cut])
        if r.random() < 0.5:
            raw = evt.gz_member(data[:cut], level=r.choice((0, 6)))[:-r.randint(1, 8)]
        else:
            raw += evt.gz_member(data[cut:])[:r.randint(2, 12)]
        p = ctx.write("f.gz", raw)
        for zcat in (True, False):
            ctx.info.update(cut=cut, complete=k, zcat=zcat)
            (sim_cut if sim else iact_cut)(ctx, g, p, zcat, k)
    ctx.nontrivial(data)


def reader_faults(ctx, g, data, sim):
    """read errors while events are read"""
    from eventio import IACTFile, SimTelFile
    r = ctx.rng
    nodes = g.nodes
    # the readers stop behind the first histograms or the run end
    stop = next((n for n in nodes if n.type == (100 if sim else 1210)), None)
    complete = stop.address + stop.size if stop else len(data)
    ends = [n.address + n.size for n in nodes]
    first = ends[(g.header_end if sim else g.body) - 1]
    for _ in range(3):
        kind = r.choice(("plain", "plain", "gz", "zst", "pipe"))
        raw = data if kind == "plain" else evt.gz_member(data, level=r.choice((0, 6))) if kind != "zst" else evt.zst_frame(data)
        p = ctx.write("f", raw)
        err = r.choice((errno.EIO, errno.ESTALE, errno.ENOMEM))
        got, error = [], None
        if kind == "plain":
            off = r.choice((r.randint(0, complete - 1), r.choice([e for e in ends if e < complete] or [0]), r.randint(first, complete - 1)))
        elif kind == "pipe":
            off = r.randint(max(1, first - 10), complete - 1)
        else:
            off = r.randint(0, len(raw) - 1)
        ctx.info.update(kind=kind, offset=off, size=len(raw), error=errno.errorcode[err])
        try:
            if kind == "pipe":
                LIB.fault_pipe(ctypes.c_long(off), err)
            else:
                fault(p, chunk=r.choice((0, 300)), offset=off, err=err, seed=r.getrandbits(30))
            with caught() as w:
                try:
                    with (SimTelFile(p, skip_non_triggered=False, zcat=kind == "pipe") if sim else IACTFile(p, zcat=kind == "pipe")) as f:
                        for ev in f:
                            got.append(ev)
                except (EOFError, OSError) as e:
                    error = e
            failed = LIB.fault_stat(3)
        finally:
            LIB.fault_clear()
        what = f"{'SimTelFile' if sim else 'IACTFile'}, {kind}: {errno.errorcode[err]} at {off} of {len(raw)}: "
        for i, ev in enumerate(got):
            ctx.check(i < len(g.events), lambda: what + f"{len(got)} events, {len(g.events)} in the file")
            # (the last one may be incomplete if the error is reported)
            d = simgen.diff_event(g.events[i], ev, partial=i == len(got) - 1) if sim else iactgen.diff_event(g.events[i], ev)
            ctx.check(d is None, lambda: what + f"event {i}: {d}")
        if kind in ("plain", "pipe") and failed or len(got) < len(g.events):
            ctx.check(error is not None or sim and len(w) > 0,
                      lambda: what + f"ended normally after {len(got)} of {len(g.events)} events, without error" + " or warning" * sim)
        ctx.count("reader_errors", failed > 0)
        if error is None:
            ctx.count("reader_error_unseen")
    ctx.nontrivial(data, off)


def sim_cut(ctx, g, p, zcat, k):
    from eventio import SimTelFile
    with caught() as w:
        got, error = [], None
        try:
            with SimTelFile(p, skip_non_triggered=False, zcat=zcat) as f:
                for ev in f:
                    got.append(ev)
        except (EOFError, OSError) as e:
            error = e
    ctx.check(error is not None or len(w) > 0, lambda: f"incomplete gzip file: {len(got)} of {len(g.events)} events, without error or warning")
    ctx.check(len(got) <= len(g.events), lambda: f"{len(got)} events, {len(g.events)} in the file")
    for i, ev in enumerate(got):
        d = simgen.diff_event(g.events[i], ev, partial=i == len(got) - 1)
        ctx.check(d is None, lambda: f"event {i}: {d}")
    ctx.count("sim_cut")


def iact_cut(ctx, g, p, zcat, k):
    from eventio import IACTFile
    got, error = [], None
    with caught() as w:
        try:
            with IACTFile(p, zcat=zcat) as f:
                for ev in f:
                    got.append(ev)
        except Exception as e:
            error = e
    ctx.check(error is not None, lambda: f"incomplete gzip file: {len(got)} of {len(g.events)} events, without error")
    for i, ev in enumerate(got):
        d = iactgen.diff_event(g.events[i], ev)
        ctx.check(d is None, lambda: f"event {i}: {d}")
    ctx.count("iact_cut")


def run_case(ctx, idx):
    kind = (compressed, compressed, os_faults, programs, readers, compressed, os_faults, killed if idx % 16 == 7 else readers)[idx % 8]
    ctx.info["kind"] = kind.__name__
    if idx < 80:
        ctx.sample({"kind": kind.__name__})
    try:
        kind(ctx)
    finally:
        LIB.fault_clear()
