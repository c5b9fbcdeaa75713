"""Arbitrary bytes: no memory errors, crashes or hangs

All extension modules are built with AddressSanitizer and UBSan; the process runs with
the system allocator, so that every buffer has its own red zones.  A sanitizer report, a
deadly signal or a case that does not end is a violation.
"""
import io
import os
import time
import warnings

import numpy as np

import evt
import gentree
import simgen
import iactgen
import spec
from common import compress_random, real_files
from evt import Node
from mutate import mutate, WORDS

VARIANT = "asan"
LEVEL = "exploration"
TECHNIQUE = "AddressSanitizer and UBSan builds of all extension modules under hostile generated inputs, with CPU time limits"
LEVEL_NOTE = "exploration: batches of hostile calls to every decoder and of damaged files to every reader; finds what the sanitizers can see in the executions made. numpy and the interpreter themselves are not instrumented (heap red zones by interception only)."
RULE = ("a case is a batch of calls of one kind (low level decoders with arbitrary buffers, offsets and counts; decoding of damaged "
        "payloads; reading of damaged files by every reader and tool); executed under AddressSanitizer/UBSan with a CPU time limit; "
        "distinct by input bytes and arguments")
CASES = {"quick": 6000, "thorough": 150000}
REQUIRE = {"direct_calls": 20000, "direct_returned": 1500, "direct_raised": 5000, "parsed_damaged": 2000, "rejected_damaged": 3000,
           "damaged_files": 700, "types": 1000, "control_reports": 1}
CPU_LIMIT = 90
OFFSETS = (0, 1, 2, 8, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**62, 2**63 - 1, 2**63, 2**64 - 9, 2**64 - 2, 2**64 - 1)
COUNTS = (0, 1, 2, 3, 7, 50, 1000, 2**16, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**40, 2**61, 2**62, 2**63 - 1, 2**63, 2**64 - 1)

def exact(b):
    """bytes in a heap block of exactly that size"""
    a = np.empty(len(b), np.uint8)
    a[:] = np.frombuffer(b, np.uint8)
    return a

def touch(x, depth=0):
    """look at every byte of a value"""
    if isinstance(x, np.ndarray):
        x.tobytes()
    elif hasattr(x, "keys"):
        for k in list(x.keys()):
            touch(x[k], depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            touch(v, depth + 1)
    elif isinstance(x, (bytes, bytearray)):
        bytes(x)
    elif hasattr(x, "__next__"):
        for v in x:
            touch(v, depth + 1)

def buffer(r):
    x = r.random()
    if x < 0.1:
        return b""
    n = r.choice((1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 33, r.randint(1, 200)))
    if x < 0.4:
        return r.randbytes(n)
    if x < 0.6:
        return bytes(r.choice((0x7F, 0x80, 0xBF, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC, 0xFE, 0xFF, 0)) for _ in range(n))
    b = b"".join(evt.uvar(r.getrandbits(r.randint(1, 64))) for _ in range(n))
    return b[:r.randint(0, len(b))]

def count(r, small=12, limit=None):
    c = r.randint(0, small) if r.random() < 0.75 else r.choice(COUNTS)
    return c if limit is None else c & limit

class Functions:
    """functions of a module; those that are not there raise, which is no memory error"""

    def __init__(self, module):
        self.module = module

    def __getattr__(self, name):
        def missing(*args):
            raise NotImplementedError(name)
        return getattr(self.module, name, missing)


def direct(ctx):
    from eventio import var_int, header, tools
    from eventio.simtel import parsing
    var_int, header, tools, parsing = map(Functions, (var_int, header, tools, parsing))
    r = ctx.rng
    for _ in range(r.randint(20, 50)):
        b = exact(buffer(r))
        off = r.choice((0, len(b) - 1, len(b), len(b) + 1, r.randint(0, len(b) + 2))) if r.random() < 0.8 else r.choice(OFFSETS)
        off = max(off, 0)
        name = r.choice(("unsigned_varint", "varint", "get_length", "parse_varint", "unsigned_array", "varint_array", "differential",
                         "timing1", "timing2", "parse_1208", "sector1", "sector2", "mc_event", "header", "stream", "bits"))
        n = count(r)
        # nothing touches the memory of these, they would only be slow
        if name in ("timing1", "timing2"):
            n_gains, n_pixels, n_types = r.randint(0, 3), r.choice((0, 1, 5, 20, 4096)), r.choice((0, 1, 2, 5, 200))
            if r.random() < 0.1:
                n_gains, n_pixels, n_types = (r.choice((0, 1, 2**16, 2**31, 2**32 - 1)) for _ in range(3))
                if n_pixels * max(n_types, n_gains) > 2**26 and n_pixels * n_types < 2**36:
                    n_pixels = 3
                if n_types == 0 or n_pixels == 0:
                    n_gains = min(n_gains, 3)
                if n_gains == 0 or n_gains > 2**20:
                    n_types = min(n_types, 200)

            def index():
                return r.choice((r.randint(0, 22), r.randint(0, 22), n_pixels - 1, n_pixels, -1, -2, 2**31 - 1, -2**31, n_pixels + 1))
            k = r.randint(0, 6)
            idx = np.array([((index() + 2**31) % 2**32) - 2**31 for _ in range(2 * k)], np.int32)
            if name == "timing2":
                idx = idx.reshape(k, 2)
                for j in range(k):
                    # a range of pixels is never longer than declared pixels would allow, else this is only slow
                    if int(idx[j, 1]) - int(idx[j, 0]) > 10**6:
                        idx[j, 1] = idx[j, 0]
            args = (b, idx, n_gains, n_pixels, n_types, r.random() < 0.6, r.random() < 0.5, r.uniform(-1, 1))
            fn = (var_int.simtel_pixel_timing_parse_list_type_1 if name == "timing1"
                  else var_int.simtel_pixel_timing_parse_list_type_2)
        elif name == "unsigned_varint":
            fn, args = var_int.unsigned_varint, (b, off)
        elif name == "varint":
            fn, args = var_int.varint, (b, off)
        elif name == "get_length":
            fn, args = var_int.get_length_of_varint, (r.choice((0, 255, 256, -1, r.getrandbits(8))),)
        elif name == "parse_varint":
            fn, args = var_int.parse_varint, (b,)
        elif name == "unsigned_array":
            fn, args = var_int.unsigned_varint_array, (b, n, off)
        elif name == "varint_array":
            fn, args = var_int.varint_array, (b, n, off)
        elif name == "differential":
            m = count(r, 4)
            fn, args = var_int.unsigned_varint_arrays_differential, (b, m, n, off)
        elif name == "parse_1208":
            n_pix = r.choice((0, 1, 5, 100, 4096, 32768)) if r.random() < 0.95 else r.choice((2**31, 2**32 - 1, 2**31 - 1))
            if r.random() < 0.7:
                # well-formed with wrong counts
                parts = []
                for _ in range(r.randint(0, 4)):
                    pid = r.choice((0, 1, 4, 5, 99, 32767, -1, -32768, r.randint(0, 110)))
                    npe = r.choice((0, 1, 2, 3, 100, -1, 2**31 - 1, -2**31))
                    import struct
                    parts.append(struct.pack("<hi", pid, npe) + r.randbytes(4 * max(0, min(npe, 5))))
                b = exact(b"".join(parts) + r.randbytes(r.randint(0, 12)))
            total = r.choice((0, 1, 3, 6, 50)) if r.random() < 0.95 else r.choice((2**31, 2**32 - 1))
            fn, args = var_int.parse_1208, (b, n_pix, count(r, 6, 2**32 - 1), r.randint(1, 4), r.choice((0, 1, 4, 5)), total)
        elif name == "sector1":
            fn, args = parsing.read_sector_information_v1, (b, min(n, 10**5) if r.random() < 0.9 else n, off)
        elif name == "sector2":
            fn, args = var_int.read_sector_information_v2, (b, n & (2**32 - 1), off)
        elif name == "mc_event":
            fn, args = parsing.parse_mc_event, (b, r.choice((0, 1, 2, 3, 2**32 - 1)))
        elif name == "header":
            fn, args = header.parse_header_bytes, (exact(r.randbytes(r.choice((12, 12, 0, 11, 13, 16)))), r.random() < 0.5)
        elif name == "bits":
            fn, args = header.get_bits_from_word, (r.getrandbits(32), r.randint(0, 31), r.randint(0, 31))
        else:
            s = io.BytesIO(b.tobytes())
            fn, args = r.choice((tools.read_varint, tools.read_unsigned_varint, tools.read_var_string, tools.read_string)), (s,)
        ctx.info["call"] = f"{name} {args!r}"[:1500]
        try:
            touch(fn(*args))
            ctx.count("direct_returned")
        except Exception as e:
            ctx.count("direct_raised")
            e.__traceback__ = None
        ctx.count("direct_calls")
        ctx.nontrivial(name, b.tobytes(), repr(args[1:]))

def visit(ctx, it, depth=0, kinds=None):
    """decode or read everything"""
    errors = 0
    for k in range(3000):
        try:
            o = next(it)
        except StopIteration:
            return
        except Exception as e:
            # the objects behind one that is refused are visited, too
            e.__traceback__ = None
            errors += 1
            if errors > 3:
                return
            continue
        try:
            repr(o), str(o)
        except Exception:
            pass
        if o.only_subobjects:
            try:
                visit(ctx, o, depth + 1)
            except Exception:
                pass
        try:
            touch(o.parse())
            ctx.count("parsed_damaged")
        except Exception as e:
            e.__traceback__ = None
            ctx.count("rejected_damaged")
        if ctx.rng.random() < 0.3:
            try:
                o.seek(ctx.rng.choice((0, 1, max(0, o.size - 1))))
                o.read(ctx.rng.choice((-1, 4, 2**31, 2**62)))
            except Exception:
                pass

def payloads(ctx):
    """damaged payloads of every type, several per file"""
    from eventio import EventIOFile
    r, nrng = ctx.rng, ctx.nrng
    nodes = []
    for _ in range(12):
        t = r.choice(list(spec.SPECS))
        n = spec.SPECS[t].generate(r, nrng, hint={"n_pixels": r.choice((1, 3, 8, 40)), "n_samples": r.choice((1, 4, 20))})
        if t == 2100:
            n.type = spec.telescope_type(2100, spec.joined_tel(n.id))
        n.payload = mutate(r, n.payload)
        if r.random() < 0.15:
            n.id = r.choice((0, -1, 2**31 - 1, -2**31, n.id ^ 1 << r.randrange(31)))
        if r.random() < 0.15:
            n.version = r.choice((0, 1, 2, 3, 4, 5, 1000))
        ctx.nontrivial(n.type, n.version, n.id, n.payload)
        nodes.append(n)
    ctx.count("types", len({(n.type, n.version) for n in nodes}))
    if r.random() < 0.3:
        nodes = [Node(2010, 1, 0, children=nodes)]
    p = ctx.write("f", evt.encode_file(nodes))
    ctx.info["types"] = [n.type for n in nodes]
    with EventIOFile(p) as f:
        visit(ctx, f)
    if r.random() < 0.2:
        try:
            photons(ctx, p)
        except Exception:
            pass

def photons(ctx, p):
    from eventio import EventIOFile
    with EventIOFile(p) as f:
        for o in f:
            if o.header.type == 1205:
                try:
                    for c in o.parse(chunksize=ctx.rng.choice((1, 2, 5, 10**6, 2**40))):
                        touch(c)
                except Exception:
                    pass

def files(ctx):
    """damaged files read by the event readers"""
    from eventio import EventIOFile, SimTelFile, IACTFile
    from eventio.search_utils import yield_all_objects_depth_first
    r, nrng = ctx.rng, ctx.nrng
    x = r.random()
    if x < 0.45:
        data = simgen.SimFile(r, nrng, n_tel=r.randint(1, 3), n_showers=r.randint(1, 2)).data()
    elif x < 0.65:
        data = iactgen.IactFile(r, nrng).data()
    elif x < 0.75:
        data = r.choice([f for f in real_files() if len(f[1]) < 3e5])[1]
    elif x < 0.85:
        data = evt.encode_file(gentree.forest(r, nrng, depth=3))
    elif x < 0.9:
        data = r.randbytes(r.randint(0, 20))
        depth = r.choice((100, 600, 1500, 5000))
        for k in range(depth):
            data = evt.header_bytes(r.choice((70, 1204, 2010, 2028, 2034)), 0, 0, False, False, len(data), True, k == depth - 1) + data
    else:
        data = evt.SYNC_LE + r.randbytes(r.randint(0, 300))
    kind = r.choices(("dat", "gz", "zst", "pipe"), (14, 2, 2, 1))[0]
    if kind == "dat":
        data = mutate(r, data) if r.random() < 0.9 else data
        if not data.startswith(evt.SYNC_LE) and r.random() < 0.9:
            data = evt.SYNC_LE + data[4:]
    else:
        # damage before or after compression
        inner = r.random() < 0.3
        data = compress_random(r, mutate(r, data) if inner else data, "zst" if kind == "zst" else "gz")
        if not inner:
            data = mutate(r, data)
    p = ctx.write("f", data)
    ctx.nontrivial(data)
    ctx.count("damaged_files")
    zcat = kind == "pipe"

    def plain():
        with EventIOFile(p, zcat=zcat) as f:
            visit(ctx, f)

    def depth():
        with EventIOFile(p, zcat=zcat) as f:
            for k, (o, level) in enumerate(yield_all_objects_depth_first(f)):
                if k > 5000:
                    break

    def peeks():
        with EventIOFile(p, zcat=zcat) as f:
            for _ in range(30):
                f.peek()
                next(f)

    def simtel():
        opts = {"skip_non_triggered": r.random() < 0.5, "skip_calibration": r.random() < 0.3}
        if r.random() < 0.3:
            opts["allowed_telescopes"] = {r.randint(1, 5)}
        with SimTelFile(p, zcat=zcat, **opts) as f:
            for k, e in enumerate(f):
                touch(e)
                if k > 200:
                    break

    def iact():
        with IACTFile(p, zcat=zcat) as f:
            for k, e in enumerate(f):
                touch(tuple(e))
                if k > 200:
                    break
    for fn in (plain, depth, peeks, simtel, iact):
        t = time.process_time()
        try:
            fn()
            ctx.count("files_read")
        except (Exception, StopIteration) as e:
            e.__traceback__ = None
            ctx.count("files_refused")
        t = time.process_time() - t
        ctx.peak("slowest_read_ms", int(1000 * t))

def control(ctx):
    """a report is really made and seen: a deliberate overrun of a heap buffer by the interceptors of the sanitizer"""
    import subprocess
    import sys
    code = ("import ctypes, numpy as np\n"
            "a = np.zeros(64, np.uint8)\n"
            "ctypes.CDLL(None).memset(ctypes.c_void_p(a.ctypes.data), 1, ctypes.c_size_t(80))\n")
    pr = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True)
    if pr.returncode != 99 or "heap-buffer-overflow" not in pr.stderr:
        from harness import HarnessError
        raise HarnessError(f"the sanitizer does not report: {pr.returncode} {pr.stderr[:300]}")
    ctx.count("control_reports")

def run_case(ctx, idx):
    if idx == 0:
        return control(ctx)
    warnings.simplefilter("ignore")
    x = ctx.rng.random()
    if x < 0.35:
        direct(ctx)
    elif x < 0.7:
        payloads(ctx)
    else:
        files(ctx)
