"""Reading is incremental: memory and input do not depend on what was delivered before or follows"""
import ctypes
import gc
import os
import tracemalloc
import warnings

import numpy as np

import evt
import gentree
import iactgen
import simgen
import spec
from common import compress_random
from evt import Node

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: traced and C heap memory and bytes read by the readers, observed at every delivery, for files that differ in length only"
LEVEL_NOTE = ("exploration: the same groups of objects or events repeated N and 4 N times in all kinds of containers; memory in use, its peak and the input "
              "consumed at the k-th delivery must be the same for both up to fixed allowances (kilobytes, or one buffer); metadata is not repeated.")
RULE = "a case is one group of objects with one reader and one way of using it, read in the short and the long file; distinct by content and mode"
CASES = {"quick": 320, "thorough": 12000}
REQUIRE = {"steps": 800000, "raw": 100, "iact": 50, "sim": 50, "plain": 70, "gz": 70, "zst": 24, "padded": 60, "decoded": 200000, "longer_by": 5 * 10**8}

METADATA = (70, 75, 2001, 1212, 1216, 100, 2000)
# allowances in bytes
SLOTS = 100000
KEPT, PEAK, INPUT, CHEAP = 16 << 10, 1 << 20, 3 << 20, 256 << 10


class Mallinfo(ctypes.Structure):
    _fields_ = [(x, ctypes.c_size_t) for x in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = Mallinfo


def c_heap():
    m = _libc.mallinfo2()
    return m.uordblks + m.hblkhd


def input_bytes():
    with open("/proc/self/io", "rb") as f:
        return int(f.readline().split()[1])


class Meter:
    """what a reader needed, at every delivery"""

    def __init__(self, every):
        self.every = every
        self._memory, self._input, self.n = np.zeros(SLOTS, "i8"), np.zeros(SLOTS, "i8"), 0

    def start(self):
        gc.collect()
        tracemalloc.start()
        self.m0 = tracemalloc.get_traced_memory()[0]
        self.i0 = input_bytes()

    def step(self):
        if self.n % self.every == 0:
            gc.collect()
        self._memory[self.n] = tracemalloc.get_traced_memory()[0] - self.m0
        self._input[self.n] = input_bytes() - self.i0
        self.n += 1

    def stop(self):
        gc.collect()
        self.peak = tracemalloc.get_traced_memory()[1] - self.m0
        tracemalloc.stop()
        self.memory, self.input = self._memory[:self.n].tolist(), self._input[:self.n].tolist()
        del self._memory, self._input


class Unmetered:
    def start(self):
        pass

    step = stop = start


def walk(ctx, it, mode, meter, level=0):
    for o in it:
        if o.only_subobjects:
            if mode != "skip":
                walk(ctx, o, mode, None, level + 1)
        elif mode == "decode":
            try:
                v = o.parse()
                if hasattr(v, "__next__"):
                    for _ in v:
                        pass
            except Exception:
                pass
            v = None
            ctx.count("decoded")
        elif mode == "read":
            o.read()
        o = None
        if meter:
            meter.step()
            ctx.count("steps")


def raw(path, mode, kw):
    def use(ctx, meter):
        from eventio import EventIOFile
        with EventIOFile(path, **kw) as f:
            if mode == "peek":
                while f.peek() is not None:
                    next(f)
                    meter.step()
                    ctx.count("steps")
            else:
                walk(ctx, f, mode, meter)
    return use


def events(cls, path, mode, kw):
    def use(ctx, meter):
        with cls(path, **kw) as f:
            for ev in f:
                ev = None
                meter.step()
                ctx.count("steps")
                ctx.count("decoded")
    return use


# objects with a running number as id
NUMBERED = {2020, 2021, 2010, 2009, 2024, 1202, 1209, 1203, 1204}


def repeated(body, b, m):
    """the encoded objects m times, with other numbers each time"""
    from eventio.base import KNOWN_OBJECTS
    a = np.tile(np.frombuffer(b, "u1"), (m, 1))
    step = np.arange(m)[:, None]

    def put(pos, values):
        a[:, pos:pos + 4] = np.ascontiguousarray(values).view("u1").reshape(m, 4)

    start = body[0].start
    for n, _ in evt.walk(body):
        if n.type in NUMBERED or n.type not in KNOWN_OBJECTS:
            pos = n.start - start + 4 * bool(n.toplevel) + 4
            put(pos, ((n.id + 13 * step) & 0x7FFFFFFF).astype("<u4"))
        if n.type in (1202, 1209) and len(n.payload) >= 12:
            put(n.address - start + 8, ((np.frombuffer(n.payload[8:12], "<f4")[0] + 13 * step) % 2**20).astype("<f4"))
    return a.tobytes()


def lengths(ctx, head, body, tail, kind, size):
    """paths of the short and the long file"""
    r = ctx.rng
    enc = evt.encode_file
    h, b, t = enc(head), enc(body), enc(tail)
    if len(b) > 5_000_000:
        return None, None, None
    n = max(3, size // max(1, len(b)))
    out = []
    state = r.getstate()
    for m in (n, 4 * n):
        data = h + repeated(body, b, m) + t
        if kind != "plain":
            r.setstate(state)
            data = compress_random(r, data, kind, members=1)
        out.append(ctx.write(f"f{m}", data))
    ctx.count("longer_by", 3 * n * len(b))
    ctx.nontrivial(h, b, kind)
    return out, n, len(b)


def compare(ctx, label, short, long, unit, padded):
    def k(x):
        return f"{x / 1024:.0f} kB"
    n = min(len(short.memory), len(long.memory))
    # memory held between the deliveries, buffers are filled after the first quarter
    q = len(long.memory) // 4
    a, b = max(long.memory[q:2 * q] or [0]), max(long.memory[3 * q:])
    ctx.peak("kept_growth", max(0, b - a))
    ctx.check(b <= a + KEPT, lambda: f"{label}: up to {k(b)} in use between the last deliveries, up to {k(a)} between those of the second quarter ({2 * q} deliveries before)")
    ctx.peak("peak_bytes", long.peak)
    if padded:                              # several times larger than all buffers
        ctx.check(long.peak <= short.peak + PEAK + unit,
                  lambda: f"{label}: peak of memory use {k(long.peak)} for the long file, {k(short.peak)} for the short one")
    for i in (0, n // 4, n // 2, n - 1):
        x, y = short.input[i], long.input[i]
        ctx.check(y <= x + INPUT + unit, lambda: f"{label}: {k(y)} read at delivery {i} of the long file, {k(x)} for the short one")


def run_case(ctx, idx):
    from eventio import IACTFile, SimTelFile
    gc.freeze()
    r, nrng = ctx.rng, ctx.nrng
    what = ("raw", "iact", "raw", "sim")[idx % 4]
    kind = r.choice(("plain", "plain", "gz", "gz", "zst"))
    padded = idx // 4 % 3 == 0
    kw = {"zcat": r.random() < 0.6} if kind == "gz" else {}
    pad = Node(1207 if what == "iact" else gentree.unknown_type(r), 1, 0, r.randbytes(r.randint(300_000, 2_000_000)) if padded else b"x")
    if padded and what != "iact" and r.random() < 0.3:
        pad = Node(gentree.unknown_type(r), 1, 0, children=[pad])
    if what == "raw":
        mode = r.choice(("skip", "walk", "read", "decode", "decode", "peek"))
        if r.random() < 0.5:
            body = gentree.forest(r, nrng)[:20] or [Node(2010, 1, 0, children=[])]
        else:
            body = []
            for _ in range(r.randint(3, 12)):
                s = spec.SPECS[r.choice(list(spec.SPECS))]
                m = s.generate(r, nrng, hint={"n_pixels": r.choice((1, 40, 300))})
                if m.type == 2100:
                    m.type = spec.telescope_type(2100, spec.joined_tel(m.id))
                body.append(m)
        head, tail = [], []
    elif what == "iact":
        mode = "events"
        g = iactgen.IactFile(r, nrng, n_showers=r.randint(1, 2))
        e = g.events
        head, body, tail = g.nodes[:g.body], g.nodes[g.body:g.events_end], g.nodes[g.events_end:]
        if padded:
            k = [i for i, n in enumerate(body) if n.type == 1203][0]
            body = body[:k + 1] + [pad] + body[k + 1:]
    else:
        mode = "events"
        g = simgen.SimFile(r, nrng, n_tel=r.randint(1, 3), n_showers=r.randint(1, 2))
        if not g.events:
            return
        a, b = g.events[0]["_start"], g.events[-1]["_end"]
        a = min([a] + [i for i in range(g.header_end, len(g.nodes)) if g.nodes[i].type == 2020])
        head, body, tail = g.nodes[:a], g.nodes[a:b], g.nodes[b:]
        body = [n for n in body if n.type not in METADATA]
        kw.update(skip_non_triggered=r.random() < 0.5, skip_calibration=r.random() < 0.2)
    if padded and what != "iact":
        body = body + [pad]
    elif what == "raw":
        body = body + [pad]
    paths, n, unit = lengths(ctx, head, body, tail, kind, 3_000_000 if padded else 60_000 if kind == "plain" else 150_000)
    if paths is None:
        return
    p1, p4 = paths
    ctx.count(what), ctx.count(kind)
    if padded:
        ctx.count("padded")
    label = f"{what} {mode} {kind} {kw}, {len(body)} objects of {unit} bytes, {n} and {4 * n} times"
    ctx.info["label"] = label
    cls = {"iact": IACTFile, "sim": SimTelFile}.get(what)
    make = (lambda p: raw(p, mode, kw)) if what == "raw" else (lambda p: events(cls, p, mode, kw))
    every = 1 if padded else 16
    meters = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        heap = []
        for p, traced in ((p1, False), (p1, True), (p4, True), (p4, False)):       # the first time fills caches
            m = Meter(every) if traced else Unmetered()
            use = make(p)
            m.start()
            try:
                use(ctx, m)
            finally:
                m.stop()
            meters.append(m)
            gc.collect()
            heap.append(c_heap())
    if len(meters[2].memory) <= len(meters[1].memory):      # nothing selected in the repeated part (what is delivered is judged by P17 and P18)
        ctx.count("no_deliveries")
        return
    compare(ctx, label, meters[1], meters[2], unit, padded)
    grown = heap[3] - heap[2]
    ctx.peak("c_heap_growth", max(0, grown))
    ctx.peak("peak_growth", max(0, meters[2].peak - meters[1].peak))
    ctx.check(grown <= CHEAP, lambda: f"{label}: C heap grown by {grown} bytes by reading the long file again")
    for p in (p1, p4):
        os.unlink(p)
    if idx < 8:
        ctx.sample({"label": label, "deliveries": [len(m.memory) for m in meters[1:3]], "peak": [m.peak for m in meters[1:3]], "input": [m.input[-1] for m in meters[1:3]]})
