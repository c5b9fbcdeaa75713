"""Direct reads and seeks of a file address the uncompressed data and never disturb the iteration"""
import evt
import gentree
import iactgen
import simgen
from common import caught, check_object, compress_random, payload_of, real_files
from evt import Node

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: histories of read/seek/tell/next/peek on open files checked online against the uncompressed bytes and the object sequence"
LEVEL_NOTE = ("exploration of random histories on generated and real files in all containers; every result is compared with a byte string model, every object and "
              "event with the one written. Positions behind the end of the data and negative ones are not sought.")
RULE = "a case is one file (plain, gzip by module or external program, zstd) and a random history of file and object operations; distinct by file and history"
CASES = {"quick": 16000, "thorough": 400000}
REQUIRE = {"file_reads": 36000, "file_seeks": 40000, "refused": 13000, "objects": 14000, "peeks": 16000, "overtaken": 8000, "overtaken_peeks": 5000, "payloads": 7000,
           "events": 9000, "stream_events": 3500, "to_the_end": 11000}

STREAMS = ("pipe", "zst")


class File:
    """read, seek and tell of a reader in lock step with the data"""

    def __init__(self, ctx, f, data, kind, trace):
        self.ctx, self.f, self.data, self.trace = ctx, f, data, trace
        self.stream = kind in STREAMS

    def tell(self):
        p = self.f.tell()
        self.ctx.check(0 <= p <= len(self.data), lambda: f"after {self.trace[-6:]}: tell() {p} of {len(self.data)}")
        return p

    def read(self):
        ctx, r = self.ctx, self.ctx.rng
        p = self.tell()
        left = len(self.data) - p
        k = r.choice((0, 1, 4, 16, r.randint(0, 200), r.randint(0, left), left, left + r.randint(1, 9)) + (-1,) * (r.random() < 0.1))
        self.trace.append(("read", k))
        b = self.f.read() if k == -1 and r.random() < 0.5 else self.f.read(k)
        want = self.data[p:] if k == -1 else self.data[p:p + k]
        ctx.check(b == want, lambda: f"after {self.trace[-6:]}: read({k}) at {p} of {len(self.data)} gave {len(b)} bytes {bytes(b)[:30]!r}, expected {len(want)}: {want[:30]!r}")
        q = self.tell()
        ctx.check(q == p + len(want), lambda: f"after {self.trace[-6:]}: tell() {q} after reading {len(want)} at {p}")
        ctx.count("file_reads")
        if k == -1 or k > left:
            ctx.count("to_the_end")

    def seek(self, near=()):
        ctx, r = self.ctx, self.ctx.rng
        p, n = self.tell(), len(self.data)
        whence = r.choice((0, 0, 0, 1, 1, 2))
        new = r.choice((p, p + 1, p - 1, p + r.randint(0, 60), p - r.randint(0, 60), r.randint(0, n), 0, r.choice(near or (p,))) + (n,) * (r.random() < 0.2))
        new = max(0, min(new, n))
        off = (new, new - p, new - n)[whence]
        self.trace.append(("seek", off, whence))
        possible = not self.stream or (new >= p and whence != 2)
        ctx.count("file_seeks")
        try:
            got = self.f.seek(off) if whence == 0 and r.random() < 0.5 else self.f.seek(off, whence)
        except (OSError, ValueError) as e:
            ctx.check(not possible, lambda: f"after {self.trace[-6:]}: seek({off}, {whence}) at {p} of {n}: {e!r}")
            ctx.count("refused")
            q = self.tell()
            ctx.check(q == p, lambda: f"after {self.trace[-6:]}: refused seek({off}, {whence}) at {p} changed the position to {q}")
            return
        q = self.tell()
        ctx.check(got == q == new, lambda: f"after {self.trace[-6:]}: seek({off}, {whence}) at {p} of {n} returned {got}, tell() {q}, expected {new}")


def container(ctx, data):
    r = ctx.rng
    kind = r.choices(("dat", "gz", "pipe", "zst"), (5, 3, 3, 4))[0]
    raw = data if kind == "dat" else compress_random(r, data, "zst" if kind == "zst" else "gz")
    return kind, ctx.write("f", raw)


def objects(ctx, cls, nodes, data, first=0):
    """file operations between those of the object level"""
    r = ctx.rng
    kind, path = container(ctx, data)
    stream = kind in STREAMS
    trace = []
    ctx.info.update(kind=kind, trace=trace)
    starts = [n.start for n in nodes]
    with cls(path, zcat=kind == "pipe") as f:
        raw = File(ctx, f, data, kind, trace)
        at, peeked, had, warned = first, False, [], False
        for _ in range(r.randint(3, 30)):
            x = r.random()
            if x < 0.25:
                raw.read()
            elif x < 0.5:
                raw.seek([s + r.randint(-2, 17) for s in starts])
            elif x < 0.68:
                lost = stream and not peeked and at < len(nodes) and raw.tell() > starts[at]
                trace.append("next")
                try:
                    o = next(f)
                except StopIteration:
                    ctx.check(at >= len(nodes), lambda: f"after {trace[-6:]}: end after {at} of {len(nodes)} objects")
                except OSError as e:
                    ctx.check(lost, lambda: f"after {trace[-6:]}: object {at}: {e!r}")
                    ctx.count("overtaken")
                    warned = True
                else:
                    ctx.check(not lost, lambda: f"after {trace[-6:]}: {o!r} delivered, but the beginning of object {at} is gone")
                    ctx.check(at < len(nodes), lambda: f"after {trace[-6:]}: additional object {o!r}")
                    check_object(ctx, o, nodes[at], f"after {trace[-6:]}")
                    had.append((o, nodes[at]))
                    at, peeked = at + 1, False
                    ctx.count("objects")
            elif x < 0.8:
                lost = stream and not peeked and at < len(nodes) and raw.tell() > starts[at]
                trace.append("peek")
                with caught() as w:
                    o = f.peek()
                ctx.count("peeks")
                if lost:
                    ctx.check(o is None, lambda: f"after {trace[-6:]}: peek gave {o!r}, but the beginning of object {at} is gone")
                    ctx.check(w or warned, lambda: f"after {trace[-6:]}: peek did not warn, the beginning of object {at} is gone")
                    warned = True
                    ctx.count("overtaken_peeks")
                elif at >= len(nodes):
                    ctx.check(o is None, lambda: f"after {trace[-6:]}: peek at the end gave {o!r}")
                else:
                    ctx.check(o is not None, lambda: f"after {trace[-6:]}: peek gave nothing instead of object {at}")
                    check_object(ctx, o, nodes[at], f"after {trace[-6:]}")
                    peeked = True
            elif had:
                o, n = r.choice(had[-4:])
                if n.children is not None:
                    continue
                trace.append("payload")
                p, gone = o.tell(), raw.tell()
                want = payload_of(n, data)
                try:
                    b = o.read()
                except OSError as e:
                    ctx.check(stream and gone > n.address + p, lambda: f"after {trace[-6:]}: payload of {n} from {p}: {e!r}")
                else:
                    ctx.check(b == want[p:], lambda: f"after {trace[-6:]}: payload of {n} from {p}: {bytes(b)[:40]!r}, expected {want[p:][:40]!r}")
                    ctx.count("payloads")
    ctx.nontrivial(repr(trace), data, kind)
    ctx.sample({"kind": kind, "objects": len(nodes), "bytes": len(data), "history": [str(t) for t in trace[:12]]})


def events(ctx, cls, gen, diff, **kw):
    """file operations between the events"""
    r = ctx.rng
    data = gen.data()
    kind, path = container(ctx, data)
    stream = kind in STREAMS
    trace = []
    ctx.info.update(kind=kind, trace=trace)
    near = [n.start for n in gen.nodes]
    with caught(), cls(path, zcat=kind == "pipe", **kw) as f:
        raw = File(ctx, f, data, kind, trace)
        it = iter(f)
        k, overtaken = 0, False
        while True:
            for _ in range(r.choice((0, 1, 2))):
                p = raw.tell()
                if hasattr(f, "read") and r.random() < 0.4 and (not stream or r.random() < 0.1):
                    raw.read()
                elif not stream or r.random() < 0.1:
                    raw.seek(near)
                else:
                    # can not be done, thus without effect
                    q = r.randint(0, p)
                    trace.append(("seek back", q))
                    if q < p:
                        try:
                            f.seek(q)
                        except (OSError, ValueError):
                            ctx.count("refused")
                        else:
                            ctx.fail(f"after {trace[-6:]}: seek({q}) at {p} of a stream was accepted")
                overtaken |= stream and raw.tell() > p
            trace.append("event")
            try:
                ev = next(it)
            except StopIteration:
                # (a reader may have read all of the file before)
                ctx.check(k == len(gen.events), lambda: f"after {trace[-6:]}: end after {k} of {len(gen.events)} events")
                break
            except OSError as e:
                ctx.check(overtaken, lambda: f"after {trace[-6:]}: event {k}: {e!r}")
                ctx.count("overtaken")
                break
            ctx.check(k < len(gen.events), lambda: f"after {trace[-6:]}: additional event")
            d = diff(gen.events[k], ev)
            ctx.check(d is None, lambda: f"after {trace[-6:]}: event {k}: {d}")
            k += 1
            ctx.count("events")
            if stream:
                ctx.count("stream_events")
    ctx.nontrivial(repr(trace), data, kind)


def run_case(ctx, idx):
    from eventio import EventIOFile, IACTFile, SimTelFile
    r, nrng = ctx.rng, ctx.nrng
    x = r.random()
    if x < 0.03:
        path, data, nodes = r.choice([f for f in real_files() if len(f[1]) < 3e5] or real_files()[:1])
        return objects(ctx, EventIOFile, nodes, data)
    if x < 0.1:
        g = iactgen.IactFile(r, nrng, n_tel=2, n_showers=2)
        return objects(ctx, IACTFile, g.nodes, g.data(), g.body)
    if x < 0.17:
        return events(ctx, IACTFile, iactgen.IactFile(r, nrng, n_tel=2, n_showers=r.randint(1, 4)), iactgen.diff_event)
    if x < 0.25:
        return events(ctx, SimTelFile, simgen.SimFile(r, nrng, n_tel=r.randint(1, 2), n_showers=r.randint(1, 4)), simgen.diff_event, skip_non_triggered=False)
    nodes = gentree.forest(r, nrng, depth=2, maxlen=r.choice((10, 60, 60, 400)))
    if r.random() < 0.15:
        # more than all buffers
        nodes.insert(r.randint(0, len(nodes)), Node(gentree.unknown_type(r), 1, 0, r.randbytes(r.choice((70_000, 300_000, 2_500_000)))))
    data = evt.encode_file(nodes)
    objects(ctx, EventIOFile, nodes, data)
