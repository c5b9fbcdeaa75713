"""Independent readers do not influence each other"""
import random
import sys
import threading
import time

import numpy as np

import evt
import gentree
import iactgen
import simgen
from cmp import freeze, same
from common import compress_random, fields, real_files
from harness import HarnessError
from checks.P03 import make_file
from checks.P17 import complete

LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: every reader's delivery compared step by step with the one recorded when used alone, in random interleavings in one thread "
             "and under forced thread switching; snapshots of all delivered values compared again at the end")
LEVEL_NOTE = ("exploration: random and bursty interleavings of up to 8 readers of all classes on the same and different files with random histories (decoding late, "
              "peeking, partial reads, seeking, closing early, changing own values), and one thread per reader with a switch interval of 1 microsecond and, in half of them, random switches forced between any two lines of the package; thread switches "
              "are those of the interpreter (the extension modules never release the lock), the number observed is recorded.")
RULE = "a case is a set of readers with their histories and one interleaving of them; distinct by the observed interleaving and files"
CASES = {"quick": 600, "thorough": 30000}
REQUIRE = {"steps": 90000, "readers": 2000, "switches": 15000, "threads": 600, "thread_switches": 2000, "kept_values": 20000, "same_file": 1000, "vandals": 400, "compressed_readers": 700, "injected_switch_points": 50000}


def wipe(v, depth=0):
    """what a user may do with his values"""
    if depth > 6:
        return
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype.kind in "iufb":
            v.fill(77)
        return
    if isinstance(v, dict):
        for x in list(v.values()):
            wipe(x, depth + 1)
        v.clear()
    elif isinstance(v, (list, tuple)):
        for x in v:
            wipe(x, depth + 1)
        if isinstance(v, list):
            v.clear()


def parse(o):
    v = o.parse()
    return list(v) if hasattr(v, "__next__") else v


def outcome(fn):
    """-> token, live value"""
    try:
        v = fn()
    except Exception as e:
        return ("error", type(e).__name__), None
    return ("value", freeze(v)), v


class Program:
    """one reader and what its user does with it; deterministic when alone"""

    def __init__(self, kind, path, seed, options, vandal):
        self.kind, self.path, self.seed, self.options, self.vandal = kind, path, seed, options, vandal

    def __repr__(self):
        return f"{self.kind}({self.path.rsplit('/', 1)[-1]}, {self.options}, seed {self.seed}, vandal={self.vandal})"

    def steps(self, keep):
        r = random.Random(self.seed)
        try:
            yield from getattr(self, self.kind)(r, keep)
        except Exception as e:
            yield ("end", type(e).__name__, str(e)[:60] if isinstance(e, (EOFError, StopIteration)) else "")

    def hold(self, r, keep, token, v):
        if v is None:
            return
        if self.vandal:
            if r.random() < 0.7:
                wipe(v)
        else:
            keep.append((token, v))

    def events(self, r, keep):
        import eventio
        cls = getattr(eventio, self.options["cls"])
        with cls(self.path, **self.options["kw"]) as f:
            for name in ("header", "run_header", "mc_run_headers", "telescope_descriptions", "global_meta", "telescope_meta", "history", "telescope_positions",
                         "corsika_inputcards", "input_card", "n_telescopes"):
                if hasattr(f, name):
                    t, v = outcome(lambda: getattr(f, name))
                    yield (name,) + t
                    self.hold(r, keep, t, v)
            it = iter(f)
            limit = r.choice((2, 10**9, 10**9))
            n = 0
            while n < limit:
                try:
                    ev = next(it)
                except StopIteration:
                    break
                n += 1
                d = ev if isinstance(ev, dict) else {k: getattr(ev, k) for k in ev._fields} if hasattr(ev, "_fields") else dict(vars(ev))
                t = ("event", freeze(d))
                yield t
                self.hold(r, keep, ("value", t[1]), d)
            for name in ("histograms", "run_end", "header"):
                if hasattr(f, name):
                    t, v = outcome(lambda: getattr(f, name))
                    yield (name,) + t
        yield ("closed",)

    def walk(self, r, keep):
        """random history of visiting, decoding late, seeking, reading, peeking"""
        from eventio import EventIOFile
        with EventIOFile(self.path, zcat=self.options["zcat"]) as f:
            seekable = self.options["seekable"]
            iters, objs = [f], []
            stay = r.random() < 0.2     # ends early
            for _ in range(25 if stay else 10**9):
                x = r.random()
                if not iters:
                    break
                if x < 0.5 or not objs:
                    k = r.randrange(len(iters)) if seekable else -1
                    it = iters[k]
                    try:
                        o = next(it)
                    except StopIteration:
                        iters.pop(k)
                        yield ("end of", type(it).__name__)
                        continue
                    if not seekable:
                        objs.clear()
                    objs.append(o)
                    del objs[:-12]
                    if o.only_subobjects:
                        iters.append(o)
                    yield ("object", type(o).__name__, fields(o))
                elif x < 0.6 and seekable:
                    t = outcome(lambda: f.peek())[0]
                    p = f.peek() if t[0] == "value" else None
                    yield ("peek", t[0], fields(p) if p is not None else None)
                else:
                    o = r.choice(objs) if seekable else objs[-1]
                    if x < 0.8:
                        t, v = outcome(lambda: parse(o))
                        yield ("parse",) + t
                        self.hold(r, keep, t, v)
                    elif not seekable:
                        n = r.randint(0, 50)
                        yield ("read", n, outcome(lambda: o.read(n))[0])
                    elif x < 0.9:
                        n = r.randint(0, max(0, o.header.content_size))
                        yield ("seek", n, outcome(lambda: o.seek(n))[0])
                    else:
                        n = r.choice((-1, 0, 1, 4, 17, 1000))
                        t, v = outcome(lambda: o.read(n))
                        yield ("read", n, t, o.tell())
                        self.hold(r, keep, t, v)
            late = [(o, r.random() < 0.5) for o in objs] if seekable else []
            for o, ok in late:
                if ok:
                    t, v = outcome(lambda: parse(o))
                    yield ("late",) + t
                    self.hold(r, keep, t, v)
        yield ("closed", f.closed if hasattr(f, "closed") else None)

    def search(self, r, keep):
        import eventio
        import eventio.search_utils as su
        with eventio.EventIOFile(self.path, zcat=self.options["zcat"]) as f:
            for o, level in su.yield_all_objects_depth_first(f):
                yield ("object", level, type(o).__name__, fields(o), str(o)[:80])
                if r.random() < 0.5 and not o.only_subobjects:
                    t, v = outcome(lambda: parse(o))
                    yield ("parse",) + t
                    self.hold(r, keep, t, v)
        yield ("closed",)


def make_paths(ctx):
    """[(what, path, compression, telescopes)]"""
    r = ctx.rng
    out = []
    for k in range(r.randint(1, 3)):
        x = r.random()
        tels = []
        if x < 0.4:
            what = "simtel"
            g = simgen.SimFile(r, ctx.nrng, n_tel=r.randint(1, 3), n_showers=r.randint(1, 3))
            nodes, tels = g.nodes, g.tels
        elif x < 0.7:
            what = "iact"
            nodes = iactgen.IactFile(r, ctx.nrng, n_showers=r.randint(1, 3)).nodes
        elif x < 0.9:
            what, nodes = "other", make_file(ctx)
        else:
            what, nodes = "other", gentree.forest(r, ctx.nrng, r.randint(2, 12))
        data = evt.encode_file(nodes)
        if r.random() < 0.1:
            data = data[:r.randint(len(data) // 2, len(data))]
        kind = r.choice(("dat", "dat", "gz", "zst"))
        p = ctx.write(f"{k}.{kind}", data if kind == "dat" else compress_random(r, data, kind))
        out.append((what, p, kind, tels))
    if r.random() < 0.05:
        real = [x for x in real_files() if len(x[1]) < 300000]
        path, raw, nodes = r.choice(real)
        what = "simtel" if complete(nodes) else "other"
        out.append((what, path, "zst" if path.endswith(".zst") else "gz" if path.endswith(".gz") else "dat", []))
    return out


def make_program(ctx, paths):
    r = ctx.rng
    what, path, comp, tels = r.choice(paths)
    seed = r.getrandbits(40)
    vandal = r.random() < 0.25
    zcat = r.random() < 0.4
    x = r.random()
    if what == "simtel" and x < 0.6:
        kw = {"zcat": zcat, "skip_non_triggered": r.random() < 0.3, "skip_calibration": r.random() < 0.3}
        if tels and r.random() < 0.4:
            kw["allowed_telescopes"] = r.sample(tels, r.randint(1, len(tels)))
        return Program("events", path, seed, {"cls": "SimTelFile", "kw": kw}, vandal), comp
    if what == "iact" and x < 0.6:
        return Program("events", path, seed, {"cls": "IACTFile", "kw": {"zcat": zcat}}, vandal), comp
    if x < 0.85:
        return Program("walk", path, seed, {"zcat": zcat, "seekable": comp == "dat" or comp == "gz" and not zcat}, vandal), comp
    return Program("search", path, seed, {"zcat": zcat}, vandal), comp


def compare(ctx, p, k, got, want, how):
    if k >= len(want):
        ctx.fail(f"{p} {how}: additional step {k} {str(got)[:200]}, alone it ended with {str(want[-1])[:100]}")
    a, b = want[k], got
    d = same(a, b, f"step {k}")
    ctx.check(d is None, lambda: f"{p} {how}: {d}; step {str(b)[:120]}")


def run_case(ctx, idx):
    r = ctx.rng
    paths = make_paths(ctx)
    n = r.randint(2, 8)
    progs = []
    for _ in range(n):
        p, comp = make_program(ctx, paths)
        if progs and r.random() < 0.3:
            q = r.choice(progs)         # twice the same, possibly with other manners
            p = Program(q.kind, q.path, q.seed, q.options, q.vandal)
        progs.append(p)
        ctx.count("readers")
        ctx.count("compressed_readers", comp != "dat")
        ctx.count("vandals", p.vandal)
    ctx.count("same_file", len(progs) - len({p.path for p in progs}))
    ctx.info["programs"] = progs
    # alone; those leaving their values alone first
    alone = {}
    for p in sorted(progs, key=lambda p: p.vandal):
        alone[id(p)] = list(p.steps([]))
    for p in progs:
        if not p.vandal and r.random() < 0.3:
            keep = []
            for k, t in enumerate(p.steps(keep)):
                compare(ctx, p, k, t, alone[id(p)], "alone again, after others")
    keeps = [[] for _ in progs]
    threads = idx % 3 == 0
    order = []
    if threads:
        results = [[] for _ in progs]
        errors = []
        barrier = threading.Barrier(n)

        def body(k):
            try:
                barrier.wait(60)
                for t in progs[k].steps(keeps[k]):
                    order.append(k)
                    results[k].append(t)
            except BaseException as e:
                errors.append((k, e))
        # every line of the package may lose the interpreter to another thread
        yields = [0]
        rate = r.choice((0.02, 0.2, 0.7))

        def local(frame, event, arg):
            if event == "line" and random.random() < rate:
                yields[0] += 1
                time.sleep(0)
            return local

        def tracer(frame, event, arg):
            return local if "eventio" in frame.f_code.co_filename and "verif/lib" not in frame.f_code.co_filename else None
        if idx % 2 == 0:
            threading.settrace(tracer)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(200)
                if t.is_alive():
                    ctx.fail(f"{progs}: a thread does not end")
        finally:
            threading.settrace(None)
            sys.setswitchinterval(old)
        ctx.count("injected_switch_points", yields[0])
        for k, e in errors:
            if isinstance(e, threading.BrokenBarrierError):
                raise HarnessError("threads did not start in time")
            ctx.fail(f"{progs[k]} in a thread: {e!r}")
        for p, res in zip(progs, results):
            for k, t in enumerate(res):
                compare(ctx, p, k, t, alone[id(p)], "in a thread of its own")
            ctx.check(len(res) == len(alone[id(p)]), lambda: f"{p} in a thread: {len(res)} steps, alone {len(alone[id(p)])}")
        ctx.count("threads", n)
        ctx.count("thread_switches", sum(a != b for a, b in zip(order, order[1:])))
    else:
        live = {k: (p.steps(keeps[k]), 0) for k, p in enumerate(progs)}
        burst = r.choice((1, 1, 2, 5, 30))
        while live:
            k = r.choice(list(live))
            it, pos = live[k]
            for _ in range(r.randint(1, burst)):
                try:
                    t = next(it)
                except StopIteration:
                    ctx.check(pos == len(alone[id(progs[k])]), lambda: f"{progs[k]} interleaved: {pos} steps, alone {len(alone[id(progs[k])])}")
                    del live[k]
                    break
                compare(ctx, progs[k], pos, t, alone[id(progs[k])], f"interleaved with {len(live) - 1} others")
                order.append(k)
                pos += 1
                live[k] = (it, pos)
        ctx.count("switches", sum(a != b for a, b in zip(order, order[1:])))
    ctx.count("steps", len(order))
    for p, keep in zip(progs, keeps):
        for (kind, snap), v in keep:
            d = same(snap, freeze(v), "value")
            ctx.check(d is None, lambda: f"value delivered to {p} changed: {d}")
            ctx.count("kept_values")
    ctx.nontrivial(order, [open(p, "rb").read()[:2000] for _, p, _, _ in paths])
    if idx < 16:
        ctx.sample({"readers": [repr(p)[:120] for p in progs], "threads": threads, "order": order[:40]})
