"""Files, pipes and decompressor processes are always released"""
import contextlib
import gc
import os
import stat
import time

import cmp
import evt
import gentree
import iactgen
import simgen
from common import caught, children, compress_random, diff_dump, dump, environ, open_fds

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: file descriptors and child processes of the process compared before and after every life of a reader"
LEVEL_NOTE = ("exploration: random lives of one or several readers of all classes on plain, gzip (process and module) and zstd files, of different amounts read, all "
              "ways to end (close, repeated close, with block, exception, garbage collection also out of reference cycles, objects and iterators kept), failed "
              "openings, missing or failing gzip program; readers left open are compared with reading alone. "
              "Leftovers have to be seen in three repetitions, because ending a process is bounded by a time limit on loaded machines.")
RULE = "a case is a random history of up to 12 readers; distinct by the history"
CASES = {"quick": 2500, "thorough": 60000}
REQUIRE = {"readers": 4000, "processes": 300, "ended_close": 600, "ended_with": 600, "ended_exception": 600, "ended_gc": 600, "ended_cycle": 600,
           "ended_repeated": 600, "failed_openings": 1800, "survivors_compared": 400, "objects_kept": 500, "fallbacks": 150}

HOW = ("close", "with", "exception", "gc", "cycle", "repeated", "with_close")


class Boom(Exception):
    pass


def setup(ctx):
    # programs named gzip that fail
    for name, body in (("keep-bin-fail", "#!/bin/sh\necho broken >&2\nexit 3\n"), ("keep-bin-missing", None),
                       ("keep-bin-slow", "#!/bin/sh\nexec /usr/bin/gzip \"$@\"\n")):
        d = ctx.tmp / name
        d.mkdir()
        if body:
            p = d / "gzip"
            p.write_text(body)
            p.chmod(0o755)


def leftovers(before):
    fds0, ch0 = before
    fds = {k: v for k, v in open_fds().items() if fds0.get(k) != v and v is not None}
    ch = [c for c in children() if c not in ch0]
    return fds, ch


def state(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            s = f.read()
        return s[s.index("("):][:40]
    except OSError:
        return "gone"


def big(r, nodes):
    """enough data to keep a decompressor busy"""
    nodes.append(evt.Node(2024, 0, 0, r.randbytes(r.choice((100_000, 400_000, 3_000_000)))))


def make_files(ctx):
    r = ctx.rng
    nodes = [("EventIOFile", gentree.forest(r, ctx.nrng, r.randint(1, 6)))]
    g = simgen.SimFile(r, ctx.nrng, n_tel=r.randint(1, 2), n_showers=r.randint(1, 2))
    nodes.append(("SimTelFile", g.nodes))
    nodes.append(("IACTFile", iactgen.IactFile(r, ctx.nrng, n_showers=r.randint(0, 3)).nodes))
    out = []
    for kind, ns in nodes:
        if r.random() < 0.15:
            big(r, ns)
        data = evt.encode_file(ns)
        for c in ("plain", "gz", "zst"):
            p = ctx.write(f"{kind}.{c}", data if c == "plain" else compress_random(r, data, c))
            out.append((kind, c, p))
    good = {k: p for k, c, p in out if c == "plain"}
    raw = open(good["SimTelFile"], "rb").read()
    gz = open(ctx.path("SimTelFile.gz"), "rb").read()
    zst = open(ctx.path("SimTelFile.zst"), "rb").read()
    small = evt.encode_file([evt.Node(2024, 0, 0, b"x" * 10)])
    be = evt.SYNC_LE[::-1] + small[4:]
    bad = {
        "empty": b"", "short": raw[:2], "text": b"no eventio file at all\n" * 20, "big_endian": be, "big_endian_gz": evt.gz_member(be),
        "big_endian_zst": evt.zst_frame(be), "cut_header": raw[:r.randint(4, min(2000, len(raw) - 1))], "one_object": small,
        "one_object_gz": evt.gz_member(small), "one_object_zst": evt.zst_frame(small),
        "cut_gz": gz[:r.randint(3, len(gz) // 2 + 3)], "cut_zst": zst[:r.randint(3, len(zst) // 2 + 3)],
        "garbage_gz": b"\x1f\x8b" + r.randbytes(200), "garbage_zst": b"\x28\xb5\x2f\xfd" + r.randbytes(200),
        "text_gz": evt.gz_member(b"hello world"), "text_zst": evt.zst_frame(b"hello world"),
        "late_garbage_gz": gz[:len(gz) // 2] + r.randbytes(len(gz) // 2),
        "missing": None, "directory": None,
    }
    files = {}
    for k, v in bad.items():
        files[k] = ctx.path("bad-" + k)
        if v is not None:
            ctx.write("bad-" + k, v)
        elif k == "directory":
            os.mkdir(files[k])
    return out, files


def use(ctx, r, f, kept):
    """read some part"""
    if children():
        ctx.count("processes")
    x = r.random()
    if x < 0.2:
        return
    if x < 0.3:
        with contextlib.suppress(AttributeError):
            f.peek()
    if x < 0.5:
        for _ in f:
            pass
        return
    it = iter(f)
    for _ in range(r.randint(1, 4)):
        o = next(it, None)
        if o is None:
            break
        if getattr(o, "only_subobjects", False) is True:
            for s in o:
                if r.random() < 0.3:
                    kept.append(s)
                break
        elif hasattr(o, "parse") and r.random() < 0.5:
            with contextlib.suppress(Exception):
                o.parse()
        if r.random() < 0.3:
            kept.append(o)
            ctx.count("objects_kept")


def life(ctx, r, cls, path, zcat, how):
    kept = []
    ctx.count("ended_" + how)
    if how in ("close", "repeated"):
        f = cls(path, zcat=zcat)
        use(ctx, r, f, kept)
        for _ in range(r.randint(2, 4) if how == "repeated" else 1):
            f.close()
        if r.random() < 0.3:
            # the closed reader is still referred to
            return f, kept
        return kept
    if how in ("with", "with_close"):
        with cls(path, zcat=zcat) as f:
            use(ctx, r, f, kept)
            if how == "with_close":
                f.close()
        # often still referred to after the block
        return (f, kept) if r.random() < 0.7 else kept
    if how == "exception":
        f = None
        try:
            with cls(path, zcat=zcat) as f:
                use(ctx, r, f, kept)
                raise r.choice((Boom, KeyboardInterrupt, StopIteration, GeneratorExit))
        except (Boom, KeyboardInterrupt, StopIteration, GeneratorExit):
            if f is None:
                # the constructor failed
                raise
            return (f, kept) if r.random() < 0.7 else kept
        ctx.fail(f"with block of {cls.__name__} swallows exceptions")
    f = cls(path, zcat=zcat)
    use(ctx, r, f, kept)
    if how == "cycle":
        f.myself = [f]
        f.kept = kept
    del f
    return None


def history(ctx, r, good, bad, classes, solo):
    """one run of the case; -> description, leftovers"""
    gc.collect()
    before = open_fds(), children()
    log, survivors, hold = [], [], []
    for _ in range(r.randint(1, 8)):
        x = r.random()
        if x < 0.3:
            k = r.choice(list(bad))
            cls = classes[r.choice(list(classes))]
            zcat = r.random() < 0.7
            f = None
            with caught():
                try:
                    f = cls(bad[k], zcat=zcat)
                    with contextlib.suppress(Exception):
                        use(ctx, r, f, [])
                    f.close()
                except Exception:
                    ctx.count("failed_openings")
                except SystemExit:
                    pass
            del f
            log.append(("bad", k, cls.__name__, zcat))
        elif x < 0.35:
            # classes that do not fit the file
            kind, c, p = r.choice(good)
            cls = classes[r.choice([k for k in classes if k != kind])]
            f = None
            with caught():
                try:
                    f = cls(p)
                    with contextlib.suppress(Exception):
                        use(ctx, r, f, [])
                    f.close()
                except Exception:
                    ctx.count("failed_openings")
            del f
            log.append(("misfit", kind, c, cls.__name__))
        elif x < 0.42:
            kind, c, p = r.choice(good)
            with caught():
                f = classes[kind](p)
            survivors.append((f, kind, p))
            log.append(("survivor", kind, c))
        else:
            kind, c, p = r.choice(good)
            how = r.choice(HOW)
            zcat = r.random() < 0.7
            y = r.random() if c == "gz" else 1
            env = {}
            if y < 0.06:
                env = {"PATH": ctx.path("keep-bin-fail")}
            elif y < 0.12:
                env = {"PATH": ctx.path("keep-bin-missing")}
            elif y < 0.16:
                env = {"PATH": ctx.path("keep-bin-slow") + ":" + os.environ["PATH"]}
            with caught(), environ(**env):
                try:
                    hold.append(life(ctx, r, classes[kind], p, zcat, how))
                except (EOFError, StopIteration, ValueError, OSError):
                    # the failing program may be noticed late
                    if y >= 0.06:
                        raise
            if y < 0.12:
                ctx.count("fallbacks")
            ctx.count("readers")
            log.append((kind, c, how, zcat, bool(env)))
    for f, kind, p in survivors:
        with caught():
            if kind == "EventIOFile":
                d = diff_dump(solo[p], dump(f))
            else:
                got = [cmp.freeze(e._asdict() if hasattr(e, "_asdict") else e) for e in f]
                d = cmp.same(solo[p], got)
            f.close()
        ctx.check(d is None, lambda: f"{log}: reader of {p} kept open delivers something else: {d}")
        ctx.count("survivors_compared")
    del survivors
    gc.collect()
    # what is left now although objects, iterators and closed readers are still held
    rest = leftovers(before)
    del hold
    return log, rest


def run_case(ctx, idx):
    import random

    import eventio
    r = ctx.rng
    classes = {k: getattr(eventio, k) for k in ("EventIOFile", "SimTelFile", "IACTFile")}
    good, bad = make_files(ctx)
    solo = {}
    with caught():
        for kind, c, p in good:
            if c == "plain":
                with classes[kind](p) as f:
                    s = dump(f) if kind == "EventIOFile" else [cmp.freeze(e._asdict() if hasattr(e, "_asdict") else e) for e in f]
        # streams of the same data deliver the same
                for q in good:
                    if q[0] == kind:
                        solo[q[2]] = s
    seed = r.getrandbits(64)
    for attempt in range(3):
        log, (fds, ch) = history(ctx, random.Random(seed), good, bad, classes, solo)
        if not fds and not ch:
            break
        time.sleep(0.5 * attempt)
    else:
        ctx.fail(f"left after {log}: file descriptors {fds}, processes {[(c, state(c)) for c in ch]}")
    ctx.nontrivial(log)
    if idx < 16:
        ctx.sample({"history": [str(x) for x in log]})
