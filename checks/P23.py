"""Reading never modifies anything"""
import contextlib
import gc
import hashlib
import os
import struct
import sys

import evt
import gentree
import iactgen
import simgen
import tools
from common import caught, compress_random, real_files
from evt import Node

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: audit hook on all operations of the interpreter that open, create, change or remove files, and snapshots of the directories"
LEVEL_NOTE = ("exploration: all readers, object operations, searches and tools on valid, truncated, corrupted and invalid files, plain and compressed, through symbolic "
              "links and relative names; the audit hook sees this process, the snapshots (names, content, size, modification and change time, mode, inode) of the input, "
              "working and temporary directories see the external gzip program, too.")
RULE = "a case is a directory of files and a random series of operations on them; distinct by the operations"
CASES = {"quick": 1000, "thorough": 30000}
REQUIRE = {"operations": 3000, "snapshots": 600, "audited_opens": 5000, "op_events": 300, "op_dump": 600, "op_search": 300, "op_structure": 250, "op_information": 250, "op_history": 250,
           "op_meta": 250, "op_cut": 250, "op_cut_invalid": 250, "op_plot": 20, "plots": 20, "op_recognise": 250, "op_module_gzip": 200}
EVENTS = ("os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.truncate", "os.utime", "os.chmod", "os.chown", "os.link", "os.symlink", "os.chflags", "os.setxattr",
          "os.removexattr", "os.lchown", "shutil.", "tempfile.", "os.mkfifo", "os.mknod", "os.system")
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

active = False
seen = []
opens = 0


def hook(event, args):
    global opens
    if not active:
        return
    if event == "open":
        path, mode, flags = args
        opens += 1
        if isinstance(path, int):
            return
        if flags & WRITE or (isinstance(mode, str) and set(mode) & set("wax+")):
            seen.append((event, os.fsdecode(path), mode, flags))
    elif event.startswith(EVENTS):
        seen.append((event,) + tuple(str(a)[:200] for a in args))


def setup(ctx):
    sys.dont_write_bytecode = True
    d = ctx.tmp / "keep-mpl"
    d.mkdir()
    os.environ["MPLCONFIGDIR"] = str(d)
    os.environ["MPLBACKEND"] = "Agg"
    # everything is imported, and fonts are found, before monitoring starts
    import eventio  # noqa: F401
    import eventio.search_utils  # noqa: F401
    out = ctx.tmp / "keep-plot"
    out.mkdir()
    n = histogram_file(ctx)
    p = ctx.write("keep-hist", evt.encode_file([n]))
    r = tools.run("plot_hists", "-o", str(out / "x"), "-f", "png", "-r", "20", p)
    if not r.ok:
        ctx.fail(f"plotting a histogram: {r}")
    tools.run("print_structure", p)
    sys.addaudithook(hook)


def histogram_file(ctx):
    """histograms with one and two dimensions that can be plotted"""
    r = ctx.rng
    b = struct.pack("<h", 2)
    for nx, ny in ((r.randint(1, 9), 0), (r.randint(1, 9), r.randint(1, 9))):
        b += b"F" + struct.pack("<h", 3) + b"abc" + struct.pack("<ihhii", r.randint(0, 99), nx, ny, 10, 10)
        for _ in range(2 if ny else 1):
            b += struct.pack("<iiffff", 0, 0, 0, 10, 1, 1)
        b += struct.pack("<ff8f", 10, 10, *[0] * 8)
        b += struct.pack(f"<{nx * max(ny, 1)}f", *[r.randint(1, 9) for _ in range(nx * max(ny, 1))])
    return Node(100, 0, 1, b)


def snapshot(*dirs):
    out = {}
    for d in dirs:
        for base, ds, fs in os.walk(d):
            if os.path.basename(base).startswith("keep"):
                ds[:] = []
                continue
            s = os.lstat(base)
            out[base] = ("dir", s.st_mtime_ns, s.st_mode, s.st_ino, tuple(sorted(x for x in ds + fs)))
            for x in fs:
                p = os.path.join(base, x)
                s = os.lstat(p)
                if os.path.islink(p):
                    c = os.readlink(p)
                else:
                    with open(p, "rb") as f:
                        c = hashlib.blake2b(f.read(), digest_size=12).hexdigest()
                out[p] = ("file", s.st_size, s.st_mtime_ns, s.st_ctime_ns, s.st_mode, s.st_ino, s.st_nlink, c)
    return out


def difference(a, b, allowed, parents):
    for p in set(a) | set(b):
        if p in allowed:
            continue
        x, y = a.get(p), b.get(p)
        if x == y:
            continue
        if p in parents and x and y and x[2:4] == y[2:4] and {os.path.join(p, n) for n in set(x[4]) ^ set(y[4])} <= set(allowed):
            continue
        return f"{p}: before {x}, afterwards {y}"
    return None


def make_files(ctx, d):
    r = ctx.rng
    out = []
    sources = [gentree.forest(r, ctx.nrng, r.randint(1, 6))]
    g = simgen.SimFile(r, ctx.nrng, n_tel=1, n_showers=1)
    sources.append(g.nodes)
    sources.append(iactgen.IactFile(r, ctx.nrng, n_showers=1).nodes)
    for k, ns in enumerate(sources):
        data = evt.encode_file(ns)
        kind = r.choice(("dat", "gz", "zst"))
        raw = data if kind == "dat" else compress_random(r, data, kind)
        x = r.random()
        if x < 0.2:
            raw = raw[:r.randint(0, len(raw))]
        elif x < 0.3 and raw:
            b = bytearray(raw)
            for _ in range(r.randint(1, 5)):
                b[r.randrange(len(b))] = r.randrange(256)
            raw = bytes(b)
        name = r.choice(("a", "b.simtel", "c.dat")) + {"dat": "", "gz": ".gz", "zst": ".zst"}[kind]
        p = os.path.join(d, f"{k}{name}")
        with open(p, "wb") as f:
            f.write(raw)
        os.utime(p, ns=(10**18 + r.randrange(10**17), 10**18 + r.randrange(10**17)))
        if r.random() < 0.2:
            os.chmod(p, 0o444)
        out.append((k, p))
        if r.random() < 0.15:
            q = os.path.join(d, f"link{k}")
            os.symlink(p, q)
            out.append((k, q))
    if r.random() < 0.2:
        _, p, = None, os.path.join(d, "none")
        out.append((0, p))
    if r.random() < 0.2:
        p = os.path.join(d, "text")
        with open(p, "w") as f:
            f.write("text")
        out.append((0, p))
    return out


def choose(r):
    return r.choice(("events", "dump", "dump", "search", "structure", "information", "history", "meta", "cut", "cut_invalid", "recognise"))


def operate(ctx, kind, path, out):
    """-> name of the operation, paths that may be written"""
    import eventio
    import eventio.search_utils as su
    r = ctx.rng
    zcat = r.random() < 0.4
    if path.endswith("hist"):
        op = "plot"
    else:
        op = choose(r)
    allowed = []
    if op in ("events", "dump", "search"):
        if not zcat:
            ctx.count("op_module_gzip")
        cls = eventio.EventIOFile if op != "events" else (eventio.EventIOFile, eventio.SimTelFile, eventio.IACTFile)[kind]
        with contextlib.suppress(Exception):
            with cls(path, zcat=zcat) as f:
                if op == "search":
                    x = r.random()
                    if x < 0.4:
                        for o, level in su.yield_all_objects_depth_first(f):
                            repr(o), str(o)
                    elif x < 0.7:
                        su.find_all_subobjects(f, [eventio.simtel.ArrayEvent, eventio.simtel.TelescopeEvent, eventio.simtel.ADCSamples])
                    else:
                        su.collect_toplevel_of_type(f, eventio.simtel.MCEvent)
                elif op == "events":
                    for ev in f:
                        str(ev)[:10]
                else:
                    repr(f), f.peek()
                    for o in f:
                        with contextlib.suppress(Exception):
                            o.parse()
                        with contextlib.suppress(Exception):
                            o.seek(0)
                            o.read()
                        with contextlib.suppress(Exception):
                            for s in o:
                                s.parse()
                    f.seek(0)
                    f.read(10)
                    f.tell()
        gc.collect() if r.random() < 0.05 else None
    elif op == "recognise":
        from eventio import file_types
        for fn in (file_types.is_gzip, file_types.is_zstd, file_types.is_eventio):
            with contextlib.suppress(Exception):
                fn(path)
    elif op == "structure":
        tools.run("print_structure", path, *r.choice(([], ["-r"], ["-m", "1"])))
    elif op == "information":
        tools.run("print_object_information", path, *r.choice(([], ["--json"])))
    elif op == "history":
        tools.run("print_simtel_history", path)
    elif op == "meta":
        tools.run("print_simtel_metaparams", path, *r.choice(([], ["--json"], ["--tel-diff", "1", "2"])))
    elif op == "cut":
        o = os.path.join(out, r.choice(("cut", "cut.gz", "cut.zst")))
        allowed = [o]
        tools.run("cut_eventio_file", path, o, r.choice(("0", "1", "100", "1k", "1M", "1G", str(r.randint(0, 5000)))))
    elif op == "cut_invalid":
        # nothing at all is written
        o = os.path.join(out, "never")
        tools.run("cut_eventio_file", path, o, r.choice(("1K", "abc", "", "-1", "1.5M")))
    else:
        base = os.path.join(out, "plot")
        fmt = r.choice(("png", "pdf", "svg"))
        res = tools.run("plot_hists", "-o", base, "-f", fmt, "-r", "20", path)
        if res.ok:
            ctx.count("plots", len(os.listdir(out)))
        allowed = [f"{base}_{k:03d}.{fmt}" for k in range(0, 100)]
        import matplotlib.pyplot as plt
        plt.close("all")
    return op, allowed


def run_case(ctx, idx):
    global active, opens
    r = ctx.rng
    src, out = ctx.path("in"), ctx.path("out")
    os.mkdir(src)
    os.mkdir(out)
    files = make_files(ctx, src)
    if idx % 60 == 0:
        p = os.path.join(src, "hist")
        with open(p, "wb") as f:
            f.write(evt.encode_file([histogram_file(ctx)]))
        files = [(0, p)]
    if idx % 50 == 7:
        # the checked-in files themselves, in their directory
        files.append((1, r.choice(real_files())[0]))
    resources = os.path.dirname(real_files()[0][0])
    watched = [str(ctx.tmp)] + ([resources] if idx % 50 == 7 else [])
    before = snapshot(*watched)
    log, allowed_all = [], set()
    for k in range(r.randint(2, 8)):
        kind, path = r.choice(files)
        if path.startswith(str(ctx.tmp)) and r.random() < 0.2:
            path = os.path.relpath(path)
        seen.clear()
        opens = 0
        active = True
        try:
            with caught():
                op, allowed = operate(ctx, kind, path, out)
        finally:
            active = False
        ctx.count("operations")
        ctx.count("op_" + op)
        ctx.count("audited_opens", opens)
        log.append((op, os.path.basename(path)))
        allowed_all |= set(allowed)
        for e in seen:
            ok = e[0] == "open" and os.path.abspath(e[1]) in allowed or e[1] == os.devnull or op == "plot" and "keep-mpl" in e[1]
            ctx.check(ok, lambda: f"{op} of {path}: {e}; may be written: {allowed[:3]}")
            ctx.count("permitted_writes")
    after = snapshot(*watched)
    d = difference(before, after, allowed_all, {out})
    ctx.check(d is None, lambda: f"after {log}: {d}")
    ctx.count("snapshots")
    ctx.nontrivial(log, sorted((p, v[-1]) for p, v in before.items() if v[0] == "file"))
    if idx < 16:
        ctx.sample({"operations": log})
