"""Helpers shared by the checks"""
import gc
import os
import random
import shutil
import warnings
from contextlib import contextmanager
from pathlib import Path

import cmp
import evt
import spec
import classes
from harness import HarnessError

REPO = os.environ.get("VERIF_REPO", "/repo")


def fields(o):
    h = o.header
    return {"type": h.type, "id": h.id, "version": h.version, "user": bool(h.user), "extended": bool(h.extended),
            "only_subobjects": bool(h.only_subobjects), "header_size": h.header_size, "content_size": h.content_size,
            "total_size": h.total_size, "content_address": h.content_address}


def node_fields(n):
    return {"type": n.type, "id": n.id, "version": n.version, "user": bool(n.user), "extended": bool(n.extended),
            "only_subobjects": n.sub, "header_size": n.header_size, "content_size": n.size,
            "total_size": n.size + n.header_size, "content_address": n.address}


def check_object(ctx, o, n, where=""):
    """header fields and class of a delivered object against what was written"""
    a, e = fields(o), node_fields(n)
    if a != e:
        bad = {k: (a[k], e[k]) for k in a if a[k] != e[k]}
        ctx.fail(f"{where} object {n} delivered with (actual, expected) {bad}")
    if not classes.class_matches(o):
        ctx.fail(f"{where} object of type {n.type} delivered as {type(o).__name__}, expected {classes.expected_class(n.type)}")


def payload_of(n, data):
    return data[n.address:n.address + n.size]


def check_tree(ctx, it, nodes, data, level=0, payloads=True, seekable=True):
    """exhaustive recursive iteration against the written tree"""
    k = 0
    for o in it:
        if k >= len(nodes):
            ctx.fail(f"level {level}: additional object {o!r} after {len(nodes)} objects")
        n = nodes[k]
        check_object(ctx, o, n, f"level {level} index {k}:")
        ctx.count("objects_compared")
        ctx.peak("nesting_level", level)
        if n.children is None:
            if payloads:
                # some classes look at the first bytes of their payload
                pos = o.seek(0) if seekable else o.tell()
                b = o.read()
                e = payload_of(n, data)[pos:]
                ctx.check(b == e, lambda: f"payload of {n}: {b[:40]!r}... ({len(b)}), expected {e[:40]!r}... ({len(e)})")
        else:
            check_tree(ctx, o, n.children, data, level + 1, payloads, seekable)
        k += 1
    ctx.check(k == len(nodes), f"level {level}: {k} objects delivered, {len(nodes)} written")


def flat(nodes):
    return [n for n, _ in evt.walk(nodes)]


@contextmanager
def caught():
    """collect warnings"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        yield w


def raises(ctx, exc, fn, what):
    """fn must raise exc"""
    try:
        r = fn()
    except exc as e:
        return e
    ctx.fail(f"{what}: returned {cmp._short(r)} instead of raising {exc}")


def compress_random(r, data, kind, members=None):
    """gzip/zstd with random members and options"""
    n = members or r.choice((1, 1, 2, 3, 6))
    cuts = sorted(r.randint(0, len(data)) for _ in range(n - 1))
    parts = evt.split_at(data, cuts)
    if kind == "gz":
        return b"".join(evt.gz_member(
            p, level=r.choice((0, 1, 6, 9)),
            name=r.choice((None, b"name.dat")), comment=r.choice((None, b"no comment")),
            extra=r.choice((None, b"ab\x04\x00wxyz")), mtime=r.getrandbits(31)) for p in parts)
    return b"".join(evt.zst_frame(p, level=r.choice((1, 3, 9)), checksum=r.random() < 0.5, content_size=r.random() < 0.5)
                    for p in parts)


_FILES = None


def real_files():
    """[(path, raw data decompressed, nodes)] of the checked-in complete files"""
    global _FILES
    if _FILES is None:
        _FILES = []
        d = Path(REPO) / "tests" / "resources"
        for p in sorted(d.iterdir()):
            if p.suffix in (".npy", ".txt") or not p.is_file():
                continue
            try:
                raw = evt.decompress(p.read_bytes())
                nodes = evt.parse_tree(raw)
                evt.encode_file(nodes)
            except (EOFError, ValueError, evt.Truncated):
                continue
            _FILES.append((str(p), raw, nodes))
        if len(_FILES) < 10:
            raise HarnessError("checked-in example files not found")
    return _FILES


def open_fds():
    return {int(x): _link(x) for x in os.listdir("/proc/self/fd")}


def _link(x):
    try:
        return os.readlink(f"/proc/self/fd/{x}")
    except OSError:
        return None


def children():
    out = []
    for t in os.listdir("/proc/self/task"):
        try:
            out += [int(x) for x in open(f"/proc/self/task/{t}/children").read().split()]
        except OSError:
            pass
    return out


def dump(it, level=0):
    """everything a file contains, in one forward pass: [(level, class, header fields, kind, value)]"""
    from cmp import freeze
    out = []
    for o in it:
        f = fields(o)
        if o.only_subobjects:
            out.append((level, type(o).__name__, f, "container", None))
            out += dump(o, level + 1)
            continue
        try:
            v = o.parse()
            if hasattr(v, "__next__"):
                v = list(v)
            out.append((level, type(o).__name__, f, "value", freeze(v)))
        except Exception as e:
            pos = o.tell()
            kind = type(e).__name__
            # refused before anything was read: the payload is available
            out.append((level, type(o).__name__, f, "error " + kind, o.read() if pos == 0 else None))
    return out


def diff_dump(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        for u, v, what in zip(x[:4], y[:4], ("level", "class", "header", "kind")):
            if u != v:
                return f"object {k} {x[1]}: {what} {v}, expected {u}"
        d = cmp.same(x[4], y[4], f"object {k} {x[1]}")
        if d:
            return d
    if len(a) != len(b):
        return f"{len(b)} objects, expected {len(a)}"
    return None


@contextmanager
def environ(**kw):
    old = {k: os.environ.get(k) for k in kw}
    os.environ.update(kw)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                del os.environ[k]
            else:
                os.environ[k] = v
