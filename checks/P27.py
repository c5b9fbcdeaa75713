"""Inspection tools report exactly what is in the file"""
import collections
import difflib
import json
import os
import re
import struct
import time

import classes
import evt
import gentree
import iactgen
import simgen
import spec
import tools
from common import caught, compress_random, flat, real_files
from evt import Node
from spec import SPECS

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: output of the tools parsed and compared with an independent walk over the written tree"
LEVEL_NOTE = ("exploration: random trees with long runs of equal types on one or several levels, generated and checked-in files, plain and compressed; repetition limits "
              "from 0; table and JSON; history and metadata with any text of the given encoding, empty and non-ASCII ones, several time zones. The history tool reads the history objects at "
              "the beginning of a file, the metaparameter tool the first uninterrupted series of metadata objects, which is where they are in files of sim_telarray.")
RULE = "a case is one file inspected with one or more tools and random options; distinct by file and options"
CASES = {"quick": 9000, "thorough": 250000}
REQUIRE = {"structures": 1500, "printed": 20000, "announced": 5000, "announcements": 1500, "tables": 700, "json": 700, "histories": 800, "history_lines": 3000, "metas": 500,
           "metas_json": 400, "parameters": 5000, "tel_diffs": 150, "real_files": 14, "cut_behind": 200}
MORE = re.compile(r" *And (\d+) objects more of the same type\n")


def expected_name(n):
    return classes.expected_class(n.type)[1]


def strings(path, nodes, conv):
    """(level, text, class) of all objects"""
    from eventio import EventIOFile
    out = []

    def rec(it, nodes, level):
        for o, n in zip(it, nodes):
            out.append((level, conv(o), expected_name(n)))
            if n.children is not None:
                rec(o, n.children, level + 1)
    with EventIOFile(path) as f:
        rec(f, nodes, 0)
    return out


def delivered(path, conv):
    """the same for a truncated file, and whether an error was raised"""
    from eventio import EventIOFile
    out = []

    def rec(it, level):
        for o in it:
            out.append((level, conv(o), type(o).__name__, o.header.type, o.header.version))
            if o.only_subobjects:
                rec(o, level + 1)
    with EventIOFile(path) as f:
        try:
            rec(f, 0)
        except EOFError:
            return out, True
    return out, False


def structure(ctx, path, nodes, truncated=False):
    r = ctx.rng
    args, m, conv = [path], 5, str
    if r.random() < 0.6:
        m = r.choice((0, 1, 1, 2, 3, 4, 6, 10, 100))
        args += r.choice((["-m", str(m)], [f"--max-repeats={m}"]))
    if r.random() < 0.3:
        args.append(r.choice(("-r", "--repr")))
        conv = repr
    r.shuffle(args) if len(args) == 1 else None
    error = False
    if truncated:
        objs, error = delivered(path, conv)
        objs = [x[:3] for x in objs]
    else:
        objs = strings(path, nodes, conv)
    for level, s, name in objs:
        ctx.check(s.startswith((name, "ObservationLevelParticles")), lambda: f"text of a {name}: {s!r}")
    res = tools.run("print_structure", *args)
    ctx.check(res.ok, lambda: f"print_structure {args[1:]}: {res}")
    text, at, k = res.out, 0, 0
    run = 0                 # objects of the same class in a row, printed
    total = announced = 0
    while at < len(text):
        line = "    " * objs[k][0] + " " + objs[k][1] + "\n" if k < len(objs) else None
        g = MORE.match(text, at)
        if g:
            n = int(g.group(1))
            names = {x[2] for x in objs[k:k + n]}
            ctx.check(n > 0 and k + n <= len(objs) and len(names) == 1, lambda: f"{args[1:]}: {g.group()!r} after {k} of {len(objs)} objects, followed by {[x[2] for x in objs[k:k + 5]]}")
            if m > 0:
                ctx.check(run >= m and names == {objs[k - 1][2]}, lambda: f"{args[1:]}: {g.group()!r} after {run} printed objects of type {objs[k - 1][2] if k else None}, omitted {names}")
            indent = len(g.group()) - len(g.group().lstrip(" "))
            ctx.check(indent in {4 * x[0] + 1 for x in objs[k:k + n]},
                      lambda: f"{args[1:]}: {g.group()!r} indented by {indent}, omitted objects of levels {sorted({x[0] for x in objs[k:k + n]})}")
            k += n
            announced += n
            run = 0
            at = g.end()
            ctx.count("announcements")
            continue
        if error and (line is None or not text.startswith(line, at)):
            # the error message
            error = False
            at = text.find("\n", at) + 1 or len(text)
            continue
        ctx.check(line is not None, lambda: f"{args[1:]}: additional output {text[at:at + 100]!r}")
        ctx.check(text.startswith(line, at), lambda: f"{args[1:]}: object {k}: printed {text[at:at + 120]!r}, expected {line!r}")
        run = run + 1 if run and objs[k - 1][2] == objs[k][2] else 1
        ctx.check(run <= m or objs[k][2] == "EventIOObject", lambda: f"{args[1:]}: {run} objects of type {objs[k][2]} printed in a row")
        at += len(line)
        k += 1
        total += 1
    ctx.check(k == len(objs), lambda: f"{args[1:]}: {total} objects printed, {announced} announced, {len(objs)} in the file")
    ctx.count("structures")
    ctx.count("printed", total)
    ctx.count("announced", announced)
    return args[1:]


def information(ctx, path, nodes, truncated=False):
    r = ctx.rng
    want = collections.Counter()
    if truncated:
        objs = [(t, v, level, name) for level, _, name, t, v in delivered(path, repr)[0]]
    else:
        objs = [(n.type, n.version, level, expected_name(n)) for n, level in evt.walk(nodes)]
    for t, v, level, name in objs:
        tt = classes.telescope_of_type(t)
        want[tt[0] if tt and classes.expected_class(t)[1] in ("TrackingPosition", "TelescopeEvent") else t, v, level, name] += 1
    as_json = r.random() < 0.5
    res = tools.run("print_object_information", *([path, "--json"] if as_json else [path]))
    ctx.check(res.ok, lambda: f"print_object_information: {res}")
    got = collections.Counter()
    if as_json:
        try:
            for d in json.loads(res.out):
                key = d["type"], d["version"], d["level"], d["name"].split(".")[-1]
                ctx.check(key not in got, lambda: f"{key} reported twice")
                got[key] = d["number_of_objects"]
        except (ValueError, KeyError, TypeError) as e:
            ctx.fail(f"print_object_information --json: {e!r} in {res.out[:300]!r}")
        ctx.count("json")
    else:
        for line in res.out.splitlines():
            c = [x.strip() for x in line.split("|")]
            if len(c) != 5 or not c[0].isdigit():
                continue
            key = int(c[0]), int(c[1]), int(c[2]), c[4].split(".")[-1]
            ctx.check(key not in got, lambda: f"{key} reported twice")
            got[key] = int(c[3])
        ctx.count("tables")
    ctx.check(got == want, lambda: f"object information (json={as_json}): reported {sorted((got - want).items())[:5]}, expected {sorted((want - got).items())[:5]}")


def history_text(r):
    x = r.random()
    if x < 0.1:
        return ""
    alphabet = "abcdefghijklmnopqrstuvwxyzABC 0123456789%_=/\\\t#\"'"
    if x < 0.4:
        alphabet += "äöüßéλ→中😀"
    t = "".join(r.choice(alphabet) for _ in range(r.choice((1, 10, 60, 300) * 5 + (2000, 8000))))
    if r.random() < 0.2:
        t = r.choice((" ", "\n", "  ", "\t")) + t + r.choice(("\n", " ", "\r\n"))
    return t


def cut_behind(ctx, data, followed):
    """what follows the object behind the reported ones may be missing or damaged"""
    r = ctx.rng
    if not followed or r.random() < 0.6:
        return data
    ctx.count("cut_behind")
    more = evt.encode_file(gentree.forest(r, ctx.nrng, 1, depth=1))
    return data + r.choice((more[:r.randint(5, len(more) - 1)], r.randbytes(r.randint(1, 50))))


def history(ctx):
    r = ctx.rng
    nodes, lines = [], []
    for _ in range(r.choice((0, 1, 1, 2, 3))):
        subs = []
        for _ in range(r.randint(0, 6)):
            t = r.choice((0, 2**31 - 1, 1700000000)) if r.random() < 0.2 else r.randint(0, 2**31 - 1)
            s = history_text(r)
            b = s.encode()
            subs.append(Node(r.choice((71, 72)), r.randint(0, 3), r.choice((0, 1)), struct.pack("<ih", t, len(b)) + b))
            lines.append((t, s.strip()))
        nodes.append(Node(70, 0, 1, children=subs))
    followed = r.random() < 0.8
    if followed:
        nodes.append(SPECS[75].generate(r, ctx.nrng, ident=-1))
        nodes.append(SPECS[2000].generate(r, ctx.nrng))
    if not nodes:
        return
    data = cut_behind(ctx, evt.encode_file(nodes), followed)
    kind = r.choice(("dat", "dat", "gz", "zst"))
    path = ctx.write("h", data if kind == "dat" else compress_random(r, data, kind))
    old = os.environ.get("TZ")
    os.environ["TZ"] = zone = r.choice(("UTC", "UTC", "EST5", "XXX-9:30", "CET-1CEST,M3.5.0,M10.5.0/3"))
    time.tzset()
    try:
        check_history(ctx, path, lines, zone)
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()
    ctx.nontrivial(data)


def check_history(ctx, path, lines, zone=""):
    res = tools.run("print_simtel_history", path)
    ctx.check(res.ok, lambda: f"print_simtel_history: {res}")
    want = "".join(time.strftime("%Y-%m-%dT%H:%M:%S", time.localtime(t)) + " " + s + "\n" for t, s in lines)
    if res.out != want:
        a, b = want.split("\n"), res.out.split("\n")
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        ctx.fail(f"history in time zone {zone}: line {k}: {b[k:k + 1]}, expected {a[k:k + 1]}; {len(b)} lines, expected {len(a)}")
    ctx.count("histories")
    ctx.count("history_lines", len(lines))


def check_meta(ctx, path, meta, encoding):
    """meta: [(telescope or -1, {key: value})] with text"""
    r = ctx.rng
    glob = [m for t, m in meta if t == -1]
    tels = {t: m for t, m in meta if t != -1}
    args = [path] + ([] if encoding == "utf8" and r.random() < 0.5 else ["--encoding", encoding])
    x = r.random()
    if x < 0.4:
        res = tools.run("print_simtel_metaparams", *args, "--json")
        ctx.check(res.ok, lambda: f"print_simtel_metaparams --json: {res}")
        d = json.loads(res.out)
        want = {"global": glob[-1] if glob else None, "telescopes": {str(t): m for t, m in tels.items()}}
        ctx.check(d == want, lambda: f"metaparams --json: {str(d)[:500]}, expected {str(want)[:500]}")
        ctx.count("metas_json")
    elif x < 0.6 and len(tels) >= 2:
        a, b = r.sample(list(tels), 2) if r.random() < 0.9 else [list(tels)[0]] * 2
        res = tools.run("print_simtel_metaparams", *args, "--tel-diff", a, b)
        ctx.check(res.ok, lambda: f"print_simtel_metaparams --tel-diff: {res}")
        la, lb = ([f"{k} = {v}" for k, v in tels[t].items()] for t in (a, b))
        if any(len((x + "e").splitlines()) != 1 for x in la + lb) or any(x.startswith(("--", "++")) for x in la + lb):
            return
        minus, plus = collections.Counter(la), collections.Counter(lb)
        gone, new = [], []
        got = [x for x in res.out.split("\n") if x.strip() and not x.startswith(("--- ", "+++ ", "@@"))]
        for x in got:
            if x.startswith("-"):
                gone.append(x[1:])
            elif x.startswith("+"):
                new.append(x[1:])
        common = minus & plus
        rest = collections.Counter(la)
        rest.subtract(gone)
        rest.update(new)
        ctx.check(+rest == plus and not any(v < 0 for v in rest.values()), lambda: f"--tel-diff {a} {b}: removed {gone}, added {new}; from {la} to {lb}")
        # in the order of the file
        for what, part, whole in (("removed", gone, la), ("added", new, lb)):
            it = iter(whole)
            ctx.check(all(x in it for x in part), lambda: f"--tel-diff {a} {b}: {what} {part}, in the file {whole}")
        ctx.count("tel_diffs")
    else:
        res = tools.run("print_simtel_metaparams", *args)
        ctx.check(res.ok, lambda: f"print_simtel_metaparams: {res}")
        want = []
        if glob:
            want += ["Global METAPARAMs"] + [f"{k} = {v}" for k, v in glob[-1].items()]
        for t, m in tels.items():
            want += [f"METAPARAMs for telescope={t}"] + [f"{k} = {v}" for k, v in m.items()]
        got = [x for x in res.out.split("\n") if x.strip() and not set(x) == {"-"}]
        want = [y for x in want for y in x.split("\n") if y.strip()]
        if got != want:
            k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            ctx.fail(f"metaparams line {k}: {got[k:k + 1]}, expected {want[k:k + 1]}; {len(got)} lines, expected {len(want)}")
        ctx.count("metas")
    ctx.count("parameters", sum(len(m) for _, m in meta))


def varuint(n):
    """length of strings below 2**14"""
    return bytes([n]) if n < 0x80 else bytes([0x80 | n >> 8, n & 0xFF])


def meta(ctx):
    r = ctx.rng
    encoding = r.choice(("utf8", "utf8", "latin1", "cp1252", "utf-16-le"))
    alphabet = "abcdefghijklmnopqrstuvwxyzABC 0123456789%_=/\\#\"'"
    if r.random() < 0.5:
        alphabet += "äöüßé"
        if encoding.startswith("utf"):
            alphabet += "λ→中😀"
    text = lambda lo: "".join(r.choice(alphabet) for _ in range(r.choice((lo, 5, 20, 150) * 8 + (3000,))))
    out, nodes = [], []
    ids = ([-1] if r.random() < 0.8 else []) + r.sample(range(1, 1000), r.randint(0, 5))
    if r.random() < 0.1:
        r.shuffle(ids)
    if not ids:
        ids = [-1]
    pad = lambda: r.choice(("", "", "", "", " ", "  "))         # (names are kept as they are)
    base = [(f"{pad()}K{k}{text(0).strip()}{pad()}", text(0)) for k in range(r.randint(0, 12))]
    for t in ids:
        m = {}
        for k, v in base:
            if r.random() < 0.8:
                m[k] = v if r.random() < 0.7 else text(0)
        if r.random() < 0.1:
            m.clear()
        p = varuint(len(m))
        for k, v in m.items():
            for s in (k, v):
                b = s.encode(encoding)
                p += varuint(len(b)) + b
        nodes.append(Node(75, t, r.choice((0, 1)), p))
        out.append((t, m))
    top = []
    if r.random() < 0.8:
        top.append(Node(70, 0, 1, children=[SPECS[71].generate(r, ctx.nrng)]))
    top += nodes
    followed = r.random() < 0.8
    if followed:
        top.append(SPECS[2000].generate(r, ctx.nrng))
    data = cut_behind(ctx, evt.encode_file(top), followed)
    kind = r.choice(("dat", "dat", "gz", "zst"))
    path = ctx.write("m", data if kind == "dat" else compress_random(r, data, kind))
    ctx.info.update(encoding=encoding, meta=out)
    check_meta(ctx, path, out, encoding)
    ctx.nontrivial(data, encoding)


def make(ctx):
    r = ctx.rng
    x = r.random()
    if x < 0.15:
        return simgen.SimFile(r, ctx.nrng).nodes
    if x < 0.25:
        return iactgen.IactFile(r, ctx.nrng).nodes
    if x < 0.6:
        # runs, also over several levels
        out = []
        for _ in range(r.randint(1, 5)):
            t = r.choice((2021, 2020, 71, 2031, 1206, 40000, 2101, 2203))
            tel = classes.telescope_of_type(t)
            run = [Node(t, spec.split_tel(tel[1]) if tel else k, r.choice((0, 0, 1)), b"xyz") for k in range(r.choice((1, 2, 4, 5, 6, 7, 20)))]
            if r.random() < 0.4:
                k = r.randint(0, len(run))
                out += [Node(2010, 0, 0, children=run[:k])] + run[k:] if r.random() < 0.5 else run[:k] + [Node(2010, 0, 0, children=run[k:])]
            elif r.random() < 0.3:
                # a run of containers, each with content of the same type
                out += [Node(70, 0, 0, children=[Node(70, 0, 0, children=[]) for _ in range(r.randint(0, 3))]) for _ in range(r.randint(1, 8))]
            else:
                out += run
        return out
    return gentree.forest(r, ctx.nrng, r.randint(1, 12), depth=r.randint(1, 5))


def run_case(ctx, idx):
    r = ctx.rng
    real = real_files()
    if idx < len(real):
        path, raw, nodes = real[idx]
        ctx.count("real_files")
        structure(ctx, path, nodes)
        information(ctx, path, nodes)
        lines = []
        for n in nodes:
            if n.type != 70:
                break
            for c in n.children:
                t, b = SPECS[c.type].read(c)[0]
                lines.append((t, b.decode().strip()))
        check_history(ctx, path, lines)
        ms = []
        for n in nodes:
            if n.type == 75:
                ms.append((n.id, {k.decode(): v.decode() for k, v in SPECS[75].read(n)[0].items()}))
            elif ms:
                break
        if ms:
            for _ in range(4):
                check_meta(ctx, path, ms, "utf8")
        return
    x = r.random()
    if x < 0.22:
        return history(ctx)
    if x < 0.5:
        return meta(ctx)
    nodes = make(ctx)
    data = evt.encode_file(nodes)
    kind = r.choice(("dat", "dat", "dat", "gz", "zst"))
    truncated = r.random() < 0.25 and len(data) > 16
    if truncated:
        n = r.choice(flat(nodes))
        lo = n.address if n.address is not None else 16
        cut = r.choice((r.randint(16, len(data) - 1), lo - r.randint(0, 12), lo, lo + r.randint(0, 5)))
        data = data[:min(max(cut, 16), len(data) - 1)]
        ctx.count("truncated")
    path = ctx.write("f", data if kind == "dat" else compress_random(r, data, kind))
    try:
        with caught():
            o = structure(ctx, path, nodes, truncated)
            information(ctx, path, nodes, truncated)
    except EOFError:
        # (not even the first object can be read)
        return
    ctx.nontrivial(data, o)
    if idx < 60:
        ctx.sample({"objects": len(flat(nodes)), "options": o})
