"""Search utilities find exactly the matching objects"""
import itertools

import classes
import evt
import gentree
import iactgen
import simgen
import spec
from common import caught, check_object, compress_random, fields, node_fields, real_files
from evt import Node

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: objects found by every utility compared online with an exhaustive walk over the written tree"
LEVEL_NOTE = ("exploration: random trees (deep, wide, containers without content, runs of equal types) and generated and checked-in sim_telarray and CORSIKA files, types "
              "present and absent, files and objects as roots, consumers that decode found objects in between, files cut inside top-level and nested headers. For paths and "
              "nested matches only searches are compared whose criterion is unambiguous for the tree.")
RULE = "a case is one tree and about ten searches; distinct by tree and searches"
CASES = {"quick": 6000, "thorough": 200000}
REQUIRE = {"all_objects": 6000, "toplevel": 6000, "anywhere": 4000, "paths": 3000, "first": 2000, "at_most_n": 4000, "objects_found": 100000, "cut_files": 1500,
           "warnings": 1500, "not_found": 1000, "from_object": 800}


def cls_of(n):
    return classes.class_of(n.type)


def inst(n, cls):
    return issubclass(cls_of(n), cls)


def walk(nodes, level=0):
    for n in nodes:
        yield n, level
        if n.children is not None:
            yield from walk(n.children, level + 1)


def anywhere(nodes, cls):
    for n in nodes:
        if inst(n, cls):
            yield n
        elif n.children is not None:
            yield from anywhere(n.children, cls)


def ambiguous(nodes, cls, inside=False):
    return any((inside and inst(n, cls)) or n.children is not None and ambiguous(n.children, cls, inside or inst(n, cls)) for n in nodes)


def path_strict(nodes, path):
    for n in nodes:
        if inst(n, path[0]):
            if len(path) == 1:
                yield n
            elif n.children is not None:
                yield from path_strict(n.children, path[1:])


def path_loose(nodes, path, level=0):
    for n in nodes:
        if inst(n, path[-1]):
            yield n
        elif inst(n, path[level]) and n.children is not None:
            yield from path_loose(n.children, path, level + 1)


def path_usable(nodes, path):
    """all objects on the way are containers and nothing of the last type appears before its place"""
    for n in nodes:
        if len(path) > 1 and inst(n, path[-1]):
            return False
        if len(path) > 1 and inst(n, path[0]):
            if n.children is None or not path_usable(n.children, path[1:]):
                return False
    return True


def compare(ctx, it, expected, what, use=None, level=False):
    k = 0
    for x, e in itertools.zip_longest(it, expected):
        ctx.check(e is not None, lambda: f"{what}: additional {x}")
        ctx.check(x is not None, lambda: f"{what}: only {k} objects, expected {len(expected)}; missing {e}")
        if level:
            ctx.check(x[1] == e[1], lambda: f"{what}: level {x[1]} of {e[0]}, expected {e[1]}")
            x, e = x[0], e[0]
        check_object(ctx, x, e, what)
        ctx.count("objects_found")
        if use:
            use(x, e)
        k += 1


def make(ctx):
    r = ctx.rng
    x = r.random()
    if x < 0.1:
        return simgen.SimFile(r, ctx.nrng).nodes
    if x < 0.2:
        return iactgen.IactFile(r, ctx.nrng).nodes
    if x < 0.3:
        return [gentree.deep(r, ctx.nrng, r.randint(1, 40)) for _ in range(r.randint(1, 3))]
    return gentree.forest(r, ctx.nrng, r.choice((None, None, 0, 1, 30)) or r.randint(1, 20), depth=r.randint(1, 5))


def searches(ctx, path, data, nodes, seekable):
    import eventio.search_utils as su
    from eventio import EventIOFile
    r = ctx.rng
    present = sorted({n.type for n, _ in walk(nodes)})

    def pick():
        t = r.choice(present) if r.random() < 0.8 else r.choice(classes.known_types() + [2150, 2250])
        return classes.class_of(t)

    def use(o, n):
        if r.random() < 0.2 and n.children is None:
            try:
                o.parse()
            except Exception:
                pass
        elif r.random() < 0.1 and seekable:
            o.seek(r.randint(0, n.size))
            o.read(r.randint(-1, 5))
    use_ = use if seekable and r.random() < 0.5 else None
    log = []

    # everything
    with EventIOFile(path) as f:
        lv = r.choice((0, 0, 0, 3))
        compare(ctx, su.yield_all_objects_depth_first(f, **({"level": lv} if lv else {})), list(walk(nodes, lv)), "all objects", use_, level=True)
        ctx.count("all_objects")
    # at the top level
    c = pick()
    exp = [n for n in nodes if inst(n, c)]
    with EventIOFile(path) as f:
        if r.random() < 0.5:
            res = su.collect_toplevel_of_type(f, c)
            ctx.check(isinstance(res, list), "collect_toplevel_of_type does not return a list")
            compare(ctx, res, exp, f"collect_toplevel_of_type {c.__name__}")
        else:
            compare(ctx, su.yield_toplevel_of_type(f, c), exp, f"yield_toplevel_of_type {c.__name__}", use_)
        ctx.count("toplevel")
        ctx.count("not_found", not exp)
    log.append(c.__name__)
    # first match, repeatedly
    c = pick()
    exp = [n for n in nodes if inst(n, c)]
    with EventIOFile(path) as f:
        for e in exp[:3] + [None]:
            if e is None and len(exp) > 3:
                break
            try:
                o = su.find_type(f, c)
            except (StopIteration, ValueError) as ex:
                ctx.check(e is None, lambda: f"find_type {c.__name__}: {ex!r}, expected {e}")
            else:
                ctx.check(e is not None, lambda: f"find_type {c.__name__}: additional {o}")
                check_object(ctx, o, e, "find_type")
                ctx.count("first")
    # anywhere, at most n
    for _ in range(2):
        c = pick()
        if ambiguous(nodes, c):
            continue
        exp = list(anywhere(nodes, c))
        with EventIOFile(path) as f:
            compare(ctx, su.yield_subobjects(f, c), exp, f"yield_subobjects {c.__name__}", use_)
            ctx.count("anywhere")
            ctx.count("not_found", not exp)
        n = r.choice((0, 1, 2, 3, None, max(len(exp) - 1, 1), max(len(exp), 1), len(exp) + 1, len(exp) + 100))
        with EventIOFile(path) as f:
            kw = {} if n is None else {"n": n}
            compare(ctx, su.yield_n_subobjects(f, c, **kw), exp[:3 if n is None else n], f"yield_n_subobjects {c.__name__} {n}", use_)
            ctx.count("at_most_n")
        log.append((c.__name__, n))
    # along a path
    for _ in range(3):
        p = []
        level = nodes
        while level and len(p) < 6:
            n = r.choice(level)
            p.append(cls_of(n))
            if n.children is None or r.random() < 0.1:
                break
            level = n.children
        if not p:
            continue
        if r.random() < 0.2:
            p.append(pick())
        elif r.random() < 0.1:
            p[r.randrange(len(p))] = pick()
        if len(set(p)) == len(p) and path_usable(nodes, p):
            exp = list(path_strict(nodes, p))
            if exp != list(path_loose(nodes, p)):
                continue
            name = ".".join(x.__name__ for x in p)
            p = p if r.random() < 0.5 else tuple(p)
            with EventIOFile(path) as f:
                if r.random() < 0.5:
                    compare(ctx, su.yield_all_subobjects(f, p), exp, f"yield_all_subobjects {name}", use_)
                else:
                    res = su.find_all_subobjects(f, p)
                    compare(ctx, res, exp, f"find_all_subobjects {name}")
                ctx.count("paths")
                ctx.count("not_found", not exp)
            log.append(name)
    # with an object as root
    roots = [(k, n) for k, n in enumerate(nodes) if n.children]
    if roots:
        k, root = r.choice(roots)
        c = pick()
        with EventIOFile(path) as f:
            o = next(itertools.islice(f, k, None))
            x = r.random()
            if x < 0.4:
                compare(ctx, su.yield_all_objects_depth_first(o), list(walk(root.children)), f"all objects of {root}", use_, level=True)
            elif x < 0.7 and not inst(root, c) and not ambiguous(root.children, c):
                compare(ctx, su.yield_subobjects(o, c), list(anywhere(root.children, c)), f"{c.__name__} in {root}", use_)
            else:
                compare(ctx, su.collect_toplevel_of_type(o, c), [n for n in root.children if inst(n, c)], f"{c.__name__} directly in {root}")
            ctx.count("from_object")
    ctx.nontrivial(data, log)
    if ctx.idx < 40:
        ctx.sample({"objects": sum(1 for _ in walk(nodes)), "searches": [str(x) for x in log]})


def cut(ctx, nodes, data):
    """a header is cut: what precedes it is returned, with a warning"""
    import eventio.search_utils as su
    from eventio import EventIOFile
    r = ctx.rng
    full = list(walk(nodes))
    n, level = r.choice(full[1:] or full)
    start = n.start
    lo = 5 if start == 0 else 1
    pos = r.randint(start + lo, start + n.header_size - 1) if start + lo <= start + n.header_size - 1 else None
    if pos is None:
        return
    before = [m for m, _ in full if m.start + m.header_size <= pos]
    # constructors of two types read the beginning of their payload
    if any(m.type in (1201, 1205) and m.address + 12 > pos for m in before):
        return
    ids = {id(m) for m in before}
    what = f"cut at {pos} in the header of {n}, level {level}: "
    part = data[:pos]
    kind = r.choice(("dat", "dat", "gz", "zst"))
    path = ctx.write("cut", part if kind == "dat" else compress_random(r, part, kind))
    present = sorted({m.type for m in before}) or [2010]
    c = classes.class_of(r.choice(present))
    ctx.count("cut_files")
    # the top level is searched: only a cut top-level header is noticed
    exp = [m for m in nodes if id(m) in ids and inst(m, c)]
    with EventIOFile(path) as f, caught() as w:
        if r.random() < 0.5:
            res = su.collect_toplevel_of_type(f, c)
        else:
            res = list(su.yield_toplevel_of_type(f, c))
    compare(ctx, res, exp, what + f"top level {c.__name__}")
    ctx.check((len(w) > 0) == (level == 0), lambda: what + f"{len(w)} warnings when collecting at the top level")
    ctx.count("warnings", len(w))
    # along the path to the cut object
    chain = path_to(nodes, n)
    p = [cls_of(m) for m in chain]
    if len(set(p)) == len(p) and path_usable(nodes, p):
        exp = [m for m in path_strict(nodes, p)]
        if exp == list(path_loose(nodes, p)):
            exp = [m for m in exp if id(m) in ids]
            with EventIOFile(path) as f, caught() as w:
                res = su.find_all_subobjects(f, p)
            compare(ctx, res, exp, what + "along " + ".".join(x.__name__ for x in p))
            ctx.check(len(w) > 0, lambda: what + "no warning when collecting along a path")
            ctx.count("warnings", len(w))
    # generators deliver the same and end with an error
    with EventIOFile(path) as f:
        got = []
        try:
            for o, l in su.yield_all_objects_depth_first(f):
                got.append((o, l))
        except EOFError:
            pass
        else:
            ctx.fail(what + "exhaustive walk ends normally")
        compare(ctx, got, [(m, l) for m, l in full if id(m) in ids], what + "exhaustive walk", level=True)


def path_to(nodes, n):
    for m in nodes:
        if m is n:
            return [m]
        if m.children is not None:
            p = path_to(m.children, n)
            if p:
                return [m] + p
    return []


def run_case(ctx, idx):
    r = ctx.rng
    if idx < 10:
        path, data, nodes = real_files()[idx % len(real_files())]
        if len(data) > 3e6:
            path, data, nodes = min(real_files(), key=lambda x: len(x[1]))
        searches(ctx, path, data, nodes, False)
        return
    nodes = make(ctx)
    data = evt.encode_file(nodes)
    kind = r.choice(("dat", "dat", "dat", "gz", "zst"))
    path = ctx.write("f", data if kind == "dat" else compress_random(r, data, kind))
    searches(ctx, path, data, nodes, kind == "dat")
    if r.random() < 0.5:
        cut(ctx, nodes, data)
