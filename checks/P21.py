"""Unsupported object versions are refused, supported ones are decoded"""
import classes
import cmp
import evt
import spec
from common import caught, compress_random, payload_of, raises
from evt import Node
from spec import SPECS, split_tel, telescope_type

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: outcome of decoding (value, kind of error) observed for every version number of every type with a version restriction"
LEVEL_NOTE = ("exhaustive over the 4096 version numbers of all types with restricted versions, each with payloads of supported versions, random and empty ones; "
              "types without decoder and containers with random versions. Values of supported versions are compared with the format description.")
RULE = "a case is one type with a block of 256 versions, or a random file with containers and types without decoder; distinct by type, versions and payloads"
RESTRICTED = (100, 1203, 1208, 1216, 2000, 2001, 2002, 2003, 2004, 2005, 2006, 2007, 2008, 2009, 2011, 2012, 2013, 2014, 2015, 2016, 2020, 2022,
              2023, 2026, 2027, 2032, 2033, 2100)
BLOCK = 256
GRID = len(RESTRICTED) * 4096 // BLOCK
CASES = {"quick": GRID + 1500, "thorough": GRID * 30 + 20000}
REQUIRE = {"refused": 80000, "decoded": 2000, "no_decoder": 2000, "containers": 1500, "payloads_available": 2000, "nested_refused": 5000, "reader_refused": 1000}


def ident_for(r, t):
    tel = r.randint(0, 999)
    if t == 2100:
        return telescope_type(2100, tel), split_tel(tel, r.choice((0, 0x100, 0x200, 0x300)))
    return t, None


def candidates(ctx, t):
    """payloads a decoder might understand"""
    out = []
    for v in SPECS[t].versions:
        ty, ident = ident_for(ctx.rng, t)
        n = SPECS[t].generate(ctx.rng, ctx.nrng, version=v, ident=ident, hint={"n_pixels": ctx.rng.randint(0, 4), "n_samples": 2})
        out.append(Node(ty, n.id, v, n.payload, value=n.value))
    return out


def grid(ctx, t, block):
    from eventio import EventIOFile
    r = ctx.rng
    s = SPECS[t]
    base = candidates(ctx, t)
    nodes = []
    for v in range(block * BLOCK, (block + 1) * BLOCK):
        if v in s.versions:
            nodes.append([b for b in base if b.version == v][0])
            continue
        b = base[-1] if r.random() < 0.5 else r.choice(base)
        payload = b.payload if r.random() < 0.8 else r.randbytes(r.randint(0, 60))
        nodes.append(Node(b.type, b.id, v, payload, user=r.random() < 0.1, extended=r.random() < 0.1))
    r.shuffle(nodes)
    nested = r.random() < 0.3
    top = [Node(2010, 1, 0, children=nodes)] if nested else nodes
    data = evt.encode_file(top)
    p = ctx.write("f", data if r.random() < 0.8 else compress_random(r, data, r.choice(("gz", "zst"))))
    ctx.nontrivial(t, block, data)
    with EventIOFile(p) as f:
        k = 0
        for o, n in zip(next(f) if nested else f, nodes):
            ctx.check(o.header.version == n.version, f"{n}: version {o.header.version}")
            if n.version in s.versions:
                d = cmp.diff(spec.strip(n.value), spec.actual_value(o, t), f"{n} v{n.version}")
                ctx.check(d is None, d)
                ctx.count("decoded")
            else:
                raises(ctx, NotImplementedError, o.parse, f"decoding {type(o).__name__} of unsupported version {n.version}")
                ctx.count("refused")
                if nested:
                    ctx.count("nested_refused")
            k += 1
        ctx.check(k == BLOCK, f"{k} objects")
    if block == 0:
        ctx.sample({"type": t, "supported": list(s.versions), "versions": [n.version for n in nodes][:8]})


def others(ctx):
    from eventio import EventIOFile
    r = ctx.rng
    nodes = []
    for _ in range(40):
        x = r.random()
        v = r.choice((0, 1, 2, 1000, 4095, r.randint(0, 4095)))
        if x < 0.25:
            nodes.append(Node(r.choice(classes.NO_DECODER), r.randint(0, 1000), v, r.randbytes(r.randint(0, 50))))
        elif x < 0.4:
            t = r.choice((1, 73, 74, 101, 1217, 2018, 2035, 2099, 2300, 65535, 0))
            nodes.append(Node(t, r.randint(0, 1000), v, r.randbytes(r.randint(0, 50))))
        elif x < 0.75:
            t = r.choice(classes.CONTAINERS + (telescope_type(2200, r.randint(0, 999)), 1213, 1214, 30000))
            nodes.append(Node(t, r.randint(0, 1000), v, children=[Node(2024, 0, 0, b"abc") for _ in range(r.randint(0, 2))]))
        else:
            t = r.choice([k for k in SPECS if k != 2100])
            n = SPECS[t].generate(r, ctx.nrng, hint={"n_pixels": r.randint(0, 6), "n_samples": r.randint(1, 5)})
            nodes.append(n)
    data = evt.encode_file(nodes)
    ctx.nontrivial(data)
    with EventIOFile(ctx.write("f", data)) as f:
        for o, n in zip(f, nodes):
            if n.children is not None:
                raises(ctx, (ValueError, NotImplementedError), o.parse, f"decoding of container {o}")
                ctx.count("containers")
            elif n.type in SPECS:
                d = cmp.diff(spec.strip(n.value), spec.actual_value(o, n.type), str(n))
                ctx.check(d is None, d)
                ctx.count("decoded")
            else:
                for k in range(r.randint(0, 2)):
                    raises(ctx, NotImplementedError, o.parse, f"decoding of {o} without decoder")
                if r.random() < 0.3:
                    m = r.randint(0, len(n.payload))
                    b = o.read(m)
                    ctx.check(b == n.payload[:m], f"{o}: payload {b!r}")
                    b += o.read()
                else:
                    b = o.read()
                ctx.check(b == n.payload, lambda: f"{o}: payload {b!r}, expected {n.payload!r}")
                raises(ctx, NotImplementedError, o.parse, f"decoding of {o} without decoder")
                ctx.count("no_decoder")
                ctx.count("payloads_available")


def simtel_level(ctx):
    """unsupported versions met by the event reader: an error, never an event with wrong data"""
    import simgen
    from eventio import SimTelFile
    r = ctx.rng
    g = simgen.SimFile(r, ctx.nrng, n_tel=r.randint(1, 2), n_showers=2)
    places = [(n, lst, k) for n, lst, k in leaves(g.nodes[g.header_end:]) if spec.spec_for(n) and spec.spec_for(n).type in RESTRICTED]
    if not places:
        return
    n, top, _ = r.choice(places)
    s = spec.spec_for(n)
    n.version = r.choice([v for v in list(range(12)) + [4095, r.randint(0, 4095)] if v not in s.versions])
    delivered = []
    index = [i for i, x in enumerate(g.nodes) if x is top][0]
    with caught():
        with SimTelFile(ctx.write("f", g.data()), skip_non_triggered=False) as f:
            try:
                for ev in f:
                    delivered.append(ev)
            except NotImplementedError:
                pass
            else:
                ctx.fail(f"{n} with unsupported version {n.version} was accepted by SimTelFile")
    ctx.count("reader_refused")
    for e, ev in zip(g.events, delivered):
        if e["_end"] <= index:
            d = simgen.diff_event(e, ev)
            ctx.check(d is None, d)
    ctx.check(len(delivered) <= sum(e["_start"] <= index for e in g.events), "events behind the unsupported object were delivered")


def leaves(nodes, top=None):
    for n in nodes:
        t = top or n
        if n.children is None:
            yield n, t, None
        else:
            yield from leaves(n.children, t)


def run_case(ctx, idx):
    if ctx.tier == "quick" and idx >= GRID or idx >= 30 * GRID:
        others(ctx)
        simtel_level(ctx)
        return
    idx %= GRID
    grid(ctx, RESTRICTED[idx % len(RESTRICTED)], idx // len(RESTRICTED))
