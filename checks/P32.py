"""Descriptions identify objects and events and have no effect"""
import re
import struct

import classes
import cmp
import evt
import gentree
import iactgen
import simgen
import spec
from common import caught, check_object, compress_random, payload_of, real_files
from evt import Node
from spec import split_tel, telescope_type

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: descriptions of all delivered objects and events parsed and compared with what was written, objects used before and after being described"
LEVEL_NOTE = ("exploration: objects of all types with any ids and versions (negative and large ones), containers, real files; str and repr of objects, headers, "
              "events and readers; names, types, sizes, positions, numbers and telescopes in the texts are compared, other parts of the texts are free.")
RULE = "a case is one file, every object of it described at random moments; distinct by file content"
CASES = {"quick": 5000, "thorough": 200000}
REQUIRE = {"described": 50000, "undisturbed": 20000, "telescope_ids": 10000, "event_ids": 2000, "reprs": 50000, "headers": 30000, "events": 1000,
           "particles": 200, "readers": 700, "decoded_after": 5000, "real_files": 14}

PLAIN = (2002, 2003, 2004, 2005, 2006, 2007, 2008, 2011, 2016, 2023, 2032, 2033)


def signed(i):
    i &= 0xFFFFFFFF
    return i - 2**32 if i >= 2**31 else i


def expected(n):
    """numbers in the description of an object"""
    t, i = n.type, n.id
    if t in PLAIN:
        return {"telescope_id": i}
    if t == 75:
        return {} if i == -1 else {"telescope_id": i}
    if t == 2022:
        return {"telescope_id": spec.joined_tel(i)}
    if t == 2014:
        return {"telescope_id": spec.joined_tel(i)}
    if t == 2013 or t == 2012 and n.version > 1:
        return {"telescope_id": i >> 12 & 0xFFFF}
    if t == 2012:
        return {"telescope_id": i >> 25 & 0x1F}
    if t == 2027 and i >= 0:
        return {"telescope_id": i % 1000000, "code": i // 1000000}
    if t == 1208 and i >= 0:
        return {"telescope_id": i % 1000, "array_id": i // 1000}
    if t == 1205:
        return {"n_particles": struct.unpack("<i", n.payload[8:12])[0]} if i == 999999 else \
            {"telescope_id": i % 1000, "array_id": i // 1000, "n_bunches": struct.unpack("<i", n.payload[8:12])[0]}
    if t in (1202, 1209, 1204, 2009, 2010):
        return {"event_id": i}
    if t == 2000:
        return {"run_id": i}
    tt = classes.telescope_of_type(t)
    if tt:
        return {"telescope_id": tt[1]}
    return {}


def describe(ctx, o, n):
    name = classes.expected_class(n.type)[1]
    s = str(o)
    ctx.count("described")
    if n.type == 1205 and n.id == 999999:
        ctx.count("particles")
        ctx.check(s.startswith("ObservationLevelParticles"), lambda: f"{n}: described as {s!r}")
    else:
        ctx.check(s.startswith(f"{name}[{n.type}]"), lambda: f"{n}: described as {s!r}")
    found = dict(re.findall(r"(\w+)=(-?\d+)\b", s))
    for k, v in expected(n).items():
        if k in found:
            ctx.check(int(found[k]) == v, lambda: f"{n} with id {n.id:#x}: described as {s!r}, {k} should be {v}")
            ctx.count({"telescope_id": "telescope_ids", "event_id": "event_ids"}.get(k, "other_numbers"))
    if n.type == 75:
        ctx.check(("global" in s) == (n.id == -1), lambda: f"{n}: described as {s!r}")
    if n.type == 2015:
        bits = re.search(r"result_bits=([01]+)", s)
        if bits:
            ctx.check(int(bits[1], 2) == n.id & 0xFFFFFFFF, lambda: f"{n} with id {n.id:#x}: described as {s!r}")
    s = repr(o)
    ctx.count("reprs")
    ctx.check(s.startswith(f"{name}[{n.type}]"), lambda: f"{n}: repr {s!r}")
    for k, v in re.findall(r"(size|only_subobjects|address)=(\w+)", s):
        want = {"size": n.size, "only_subobjects": n.sub, "address": n.address}[k]
        ctx.check(v in (str(want), str(int(want))), lambda: f"{n}: repr {s!r}, {k} should be {want}")
    if ctx.rng.random() < 0.5:
        s = repr(o.header)
        ctx.count("headers")
        ctx.check(str(n.type) in s, lambda: f"{n}: repr of the header {s!r}")
        want = {"version": n.version, "id": n.id, "user": n.user, "extended": n.extended, "only_subobjects": n.sub, "content_size": n.size,
                "header_size": n.header_size, "total_size": n.size + n.header_size, "content_address": n.address, "length": n.size}
        for k, v in re.findall(r"\b(\w+)=(-?\w+)", s):
            if k in want:
                ctx.check(v in (str(want[k]), str(int(want[k]))), lambda: f"{n}: repr of the header {s!r}, {k} should be {want[k]}")


def run_objects(ctx, f, nodes, data, late):
    r = ctx.rng
    k = 0
    for o in f:
        n = nodes[k]
        check_object(ctx, o, n)
        mode = r.random()
        if mode < 0.3:
            describe(ctx, o, n)
        if n.children is not None:
            if r.random() < 0.3:
                describe(ctx, o, n)
            run_objects(ctx, o, n.children, data, late)
            describe(ctx, o, n)
        else:
            want = payload_of(n, data)
            pos = o.tell()
            if r.random() < 0.5:
                m = r.randint(0, 10)
                b = o.read(m)
                describe(ctx, o, n)
                rest = o.read()
                ctx.check(b + rest == want[pos:], lambda: f"{n}: payload changed by describing it between two reads")
                ctx.count("undisturbed")
            elif n.value is not None:
                describe(ctx, o, n)
                v = spec.actual_value(o, spec.spec_for(n).type)
                d = cmp.diff(spec.strip(n.value), v, str(n))
                ctx.check(d is None, d)
                describe(ctx, o, n)
                ctx.count("decoded_after")
            else:
                describe(ctx, o, n)
                ctx.check(o.tell() == pos, lambda: f"{n}: position {o.tell()} after describing it at {pos}")
                ctx.check(o.read() == want[pos:], lambda: f"{n}: payload changed by describing it")
                ctx.count("undisturbed")
        late.append((o, n))
        if r.random() < 0.2:
            describe(ctx, *r.choice(late))
        k += 1
    ctx.check(k == len(nodes), lambda: f"{k} objects, {len(nodes)} written")


def event_texts(ctx, g, path):
    from eventio import IACTFile
    with IACTFile(path) as f:
        s = repr(f)
        str(f)
        ctx.count("readers")
        ctx.check("IACTFile" in s, lambda: f"repr of the reader {s!r}")
        for k, v in re.findall(r"(n_telescopes)=(\d+)", s):
            ctx.check(int(v) == g.n_tel, lambda: f"{k} in {s!r}, expected {g.n_tel}")
        k = 0
        for ev in f:
            repr(f)
            e = g.events[k]
            s = repr(ev)
            ctx.check(str(ev) is not None and s.startswith("Event"), lambda: f"event described as {s!r}")
            want = {"event_number": e["event_number"], "reuse": e["reuse"], "n_telescopes": len(e["n_bunches"])}
            for key, v in re.findall(r"(event_number|reuse|n_telescopes)=([-\w.]+)", s):
                ctx.check(float(v) == want[key], lambda: f"event described as {s!r}, {key} should be {want[key]}")
            d = iactgen.diff_event(e, ev)
            ctx.check(d is None, lambda: f"after describing: {d}")
            ctx.count("events")
            k += 1
        ctx.check(k == len(g.events), lambda: f"{k} events, expected {len(g.events)}")


def run_case(ctx, idx):
    from eventio import EventIOFile
    r, nrng = ctx.rng, ctx.nrng
    real = real_files()
    path = None
    if idx < len(real):
        path, data, nodes = real[idx]
        if len(data) > 3e6:
            nodes = nodes[:60]
        ctx.count("real_files")
    elif idx % 4 == 0:
        nodes = []
        for _ in range(r.randint(10, 25)):
            t = r.choice(list(spec.SPECS))
            big = r.choice((0, 1, -1, 2**31 - 1, -2**31, 12345678)) if r.random() < 0.3 else r.getrandbits(r.randint(1, 31))
            if t == 2100:
                tel = r.randint(0, 999)
                nodes.append(Node(telescope_type(2100, tel), signed(split_tel(tel, r.getrandbits(16) << 8)), r.randint(0, 9), r.randbytes(9)))
            elif t == 1205:
                i = r.choice((999999, r.randint(0, 998) * 1000 + r.randint(0, 999)))
                nodes.append(Node(t, i, 0, struct.pack("<hhfi", i // 1000, i % 1000, 1.0, r.randint(0, 10**9))))
            elif t == 1201:
                nodes.append(Node(t, big, 0, struct.pack("<i", r.randint(1, 5)) + r.randbytes(8)))
            else:
                nodes.append(Node(t, big, r.randint(0, 4095), r.randbytes(r.randint(0, 12))))
        for t in (1204, 2010, 2028, 2034, 70, telescope_type(2200, r.randint(0, 999)), gentree.unknown_type(r)):
            nodes.insert(r.randint(0, len(nodes)), Node(t, signed(r.getrandbits(32)), r.randint(0, 9), children=[]))
    elif idx % 4 == 1:
        nodes = simgen.SimFile(r, nrng, n_tel=r.randint(1, 2), n_showers=1).nodes
    elif idx % 4 == 2:
        g = iactgen.IactFile(r, nrng)
        nodes = g.nodes
    else:
        nodes = gentree.forest(r, nrng)
    if path is None:
        data = evt.encode_file(nodes)
        path = ctx.write("f", data if r.random() < 0.8 else compress_random(r, data, r.choice(("gz", "zst"))))
    ctx.nontrivial(data)
    late = []
    with caught():
        with EventIOFile(path) as f:
            repr(f), str(f)
            if len(nodes) < len(real_nodes(real, idx)):
                run_objects(ctx, Limited(f, len(nodes)), nodes, data, late)
            else:
                run_objects(ctx, f, nodes, data, late)
            repr(f), str(f)
        # closing changes nothing
        for o, n in r.sample(late, min(3, len(late))):
            describe(ctx, o, n)
        if idx >= len(real) and idx % 4 == 2:
            event_texts(ctx, g, path)
    if idx % 500 < 30:
        ctx.sample({"descriptions": [str(o)[:80] for o, _ in late[:5]]})


def real_nodes(real, idx):
    return real[idx][2] if idx < len(real) else ()


class Limited:
    """the first objects of a file"""

    def __init__(self, f, n):
        self.f, self.n = f, n

    def __iter__(self):
        for _ in range(self.n):
            yield next(self.f)
