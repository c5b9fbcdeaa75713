"""Objects out of place are reported and never attributed to an event"""
import struct
import warnings

import evt
import gentree
import iactgen
import simgen
from common import caught, compress_random
from evt import Node
from spec import telescope_type

LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring with fault injection: objects removed, replaced, repeated, inserted and damaged in generated event files, errors and delivered events observed"
LEVEL_NOTE = ("fault enumeration: every object of a generated CORSIKA file removed, repeated, replaced by or swapped with another one, an automaton of the "
              "documented order decides if and where an error is due; in sim_telarray files the first objects of array events, telescope events and calibration "
              "events replaced, tracking positions removed, unhandled objects inserted anywhere. Containers are emptied as well.")
RULE = "a case is one file and several faults injected one at a time; distinct by file content with the fault"
CASES = {"quick": 1500, "thorough": 60000}
REQUIRE = {"iact_faults": 3500, "iact_wrong_order": 1900, "iact_still_valid": 200, "wrong_size": 300, "header_faults": 600, "before_fault": 3000,
           "sim_faults": 1000, "no_tracking": 150, "tracking_not_needed": 100, "wrong_first": 400, "emptied": 100, "unhandled_inserted": 900, "calibration_faults": 35,
           "calibration_pe_warnings": 25}


# ------------------------------------------------------------------ CORSIKA
class Wrong(Exception):
    pass


def iact_model(nodes):
    """how reading has to go: (header is right, number of events delivered, ok, exceptional type or None)"""
    it = iter(nodes)
    events = 0

    def nxt():
        n = next(it, None)
        if n is None:
            raise Wrong("end")
        return n

    try:
        if nxt().type != 1200:
            raise Wrong("header")
        if nxt().type != 1212:
            raise Wrong("header")
        n = nxt()
        if n.type == 1216:
            n = nxt()
        if n.type != 1201:
            raise Wrong("header")
    except Wrong as e:
        return "header", 0, str(e)
    try:
        n = nxt()
        while n.type != 1210:
            if n.type != 1202:
                raise Wrong("order")
            n = nxt()
            if n.type != 1203:
                raise Wrong("order")
            uses = n.tag
            n = nxt()
            while n.type not in (1204, 1213):
                if n.type in (1202, 1209, 1210):
                    raise Wrong("order")
                if n.type == 1205 and n.id != 999999:
                    raise Wrong("photons")
                n = nxt()
            split = n.type == 1213
            for _ in range(uses):
                if n.type != (1213 if split else 1204):
                    raise Wrong("order")
                if split:
                    n = nxt()
                    while n.type != 1214:
                        if n.type != 1205:
                            raise Wrong("order")
                        if n.id == 999999:
                            raise Wrong("particles")
                        n = nxt()
                n = nxt()
            if n.type != 1209:
                raise Wrong("order")
            events += uses
            n = nxt()
    except Wrong as e:
        return "events", events, str(e)
    return "ok", events, None


def sources(nodes):
    """the groups of the nodes of one shower: for every event header in order the nodes to its event end"""
    out = []
    for k, n in enumerate(nodes):
        if n.type == 1202:
            out.append([n])
        elif out:
            out[-1].append(n)
    return out


def iact(ctx):
    from eventio import IACTFile
    from eventio.exceptions import WrongSize, WrongType
    r = ctx.rng
    g = iactgen.IactFile(r, ctx.nrng, n_showers=r.randint(1, 3), n_tel=r.randint(1, 3), n_use=r.randint(1, 3))
    for n in g.nodes:
        if n.type == 1203:
            n.tag = len(n.value[1]["x"])
    # events of a shower by the identity of its objects
    showers = {}
    for e in g.events:
        part = [id(n) for n in g.nodes[e["_start"]:e["_end"]]]
        # optional unhandled objects are no part of the events
        part = tuple(i for i, n in zip(part, g.nodes[e["_start"]:e["_end"]]) if n.type != 1207)
        showers.setdefault(part, []).append(e)
    core = [k for k, n in enumerate(g.nodes)]
    for _ in range(8):
        nodes = list(g.nodes)
        x = r.random()
        k = r.choice(core) if r.random() < 0.7 else r.randrange(0, min(5, len(nodes)))
        size = None
        if x < 0.25:
            what = ("removed", nodes.pop(k))
        elif x < 0.4:
            nodes.insert(k, nodes[k])
            what = ("repeated", nodes[k])
        elif x < 0.55:
            j = r.randrange(len(nodes))
            nodes[k], nodes[j] = nodes[j], nodes[k]
            what = ("swapped", nodes[k], nodes[j])
        elif x < 0.7:
            n = r.choice(g.nodes) if r.random() < 0.6 else Node(gentree.unknown_type(r), 1, 0, r.randbytes(8))
            what = ("replaced", nodes[k], n)
            nodes[k] = n
        elif x < 0.85:
            n = r.choice(g.nodes) if r.random() < 0.6 else Node(gentree.unknown_type(r), 1, 0, r.randbytes(8))
            nodes.insert(k, n)
            what = ("inserted", n)
        else:
            # blocks with another number of entries
            k = r.choice([k for k, n in enumerate(nodes) if n.type in (1200, 1202, 1209, 1210)])
            n = nodes[k]
            want = struct.unpack("<i", n.payload[:4])[0]
            m = r.choice([c for c in (0, 1, 3, 272, 274, 312, -1, r.randint(0, 1000)) if c != want])
            nodes[k] = Node(n.type, n.id, n.version, struct.pack("<i", m) + (n.payload[4:] + bytes(4 * 1000))[:4 * max(m, 0)])
            size = nodes[k]
            what = ("size", n, m)
        kind, n_events, why = iact_model(nodes)
        if why == "particles":
            continue                    # particles among the bunches of an array: unspecified
        if kind == "events" and why == "photons":
            error = ValueError
        elif why == "end":
            error = Exception
        else:
            error = WrongType
        if size is not None:
            error = WrongSize
            if size.type == 1200:
                kind, n_events = "header", 0
            elif size.type == 1210:
                kind = "events"
            else:
                kind = "events"
                j = [n.type for n in nodes[:nodes.index(size)]].count(1209)
                n_events = sum(n.tag for n in [n for n in nodes if n.type == 1203][:j])
            ctx.count("wrong_size")
        # the same object twice: copies with own positions
        seen = set()
        written = []
        for n in nodes:
            if id(n) in seen:
                n = copy_node(n)
            seen.add(id(n))
            written.append(n)
        data = evt.encode_file(written)
        path = ctx.write("f", data if r.random() < 0.8 else compress_random(r, data, r.choice(("gz", "zst"))))
        ctx.nontrivial(data)
        ctx.count("iact_faults")
        label = f"{what}: {kind}, {n_events} events, {why}"
        got, err = [], None
        with caught():
            try:
                f = IACTFile(path)
            except Exception as e:
                err = e
            else:
                ctx.check(kind != "header", lambda: f"{label}: opened")
                with f:
                    try:
                        for ev in f:
                            got.append(ev)
                    except Exception as e:
                        err = e
        if kind == "ok":
            ctx.check(err is None, lambda: f"{label}: {err!r}")
            ctx.count("iact_still_valid")
        elif kind == "header":
            ctx.count("header_faults")
            ctx.check(isinstance(err, error), lambda: f"{label}: opening raised {err!r}, expected {error.__name__}")
        else:
            ctx.count("iact_wrong_order")
            ctx.check(err is not None, lambda: f"{label}: ended normally after {len(got)} events")
            ctx.check(isinstance(err, error), lambda: f"{label}: raised {err!r}, expected {error.__name__}")
        ctx.check(len(got) == n_events, lambda: f"{label}: {len(got)} events delivered")
        # events of undamaged showers at the beginning
        pos = 0
        for group in sources(nodes):
            part = tuple(id(n) for n in group if n.type in range(1200, 1217) and n.type != 1207 and n.type != 1210)
            if part not in showers:
                break
            for e in showers[part]:
                if pos < len(got):
                    d = iactgen.diff_event(e, got[pos])
                    ctx.check(d is None, lambda: f"{label}: event {pos} before the fault: {d}")
                    ctx.count("before_fault")
                pos += 1
    ctx.sample({"kind": "iact", "objects": len(g.nodes), "last fault": str(what), "expected": f"{kind} {n_events} {why}"})


def copy_node(n):
    m = Node(n.type, n.id, n.version, n.payload, None if n.children is None else [copy_node(c) for c in n.children], n.user, n.extended, n.value, n.tag)
    return m


# -------------------------------------------------------------- sim_telarray
def read_sim(path, **kw):
    """-> events, error, numbers of warnings about unhandled objects"""
    from eventio import SimTelFile
    from eventio.simtel.simtelfile import UnknownObjectWarning
    got, err = [], None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            with SimTelFile(path, **kw) as f:
                for ev in f:
                    got.append(ev)
        except Exception as e:
            err = e
    return got, err, [x for x in w if issubclass(x.category, UnknownObjectWarning)]


def other(r, not_types):
    """an object of another type"""
    while True:
        x = r.random()
        if x < 0.3:
            n = Node(gentree.unknown_type(r), r.randint(0, 9), 0, r.randbytes(8))
        else:
            n = Node(r.choice((2009, 2011, 2012, 2014, 2015, 2016, 2020, 2021, 2022, 2024, 1205, telescope_type(2200, 1), 1212)), 1, 0, r.randbytes(12))
        if n.type not in not_types:
            return n


def sim_faults(ctx):
    from eventio.exceptions import WrongSize, WrongType
    from eventio.simtel.simtelfile import NoTrackingPositions
    r = ctx.rng
    g = simgen.SimFile(r, ctx.nrng, n_tel=r.randint(1, 3), n_showers=r.randint(1, 3))
    arrays = []                             # (top-level node, array event, is calibration)
    for n in g.nodes:
        if n.type == 2010:
            arrays.append((n, n))
        elif n.type == 2028:
            arrays.append((n, n.children[0]))
    if not arrays:
        return
    for _ in range(5):
        top, a = r.choice(arrays)
        index = g.nodes.index(top)
        tel_events = [n for n in a.children if n.children is not None and a.children]
        saved = [(n, list(n.children)) for n in [top, a] + tel_events]
        x = r.random()
        allowed = None
        error = WrongType
        ctx.count("sim_faults")
        if x < 0.4 and tel_events:
            te = r.choice(tel_events)
            tel = te.children[0].value["telescope_id"] if "telescope_id" in te.children[0].value else te.children[0].id
            tel = te.children[0].id
            a.children = [n for n in a.children if n.type != telescope_type(2100, tel)]
            what = ("tracking position removed", tel)
            error = NoTrackingPositions
            if r.random() < 0.4:
                allowed = [t for t in g.tels if t != tel] + [1001]
                if tel not in allowed:
                    error = None
                    ctx.count("tracking_not_needed")
            else:
                ctx.count("no_tracking")
        elif x < 0.6:
            o = other(r, (2009,))
            a.children = [o] + a.children if r.random() < 0.5 else [o] + a.children[1:]
            what = ("first object of an array event", o)
            ctx.count("wrong_first")
        elif x < 0.8 and tel_events:
            te = r.choice(tel_events)
            o = other(r, (2011,))
            te.children = [o] + te.children if r.random() < 0.5 else [o] + te.children[1:]
            what = ("first object of a telescope event", o)
            ctx.count("wrong_first")
        elif top is not a:
            o = other(r, (2010,))
            top.children = [o] + top.children if r.random() < 0.5 else [o]
            what = ("first object of a calibration event", o)
            ctx.count("calibration_faults")
        else:
            o = other(r, (2009,))
            a.children = [o] + a.children[1:]
            what = ("first object of an array event", o)
            ctx.count("wrong_first")
        if error is WrongType and r.random() < 0.25:
            # nothing at all in the container
            box = te if "telescope" in what[0] else top if "calibration" in what[0] else a
            box.children = []
            what = (what[0].replace("first", "no"), box)
            error = (WrongType, WrongSize, ValueError)
            ctx.count("emptied")
        data = g.data()
        path = ctx.write("f", data)
        ctx.nontrivial(data)
        got, err, _ = read_sim(path, skip_non_triggered=False, **({"allowed_telescopes": allowed} if allowed else {}))
        if error is None:
            exp = g.selected(skip_non_triggered=False, allowed=allowed)
            ctx.check(err is None, lambda: f"{what}, allowed {allowed}: {err!r}")
            ctx.check(len(got) == len(exp), lambda: f"{what}, allowed {allowed}: {len(got)} events, expected {len(exp)}")
        else:
            exp = g.events
            ctx.check(isinstance(err, error), lambda: f"{what}: {err!r} after {len(got)} events, expected {error}")
            if error is NoTrackingPositions:
                ctx.check(str(what[1]) in str(err), lambda: f"{what}: telescope not named in {err}")
            # the event with the fault and at most the one before are not delivered
            k = [e["_start"] <= index < e["_end"] for e in exp].index(True)
            ctx.check(k - 1 <= len(got) <= k, lambda: f"{what} in event {k}: {len(got)} events before the error")
        for k, ev in enumerate(got):
            if error is None and exp[k]["_start"] <= index < exp[k]["_end"]:
                continue
            d = simgen.diff_event(exp[k], ev)
            ctx.check(d is None, lambda: f"{what}: event {k}: {d}")
            ctx.count("before_fault")
        for n, c in saved:
            n.children = c
    ctx.sample({"kind": "sim_telarray", "last fault": str(what)})


HANDLED = (70, 75, 100, 1204, 1205, 1212, 1216, 2000, 2001, 2002, 2003, 2004, 2005, 2006, 2007, 2008, 2010, 2020, 2021, 2022, 2023, 2026, 2028,
           2033, 2034)


def unhandled(ctx):
    r = ctx.rng
    g = simgen.SimFile(r, ctx.nrng, n_tel=r.randint(1, 3))
    expected = g.n_unknown
    end = len(g.nodes) - (1 if g.histograms is not None else 0)
    places = sorted((r.randint(0, end) for _ in range(r.randint(1, 8))), reverse=True)
    for p in places:
        while True:
            t = r.choice((1200, 1202, 1206, 1208, 1209, 1210, 1213, 1214, 2009, 2011, 2012, 2013, 2014, 2015, 2016, 2024, 2025, 2027, 2029, 2030, 2031, 2032, 71, 72,
                          telescope_type(2200, r.choice(g.tels)), gentree.unknown_type(r)))
            if t not in HANDLED:
                break
        if r.random() < 0.2:
            n = Node(t, r.randint(0, 9), r.randint(0, 3), children=[Node(2020, 1, 0, b""), Node(2021, 1, 0, b"")])
        else:
            n = Node(t, r.randint(0, 9), r.randint(0, 3), r.randbytes(r.randint(0, 30)))
        g.nodes.insert(p, n)
        expected += 1
    ctx.count("unhandled_inserted", len(places))
    pe = [n for n in g.nodes if n.type == 2034]
    if pe and r.random() < 0.5:
        # another object between the photo-electrons
        box = r.choice(pe)
        td = box.children[0]
        if r.random() < 0.5:
            td.children.insert(r.randint(0, len(td.children)), other(r, (1208,)))
        else:
            # a second one without photo-electrons at all: nothing of it is used
            n = g.nodes.index(box) + r.randint(0, 1)
            g.nodes.insert(n, Node(2034, 0, 0, children=r.choice(([], [other(r, (1204,))], [Node(2010, 1, 0, children=[other(r, (1208,))])]))))
        expected += 1
        ctx.count("calibration_pe_warnings")
    data = g.data()
    path = ctx.write("f", data)
    ctx.nontrivial(data)
    got, err, w = read_sim(path, skip_non_triggered=False)
    ctx.check(err is None, lambda: f"unhandled objects at {places}: {err!r}")
    ctx.check(len(w) == expected, lambda: f"{expected} unhandled objects, {len(w)} warnings: {[str(x.message)[:80] for x in w]}")
    ctx.check(len(got) == len(g.events), lambda: f"unhandled objects at {places}: {len(got)} events, expected {len(g.events)}")
    for k, (e, ev) in enumerate(zip(g.events, got)):
        d = simgen.diff_event(e, ev)
        ctx.check(d is None, lambda: f"unhandled objects at {places}: event {k}: {d}")
        ctx.count("before_fault")


def run_case(ctx, idx):
    (iact, iact, sim_faults, unhandled)[idx % 4](ctx)
