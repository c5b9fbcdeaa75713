"""Event readers on truncated files: a correct prefix of the events"""
import bisect
import warnings

import evt
import simgen
import iactgen
from common import caught, compress_random, real_files, flat
from cmp import freeze, same

LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring with fault injection: truncated event files, events checked against a reference model of the complete file"
LEVEL_NOTE = "exploration: sampled cut positions of generated and real files; reference events from lib/simgen.py and lib/iactgen.py."
RULE = ("a case is one event file and a set of cut positions behind its header (object boundaries, positions in and next to headers of "
        "every nesting level, random); for every cut the event reader is run to its end and each event compared with the model")
CASES = {"quick": 300, "thorough": 4000}
REQUIRE = {"cuts": 8000, "events_compared": 20000, "incomplete_events": 1000, "warned": 2000, "iact_cuts": 1000, "iact_raised": 900, "header_cuts": 1200}
CONTENT = (2010, 2028, 2021, 1204, 2026)


def cut_positions(r, data, nodes, first, n):
    every = flat(nodes[first:])
    cuts = {nodes[first].start if first < len(nodes) else len(data), len(data)}
    for x in r.sample(every, min(len(every), n)):
        cuts.update((x.start, x.start + 1, x.start + 5, x.address - 1, x.address, x.address + 1, x.address + x.size - 1))
        cuts.add(r.randint(x.start, x.address + x.size))
    lo = nodes[first].start if first < len(nodes) else len(data)
    for _ in range(n):
        cuts.add(r.randint(lo, len(data)))
    return sorted(c for c in cuts if lo <= c <= len(data))


def simtel(ctx):
    from eventio import SimTelFile
    r = ctx.rng
    g = simgen.SimFile(r, ctx.nrng, n_tel=r.randint(1, 3), n_showers=r.randint(1, 3))
    data, nodes = g.data(), g.nodes
    ends = [n.address + n.size for n in nodes]
    skip = r.random() < 0.3
    allowed = None
    if r.random() < 0.2:
        allowed = set(r.sample(g.tels, r.randint(1, len(g.tels))))
    kw = {"skip_non_triggered": skip, "allowed_telescopes": allowed}
    cuts = cut_positions(r, data, nodes, g.header_end, 25)
    cuts = r.sample(cuts, min(len(cuts), 60))
    p = ctx.path("f")
    for cut in cuts:
        kind = r.choices(("dat", "gz", "zst", "pipe"), (16, 2, 2, 0.5))[0]
        part = data[:cut]
        ctx.write("f", part if kind == "dat" else compress_random(r, part, "zst" if kind == "zst" else "gz"))
        complete = bisect.bisect_right(ends, cut)       # complete top-level objects
        inside = cut != (ends[complete - 1] if complete else 0)
        must, may = [], []
        for e in g.events:
            last = max(k for k in range(e["_start"], e["_end"]) if nodes[k].type in CONTENT)
            whole = last < complete
            # (with a restriction to telescopes, the rest of an array event is not looked at)
            begun = nodes[e["_start"]].start < cut
            if begun:
                x = simgen.restrict(e, allowed) if allowed else e
                may.append((x, whole))
        ctx.info.update(cut=cut, complete=complete, kind=kind, skip=skip, allowed=allowed, n_may=len(may))
        with caught() as w:
            with SimTelFile(p, zcat=kind == "pipe", **kw) as f:
                d = simgen.diff_metadata(g, f)
                ctx.check(d is None, f"cut at {cut}: {d}")
                got = []
                while True:
                    try:
                        got.append(next(f))
                    except StopIteration:
                        break
                    ctx.check(len(got) <= len(may), f"cut at {cut}: {len(got)} events, only {len(may)} have begun")
                for _ in range(2):
                    try:
                        x = next(f)
                    except StopIteration:
                        continue
                    ctx.fail(f"cut at {cut}: event after the end: {x.get('event_id')}")
        if skip:
            may = [(e, whole) for e, whole in may if e["type"] != "data" or e.get("telescope_events") or not whole]
        k = 0
        for i, ev in enumerate(got):
            last = i == len(got) - 1
            while True:
                ctx.check(k < len(may), f"cut at {cut}: event {ev.get('event_id')} is not in the file or out of order")
                e, whole = may[k]
                k += 1
                # an incomplete event can only be the last one, and can be left out
                d = simgen.diff_event(e, ev, partial=not whole and last)
                if d is None:
                    break
                ctx.check(not whole, f"cut at {cut}: event {i}: {d}")
            ctx.count("events_compared")
            if not whole:
                ctx.count("incomplete_events")
            if not whole and skip and ev["type"] == "data":
                ctx.check(ev.get("telescope_events"), f"cut at {cut}: non-triggered event delivered")
        for e, whole in may[k:]:
            ctx.check(not whole, f"cut at {cut}: complete event {e['event_id']} ({e['type']}) not delivered, {len(got)} were")
        if inside and not allowed:
            finished = any(n.type == 100 for n in nodes[:complete])
            if not finished:
                ctx.check(len(w) > 0, f"cut at {cut} inside of {nodes[complete] if complete < len(nodes) else None}: no warning")
                ctx.count("warned")
        ctx.count("cuts")
        ctx.nontrivial(data, cut, repr(kw))
    header_cut(ctx, SimTelFile, data, nodes, g.header_end)
    ctx.sample({"kind": "simtel", "events": len(g.events), "cuts": len(cuts), "options": repr(kw)})


def iact(ctx):
    from eventio import IACTFile
    r = ctx.rng
    g = iactgen.IactFile(r, ctx.nrng, n_showers=r.randint(1, 4), n_tel=r.randint(1, 3))
    data, nodes = g.data(), g.nodes
    ends = [n.address + n.size for n in nodes]
    end_of_run = ends[g.events_end]
    cuts = cut_positions(r, data, nodes, g.body, 20)
    cuts = r.sample(cuts, min(len(cuts), 60))
    p = ctx.path("f")
    for cut in cuts:
        kind = r.choices(("dat", "gz", "zst", "pipe"), (16, 2, 2, 0.5))[0]
        part = data[:cut]
        ctx.write("f", part if kind == "dat" else compress_random(r, part, "zst" if kind == "zst" else "gz"))
        complete = bisect.bisect_right(ends, cut)
        want = [e for e in g.events if e["_end"] <= complete]
        ctx.info.update(cut=cut, complete=complete, kind=kind)
        with IACTFile(p, zcat=kind == "pipe") as f:
            d = iactgen.diff_metadata(g, f)
            ctx.check(d is None, f"cut at {cut}: {d}")
            got = []
            error = None
            try:
                for ev in f:
                    ctx.check(len(got) < len(want), f"cut at {cut}: more than the {len(want)} complete events")
                    d = iactgen.diff_event(want[len(got)], ev)
                    ctx.check(d is None, f"cut at {cut}: {d}")
                    got.append(ev)
                    ctx.count("events_compared")
            except AssertionError:
                raise
            except Exception as e:
                if type(e).__name__ == "Violation":
                    raise
                error = e
        ctx.check(len(got) == len(want), f"cut at {cut}: {len(got)} events before {error!r}, {len(want)} are complete")
        if cut < end_of_run:
            ctx.check(error is not None, f"cut at {cut} of {end_of_run}: ended silently")
            ctx.count("iact_raised")
        else:
            ctx.check(error is None, f"cut behind the run end: {error!r}")
        ctx.count("iact_cuts")
        ctx.nontrivial(data, cut)
    header_cut(ctx, IACTFile, data, nodes, g.body)


def header_cut(ctx, cls, data, nodes, first):
    """files that end before the last object needed for opening are refused"""
    r = ctx.rng
    bounds = [n.start for n in nodes[:first]] + [n.address for n in nodes[:first]]
    cuts = set(r.sample(bounds, min(len(bounds), 5))) | {r.randint(0, nodes[first - 1].address + nodes[first - 1].size - 1) for _ in range(3)} | {nodes[first - 1].start}
    for cut in sorted(cuts):
        if nodes[first - 1].address + nodes[first - 1].size <= cut:
            continue
        kind = r.choices(("dat", "gz", "zst", "pipe"), (16, 2, 2, 0.5))[0]
        p = ctx.write("h", data[:cut] if kind == "dat" else compress_random(r, data[:cut], "zst" if kind == "zst" else "gz"))
        ctx.info.update(cut=cut, kind=kind)
        try:
            with caught():
                cls(p, zcat=kind == "pipe").close()
        except StopIteration:
            ctx.fail(f"cut at {cut} in the header: opening raises StopIteration")
        except Exception as e:
            if cut >= 20:
                ctx.check(isinstance(e, EOFError), lambda: f"cut at {cut} in the header: {e!r}")
            ctx.count("header_cuts")
        else:
            ctx.fail(f"cut at {cut} in the header of {nodes[first - 1].address + nodes[first - 1].size}: opened")


def run_case(ctx, idx):
    if ctx.rng.random() < 0.7:
        simtel(ctx)
    else:
        iact(ctx)
