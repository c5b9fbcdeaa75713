"""Delivered events carry the conditions valid at that time and stay unchanged"""
import simgen
from cmp import freeze, same
from common import caught, compress_random, real_files
from checks.P17 import complete

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: conditions of every delivered event checked online, snapshots of all delivered events compared again at the end"
LEVEL_NOTE = ("exploration: files with condition objects at every place (before, between and behind the parts of events, repeated, partial, for some "
              "telescopes only); delivered events are kept and compared with a snapshot taken at delivery after every further step, after closing and after other "
              "events were modified by the user. Re-uses of a shower share the record of the shower itself, which is not modified.")
RULE = "a case is one file, all events kept; distinct by file content"
CASES = {"quick": 700, "thorough": 25000}
REQUIRE = {"events": 4000, "conditions": 8000, "changed_conditions": 1500, "modified_events": 400, "condition_objects_after_data": 150, "real_files": 10,
           "snapshots_compared": 8000}
KEYS = tuple(simgen.MONITORING.values())


class Conditions(simgen.SimFile):
    """condition objects at many more places"""

    def unknown(self, p=0.05):
        super().unknown(p)
        if self.rng.random() < 0.5:
            for t in self.tels:
                if self.rng.random() < 0.4:
                    self.monitor_one(t, self.rng.sample((2022, 2023, 2033), self.rng.randint(1, 3)))


def vandalise(r, ev):
    """what a user may do with his event"""
    for k in KEYS:
        for t in list(ev[k]) if isinstance(ev.get(k), dict) else ():
            x = r.random()
            if x < 0.3:
                ev[k][t].clear()
            elif x < 0.6:
                for e in list(ev[k][t]):
                    ev[k][t][e] = "replaced"
            elif x < 0.8:
                ev[k][t]["added"] = 1
            else:
                del ev[k][t]
    for k in ("telescope_events", "tracking_positions"):
        if isinstance(ev.get(k), dict) and r.random() < 0.5:
            for t in [t for t in ev[k] if isinstance(ev[k][t], dict)]:
                ev[k][t].clear()
            ev[k].clear()
    for k in list(ev):
        if r.random() < 0.3:
            ev[k] = "replaced"
        elif r.random() < 0.1:
            del ev[k]


def run_case(ctx, idx):
    from eventio import SimTelFile
    r = ctx.rng
    real = [(p, n) for p, _, n in real_files() if complete(n)]
    if idx < len(real):
        path, nodes = real[idx]
        g = simgen.Existing(nodes)
        ctx.count("real_files")
    else:
        o = {"n_tel": r.randint(1, 3)} if r.random() < 0.5 else {}
        g = (Conditions if r.random() < 0.8 else simgen.SimFile)(r, ctx.nrng, **o)
        data = g.data()
        path = ctx.write("f", data if r.random() < 0.9 else compress_random(r, data, r.choice(("gz", "zst"))))
        ctx.nontrivial(data)
    for e in g.events:
        e_nodes = g.nodes[e["_start"]:e["_end"]]
        arr = [k for k, n in enumerate(e_nodes) if n.type in (2010, 2028)]
        if arr and any(n.type in simgen.MONITORING for n in e_nodes[arr[0]:]):
            ctx.count("condition_objects_after_data")
    allowed = r.sample(g.tels, max(1, len(g.tels) // 2)) if r.random() < 0.2 else None
    skip = r.random() < 0.3
    expected = g.selected(skip, False, allowed)
    kept, last = [], {}
    with caught():
        f = SimTelFile(path, skip_non_triggered=skip, allowed_telescopes=allowed)
        for k, ev in enumerate(f):
            ctx.check(k < len(expected), lambda: f"more than {len(expected)} events")
            e = expected[k]
            for key in KEYS:
                want = e.get(key)
                if want is None:
                    ctx.check(key not in ev, lambda: f"event {k}: unexpected {key}")
                    continue
                d = simgen.diff_event({key: want}, {key: ev.get(key, {})})
                ctx.check(d is None, lambda: f"event {k}: {d}")
                for t in want:
                    ctx.count("conditions")
                    s = freeze(ev[key][t])
                    if (key, t) in last and same(last[key, t], s):
                        ctx.count("changed_conditions")
                    last[key, t] = s
            ctx.count("events")
            kept.append([ev, freeze(ev), k])
            if r.random() < 0.15:
                v = r.choice(kept)
                vandalise(r, v[0])
                v[1] = freeze(v[0])
                ctx.count("modified_events")
            for v in r.sample(kept, min(3, len(kept))):
                d = same(v[1], freeze(v[0]))
                ctx.check(d is None, lambda: f"delivered event {v[2]} changed while reading event {k}: {d}")
        ctx.check(len(kept) == len(expected), lambda: f"{len(kept)} events, expected {len(expected)}")
        for when in ("after the end", "after closing", "after deleting the reader"):
            for ev, snap, k in kept:
                d = same(snap, freeze(ev))
                ctx.check(d is None, lambda: f"delivered event {k} changed {when}: {d}")
                ctx.count("snapshots_compared")
            if when == "after the end":
                f.close()
            else:
                f = None
    if idx < 18:
        ctx.sample({"events": len(kept), "condition_objects": sum(n.type in simgen.MONITORING for n in g.nodes)})
