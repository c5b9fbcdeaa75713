"""Event selection only removes and never alters events"""
import itertools

import simgen
from common import caught, compress_random, real_files
from checks.P17 import complete

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: events delivered under random selections checked online against the selected events of the reference model"
LEVEL_NOTE = ("exploration: every generated and complete checked-in file is read under several random combinations of the three selections, including "
              "telescopes not in the file, one telescope, all telescopes; an empty collection of telescopes means no restriction and is not generated.")
RULE = "a case is one file read under several selections; distinct by file content and selections"
CASES = {"quick": 700, "thorough": 25000}
REQUIRE = {"readers": 2500, "events": 6000, "skipped_data": 2500, "skipped_calibration": 500, "partly_restricted": 800, "fully_restricted": 500,
           "unrestricted_by_choice": 300, "real_files": 10}


def selections(r, tels, n):
    out = []
    for _ in range(n):
        x = r.random()
        if x < 0.25:
            allowed = None
        elif x < 0.4:
            allowed = [r.choice(tels)]
        elif x < 0.5:
            allowed = list(tels)
        elif x < 0.6:
            allowed = [t for t in range(0, 1000) if t not in tels][r.randint(0, 900):][:3]
        else:
            allowed = [t for t in tels if r.random() < 0.5] + ([r.randint(0, 999)] if r.random() < 0.3 else [])
            allowed = allowed or [r.choice(tels)]
        out.append((r.random() < 0.6, r.random() < 0.5, allowed))
    return out


def run_case(ctx, idx):
    from eventio import SimTelFile
    r = ctx.rng
    real = [(p, n) for p, _, n in real_files() if complete(n)]
    if idx < len(real):
        path, nodes = real[idx]
        g = simgen.Existing(nodes)
        ctx.count("real_files")
    else:
        x = r.random()
        o = {"n_tel": r.randint(10, 40)} if x < 0.05 else {}
        if r.random() < 0.3:
            o["p_triggered"] = r.choice((0.1, 0.3, 0.9))
        g = simgen.SimFile(r, ctx.nrng, **o)
        data = g.data()
        path = ctx.write("f", data if r.random() < 0.85 else compress_random(r, data, r.choice(("gz", "zst"))))
        ctx.nontrivial(data)
    if idx < 16:
        ctx.sample({"file": str(path)[-40:], "telescopes": g.tels[:20]})
    for snt, sc, allowed in selections(r, g.tels, 6):
        ctx.info["selection"] = (snt, sc, allowed)
        expected = g.selected(snt, sc, set(allowed) if allowed else None)
        given = allowed
        if allowed:
            given = r.choice((list, tuple, set, frozenset, dict.fromkeys))(allowed)
        kw = {}
        # the documented defaults
        if not (snt is True and r.random() < 0.5):
            kw["skip_non_triggered"] = snt
        if not (sc is False and r.random() < 0.5):
            kw["skip_calibration"] = sc
        if not (allowed is None and r.random() < 0.5):
            kw["allowed_telescopes"] = given
        what = f"{kw}"
        with caught():
            with SimTelFile(path, **kw) as f:
                k = 0
                for e, ev in itertools.zip_longest(expected, f):
                    ctx.check(ev is not None, lambda: f"{what}: only {k} events, expected {len(expected)}")
                    ctx.check(e is not None, lambda: f"{what}: additional event {ev['type']} {ev['event_id']}")
                    d = simgen.diff_event(e, ev)
                    ctx.check(d is None, lambda: f"{what}: event {k}: {d}")
                    k += 1
        ctx.count("readers")
        ctx.count("events", k)
        sel = {e["_start"] for e in expected}
        ctx.count("skipped_data", sum(e["type"] == "data" and e["_start"] not in sel for e in g.events))
        ctx.count("skipped_calibration", sum(e["type"] == "calibration" and e["_start"] not in sel for e in g.events))
        if allowed:
            for e in g.events:
                t = set(e.get("telescope_events", ()))
                if t & set(allowed) and t - set(allowed):
                    ctx.count("partly_restricted")
                elif t and not t & set(allowed):
                    ctx.count("fully_restricted")
                elif t:
                    ctx.count("unrestricted_by_choice")
