"""CORSIKA event assembly is complete and correctly attributed"""
import cmp
import iactgen
import spec
from common import compress_random, real_files
from cmp import freeze, same

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: events delivered by the reader checked online against a reference model of generated and real files"
LEVEL_NOTE = ("exploration: random CORSIKA files (0 to several showers, re-uses, telescopes with and without bunches, normal and split layout, optional "
              "profiles, particles, weights, unrelated objects) iterated once, repeatedly, partly and after other activity; the "
              "model of lib/iactgen.py is validated against the checked-in real files on every run.")
RULE = "a case is one file read in one or more passes, every event compared with the model; distinct by file content"
CASES = {"quick": 1600, "thorough": 50000}
REQUIRE = {"events": 10000, "real_events": 20, "split_files": 250, "second_passes": 300, "streams": 150, "particles": 800, "longitudinal": 800,
           "empty_runs": 50, "weights": 400, "partial_passes": 150, "peeks": 100,
           "late_uses": 300}


def one_pass(ctx, f, g, what, stop=None):
    k = 0
    for ev in f:
        ctx.check(k < len(g.events), lambda: f"{what}: more than {len(g.events)} events")
        e = g.events[k]
        d = iactgen.diff_event(e, ev)
        ctx.check(d is None, lambda: f"{what}: event {k}: {d}")
        k += 1
        ctx.count("events")
        if e["particles"] is not None:
            ctx.count("particles")
        if e["longitudinal"] is not None:
            ctx.count("longitudinal")
        if e["reuse"] > 40:
            ctx.count("late_uses")
        if float(e["reuse_weight"]) != 1:
            ctx.count("weights")
        if stop is not None and k >= stop:
            return
    ctx.check(k == len(g.events), lambda: f"{what}: {k} events delivered, {len(g.events)} in the file")
    d = cmp.diff(g.run_end, spec.columns(f.run_end), "run_end")
    ctx.check(d is None, lambda: f"{what}: {d}")


def history(ctx, p, g, seekable, zcat=True):
    from eventio import IACTFile
    r = ctx.rng
    with IACTFile(p, zcat=zcat) as f:
        d = iactgen.diff_metadata(g, f)
        ctx.check(d is None, lambda: f"after opening: {d}")
        if not seekable:
            one_pass(ctx, f, g, "only pass")
            ctx.count("streams")
            return
        n = len(g.events)
        for k in range(r.choice((1, 1, 2, 3))):
            x = r.random()
            if x < 0.3 and n:
                stop = r.randint(1, n)
                one_pass(ctx, f, g, f"pass {k}, stopped after {stop}", stop)
                ctx.count("partial_passes")
            elif x < 0.4:
                # low level objects in between
                for _ in range(r.randint(1, 3)):
                    try:
                        next(f)
                    except StopIteration:
                        break
            elif x < 0.5:
                f.peek()
                ctx.count("peeks")
        one_pass(ctx, f, g, "pass")
        if r.random() < 0.5:
            one_pass(ctx, f, g, "second pass")
            ctx.count("second_passes")
        d = iactgen.diff_metadata(g, f)
        ctx.check(d is None, lambda: f"after iteration: {d}")


def run_case(ctx, idx):
    r = ctx.rng
    real = [x for x in real_files() if x[2][0].type == 1200]
    if idx < len(real):
        path, raw, nodes = real[idx]
        g = iactgen.Existing(nodes)
        ctx.count("real_events", len(g.events))
        history(ctx, path, g, False)
        return
    big = r.random() < 0.02
    g = iactgen.IactFile(r, ctx.nrng, **(r.choice(({"n_showers": 12, "n_tel": 40, "n_use": 20}, {"n_showers": 2, "n_tel": 2, "n_use": r.randint(30, 300)},
                                                     {"n_showers": 1, "n_tel": r.randint(100, 600), "n_use": 2})) if big else {}))
    data = g.data()
    x = r.random()
    if x < 0.75:
        history(ctx, ctx.write("f", data), g, True)
    else:
        history(ctx, ctx.write("f", compress_random(r, data, r.choice(("gz", "zst")))), g, False, r.random() < 0.05)
    if g.split:
        ctx.count("split_files")
    if not g.events:
        ctx.count("empty_runs")
    ctx.nontrivial(data)
    if idx < 20:
        ctx.sample({"events": [(e["event_number"], e["reuse"], sorted(e["photon_bunches"])) for e in g.events][:8], "split": g.split})
