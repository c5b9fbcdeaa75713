"""Event assembly of sim_telarray files is complete and correctly attributed"""
import simgen
from common import caught, compress_random, real_files

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: events delivered by the reader checked online against a reference model of generated and real files"
LEVEL_NOTE = ("exploration: random sim_telarray files (showers with several uses, with and without photo-electrons, photons, particles, sums, "
              "array events, packed and unpacked calibration events, unhandled objects, all object versions, telescope ids 0 to 999) and all complete "
              "checked-in files; the model is built from the generated structure or an independent walk over the file, and validated on real files on every run.")
RULE = "a case is one file read completely, every event compared with the model entry by entry; distinct by file content"
CASES = {"quick": 1100, "thorough": 40000}
REQUIRE = {"data_events": 3000, "calibration_events": 1000, "telescope_events": 5000, "real_events": 300, "particles": 600, "photons": 800,
           "photoelectrons": 1000, "events_without_array_event": 400, "aux_traces": 1000, "pixel_lists": 2000, "streams": 100, "emitter": 300,
           "reused_showers": 1000, "calibration_photoelectrons": 200}


def observe(ctx, e):
    ctx.count("data_events" if e["type"] == "data" else "calibration_events")
    for k in ("photons", "photoelectrons", "emitter"):
        if k in e:
            ctx.count(k)
    if e["type"] == "calibration" and "photoelectrons" in e:
        ctx.count("calibration_photoelectrons")
    if "observation_level_particles" in e:
        ctx.count("particles")
    if "telescope_events" not in e:
        ctx.count("events_without_array_event")
    for te in e.get("telescope_events", {}).values():
        ctx.count("telescope_events")
        ctx.count("aux_traces", len(te.get("aux_traces", ())))
        ctx.count("pixel_lists", len(te["pixel_lists"]))


def compare_all(ctx, f, expected, what):
    k = 0
    for ev in f:
        ctx.check(k < len(expected), lambda: f"{what}: more than {len(expected)} events, next is {ev['type']} {ev.get('event_id')}")
        e = expected[k]
        d = simgen.diff_event(e, ev)
        ctx.check(d is None, lambda: f"{what}: event {k} ({e['type']}): {d}")
        observe(ctx, e)
        k += 1
    ctx.check(k == len(expected), lambda: f"{what}: {k} events delivered, {len(expected)} in the file")
    for _ in range(2):
        more = next(f, None)
        ctx.check(more is None, lambda: f"{what}: another event after the end")


def run_case(ctx, idx):
    from eventio import SimTelFile
    r = ctx.rng
    real = [(p, n) for p, _, n in real_files() if complete(n)]
    if idx < len(real):
        path, nodes = real[idx]
        g = simgen.Existing(nodes)
        ctx.count("real_events", len(g.events))
    else:
        x = r.random()
        if x < 0.03:
            g = simgen.SimFile(r, ctx.nrng, n_tel=r.randint(20, 60), n_showers=2)
        elif x < 0.06:
            g = simgen.SimFile(r, ctx.nrng, n_tel=1, n_showers=r.randint(10, 30), n_use=r.randint(5, 10))
        else:
            g = simgen.SimFile(r, ctx.nrng)
        data = g.data()
        if r.random() < 0.8:
            path = ctx.write("f", data)
        else:
            path = ctx.write("f", compress_random(r, data, r.choice(("gz", "zst"))))
            ctx.count("streams")
        ctx.nontrivial(data)
        showers = [id(e.get("mc_shower")) for e in g.events if e["type"] == "data"]
        ctx.count("reused_showers", len(showers) - len(set(showers)))
        if idx < len(real) + 20:
            ctx.sample({"events": [(e["type"], e["event_id"], sorted(e.get("telescope_events", ()))) for e in g.events][:10]})
    with caught():
        with SimTelFile(path, skip_non_triggered=False, skip_calibration=False) as f:
            compare_all(ctx, f, g.events, path if idx < len(real) else "generated")


def complete(nodes):
    """a file with a complete run header section (some checked-in files are only the start of one)"""
    tels, n = {}, None
    for x in nodes:
        if x.type == 2000:
            n = len(simgen.SPECS[2000].read(x)[0]["tel_id"])
        if x.type in simgen.DESCRIPTIONS:
            tels.setdefault(x.id, set()).add(x.type)
    return n is not None and len(tels) == n and all(len(v) == 7 for v in tels.values())
