"""Run metadata is complete and correct when a reader is returned"""
import cmp
import iactgen
import simgen
import spec
from common import caught, compress_random, real_files
from checks.P17 import complete

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: metadata of readers observed after opening, during and after iteration, checked against a reference model"
LEVEL_NOTE = ("exploration: headers with up to 100 telescopes (ids 0 to 999, any order of telescopes and descriptions), all combinations of the optional objects, all "
              "versions of all description objects; CORSIKA headers of all versions; all complete checked-in files. Zero telescopes are not generated.")
RULE = "a case is one file opened by its reader; distinct by file content"
CASES = {"quick": 2000, "thorough": 60000}
REQUIRE = {"sim_files": 800, "iact_files": 500, "real_files": 14, "telescopes": 4000, "metas": 1500, "profiles": 800, "input_cards": 700,
           "history_entries": 2000, "histograms": 500, "rechecked": 700, "run_ends": 500, "interleaved_descriptions": 100}


class Shuffled(simgen.SimFile):
    """descriptions of the telescopes not in blocks, metadata of telescopes at other places"""

    def build_header(self):
        super().build_header()
        r = self.rng
        pos = [k for k, n in enumerate(self.nodes) if n.type in simgen.DESCRIPTIONS]
        ns = [self.nodes[k] for k in pos]
        r.shuffle(ns)
        for k, n in zip(pos, ns):
            self.nodes[k] = n
        # nothing follows the last description yet
        meta = [n for n in self.nodes if n.type == 75]
        if meta and r.random() < 0.3:
            run = [k for k, n in enumerate(self.nodes) if n.type == 2000][0]
            last = max(pos)
            for m in meta:
                if r.random() < 0.3:
                    self.nodes.remove(m)
                    run = [k for k, n in enumerate(self.nodes) if n.type == 2000][0]
                    last = max(k for k, n in enumerate(self.nodes) if n.type in simgen.DESCRIPTIONS)
                    self.nodes.insert(r.randint(run + 1, last), m)
            order = [n for n in self.nodes if n.type == 75]
            self.telescope_meta = {n.id: n.value for n in order if n.id != -1}


def sim(ctx, path, g):
    from eventio import SimTelFile
    r = ctx.rng
    kw = {}
    if r.random() < 0.3:
        kw = {"skip_non_triggered": r.random() < 0.5, "skip_calibration": r.random() < 0.5, "allowed_telescopes": r.sample(g.tels, 1)}
    with caught():
        with SimTelFile(path, **kw) as f:
            d = simgen.diff_metadata(g, f)
            ctx.check(d is None, lambda: f"after opening: {d}")
            ctx.count("telescopes", len(g.tels))
            ctx.count("metas", len(g.telescope_meta) + bool(g.global_meta))
            ctx.count("profiles", len(g.profiles))
            ctx.count("input_cards", len(g.inputcards))
            ctx.count("history_entries", len(g.history))
            if r.random() < 0.2:
                next(f, None)
                d = simgen.diff_metadata(g, f)
                ctx.check(d is None, lambda: f"after the first event: {d}")
            n = 0
            for ev in f:
                n += 1
            d = simgen.diff_metadata(g, f)
            ctx.check(d is None, lambda: f"after the last event: {d}")
            ctx.count("rechecked")
            d = cmp.diff(g.histograms, f.histograms, "histograms")
            ctx.check(d is None, lambda: f"after the last event: {d}")
            if g.histograms is not None:
                ctx.count("histograms")
        d = simgen.diff_metadata(g, f)
        ctx.check(d is None, lambda: f"after closing: {d}")


def iact(ctx, path, g, zcat=True):
    from eventio import IACTFile
    with caught():
        with IACTFile(path, zcat=zcat) as f:
            d = iactgen.diff_metadata(g, f)
            ctx.check(d is None, lambda: f"after opening: {d}")
            for ev in f:
                pass
            d = iactgen.diff_metadata(g, f) or cmp.diff(g.run_end, spec.columns(f.run_end), "run_end")
            ctx.check(d is None, lambda: f"after iteration: {d}")
            ctx.count("run_ends")


def run_case(ctx, idx):
    r = ctx.rng
    real = [x for x in real_files() if x[2][0].type == 1200 or complete(x[2])]
    if idx < len(real):
        path, raw, nodes = real[idx]
        ctx.count("real_files")
        if nodes[0].type == 1200:
            iact(ctx, path, iactgen.Existing(nodes))
        else:
            sim(ctx, path, simgen.Existing(nodes))
        return
    is_sim = r.random() < 0.65
    if is_sim:
        o = {"n_showers": r.choice((0, 1, 1)), "n_use": 1, "n_cal": r.choice((0, 0, 1)), "n_unpacked": 0}
        x = r.random()
        if x < 0.05:
            o["n_tel"] = r.randint(30, 100)
        elif x < 0.5:
            o["n_tel"] = r.randint(1, 3)
        shuffled = r.random() < 0.3
        g = (Shuffled if shuffled else simgen.SimFile)(r, ctx.nrng, **o)
        if shuffled and len(g.tels) > 1:
            ctx.count("interleaved_descriptions")
    else:
        g = iactgen.IactFile(r, ctx.nrng, n_showers=r.randint(0, 1), n_tel=r.choice((1, 2, r.randint(1, 50))))
    data = g.data()
    ctx.nontrivial(data)
    path = ctx.write("f", data if r.random() < 0.8 else compress_random(r, data, r.choice(("gz", "zst"))))
    if is_sim:
        ctx.count("sim_files")
        sim(ctx, path, g)
        if idx < 60:
            ctx.sample({"telescopes": g.tels[:10], "history": len(g.history), "cards": len(g.inputcards), "profiles": len(g.profiles)})
    else:
        ctx.count("iact_files")
        iact(ctx, path, g, r.random() < 0.3)
