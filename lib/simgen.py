"""Generator of complete sim_telarray files together with the events they contain

The model is derived from the documented structure of the files, not from the reader.
"""
import copy

import numpy as np

import evt
import spec
from cmp import ABSENT, diff
from evt import Node
from spec import SPECS, split_tel, strip, telescope_type

DESCRIPTIONS = {
    2002: "camera_settings", 2003: "camera_organization", 2004: "pixel_settings", 2005: "disabled_pixels",
    2006: "camera_software_settings", 2008: "drive_settings", 2007: "pointing_correction",
}
MONITORING = {2022: "camera_monitorings", 2023: "laser_calibrations", 2033: "pixel_monitorings"}


def pick_tels(rng, n):
    pool = [1, 2, 3, 4, 5, 10, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513, 999, 0]
    out = []
    while len(out) < n:
        t = rng.choice(pool) if rng.random() < 0.5 else rng.randint(1, 999)
        if t not in out:
            out.append(t)
    return out


class SimFile:
    """nodes, meta data and events of one generated file

    events: list of dicts with the expected content; helper entries start with '_':
      _start: index of the first top-level object of the event
      _monitor_*: ...
    """

    def __init__(self, rng, nrng, **o):
        self.rng, self.nrng = rng, nrng
        self.o = o
        self.nodes = []
        self.events = []
        self.history, self.global_meta, self.telescope_meta = [], {}, {}
        self.run_header, self.mc_run_headers, self.inputcards, self.profiles = None, [], [], []
        self.descriptions = {}
        self.histograms = None
        self.monitoring = {k: {} for k in MONITORING.values()}
        self.current = None
        self.n_unknown = 0
        self.small = {"n_pixels": rng.randint(1, 8), "n_samples": rng.randint(2, 8), "n_gains": rng.randint(1, 2)}
        self.header_end = None
        self.build()

    # ------------------------------------------------------------ helpers
    def make(self, type, ident=None, version=None, **hint):
        h = dict(self.small)
        h.update(hint)
        n = SPECS[type].generate(self.rng, self.nrng, version=version, ident=ident, hint=h)
        n.user = self.rng.random() < 0.05
        n.extended = self.rng.random() < 0.05
        return n

    def add(self, node):
        self.nodes.append(node)
        return node

    def container(self, type, ident, children, version=0):
        r = self.rng
        return Node(type, ident, version, children=children, user=r.random() < 0.05, extended=r.random() < 0.05)

    def opt(self, name, p):
        v = self.o.get(name)
        return self.rng.random() < p if v is None else v

    # ------------------------------------------------------------ structure
    def build(self):
        r = self.rng
        self.tels = self.o.get("tels") or pick_tels(r, self.o.get("n_tel") or r.randint(1, 5))
        self.build_header()
        self.header_end = len(self.nodes)
        n_cal = self.o.get("n_cal", r.choice((0, 0, 1, 3)))
        n_unpacked = self.o.get("n_unpacked", r.choice((0, 0, 0, 2)))
        for _ in range(r.randint(0, 2)):
            self.maybe_monitoring(0.8)
        cal_first = r.random() < 0.5
        if cal_first:
            self.calibration_events(n_cal)
        self.unpacked_events(n_unpacked)
        if not cal_first and r.random() < 0.5:
            self.calibration_events(n_cal)
            n_cal = 0
        ev = r.choice((1, 100, 1000 * r.randint(1, 2000), 2**31 - 10000))
        shower = r.randint(1, 5)
        for s in range(self.o.get("n_showers", r.randint(1, 4))):
            if not cal_first and n_cal and s == 1:
                self.calibration_events(n_cal)
            self.shower(shower, ev)
            shower += r.randint(1, 3)
            ev += 100
        if self.opt("histograms", 0.7):
            h = self.add(self.make(100, version=r.choice((1, 2)), n_histograms=r.randint(0, 3)))
            self.histograms = h.value
        self.finish()

    def build_header(self):
        r = self.rng
        for _ in range(r.choice((0, 1, 1, 2))):
            subs = [self.make(r.choice((71, 72, 72))) for _ in range(r.randint(0, 5))]
            self.history += [n.value for n in subs]
            self.add(self.container(70, r.randint(0, 5), subs))
        if r.random() < 0.7:
            n = self.add(self.make(75, ident=-1))
            self.global_meta = n.value
            for t in self.tels:
                if r.random() < 0.8:
                    n = self.add(self.make(75, ident=t))
                    self.telescope_meta[t] = n.value
        n = self.add(self.make(2000, ident=r.randint(1, 10**6), n_telescopes=len(self.tels), tel_ids=self.tels))
        self.run_header = n.value

        def mcrun():
            n = self.add(self.make(2001))
            self.mc_run_headers.append(n.value)

        def card():
            n = self.add(self.make(1212))
            self.inputcards.append(n.value)

        def prof():
            n = self.add(self.make(1216))
            self.profiles.append(n.value)
        extras = [mcrun] * r.choice((0, 1, 1, 2)) + [card] * r.choice((0, 1, 2)) + [prof] * r.choice((0, 1, 2))
        r.shuffle(extras)
        late = []
        for e in extras:
            if r.random() < 0.7:
                e()
            else:
                late.append(e)
        order = list(DESCRIPTIONS)
        for k, t in enumerate(self.tels):
            if late and k == len(self.tels) - 1:
                for e in late:
                    e()
            if r.random() < 0.5:
                r.shuffle(order)
            self.descriptions[t] = {}
            for ty in order:
                if r.random() < 0.03:
                    self.monitor_one(t)
                n = self.add(self.make(ty, ident=t))
                self.descriptions[t][DESCRIPTIONS[ty]] = n.value

    # ------------------------------------------------------------ monitoring
    def monitor_one(self, t, types=(2022, 2023, 2033)):
        for ty in types:
            if self.rng.random() < 0.25:
                continue
            ident = None
            if ty == 2022:
                ident = split_tel(t, self.rng.getrandbits(7) << 8)
            n = self.add(self.make(ty, ident=t if ident is None else ident))
            acc = dict(self.monitoring[MONITORING[ty]].get(t, {}))
            for k, v in n.value.items():
                if v is not ABSENT:
                    acc[k] = v
            self.monitoring[MONITORING[ty]][t] = acc

    def maybe_monitoring(self, p):
        if self.rng.random() < p:
            for t in self.tels:
                if self.rng.random() < 0.7:
                    self.monitor_one(t)

    def unknown(self, p=0.05):
        if self.rng.random() < p:
            self.n_unknown += 1
            self.add(Node(self.rng.choice((2024, 2025, 2031, 1206, 12345)), self.rng.randint(0, 9), self.rng.randint(0, 3),
                          self.rng.randbytes(self.rng.randint(0, 40))))

    # ------------------------------------------------------------ events
    def finish(self):
        """the event under construction is complete"""
        if self.current is not None:
            self.current["_end"] = len(self.nodes)
            self.events.append(self.current)
            self.current = None

    def new_event(self, **k):
        self.finish()
        self.current = dict(k)
        self.current["_start"] = len(self.nodes)
        self.current["_allowed"] = None

    def telescope_event(self, t):
        r = self.rng
        e = {"pixel_lists": {}}
        subs = [self.make(2011, ident=t)]
        e["header"] = subs[0].value
        flags = lambda lo: lo | t << 12

        def adc(ty, name, zs):
            n = self.make(ty, ident=zs | t << 12)
            e[name] = n.value
            return n

        def simple(ty, name, ident):
            def f():
                n = self.make(ty, ident=ident)
                e[name] = n.value
                return n
            return f

        def lists():
            code = r.choice([c for c in (0, 1, 2, 3, 7, *range(8, 48)) if c not in e["pixel_lists"]][:5])
            n = self.make(2027, code=code, tel_id=t)
            e["pixel_lists"][code] = n.value
            return n

        def aux():
            a = e.setdefault("aux_traces", {})
            i = r.choice([k for k in range(80) if k not in a][:8])
            n = self.make(r.choice((2029, 2030)), ident=i)
            a[i] = n.value
            return n

        def other():
            return Node(2017, t, 0, r.randbytes(r.randint(0, 30)))
        parts = [
            (0.6, lambda: adc(2013, "adc_samples", r.choice((0, 0, 1)))),
            (0.6, lambda: adc(2012, "adc_sums", r.choice((0, 0, 1, 2)))),
            (0.5, simple(2014, "image_parameters", split_tel(t, r.getrandbits(4) << 8 | r.getrandbits(8) << 12))),
            (0.5, simple(2016, "pixel_timing", t)),
            (0.5, lists), (0.3, lists),
            (0.3, simple(2032, "pixel_trigger_times", t)),
            (0.2, aux), (0.2, aux), (0.05, other),
        ]
        if r.random() < 0.03:
            # many short objects
            parts += [(0.9, r.choice((lists, aux))) for _ in range(r.randint(10, 40))]
        if r.random() < 0.3:
            r.shuffle(parts)
        for p, f in parts:
            if r.random() < p:
                subs.append(f())
        return self.container(telescope_type(2200, t), r.randint(0, 10**6), subs, version=r.choice((0, 1, 2))), e

    def array_event(self, event_id):
        """-> node, expected entries"""
        r = self.rng
        with_data = [t for t in self.tels if r.random() < self.o.get("p_triggered", 0.6)]
        if self.o.get("p_triggered") is None and r.random() < 0.1:
            with_data = []
        if r.random() < 0.4:
            r.shuffle(with_data)
        style = r.random()
        aid = tid = event_id
        if style < 0.15:
            tid = 0
        elif style < 0.3:
            aid = r.choice((0, r.randint(1, 10**6)))
        trg = list(with_data)
        r.shuffle(trg)
        v = r.choice((0, 1, 2, 3, 2, 3, 3))
        e = {"event_id": event_id, "telescope_events": {}, "tracking_positions": {}}
        trig = self.make(2009, ident=tid, version=v, with_data=with_data, triggered=trg)
        e["trigger_information"] = trig.value
        e["_trigger_version"] = v
        subs = [trig]
        for t in with_data:
            n, te = self.telescope_event(t)
            subs.append(n)
            e["telescope_events"][t] = te
        for t in self.tels:
            if t in with_data or r.random() < 0.8:
                n = self.make(2100, ident=split_tel(t, r.choice((0x100, 0x200, 0x300, 0x300))))
                n.type = telescope_type(2100, t)
                subs.append(n)
                e["tracking_positions"][t] = n.value
        if r.random() < 0.5:
            n = self.make(2015)
            subs.append(n)
            e["stereo_reconstruction"] = n.value
        for key, acc in self.monitoring.items():
            e[key] = {t: copy.copy(acc.get(t, {})) for t in with_data}
        return self.container(2010, aid, subs), e

    def photo_electrons(self):
        r = self.rng
        tels = [t for t in self.tels if r.random() < 0.7]
        nodes, out = [], {}
        for t in tels:
            n = self.make(1208, ident=t, n_pixels=r.randint(0, 12))
            nodes.append(n)
            out[t] = n.value
        return nodes, out

    def calibration_events(self, n):
        for k in range(n):
            self.maybe_monitoring(0.3)
            pe = None
            if self.rng.random() < 0.5:
                nodes, pe = self.photo_electrons()
                td = self.container(1204, 0, nodes)
                self.add(self.container(2034, self.rng.randint(0, 3), [td]))
            ident = self.rng.choice((k + 1, self.rng.randint(1, 10**6), -self.rng.randint(1, 10**6), 2**31 - 1 - k))
            node, e = self.array_event(ident)
            e["event_id"] = -abs(ident)
            ctype = self.rng.choice((0, 1, 2, 3, -1))
            self.new_event(type="calibration", calibration_type=ctype)
            self.current.update(e)
            if pe is not None:
                self.current["photoelectrons"] = pe
            self.add(self.container(2028, ctype, [node]))
            self.unknown()

    def unpacked_events(self, n):
        for k in range(n):
            self.maybe_monitoring(0.2)
            ident = self.rng.choice((1, -1, 1, 1)) * self.rng.randint(1, 10**6)
            node, e = self.array_event(ident)
            self.new_event(type="calibration")
            self.current.update(e)
            self.add(node)

    def shower(self, number, event_id):
        r = self.rng
        sh = self.add(self.make(2020, ident=number))
        particles = None
        if self.opt("obslev", 0.3):
            n = self.add(self.make(1205, ident=999999, version=0, n_bunches=r.randint(0, 5)))
            particles = n.value["particles"]
        for use in range(self.o.get("n_use", r.randint(1, 3))):
            ident = event_id + use
            self.new_event(type="data", event_id=ident, mc_shower=sh.value)
            n = self.add(self.make(2021, ident=ident))
            self.current["mc_event"] = n.value
            if particles is not None:
                self.current["observation_level_particles"] = particles
            todo = []
            if r.random() < 0.5:
                todo.append("data")
            if r.random() < 0.5:
                todo.append("sum")
            if r.random() < 0.3:
                r.shuffle(todo)
            for what in todo:
                if what == "data":
                    nodes, pe = self.photo_electrons()
                    if pe:
                        self.current["photoelectrons"] = pe
                    ph, em = {}, {}
                    for t in self.tels:
                        if r.random() < 0.4:
                            n = self.make(1205, array_id=0, tel_id=t, n_bunches=r.choice((0, 1, r.randint(0, 6))))
                            nodes.insert(r.randint(0, len(nodes)), n)
                            ph[t] = n.value["photons"]
                            if n.value["emitter"] is not None:
                                em[t] = n.value["emitter"]
                    if ph:
                        self.current["photons"] = ph
                    if em:
                        self.current["emitter"] = em
                    self.add(self.container(1204, ident, nodes))
                else:
                    n = self.add(self.make(2026, ident=ident, n_tel=len(self.tels)))
                    self.current["photoelectron_sums"] = n.value
            self.maybe_monitoring(0.3)
            self.unknown()
            if self.opt("array_event", 0.8):
                node, e = self.array_event(ident)
                self.current.update(e)
                self.add(node)
            self.unknown(0.02)
            # monitoring after the camera data belongs to later events only
            if r.random() < 0.1:
                self.maybe_monitoring(1)

    def data(self):
        return evt.encode_file(self.nodes)

    # ------------------------------------------------------------ selection
    def selected(self, skip_non_triggered=True, skip_calibration=False, allowed=None):
        out = []
        for e in self.events:
            e = restrict(e, allowed) if allowed else e
            if e["type"] == "calibration" and skip_calibration:
                continue
            if e["type"] == "data" and skip_non_triggered and not e.get("telescope_events"):
                continue
            out.append(e)
        return out


def restrict(e, allowed):
    """the event with only the allowed telescopes; parts that are not specified get the value None in _free"""
    e = dict(e)
    if "telescope_events" not in e:
        return e
    allowed = set(allowed)
    tels = [t for t in e["telescope_events"] if t in allowed]
    if tels and tels == list(e["telescope_events"]) and set(e["tracking_positions"]) <= allowed:
        return e
    e["telescope_events"] = {t: e["telescope_events"][t] for t in tels}
    for k in MONITORING.values():
        e[k] = {t: e[k][t] for t in tels}
    e["tracking_positions"] = {t: v for t, v in e["tracking_positions"].items() if t in allowed}
    if not tels:
        # nothing is promised about tracking and reconstruction of an event without any telescope
        e["_free"] = ("tracking_positions", "stereo_reconstruction")
    return e


PER_TELESCOPE = ("telescope_events", "tracking_positions", "camera_monitorings", "laser_calibrations", "pixel_monitorings",
                 "photoelectrons", "photons", "emitter")


def diff_event(exp, act, partial=False):
    """None or text; with partial=True entries may be missing in the actual event"""
    free = exp.get("_free", ())
    want = strip(exp)
    for k in act.keys():
        if k not in want and k not in free:
            return f"unexpected entry {k!r} in event {exp.get('event_id')}"
    for k, v in want.items():
        if k in free:
            continue
        if k not in act:
            if partial:
                continue
            return f"entry {k!r} missing in event {exp.get('event_id')}"
        a = act[k]
        p = f"event[{k!r}]"
        if k in ("photons", "emitter") and hasattr(a, "keys"):
            a = {t: spec.columns(x) for t, x in a.items()}
        if k == "observation_level_particles":
            a = spec.columns(a)
        if k in PER_TELESCOPE:
            if not hasattr(a, "keys"):
                return f"{p}: {a!r}"
            if set(map(int, a.keys())) != set(v):
                return f"{p}: telescopes {sorted(map(int, a))}, expected {sorted(v)}"
            for t in v:
                x = a[t]
                if k in MONITORING.values():
                    extra = set(x) - set(v[t])
                    if extra:
                        return f"{p}[{t}]: unexpected {sorted(extra)}"
                if k == "telescope_events":
                    extra = set(x) - set(v[t])
                    if extra:
                        return f"{p}[{t}]: unexpected {sorted(extra)}"
                    for sub in ("pixel_lists", "aux_traces"):
                        if sub in v[t] and sub in x and set(x[sub]) != set(v[t][sub]):
                            return f"{p}[{t}][{sub!r}]: {sorted(x[sub])}, expected {sorted(v[t][sub])}"
                d = diff(v[t], x, f"{p}[{t}]")
                if d:
                    return d
            continue
        d = diff(v, a, p)
        if d:
            return d
    return None


def diff_metadata(sim, f):
    """everything that has to be available when the reader was opened"""
    items = [
        ("history", sim.history, f.history),
        ("global_meta", sim.global_meta, f.global_meta),
        ("header", sim.run_header, f.header),
        ("mc_run_headers", sim.mc_run_headers, f.mc_run_headers),
        ("corsika_inputcards", sim.inputcards, f.corsika_inputcards),
        ("atmospheric_profiles", sim.profiles, f.atmospheric_profiles),
    ]
    for name, e, a in items:
        if name == "global_meta":
            if list(e) != list(a):
                return f"global_meta: keys {list(a)}, expected {list(e)}"
        d = diff(e, a, name)
        if d:
            return d
    if f.n_telescopes != len(sim.tels):
        return f"n_telescopes {f.n_telescopes}"
    if set(f.telescope_meta) != set(sim.telescope_meta):
        return f"telescope_meta of {sorted(f.telescope_meta)}, expected {sorted(sim.telescope_meta)}"
    for t, m in sim.telescope_meta.items():
        if list(m) != list(f.telescope_meta[t]):
            return f"telescope_meta[{t}]: keys {list(f.telescope_meta[t])}"
        d = diff(m, f.telescope_meta[t], f"telescope_meta[{t}]")
        if d:
            return d
    if set(f.telescope_descriptions) != set(sim.descriptions):
        return f"telescope_descriptions of {sorted(f.telescope_descriptions)}, expected {sorted(sim.descriptions)}"
    for t, m in sim.descriptions.items():
        if set(m) != set(f.telescope_descriptions[t]):
            return f"telescope_descriptions[{t}]: {sorted(f.telescope_descriptions[t])}"
        d = diff(m, f.telescope_descriptions[t], f"telescope_descriptions[{t}]")
        if d:
            return d
    return None


class Existing:
    """the same model for an existing file, from its tree"""

    def __init__(self, nodes):
        self.nodes = nodes
        self.events = []
        self.history, self.global_meta, self.telescope_meta = [], {}, {}
        self.run_header, self.mc_run_headers, self.inputcards, self.profiles = None, [], [], []
        self.descriptions, self.histograms = {}, None
        self.monitoring = {k: {} for k in MONITORING.values()}
        self.current = None
        self.header_end = None
        self.unhandled = 0
        self.walk()

    def value(self, n):
        s = spec.spec_for(n)
        if s is None or n.version not in s.versions:
            raise KeyError(f"no description of {n}")
        return s.read(n)[0]

    def finish(self, k):
        if self.current is not None:
            self.current["_end"] = k
            self.events.append(self.current)
            self.current = None

    def walk(self):
        shower = particles = pe = None
        for k, n in enumerate(self.nodes):
            t = n.type
            if t == 2021:
                self.finish(k)
                self.current = {"type": "data", "event_id": n.id, "mc_shower": shower, "mc_event": self.value(n), "_start": k}
                if particles is not None:
                    self.current["observation_level_particles"] = particles
            elif t == 2020:
                shower, particles = self.value(n), None
            elif t == 1205:
                particles = self.value(n)["particles"]
            elif t == 1204:
                for name in ("photoelectrons", "photons", "emitter"):
                    v = self.telescope_data(n, name)
                    if v:
                        self.current[name] = v
            elif t == 2026:
                self.current["photoelectron_sums"] = self.value(n)
            elif t == 2034:
                pe = self.telescope_data(n.children[0], "photoelectrons")
            elif t == 2010:
                if shower is None:
                    self.finish(k)
                    self.current = {"type": "calibration", "_start": k}
                self.current.update(self.array_event(n))
            elif t == 2028:
                self.finish(k)
                self.current = {"type": "calibration", "calibration_type": n.id, "_start": k}
                self.current.update(self.array_event(n.children[0]))
                self.current["event_id"] = -abs(self.current["event_id"])
                if pe is not None:
                    self.current["photoelectrons"], pe = pe, None
            elif t in MONITORING:
                tel = joined(n.id) if t == 2022 else n.id
                acc = dict(self.monitoring[MONITORING[t]].get(tel, {}))
                acc.update({a: b for a, b in self.value(n).items() if b is not ABSENT})
                self.monitoring[MONITORING[t]][tel] = acc
            elif t in DESCRIPTIONS:
                self.descriptions.setdefault(n.id, {})[DESCRIPTIONS[t]] = self.value(n)
                self.header_end = k + 1
            elif t == 2000:
                self.run_header = self.value(n)
                self.tels = [int(x) for x in self.run_header["tel_id"]]
            elif t == 2001:
                self.mc_run_headers.append(self.value(n))
            elif t == 1212:
                self.inputcards.append(self.value(n))
            elif t == 1216:
                self.profiles.append(self.value(n))
            elif t == 70:
                self.history += [self.value(c) for c in n.children]
            elif t == 75:
                if n.id == -1:
                    self.global_meta = self.value(n)
                else:
                    self.telescope_meta[n.id] = self.value(n)
            elif t == 100:
                self.histograms = self.value(n)
            else:
                self.unhandled += 1
        self.finish(len(self.nodes))

    def telescope_data(self, n, name):
        out = {}
        for c in n.children:
            if c.type == 1208 and name == "photoelectrons":
                out[c.id % 1000] = self.value(c)
            elif c.type == 1205 and name in ("photons", "emitter"):
                v = self.value(c)
                if v[name] is not None:
                    out[v["telescope"]] = v[name]
        return out

    def array_event(self, n):
        trig = n.children[0]
        e = {"event_id": trig.id or n.id, "trigger_information": self.value(trig), "_trigger_version": trig.version,
             "telescope_events": {}, "tracking_positions": {}}
        for c in n.children[1:]:
            kind = 2100 if (c.type - 2100) % 1000 < 100 else 2200
            tel = (c.type - kind) // 1000 * 100 + (c.type - kind) % 1000
            if c.type == 2015:
                e["stereo_reconstruction"] = self.value(c)
            elif kind == 2100:
                e["tracking_positions"][tel] = self.value(c)
            else:
                e["telescope_events"][tel] = self.telescope_event(c)
        for key, acc in self.monitoring.items():
            e[key] = {t: copy.copy(acc.get(t, {})) for t in e["telescope_events"]}
        return e

    NAMES = {2011: "header", 2012: "adc_sums", 2013: "adc_samples", 2014: "image_parameters", 2016: "pixel_timing",
             2032: "pixel_trigger_times"}

    def telescope_event(self, n):
        e = {"pixel_lists": {}}
        for c in n.children:
            if c.type == 2027:
                e["pixel_lists"][c.id // 1000000] = self.value(c)
            elif c.type in (2029, 2030):
                e.setdefault("aux_traces", {})[c.id] = self.value(c)
            elif c.type in self.NAMES:
                e[self.NAMES[c.type]] = self.value(c)
        return e

    selected = SimFile.selected


def joined(i):
    return (i & 0xFF) | ((i & 0x3F000000) >> 16)
