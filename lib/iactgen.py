"""Generator of complete CORSIKA IACT files together with the events they contain"""
import numpy as np

import evt
import spec
from cmp import diff
from evt import Node
from spec import SPECS, columns


class IactFile:
    def __init__(self, rng, nrng, **o):
        self.rng, self.nrng, self.o = rng, nrng, o
        self.nodes, self.events = [], []
        r = rng
        self.version = r.choice(spec.CORSIKA_VERSIONS)
        self.run_header = self.make(1200, corsika_version=self.version).value
        self.input_card = self.make(1212).value
        self.profile = self.make(1216).value if r.random() < 0.5 else None
        self.n_tel = o.get("n_tel") or (r.randint(1, 5) if r.random() > 0.04 else 0)
        self.telescopes = self.make(1201, n_telescopes=self.n_tel).value
        # the numbers of large arrays are only in the payload, the id of the object has three digits for them
        self.first_tel = r.choice((995, 1000, 1234)) if r.random() < 0.04 else 0
        self.split = o.get("split", r.random() < 0.4)
        self.body = len(self.nodes)
        number = r.randint(1, 50)
        for _ in range(o.get("n_showers", r.randint(0, 5))):
            self.shower(number)
            number += r.choice((1, 1, 2))
        self.events_end = len(self.nodes)
        self.run_end = self.make(1210).value
        if r.random() < 0.2:
            # nothing behind the run end belongs to the events
            self.nodes.append(Node(2024, 0, 0, b"xyz"))

    def make(self, type, ident=None, version=None, add=True, **hint):
        hint.setdefault("n_lines", self.rng.randint(0, 4))
        n = SPECS[type].generate(self.rng, self.nrng, version=version, ident=ident, hint=hint)
        n.user, n.extended = self.rng.random() < 0.05, self.rng.random() < 0.05
        if add:
            self.nodes.append(n)
        return n

    def shower(self, number):
        r = self.rng
        start = len(self.nodes)
        head = self.make(1202, ident=number, corsika_version=self.version, block={1: number})
        n_use = self.o.get("n_use", r.randint(1, 4))
        off = self.make(1203, n_arrays=n_use)
        extra = []
        longi = particles = None
        if r.random() < 0.5:
            longi = self.make(1211, ident=number * 10 + 1, add=False, nthick=r.randint(0, 6))
            extra.append(longi)
        if self.o.get("obslev", r.random() < 0.4):
            particles = self.make(1205, ident=999999, version=0, add=False, n_bunches=r.randint(0, 6))
            extra.append(particles)
        if r.random() < 0.1:
            extra.append(Node(1207, 1, 0, b"abc"))
        r.shuffle(extra)
        self.nodes += extra
        new = []
        for use in range(n_use):
            e = {
                "event_number": number, "reuse": use + 1, "header": head.value, "time_offset": off.value[0],
                "impact_x": -off.value[1]["x"][use], "impact_y": -off.value[1]["y"][use],
                "reuse_weight": off.value[1]["weight"][use] if off.version else 1.0,
                "longitudinal": None if longi is None else longi.value,
                "particles": None if particles is None else particles.value["particles"],
                "photon_bunches": {}, "emitter": {}, "n_photons": {}, "n_bunches": {},
            }
            subs = []
            for t in range(self.first_tel, self.first_tel + self.n_tel):
                if r.random() < 0.9:
                    n = self.make(1205, add=False, array_id=use, tel_id=t, stored_tel=(use, t), n_bunches=r.choice((0, 1, r.randint(0, 12))),
                                  version=r.choice((0, 0, 1000)))
                    subs.append(n)
                    e["photon_bunches"][t] = n.value["photons"]
                    e["emitter"][t] = n.value["emitter"]
                    e["n_photons"][t] = n.value["n_photons"]
                    e["n_bunches"][t] = n.value["n_bunches"]
            if r.random() < 0.2:
                r.shuffle(subs)
            if self.split:
                self.nodes.append(Node(1213, use, 0, children=[]))
                self.nodes += subs
                self.nodes.append(Node(1214, use, 0, children=[]))
            else:
                if r.random() < 0.1:
                    subs.insert(r.randint(0, len(subs)), Node(1206, 1, 0, b"abcd"))
                self.nodes.append(Node(1204, number, 0, children=subs))
            new.append(e)
        end = self.make(1209, ident=number)
        from corsikaio.subblocks import parse_event_end
        block = end.payload[4:]
        value = spec._npvoid(parse_event_end(block, version=np.float32(self.version)))
        for e in new:
            e["end"] = value
            e["_start"], e["_end"] = start, len(self.nodes)
        self.events += new

    def data(self):
        return evt.encode_file(self.nodes)


def event_dict(ev):
    d = ev._asdict()
    d["header"] = columns(d["header"])
    d["end"] = columns(d["end"])
    for k in ("photon_bunches", "emitter"):
        d[k] = {t: (None if v is None else columns(v)) for t, v in d[k].items()}
    if d["particles"] is not None:
        d["particles"] = columns(d["particles"])
    return d


def diff_event(exp, ev):
    act = event_dict(ev)
    for k in ("photon_bunches", "emitter", "n_photons", "n_bunches"):
        if set(act[k]) != set(exp[k]):
            return f"{k}: telescopes {sorted(act[k])}, expected {sorted(exp[k])}"
    return diff(spec.strip(exp), act, f"event {exp['event_number']}/{exp['reuse']}")


def diff_metadata(g, f):
    for name, e, a in (("header", g.run_header, columns(f.header)), ("input_card", g.input_card, f.input_card),
                       ("n_telescopes", g.n_tel, f.n_telescopes),
                       ("telescope_positions", g.telescopes, columns(f.telescope_positions)),
                       ("atmospheric_profile", g.profile, f.atmospheric_profile)):
        d = diff(e, a, name)
        if d:
            return d
    return None


class Existing(IactFile):
    """the same model for an existing file, from its tree"""

    def __init__(self, nodes):
        from corsikaio.subblocks import parse_event_end
        self.nodes, self.events = nodes, []
        value = lambda n: SPECS[n.type].read(n)[0]
        self.profile = None
        k = 0
        while nodes[k].type != 1202 and nodes[k].type != 1210:
            n = nodes[k]
            if n.type == 1200:
                self.run_header = value(n)
            elif n.type == 1212:
                self.input_card = value(n)
            elif n.type == 1216:
                self.profile = value(n)
            elif n.type == 1201:
                self.telescopes = value(n)
                self.n_tel = len(self.telescopes["x"])
            k += 1
        self.body = k
        while nodes[k].type != 1210:
            start = k
            head, off = value(nodes[k]), value(nodes[k + 1])
            w = off[1].get("weight")
            longi = particles = None
            groups = []
            k += 2
            while nodes[k].type != 1209:
                n = nodes[k]
                if n.type == 1211:
                    longi = value(n)
                elif n.type == 1204:
                    groups.append([c for c in n.children if c.type == 1205])
                elif n.type == 1213:
                    groups.append([])
                elif n.type == 1205 and n.id == 999999:
                    particles = value(n)["particles"]
                elif n.type == 1205:
                    groups[-1].append(n)
                k += 1
            version = np.float32(head["version"])[()]
            end = spec._npvoid(parse_event_end(nodes[k].payload[4:], version=np.float32(float(version))))
            k += 1
            for use, g in enumerate(groups):
                e = {
                    "event_number": int(head["event_number"]), "reuse": use + 1, "header": head, "time_offset": off[0],
                    "impact_x": -off[1]["x"][use], "impact_y": -off[1]["y"][use],
                    "reuse_weight": w[use] if isinstance(w, np.ndarray) else 1.0,
                    "longitudinal": longi, "particles": particles, "end": end,
                    "photon_bunches": {}, "emitter": {}, "n_photons": {}, "n_bunches": {}, "_start": start, "_end": k,
                }
                for n in g:
                    v = value(n)
                    t = v["telescope"]
                    e["photon_bunches"][t], e["emitter"][t] = v["photons"], v["emitter"]
                    e["n_photons"][t], e["n_bunches"][t] = v["n_photons"], v["n_bunches"]
                self.events.append(e)
        self.events_end = k
        self.run_end = value(nodes[k])
