"""Bidirectional descriptions of the object types.

Every description is one function of (io, version, id) that either *generates* a
random payload (io is a Gen) or *reads* an existing one (io is a Dec); in both
cases it returns the values that the object must decode to.  The descriptions were
written from the format (hessio / iact extension / eventio documentation as far as
visible in the repository) and are validated against the checked-in files.
"""
import struct

import numpy as np

from cmp import ABSENT, Approx, Flexible
import evt

F4_SPECIAL = np.array([0.0, -0.0, 1.0, -1.0, np.inf, -np.inf, np.nan, 1e-42, -3e-39, 3.4e38, 9999.0, 0.1], dtype="<f4")


class Gen:
    """generates a payload"""
    gen = True

    def __init__(self, rng, nrng, hint=None, tame=False, boost=False):
        self.rng, self.nrng = rng, nrng
        self.boost = 100000 if boost else 0      # elements which counts may still add up to
        self.cap = None                          # largest count the field can hold
        self.hint = hint or {}
        self.tame = tame      # only finite floats
        self.parts = []
        self.size = 0

    def _put(self, b):
        self.parts.append(b)
        self.size += len(b)

    def data(self):
        return b"".join(self.parts)

    # --- choices
    def n(self, name, lo=0, hi=12, big=0):
        """a count, from the hints or random (mostly small)"""
        if name in self.hint:
            if self.boost:
                self.boost = max(5, self.boost // max(1, self.hint[name]))
            return self.hint[name]
        r = self.rng.random()
        if self.boost:
            if name == "n_gains":
                return self.rng.choice((1, 2, 2, 3)) if "many_gains" in self.hint else self.rng.randint(lo, hi)
            if r < 0.4:
                return self.large(lo, hi)
            c = self.rng.randint(lo, max(lo, min(hi, self.boost)))
            self.boost = max(5, self.boost // max(1, c))
            return c
        if big and r < 0.03:
            return self.rng.randint(hi, big)
        if r < 0.12:
            return lo
        return self.rng.randint(lo, hi)

    def large(self, lo, hi, top=70000):
        """a count of any order of magnitude, often at the limits of the integer types"""
        if not self.boost:
            return self.rng.randint(lo, hi)
        top = min(top, self.boost, self.cap or top)
        if top <= hi:
            return self.rng.randint(lo, min(hi, max(lo, top)))
        if self.rng.random() < 0.4:
            c = self.rng.choice([b for b in (127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 8191, 8192, 16383, 16384,
                                             32767, 32768, 65535, 65536, top) if b <= top])
        else:
            c = int(hi * (top / max(hi, 1)) ** self.rng.random()) if hi else self.rng.randint(0, top)
        c = max(lo, min(c, top))
        self.boost = max(5, self.boost // max(1, c))
        return c

    def integer(self, lo, hi):
        r = self.rng
        x = r.random()
        if x < 0.3:
            return r.choice([c for c in (lo, hi, 0, 1, -1, 127, 128, 255, 256, -128, 32767, -32768, 65535, lo + 1, hi - 1)
                             if lo <= c <= hi])
        if x < 0.6:
            m = 1 << r.randint(0, 63)
            return max(lo, min(hi, r.randint(-m, m)))
        return r.randint(lo, hi)

    def f4(self):
        r = self.rng.random()
        if self.tame or r < 0.5:
            return np.float32(self.rng.uniform(-1e4, 1e4))
        if r < 0.7:
            return np.float32(self.rng.randint(-1000, 1000))
        if r < 0.85:
            return F4_SPECIAL[self.rng.randrange(len(F4_SPECIAL))]
        return np.frombuffer(struct.pack("<I", self.rng.getrandbits(32)), "<f4")[0]

    # --- primitives
    def s(self, fmt, gen=None):
        if gen is not None:
            self.cap = {"h": 32767, "H": 65535}.get(fmt)
            v = gen() if callable(gen) else gen
            self.cap = None
        elif fmt == "f":
            v = self.f4()
        elif fmt == "d":
            v = float(np.frombuffer(self.rng.randbytes(8), "<f8")[0]) if self.rng.random() < 0.3 and not self.tame \
                else self.rng.uniform(-1e6, 1e6)
        else:
            bits = struct.calcsize("<" + fmt) * 8
            v = self.integer(-(1 << bits - 1), (1 << bits - 1) - 1) if fmt.islower() else self.integer(0, (1 << bits) - 1)
        if fmt == "f":
            v = np.float32(v)
            self._put(np.array(v, "<f4").tobytes())
        else:
            self._put(struct.pack("<" + fmt, v))
        return v

    def a(self, dtype, n, gen=None):
        dt = np.dtype(dtype).newbyteorder("<")
        if gen is not None:
            arr = np.asarray(gen(), dtype=dt)
        elif dt.kind == "f":
            if self.tame or self.rng.random() < 0.5:
                arr = self.nrng.uniform(-1000, 1000, n).astype(dt)
            elif dt.itemsize == 4:
                arr = np.frombuffer(self.nrng.bytes(4 * n), dt)
            else:
                arr = self.nrng.normal(0, 1, n).astype(dt)
        elif dt.kind == "b":
            arr = self.nrng.integers(0, 2, n).astype(dt)
        else:
            arr = np.frombuffer(self.nrng.bytes(dt.itemsize * n), dt)
            if self.rng.random() < 0.3:
                arr = (arr % 16).astype(dt)
        assert arr.shape == (n,), (arr.shape, n)
        self._put(arr.tobytes())
        return arr

    def _varlen(self, v):
        """mostly canonical, sometimes over-long encodings"""
        need = evt.uvar_len(v)
        if self.rng.random() < self.hint.get("overlong", 0.05):
            return self.rng.randint(need, 9)
        return need

    def u(self, gen=None):
        v = gen() if callable(gen) else gen
        if v is None:
            v = self.rng.getrandbits(self.rng.randint(0, 62))
        self._put(evt.uvar(v, self._varlen(v)))
        return v

    def v(self, gen=None):
        v = gen() if callable(gen) else gen
        if v is None:
            v = self.rng.getrandbits(self.rng.randint(0, 31)) * self.rng.choice((1, -1))
        z = evt.zigzag(v)
        self._put(evt.uvar(z, self._varlen(z)))
        return v

    def vs(self, n, gen=None):
        """n signed varints as array"""
        vals = list(gen()) if gen is not None else None
        out = np.zeros(n, "i8")
        for i in range(n):
            out[i] = self.v(vals[i] if vals is not None else None)
        return out

    def us(self, n, gen=None):
        vals = list(gen()) if gen is not None else None
        out = np.zeros(n, "u8")
        for i in range(n):
            out[i] = self.u(vals[i] if vals is not None else None)
        return out

    def raw(self, n, gen=None):
        b = gen() if gen is not None else self.rng.randbytes(n)
        assert len(b) == n
        self._put(b)
        return b

    def text(self, maxlen=40):
        r = self.rng
        n = r.choice((0, 1, 2, 3)) if r.random() < 0.2 else r.randint(0, maxlen)
        if self.boost and r.random() < 0.2:
            n = self.large(0, maxlen, 32767)
        if r.random() < 0.7:
            return bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz ABCDE=_/.0123456789%#\t") for _ in range(n))
        return r.randbytes(n)

    def string(self, gen=None):
        b = gen() if gen is not None else self.text()
        self._put(struct.pack("<h", len(b)))
        self._put(b)
        return b

    def varstring(self, gen=None):
        b = gen() if gen is not None else (self.text() if self.rng.random() < 0.9 else self.text(300))
        self.u(len(b))
        self._put(b)
        return b

    def diff(self, n, maxval=2**32 - 1, gen=None):
        """differentially coded array"""
        if gen is not None:
            vals = np.asarray(gen(), dtype="u4")
        else:
            mode = self.rng.random()
            if mode < 0.4:
                base = self.rng.randint(0, min(maxval, 60000))
                vals = np.clip(self.nrng.normal(base, self.rng.choice((1, 20, 500, 20000)), n), 0, maxval).astype("u4")
            elif mode < 0.7:
                vals = self.nrng.integers(0, maxval, n, endpoint=True).astype("u4")
            else:
                vals = self.nrng.choice(np.array([v for v in (0, 1, 63, 64, 127, 128, 8191, 8192, 65535, 2**20, 2**27,
                                        2**31 - 1, 2**31, 2**32 - 1) if v <= maxval], dtype="u4"), n).astype("u4")
        assert vals.shape == (n,)
        self._put(evt.diff_encode(vals))
        return vals

    def sub(self, fn, type, version, ident):
        """an embedded object with header (not top level)"""
        g = Gen(self.rng, self.nrng, self.hint, self.tame, bool(self.boost))
        val = fn(g, version, ident)
        d = g.data()
        self._put(evt.header_bytes(type, ident, version, False, False, len(d), False, False) + d)
        return val

    def remaining(self):
        return 0


class Dec:
    """reads a payload"""
    gen = False
    hint = {}
    tame = False

    def __init__(self, data):
        self.d, self.pos = bytes(data), 0

    def n(self, *a, **k):
        return None

    def _take(self, n):
        if n < 0 or self.pos + n > len(self.d):
            raise evt.Truncated
        b = self.d[self.pos:self.pos + n]
        self.pos += n
        return b

    def s(self, fmt, gen=None):
        b = self._take(struct.calcsize("<" + fmt))
        return np.frombuffer(b, "<f4")[0] if fmt == "f" else struct.unpack("<" + fmt, b)[0]

    def a(self, dtype, n, gen=None):
        dt = np.dtype(dtype).newbyteorder("<")
        return np.frombuffer(self._take(dt.itemsize * n), dt)

    def u(self, gen=None):
        v, k = evt.uvar_decode(self.d, self.pos)
        self.pos += k
        return v

    def v(self, gen=None):
        return evt.unzigzag(self.u())

    def vs(self, n, gen=None):
        return np.array([self.v() for _ in range(n)], dtype="i8")

    def us(self, n, gen=None):
        return np.array([self.u() for _ in range(n)], dtype="u8")

    def raw(self, n, gen=None):
        return self._take(n)

    def string(self, gen=None):
        return self._take(self.s("h"))

    def varstring(self, gen=None):
        return self._take(self.u())

    def diff(self, n, maxval=None, gen=None):
        vals, self.pos = evt.diff_decode(self.d, self.pos, n)
        return np.array(vals, dtype="u4")

    def sub(self, fn, type, version, ident):
        h, _ = evt.parse_header(self.d, self.pos, False)
        assert h.type == type, h.type
        self.pos = h.address + h.size
        return fn(Dec(self.d[h.address:h.address + h.size]), h.version, h.id)

    def remaining(self):
        return len(self.d) - self.pos


SPECS = {}


class Spec:
    def __init__(self, type, versions, fn, idgen, group, parse_kwargs=None):
        self.type, self.versions, self.fn, self.idgen, self.group = type, versions, fn, idgen, group

    def generate(self, rng, nrng, version=None, ident=None, hint=None, tame=False, eventio_type=None, boost=False):
        """-> Node with payload and expected value"""
        v = rng.choice(self.versions) if version is None else version
        h = hint or {}
        i = self.idgen(rng, h) if ident is None else ident
        g = Gen(rng, nrng, h, tame, boost)
        value = self.fn(g, v, i)
        return evt.Node(eventio_type or self.type, i, v, g.data(), value=value)

    def read(self, node):
        d = Dec(node.payload)
        v = self.fn(d, node.version, node.id)
        return v, d.remaining()


def signed32(rng, h=None):
    r = rng.random()
    if r < 0.5:
        return rng.randint(0, 1000)
    if r < 0.7:
        return rng.choice((0, -1, 1, 2**31 - 1, -2**31))
    return rng.randint(-2**31, 2**31 - 1)


def telid(rng, h=None):
    if h and "tel_id" in h:
        return h["tel_id"]
    return rng.choice((1, 2, 99, 100, 128, 255, 256, 1000)) if rng.random() < 0.3 else rng.randint(0, 999)


def spec(type, versions, group, idgen=signed32):
    def deco(fn):
        SPECS[type] = Spec(type, list(versions), fn, idgen, group)
        return fn
    return deco


# ----------------------------------------------------------------------------- history
@spec(71, [0, 1], "config")
def history_cmdline(io, v, i):
    return [io.s("i"), io.string()]


@spec(72, [0, 1], "config")
def history_config(io, v, i):
    return [io.s("i"), io.string()]


@spec(75, [0, 1], "config", lambda r, h: r.choice((-1, telid(r, h))))
def history_meta(io, v, i):
    n = io.u(lambda: io.n("n_meta", 0, 8, 200))
    out = {}
    for k in range(n):
        def key(k=k):
            return b"%d" % k + io.text(20)
        out_k = io.varstring(key)
        out[out_k] = io.varstring()
    return out


# ----------------------------------------------------------------------------- histograms
@spec(100, [1, 2], "hist")
def histograms(io, v, i):
    n = io.s("h", lambda: min(700, io.n("n_histograms", 0, 5)))
    out = []
    for _ in range(n):
        h = {}
        t = io.raw(1, lambda: io.rng.choice((b"I", b"R", b"F", b"D", b"i", b"r")))
        h["type"] = t.decode()

        def title():
            k = io.large(0, 30, 8000) if io.rng.random() < 0.3 else io.rng.randint(0, 30)
            if io.rng.random() < 0.3:
                return "".join(io.rng.choice("aäβ€𝛾z µ") for _ in range(k)).encode("utf-8")
            return bytes(io.rng.choice(b"abc DEF [](),.12") for _ in range(k))
        b = io.string(title)
        h["title"] = b.decode("utf-8")
        if len(b) % 2 == 0:
            io.raw(1)
        h["id"] = io.s("i")
        h["n_bins_x"] = io.s("h", lambda: io.n("n_bins_x", 0, 12, 200))
        h["n_bins_y"] = io.s("h", lambda: 0 if io.rng.random() < 0.4 else io.n("n_bins_y", 0, 7))
        h["entries"] = io.s("i")
        h["tentries"] = io.s("i", lambda: 0 if io.rng.random() < 0.3 else io.rng.choice((1, 2**31 - 1, io.rng.randint(1, 10**6))))
        two = h["n_bins_y"] > 0
        nc = h["n_bins_x"] * (h["n_bins_y"] if two else 1)
        for ax in "xy" if two else "x":
            h["underflow_" + ax] = io.s("i")
            h["overflow_" + ax] = io.s("i")
            f = "f" if h["type"] in ("R", "r", "F", "D") else "i"
            h["lower_" + ax] = io.s(f)
            h["upper_" + ax] = io.s(f)
            h["sum_" + ax] = io.s(f)
            h["tsum_" + ax] = io.s(f)
        if not two:
            for k in ("underflow_y", "overflow_y", "lower_y", "upper_y", "sum_y", "tsum_y"):
                h[k] = ABSENT
        fl = h["type"] in ("F", "D")
        if fl:
            h["content_all"] = io.s("f")
            h["content_inside"] = io.s("f")
            h["content_outside"] = io.a("f4", 8)
        if h["tentries"] > 0:
            d = io.a("f4" if fl else "i4", nc)
        else:
            d = np.zeros(nc)
        h["data"] = d.reshape(h["n_bins_y"], h["n_bins_x"]) if two else d
        out.append(h)
    return out


# ----------------------------------------------------------------------------- CORSIKA
VERSION_WORD = {b"RUNH": 3, b"EVTH": 45}
CORSIKA_VERSIONS = (6.5, 6.99, 7.3, 7.4, 7.5, 7.69, 7.741, 7.75, 7.76, 7.8, 7.9)


def corsika_block(io, marker, n=273):
    """273 floats with a marker word"""
    def gen():
        if io.tame or io.rng.random() < 0.6:
            # small numbers as CORSIKA writes them; also valid counts for the fields used as such
            a = io.nrng.integers(0, 40, 273).astype("<f4")
        else:
            a = io.nrng.uniform(-1e5, 1e5, 273).astype("<f4")
        a = a.copy()
        a[0] = np.frombuffer(marker, "<f4")[0]
        if marker in VERSION_WORD:
            a[VERSION_WORD[marker]] = io.hint.get("corsika_version") or io.rng.choice(CORSIKA_VERSIONS)
        for k, val in io.hint.get("block", {}).items():
            a[k] = val
        return a
    io.s("i", 273)
    return io.a("f4", 273, gen).tobytes()


def _npvoid(x):
    x = np.asarray(x)
    return {n: np.asarray(x[n]) for n in x.dtype.names}


@spec(1200, [0], "corsika")
def corsika_run_header(io, v, i):
    from corsikaio.subblocks import parse_run_header
    return _npvoid(parse_run_header(corsika_block(io, b"RUNH"))[0])


@spec(1201, [0], "corsika")
def telescope_definition(io, v, i):
    n = io.s("i", lambda: io.n("n_telescopes", 0, 12, 700))
    cols = [io.a("f4", n) for _ in range(4)]
    return {"x": cols[0], "y": cols[1], "z": cols[2], "r": cols[3]}


@spec(1202, [0], "corsika")
def corsika_event_header(io, v, i):
    from corsikaio.subblocks import parse_event_header
    return _npvoid(parse_event_header(corsika_block(io, b"EVTH"))[0])


@spec(1203, [0, 1], "corsika")
def array_offsets(io, v, i):
    n = io.s("i", lambda: io.n("n_arrays", 0, 20, 300))
    t = io.s("f")
    cols = ["x", "y"] if v == 0 else ["x", "y", "weight"]
    d = {c: io.a("f4", n) for c in cols}
    if v == 0:
        d["weight"] = ABSENT
    return [t, d]


PHOTON_COLS = ("x", "y", "cx", "cy", "time", "zem", "photons", "wavelength")
PARTICLE_COLS = ("x", "y", "cx", "cy", "time", "momentum", "weight", "particle_id")
EMITTER_COLS = ("x", "y", "mass", "charge", "time", "emission_time", "energy", "wavelength")


def photons_id(rng, h):
    if "array_id" in h or "tel_id" in h:
        return h.get("array_id", 0) * 1000 + h.get("tel_id", 0)
    return rng.randint(0, 998) * 1000 + rng.randint(0, 998)


@spec(1205, [0, 1000], "photons", photons_id)
def photons(io, v, i):
    """expected: dict with header values, photons (dict of columns), emitter, particles"""
    compact = v // 1000 == 1
    if "stored_tel" in io.hint:
        arr, tel = io.s("h", lambda: io.hint["stored_tel"][0]), io.s("h", lambda: io.hint["stored_tel"][1])
    else:
        arr = io.s("h", (lambda: i // 1000) if 0 <= i // 1000 < 32768 else None)
        tel = io.s("h", lambda: i % 1000)
    nph = io.s("f")
    n = io.s("i", lambda: io.n("n_bunches", 0, 30, 2000))
    e = {"array": arr, "telescope": tel, "n_photons": nph, "n_bunches": n,
         "array_id": i // 1000, "telescope_id": i % 1000, "compact": compact}
    particles = i == 999999
    if compact:
        def gen16():
            a = np.frombuffer(io.nrng.bytes(16 * n), "<i2").reshape(n, 8).copy()
            if io.rng.random() < 0.5:
                a[:, 2:4] = np.clip(a[:, 2:4], -30000, 30000)
            a[a[:, 7] == 9999, 7] = 9998
            return a.reshape(-1)
        a = io.a("i2", 8 * n, gen16).reshape(n, 8).astype("f8")
        conv = [a[:, 0] * 0.1, a[:, 1] * 0.1, np.clip(a[:, 2] / 30000, -1, 1), np.clip(a[:, 3] / 30000, -1, 1),
                a[:, 4] * 0.1, 10 ** (a[:, 5] * 0.001), a[:, 6] * 0.01, a[:, 7]]
        e["photons"] = {c: Approx(x, 3e-5) for c, x in zip(PHOTON_COLS, conv)}
        e["emitter"] = None
        return e

    def gen32():
        if io.tame or io.rng.random() < 0.6:
            a = io.nrng.uniform(-1000, 1000, (n, 8)).astype("<f4")
        else:
            a = np.frombuffer(io.nrng.bytes(32 * n), "<f4").reshape(n, 8).copy()
        mode = io.hint.get("emitter", io.rng.choice(("none", "none", "alternate", "random", "all", "last")))
        if n and particles and io.rng.random() < 0.5:
            # identifiers of particles as CORSIKA writes them, with zeros and repeats
            a[:, 7] = io.nrng.choice(np.array([0, 0, 1, 5001, 6002, 9999, -1, 75], "f4"), n)
        if n and not particles:
            if mode == "alternate":
                a[1::2, 7] = 9999
            elif mode == "random":
                a[io.nrng.integers(0, 2, n).astype(bool), 7] = 9999
            elif mode == "all":
                a[:, 7] = 9999
            elif mode == "last":
                a[-1, 7] = 9999
        return a.reshape(-1)
    a = io.a("f4", 8 * n, gen32).reshape(n, 8)
    if particles:
        e["particles"] = {c: a[:, k] for k, c in enumerate(PARTICLE_COLS)}
        return e
    m = a[:, 7] == np.float32(9999)
    e["photons"] = {c: a[~m, k] for k, c in enumerate(PHOTON_COLS)}
    e["emitter"] = {c: a[m, k] for k, c in enumerate(EMITTER_COLS)} if m.any() else None
    e["_raw"] = a
    return e


@spec(1208, [1, 2, 3], "photons", photons_id)
def photoelectrons(io, v, i):
    total_pos = io.size if io.gen else None
    n_pixels = None
    if io.gen:
        n_pixels = io.n("n_pixels", 0, 30, 2000)
        k = min(n_pixels, 32768, io.large(0, min(n_pixels, 20), 5000))
        pix = io.rng.sample(range(min(n_pixels, 32768)), k)
        if io.rng.random() < 0.7:
            pix.sort()
        counts = [io.rng.choice((0, 1, 2, io.rng.randint(1, 8))) for _ in pix]
        if io.boost and pix:
            counts[io.rng.randrange(len(pix))] = io.large(0, 8)
        total = sum(counts)
    e = {}
    e["n_pe"] = io.s("i", lambda: total)
    e["n_pixels"] = np_ = io.s("i", lambda: n_pixels)
    flags = io.s("h", lambda: io.rng.choice((0, 1, 4, 5)) | io.rng.choice((0, 0, 2, 8))) if v > 1 else 0
    e["non_empty"] = ne = io.s("i", lambda: len(pix))
    pe = np.zeros(np_, "i4")
    pid, tim, amp = [], [], []
    for j in range(ne):
        p = io.v(lambda: pix[j]) if v > 2 else io.s("h", lambda: pix[j])
        c = io.s("i", lambda: counts[j])
        pe[p] = c
        pid += [p] * c
        tim.append(io.a("f4", c))
        if flags & 1:
            amp.append(io.a("f4", c))
    cat = lambda x: np.concatenate(x) if x else np.zeros(0, "f4")
    e["photoelectrons"] = pe
    e["pixel_id"] = np.array(pid, dtype="i8")
    e["time"] = cat(tim)
    e["amplitude"] = cat(amp) if flags & 1 else ABSENT
    if flags & 4:
        ph = np.zeros(np_, "i4")
        pix2 = io.rng.sample(range(min(np_, 32768)), min(np_, 32767, io.large(0, min(np_, 10), 3000))) if io.gen else None
        m = io.s("i", lambda: len(pix2))
        for j in range(m):
            p = io.s("h", lambda: pix2[j])
            ph[p] = io.s("i")
        e["photons"] = ph
    else:
        e["photons"] = ABSENT
    return e


@spec(1209, [0], "corsika")
def corsika_event_end(io, v, i):
    from corsikaio.subblocks import parse_event_end
    return _npvoid(parse_event_end(corsika_block(io, b"EVTE"), version=7.8))


@spec(1210, [0], "corsika")
def corsika_run_end(io, v, i):
    from corsikaio.subblocks import parse_run_end
    io.s("i", 3)

    def gen():
        a = io.nrng.integers(0, 10000, 3).astype("<f4")
        a[0] = np.frombuffer(b"RUNE", "<f4")[0]
        return a
    b = io.a("f4", 3, gen).tobytes()
    return _npvoid(parse_run_end(bytearray(b + bytes(270 * 4))))


@spec(1211, [0], "corsika")
def longitudinal(io, v, i):
    e = {"event_id": io.s("i"), "type": io.s("i")}
    e["np"] = io.s("h", lambda: io.n("n_profiles", 0, 9))
    e["nthick"] = io.s("h", lambda: io.n("nthick", 0, 40, 200))
    e["thickstep"] = io.s("f")
    e["data"] = io.a("f4", e["np"] * e["nthick"]).reshape(e["np"], e["nthick"])
    return e


@spec(1212, [0], "corsika")
def input_card(io, v, i):
    n = io.s("i", lambda: io.n("n_lines", 0, 12, 300))
    return b"".join(io.string() + b"\n" for _ in range(n))


@spec(1216, [0, 1], "corsika")
def atmospheric_profile(io, v, i):
    e = {"id": i, "name": io.varstring(), "obslevel": io.s("d")}
    n = io.u(lambda: io.n("n_rows", 0, 20, 200))
    t = io.a("f8", 4 * n).reshape(n, 4)
    e.update(altitude_km=t[:, 0], rho=t[:, 1], thickness=t[:, 2], refractive_index_minus_1=t[:, 3])
    n5 = io.u(lambda: io.rng.choice((0, 5)))
    if n5 == 5:
        e["htoa"] = io.s("d")
        e["five_layer_atmosphere"] = io.a("f8", 25).reshape(5, 5)
    else:
        e["htoa"] = None
        e["five_layer_atmosphere"] = None
    return e


# ----------------------------------------------------------------------------- simtel configuration
@spec(2000, [0, 1, 2], "config")
def run_header(io, v, i):
    e = {"run": io.s("i"), "time": io.s("i"), "run_type": io.s("i"), "tracking_mode": io.s("i")}
    e["reverse_flag"] = io.s("i") if v >= 2 else ABSENT
    e["direction"] = io.a("f4", 2)
    e["offset_fov"] = io.a("f4", 2)
    e["conv_depth"] = io.s("f")
    e["conv_ref_pos"] = io.a("f4", 2) if v >= 1 else ABSENT
    e["n_telescopes"] = n = io.s("i", lambda: io.n("n_telescopes", 0, 12, 300))
    e["tel_id"] = io.a("i2", n, (lambda: io.hint["tel_ids"]) if "tel_ids" in io.hint else None)
    e["tel_pos"] = io.a("f4", 3 * n).reshape(n, 3)
    e["min_tel_trig"] = io.s("i")
    e["duration"] = io.s("i")
    e["target"] = io.string()
    e["observer"] = io.string()
    return e


@spec(2001, [4], "config")
def mc_run_header(io, v, i):
    e = {}
    for k in ("shower_prog_id", "shower_prog_vers", "shower_prog_start", "detector_prog_id", "detector_prog_vers",
              "detector_prog_start"):
        e[k] = io.s("i")
    e["obsheight"] = io.s("f")
    for k in ("n_showers", "n_use", "core_pos_mode"):
        e[k] = io.s("i")
    for k in ("core_range", "alt_range", "az_range"):
        e[k] = io.a("f4", 2)
    e["diffuse"] = io.s("i")
    e["viewcone"] = io.a("f4", 2)
    e["E_range"] = io.a("f4", 2)
    for k in ("spectral_index", "B_total", "B_inclination", "B_declination", "injection_height"):
        e[k] = io.s("f")
    for k in ("atmosphere", "corsika_iact_options", "corsika_low_E_model", "corsika_high_E_model"):
        e[k] = io.s("i")
    for k in ("corsika_bunchsize", "corsika_wlen_min", "corsika_wlen_max"):
        e[k] = io.s("f")
    e["corsika_low_E_detail"] = io.s("i")
    e["corsika_high_E_detail"] = io.s("i")
    return e


@spec(2002, range(7), "config", telid)
def camera_settings(io, v, i):
    e = {"telescope_id": i}
    e["n_pixels"] = n = io.s("i", lambda: io.n("n_pixels", 0, 25, 3000))
    e["focal_length"] = io.s("f")
    e["effective_focal_length"] = io.s("f") if v > 4 else ABSENT
    for k in ("x", "y", "dx", "dy"):
        e["effective_focal_length_" + k] = io.s("f") if v > 5 else ABSENT
    e["pixel_x"] = io.a("f4", n)
    e["pixel_y"] = io.a("f4", n)
    if v >= 4:
        e["curved_surface"] = io.v(lambda: io.rng.choice((0, 1, 0, 1, -1, 2)))
        e["pixels_parallel"] = io.v(lambda: io.rng.choice((0, 1, 0, 1, -1, 2)))
        e["pixel_z"] = io.a("f4", n) if e["curved_surface"] else np.zeros(n)
        if not e["pixels_parallel"]:
            e["nxpix"] = io.a("f4", n)
            e["nypix"] = io.a("f4", n)
        else:
            e["nxpix"] = e["nypix"] = np.zeros(n)
        e["common_pixel_shape"] = io.v(lambda: io.rng.choice((0, 1, 0, 1, -1, 2)))
        if not e["common_pixel_shape"]:
            e["pixel_shape"] = io.vs(n)
            e["pixel_area"] = io.a("f4", n)
            e["pixel_size"] = io.a("f4", n)
        else:
            e["pixel_shape"] = np.repeat(io.v(), n)
            e["pixel_area"] = np.repeat(io.s("f"), n)
            e["pixel_size"] = np.repeat(io.s("f"), n)
    else:
        z = np.zeros(n)
        e.update(curved_surface=0, pixels_parallel=1, common_pixel_shape=0, pixel_z=z, nxpix=z, nypix=z,
                 pixel_shape=np.full(n, -1))
        e["pixel_area"] = io.a("f4", n)
        e["pixel_size"] = io.a("f4", n) if v >= 1 else z
    e["n_mirrors"] = io.s("i") if v >= 2 else 0
    e["mirror_area"] = io.s("f") if v >= 2 else 0
    e["cam_rot"] = io.s("f") if v >= 3 else 0
    return e


@spec(2003, [1, 2], "config", telid)
def camera_organization(io, v, i):
    e = {"telescope_id": i}
    e["n_pixels"] = n = io.s("i", lambda: io.n("n_pixels", 0, 25, 2000))
    e["n_drawers"] = io.s("i", lambda: io.n("n_drawers", 0, 10))
    e["n_gains"] = g = io.s("i", lambda: io.n("n_gains", 1, 2))
    e["n_sectors"] = ns = io.s("i", lambda: io.n("n_sectors", 0, 12))
    for k, m in (("drawer", n), ("card", n * g), ("chip", n * g), ("channel", n * g)):
        x = io.a("i2", m) if v == 1 else io.vs(m)
        e[k] = x if k == "drawer" else x.reshape(n, g)
    sectors = []
    for _ in range(n):
        if v == 1:
            m = io.s("h", lambda: io.large(0, 6, 40000) if io.boost and io.rng.random() < 0.05 else io.rng.randint(0, 6))
            sectors.append(io.a("i2", m))
        else:
            m = io.v(lambda: io.large(0, 6, 40000) if io.boost and io.rng.random() < 0.05 else io.rng.randint(0, 6))
            sectors.append(io.vs(m))
    e["sectors"] = sectors
    typ, thr, pthr = [], [], []
    for _ in range(ns):
        typ.append(io.s("B"))
        thr.append(io.s("f"))
        pthr.append(io.s("f"))
    e["sector_type"] = np.array(typ, "u1")
    e["sector_threshold"] = np.array(thr, "f4")
    e["sector_pixel_threshold"] = np.array(pthr, "f4")
    return e


@spec(2004, range(4), "config", telid)
def pixel_settings(io, v, i):
    e = {"telescope_id": i, "setup_id": io.s("i"), "trigger_mode": io.s("i"), "min_pixel_mult": io.s("i")}
    e["n_pixels"] = n = io.s("i", lambda: io.n("n_pixels", 0, 25, 3000))
    e["pixel_HV_DAC"] = io.a("i4", n)
    nd = io.s("i", lambda: io.n("n_drawers", 0, 10, 100))
    e["threshold_DAC"] = io.a("i4", nd)
    e["n_drawers"] = io.s("i", lambda: nd)
    e["ADC_start"] = io.a("i2", nd)
    e["ADC_count"] = io.a("i2", nd)
    e["time_slice"] = io.s("f") if v >= 1 else ABSENT
    e["sum_bins"] = io.s("i") if v >= 1 else ABSENT
    if v >= 2:
        nr = io.v(lambda: io.n("n_ref_shape", 0, 3))
        lr = io.v(lambda: io.n("l_ref_shape", 0, 30))
        e["ref_step"] = io.s("f")
        e["ref_shape"] = io.a("f2", nr * lr).reshape(nr, lr)
    else:
        e["ref_step"] = e["ref_shape"] = ABSENT
    e["sum_offset"] = io.s("i") if v >= 3 else None
    return e


@spec(2005, [0], "config", telid)
def disabled_pixels(io, v, i):
    e = {"telescope_id": i}
    e["n_trig_disabled"] = n = io.s("i", lambda: io.n("n_trig_disabled", 0, 12, 3000))
    e["trigger_disabled"] = io.a("i4", n)
    e["n_HV_disabled"] = n = io.s("i", lambda: io.n("n_HV_disabled", 0, 12, 3000))
    e["HV_disabled"] = io.a("i4", n)
    return e


@spec(2006, [0], "config", telid)
def camera_software(io, v, i):
    e = {"telescope_id": i}
    for k in ("dyn_trig_mode", "dyn_trig_threshold", "dyn_HV_mode", "dyn_HV_threshold", "data_red_mode", "zero_sup_mode"):
        e[k] = io.s("i")
    e["zero_sup_n_thr"] = n = io.s("i", lambda: io.n("zero_sup_n_thr", 0, 8))
    e["zero_sup_thresholds"] = io.a("i4", n)
    for k in ("unbiased_scale", "dyn_ped_mode", "dyn_ped_events", "dyn_ped_period", "monitor_cur_period",
              "report_cur_period", "monitor_HV_period", "report_HV_period"):
        e[k] = io.s("i")
    return e


@spec(2007, [0], "config", telid)
def pointing_correction(io, v, i):
    e = {"telescope_id": i, "function_type": io.s("i")}
    e["n_param"] = n = io.s("i", lambda: io.n("n_param", 0, 20))
    e["pointing_param"] = io.a("f4", n)
    return e


@spec(2008, [0], "config", telid)
def drive_settings(io, v, i):
    e = {"drive_type_az": io.s("h"), "drive_type_alt": io.s("h")}
    for k in ("zeropoint", "sign", "resolution", "range_low", "range_high", "park_pos"):
        for x in ("az", "alt"):
            e[f"{k}_{x}"] = io.s("f")
    return e


# ----------------------------------------------------------------------------- event objects
def mtime(io):
    return [io.s("i"), io.s("i")]


@spec(2009, range(4), "event")
def trigger_information(io, v, i):
    e = {"cpu_time": mtime(io), "gps_time": mtime(io), "trigger_pattern": io.s("i"), "data_pattern": io.s("i")}
    if v >= 1:
        trg = io.hint.get("triggered")
        e["n_triggered_telescopes"] = n = io.s("h", lambda: len(trg) if trg is not None else min(32000, io.n("n_trg", 0, 10, 300)))
        if trg is None and io.gen:
            trg = io.rng.sample(range(1, 1000 if n < 900 else 32768), n)
        e["triggered_telescopes"] = io.a("i2", n, lambda: trg)
        e["trigger_times"] = io.a("f4", n)
        wd = io.hint.get("with_data")
        e["n_telescopes_with_data"] = m = io.s("h", lambda: len(wd) if wd is not None else io.n("n_data", 0, 10, 300))
        e["telescopes_with_data"] = io.a("i2", m, (lambda: wd) if wd is not None else None)
    if v >= 2:
        def masks():
            return [io.rng.choice((1, 2, 4, 8, 3, 5, 15, 0x10, 0x20, 0x40, 0x70, 0x71, 0x100, 0x113, 0x7ff, 0x80, 0,
                                   io.rng.getrandbits(12), io.rng.getrandbits(31))) for _ in range(n)]
        mask = io.us(n, masks)
        times = {}
        for tel, mm in zip(e["triggered_telescopes"], mask):
            mm = int(mm)
            if bin(mm & 15).count("1") > 1:
                times[int(tel)] = {b: io.s("f") for b in range(4) if mm >> b & 1}
        e["teltrg_time_by_type"] = times
        fixed = [int(m) & ~0x70 | (int(m) & 0x70) << 4 for m in mask]
        e["teltrg_type_mask"] = np.array(fixed, dtype="i8")
    if v >= 3:
        e["plane_wavefront_compensation"] = {"az": io.s("f"), "alt": io.s("f"), "speed_of_light": io.s("f")}
    else:
        e["plane_wavefront_compensation"] = ABSENT
    return e


@spec(2011, range(5), "event", telid)
def telescope_event_header(io, v, i):
    e = {"telescope_id": i, "loc_count": io.s("i"), "glob_count": io.s("i"), "cpu_time": mtime(io), "gps_time": mtime(io)}
    t = io.s("h", lambda: io.rng.randint(0, 255) | io.rng.randint(0, 7) << 8)
    e["trg_source"] = t & 0xFF
    e["list_trgsect"] = e["time_trgsect"] = e["phys_addr"] = e["n_phys_addr"] = ABSENT
    if t & 0x100:
        n = io.s("h", lambda: io.n("n_sect", 0, 12)) if v <= 1 else io.v(lambda: io.n("n_sect", 0, 12, 300))
        e["list_trgsect"] = io.a("i2", n) if v <= 1 else io.vs(n)
        if v >= 1 and t & 0x400:
            e["time_trgsect"] = io.a("f4", n)
    if t & 0x200:
        e["n_phys_addr"] = n = io.s("h", lambda: io.n("n_phys", 0, 12)) if v <= 1 else io.v(lambda: io.n("n_phys", 0, 12))
        e["phys_addr"] = io.a("i2", n) if v <= 1 else io.vs(n)
    e["readout_time"] = io.s("f") if v >= 3 else ABSENT
    e["relative_trigger_time"] = io.s("f") if v >= 3 else ABSENT
    e["start_readout"] = io.s("i") if v >= 4 else ABSENT
    return e


def split_tel(tel, rest=0):
    """telescope id in the two bit fields of an id"""
    return (tel & 0xFF) | ((tel >> 8 & 0x3F) << 24) | rest


def joined_tel(i):
    return (i & 0xFF) | ((i & 0x3F000000) >> 16)


@spec(2100, [0], "event", lambda r, h: split_tel(telid(r, h) % 1000, r.choice((0, 0x100, 0x200, 0x300))))
def tracking_position(io, v, i):
    e = {"telescope_id": joined_tel(i)}
    for bit, k in ((0x100, "raw"), (0x200, "cor")):
        for c in ("azimuth", "altitude"):
            e[f"{c}_{k}"] = io.s("f") if i & bit else ABSENT
    return e


def gain_groups(n_pixels):
    return [list(range(k, min(k + 16, n_pixels))) for k in range(0, n_pixels, 16)]


def adcsums_id(rng, h):
    return rng.choice((0, 1, 2)) | rng.randint(0, 1) << 10 | telid(rng, h) << 12


@spec(2012, [3], "adc", adcsums_id)
def adc_sums(io, v, i):
    mode = i & 0x1F
    n = io.s("i", lambda: io.n("n_pixels", 0, 60, 3000))
    g = io.s("h", lambda: io.n("n_gains", 1, 2))
    if mode == 0:
        out = np.array([io.diff(n) for _ in range(g)], dtype="f8").reshape(g, n)
    elif mode == 1:
        out = np.zeros((g, n))
        for grp in gain_groups(n):
            z = io.s("h", lambda: io.rng.choice((0, -1 if len(grp) == 16 else 1, io.rng.getrandbits(16) - 32768)) if len(grp) == 16
                     else io.rng.getrandbits(len(grp)))
            sel = [p for k, p in enumerate(grp) if z >> k & 1]
            if g == 2:
                out[1, sel] = io.diff(len(sel))
            out[0, sel] = io.diff(len(sel))
    else:
        assert mode == 2
        out = np.zeros((g, n))
        pix = None
        if io.gen:
            k = io.large(0, min(n, 50), 0x2000)
            if n > 50 and io.rng.random() < 0.3:
                k = n if io.rng.random() < 0.5 else io.rng.randint(0, n)      # most of the camera
            pix = sorted(io.rng.sample(range(min(n, 0x2000)), min(n, 0x2000, k)))
            if io.rng.random() < 0.2:
                io.rng.shuffle(pix)
            pix = [p | io.rng.choice((0, 0, 0, 0x2000, 0x6000)) for p in pix]
        k = io.s("h", lambda: len(pix))
        lst = [int(x) for x in io.a("u2", k, lambda: pix)]
        full = [p & 0x1FFF for p in lst if not p & 0x4000]
        low = [p & 0x1FFF for p in lst if not p & 0x6000]
        red = [p & 0x1FFF for p in lst if p & 0x4000]
        if g >= 2:
            out[1, low] = io.diff(len(low))
        out[0, full] = io.diff(len(full))
        if red:
            out[0, red] = io.a("u1", len(red))
    return Flexible(out) if n == 1 else out


def adcsamples_id(rng, h):
    return rng.choice((0, 0, 1, 2, 5)) | telid(rng, h) << 12


@spec(2013, [3], "adc", adcsamples_id)
def adc_samples(io, v, i):
    n = io.s("i", lambda: io.n("n_pixels", 0, 30, 600))
    g = io.s("h", lambda: io.n("n_gains", 1, 2))
    m = io.s("h", lambda: io.n("n_samples", 0, 30, 128))
    out = np.zeros((g, n, m))
    if not i & 0x1F:
        for a in range(g):
            for p in range(n):
                out[a, p] = io.diff(m, 65535)
    else:
        ranges = None
        if io.gen:
            ranges, p = [], 0
            dense = io.rng.random() < 0.4
            while p < n:
                p += io.rng.choice((0, 0, 1, 3, 3 if dense else io.rng.randint(0, n)))
                if p >= n:
                    break
                q = min(n - 1, p + io.rng.choice((0, 0, 1, 2, 7, io.rng.randint(0, 300) if dense else 7)))
                ranges.append((p, q))
                p = q + 1
            if io.rng.random() < 0.1:
                io.rng.shuffle(ranges)
        k = io.v(lambda: len(ranges))
        sel = []
        for j in range(k):
            if io.gen:
                p, q = ranges[j]
                if p == q and io.rng.random() < 0.7:
                    io.v(-p - 1)
                else:
                    io.v(p)
                    io.v(q)
            else:
                p = io.v()
                if p < 0:
                    p = q = -p - 1
                else:
                    q = io.v()
            sel += list(range(p, q + 1))
        for a in range(g):
            for p in sel:
                out[a, p] = io.diff(m, 65535)
    return Flexible(out) if m == 1 else out


def imgpar_id(rng, h):
    return split_tel(telid(rng, h), rng.getrandbits(4) << 8 | rng.getrandbits(8) << 12)


@spec(2014, [5, 6], "event", imgpar_id)
def image_parameters(io, v, i):
    e = {"flags": i, "flags_hex": hex(i), "telescope_id": joined_tel(i), "cut_id": i >> 12 & 0xFF}
    e["pixels"] = io.v() if v >= 6 else io.s("h")
    e["n_sat"] = io.v(lambda: io.rng.choice((0, 1, 5, -1))) if v >= 6 else io.s("h", lambda: io.rng.choice((0, 1, 5, -1)))
    e["clip_amp"] = io.s("f") if e["n_sat"] > 0 else ABSENT
    for k in ("amplitude", "x", "y", "phi", "l", "w"):
        e[k] = io.s("f")
    e["n_conc"] = io.s("h")
    e["concentration"] = io.s("f")
    for k in ("x_err", "y_err", "phi_err", "l_err", "w_err"):
        e[k] = io.s("f") if i & 0x100 else ABSENT
    for k in ("skewness", "skewness_err", "kurtosis", "kurtosis_err"):
        e[k] = io.s("f") if i & 0x200 else ABSENT
    if i & 0x400:
        e["n_hot"] = n = io.v(lambda: io.n("n_hot", 0, 8)) if v >= 6 else io.s("h", lambda: io.n("n_hot", 0, 8))
        e["hot_amp"] = io.a("f4", n)
        e["hot_pixel"] = io.vs(n) if v >= 6 else io.a("i2", n)
    else:
        e["n_hot"] = e["hot_amp"] = e["hot_pixel"] = ABSENT
    for k in ("tm_slope", "tm_residual", "tm_width1", "tm_width2", "tm_rise"):
        e[k] = io.s("f") if i & 0x800 else ABSENT
    return e


@spec(2015, [1], "event", lambda r, h: r.getrandbits(r.choice((10, 12, 31))))
def stereo_reconstruction(io, v, i):
    e = {"result_bits": i, "n_trg": io.s("h"), "n_read": io.s("h"), "n_img": io.s("h"), "img_pattern": io.s("i")}
    for bit, keys in ((1, ("Az", "Alt")), (2, ("err_dir1", "err_dir2", "err_dir3")), (4, ("xc", "yc")),
                      (8, ("err_core1", "err_core2", "err_core3")), (0x10, ("mscl", "mscw")),
                      (0x20, ("err_mscl", "err_mscw")), (0x40, ("energy",)), (0x80, ("err_energy",)),
                      (0x100, ("xmax",)), (0x200, ("err_xmax",))):
        for k in keys:
            e[k] = io.s("f") if i & bit else ABSENT
    return e


@spec(2016, [1, 2], "event", telid)
def pixel_timing(io, v, i):
    e = {}
    e["n_pixels"] = n = io.s("h", lambda: io.n("n_pixels", 0, 30, 2000)) if v <= 1 else io.v(lambda: io.n("n_pixels", 0, 30, 40000))
    e["n_gains"] = g = io.s("h", lambda: io.n("n_gains", 1, 2))
    e["before_peak"] = io.s("h", lambda: io.rng.choice((-1, 0, 3, 3, 32767)))
    e["after_peak"] = io.s("h", lambda: io.rng.choice((-1, 0, 5, 5, 32767)))
    e["with_sum"] = ws = e["before_peak"] >= 0 and e["after_peak"] >= 0
    e["list_type"] = lt = io.s("h", lambda: io.rng.choice((1, 2)))
    plist = None
    if io.gen:
        if lt == 1:
            plist = io.rng.sample(range(n), min(n, 32767, io.large(0, min(n, 25), 3000)))
            if io.rng.random() < 0.7:
                plist.sort()
        else:
            plist, p = [], 0
            while p < n:
                p += io.rng.choice((0, 1, 4, io.rng.randint(0, n)))
                q = p + io.rng.choice((0, 1, 5))
                if q >= n:
                    break
                plist += [p, q]
                p = q + 1
                if len(plist) > (3000 if io.boost else 40):
                    break
    k = io.s("h", lambda: len(plist) // lt) if v <= 1 else io.v(lambda: len(plist) // lt)
    pl = io.a("i2", k * lt, lambda: plist) if v <= 1 else io.vs(k * lt, lambda: plist)
    e["pixel_list"] = pl.reshape(-1, 2) if lt == 2 else pl
    e["threshold"] = thr = io.s("h", lambda: io.rng.choice((-1, -100, 0, 5, 300)))
    e["glob_only_selected"] = go = thr < 0
    e["n_types"] = nt = io.s("h", lambda: io.n("n_types", 0, 7))
    e["time_type"] = io.a("i2", nt)
    e["time_level"] = io.a("f4", nt)
    e["granularity"] = gr = io.s("f", lambda: io.rng.choice((0.25, 0.5, 1.0, 0.1, 1e-3)))
    e["peak_global"] = io.s("f")
    time = np.full((n, nt), np.nan, "f4")
    loc = np.zeros((g, n), "i8")
    glob = np.zeros((g, n), "i8")
    pix = [int(p) for p in pl] if lt == 1 else [p for a, b in pl.reshape(-1, 2) for p in range(int(a), int(b) + 1)]
    for p in pix:
        time[p] = io.a("i2", nt).astype("f4") * np.float32(gr)
        if ws:
            for x in range(g):
                loc[x, p] = io.v()
            if go:
                for x in range(g):
                    glob[x, p] = io.v()
    if ws and k > 0 and not go:
        for x in range(g):
            for p in range(n):
                glob[x, p] = io.v(lambda: io.rng.randint(-5, 500))
    e["time"] = Approx(time, 1e-6)
    e["pulse_sum_loc"] = loc
    e["pulse_sum_glob"] = glob
    return e


# ----------------------------------------------------------------------------- MC and monitoring
@spec(1215, [0, 1], "mc")
def mc_extra_params(io, v, i):
    e = {"weight": io.s("f")}
    e["n_iparam"] = a = io.u(lambda: io.n("n_iparam", 0, 5))
    e["n_fparam"] = b = io.u(lambda: io.n("n_fparam", 0, 5))
    e["iparam"] = io.a("i4", a) if a else ABSENT
    e["fparam"] = io.a("f4", b) if b else ABSENT
    return e


@spec(2020, range(3), "mc")
def mc_shower(io, v, i):
    e = {"shower": i, "primary_id": io.s("i"), "energy": io.s("f"), "azimuth": io.s("f"), "altitude": io.s("f")}
    e["depth_start"] = io.s("f") if v >= 1 else ABSENT
    e["h_first_int"] = io.s("f")
    e["xmax"] = io.s("f")
    for k in ("hmax", "emax", "cmax"):
        e[k] = io.s("f") if v >= 1 else 0
    e["n_profiles"] = n = io.s("h", lambda: min(3000, io.n("n_profiles", 0, 5)))
    e["profiles"] = []
    for _ in range(n):
        p = {"id": io.s("i"), "n_steps": io.s("i", lambda: io.n("n_steps", 0, 20)), "start": io.s("f"), "end": io.s("f")}
        p["content"] = io.a("f4", p["n_steps"])
        e["profiles"].append(p)
    e["mc_extra_params"] = io.sub(mc_extra_params, 1215, 1, 0) if v >= 2 else ABSENT
    return e


@spec(2021, range(3), "mc")
def mc_event(io, v, i):
    return {"event_id": i, "shower_num": io.s("i"), "xcore": io.s("f"), "ycore": io.s("f"),
            "aweight": io.s("f") if v >= 2 else 1.0}


def cammon_id(rng, h):
    return split_tel(telid(rng, h), (rng.getrandbits(7) | (rng.getrandbits(8) << 8 if rng.random() < 0.3 else 0)) << 8)


@spec(2022, [0, 1], "mc", cammon_id)
def camera_monitoring(io, v, i):
    what = i >> 8 & 0xFFFF
    e = {"telescope_id": joined_tel(i), "what": what, "known": io.s("h"), "new_parts": io.s("h"), "monitor_id": io.s("i"),
         "moni_time": mtime(io)}
    c = (lambda nm, lo, hi: io.s("h", lambda: io.n(nm, lo, hi)) if v == 0 else io.v(lambda: io.n(nm, lo, hi)))
    e["n_sectors"] = ns = c("n_sectors", 0, 9)
    e["n_pixels"] = n = c("n_pixels", 0, 20)
    e["n_drawers"] = nd = c("n_drawers", 0, 7)
    e["n_gains"] = g = c("n_gains", 1, 3)
    p = {}
    p[1] = ("status_time", "status_bits")
    p[2] = ("trig_time", "coinc_count", "event_count", "trigger_rate", "sector_rate", "event_rate", "data_rate", "mean_significant")
    p[4] = ("ped_noise_time", "n_ped_slices", "pedestal", "noise")
    p[8] = ("hv_temp_time", "n_drawer_temp", "n_camera_temp", "hv_v_mon", "hv_i_mon", "hv_stat", "drawer_temp", "camera_temp")
    p[16] = ("dc_rate_time", "current", "scaler")
    p[32] = ("hv_thr_time", "hv_dac", "thresh_dac", "hv_set", "trig_set")
    p[64] = ("set_daq_time", "daq_conf", "daq_scaler_win", "daq_nd", "daq_acc", "daq_nl")
    for bit, keys in p.items():
        if not what & bit:
            for k in keys:
                e[k] = ABSENT
    if what & 1:
        e["status_time"] = mtime(io)
        e["status_bits"] = io.s("i")
    if what & 2:
        e["trig_time"] = mtime(io)
        e["coinc_count"] = io.s("i")
        e["event_count"] = io.s("i")
        e["trigger_rate"] = io.s("f")
        e["sector_rate"] = io.a("f4", ns)
        e["event_rate"] = io.s("f")
        e["data_rate"] = io.s("f")
        e["mean_significant"] = io.s("f")
    if what & 4:
        e["ped_noise_time"] = mtime(io)
        e["n_ped_slices"] = io.s("h")
        e["pedestal"] = io.a("f4", g * n).reshape(g, n)
        e["noise"] = io.a("f4", g * n).reshape(g, n)
    if what & 8:
        e["hv_temp_time"] = mtime(io)
        e["n_drawer_temp"] = a = io.s("h", lambda: io.n("n_drawer_temp", 0, 4))
        e["n_camera_temp"] = b = io.s("h", lambda: io.n("n_camera_temp", 0, 4))
        e["hv_v_mon"] = io.a("i2", n)
        e["hv_i_mon"] = io.a("i2", n)
        e["hv_stat"] = io.a("u1", n)
        e["drawer_temp"] = io.a("i2", nd * a).reshape(nd, a)
        e["camera_temp"] = io.a("i2", b)
    if what & 16:
        e["dc_rate_time"] = mtime(io)
        e["current"] = io.a("u2", n)
        e["scaler"] = io.a("u2", n)
    if what & 32:
        e["hv_thr_time"] = mtime(io)
        e["hv_dac"] = io.a("u2", n)
        e["thresh_dac"] = io.a("u2", nd)
        e["hv_set"] = io.a("u1", n)
        e["trig_set"] = io.a("u1", n)
    if what & 64:
        e["set_daq_time"] = mtime(io)
        for k in ("daq_conf", "daq_scaler_win", "daq_nd", "daq_acc", "daq_nl"):
            e[k] = io.s("h")
    return e


@spec(2023, range(4), "mc", telid)
def laser_calibration(io, v, i):
    e = {"telescope_id": i}
    n = io.s("H", lambda: io.n("n_pixels", 0, 25, 65535))
    g = io.s("h", lambda: io.n("n_gains", 1, 3))
    e["lascal_id"] = io.s("i")
    e["calib"] = io.a("f4", g * n).reshape(g, n)
    if v >= 1:
        t = io.a("f4", 2 * g).reshape(g, 2)
        e["max_int_frac"] = t[:, 0]
        e["max_pixtm_frac"] = t[:, 1]
    else:
        e["max_int_frac"] = e["max_pixtm_frac"] = ABSENT
    e["tm_calib"] = io.a("f4", g * n).reshape(g, n) if v >= 2 else ABSENT
    e["flat_fielding"] = io.a("f4", g * n).reshape(g, n) if v >= 3 else ABSENT
    return e


@spec(2026, range(3), "mc")
def mc_pe_sum(io, v, i):
    e = {"event": i, "shower_num": io.s("i")}
    e["n_tel"] = n = io.s("i", lambda: io.n("n_tel", 0, 12, 200))
    e["n_pe"] = io.a("i4", n)
    io.a("i4", n, lambda: np.zeros(n))
    for k in ("photons", "photons_atm", "photons_atm_3_6", "photons_atm_qe"):
        e[k] = io.a("f4", n) if v >= 1 else ABSENT
    e["photons_atm_400"] = io.a("f4", n) if v >= 2 else ABSENT
    return e


def pixlist_id(rng, h):
    if "code" in h:
        return h["code"] * 1000000 + h["tel_id"]
    return rng.choice((0, 1, 2, 7, 300)) * 1000000 + (telid(rng, h) if rng.random() < 0.8 else rng.randint(0, 999999))


@spec(2027, [0, 1], "event", pixlist_id)
def pixel_list(io, v, i):
    e = {"code": i // 1000000, "telescope_id": i % 1000000}
    e["pixels"] = n = io.s("h", lambda: io.n("pixels", 0, 20, 2000)) if v < 1 else io.v(lambda: io.n("pixels", 0, 20, 2000))
    e["pixel_list"] = io.a("i2", n) if v < 1 else io.vs(n)
    return e


@spec(2029, [0, 1], "event")
def aux_digital(io, v, i):
    e = {"tel_id": io.s("i"), "time_scale": io.s("f")}
    a = io.u(lambda: io.n("n_traces", 0, 5))
    b = io.u(lambda: io.n("n_samples", 0, 25, 300))
    e["trace_data"] = np.array([io.diff(b) for _ in range(a)], dtype="u4").reshape(a, b)
    return e


@spec(2030, [0, 1], "event")
def aux_analog(io, v, i):
    e = {"tel_id": io.s("i"), "time_scale": io.s("f")}
    a = io.u(lambda: io.n("n_traces", 0, 5))
    b = io.u(lambda: io.n("n_samples", 0, 25, 300))
    e["trace_data"] = io.a("f4", a * b).reshape(a, b)
    return e


@spec(2032, [0], "event", telid)
def pixel_trigger_times(io, v, i):
    e = {"time_step": io.s("f")}
    e["n_times"] = n = io.v(lambda: io.n("n_times", 0, 15, 300))
    e["pixel_ids"] = io.vs(n)
    e["trigger_times"] = io.vs(n)
    return e


def pixmon_flags(rng):
    return rng.getrandbits(8)


@spec(2033, [0], "mc", telid)
def pixel_monitoring(io, v, i):
    e = {}
    e["flags"] = f = io.s("i", lambda: io.hint.get("flags", io.rng.getrandbits(8)))
    e["n_pixels"] = n = io.s("i", lambda: io.n("n_pixels", 0, 25, 2000))
    e["n_gains"] = g = io.s("h", lambda: io.n("n_gains", 1, 3))
    for b, k in enumerate(("nsb_rate", "qe_rel", "gain_rel", "hv_rel", "current", "fadc_amp_hg", "fadc_amp_lg", "disabled")):
        present = f >> b & 1 and (k != "fadc_amp_lg" or g > 1)
        e[k] = io.a("?" if k == "disabled" else "f4", n) if present else ABSENT
    return e


# ----------------------------------------------------------------------------- helpers around the code under test
def telescope_type(base, tel):
    return base + tel % 100 + 1000 * (tel // 100)


def actual_value(obj, spec_type, **kw):
    """decode with the code under test into the shape of the expected values"""
    if spec_type == 1205:
        out = {k: getattr(obj, k) for k in ("array", "telescope", "n_photons", "n_bunches", "array_id", "telescope_id", "compact")}
        r = obj.parse()
        if obj.header.id == 999999:
            out["particles"] = columns(r)
        else:
            out["photons"] = columns(r[0])
            out["emitter"] = None if r[1] is None else columns(r[1])
        return out
    r = obj.parse(**kw)
    if spec_type in (1200, 1201, 1202, 1209, 1210):
        return columns(r)
    if spec_type == 1203:
        return [r[0], columns(r[1])]
    return r


def columns(a):
    """structured array, record or mapping -> dict of columns"""
    names = getattr(getattr(a, "dtype", None), "names", None)
    if names:
        return {n: np.asarray(a[n]) for n in names}
    return a


def strip(value):
    """drop helper entries (keys starting with _) of an expected value"""
    if isinstance(value, dict):
        return {k: v for k, v in value.items() if not (isinstance(k, str) and k.startswith("_"))}
    return value


def spec_for(node):
    """description for an existing object (telescope dependent types included)"""
    t = node.type
    if t in SPECS and t != 2100:
        return SPECS[t]
    if t >= 2100 and (t - 2100) % 1000 < 100:
        return SPECS[2100]
    return None
