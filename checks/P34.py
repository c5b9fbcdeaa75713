"""Histogram plots show every stored histogram"""
import os

import cmp
import evt
import gentree
import tools
from common import caught, compress_random, real_files
from evt import Node
from harness import HarnessError
from spec import SPECS

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: figures of the plotting tool inspected when they are saved or shown, compared with independently decoded histograms"
LEVEL_NOTE = ("exploration: random files with any number of histogram objects (all types, one and two dimensions, empty ones, any contents) and the "
              "checked-in real files; the artists of each figure (bars, steps, meshes, images) are read back. Axis ranges are finite and not empty, "
              "titles without mathematical markup.")
RULE = "a case is one file plotted once; distinct by content and options"
CASES = {"quick": 320, "thorough": 5000}
REQUIRE = {"figures": 450, "one_dim": 300, "two_dim": 300, "empty": 70, "files_written": 350, "shown": 90, "real_figures": 60, "rendered": 40,
           "contents_compared": 600}


def setup(ctx):
    d = ctx.tmp / "keep-mpl"
    d.mkdir()
    os.environ["MPLCONFIGDIR"] = str(d)
    os.environ["MPLBACKEND"] = "Agg"


def histogram(r):
    """payload of one histogram that can be plotted, and its description"""
    import struct
    import numpy as np
    two = r.random() < 0.5
    t = r.choice("IRFDir")
    nx = r.choice((1, 2, r.randint(1, 30)))
    ny = r.choice((1, 2, r.randint(1, 20))) if two else 0
    k = r.randint(0, 30)
    dollar = r.choice(("", "", "", "$$$_^\\{"))
    title = "".join(r.choice("abc DEF [](),.12äµ" + dollar) for _ in range(k)).encode()
    n = nx * max(ny, 1)
    kind = r.random()
    fl = t in "FD"
    if kind < 0.15:
        data = np.zeros(n)
    elif kind < 0.4:
        # sparse
        data = np.zeros(n)
        data[[r.randrange(n) for _ in range(r.randint(1, 3))]] = r.randint(1, 1000) * r.choice((1, 1, -1))
    elif fl:
        lo = r.choice((0, 0, -1e4, -10))
        data = np.array([r.uniform(lo, 1e4) for _ in range(n)], "f4")
    else:
        # (of one sign: the contents of a column never cancel)
        data = np.array([r.randint(0, 10**r.randint(1, 9)) for _ in range(n)]) * r.choice((1, 1, 1, -1))
    tent = r.randint(1, 10**6)
    if kind < 0.08:
        tent = 0
    b = t.encode() + struct.pack("<h", len(title)) + title
    if len(title) % 2 == 0:
        b += b"\0"
    b += struct.pack("<ihhii", r.randint(-10, 10**6), nx, ny, r.randint(0, 10**6), tent)
    h = {"title": title.decode(), "nx": nx, "ny": ny, "single": fl and not two}
    for ax in "xy" if two else "x":
        if t in "FRDr":
            lo = np.float32(r.choice((0, -1, r.uniform(-100, 100))))
            hi = np.float32(lo + r.choice((1, 10, r.uniform(0.1, 1000))))
            b += struct.pack("<iiffff", 1, 2, lo, hi, 3, 4)
        else:
            lo = r.randint(-1000, 1000)
            hi = lo + r.randint(1, 1000)
            b += struct.pack("<iiiiii", 1, 2, lo, hi, 3, 4)
        h[ax] = (float(lo), float(hi))
    if fl:
        b += struct.pack("<ff8f", 1, 2, *range(8))
    if tent > 0:
        b += np.asarray(data, "<f4" if fl else "<i4").tobytes()
    else:
        data = np.zeros(n)
    h["data"] = np.asarray(data, "f8").reshape(ny, nx) if two else np.asarray(data, "f8")
    return b, h


def generated(ctx):
    import struct
    r = ctx.rng
    nodes, hists = [], []
    for _ in range(r.choice((0, 1, 1, 2, 3))):
        part = [histogram(r) for _ in range(r.choice((0, 1, 2, r.randint(1, 6))))]
        nodes.append(Node(100, r.randint(0, 10), r.choice((1, 2)), struct.pack("<h", len(part)) + b"".join(b for b, _ in part)))
        hists += [h for _, h in part]
    for _ in range(r.randint(0, 3)):
        n = gentree.tree(r, ctx.nrng, 1)
        if n.type != 100:
            nodes.insert(r.randint(0, len(nodes)), n)
    if not nodes:
        nodes.append(Node(2024, 0, 0, b"x"))
    return evt.encode_file(nodes), hists


def from_real(nodes):
    import numpy as np
    out = []
    for n in nodes:
        if n.type == 100:
            for h in SPECS[100].read(n)[0]:
                two = h["n_bins_y"] > 0
                e = {"title": h["title"], "nx": h["n_bins_x"], "ny": h["n_bins_y"] if two else 0, "x": (float(h["lower_x"]), float(h["upper_x"])),
                     "data": np.asarray(h["data"], "f8"), "single": not two and np.asarray(h["data"]).dtype.kind == "f"}
                if two:
                    e["y"] = (float(h["lower_y"]), float(h["upper_y"]))
                out.append(e)
    return out


def edges(lim, n):
    import numpy as np
    return lim[0] + (lim[1] - lim[0]) * np.arange(n + 1) / n


def shown(t):
    """a text as it is drawn"""
    from matplotlib import cbook
    s = t.get_text()
    if not t.get_parse_math():
        return s
    return ("formula", s) if cbook.is_math_text(s) else s.replace(r"\$", "$")


def describe(fig):
    """what a figure shows: title, limits and contents (None if it is drawn in an unknown way)"""
    import numpy as np
    from matplotlib.collections import QuadMesh
    from matplotlib.image import AxesImage
    from matplotlib.patches import Rectangle, StepPatch
    from matplotlib.text import Text
    axes = [a for a in fig.axes if a.get_label() != "<colorbar>"]
    if len(axes) != 1:
        return {"axes": len(axes)}
    ax = axes[0]
    out = {"axes": 1, "titles": [shown(t) for t in set(ax.findobj(Text)) - set(ax.xaxis.findobj(Text)) - set(ax.yaxis.findobj(Text))] + ([shown(fig._suptitle)] if getattr(fig, "_suptitle", None) else []),
           "xlim": ax.get_xlim(), "ylim": ax.get_ylim(), "kind": None}
    mesh = [c for c in ax.collections if isinstance(c, QuadMesh)]
    images = [c for c in ax.images if isinstance(c, AxesImage)]
    rects = [p for p in ax.patches if isinstance(p, Rectangle)]
    steps = [p for p in ax.patches if isinstance(p, StepPatch)]
    if len(mesh) == 1:
        c = np.asarray(mesh[0].get_coordinates())
        ny, nx = c.shape[0] - 1, c.shape[1] - 1
        a = mesh[0].get_array()
        out.update(kind=2, x=c[0, :, 0], y=c[:, 0, 1], regular=bool((c[:, :, 0] == c[0, :, 0]).all() and (c[:, :, 1].T == c[:, 0, 1]).all()))
        if a is None or a.size != nx * ny:
            out["kind"] = None
        else:
            out["data"] = np.asarray(np.ma.filled(np.ma.asarray(a, "f8"), np.nan)).reshape(ny, nx)
    elif len(images) == 1:
        a = np.asarray(np.ma.filled(np.ma.asarray(images[0].get_array(), "f8"), np.nan))
        if a.ndim == 2:
            x0, x1, y0, y1 = images[0].get_extent()
            if images[0].origin == "upper":
                a = a[::-1]
            out.update(kind=2, x=edges((x0, x1), a.shape[1]), y=edges((y0, y1), a.shape[0]), data=a, regular=True)
    elif steps and not rects:
        v, e, _ = steps[0].get_data()
        out.update(kind=1, x=np.asarray(e, "f8"), data=np.asarray(v, "f8"))
    elif rects:
        rects.sort(key=lambda p: p.get_x())
        out.update(kind=1, x=np.array([p.get_x() for p in rects] + [rects[-1].get_x() + rects[-1].get_width()]),
                   data=np.array([p.get_y() + p.get_height() if p.get_y() == 0 else p.get_height() for p in rects]))
    return out


def compare(ctx, k, h, s):
    import numpy as np
    ctx.check(s["axes"] == 1, lambda: f"figure {k}: {s['axes']} axes")
    ctx.check(h["title"] in s["titles"], lambda: f"figure {k}: title {s['titles']}, expected {h['title']!r}")
    data = h["data"]
    two = data.ndim == 2
    ctx.count("two_dim" if two else "one_dim")
    if not data.any():
        ctx.count("empty")
    if s["kind"] is None:
        ctx.count("unknown_style")
    else:
        ctx.check(s["kind"] == data.ndim, lambda: f"figure {k}: {s['kind']} dimensions, expected {data.ndim}")
        want = [("x", edges(h["x"], h["nx"]))] + ([("y", edges(h["y"], h["ny"]))] if two else [])
        for ax, e in want:
            a = np.asarray(s[ax], "f8")
            ctx.check(a.shape == e.shape and np.abs(a - e).max() <= 1e-5 * (e[-1] - e[0]) + 1e-9 * np.abs(e).max(),
                      lambda: f"figure {k}: bins {a} along {ax}, expected {e}")
        a = s["data"]
        # (empty bins can be left blank)
        # (numpy's histogram sums weights up in their own precision and takes differences: single precision of the total)
        same = a.shape == data.shape and np.allclose(np.where(np.isnan(a), 0, a), data, rtol=1e-5, atol=1e-6 * np.abs(data).sum() if h["single"] else 0)
        ctx.check(same, lambda: f"figure {k}: contents {a}, expected {data}")
        ctx.count("contents_compared")
    # everything that is filled is visible
    for ax, axis in (("x", 0), ("y", 1)) if two else (("x", None),):
        m = data if axis is None else data.any(axis=axis)
        nz = np.flatnonzero(m)
        if len(nz):
            e = edges(h[ax], h["n" + ax])
            lo, hi = sorted(s[ax + "lim"])
            tol = 1e-5 * (e[-1] - e[0]) + 1e-6 * np.abs(e).max()
            ctx.check(lo <= e[nz[0]] + tol and hi >= e[nz[-1] + 1] - tol,
                      lambda: f"figure {k}: range {lo} to {hi} along {ax}, filled from {e[nz[0]]} to {e[nz[-1] + 1]}")


def run_case(ctx, idx):
    import matplotlib
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    r = ctx.rng
    real = [x for x in real_files() if any(n.type == 100 for n in x[2])]
    is_real = idx < len(real)
    if is_real:
        path, _, nodes = real[idx]
        hists = from_real(nodes)
    else:
        data, hists = generated(ctx)
        if r.random() < 0.7:
            path = ctx.write("f", data)
        else:
            path = ctx.write("f", compress_random(r, data, r.choice(("gz", "zst"))))
        ctx.nontrivial(data)
    out = ctx.path("out")
    os.mkdir(out)
    base = os.path.join(out, r.choice(("h", "some.name", "a b", "%d")))
    fmt = r.choice((None, "png", "svg", "pdf"))
    show = r.random() < 0.25
    render = not show and r.random() < 0.1
    args = []
    if not show:
        args = [r.choice(("-o", "--output-base")), base] + ([r.choice(("-f", "--format")), fmt] if fmt else []) + ["-r", "15"]
    seen = []
    savefig, showfig, tight = Figure.savefig, plt.show, plt.tight_layout

    def on_save(self, fname, *a, **kw):
        seen.append((str(fname), describe(self), kw))
        if render:
            savefig(self, fname, *a, **kw)
        else:
            with open(fname, "xb") as f:
                f.write(b"plot")

    def on_show(*a, **kw):
        seen.append((None, describe(plt.gcf()), kw))

    Figure.savefig, plt.show = on_save, on_show
    if not render:
        plt.tight_layout = lambda *a, **kw: None
    try:
        with caught(), matplotlib.rc_context():
            res = tools.run("plot_hists", *args, path)
    finally:
        Figure.savefig, plt.show, plt.tight_layout = savefig, showfig, tight
        plt.close("all")
    ctx.info.update(args=args, n=len(hists), path=path)
    ctx.check(res.ok, lambda: f"plotting {len(hists)} histograms: {res}, {len(seen)} were plotted")
    ctx.check(len(seen) == len(hists), lambda: f"{len(seen)} figures for {len(hists)} histograms")
    for k, (h, (name, s, kw)) in enumerate(zip(hists, seen), 1):
        compare(ctx, k, h, s)
        if show:
            ctx.check(name is None, f"figure {k} was saved as {name} without being asked to")
            ctx.count("shown")
        else:
            e = f"{base}_{k:03d}.{fmt or 'pdf'}"
            ctx.check(name == e, f"figure {k} saved as {name}, expected {e}")
            ctx.check(kw.get("dpi") == 15, f"figure {k}: resolution {kw.get('dpi')}")
        ctx.count("figures")
        if is_real:
            ctx.count("real_figures")
    files = sorted(os.listdir(out))
    if not show:
        e = sorted(f"{os.path.basename(base)}_{k:03d}.{fmt or 'pdf'}" for k in range(1, len(hists) + 1))
        ctx.check(files == e, f"files {files}, expected {e}")
        ctx.count("files_written", len(files))
        if render:
            magic = {"png": b"\x89PNG", "svg": b"<?xml", None: b"%PDF", "pdf": b"%PDF"}[fmt]
            for f in files:
                with open(os.path.join(out, f), "rb") as fh:
                    ctx.check(fh.read(len(magic)) == magic, f"{f} is not in the format {fmt}")
                ctx.count("rendered")
    else:
        ctx.check(not files, f"files written without being asked to: {files}")
    if idx < 60:
        ctx.sample({"histograms": len(hists), "args": args, "titles": [h["title"] for h in hists][:4]})
