"""C29: saved pictures."""
import os, re
import numpy as np
import gen
from oil import load, f64

PROP = "C29"
RULE = ("Random fields (every shape, constant, nearly constant and varied layers, gas absent, negligible, only in another layer) drawn by the plotter; the finished figure is read back: data of each panel, the place of each cell on the labelled axes, "
        "colour limits and captions, and the colour of the pixel at the middle of each cell in the written file. Non-trivial: a picture of a layer that varies along both horizontal axes or of several layers, distinct by case.")
ASSUMPTIONS = ["panels are images on labelled axes (X and Y in the axis captions), one colour scale per panel"]
PLAN = {"quick": {"n": 700, "seconds": 40}, "thorough": {"n": None, "seconds": 300}}
REQUIRED = {"pictures": 120, "panels": 250, "cells placed": 2500, "pixels read": 1500, "pictures with gas": 30, "pictures without gas": 30, "several layers": 40, "not square": 60}
OPTIONAL = {"not an image": ["cells placed", "pixels read"]}
WHAT = (("pressure", "давлен|pressure"), ("water", "вод|water"), ("gas", "газ|gas"))


def prepare():
    load()
    import matplotlib
    matplotlib.use("Agg")
    matplotlib.rcParams["savefig.dpi"] = "figure"
    import matplotlib.pyplot
    from plotting.plotter import Plotter


def case(rng, idx, tier):
    d = [rng.choice([1, 2, 3, 4, 5, 7, 9, 12]), rng.choice([1, 2, 3, 4, 5, 6, 8, 11]), rng.choice([1, 1, 1, 2, 3, 5])]
    if rng.random() < 0.06:
        d = rng.choice([[40, 33, 2], [64, 5, 1], [3, 70, 1], [25, 26, 9], [6, 7, 24], [1, 1, 40], [120, 2, 3]])
    f = lambda: rng.choice(["varied", "varied", "varied", "constant", "nearly", "layers", "spike"])
    return {"dims": d, "seed": rng.randrange(10 ** 9), "p": f(), "sw": f(), "sg": rng.choice(["none", "zero", "tiny", "one layer", "varied", "varied", "nearly", "spike", "barely"]),
            "time": rng.choice([None, "День 50", "День 7 (Final)", "День 0"]), "again": rng.random() < 0.3}


def field(kind, d, r, lo, hi):
    a = np.full(d, r.uniform(lo, hi))
    w = hi - lo
    if kind == "varied":
        a = lo + w * r.random(d)
    elif kind == "nearly":
        a = a + 1e-5 * w * r.random(d)
    elif kind == "layers":
        a = a * 0 + lo + w * r.random(d[2])[None, None, :]
    elif kind == "spike":
        a[tuple(int(r.integers(n)) for n in d)] = hi
    return np.clip(a, lo, hi).astype(np.float32)


def fields(case, seed):
    r = np.random.default_rng(seed)
    d = case["dims"]
    P = field(case["p"], d, r, 1e6, 6e7)
    sw = field(case["sw"], d, r, 0.1, 0.6)
    k = case["sg"]
    if k == "none":
        return P, sw, None
    if k in ("zero", "tiny", "barely"):
        sg = np.zeros(d, np.float32)
        if k != "zero":
            sg[tuple(int(r.integers(n)) for n in d)] = 5e-7 if k == "tiny" else 3e-6
    elif k == "one layer":
        sg = np.zeros(d, np.float32); sg[:, :, int(r.integers(d[2]))] = 0.3 * r.random(d[:2])
    else:
        sg = field(k, d, r, 0.0, 0.39)
    return P, sw, sg


def run(case, ctx):
    load()
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    from plotting.plotter import Plotter
    L = load()
    res = L["Reservoir"]({"dimensions": case["dims"]}, L["cpu"])
    pl = Plotter(res)
    plt.close("all")
    for n in range(2 if case["again"] else 1):
        P, sw, sg = fields(case, case["seed"] + n)
        keep = [None if a is None else a.copy() for a in (P, sw, sg)]
        path = os.path.join(ctx.scratch, "pic%d.png" % n)
        if os.path.exists(path):
            os.remove(path)
        seen = []
        old = Figure.savefig

        def savefig(fig, fname, *a, **k):
            r = old(fig, fname, *a, **k)
            seen.append(look(fig, str(fname)))
            return r
        Figure.savefig = savefig
        try:
            pl.save_plots(P, sw, path, time_info=case["time"], gas_saturation=sg)
        finally:
            Figure.savefig = old
        ctx.check(os.path.exists(path), "no picture was written")
        ctx.check(not plt.get_fignums(), "%d figure(s) stay open after the picture was written" % len(plt.get_fignums()))
        for a, b in zip(keep, (P, sw, sg)):
            ctx.check(a is None or np.array_equal(a, b), "drawing changed the fields it was given")
        ctx.check(len(seen) == 1, "%d figures were saved" % len(seen))
        picture(case, ctx, seen[0], path, P, sw, sg)


def look(fig, fname):
    """everything needed from the figure while it is alive"""
    out = []
    h = fig.get_size_inches()[1] * fig.dpi
    for ax in fig.axes:
        if getattr(ax, "_colorbar", None) is not None or ax.get_label() == "<colorbar>":
            continue
        p = {"title": ax.get_title(), "x": ax.get_xlabel(), "y": ax.get_ylabel(), "images": [], "mesh": len(ax.collections), "xlim": ax.get_xlim(), "ylim": ax.get_ylim()}
        for im in ax.images:
            a = np.ma.filled(np.ma.asarray(im.get_array()).astype(float), np.nan)
            l, r, b, t = im.get_extent()
            rows, cols = a.shape[:2]
            xs = l + (np.arange(cols) + 0.5) * (r - l) / cols
            ys = (t + (np.arange(rows) + 0.5) * (b - t) / rows) if im.origin == "upper" else (b + (np.arange(rows) + 0.5) * (t - b) / rows)
            X, Y = np.meshgrid(xs, ys)
            pix = ax.transData.transform(np.stack([X.ravel(), Y.ravel()], 1)).reshape(rows, cols, 2)
            cell = np.abs(ax.transData.transform([[xs[0] + (r - l) / cols, ys[0] + (t - b) / rows]])[0] - pix[0, 0])
            p["images"].append({"a": a, "xs": xs, "ys": ys, "pix": pix, "h": h, "cell": cell, "rgba": im.cmap(im.norm(a)), "clim": im.get_clim()})
        out.append(p)
    return out


def picture(case, ctx, panels, path, P, sw, sg):
    from PIL import Image
    nx, ny, nz = case["dims"]
    gas = sg is not None and bool((sg > 1e-6).any())
    ctx.check(len(panels) == (3 if gas else 2), "the picture has %d panels (%s gas in the model)" % (len(panels), "with" if gas else "no"))
    ctx.count("pictures"); ctx.count("pictures with gas" if gas else "pictures without gas")
    png = np.asarray(Image.open(path).convert("RGBA"), dtype=float) / 255
    layers = []
    for (name, word), p in zip(WHAT, panels):
        full = {"pressure": f64(P) / 1e6, "water": f64(sw), "gas": None if sg is None else f64(sg)}[name]
        ctx.check(re.search(word, p["title"].lower()), "panel of %s is captioned %r" % (name, p["title"]))
        if case["time"]:
            ctx.check(case["time"] in p["title"], "caption %r leaves out the time %r" % (p["title"], case["time"]))
        m = re.search(r"Z\s*=\s*(\d+)", p["title"])
        ctx.check(m and int(m.group(1)) < nz, "caption %r names no layer of %d" % (p["title"], nz))
        k = int(m.group(1)); layers.append(k)
        ctx.count("panels")
        if len(p["images"]) != 1:
            ctx.count("not an image"); continue
        im = p["images"][0]
        a = full[:, :, k]
        horizontal = "X" in p["x"].upper() and "Y" in p["y"].upper()
        ctx.check(horizontal or ("Y" in p["x"].upper() and "X" in p["y"].upper()), "axes are captioned %r and %r" % (p["x"], p["y"]))
        want = a.T if horizontal else a         # rows along the vertical axis
        ctx.check(im["a"].shape == want.shape, "%s: %d x %d cells are shown along the axes captioned %r and %r of a grid of %d x %d" % (name, im["a"].shape[1], im["a"].shape[0], p["x"], p["y"], nx, ny))
        tol = 2e-6 * max(np.abs(a).max(), 1e-3)
        # a cell appears at its own number on the labelled axes
        for vals, lim, n in ((im["xs"], p["xlim"], want.shape[1]), (im["ys"], p["ylim"], want.shape[0])):
            off = np.unique(np.round(vals - np.sort(vals)[0], 6)) if n else vals
            ctx.check(len(vals) == n and np.allclose(np.sort(vals) - np.sort(vals)[0], np.arange(n) * (1 if n < 2 else np.sort(vals)[1] - np.sort(vals)[0])), "%s: cells are unevenly placed" % name)
            ctx.check(min(lim) <= vals.min() and max(lim) >= vals.max(), "%s: some cells lie outside the axes" % name)
        rows, cols = np.argsort(im["ys"]), np.argsort(im["xs"])
        d = np.abs(im["a"][np.ix_(rows, cols)] - want)
        j, i = np.unravel_index(d.argmax(), d.shape)
        ctx.check(d.max() <= tol, "%s: at column %d (%s), row %d (%s) of layer %d the picture shows %.6g, the model has %.6g" % (name, i, p["x"], j, p["y"], k, im["a"][np.ix_(rows, cols)][j, i], want[j, i]))
        ctx.count("cells placed", d.size)
        lo, hi = im["clim"]
        ctx.check(lo <= a.min() + tol and hi >= a.max() - tol, "%s: values %.6g..%.6g are drawn on a colour scale of %.6g..%.6g" % (name, a.min(), a.max(), lo, hi))
        ctx.check(name == "pressure" or lo < hi, "%s: the colour scale is empty" % name)
        # the file: colour in the middle of each cell
        if min(im["cell"]) >= 4:
            q = np.rint(im["pix"] - 0.5).astype(int)
            x, y = q[..., 0], (int(round(im["h"])) - 1 - q[..., 1])
            ok = (x >= 0) & (x < png.shape[1]) & (y >= 0) & (y < png.shape[0])
            ctx.check(ok.all(), "%s: some cells lie outside the picture" % name)
            e = np.abs(png[y, x][..., :3] - im["rgba"][..., :3]).max(-1)
            ctx.worst("pixel colour", float(e.max()) / 0.02)
            ctx.check(e.max() <= 0.02, "%s: a pixel in the middle of a cell has not the colour of its value" % name)
            ctx.count("pixels read", int(e.size))
        if nx > 1 and ny > 1 and nx != ny:
            ctx.count("not square")
        if np.ptp(a, axis=0).max() > 0 and np.ptp(a, axis=1).max() > 0 or nz > 1:
            ctx.nontrivial(case["seed"], name)
    ctx.check(len(set(layers)) == 1, "the panels show different layers %s" % layers)
    if nz > 1:
        ctx.count("several layers")
        s = [float(np.std(f64(sw)[:, :, k])) for k in range(nz)]
        ctx.check(s[layers[0]] >= max(s) - 1e-6, "layer %d is shown, water saturation varies more in layer %d" % (layers[0], int(np.argmax(s))), deviations=s)
    ctx.sample({"dims": case["dims"], "captions": [p["title"] for p in panels]})
