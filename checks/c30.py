"""C30: animations made from a folder of pictures."""
import os
import numpy as np
from oil import load

PROP = "C30"
RULE = ("Random folders: 0-130 numbered pictures (step numbers of very different lengths, leading zeros, several prefixes, equal and different sizes, with and without transparency channel, repeated pictures) among other files (pictures without number, "
        "other endings, subfolders); the animation is decoded and compared picture by picture, with its timing. Non-trivial: an animation of at least two different pictures whose order by name is not the order by number, distinct by case.")
ASSUMPTIONS = ["opaque pictures of few colours (the format stores at most 256 per frame exactly)", "0.5 to 50 pictures per second, divisors of 100 exact and others within the 10 ms of the format"]
PLAN = {"quick": {"n": 1500, "seconds": 25}, "thorough": {"n": None, "seconds": 200}}
REQUIRED = {"animations": 300, "frames": 1500, "mixed sizes": 60, "empty folders": 30, "repeated pictures": 60, "order by name differs": 150, "two pictures of one step": 50}


def prepare():
    load()
    import utils
    from PIL import Image


def case(rng, idx, tier):
    n = rng.choice([0, 1, 2, 3, 4, 6, 9, 12]) if rng.random() > 0.02 else rng.choice([40, 130])
    top = rng.choice([9, 12, 120, 10 ** 6, 10 ** 12])
    steps = rng.sample(range(0, max(top, n) + 1), n)
    rng.shuffle(steps)
    sizes = [[rng.choice([8, 20, 40]), rng.choice([9, 24, 60])] for _ in range(n)] if rng.random() < 0.4 else [[rng.choice([8, 20, 40]), rng.choice([9, 24, 60])]] * n
    if n < 40 and rng.random() < 0.05:
        sizes = [[rng.choice([20, 300, 900]), rng.choice([24, 400, 1300])] for _ in range(n)]
    return {"steps": steps, "sizes": sizes, "prefix": rng.choice(["field", "plot_step_3", "a b", "поле", "", "_", "-x", ".h", "F", "[a]", "%d", "9", "x" * 90]), "two": rng.random() < 0.2, "mode": rng.choice(["RGBA", "RGBA", "RGB"]),
            "zeros": rng.random() < 0.2, "repeat": rng.random() < 0.25, "other": rng.random() < 0.6, "fps": rng.choice([None, 1, 2, 4, 5, 10, 20, 25, 3, 7, 0.5, 2.5, 12.5, 50]), "inside": rng.random() < 0.3,
            "old": rng.random() < 0.3, "seed": rng.randrange(10 ** 9), "same": n > 1 and rng.random() < 0.12}


def paint(r, size, mode):
    a = np.zeros((size[0], size[1], 3), np.uint8)
    a[:] = 85 * r.integers(0, 4, 3)
    for _ in range(int(r.integers(1, 4))):
        y, x = int(r.integers(size[0])), int(r.integers(size[1]))
        a[y:y + int(r.integers(1, 9)), x:x + int(r.integers(1, 9))] = 85 * r.integers(0, 4, 3)
    return np.dstack([a, np.full(size, 255, np.uint8)]) if mode == "RGBA" else a


def run(case, ctx):
    import shutil
    from PIL import Image, ImageSequence
    from utils import create_animation
    r = np.random.default_rng(case["seed"])
    d = os.path.join(ctx.scratch, "pics")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    made = []
    for k, n in enumerate(case["steps"]):
        if case["repeat"] and k % 2 and case["sizes"][k] == case["sizes"][k - 1]:
            a = made[-1][2]
            ctx.count("repeated pictures")
        else:
            a = paint(r, case["sizes"][k], case["mode"])
        pre = case["prefix"] + ("2" if case["two"] and k % 3 == 1 else "")
        name = "%s_step_%s.png" % (pre, ("%05d" % n) if case["zeros"] else n)
        Image.fromarray(a).save(os.path.join(d, name))
        made.append((n, name, a))
    if case["same"]:            # two pictures of one step
        n = case["steps"][0]
        name, a = "%s_step_%s.png" % (case["prefix"], "00" + made[0][1].split("_step_")[-1][:-4]), paint(r, case["sizes"][0], case["mode"])
        Image.fromarray(a).save(os.path.join(d, name))
        made.append((n, name, a))
        ctx.count("two pictures of one step")
    if case["other"]:
        for name in ("legend.png", "field_step_.png", "field_step_7.png.txt", "field_step_5.jpg", "field_step_4_old.png", "field_step_x.png"):
            if name.endswith(".png"):
                Image.fromarray(paint(r, [10, 10], "RGB")).save(os.path.join(d, name))
            else:
                open(os.path.join(d, name), "w").write("x")
        os.makedirs(os.path.join(d, "sub"))
        Image.fromarray(paint(r, [10, 10], "RGB")).save(os.path.join(d, "sub", "field_step_1.png"))
    keep = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d) if os.path.isfile(os.path.join(d, f))}
    out = os.path.join(d if case["inside"] else ctx.scratch, "anim.gif")
    if os.path.exists(out):
        os.remove(out)
    if case["old"]:
        Image.new("RGB", (5, 5)).save(out)
    stale = open(out, "rb").read() if case["old"] else None
    kw = {} if case["fps"] is None else {"fps": case["fps"]}
    fps = case["fps"] or 5
    create_animation(d, out, **kw)
    now = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d) if os.path.isfile(os.path.join(d, f)) and f != "anim.gif"}
    ctx.check({k: v for k, v in keep.items() if k != "anim.gif"} == now, "the folder of pictures was changed")
    made.sort(key=lambda m: m[0])
    if not made:
        ctx.check((open(out, "rb").read() if os.path.exists(out) else None) == stale, "an animation was written from a folder without numbered pictures")
        ctx.count("empty folders")
        return
    ctx.check(os.path.exists(out), "no animation was written for %d pictures" % len(made))
    big = [max(m[2].shape[a] for m in made) for a in (0, 1)]
    g = Image.open(out)
    got = [(np.asarray(f.convert("RGB")), f.info.get("duration", 0)) for f in ImageSequence.Iterator(g)]
    orders = [made]
    for k in range(len(made) - 1):              # pictures of one step: either order
        if made[k][0] == made[k + 1][0]:
            orders.append(made[:k] + [made[k + 1], made[k]] + made[k + 2:])
    all_runs = []
    for order in orders:
        runs = []                               # equal pictures in a row may be stored once, shown longer
        for n, name, a in order:
            f = np.full(big + [3], 255, np.uint8)
            f[:a.shape[0], :a.shape[1]] = a[..., :3]
            if runs and np.array_equal(runs[-1][0], f):
                runs[-1][1] += 1
            else:
                runs.append([f, 1])
        all_runs.append(runs)
    seq = []
    for f, t in got:
        if seq and np.array_equal(seq[-1][0], f):
            seq[-1][1] += t
        else:
            seq.append([f, t])
    runs = next((x for x in all_runs if len(x) == len(seq) and all(f.shape == w.shape and (np.abs(f.astype(int) - w.astype(int)) <= 2).all() for (f, _), (w, _) in zip(seq, x))), all_runs[0])
    ctx.check(len(seq) == len(runs), "the animation shows %d different pictures in a row, the folder holds %d" % (len(seq), len(runs)), steps=[m[0] for m in made])
    for k, ((f, t), (w, m)) in enumerate(zip(seq, runs)):
        ctx.check(f.shape == w.shape, "frame %d measures %s; the largest picture measures %s" % (k, f.shape[:2], tuple(big)))
        bad = (np.abs(f.astype(int) - w.astype(int)).max(-1) > 2).mean()
        ctx.check(bad == 0, "frame %d of the animation is not picture number %d in step order (%.0f %% of the pixels differ)" % (k, k, 100 * bad), steps=[m[0] for m in made])
        if len(runs) > 1:
            ctx.check(abs(t - m * 1000.0 / fps) <= 10.0 * m, "frame %d is shown %s ms at %s pictures per second" % (k, t, fps))
        ctx.count("frames", m)
    ctx.count("animations")
    if len({m[2].shape for m in made}) > 1:
        ctx.count("mixed sizes")
    if [m[1] for m in made] != sorted(m[1] for m in made) and len(runs) > 1:
        ctx.count("order by name differs")
        ctx.nontrivial(case["seed"])
    ctx.sample({"steps": [m[0] for m in made], "fps": fps})
