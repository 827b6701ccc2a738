"""C27: VTK export."""
import glob, json, os, shutil, subprocess, sys
import numpy as np
import gen, trace, vtr
from oil import load, build, case_fields, f64
from core import SRC

PROP = "C27"
RULE = ("Random grids (every shape, non-cubic spacing, different values in every cell, heterogeneous permeability) exported directly, after steps, and at the end of full runs by library and command line with the VTK option; the file is read back by "
        "an independent reader of the format: node counts and coordinates, and every cell's value at its own (i, j, k). Non-trivial: a file whose fields vary along at least two axes, distinct by case.")
ASSUMPTIONS = ["files are in the format pyevtk writes (rectilinear grid, raw appended data)"]
PLAN = {"quick": {"n": 900, "seconds": 45}, "thorough": {"n": None, "seconds": 400}}
REQUIRED = {"files": 200, "fields": 900, "after steps": 40, "full runs": 5, "one cell thick": 100, "long rows": 8, "runs without export": 1}


def prepare():
    load()
    import matplotlib
    matplotlib.rcParams["savefig.dpi"] = 40
    import output.vtk_writer


def case(rng, idx, tier):
    c = gen.base(rng, maxn=400)
    c["init"]["dP"] = 3.0; c["init"]["dsw"] = 0.2
    c["gs"] = [gen.rnd(rng.choice([0.1, 1.0, 10.0, 33.3, 150.0]) * rng.uniform(0.5, 2), rng.choice([2, 4, 6])) for _ in range(3)]
    c["how"] = rng.choice(["direct"] * 20 + ["steps"] * 5 + ["run"])
    if c["how"] == "direct" and rng.random() < 0.04:     # long in one direction
        c["dims"] = [rng.choice([130, 260, 300, 517]), rng.choice([1, 2, 3]), rng.choice([1, 2])]
        rng.shuffle(c["dims"])
    c["name"] = rng.choice(["out", "a.b", "x y", "case_final", "поле", "sub/out", "v1.2.3"])
    if c["how"] == "run":
        c["dims"] = [min(d, 4) for d in c["dims"]]
        c["name"] = rng.choice(["out", "p.1", "a b"])
        c["via"] = rng.choice(["lib", "lib", "cli", "off"])
        c.pop("het", None); c["from_config"] = True
        c["init"]["P"] = 20.0
    if c["how"] != "direct":
        c["gs"] = [max(g, 3.0) for g in c["gs"]]
        c["dt"] = [c["dt"][0] * 0.3] * rng.choice([1, 2])
        gen.add_wells(rng, c, nmax=3)
        if c["how"] == "run":
            c["wells"].append(gen.well(rng, c, 9))
        c["sim"] = {"cg_tolerance": 1e-8, "cg_max_iter": 1500}
    return c


def run(case, ctx):
    d = os.path.join(ctx.scratch, "run")
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    os.chdir(d)
    try:
        work(case, ctx, d)
    finally:
        os.chdir(ctx.scratch)
        shutil.rmtree(d, ignore_errors=True)


def work(case, ctx, d):
    L = load()
    from output.vtk_writer import save_to_vtk
    if case["how"] == "run":
        cfg = trace.configs(case, ctx.scratch)
        n = len(case["dt"])
        cfg["sim"].update(total_time_days=case["dt"][0] * n, time_step_days=case["dt"][0], save_npz=False)
        sim = trace.make(case, json.loads(json.dumps(cfg)))
        for dt in case["dt"]:
            if not sim.run_step(dt * 86400):
                break
        if case["via"] == "cli":
            conf = {"reservoir": cfg["reservoir"], "wells": cfg["wells"], "fluid": cfg["fluid"], "simulation": cfg["sim"], "output_filename": case["name"], "save_vtk": True}
            with open("conf.json", "w") as f:
                json.dump(conf, f)
            r = subprocess.run([sys.executable, os.path.join(SRC, "main.py"), "--config", "conf.json"], capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=SRC), timeout=100)
            ctx.check(r.returncode == 0, "the command line failed: %s" % r.stderr[-400:])
        else:
            s2 = trace.make(case, json.loads(json.dumps(cfg)))
            if case["via"] == "off":
                s2.run(case["name"])
            else:
                s2.run(case["name"], True)
    else:
        sim = build(case, ctx)
        if case["how"] == "steps":
            for dt in case["dt"]:
                sim.run_step(dt * 86400)
            ctx.count("after steps")
        if "/" in case["name"]:
            os.makedirs(os.path.join("results", os.path.dirname(case["name"])))
        before = {k: getattr(sim.fluid, k).clone() for k in ("pressure", "s_w", "s_o")}
        save_to_vtk(sim.reservoir, sim.fluid, case["name"])
        for k, v in before.items():
            ctx.check(bool((getattr(sim.fluid, k) == v).all()), "the export changed %s" % k)
    files = [os.path.join(r, f) for r, _, fs in os.walk("results") for f in fs if f.endswith(".vtr")]
    if case.get("via") == "off":
        ctx.check(not files, "a run without the VTK option wrote %s" % files)
        ctx.count("runs without export"); return
    ctx.check(len(files) == 1, "the export left %d grid files" % len(files), tree=[f for _, _, fs in os.walk("results") for f in fs])
    ctx.check(os.path.basename(files[0]) == os.path.basename(case["name"]) + ".vtr", "the export is called %s instead of %s" % (files[0], case["name"]))
    if case["how"] == "run":
        ctx.count("full runs")
    try:
        v = vtr.read(files[0])
    except Exception as e:
        ctx.fail("the exported file cannot be read: %s: %s" % (type(e).__name__, e))
    R, F = sim.reservoir, sim.fluid
    dims, gs = case["dims"], case["gs"]
    ctx.check(v["nodes"] == [n + 1 for n in dims], "the file has %s nodes for %s cells" % (v["nodes"], dims))
    for a in range(3):
        want = np.arange(dims[a] + 1) * gs[a]
        ctx.check(v["x"][a].shape == want.shape and np.abs(v["x"][a] - want).max() <= 2e-7 * max(want[-1], 1e-9), "nodes along axis %d are not at multiples of %.6g m" % (a, gs[a]), got=v["x"][a].astype(float))
    want = {"Pressure_MPa": f64(F.pressure) / 1e6, "Water_Saturation": f64(F.s_w), "Oil_Saturation": f64(F.s_o), "Permeability_H": f64(R.permeability_x), "Permeability_V": f64(R.permeability_z)}
    for k, w in want.items():
        ctx.check(k in v["cells"], "the file has no cell field %s" % k, have=sorted(v["cells"]))
        g = v["cells"][k].astype(float)
        bad = np.abs(g - w) > 2e-7 * np.abs(w) + 1e-30
        if bad.any():
            c = tuple(int(x) for x in np.argwhere(bad)[0])
            ctx.fail("%s of cell %s is %.9g in the file and %.9g in the model (%d of %d cells differ)" % (k, c, g[c], w[c], bad.sum(), bad.size))
        ctx.count("fields")
    ctx.count("files")
    if max(dims) > 128:
        ctx.count("long rows")
    if 1 in dims:
        ctx.count("one cell thick")
    if sum(np.ptp(want["Pressure_MPa"], axis=a).max() > 0 for a in range(3)) > 1:
        ctx.nontrivial(case["perm"], dims, case["how"])
    ctx.sample({"dims": dims, "nodes": v["nodes"], "name": case["name"]})
