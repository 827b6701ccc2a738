"""C24: the reinforcement learning environment."""
import copy, json, os
import numpy as np
import gen, trace
from oil import load, state
from ref import Model

PROP = "C24"
RULE = ("Environments built from random configuration files (all kinds of wells, tables, limits, IMPES options) are driven with random action sequences over several episodes, some interleaved with a second environment, with failures "
        "forced in between; a twin simulator built from the same configuration is given the controls computed by hand and stepped beside it. Compared after every call: controls, step length, observation bit for bit, reward against "
        "independently evaluated densities, flags, effect of failures, replay after reset. Non-trivial: a step that changed the oil mass, distinct by case, episode and step.")
ASSUMPTIONS = ["actions lie in the action space", "steps that fail by themselves are checked as failures"]
PLAN = {"quick": {"n": 500, "seconds": 40}, "thorough": {"n": None, "seconds": 500}}
REQUIRED = {"steps": 800, "episodes": 200, "failed steps": 40, "replayed": 50, "terminated": 150, "rate controls": 500, "bhp controls": 500, "rewards": 800, "two environments": 30}


def prepare():
    load()
    import rl_env


def case(rng, idx, tier):
    c = gen.base(rng, maxn=60, het=False)
    gen.add_wells(rng, c, nmax=4, surface=True, limits=rng.random() < 0.3, bhp_min=True)
    if not c["wells"]:
        c["wells"].append(gen.well(rng, c, 9))
    if rng.random() < 0.35:      # named in the order of the file, not of the alphabet
        for k, w in enumerate(c["wells"]):
            w["name"] = "W%d" % (9 - k)
    c["from_config"] = True
    c["sim"] = {"cg_tolerance": 1e-8, "cg_max_iter": 1500, "max_time_step_attempts": 2}
    if rng.random() < 0.85:
        c["sim"]["time_step_days"] = gen.rnd(c["dt"][0], 4)
    if rng.random() < 0.2:
        c["sim"]["pressure_solver"] = "amg"
    n = len(c["wells"])
    c["episodes"] = []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.choice([1, 2, 3, 5, 7])
        acts = [[gen.rnd(rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-0.2, 0.2)])) for _ in range(n)] for _ in range(k)]
        c["episodes"].append({"actions": acts, "fail": [rng.random() < 0.08 for _ in range(k)], "dtype": rng.choice(["float32", "float32", "float64"]), "seed": rng.choice([None, 0, 5])})
    if rng.random() < 0.5:
        c["episodes"].append(dict(copy.deepcopy(c["episodes"][0]), replay=0))
    c["max_steps"] = rng.choice([1, 2, 3, 5, 7, 365])
    c["other"] = rng.random() < 0.25
    c["first_reset"] = rng.random() < 0.8
    return c


def run(case, ctx):
    L = load()
    import rl_env
    cfg = trace.configs(case, ctx.scratch)
    path = os.path.join(ctx.scratch, "env.json")
    conf = {"reservoir": cfg["reservoir"], "wells": cfg["wells"], "fluid": cfg["fluid"]}
    if case["sim"]:
        conf["simulation"] = cfg["sim"]
    with open(path, "w", encoding="utf-8") as f:
        json.dump(conf, f)
    text = open(path).read()
    env = rl_env.ReservoirEnv(path, max_steps=case["max_steps"], device=L["cpu"])
    other = rl_env.ReservoirEnv(path, device=L["cpu"]) if case["other"] else None
    M = Model(case)
    nw = len(case["wells"]); N = int(np.prod(case["dims"]))
    ctx.check(env.action_space.shape == (nw,) and np.all(env.action_space.low == -1) and np.all(env.action_space.high == 1), "the action space is %s for %d wells" % (env.action_space, nw))
    ctx.check(env.observation_space.shape == (2 * N,), "the observation space is %s for %d cells" % (env.observation_space, N))
    days = case["sim"].get("time_step_days", 1.0)
    sim_of = lambda e: e.simulator
    past = []
    mass = lambda s: float((M.PV * s["so"] * M.rho("o", s["P"])).sum())

    def look(obs, sim, what):
        f = sim.fluid
        ctx.check(isinstance(obs, np.ndarray) and obs.dtype == np.float32 and obs.shape == (2 * N,), "%s: the observation is %s %s" % (what, getattr(obs, "dtype", type(obs)), getattr(obs, "shape", "")))
        want = np.concatenate([f.pressure.detach().cpu().numpy().ravel().astype(np.float64) / 1e7, f.s_w.detach().cpu().numpy().ravel().astype(np.float64)])
        dev = np.abs(obs - want) / (2e-7 * np.abs(want) + 1e-12)
        k = int(dev.argmax())
        ctx.check(dev[k] <= 1, "%s: entry %d of the observation is %.9g; the state gives %.9g" % (what, k, obs[k], want[k]))

    for e, ep in enumerate(case["episodes"]):
        twin = trace.make(case, trace.configs(case, ctx.scratch))
        if e == 0 and not case["first_reset"]:
            pass        # a new environment is already in its initial state
        else:
            r = env.reset(seed=ep["seed"])
            ctx.check(isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict), "reset returned %r" % (type(r),))
            look(r[0], twin, "reset %d" % e)
        ctx.count("episodes")
        done = 0
        st = state(twin)
        log = []
        for n, a in enumerate(ep["actions"]):
            act = np.array(a, dtype=ep["dtype"])
            keep_act = act.copy()
            tw = twin.well_manager.get_wells()
            want = []
            for w, x in zip(tw, act):
                v = w.control_value
                want.append(v + 0.2 * v * float(x) if w.control_type == "rate" else v + 5.0 * float(x))
                ctx.count("rate controls" if w.control_type == "rate" else "bhp controls")
            before = state(sim_of(env))
            force = ep["fail"][n]
            if force:
                ctx.count("forced")
                # every attempt of this step sees a model that cannot be solved
                keep_sat = env.fluid.pressure
                wells = [w for w in env.well_manager.get_wells() if w.control_type == "rate"]
                if not wells:
                    force = False
            if force:
                orig = [w.control_value for w in wells]
                for w in wells:
                    w.control_value = float("nan")
            seen = []
            sim = sim_of(env); f0 = sim.run_step
            sim.run_step = lambda *p, **k: (seen.append(p[0] if p else k.get("dt")), f0(*p, **k))[1]
            try:
                out = env.step(act)
            finally:
                del sim.run_step
                if force:
                    for w, v, x in zip(wells, orig, [want[k] for k, q in enumerate(env.well_manager.get_wells()) if q.control_type == "rate"]):
                        w.control_value = x
            what = "episode %d step %d" % (e, n)
            ctx.check(isinstance(out, tuple) and len(out) == 5, "%s returned %d values" % (what, len(out)))
            obs, rew, term, trunc, info = out
            ctx.check(np.array_equal(act, keep_act), "%s modified the action" % what)
            ctx.check(len(seen) == 1 and abs(seen[0] - days * 86400) <= 1e-9 * days * 86400, "%s ran steps of %s s; configured are %.9g days" % (what, seen, days))
            for k, (w, v, t) in enumerate(zip(env.well_manager.get_wells(), want, tw)):
                ctx.check(abs(w.control_value - v) <= 3e-7 * max(abs(v), 5.0 if w.control_type == "bhp" else 0), "%s: well %d is controlled at %.9g after action %.6g on %.9g (%s); expected %.9g" % (what, k, w.control_value, act[k], t.control_value, w.control_type, v))
                t.control_value = w.control_value
            if force:
                ok = False
            else:
                ok = bool(twin.run_step(days * 86400))
            new = state(twin)
            if not all(np.isfinite(v).all() for v in new.values()):
                ctx.count("not finite"); return
            look(obs, twin, what)
            now = state(sim_of(env))
            for k in now:
                ctx.check(np.array_equal(now[k], new[k]), "%s: %s differs from a simulator under the same controls" % (what, k))
            ctx.check(isinstance(term, (bool, np.bool_)) and trunc is False or trunc == False, "%s: truncated is %r" % (what, trunc))
            if not ok:
                ctx.check(rew == -1000.0 and term is True and info.get("converged") is False, "%s failed but returned reward %r, terminated %r, info %r" % (what, rew, term, info))
                for k in now:
                    ctx.check(np.array_equal(now[k], before[k]), "%s failed but changed %s" % (what, k))
                ctx.count("failed steps")
            else:
                done += 1
                ctx.check(bool(term) == (done >= case["max_steps"]), "%s: terminated is %r after %d of %d steps" % (what, term, done, case["max_steps"]))
                ctx.check(info.get("converged") is True, "%s succeeded; info is %r" % (what, info))
                m0, m1 = mass(st), mass(new)
                tol = 1e-6 * (abs(m0) + abs(m1)) + 1e-6
                dev = abs(rew * 1e6 - (m0 - m1)) / tol
                ctx.worst("reward", dev)
                ctx.check(dev <= 1, "%s: reward %.9g; the oil mass fell by %.9g kg" % (what, rew, m0 - m1), m0=m0, m1=m1)
                ctx.count("rewards")
                if abs(m0 - m1) > 20 * tol:
                    ctx.count("rewards well above rounding")
                    ctx.nontrivial(case["perm"], e, n, a)
                st = new
                if term:
                    ctx.count("terminated")
            log.append((obs.copy(), float(rew), bool(term)))
            ctx.count("steps")
            if other is not None and n % 2 == 0:
                other.step(np.full(nw, 0.5, dtype=np.float32))
                ctx.count("two environments")
        past.append(log)
        if "replay" in ep and (case["first_reset"] or True):
            old = past[ep["replay"]]
            for n, (x, y) in enumerate(zip(old, log)):
                ctx.check(np.array_equal(x[0], y[0]) and x[1:] == y[1:], "the same actions after a reset give another result at step %d" % n)
            ctx.count("replayed")
    ctx.check(open(path).read() == text, "the configuration file was modified")
    ctx.sample({"actions": case["episodes"][0]["actions"][:2], "rewards": [x[1] for x in past[0]][:3]})
