"""Histories for the accounting and failure checks: sequences of steps in which some fail on purpose."""
import copy
import gen


def history(rng, c, fail=True):
    """adds c['steps']: list of {dt (days), how: ok | nan | tight}"""
    n = rng.choice([1, 2, 3, 5, 8])
    c["steps"] = [{"dt": gen.rnd(c["dt"][0] * rng.choice([0.1, 0.5, 1.0, 1.0, 2.0])), "how": "ok"} for _ in range(n)]
    if fail and c["wells"] and any(w["control"]["type"] == "rate" for w in c["wells"]):
        for s in c["steps"]:
            if rng.random() < 0.25:
                s["how"] = "nan"
        c["sim"]["cg_max_iter"] = 150       # keeps failing steps cheap (each attempt runs five times this)
        if rng.random() < 0.8:
            c["sim"]["max_time_step_attempts"] = rng.choice([1, 2, 3])
    if fail and rng.random() < 0.3:
        # a solver that may run out of iterations: steps fail or succeed at a reduced length
        c["sim"]["cg_max_iter"] = rng.choice([1, 2, 3, 5, 8])
        c["sim"]["cg_tolerance"] = rng.choice([1e-6, 1e-9])
    if fail and rng.random() < 0.3:
        c["sim"]["max_time_step_attempts"] = rng.choice([1, 2, 4, 7])
    if fail and rng.random() < 0.3:
        c["sim"]["dt_reduction_factor"] = rng.choice([1.5, 3.0, 10.0])
    return c


def step(sim, s):
    """-> (returned value, list of lengths in seconds the step may have had)"""
    dt = s["dt"] * 86400.0
    if s["how"] == "nan":
        w = [w for w in sim.well_manager.get_wells() if w.control_type == "rate"][0]
        keep = w.control_value
        w.control_value = float("nan")
        try:
            return sim.run_step(dt)
        finally:
            w.control_value = keep
    return sim.run_step(dt)


def lengths(case, s):
    f = case["sim"].get("dt_reduction_factor", 2.0)
    return [s["dt"] * 86400.0 / f ** k for k in range(case["sim"].get("max_time_step_attempts", 5))]
