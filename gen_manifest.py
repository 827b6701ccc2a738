"""python3 gen_manifest.py: write MANIFEST.json from the table below."""
import json
T = {
 "C01": "online state monitor after every step of hostile random runs",
 "C02": "conservation monitor over closed random runs (whole grid, parts, isolated cells)",
 "C03": "per-cell flux oracle: observed saturation change against an independent float64 two-point reference",
 "C04": "per-cell source accounting monitor on isolated and flowing cells",
 "C05": "residual monitor: independently assembled float64 balance at the observed pressures",
 "C06": "drift, range and ordering monitors over equilibrium and monotone-response runs",
 "C07": "metamorphic twin runs (mirror, axis exchange, well order, disconnected parts)",
 "C08": "trend monitor of phase mean depths over long closed-column runs",
 "C09": "value oracle, bounds and monotonicity monitors over generated curves",
 "C10": "value oracle and Richardson slope monitor over generated curves",
 "C11": "independent interpolation oracle over generated tables; rejection monitor for damaged tables",
 "C12": "independent density, viscosity and compressibility oracle over generated fluids and grids",
 "C13": "rate monitor: reported rates and cell volumes against an independent conversion",
 "C14": "limit monitor with unlimited twin runs",
 "C15": "Peaceman rate oracle, volume-balance monitor and switched twin runs",
 "C16": "component ledger checked after every step of recorded histories",
 "C17": "phase-mass ledger recomputed from observed fields after every step",
 "C18": "fault injection with rollback monitor and clean-step twins",
 "C19": "solver differential: twin solves, dense reference and tolerance-derived bounds",
 "C20": "true-residual monitor over chains of solves sharing caches",
 "C21": "structural monitor of every hierarchy level; linearity and energy-norm probes",
 "C22": "exact trace digests of interleaved, repeated and separate-process runs",
 "C23": "full-run observer: steps, files, drawn frames and animation against a hand-stepped twin, with faults",
 "C24": "environment trace against a hand-controlled twin simulator, with forced failures and replays",
 "C25": "configuration differential runs, unit oracles and rejection monitor",
 "C26": "table monitor over generated parameters, re-read through every loader",
 "C27": "independent reader of the exported files against the model's cells",
 "C28": "bounds, retry and rollback monitors with injected solver faults",
 "C29": "finished figures read back and compared with the model cell by cell",
 "C30": "decoded animations compared with the pictures of generated folders",
 "C31": "map monitors on the handed-out preconditioner against dense algebra",
 "C33": "whole runs compared with closed-form solutions (series resistance, diffusion modes, tank balance, Buckley-Leverett)",
 "C32": "differential runs with and without the log, which is read back after each step",
}
TRUST = "Runs the real code of the working tree under generated workloads; assures what the monitors observed within the stated bounds (small grids, CPU), not every input. Trusts the independent float64 reference in /verif/lib and the tolerances derived in DESIGN.md."
M = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": TRUST} for p, t in sorted(T.items())],
     "not_applicable": [],
     "notes": "No hooks are committed in /repo: monitors wrap public objects at run time."}
json.dump(M, open("MANIFEST.json", "w"), indent=1)
