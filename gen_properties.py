#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the anchors stay readable)."""
import json, os
S = "src/simulator/simulation.py"; F = "src/simulator/fluid.py"; W = "src/simulator/well.py"
R = "src/simulator/reservoir.py"; P = "src/simulator/pvt.py"; A = "src/solver/classical_amg.py"; PA = "src/solver/pressure_amg.py"
props = []
def p(id, title, statement, over, text, why, files, mech, observe):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe])))

p("C01", "Saturations stay physical and always sum to one",
  "After every completed IMPES time step, in every cell, water, gas and oil saturations are finite, lie between 0 and 1 and sum to 1 to float precision, and pressure is finite. A phase never drops below the smaller of its initial saturation and its critical (water, gas) or residual (oil) saturation, however large the time step, the rate or the contrast.",
  ["inputs", "configurations", "histories"], "every grid, rock, fluid, well set, step size and step sequence the IMPES solver accepts",
  "The tests look at a handful of small steps; the windows matter when a step overshoots, when two phases compete for a cell, or when a cell starts outside the window.",
  [S, F], [("saturation sub-steps and windows", S + ":_impes_saturation_step")], "fields after run_step")
p("C02", "A closed reservoir conserves each phase, step by step",
  "With no wells, an IMPES step moves phases between cells but neither creates nor destroys them: the pore volume of water and of gas summed over the grid (hence of oil) is unchanged to float accuracy, as long as no cell's explicit change overshoots its saturation window. Nothing crosses the outer boundary, and a phase with no mobility does not move at all.",
  ["inputs", "configurations", "histories"], "every closed reservoir, any heterogeneity, gravity, capillarity and initial field",
  "No test sums a phase over the grid; a one-sided flux or a boundary leak can be small in each cell and still pass every range check.",
  [S], [("divergence assembly and no-flow boundaries", S + ":_impes_saturation_step"), ("upstream choice", S + ":_impes_saturation_step")], "fields before and after run_step")
p("C03", "Every cell's saturation change equals its net two-point fluxes",
  "In each IMPES step the change of water and gas saturation in every cell equals dt over pore volume times the well source minus the sum over its faces of two-point fluxes: harmonic-mean permeability times face area over distance, times the mobility of the cell the phase leaves, times that phase's driving force at the new pressure (pressure difference, gravity with depth growing along the third index, gas-oil capillary pressure). The change is not applied beyond the saturation windows.",
  ["inputs", "configurations", "histories"], "every face orientation, grid spacing, anisotropy, heterogeneity, viscosity, relative permeability, PVT and gravity setting",
  "Tests assert ranges and trends; a wrong face area, upstream cell, viscosity or axis changes numbers that no test compares.",
  [S, F, R], [("transmissibilities", S + ":Simulator.__init__"), ("fluxes and divergence", S + ":_impes_saturation_step")], "fields before and after run_step")
p("C04", "Wells add exactly the configured phase and volume to their own cell",
  "In an IMPES step a reservoir-rate injector adds its configured daily volume times the step length of its configured phase (water by default) to its own cell, a reservoir-rate producer removes its volume split by the cell's phase mobilities, the global rate scale multiplies both, and several wells in one cell add up. No other cell receives a source and no other phase is affected; only the saturation windows and per-phase availability may reduce a rate, never increase it or change its sign.",
  ["inputs", "configurations", "histories"], "every well position, type, phase, rate, scale and well combination",
  "Tests check that saturation rises somewhere; they do not account for the volume, the cell and the phase split.",
  [S, W], [("well source loop", S + ":_impes_saturation_step"), ("availability choke", S + ":_impes_saturation_step")], "fields and per-well diagnostics after run_step")
p("C05", "The new pressure satisfies the discrete volume balance of every cell",
  "After every accepted IMPES step the new pressure satisfies, in each cell and summed over the grid, the implicit balance built from the state before the step: pore volume times total compressibility times pressure change over dt equals the net two-point total flux (harmonic permeability, upstream total mobility, gravity with depth growing along the third index, water-oil capillary term) plus the well terms (rate, or productivity index times mobility times drawdown). It holds to the solver tolerance and the precision in which pressure is stored.",
  ["inputs", "configurations", "histories"], "every grid, rock, fluid, PVT table, well set, step size and linear solver setting",
  "A test can only compare one solver of the repository with another; both share the assembly, so an error in a coefficient, sign or boundary cancels out.",
  [S, F, R], [("matrix assembly", S + ":_build_pressure_matrix_vectorized"), ("right-hand side", S + ":_build_pressure_rhs"), ("well terms", S + ":_calculate_well_terms")], "pressure before and after run_step")
p("C06", "Equilibrium is preserved and pressure has no spurious extrema",
  "Without wells, a reservoir at uniform pressure without gravity, or a column of one mobile phase at hydrostatic pressure, stays where it is for any number and length of steps, to the precision in which pressure is stored. Without gravity and capillarity the new pressures stay within the range of the old ones; an injector alone never lowers and a producer alone never raises any pressure, and a larger rate moves every pressure at least as far.",
  ["inputs", "configurations", "histories"], "every permeability contrast, compressibility, step length and number of steps",
  "Drift shows only with small compressibility, high permeability or many steps, in no tested configuration.",
  [S], [("pressure solve", S + ":_impes_pressure_step"), ("conjugate gradients", S + ":_solve_pressure_cg_pytorch")], "pressure history over several run_step calls")
p("C07", "Results do not depend on orientation, numbering or order of wells",
  "Mirroring a reservoir in either horizontal direction, exchanging its two horizontal axes, or listing its wells in another order gives the correspondingly transformed pressures, saturations and well rates. Two disconnected parts of a grid evolve as they would on their own.",
  ["inputs", "configurations", "histories"], "every heterogeneous field, anisotropic grid, well placement and step sequence",
  "Tests never run the same physical problem in two descriptions, so an error in one axis only is invisible.",
  [S, R, W], [("axis-wise assembly", S + ":_impes_pressure_step"), ("axis-wise fluxes", S + ":_impes_saturation_step")], "fields of paired runs")
p("C08", "Gravity sinks the heavy phase and lifts the light one",
  "In a closed laterally uniform column (third index growing downward) with zero capillary pressure, from any initial distribution, water denser than oil never rises and gas lighter than oil never sinks on average, and with enough steps mobile water collects at the bottom and mobile gas at the top. With equal densities or a single layer gravity has no effect.",
  ["inputs", "configurations", "histories"], "every column height, initial distribution, density order, permeability and step size",
  "No test runs a column to segregation; a wrong sign or upstream cell still gives saturations in range.",
  [S], [("phase potentials", S + ":_impes_saturation_step"), ("gravity in the right-hand side", S + ":_build_pressure_rhs")], "saturation profile over run_step calls")
p("C09", "Relative permeabilities are bounded, monotone and exact at endpoints",
  "For every saturation and parameter set, water, oil and gas relative permeabilities lie between 0 and their configured endpoints, are non-decreasing in their own saturation (oil non-increasing in water and gas), follow the configured Corey power law in between, water's vanishes at or below the critical saturation and two-phase oil's at residual oil. Stone II reduces to the two-phase curve without gas and never goes negative; values at a cell depend only on that cell's saturations.",
  ["inputs", "configurations"], "every saturation pair and every admissible Corey and Stone II parameter set",
  "Tests use default exponents and one saturation line.",
  [F], [("relative permeability", F + ":calc_water_kr, calc_oil_kr, calc_gas_kr, get_rel_perms")], "returned tensors")
p("C10", "Capillary curves and all analytic derivatives are consistent",
  "Water-oil and gas-oil capillary pressures are zero when the scale is zero, otherwise finite, positive and monotone power laws of normalised saturation. Every analytic derivative offered (relative permeabilities, both capillary pressures) equals the slope of the curve it belongs to wherever that curve is smooth, and is zero where the normalised saturation is clamped.",
  ["inputs", "configurations"], "every saturation inside the mobile range and every exponent, endpoint and scale",
  "No test differentiates anything; a derivative only shows in convergence.",
  [F], [("derivatives", F + ":calc_dkrw_dsw, calc_dkro_dsw, calc_dkrg_dsg, get_rel_perms_derivatives, get_capillary_pressure_derivative, get_capillary_pressure_og_derivative")], "returned tensors")
p("C11", "PVT tables are interpolated exactly and malformed ones rejected",
  "For every table and pressure, each PVT property is the piecewise-linear interpolant of its own column, exact at the nodes, clamped to the end values outside the table, independent of the order of the table's rows, of array shape and of other pressures in the call; a missing vaporised-oil column reads as zero. A table whose columns differ in length from the pressure column is refused.",
  ["inputs", "configurations"], "every table size, spacing and query pressure",
  "Tests query one regular table at a few pressures.",
  [P, F], [("interpolation", P + ":PVTTable.eval"), ("validation", P + ":PVTTable.__init__")], "returned arrays and exceptions")
p("C12", "Densities, viscosities and compressibility follow the fluid definition",
  "Reservoir densities follow the black-oil definition from the table (surface density plus dissolved gas in oil, plus vaporised oil in gas, over the formation volume factor) or, without a table, the linear compressibility law; viscosities come from the table or constants in Pa·s; the two ways of asking for a density agree. Total compressibility is rock plus the saturation-weighted relative slopes of the formation volume factors, or the configured constant without a table.",
  ["inputs", "configurations"], "every pressure, saturation, table and fluid constant",
  "Tests check one gas density value.",
  [F], [("densities and viscosities", F + ":rho_w, rho_o, rho_g, calc_*_density, mu_*"), ("compressibility", F + ":calc_total_compressibility")], "returned tensors")
p("C13", "Surface-rate wells deliver their target in surface volumes",
  "A surface-rate producer that is neither choked by availability nor limited reports, for the phase it controls (oil, water, gas or liquid), exactly the configured surface rate, where oil includes vaporised oil in the produced gas and gas includes gas dissolved in the produced oil. A surface-rate injector puts its rate times the formation volume factor of its phase at cell pressure into the cell; reported phase rates always match the reported total rate and the fluid state of the cell.",
  ["inputs", "configurations", "histories"], "every PVT table, pressure, saturation state, controlled phase and rate",
  "Tests evaluate one formula at one state for two phases.",
  [S, W], [("surface conversion", S + ":_impes_saturation_step")], "last_q_total, last_surface_rates and cell saturation change")
p("C14", "Phase limits cap producers and never raise or redirect a rate",
  "For every combination of oil, water, gas and liquid limits, the surface rates a rate-controlled producer reports after a step stay at or below each limit, the tightest limit is met exactly when it binds, and a limit that does not bind changes nothing. Limits never reverse or increase a rate, and the volume taken from the cell follows the limited rate.",
  ["inputs", "configurations", "histories"], "every limit set, rate, phase mix and PVT table, for surface- and reservoir-rate producers",
  "One test has one limit on one phase.",
  [S, W], [("limits", S + ":_impes_saturation_step")], "last_q_total, last_surface_rates and cell saturation change")
p("C15", "Pressure-controlled wells flow by productivity index times drawdown",
  "A well on bottom-hole pressure, including a rate producer that falls back to its minimum bottom-hole pressure, flows at Peaceman's index (2 pi k h over ln(r_o/r_w), r_o = 0.14 sqrt(dx^2+dy^2)) times total mobility times cell pressure minus well pressure, injecting when its pressure is higher and producing when lower, unless a phase limit caps it. A rate producer with a minimum pressure switches exactly when its rate would need a lower pressure, and otherwise behaves as if the minimum were absent.",
  ["inputs", "configurations", "histories"], "every permeability, cell size, radius, pressure, phase and minimum pressure",
  "Tests accept any reduction of the outflow, including none.",
  [S, W], [("well index", W + ":Well.__init__"), ("switch to minimum pressure", S + ":_calculate_well_terms"), ("pressure-controlled sources", S + ":_impes_saturation_step")], "fields, last_mode and well_index after run_step")
p("C16", "Component balance equals the wells' surface volumes over time",
  "With a PVT table, the cumulative oil and gas components in and out equal the time integral of each well's actual rate converted to surface volumes (dissolved and vaporised parts included) over all completed steps, each well counted once, and accumulated equals in minus out. They never decrease.",
  ["inputs", "configurations", "histories"], "every well set and step sequence with a PVT table",
  "The test checks accumulated = in - out, which holds by construction whatever is counted.",
  [S], [("component counters", S + ":_impes_saturation_step")], "component_balance against per-step well diagnostics")
p("C17", "The mass balance tracks exactly what the saturation fields did",
  "After any sequence of IMPES steps the cumulative in and out masses of each phase equal the sums over steps and cells of positive and negative saturation change times pore volume times that phase's density at the new pressure. They never decrease, phases do not mix, and failed steps add nothing.",
  ["inputs", "configurations", "histories"], "every step sequence, with and without wells and PVT",
  "The test only compares totals with a loose bound.",
  [S], [("mass tracker", S + ":_impes_saturation_step")], "mass_balance against field differences")
p("C18", "A failed step changes nothing; a retried step is a shorter step",
  "When the pressure solve fails for every time-step reduction, the step reports failure and leaves pressure, saturations and all balances exactly as before, so a later step is unaffected. When a reduced attempt succeeds, the resulting state is that of one clean step of the reduced length from the original state: failed attempts leave no trace.",
  ["fault_sequences", "configurations", "histories"], "every attempt limit, reduction factor and point of failure, with failures injected by solver limits",
  "No test makes the solver fail.",
  [S], [("retry loop", S + ":_impes_step")], "fields, balances and return value of run_step")
p("C19", "The choice of pressure solver does not change the answer",
  "For any solvable step, conjugate gradients, the multigrid option, and the double-precision option with any sensible tuning (coarsening threshold, levels, coarse size) give the same pressures and saturations up to their tolerances, equal to a direct solution of the same balance. Tightening the tolerance never worsens agreement.",
  ["inputs", "configurations"], "every grid, contrast, well set and solver setting that can converge",
  "One test compares two solvers on one nearly homogeneous grid with a loose bound.",
  [S, PA], [("solver selection", S + ":_impes_pressure_step"), ("multigrid entry", PA + ":amg_solve")], "pressure after run_step under each option")
p("C20", "The multigrid solver solves the system it is given",
  "For every symmetric positive definite pressure-like matrix and right-hand side, the multigrid solve with enough cycles meets the requested relative residual, whatever the scale, size, contrast, sparse layout or dtype of the input, and keeps the caller's dtype. The answer does not depend on systems solved before (cached hierarchies): re-solving after other systems of the same size meets the same tolerance, and neither matrix nor right-hand side is modified.",
  ["inputs", "histories", "configurations"], "every M-matrix of a grid or graph, any scale, and every order of solves sharing the cache",
  "One Laplacian and one right-hand side are tested, in a fresh process.",
  [PA, A], [("hierarchy cache", PA + ":amg_solve"), ("V-cycle", A + ":_v_cycle"), ("matrix update", A + ":update_matrix")], "returned vector")
p("C21", "Multigrid hierarchies are well formed and linear preconditioners",
  "At every level the interpolation rows are non-negative and sum to one (coarse cells interpolate only from themselves), every coarse matrix equals the Galerkin product of its parent, is symmetric and keeps the parent's row-sum total, also after the matrix is updated; grids shrink from level to level. A preconditioner cycle reduces the error of any right-hand side and is a linear map.",
  ["inputs", "configurations", "histories"], "every pressure-like matrix, threshold, level limit and coarse size, after any update",
  "The test inspects a residual only; a malformed hierarchy still converges slowly on an easy matrix.",
  [A, PA], [("coarsening and interpolation", A + ":classical_coarsening, build_prolongation_rs_full"), ("Galerkin product", A + ":rap_torch"), ("update", A + ":update_matrix")], "levels of a built hierarchy")
p("C22", "Runs are deterministic and simulators do not affect each other",
  "The same configuration and step sequence gives bit-identical fields, diagnostics and balances, in one process or several, whatever ran before. Stepping several simulators alternately gives each the result it has alone, and building or running one modifies neither its configuration dictionaries nor any other instance.",
  ["histories", "schedules", "configurations"], "every interleaving of steps of several simulators sharing a process and its caches",
  "Tests build one simulator at a time and never repeat it.",
  [S, PA, W, F], [("module-level hierarchy cache", PA + ":_AMG_CACHE"), ("per-instance state", S + ":Simulator.__init__")], "fields, balances, configuration dictionaries")
p("C23", "A full run does the configured steps and reports its final state",
  "A run performs total time over step length steps (a decimal ratio counts as exact), stops at the first failed one, writes an intermediate frame exactly at each multiple of the save interval, and an animation of these frames in time order and at the configured rate, followed by the final frame, each captioned with the day it shows. Every run has a results directory of its own and leaves earlier runs' files alone. The saved arrays and text summary equal the final fields and balances; the command line gives the same results as the library, and options to skip arrays or add full text arrays are honoured.",
  ["configurations", "histories", "fault_sequences"], "every total time, step length, save interval, output option and point of failure",
  "No test calls the run loop or reads its output.",
  [S, "src/main.py", "src/plotting/plotter.py", "src/utils.py"], [("run loop", S + ":run"), ("animation", S + ":_create_animation"), ("frames", "src/plotting/plotter.py:save_plots")], "files written by a run")
p("C24", "The learning environment is a faithful, resettable simulation",
  "Each environment step scales every well's current control by its action (up to 20 % of the rate, or 5 MPa), advances one configured time step, and returns the pressures (in units of 10 MPa) then water saturations as one float32 vector, the drop in oil mass in kilotonnes as reward, and termination exactly at the step limit. A reset restores the initial state so any action sequence replays identically, and a failed solve ends the episode with the penalty and no other effect.",
  ["histories", "configurations", "fault_sequences"], "every action sequence, reset point, step limit and configuration",
  "The environment has no tests.",
  ["src/rl_env.py"], [("step, reset, reward, observation", "src/rl_env.py:ReservoirEnv")], "return values of reset and step")
p("C25", "Configuration means what it says, in both accepted spellings",
  "Both well formats (coordinate triple with nested control, or separate fields) and both capillary formats build identical models; omitted options take their documented defaults; millidarcy, MPa, centipoise, 1/MPa and m3/day are converted once; vertical permeability is the stated fraction of horizontal. Malformed well entries, impossible initial saturations and unknown solver types are rejected with an error.",
  ["configurations", "inputs"], "every combination of optional keys, spellings and values",
  "Tests always use one spelling and never an invalid configuration.",
  [W, R, F, S], [("well parsing", W + ":WellManager.__init__"), ("unit conversion", R + ":Reservoir.__init__"), ("fluid options", F + ":Fluid.__init__")], "attributes of built objects and exceptions")
p("C26", "Generated PVT tables are physical and loadable",
  "For every admissible parameter set the generator writes a table of the requested size with pressure ascending from minimum to maximum, positive volume factors and viscosities, volume factors non-increasing with pressure, dissolved gas non-decreasing and constant above the bubble point, vaporised oil non-negative, oil viscosity falling up to the bubble point and not above it, water and gas viscosity never falling; the oil curves do not jump at the bubble point. The written file loads and evaluates to the generated values, through the library and the command line alike.",
  ["inputs", "configurations"], "every pressure range, size, bubble point, gravity and oil grade",
  "Tests read one committed table.",
  ["src/simulator/pvt_generator.py", P], [("correlations", "src/simulator/pvt_generator.py:generate_black_oil_pvt"), ("command line", "src/simulator/pvt_generator.py:main")], "returned and written tables")
p("C27", "Exported VTK grids place every value in its cell",
  "For every grid shape and spacing, the exported file has one more node than cells in each direction at exact multiples of the spacing, and each cell carries its own pressure in MPa, water and oil saturation and permeabilities, in the same orientation as the model.",
  ["inputs", "configurations"], "every grid shape, spacing and heterogeneous field",
  "The writer has no tests.",
  ["src/output/vtk_writer.py"], [("export", "src/output/vtk_writer.py:save_to_vtk")], "the written file, parsed back")
p("C28", "The fully implicit option keeps bounds and reports failure honestly",
  "Every fully implicit step leaves pressure between 0.1 and 100 MPa, water saturation within its mobile range and oil its complement, without invalid numbers; no Newton update changes a pressure by more than a tenth or 2 MPa, or a water saturation by more than 0.1. A step that does not converge at any attempted length returns failure and restores the state it started from; a closed uniform two-phase reservoir without gravity stays unchanged and succeeds.",
  ["inputs", "configurations", "histories", "fault_sequences"], "every two-phase configuration, step length and attempt limit",
  "No test runs the fully implicit option.",
  [S], [("Newton step", S + ":_fully_implicit_newton_step"), ("retry loop", S + ":_fully_implicit_step"), ("bounded update", S + ":_apply_newton_step")], "fields and return value of run_step")
p("C29", "Saved pictures show every cell of one layer at its labelled place",
  "Each saved picture shows, for one layer, pressure in MPa, water saturation and, only where some cell of the model holds gas, gas saturation: every cell at its own number along the axis captioned with its direction, with a colour scale that covers all the values drawn. The caption carries the given time and the layer, all panels show the same layer, the one in which water saturation varies most. Drawing leaves the fields untouched and no figure open.",
  ["inputs", "configurations"], "every grid shape and field, constant, degenerate or varied, with and without gas",
  "The plotter has no tests.",
  ["src/plotting/plotter.py"], [("pictures", "src/plotting/plotter.py:Plotter.save_plots")], "the finished figure and the written file")
p("C30", "Animations of a folder show each numbered picture once, in step order",
  "From any folder of pictures, the animation holds exactly the pictures whose name ends in a step number, ordered by that number whatever their names, sizes and number of digits, each unaltered (smaller ones padded to the largest) and shown for the time the frame rate asks for. A folder without such pictures gives no animation and no error; the pictures themselves are left as they were.",
  ["inputs", "configurations"], "every set of file names, step numbers, sizes and frame rates",
  "The function has no tests.",
  ["src/utils.py"], [("animation", "src/utils.py:create_animation")], "the written animation, decoded")
p("C31", "A multigrid preconditioner that is handed out can be relied on",
  "For every symmetric positive definite system a preconditioner is either refused with an error that says its quality is too low, or handed out; then it maps any vector to a finite one of the same shape and precision, zero to zero, repeatably and in proportion to the vector's scale, reduces the error in the energy norm, never slows conjugate gradients down, and leaves matrix and vector unchanged.",
  ["inputs", "configurations"], "every system, setting and vector",
  "The preconditioner has no tests.",
  ["src/solver/pressure_amg.py", "src/solver/classical_amg.py"], [("preconditioner", "src/solver/pressure_amg.py:amg_preconditioner")], "returned vectors")
p("C32", "The component log matches the balances and changes nothing else",
  "With the component log switched on, by configuration or environment, every field, rate, balance and return value is bit-identical to the run without it. The log is written where the configuration says (missing directories are made), otherwise to a new file of its own; a new simulator starts it afresh. Each accepted step adds one summary with the balances it reached and well lines that name well and cell and whose amounts add up to the step's change of the component balance; a failed step adds none of these.",
  ["histories", "configurations", "fault_sequences"], "every combination of wells, tables, failing steps and log places",
  "No test switches the log on.",
  [S], [("log", S + ":_dbg"), ("well lines and summary", S + ":_impes_saturation_step")], "the log file, read back after each step")
p("C33", "Whole runs follow Darcy's law, diffusion and displacement theory",
  "Run to steady state, a row of cells between two pressure-controlled wells takes the pressures and flow of Darcy's law with resistances in series, for any permeabilities, spacing, direction and tilt with gravity. In a closed uniform block of one mobile phase a cosine of pressure decays by the diffusion equation's rate. The mean pressure of a closed block follows the net injected volume over pore volume times total compressibility. Water injected at constant rate into a row displaces oil with the Buckley-Leverett profile, in any direction, and all of it is found in the row.",
  ["inputs", "configurations", "histories"], "every spacing, rock, fluid without a table, direction, flow rate, step length and number of steps",
  "Tests take a few steps and compare nothing with a known solution; an error that is small or consistent in each step shows in the run as a whole.",
  [S, W, "src/simulator/reservoir.py", F], [("pressure equation", S + ":_impes_pressure_step"), ("saturation step", S + ":_impes_saturation_step"), ("transmissibilities", S + ":Simulator.__init__")], "fields at the end of whole runs")
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w", encoding="utf-8") as f:
    for q in props:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
