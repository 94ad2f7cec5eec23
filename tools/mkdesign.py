#!/usr/bin/env python3
"""Writes DESIGN.md from the hand-written text below, properties.jsonl, the checks' docstrings/rules, known_findings.txt and seeded/*/meta.json."""
import ast, json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """# Verification of gandalfcode/gandalf by runtime monitoring and sanitizers

Generated by `tools/mkdesign.py` (texts live there, in the checks' docstrings and in `known_findings.txt`).

## Technique
Every property is decided by an oracle that observes executions of the real code, rebuilt from /repo's working tree with the project's own
options (g++ -w, asserts on, double precision) plus `-DGANDALF_VERIF_HOOKS`.  Workloads are generated from `VERIF_SEED`; each case is a complete
simulation (or thousands of calls of one component of it) in its own process and scratch directory.  The state that decides a property is recorded
at hook points *inside* a step (before/after the force loop, the flux loop, gravity, drag, sinks, N-body forces), after every step, or in the files a
run writes; it is then judged offline in Python by formulas written from the literature / the documentation, never by calling the code under test.
No check reads source text: refactorings that keep the behaviour keep every check quiet.

## Machinery
* `lib/vbuild.py` compiles /repo/src by content hash into variants: `plain`; `pat` (automatic variables initialised with a pattern, for C23);
  `asan` (clang, address + undefined behaviour); `vg` (for valgrind); `mpi`, `omp` (only used while developing).
* `cpp/gdrv.cpp` drives real simulations from a script and dumps the complete observable state (JSON header + raw doubles): particles,
  ghosts, stars, sinks, tree cells, scalars, the diagnostics record.  `cpp/gunit.cpp` calls kernels, Riemann solvers, limiters, viscosity, stellar tables and
  random numbers directly.
* `lib/vlib.py`: case runner (parallel processes, time-outs), bounds with recorded maxima, evidence, known findings, replay files.
* `lib/sphref.py`, `lib/riemref.py`, `lib/ewref.py`: reference formulas (explicit images, kernels, direct sums, exact Riemann solver, lattice sums).
* `lib/vgen.py`, `lib/vgas.py`: generators of particle sets, boxes and complete runs.
* `bin/check ID` (`--replay f`, `--case n`, `--list`; `VERIF_TIER`, `VERIF_SEED`, `VERIF_KEEP=1` keeps work directories).
* Hooks in /repo (`04b9b7b`): one-line `VERIF_HOOK("point")` calls, empty without `GANDALF_VERIF_HOOKS`.

A check exits 1 for a violation not listed in `known_findings.txt`, 3 when more than max(2, 20 %) of its cases gave no answer, and fails as inconclusive when
fewer than the minimum number of cases were non-trivial; evidence files record events seen, distinct cases and the largest deviation/limit of every bound.
Runs that stop with one of the code's own declared limits ("pressure > 0", "Smoothing length too large" ...) are counted separately ("limit"), because GANDALF does not
promise positivity; they never count as explored.

## What a violation can and cannot be
Tolerances are of three kinds: rounding (sums over recorded numbers, exact images, restarts: 1e-9..1e-13), the resolution of tabulated functions where the configuration
uses them, and documented approximations (multipole opening, Ewald grid, convergence order).  Bounds were calibrated on several seeds each with a margin of at least 1.4.
"""

NOTES = {
"C01": "Oracle: direct kernel sum over explicit images at the final h, the h-rho relation within h_converge, and omega/zeta from their definitions. Boundary images are generated independently of the ghost code. False alarms removed: the meshless density adds 1e-20 to d^2; Gaussian truncation shell; zeta of static particles after steps. Reach: every particle of every configuration, tests only compare profiles.",
"C02": "Oracle: pairwise SPH momentum/energy equation (mon97, mm97, cd2010; wadsley2008, price2008) at the force hook, recomputed from the recorded state of that moment, all pairs incl. images found by an independent KD search.",
"C03": "Oracle: direct kernel-softened double sum (gas-gas, star-gas, star-star); approximate tree results must lie within limits derived from multipole order and opening criterion, exact when opening everything. Includes potential, momentum balance of the exact case, ghosts and particle types.",
"C04": "Oracle: recursive recomputation of each cell from its particles; extrapolated cells are judged to their order only (they are not re-stocked by design).",
"C05": "Oracles: exact wrap/reflection arithmetic for each crossing, ghost-by-ghost comparison with the complete image set, paired shifted/doubled runs. False alarms removed: ghosts are only compared on fields that density sums read; Gaussian kernels (discontinuous edge) and block steps are excluded from paired runs.",
"C06": "Monitor of the integer time line (n, nlast, nstep, level, levelneib) over every step; any particle off its grid, stepping beyond its end or violating the neighbour rule is reported.",
"C07": "Ledger of conserved quantities over each step; energy compared with the integrator's exact second-order remainder and with convergence in the time step.",
"C08": "Ledger of Q+dQ over each step to rounding, per-particle consistency of primitive and conserved variables, stability of smooth pulses. Simple limiter with mirror walls and block steps is not exactly conservative by design and judged with a tolerance.",
"C09": "Independent exact solver, symmetry/Galilei/scale partners, bounds of limiters, shock tubes run by the solver object. HLLC relations only where its wave-speed estimates bracket the contact; 1e-20 pressure floor.",
"C10": "Recomputes predictor, direct forces/jerks/snaps and corrector of every star from the recorded start of its step; orders of convergence against a high-precision integration. DKD dumps only at full steps; softened Hermite below 3D is a known finding.",
"C12": "State before/after the sink stage compared body by body: created sinks against an independent search, accreted mass/momentum/spin/energy, removal of gas, schedule of accretion. Runs with stars exactly on gas are not generated.",
"C13": "Independent parsers of all formats plus write-read-write comparison. icm read as gas in column files and lite single precision are deliberate.",
"C14": "Pairs of runs across process boundaries; state right after restart, later states, file sets. Chaotic set-ups are judged for a limited number of steps.",
"C15": "Set of files, numbers, times and diagnostics rows against step boundaries of a silent run.",
"C25": "Re-runs the generators of the other checks in the AddressSanitizer/UBSan build and a part of them under Valgrind memcheck; the first frame in the code under test identifies a report. One memcheck report is listed in the check as benign (extent of the root of an empty tree). Not claimed: leaks, the Python layer, the MPI build (its behaviour is judged by C23).",
"C28": "Differences between paired set-ups with and without the field are compared with the analytic field to 1e-12, so that pressure and self-gravity do not have to be modelled. The code records -0.5 sum m gpot, so an external potential enters gpot twice: this is the documented convention of the oracle. Massless test stars are only followed with schemes whose time step is defined for them. Known finding: gas of the meshless schemes is not accelerated by the field (and the silcc potential, which adds nothing by construction in this tree, is not claimed).",
"C27": "Pairs of runs from transformed initial states, compared particle by particle after four steps to 1e-7. Tabulated kernels are a staircase, on which the smoothing length is only determined to a table entry, so exact kernels are used. Not claimed: boosts of the meshless schemes (deviations of up to 7e-3 after four steps were seen and not analysed further), general rotations of the meshless schemes (limiters work on components).",
"C16": "Reference parser over generated files against the parameter tables in memory; every provoked error must end the process in an orderly way. False alarms removed: numbers followed by other characters are accepted by design; options that a configuration never consults are not claimed to be validated (sub_system_integration without subsystems, snapshot formats before a snapshot is written, sink_radius_mode, sink_fb, grav_kernel, tinunit).",
"C17": "Independent table of units; the same physical problem in several unit systems; snapshots and generated initial conditions in two systems.",
"C18": "Quadrature and derivatives of each kernel against each other, tables against direct functions at table edges.",
"C19": "Defining formulas for each EOS and what particles carry at hooks. Energy equation of radws needs opacity tables that are not in the repository's tests; only the call level is judged.",
"C20": "Independent lattice sums (all periodicities) with interpolation error estimate; runs judged particle by particle and by translation.",
"C21": "The drag acceleration, heating and interpolation of each particle recomputed from the state right before the evaluation (pairwise projected semi-implicit update, analytic time average over the step); drift runs against exp(-t/ts), momentum, energy, paths of meshless particles. Mirror boundaries and block steps with two-fluid drag are refused by the code; LP2012 has no meaning for test particles.",
"C22": "Sums in extended precision against the record, its file and the energy error.",
"C23": "Pairs of runs compared bit for bit (repeat under other heap/stack contents, after another simulation in the process, with output) or to rounding (permutation, tree, leaf size; common steps, converged h).",
"C29": "Criteria recomputed from the state the decision is taken from; steps may never exceed them, global steps equal the minimum. Lower bounds are loose because levels also rise for neighbours and sinks.",
}
L = json.load(open(os.path.join(V, "tools", "levels.json")))
K = [l.strip() for l in open(os.path.join(V, "known_findings.txt")) if l.strip() and not l.startswith("#")]
out = [HEAD, "\n## Properties\n"]


def info(i):
    fn = os.path.join(V, "checks", i.lower() + ".py")
    if not os.path.exists(fn):
        return None
    t = ast.parse(open(fn).read())
    d = {"doc": ast.get_docstring(t) or ""}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS"):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    return d


for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    n, d = L.get(i), info(i)
    if n and "na" not in n and d:
        out.append("*Decided by:* %s.\n" % n["technique"].rstrip("."))
        if d.get("doc"):
            out.append("*Monitor:* " + " ".join(d["doc"].split()) + "\n")
        if d.get("RULE"):
            out.append("*Workload:* " + d["RULE"] + "\n")
        if d.get("ASSUMPTIONS"):
            out.append("*Assumptions:* " + "; ".join(d["ASSUMPTIONS"]) + "\n")
        if i in NOTES:
            out.append("*Notes:* " + NOTES[i] + "\n")
    else:
        out.append("Not claimed: %s\n" % ((n or {}).get("na") or "no check built yet for this property"))
    k = [x for x in K if "property=%s " % i in x]
    if k:
        out.append("Defects:\n")
        for x in k:
            out.append("* " + x)
        out.append("")
out.append("""
## Known findings and repairs
Genuine defects found by the monitors were repaired by one small `fix:` commit each in /repo (listed above, `fixed:`), or recorded (`known:`) where the repair is a
redesign: the softened jerk/snap of the Hermite schemes, the fixed ghost range of the meshless/SPH boundary images, the unstable meshless Runge-Kutta scheme, column restarts that
carry no counters, and snapshots read under other units.

Suspects seen in the code but not judged by a claimed check: MFV smooth accretion leaves the energy; perturber forces of all Hermite schemes in periodic boxes; star-gas
periodic gravity ignores images; `gaussrand` ignores mean and sigma; MPI column writer omits stars; restart files are overwritten in place; several radiation modules' unit expressions.

## What is out of reach here
* MPI runs: mpirun works in the sandbox but the checks stay single-process; domain decomposition is not claimed.
* OpenMP: the sources do not compile with `-fopenmp` under g++ 13 (default(none) clauses), so races are not claimed.
* Radiation transport (TreeMonteCarlo, ionisation) needs external tables and hours of run time.

## Planted bugs
Kept in `seeded/` (patch, demonstration, meta), each confirmed to build, pass the stable tests and fail its demonstration; `mutants.md` lists the much longer series of
scratch mutations used to find gaps, with what caught them.
""")
out.append("| id | property | needs | breaks |\n|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
out.append("")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
