#!/usr/bin/env python3
# writes MANIFEST.json
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
chk = {
 "C01": ("seeded schedules and layouts of simulated MPI ranks, bitwise and against one rank",
         "Every sampled problem: two schedules of one layout agree bit for bit (values, host states, journal); other layouts and reduction orders agree with one rank up to the rounding the reference model measures, and follow the same model path."),
 "C02": ("seeded rank interleavings, stalls and host errors; lock-step check of all collectives",
         "The simulated MPI compares operation, type, count, communicator and root at every meeting point and reports deadlock exactly; callbacks and evaluations are compared rank by rank."),
 "C03": ("energy walls, cliffs and plateaus injected into trial evaluations; monotonicity over the history",
         "Free energies are recomputed from the states the host received, not taken from the library alone."),
 "C04": ("transient and permanent energy disturbances; endings and bounds against an executable reference model",
         "Bounded progress in evaluations per iteration, restart-then-give-up rule, recovery to the undisturbed minimum after the disturbance stops."),
 "C05": ("every state of simulated runs checked for electron number, range and the smearing function",
         "Independent smearing formulas; electron number summed by the simulated host over all ranks at every evaluation."),
 "C06": ("every state of simulated runs, with forced long, short and repeated steps, checked in the host's overlap",
         "Overlap computed by the simulated host at every evaluation; limit follows the conditioning of the step."),
 "C07": ("history check of records and return values against the simulated host's states",
         "Energy, entropy and chemical potential of records and return value recomputed from the host's state at that moment."),
 "C08": ("history check of residuals against differences of the simulated host's free energy",
         "Residuals compared with finite differences along the library's own direction (reconstructed by the reference model) and with the model; convergence flag; stationarity by a longer run."),
 "C09": ("crashes between and inside writes, short and interrupted writes, rank timings; journal check after the crash",
         "A crash ends all simulated ranks at one chosen step; what the simulated disk then holds is judged against the host's own iteration marks."),
 "C10": ("file, stream and clock faults; bitwise comparison with the undisturbed run",
         "Each case is run with and without faults under the same schedule; everything but the log files has to be identical."),
 "C11": ("MPI, host, LAPACK, allocation and non-finite-energy faults at chosen occurrences on chosen ranks",
         "Each failing operation is made to fail in the real library code; the ending of every rank is classified and a normal return has to equal the undisturbed one."),
 "C12": ("seeded sequences of calls, some failing, in one simulated process; comparison with a fresh process",
         "Bitwise comparison of values, host states and journal; MPI objects, descriptors and live heap counted after repeated calls."),
 "C13": ("guarded, strided, reordered and relocated host buffers under simulated runs",
         "Guard bytes and padding checked at every host call, retired buffers poisoned and protected, numbers checked against the reference model."),
 "C14": ("refinement check of every evaluation against an executable reference model of the minimiser",
         "Every state the host is asked to evaluate is compared with the state the reference model asks for (density matrix and occupations)."),
}
common = " Seeded exploration, no proof: assurance is what the sampled schedules, layouts, problems and faults cover (counts in the evidence file). Real code: the whole of libnlcglib built from /repo's working tree with Kokkos, OpenBLAS, LAPACKE, libstdc++. Stubs: MPI, the host DFT code (small model with exact energies and gradients), clock; file calls pass through a fault layer to a scratch directory."
m = {"version": 1, "setup_cmd": "bash build.sh",
     "checks": [{"property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
                 "evidence_file": f"evidence/{p}.json", "technique": T + t, "level": "exploration", "level_note": n + common} for p, (t, n) in chk.items()],
     "not_applicable": [
       {"property": "C15", "reason": "No GPU, CUDA, ROCm or MAGMA in this sandbox: the code behind the property is not compiled and cannot run in a simulator."},
       {"property": "C16", "reason": "Pure functions of one real argument: no concurrency, time, I/O or multi-party behaviour for a simulation to control. (Their effect on a run is covered by C05, C07 and C08.)"}],
     "notes": "No hooks in /repo: all seams are link-time (MPI, LAPACKE, libc) or the library's own host interface. known_findings.txt lists defects found (all repaired by fix: commits)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
