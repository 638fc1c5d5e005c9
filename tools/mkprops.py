import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=None)))
def m(n,w): return dict(name=n,where=w)
NOT="No test runs the minimiser at all (the build notes say src/nlcglib.cpp, mvp2, free_energy, pseudo_hamiltonian, linesearch and ultrasoft code are compiled but never executed); "
p("C01","The result does not depend on how k-points are spread over MPI ranks",
 "For one physical problem the minimisation gives the same result (convergence flag, free energy, entropy term, chemical potential, occupations and the free energy of every step, to rounding) for every number of MPI ranks and every assignment of k-points and spins to them, including ranks that hold different numbers of k-points. For a fixed assignment the result is bit-for-bit the same whatever the relative speed of the ranks.",
 ["schedules","configurations","inputs"],"all rank counts, all assignments of (k-point, spin) blocks to ranks (unequal, non-contiguous, any order, different basis sizes), all arrival orders at collectives, all orders in which a reduction adds its terms",
 NOT+"two smoke programs run with 2 ranks and one block per rank, and compare nothing across rank counts or timings.",
 ["src/la/mvector.hpp","src/mpi/communicator.hpp","src/mpi/mpi_type.hpp","src/smearing.hpp","src/pseudo_hamiltonian/grad_eta.hpp","src/mvp2/descent_direction.hpp","src/free_energy.hpp"],
 [m("variable-count gather of keyed blocks","src/la/mvector.hpp mvector::allgather"),m("global sums over the k-point communicator","src/la/mvector.hpp sum(), src/mpi/communicator.hpp allreduce"),m("global search for the chemical potential on gathered eigenvalues","src/smearing.hpp occupation_from_mvector*")],
 observe=["return values on every rank","states handed to the host","nlcg.json"])
p("C02","Ranks stay in step and no timing of the ranks deadlocks",
 "On every path through a call (ordinary iterations, restart to steepest descent, failed line search, convergence, giving up, iteration limit, an error that the host raises on all ranks) all ranks take part in the same sequence of collective operations and host energy evaluations, with matching types, counts and communicator. Therefore no timing of the ranks can deadlock or mismatch, and all ranks leave the call in the same way with the same values.",
 ["schedules","fault_sequences","configurations"],"all interleavings of the ranks between collectives, stalls of any rank at any point, and all host energy histories that drive the run through each of its branches",
 NOT+"collectives are exercised with at most two ranks on one straight-line path and with the timing of one machine.",
 ["src/nlcglib.cpp","src/linesearch/linesearch.hpp","src/mvp2/descent_direction.hpp","src/smearing.hpp","src/la/mvector.hpp"],
 [m("every branch condition is computed from globally reduced values","src/nlcglib.cpp nlcg_us loop; src/linesearch/linesearch.hpp"),m("collective gathers are executed by all ranks even where only one writes","src/nlcglib.cpp cg_write_step_json")],
 observe=["sequence of MPI calls per rank","host evaluation count per rank","return values per rank"])
p("C03","The free energy never rises from one iteration to the next",
 "Whatever energy landscape the host presents (including barriers, jumps, walls and plateaus that make trial steps go uphill), the free energy at the start of each iteration is never higher than at the start of the previous one, except by the rounding of evaluating the same state twice. A trial point with higher free energy than the start of its iteration is never kept, neither by the quadratic step nor by backtracking.",
 ["fault_sequences","histories","inputs"],"all sequences of energies returned for trial points, all smearings, temperatures, k-point sets and rank layouts, all iterations of a run",
 NOT+"so no accepted or rejected step is ever examined; only adversarial energies at chosen evaluations reach the rejection, backtracking and re-evaluation branches.",
 ["src/linesearch/linesearch.hpp","src/nlcglib.cpp"],
 [m("quadratic step is rejected when it does not lower the energy","src/linesearch/linesearch.hpp qline"),m("backtracking accepts only a strictly lower energy, otherwise returns to the start","src/linesearch/linesearch.hpp bt_search")],
 observe=["host evaluations between two iteration marks","F in nlcg.json","returned F"])
p("C04","Transient line-search failures are survived and every call ends",
 "Every call ends after at most maxiter iterations, with a bounded number of energy evaluations in each, whatever finite energies the host reports. A line search that fails once makes the run go back to the point it started from, restart with steepest descent and continue; only a line search that fails again right after such a restart ends the run, and then as not converged. Once disturbances of the energies stop, the run converges to the same minimum as an undisturbed run.",
 ["fault_sequences","schedules"],"all patterns of transient energy errors (which evaluations, how many in a row, at which iteration), all rank layouts and schedules",
 NOT+"no test drives a line search into failure, let alone twice, or at a particular iteration.",
 ["src/linesearch/linesearch.hpp","src/nlcglib.cpp"],
 [m("one-shot restart flag","src/linesearch/linesearch.hpp bt_search force_restart; src/nlcglib.cpp"),m("iteration limit","src/nlcglib.cpp nlcg_us for loop"),m("bounded backtracking and trial-step growth","src/linesearch/linesearch.hpp")],
 state=[dict(name="force_restart",meaning="previous line search failed or its direction was uphill",where="src/nlcglib.cpp nlcg_us")],
 observe=["host evaluations","return value","nlcg.json"])
p("C05","Electrons are conserved in every state handed to the host",
 "Every set of occupation numbers handed to the host, at trial steps as well as accepted ones, is the chosen smearing function at one chemical potential common to all ranks, and that chemical potential is the one reported to the host. With the k-point weights it sums over all ranks to the electron number (to 1e-9 for Fermi-Dirac, Gaussian and Gaussian-spline smearing, whose occupations also lie between 0 and the maximum; within 1e-2 for Methfessel-Paxton and cold smearing). If no chemical potential gives the electron number, the call throws instead of going on.",
 ["inputs","configurations","histories"],"all eigenvalue spectra met along a run (metals, gaps, degeneracies, far from zero), electron numbers from nearly empty to full, temperatures, smearings, weights, spin treatments and distributions of k-points, every evaluation of a run",
 "The smearing test runs one spectrum on one smearing, checks no sum, and cannot reach the spectra, distributions and trial steps that occur inside a run.",
 ["src/smearing.hpp","src/dft/newton_minimization_smearing.hpp","src/free_energy.hpp","src/utils/env.hpp"],
 [m("bracketing search with tolerance 1e-11","src/smearing.hpp find_chemical_potential"),m("Newton search with fallback","src/dft/newton_minimization_smearing.hpp, src/smearing.hpp occupation_from_mvector_newton"),m("chemical potential from globally gathered eigenvalues","src/smearing.hpp")],
 observe=["set_fn and set_chemical_potential calls of every rank","eta, fn, fermi_energy in nlcg.json"])
p("C06","Wave functions handed to the host are orthonormal in the overlap metric",
 "In every state the library hands to the host for an energy evaluation (trial steps of any length, accepted steps, re-evaluations after a failed line search, last iterations), the wave functions of every k-point are orthonormal with respect to the host's overlap operator, to numerical precision. This does not degrade with the number of iterations or of failed line searches.",
 ["inputs","histories","fault_sequences"],"all steps of all runs: any step length chosen by the line search (including very long and very short ones forced by the energies), any overlap operator, basis size, number of bands and distribution",
 NOT+"the orthonormalisation is only reached through the minimiser and its error can only be seen along whole runs.",
 ["src/geodesic.hpp","src/la/lapack.hpp","src/la/lapack_cpu.hpp","src/overlap.hpp","src/operator.hpp"],
 [m("Loewdin orthonormalisation after each step","src/geodesic.hpp advance_x; src/la/lapack.hpp loewdin")],
 observe=["wave functions in the host's memory at each energy evaluation"])
p("C07","The reported free energy is that of the state left in the host",
 "At every iteration, and in the returned values, the reported free energy is the host's total energy of the current state plus minus temperature times the entropy of the chosen smearing, the entropy being summed with the k-point weights over all ranks and the maximum occupation; the Kohn-Sham energy and the Fermi energy in the records are those of the same state. When a call returns converged, the wave functions, occupations and chemical potential last given to the host are exactly the state that the returned values describe.",
 ["histories","inputs","configurations","fault_sequences"],"every iteration of every run, all smearings, maximum occupation 1 and 2, all distributions, runs with rejected trial steps just before the end",
 NOT+"no test compares a reported energy with a state.",
 ["src/free_energy.hpp","src/nlcglib.cpp","src/smearing.hpp","src/linesearch/linesearch.hpp"],
 [m("energy and entropy evaluated together at each trial point","src/free_energy.hpp FreeEnergy::compute"),m("the accepted trial point is the last one evaluated","src/linesearch/linesearch.hpp")],
 observe=["host state at iteration marks and at return","nlcg.json","return value"])
p("C08","The residual is the true slope of the free energy and decides convergence",
 "The residual that the library reports in its records and return value, and compares with the tolerance, is the rate of change of the free energy along its search direction at the reported state, for every smearing, spin treatment, k-point set and distribution. A call returns converged exactly when the absolute value of that residual fell below the tolerance within the allowed iterations, and the state it then leaves is stationary: a longer run with a tighter tolerance finds no materially lower free energy nearby.",
 ["inputs","histories","configurations","fault_sequences"],"all iterations (steepest-descent and conjugate), all smearings, occupations 1 and 2, weights, overlap operators, preconditioners and distributions",
 NOT+"and a wrong derivative only shows when it is compared with energies at nearby states.",
 ["src/mvp2/descent_direction.hpp","src/mvp2/descent_direction_impl.hpp","src/mvp2/mvp2.hpp","src/pseudo_hamiltonian/grad_eta.hpp","src/nlcglib.cpp"],
 [m("gradient with respect to wave functions and pseudo-Hamiltonian","src/mvp2/mvp2.hpp, src/pseudo_hamiltonian/grad_eta.hpp"),m("global reduction of the slope","src/mvp2/descent_direction.hpp"),m("convergence test","src/nlcglib.cpp nlcg_us")],
 observe=["slope_x in nlcg.json against energies of short steps","return value"])
p("C09","The step journal is complete, ordered, and survives a crash at any point",
 "nlcg.json holds exactly one complete JSON record per iteration begun in this run, in order and written by one rank only, with the values of that iteration; every tenth record (0, 10, 20, ...) also holds the pseudo-eigenvalues and occupations of all k-points of all ranks. A record is completely in the file before the host is asked for the first trial energy of its iteration, so a crash at any instant leaves all records of begun iterations and at most one incomplete record at the end, and a new run starts with an empty journal. nlcg.out says NLCG SUCCESS exactly when the run converged, and only the first rank writes output.",
 ["crash_points","schedules","histories"],"all instants at which the job can die (between and inside write calls), all rank timings, short and interrupted writes, all earlier contents of the working directory",
 "No test runs an iteration or reads a journal; crash points and rank timings cannot be chosen by a test.",
 ["src/utils/step_logger.hpp","src/utils/logger.hpp","src/nlcglib.cpp"],
 [m("record written, flushed and closed when the logger object ends","src/utils/step_logger.hpp ~StepLogger"),m("journal removed before the first collective of a run","src/nlcglib.cpp nlcg_us"),m("only the first rank of the k-point communicator writes","src/nlcglib.cpp cg_write_step_json")],
 observe=["contents of nlcg.json and nlcg.out at every crash point and at return","standard output"])
p("C10","Trouble with log files or clocks never changes the calculation",
 "If writing nlcg.out, nlcg.json or standard output fails in any way (cannot be opened, disk full, I/O error, short or interrupted writes, a file that cannot be removed) or the clock jumps or stands still, the call still returns normally, with bit-for-bit the same values and the same sequence of states handed to the host as without the trouble.",
 ["fault_sequences"],"all sequences of failures of the file operations and all clock behaviours, at every operation of a run, on any rank",
 "No test injects an I/O error or changes the clock.",
 ["src/utils/step_logger.hpp","src/utils/logger.hpp","src/utils/timer.hpp","src/nlcglib.cpp"],
 [m("stream errors are not turned into exceptions and nothing is read back","src/utils/logger.hpp, src/utils/step_logger.hpp"),m("clock values are only printed","src/nlcglib.cpp")],
 observe=["return value","states handed to the host"])
p("C11","Failures underneath the library surface and never become results",
 "When an operation the library depends on fails during a call (an MPI call reports an error, a host callback throws, a dense linear-algebra routine reports failure, memory cannot be allocated, the host delivers a non-finite energy), the call does not return as if nothing had happened: a host exception reaches the caller unchanged, an MPI error aborts the job, the others end in an exception or in termination, and a non-finite energy is never accepted as a successful step. Any call that does return normally returns what it would have returned without the failure. Entry points that this build cannot serve, and invalid parameters (zero temperature, unknown smearing), are refused with an exception before the host is asked for an energy.",
 ["fault_sequences","configurations"],"all failing operations of a run (which operation, which occurrence, which rank) one at a time and in pairs",
 "No test makes anything fail.",
 ["src/mpi/communicator.hpp","src/mpi/mpi_type.hpp","src/la/lapack_cpu.hpp","src/la/cblas.hpp","src/linesearch/linesearch.hpp","src/nlcglib.cpp","src/smearing.hpp"],
 [m("every MPI call checked, job aborted on error","src/mpi/communicator.hpp CALL_MPI"),m("LAPACK status checked","src/la/lapack_cpu.hpp"),m("only the library's own signals are caught in the main loop","src/nlcglib.cpp")],
 observe=["how each rank leaves the call","exceptions seen by the caller","MPI_Abort"])
p("C12","Calls are independent of earlier calls and leave nothing behind",
 "A call gives bit-for-bit the same values, host states and journal as the same call in a fresh process, whatever calls were made before it in the process (converged, not converged, with other problems, sizes, smearings or rank layouts, or ended by an exception). Repeating a call does not accumulate MPI objects, open files or memory.",
 ["histories","fault_sequences"],"all sequences of calls in one process, including calls that fail at any point on all ranks",
 NOT+"sequences of calls, and failures in between, are not tested.",
 ["src/nlcglib.cpp","src/utils/logger.hpp","src/csingleton.hpp","src/utils/env.hpp","src/mpi/mpi_type.hpp","src/la/mvector.hpp"],
 [m("all state of a call lives on its stack except the logger singleton","src/nlcglib.cpp, src/csingleton.hpp"),m("output files are reopened per call","src/utils/logger.hpp attach_file_master")],
 observe=["return values","journal","counts of MPI datatypes and communicators, file descriptors and heap bytes after repeated calls"])
p("C13","Host memory is used only as the interface allows",
 "The library writes to host memory only through the wave-function buffers and the output argument of operator applications, only to elements inside the declared sizes and strides (any leading dimension or ordering of the two strides, any order of the entries of each container), and leaves everything else, including padding, untouched. It keeps no pointer into host memory across an energy evaluation, so the host may move or overwrite its buffers then, and it calls the host only from the calling thread.",
 ["inputs","configurations","histories","schedules"],"all buffer shapes, paddings, strides and entry orders, relocation of every host buffer at every evaluation, all runs",
 "The tests use fixed private arrays and never a host object; relocation and padding do not occur.",
 ["src/la/mvector.hpp","src/la/dvector.hpp","src/free_energy.hpp","src/nlcglib.cpp","src/operator.hpp"],
 [m("copies of host data are taken before the next evaluation","src/nlcglib.cpp nlcg_us copy(...)"),m("strided unmanaged views over host memory","src/la/mvector.hpp make_mmatrix, src/la/dvector.hpp"),m("entries are matched by k-point key","src/la/utils.hpp tapply")],
 observe=["guard areas around host buffers","content of retired host buffers","thread of each callback"])
p("C14","Trial points follow restarted preconditioned conjugate gradients",
 "With the parameters given, the sequence of states the library evaluates is that of preconditioned non-linear conjugate gradients (Fletcher-Reeves) on the wave functions and the pseudo-Hamiltonian, whose subspace part is scaled by kappa: the direction is reset to steepest descent after every iteration whose number is a multiple of restart, after a failed line search, and when the conjugate direction points uphill. Each line search evaluates the trial step 0.2 (times 5 while the curvature is negative), then the minimum of the parabola; if that is uphill it backtracks from the trial step by the factor tau.",
 ["inputs","histories","fault_sequences","configurations"],"all problems, parameters (kappa, tau, restart, maxiter, temperature, smearing), distributions, and all transient energy errors that lead through the fallback branches",
 NOT+"the documented parameters have no test at all.",
 ["src/nlcglib.cpp","src/linesearch/linesearch.hpp","src/mvp2/descent_direction.hpp","src/mvp2/descent_direction_impl.hpp","src/mvp2/mvp2.hpp","src/pseudo_hamiltonian/grad_eta.hpp","src/geodesic.hpp","src/ultrasoft_precond.hpp"],
 [m("restart rule","src/nlcglib.cpp nlcg_us"),m("conjugation with subspace rotation and re-orthogonalisation","src/mvp2/descent_direction_impl.hpp exec_conjugate"),m("quadratic line search with fallback","src/linesearch/linesearch.hpp")],
 observe=["energies, occupations and subspaces of all states handed to the host"])
p("C15","GPU and CPU execution give the same result",
 "For the same problem the entry points that execute on a GPU (CUDA or ROCm, with or without MAGMA) give the same result as the CPU entry point, to rounding.",
 ["configurations"],"all execution spaces",
 "No GPU build exists here; the tests for it are dropped from a CPU build.",
 ["src/la/lapack_cuda.hpp","src/la/lapack_rocm.hpp","src/la/magma.cpp","src/gpu/acc.cpp"],
 [m("memory-space templates","src/la/lapack.hpp")])
p("C16","Smearing functions and their derivatives are consistent at every argument",
 "For every smearing and every argument, the delta function is the derivative of the occupation function, its own derivative is the derivative used by the Newton search, and the entropy derivative is minus the argument times the delta function.",
 ["inputs"],"all real arguments",
 "The existing tests evaluate the functions at few points and compare nothing.",
 ["src/smearing.hpp"],[m("closed formulas","src/smearing.hpp")])
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+'\n')
