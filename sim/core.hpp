// Deterministic simulation core: seeds, specs, fibers, scheduler, faults, history.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>
using json = nlohmann::json;

// ---------------------------------------------------------------- seeds
inline uint64_t mix64(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hcomb(uint64_t h, uint64_t v) { return mix64(h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2))); }
inline uint64_t hstr(const std::string& s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
inline uint64_t dbits(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix64(seed ^ 0xabcdef12345ull)) {}
  uint64_t u64() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  double u() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  int below(int n) { return n <= 1 ? 0 : (int)(u64() % (uint64_t)n); }
  int in(int a, int b) { return a + below(b - a + 1); }
  bool p(double q) { return u() < q; }
  double range(double a, double b) { return a + (b - a) * u(); }
  double logrange(double a, double b);
  double gauss();
  template <class T> const T& pick(const std::vector<T>& v) { return v[below((int)v.size())]; }
};

// ---------------------------------------------------------------- specification of a run
struct Fault
{
  std::string kind;     // see DESIGN.md, "Faults"
  std::string target;   // file, callback or routine
  int rank = -1;        // -1: every rank
  int call = 0;         // which call of the run
  long nth = 0;         // occurrence at which it starts
  long count = 1;       // how many occurrences
  double value = 0;     // kind-specific
};

struct Problem
{
  uint64_t seed = 1;
  int nk = 2, nspin = 1, occ = 2;
  int nb = 4, nmin = 7, nmax = 10;
  bool nbvar = false;      // different number of bands per k-point
  int ne = 4;
  int smearing = 0;        // nlcglib::smearing_type
  double T = 3000;
  int ng = 3;              // number of density channels
  double coupling = 0.5;
  int labels = 0;          // k-point indices: 0 0,1,2.., 1 with gaps, 2 descending with gaps, 3 large
  int init = 0;            // 0 random, 1 Rayleigh-Ritz, 2 equal, 3 nearly equal initial band energies
  int landscape = 0;       // 0 none, 1 ripples, 2 cliffs, 3 walls, 4 plateaus, 5 deep decoy well, 6 linear tilt
  double lamp = 0;         // amplitude
  double overlap = 0.3;    // strength of the non-orthogonality
  double shift = 0;        // rigid shift of all levels
};

struct Params
{
  double tol = 1e-8, kappa = 0.3, tau = 0.1;
  int maxiter = 60, restart = 10;
  int entry = 0;           // which public entry point
};

struct Layout
{
  std::vector<int> assign; // rank of key i (keys in order)
  int comm = 0;            // 0 world, 1 dup of world, 2 world with reversed rank order
  uint64_t order = 0;      // seed of the entry orders of the containers (0: natural)
  int stride = 0;          // 0 tight, 1 padded leading dimension, 2 row-major, 3 both strides padded
  int reloc = 0;           // 0 in place, 1 move and poison, 2 move and unmap
};

struct Call { Problem p; Params a; Layout l; };

struct RunSpec
{
  int nranks = 1;
  std::vector<Call> calls;
  std::vector<Fault> faults;
  std::string policy = "random"; // random, pct, rr, starve, first, explicit
  uint64_t sseed = 1;            // schedule seed
  std::vector<int> decisions;    // for policy explicit
  int perturb = 0;               // malloc perturbation byte
  std::map<std::string, std::string> files;  // files present at start
  int skip_newton = 0;           // NLCGLIB_DISABLE_NEWTON_EFERMI
  uint64_t reduce_perm = 0;      // order in which reductions add their terms (0: rank order)
  int track_mem = 0;             // account the memory the library holds
};

void to_json(json&, const Fault&);      void from_json(const json&, Fault&);
void to_json(json&, const Problem&);    void from_json(const json&, Problem&);
void to_json(json&, const Params&);     void from_json(const json&, Params&);
void to_json(json&, const Layout&);     void from_json(const json&, Layout&);
void to_json(json&, const Call&);       void from_json(const json&, Call&);
void to_json(json&, const RunSpec&);    void from_json(const json&, RunSpec&);

// ---------------------------------------------------------------- simulator
enum class RunEnd { running, done, deadlock, mismatch, aborted, crashed, steplimit, misuse };
const char* runend_name(RunEnd);

struct RankResult  // of one call on one rank
{
  int status = -1;     // -1 not finished, 0 returned, 1 exception
  double tolerance = 0, F = 0, S = 0;
  int iter = 0;
  bool converged = false;
  std::string etype, what;
  int eid = 0;         // identity of a host exception
};

struct CollRecord { std::string kind; uint64_t sig; int members; };

struct Fiber;
struct SimState;
extern SimState* S;    // the one simulation of this process

struct IoOp { int rank; std::string path, op; long len; long result; int call; size_t evals; };

struct SimState
{
  RunSpec spec;
  int nranks = 1;
  RunEnd end = RunEnd::running;
  std::string end_detail;
  int end_rank = -1;
  long steps = 0, maxsteps = 4000000;
  int current = -1;        // running rank, -1: scheduler
  int call = 0;            // per-rank in fibers; this is max over ranks
  std::vector<int> rank_call;
  std::vector<int> decisions;  // recorded
  size_t dpos = 0;
  uint64_t trace_hash = 0;     // hash of the whole event sequence
  uint64_t sched_hash = 0;     // hash of the interleaving of communication events
  std::vector<int64_t> clock;  // virtual ns per rank
  std::vector<int64_t> clock_off;
  std::vector<bool> clock_frozen;
  std::vector<int64_t> clock_frozen_at;
  std::vector<long> opcount;
  std::map<std::string, long> fired;   // fault kind -> how often it really fired
  std::map<std::string, long> probes;  // rare conditions reached
  std::vector<std::string> log;        // human readable trace (bounded)
  std::vector<std::vector<CollRecord>> colls;   // per rank: the collectives it took part in
  std::vector<std::vector<RankResult>> results; // [call][rank]
  std::vector<IoOp> io;
  std::vector<std::string> out;        // stdout captured per rank
  std::vector<bool> in_lib;            // rank is inside library code
  long foreign_thread_calls = 0;
  long threads_created = 0;
  // live MPI objects (per process = per simulation; counted over all ranks)
  long live_types = 0, live_comms = 0, live_requests = 0;
  std::vector<std::string> misuse;     // MPI or interface misuse
};

// fault bookkeeping: returns the fault if one of this kind fires for this occurrence
const Fault* fault_hit(const char* kind, const std::string& target, int rank, int call, long occurrence);
bool has_fault(const char* kind);
void sim_probe(const std::string& name);
void sim_event(int rank, const std::string& what, uint64_t h, bool sched = false);

void sim_yield(const char* why);      // scheduling point of the current rank
void sim_stop(RunEnd e, const std::string& detail);  // ends the run now (does not return in a fiber)
bool sim_on_main_thread();
bool sim_in_fiber();

// a rendezvous of all members; the last one to arrive runs `complete`
struct Rendezvous
{
  std::string kind;
  uint64_t sig = 0;
  std::vector<int> members;
  std::vector<bool> arrived;
  std::vector<void*> args;
  int narrived = 0, nleft = 0;
  bool complete = false;
};
// all members must call in the same order for the same communicator id
void sim_rendezvous(int commid, const std::vector<int>& members, const std::string& kind, uint64_t sig,
                    void* arg, const std::function<void(Rendezvous&)>& complete);
// block until pred() holds
void sim_wait(const char* why, const std::function<bool()>& pred);

int world_comm_id();
void comm_members(void* comm, int& id, std::vector<int>& members, int& myindex);
void* make_dup_comm();           // created without events, for the host
void* make_reversed_comm();
void mpi_reset();
void io_reset();
struct LibGuard { int r; bool old; explicit LibGuard(bool v); ~LibGuard(); };

// run: `body(rank, call)` executes the calls of one rank
void sim_run(const RunSpec&, const std::function<void(int)>& body);

std::string scratch_dir();
std::string read_file(const std::string& path, bool* exists = nullptr);
