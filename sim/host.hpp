// Simulated host code (the DFT side) with known physics and a recorded history.
#pragma once
#include "core.hpp"
#include "la.hpp"
#include "smear.hpp"
#include <interface.hpp>

typedef std::pair<int, int> Key;

struct KeyData
{
  Key key;
  double w = 0;
  int n = 0, nb = 0;
  Mat T, Sm, K;
  std::vector<Mat> B;
  Mat X0;
  std::vector<double> f0;
};

struct Physics   // the immutable problem
{
  Problem p;
  std::vector<KeyData> keys;
  std::vector<double> cg, rho0;
  int maxb = 0;
};
std::shared_ptr<Physics> make_physics(const Problem&);

// energy and Hamiltonian of a state (independent of any distribution)
struct StateEnergy { double E = 0, Eband = 0, Eint = 0; std::vector<double> rho; };
StateEnergy energy_of(const Physics&, const std::vector<Mat>& X, const std::vector<std::vector<double>>& fn);
Mat hamiltonian(const Physics&, int ik, const std::vector<double>& rho);
void start_levels(const Physics&, int ik, double* e, int nb);   // level energies the host reports at the start

struct Eval
{
  std::vector<Mat> X;                    // per key
  std::vector<std::vector<double>> fn;   // per key
  std::vector<double> rho;
  double E_true = 0, E_rep = 0, land = 0;
  std::vector<double> mu;                // per rank, NaN if not set
  int iter = -1;                         // iteration it belongs to (marks so far - 1)
  bool fn_set = false;                   // the library set occupations before it
  bool disturbed = false, wild = false;
  bool same = false;         // the state its iteration started from
  double ortho = 0, nel = 0;
  uint64_t hash = 0;
};

struct CallHist
{
  std::shared_ptr<Physics> phys;
  Call call;
  std::vector<Eval> ev;
  std::vector<std::vector<size_t>> marks;   // per rank: number of evaluations at each print_info
  std::vector<std::string> complaints;      // interface contract violations
  size_t applies = 0;
  int final_nmarks = 0;
  std::vector<double> chem_set;             // last chemical potential per rank
  uint64_t hash() const;
  std::vector<std::map<std::string, long>> cb;  // callback counts per rank
  std::vector<int> requested;               // per rank: iteration for which it last asked for an energy
  std::vector<int> final_same;              // per rank: buffers and occupations are those of the last evaluation
};
double entropy_from_f(const CallHist& h, const std::vector<std::vector<double>>& fn);
extern std::vector<CallHist> g_hist;
extern size_t g_evals_done;

struct HostThrow : std::exception { int id; HostThrow(int id) : id(id) {} const char* what() const noexcept override { return "simulated host failure"; } };
struct HostThrowPlain { int id; };          // not derived from std::exception

void host_new_call(int call);               // on first entry of a call (any rank)
// runs call `c` of rank r through `entry points` of its library copy
RankResult host_run_call(int rank, int call);
void host_call_done(int rank, int call);
void load_libraries(const std::string& so, int ncopies, const std::string& dir);
