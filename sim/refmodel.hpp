// Small executable reference model of the minimiser: sequential, all k-points in one place,
// decisions from the recorded energies.
#pragma once
#include "host.hpp"

struct ModelEval
{
  double t = 0;
  int phase = 0;                       // 0 initial, 1 initial with occupations, 2 trial, 3 parabola, 4 backtracking, 5 reset
  int iter = -1;
  std::vector<std::vector<double>> e;  // pseudo eigenvalues
  double entropy = 0;                  // -T*S of the reference smearing
  double F = 0;                        // reported energy + entropy
  double dX = 0, dfn = 0;              // distance of the recorded state from the model state
  double amp = 1, emax = 0;             // conditioning of the step, largest pseudo eigenvalue
  double zsize = 0;                    // length of t*z
};
struct ModelIter
{
  size_t first = 0;                    // index of the first evaluation of the line search
  size_t state = 0;                    // index of the evaluation that is the start state
  double F = 0, slope = 0, slope_rec = 0;
  bool sd = true, uphill = false;      // how the direction was made
  bool failed = false;                 // the line search failed (all trial steps uphill)
  bool backtracked = false;
  int expansions = 0;
  size_t evals = 0;
  double tnoise = 0;                   // length of the step lost in the rounding of its parabola
  double noise = 0;                    // rounding of the slope
  double fd = std::nan("");             // slope by differences of the reference free energy (if asked for)
  double fdnoise = 0;
};
struct Model
{
  std::vector<ModelEval> ev;
  std::vector<ModelIter> it;
  bool converged = false, gave_up = false, maxiter = false;
  bool ambiguous = false;              // a decision was within rounding; comparison stops there
  std::string why;
  bool truncated = false;              // history ends in the middle (crash, exception)
  bool bad_fn = false, bad_X = false;  // what the first difference is about
  int diff_iter = -1;                  // and where it is
  std::vector<std::string> diffs;      // recorded history contradicts the model
  double max_dX = 0, max_dfn = 0;
  double pend_amp = 1, pend_emax = 0;  // truncated: the point that was to come next
};
// `slopes`: those of the journal; used where they agree with the model to rounding
Model run_model(const CallHist& h, const std::vector<double>* slopes = nullptr, double tolX = 5e-3, int fd = 0);
// reference -T*S for given pseudo eigenvalues and chemical potential
double ref_entropy(const CallHist& h, const std::vector<std::vector<double>>& e, double mu);
