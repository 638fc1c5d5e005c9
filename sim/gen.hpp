// Random problems, parameters, layouts.
#pragma once
#include "core.hpp"
struct GenOpt
{
  bool easy = false;          // moderate temperature, converges well
  int smearing = -1;
  bool monotone = false;      // only smearings whose occupation is monotone
  int minkeys = 1, maxkeys = 16;
  int maxiter = 0;
};
Problem gen_problem(Rng&, const GenOpt& o = GenOpt());
Params gen_params(Rng&, const GenOpt& o = GenOpt());
Layout gen_layout(Rng&, int nkeys, int nranks, bool plain = false);
int gen_ranks(Rng&, int nkeys, int maxranks = 4);
void gen_sched(Rng&, RunSpec&);
inline int nkeys(const Problem& p) { return p.nk * p.nspin; }
