#include "gen.hpp"
#include <algorithm>
Problem gen_problem(Rng& g, const GenOpt& o)
{
  Problem p;
  p.seed = g.u64() % 1000000007ull;
  do {
    p.nk = g.p(0.08) ? (g.p(0.15) ? g.in(9, 16) : g.in(5, 8)) : g.in(1, 4);
    p.nspin = g.p(0.4) ? 2 : 1;
  } while (p.nk * p.nspin < o.minkeys || p.nk * p.nspin > o.maxkeys);
  p.occ = p.nspin == 2 ? 1 : (g.p(0.8) ? 2 : 1);
  p.nb = g.p(0.06) ? (g.p(0.4) ? 1 : g.in(7, 10)) : g.in(2, 6);
  bool big = g.p(0.02);
  if (big) p.nb = g.in(11, 24);
  p.nmin = p.nb + g.in(1, big ? 16 : 4);
  p.nmax = p.nmin + g.in(0, 4);
  p.nbvar = p.nb > 2 && g.p(0.2);
  int cap = p.occ * (p.nbvar ? p.nb - 1 : p.nb) * p.nspin;
  p.ne = g.in(1, std::max(1, cap - 1));
  if (o.smearing >= 0) p.smearing = o.smearing;
  else if (o.monotone) p.smearing = g.below(3);
  else p.smearing = g.below(5);
  p.T = o.easy ? g.logrange(2000, 20000) : (g.p(0.05) ? g.logrange(20000, 100000) : g.logrange(400, 20000));
  p.ng = g.in(1, 4);
  p.coupling = g.p(0.15) ? 0.0 : g.range(0.05, o.easy ? 0.6 : 1.2);
  p.init = g.p(0.5) ? 1 : 0;
  if (g.p(0.15)) p.labels = g.in(1, 3);
  p.overlap = g.p(0.2) ? 0.0 : g.range(0.05, 0.8);
  p.shift = g.p(0.7) ? 0.0 : g.range(-4, 4);
  return p;
}
Params gen_params(Rng& g, const GenOpt& o)
{
  Params a;
  a.tol = g.logrange(1e-9, 1e-6);
  a.kappa = o.easy ? g.range(0.1, 0.6) : g.logrange(0.05, 1.0);
  a.tau = g.p(0.5) ? 0.1 : g.range(0.1, 0.6);
  if (!o.easy && g.p(0.05)) a.tau = g.range(0.6, 0.9);
  else if (!o.easy && g.p(0.05)) a.tau = g.logrange(1e-4, 0.1);
  if (!o.easy && g.p(0.1)) a.tol = g.logrange(1e-6, 1e-2);
  if (!o.easy && g.p(0.08)) a.kappa = g.p(0.2) ? 0.0 : g.p(0.5) ? g.logrange(1, 20) : g.logrange(1e-4, 0.05);
  static const int rs[] = {1, 2, 3, 5, 7, 10, 10, 10, 20, 1000};
  a.restart = rs[g.below(10)];
  a.maxiter = o.maxiter ? o.maxiter : g.in(20, 80);
  return a;
}
int gen_ranks(Rng& g, int nkeys, int maxranks)
{
  if (g.p(0.06)) return std::min(8, nkeys + g.in(1, 2));   // some ranks without k-points
  if (g.p(0.04)) maxranks = 8;
  int m = std::min(nkeys, maxranks);
  return m <= 1 ? 1 : g.in(g.p(0.8) ? 2 : 1, m);
}
Layout gen_layout(Rng& g, int nk, int nr, bool plain)
{
  Layout l;
  l.assign.assign(nk, 0);
  // usually every rank gets at least one, the rest anywhere
  std::vector<int> perm(nk);
  for (int i = 0; i < nk; ++i) perm[i] = i;
  for (int i = nk - 1; i > 0; --i) std::swap(perm[i], perm[g.below(i + 1)]);
  int style = g.below(3);
  for (int i = 0; i < nk; ++i) l.assign[perm[i]] = i < nr ? i : (style == 0 ? g.below(nr) : (style == 1 ? 0 : nr - 1));
  if (g.p(0.3)) for (int i = 0; i < nk; ++i) l.assign[i] = std::min(nr - 1, i * nr / nk);  // contiguous
  if (nr > 1 && g.p(0.1)) {   // a rank without k-points
    int r = g.below(nr);
    for (int i = 0; i < nk; ++i) if (l.assign[i] == r) l.assign[i] = (r + 1 + g.below(nr - 1)) % nr;
  }
  if (!plain) {
    l.comm = nr > 1 ? g.below(3) : 0;
    l.order = g.p(0.5) ? 0 : 1 + g.below(1000000);
    l.stride = g.below(5);
    l.reloc = g.p(0.5) ? 0 : g.in(1, 2);
  }
  return l;
}
void gen_sched(Rng& g, RunSpec& s)
{
  static const char* pol[] = {"random", "pct", "rr", "starve", "rush", "first"};
  s.policy = pol[g.below(6)];
  s.sseed = g.u64() % 1000000007ull;
}
