#include "refmodel.hpp"
#include <cstdio>

double ref_entropy(const CallHist& h, const std::vector<std::vector<double>>& e, double mu)
{
  auto& P = *h.phys;
  double kT = ref::kb * P.p.T, s = 0;
  for (size_t k = 0; k < P.keys.size(); ++k)
    for (double x : e[k]) s += P.keys[k].w * ref::entropy(P.p.smearing, (mu - x) / kT, P.p.occ);
  return -kT * s;
}

namespace {
struct Dir { std::vector<Mat> x, eta; };

struct Machine
{
  const CallHist& h;
  const Physics& P;
  Model m;
  double tolX;
  size_t nk, cur = 0;
  const std::vector<double>* recorded = nullptr;   // slopes of the journal
  bool cancel = false, wild = false;
  int fd = 0;                               // check the slope by differences in this many iterations
  double kT;
  std::vector<Mat> X;                       // current state (recorded gauge)
  std::vector<std::vector<double>> e, f;
  double mu = 0;
  size_t state = 0;
  Dir z;
  double slope = 0, fr = 0, noise = 0;
  double gunc = 0;   // relative uncertainty of a conjugate direction: slopes are known to about 2e-8 sqrt(slope)
  double eunc = 0, next_unc = 0;            // uncertainty of pseudo eigenvalues that no occupation determines
  // of the last evaluation
  std::vector<Mat> lastX, lastU;            // model state and rotation
  std::vector<std::vector<double>> laste;
  bool lost = false;
  int fd_left = 0;

  Machine(const CallHist& h, double tolX) : h(h), P(*h.phys), tolX(tolX), nk(h.phys->keys.size()), kT(ref::kb * h.phys->p.T) {}

  void diff(const std::string& s) { if (m.diffs.size() < 10) m.diffs.push_back(s); lost = true; }
  const Eval* next() { return cur < h.ev.size() ? &h.ev[cur] : nullptr; }

  // evaluate the point at step t; returns false when the history ends here
  bool G(double t, int phase, int iter, double& F, double trel = 0)
  {
    const Eval* ev = next();
    // a call that ended by an exception may leave an incomplete last evaluation
    if (ev && ev->wild) wild = true;   // meaningless energies: directions and their rounding grow without bound
    if (!ev || std::isnan(ev->mu[0]) || !std::isfinite(ev->E_rep)) { m.truncated = true; pending(t); return false; }
    ModelEval me;
    me.t = t; me.phase = phase; me.iter = iter;
    lastX.assign(nk, Mat()); lastU.assign(nk, Mat()); laste.assign(nk, {});
    double mh = ev->mu.empty() ? 0 : ev->mu[0];
    double amp = 1, ent = 0;
    bool undet = false;   // occupations do not determine all pseudo eigenvalues
    for (size_t k = 0; k < nk; ++k) {
      auto& d = P.keys[k];
      Mat E(d.nb, d.nb);
      for (int i = 0; i < d.nb; ++i) E(i, i) = e[k][i];
      E = axpy(t, z.eta[k], E);
      Mat U;
      jacobi(E, laste[k], U);
      Mat Y = axpy(t, z.x[k], X[k]);
      Mat O = mulh(Y, mul(d.Sm, Y));
      std::vector<double> ow; Mat oV;
      jacobi(O, ow, oV);
      amp = std::max(amp, std::sqrt(std::max(ow.back(), 0.0) / std::max(ow.front(), 1e-300)));
      Mat Xn = mul(mul(Y, invsqrt(O)), U);
      lastX[k] = Xn; lastU[k] = U;
      me.zsize = std::max(me.zsize, std::abs(t) * (fro(z.x[k]) + fro(z.eta[k])));
      Mat A = axpy(-1.0, mul(ev->X[k], adj(ev->X[k])), mul(Xn, adj(Xn)));
      double q = fro(A);
      Mat fa = Xn, fb = ev->X[k];
      for (int j = 0; j < d.nb; ++j) {
        double fm = ref::fn(P.p.smearing, (mh - laste[k][j]) / kT, P.p.occ);
        double df = std::abs(fm - ev->fn[k][j]);
        if (!(df <= me.dfn)) me.dfn = df <= 1e300 ? df : 1e300;
        // where occupations determine the pseudo eigenvalue, take over its rounding
        double fj = ev->fn[k][j];
        if (P.p.smearing <= 2) {
          double x = (mh - laste[k][j]) / kT;
          if (!(fj > 0 && fj < P.p.occ)) undet = true;
          else {
            double xi = ref::inverse(P.p.smearing, fj, P.p.occ, x);
            ent += d.w * ref::entropy(P.p.smearing, xi, P.p.occ);
            if (df < 1e-3 * P.p.occ && df > 1e-15 * P.p.occ && ref::delta(P.p.smearing, xi, P.p.occ) > 3e-9 * P.p.occ) laste[k][j] = mh - kT * xi;
            else if (df > 1e-15 * P.p.occ || !(ref::delta(P.p.smearing, xi, P.p.occ) > 3e-9 * P.p.occ)) undet = true;
          }
        } else if (df >= 1e-3 * P.p.occ || std::abs(ref::delta(P.p.smearing, (mh - laste[k][j]) / kT, P.p.occ)) < 1e-6 * P.p.occ) undet = true;
        else if (df > 1e-14 * P.p.occ) for (int q = 0; q < 3; ++q) {
          double x = (mh - laste[k][j]) / kT, dl = ref::delta(P.p.smearing, x, P.p.occ);
          if (std::abs(dl) < 1e-6 * P.p.occ) { undet = true; break; }
          laste[k][j] += kT / dl * (ref::fn(P.p.smearing, x, P.p.occ) - ev->fn[k][j]);
        }
        for (int i = 0; i < d.n; ++i) { fa(i, j) *= ev->fn[k][j]; fb(i, j) *= ev->fn[k][j]; }
      }
      // X f X^H is the density matrix; compare it with the recorded occupations on both sides
      Mat B = axpy(-1.0, mul(fb, adj(ev->X[k])), mul(fa, adj(Xn)));
      double q2 = fro(B);
      if (!(q2 <= 1e300) || !(q <= 1e300)) { q = 1e300; q2 = 1e300; }
      me.dX = std::max(me.dX, std::max(q, q2));
    }
    me.amp = amp;
    next_unc = undet ? eunc + ((wild ? 0.02 : 4e-3) * tolX + 3 * trel + 0.2 * gunc) * me.zsize : 0;
    for (auto& v : laste) for (double x : v) me.emax = std::max(me.emax, std::abs(x));
    me.e = laste;
    me.entropy = P.p.smearing <= 2 ? -kT * ent : ref_entropy(h, laste, mh);
    me.F = ev->E_rep + me.entropy;
    F = me.F;
    m.max_dX = std::max(m.max_dX, me.dX);
    m.max_dfn = std::max(m.max_dfn, me.dfn);
    // rounding of the orthonormalisation of a long step, of the direction and of the step length
    double lim = 1e-8 + 1e-12 * amp * amp + (tolX + 3 * trel + gunc) * me.zsize;
    // occupations follow the pseudo eigenvalues with slope 1/kT
    double limf = 1e-8 + P.p.occ / kT * (1e-13 * (1 + me.emax) + ((wild ? 0.02 : 4e-3) * tolX + 3 * trel + 0.2 * gunc) * me.zsize + eunc);
    if (amp > 1e4 || me.emax > 1e4) { m.ev.push_back(me); ++cur; m.ambiguous = true; m.why = "step too long for double precision"; return false; }
    if (limf > 0.1 * P.p.occ) { m.ev.push_back(me); ++cur; m.ambiguous = true; m.why = "levels lost in rounding"; return false; }
    static const char* ph[] = {"initial", "initial", "trial step", "parabola minimum", "backtracking step", "reset to the start"};
    if (me.dX > lim || me.dfn > limf) {
      char b[300];
      snprintf(b, sizeof b, "evaluation %zu (iteration %d, expected %s t=%.6g): state differs from the model by %.3g (limit %.1g), occupations by %.3g (%.1g); step length %.3g", cur, iter, ph[phase], t, me.dX, lim, me.dfn, limf, me.zsize);
      diff(b);
      if (me.dfn > limf) m.bad_fn = true;
      if (me.dX > lim) m.bad_X = true;
      m.diff_iter = iter;
    } else if (ev->iter != iter) {
      char b[200];
      snprintf(b, sizeof b, "evaluation %zu belongs to iteration %d, model expects %d", cur, ev->iter, iter);
      diff(b);
    }
    m.ev.push_back(me);
    ++cur;
    return true;
  }

  // conditioning of the point that the history does not reach
  void pending(double t)
  {
    for (size_t k = 0; k < nk; ++k) {
      auto& d = P.keys[k];
      Mat E(d.nb, d.nb), U;
      for (int i = 0; i < d.nb; ++i) E(i, i) = e[k][i];
      E = axpy(t, z.eta[k], E);
      std::vector<double> ee, ow; Mat oV;
      jacobi(E, ee, U);
      for (double x : ee) m.pend_emax = std::max(m.pend_emax, std::isfinite(x) ? std::abs(x) : 1e300);
      Mat Y = axpy(t, z.x[k], X[k]);
      Mat O = mulh(Y, mul(d.Sm, Y));
      jacobi(O, ow, oV);
      m.pend_amp = std::max(m.pend_amp, std::sqrt(std::max(ow.back(), 0.0) / std::max(ow.front(), 1e-300)));
    }
  }

  // reference free energy at step t along z, with its own chemical potential
  double freeE(double t)
  {
    std::vector<Mat> Xn(nk);
    std::vector<std::vector<double>> ee(nk), ff(nk);
    for (size_t k = 0; k < nk; ++k) {
      auto& d = P.keys[k];
      Mat E(d.nb, d.nb), U;
      for (int i = 0; i < d.nb; ++i) E(i, i) = e[k][i];
      E = axpy(t, z.eta[k], E);
      jacobi(E, ee[k], U);
      Mat Y = axpy(t, z.x[k], X[k]);
      Xn[k] = mul(mul(Y, invsqrt(mulh(Y, mul(d.Sm, Y)))), U);
    }
    // at the electron number of the state (smearings that are not monotonous may miss the exact one)
    double m0 = mu, n0 = 0;
    for (size_t k = 0; k < nk; ++k) for (double x : e[k]) n0 += P.keys[k].w * ref::fn(P.p.smearing, (mu - x) / kT, P.p.occ);
    for (int q = 0; q < 60; ++q) {
      double n = 0, dn = 0;
      for (size_t k = 0; k < nk; ++k)
        for (double x : ee[k]) { n += P.keys[k].w * ref::fn(P.p.smearing, (m0 - x) / kT, P.p.occ); dn += P.keys[k].w * ref::delta(P.p.smearing, (m0 - x) / kT, P.p.occ) / kT; }
      if (std::abs(dn) * kT < 1e-12) break;
      double st = (n0 - n) / dn;
      if (std::abs(st) > 0.3 * kT) st = st > 0 ? 0.3 * kT : -0.3 * kT;
      m0 += st;
      if (std::abs(st) < 1e-15 * (1 + std::abs(m0))) break;
    }
    for (size_t k = 0; k < nk; ++k) for (double x : ee[k]) ff[k].push_back(ref::fn(P.p.smearing, (m0 - x) / kT, P.p.occ));
    return energy_of(P, Xn, ff).E + ref_entropy(h, ee, m0);
  }
  void fd_slope(ModelIter& mi)
  {
    double zx = 0, ze = 0, em = 1;
    for (size_t k = 0; k < nk; ++k) { zx = std::max(zx, fro(z.x[k])); ze = std::max(ze, fro(z.eta[k])); for (double x : e[k]) em = std::max(em, std::abs(x)); }
    if (!(zx + ze > 0)) return;
    // the levels must be known well enough: their occupations are those recorded
    for (size_t k = 0; k < nk; ++k) for (size_t j = 0; j < e[k].size(); ++j)
      if (!(std::abs(ref::fn(P.p.smearing, (mu - e[k][j]) / kT, P.p.occ) - f[k][j]) < 1e-6 * P.p.occ)) return;
    double s = std::min(1e-2 / (zx + 1e-300), 0.05 * kT / (ze + 1e-300));
    auto D = [&](double q) { return (freeE(q) - freeE(-q)) / (2 * q); };
    double d1 = D(s), d2 = D(s / 2);
    mi.fd = d2 + (d2 - d1) / 3;
    // truncation and rounding
    double r = 1e-14 * (1 + em) * 20 / s;
    mi.fdnoise = std::abs(d2 - d1) / 3 + r;
    // the two may agree by accident where the density of states is small
    for (double q : {5.0, 16.0, 60.0}) mi.fdnoise += std::max(0.0, std::abs(D(s / q) - mi.fd) - q * r);
  }

  // take over the state of evaluation cur-1
  void accept()
  {
    const Eval& ev = h.ev[cur - 1];
    for (size_t k = 0; k < nk; ++k) {
      Mat W = mulh(lastX[k], mul(P.keys[k].Sm, ev.X[k]));
      Mat R = mul(lastU[k], W);
      z.x[k] = mul(z.x[k], R);
      z.eta[k] = mulh(R, mul(z.eta[k], R));
      X[k] = ev.X[k];
      e[k] = laste[k];
      f[k] = ev.fn[k];
    }
    mu = ev.mu[0];
    eunc = next_unc;
    state = cur - 1;
  }

  // gradients at the current state; returns <g,delta>, fills delta and (if zp) <g,z>
  double gradients(Dir& delta, const Dir* zp, double& slope_zp)
  {
    const Eval& ev = h.ev[state];
    std::vector<Mat> HX(nk), SX(nk), Hij(nk);
    double num = 0, den = 0, aden = 0;
    int sm = P.p.smearing; double mo = P.p.occ;
    for (size_t k = 0; k < nk; ++k) {
      auto& d = P.keys[k];
      HX[k] = mul(hamiltonian(P, (int)k, ev.rho), X[k]);
      SX[k] = mul(d.Sm, X[k]);
      Hij[k] = mulh(X[k], HX[k]);
      for (int i = 0; i < d.nb; ++i) {
        double de = ref::delta(sm, (mu - e[k][i]) / kT, mo);
        num += d.w * (Hij[k](i, i).real() - e[k][i]) * de;
        den += d.w * de;
        aden += d.w * std::abs(de);
      }
    }
    cancel = std::abs(den) < 1e-3 * aden && aden > 1e-10;   // non-monotone smearing: density of states cancels
    double total = 0, mag = 0;
    slope_zp = 0;
    delta.x.assign(nk, Mat()); delta.eta.assign(nk, Mat());
    for (size_t k = 0; k < nk; ++k) {
      auto& d = P.keys[k];
      Mat KSX = mul(d.K, SX[k]), KHX = mul(d.K, HX[k]);
      Mat A = mulh(SX[k], KSX), B = mulh(SX[k], KHX), ll;
      cholsolve(A, B, ll);
      Mat R = axpy(-1.0, mul(SX[k], ll), HX[k]);   // HX - SX ll
      Mat gx = HX[k], dx = mul(d.K, R);
      for (auto& v : dx.a) v = -v;
      for (int j = 0; j < d.nb; ++j) for (int i = 0; i < d.n; ++i) gx(i, j) *= d.w * f[k][j];
      gx = axpy(-d.w, mul(SX[k], ll), gx);
      Mat ge(d.nb, d.nb), de(d.nb, d.nb);
      double c = std::abs(den) < 1e-12 ? 0 : num / den;
      for (int i = 0; i < d.nb; ++i)
        for (int j = 0; j < d.nb; ++j) {
          double del = ref::delta(sm, (mu - e[k][i]) / kT, mo);
          cplx hij = d.w * Hij[k](i, j);
          if (i == j) ge(i, i) = -del / kT * (hij.real() - d.w * e[k][i]) + d.w * del / kT * c;
          else if (std::abs(e[k][j] - e[k][i]) < 1e-10) ge(i, j) = -del / kT * hij;
          else ge(i, j) = (f[k][j] - f[k][i]) / (e[k][j] - e[k][i]) * hij;
          de(i, j) = h.call.a.kappa * (Hij[k](i, j) - (i == j ? e[k][i] : 0.0));
        }
      double a1 = 2 * retr(gx, dx), a2 = retr(ge, de);
      total += a1 + a2;
      mag += std::abs(a1) + fro(ge) * fro(de);
      delta.x[k] = dx; delta.eta[k] = de;
      if (zp) {
        // keep the previous direction tangential
        Mat c1 = mulh(SX[k], zp->x[k]), c2 = mulh(SX[k], SX[k]), l2;
        cholsolve(c2, c1, l2);
        Mat zx = axpy(-1.0, mul(SX[k], l2), zp->x[k]);
        const_cast<Dir*>(zp)->x[k] = zx;
        double b1 = 2 * retr(gx, zx), b2 = retr(ge, zp->eta[k]);
        slope_zp += b1 + b2;
        mag += 1e-3 * (std::abs(b1) + std::abs(b2));
      }
    }
    noise = 1e-13 * mag;
    return total;
  }

  void steepest()
  {
    Dir d; double dummy;
    fr = slope = gradients(d, nullptr, dummy);
    z = d;
  }
  bool amb(const char* w) { m.ambiguous = true; m.why = w; return false; }

  // returns: 0 history ended / stop, 1 continue
  void run()
  {
    const Params& a = h.call.a;
    if (h.ev.size() < 2 || std::isnan(h.ev[1].mu[0]) || !std::isfinite(h.ev[1].E_rep)) { m.truncated = true; return; }
    // evaluation 0: the host's state; 1: the same wave functions with occupations of the host's band energies
    const Eval &e0 = h.ev[0], &e1 = h.ev[1];
    ModelEval me;
    m.ev.push_back(me);
    e.assign(nk, {}); f.assign(nk, {}); X.assign(nk, Mat()); z.x.assign(nk, Mat()); z.eta.assign(nk, Mat());
    for (size_t k = 0; k < nk; ++k) {
      auto& d = P.keys[k];
      Mat HX = mul(hamiltonian(P, (int)k, e0.rho), e0.X[k]);
      e[k].resize(d.nb);
      for (int j = 0; j < d.nb; ++j) {
        cplx v = 0;
        for (int i = 0; i < d.n; ++i) v += std::conj(e0.X[k](i, j)) * HX(i, j);
        e[k][j] = v.real();
      }
      start_levels(P, (int)k, e[k].data(), d.nb);
      me.dX = std::max(me.dX, fro(axpy(-1.0, e0.X[k], e1.X[k])));
      for (int j = 0; j < d.nb; ++j) me.dfn = std::max(me.dfn, std::abs(e1.fn[k][j] - ref::fn(P.p.smearing, (e1.mu[0] - e[k][j]) / kT, P.p.occ)));
      X[k] = e1.X[k]; f[k] = e1.fn[k];
    }
    mu = e1.mu[0];
    me.phase = 1; me.e = e;
    me.entropy = ref_entropy(h, e, mu);
    me.F = e1.E_rep + me.entropy;
    m.ev.push_back(me);
    if (!(me.dX < 1e-12)) diff("the first evaluation with occupations changes the host's wave functions");
    if (!(me.dfn < 1e-9)) { diff("the first occupations are not the smearing of the host's band energies"); m.bad_fn = true; }
    cur = 2; state = 1;
    if (lost) return;
    bool force = false, sd = true, uphill = false;
    steepest();
    double F = me.F;
    for (int it = 0; it < a.maxiter; ++it) {
      ModelIter mi;
      mi.F = F; mi.slope = slope; mi.sd = sd; mi.uphill = uphill; mi.state = state; mi.first = cur; mi.noise = noise;
      mi.slope_rec = std::nan("");
      if (recorded && (size_t)it < recorded->size()) {
        // go on with the recorded slope where it is the same up to rounding
        double r = (*recorded)[it];
        mi.slope_rec = r;
        if (std::abs(r - slope) < 1e-3 * std::abs(slope) + 10 * noise) slope = r;
        if (sd) fr = slope;
      }
      double sl = slope;
      if (fd > 0 && !cancel && (it < fd / 2 || it % 3 == 1) && fd_left-- > 0) fd_slope(mi);
      if (cancel) { m.it.push_back(mi); amb("density of states cancels"); return; }
      if (std::abs(std::abs(sl) - a.tol) < noise + 1e-6 * a.tol) { m.it.push_back(mi); amb("slope at the tolerance"); return; }
      if (std::abs(sl) < a.tol) { m.it.push_back(mi); m.converged = true; return; }
      if (std::abs(sl) < 1e3 * noise) { m.it.push_back(mi); amb("slope is rounding"); return; }
      if (sl > 0) { m.it.push_back(mi); m.gave_up = true; m.why = "uphill"; return; }
      double F0 = F, F1 = 0, t = 0.2, A = 0;
      double eps = 3e-14 * (1 + std::abs(F0));
      auto finish = [&]() { mi.evals = cur - mi.first; m.it.push_back(mi); };
      while (true) {
        if (!G(t, 2, it, F1) || lost) { finish(); return; }
        double lhs = F1 - sl * t - F0;
        A = lhs / (t * t);
        if (std::abs(lhs) < 2 * eps + noise * t + 1e-14 * (std::abs(F1) + std::abs(sl * t))) { finish(); amb("curvature is rounding"); return; }
        if (A < 0) { t *= 5; mi.expansions++; } else break;
        if (t > 1e60) { finish(); amb("runaway"); return; }
      }
      double tm = -sl / (2 * A), F2 = 0;
      double trel = (1e-14 * (1 + std::abs(F0)) + noise * t) / std::abs(A * t * t);
      if (trel > 0.01) { finish(); amb("parabola is rounding"); return; }
      bool more = G(tm, 3, it, F2, trel);
      if (!m.ev.empty()) mi.tnoise = trel * m.ev.back().zsize;
      if (!more || lost) { finish(); return; }
      bool ok;
      if (std::abs(F2 - F0) < eps) { finish(); amb("flat"); return; }
      ok = F2 < F0;
      if (!ok) {
        mi.backtracked = true;
        double tb = 0.2;
        while (tb > 1e-8) {
          if (std::abs(tb - 1e-8) < 1e-16) { finish(); amb("last step"); return; }
          double Fb = 0;
          if (!G(tb, 4, it, Fb) || lost) { finish(); return; }
          if (std::abs(Fb - F0) < eps) { finish(); amb("flat"); return; }
          if (Fb < F0) { ok = true; F2 = Fb; break; }
          tb *= a.tau;
        }
        if (!ok) {
          mi.failed = true;
          if (force) { finish(); m.gave_up = true; m.why = "no descent"; return; }
          if (!G(0, 5, it, F2) || lost) { finish(); return; }
        }
      }
      force = !ok;
      F = F2;
      finish();
      accept();
      uphill = false;
      if (it % a.restart == 0 || force) { steepest(); sd = true; gunc = 0; }
      else {
        Dir d, zp = z; double szp = 0;
        double frn = gradients(d, &zp, szp);
        double g = frn / fr;
        double s2 = frn + g * szp;
        if (std::abs(s2) < 1e-9 * (std::abs(frn) + std::abs(g * szp))) { amb("slope of the conjugate direction is rounding"); return; }
        gunc = 3e-8 * (1 / std::sqrt(std::abs(frn)) + 1 / std::sqrt(std::abs(fr))) + 0.5 * gunc;
        fr = frn;
        if (s2 > 0) { steepest(); sd = true; uphill = true; force = true; gunc = 0; }
        else {
          slope = s2;
          for (size_t k = 0; k < nk; ++k) { z.x[k] = axpy(g, zp.x[k], d.x[k]); z.eta[k] = axpy(g, zp.eta[k], d.eta[k]); }
          sd = false;
          if (!(gunc < 0.05)) { amb("conjugate direction is rounding"); return; }
        }
      }
    }
    m.maxiter = true;
  }
};
}

Model run_model(const CallHist& h, const std::vector<double>* slopes, double tolX, int fd)
{
  Machine M(h, tolX);
  M.fd = M.fd_left = fd;
  M.recorded = slopes;
  M.run();
  if (M.lost) return M.m;
  char b[200];
  bool ended = M.m.converged || M.m.gave_up || M.m.maxiter;
  if (ended && M.cur < h.ev.size()) {
    snprintf(b, sizeof b, "the model ends (%s) after %zu evaluations, the run made %zu", M.m.converged ? "converged" : (M.m.gave_up ? "gave up" : "iteration limit"), M.cur, h.ev.size());
    M.m.diffs.push_back(b);
  }
  return M.m;
}
