#include "host.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <limits>
#include <malloc.h>
#include <mpi.h>
#include <nlcglib.hpp>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <unistd.h>

std::vector<CallHist> g_hist;
size_t g_evals_done = 0;
using nlcglib::memory_type;

// ---------------------------------------------------------------- physics
static Mat rand_mat(Rng& g, int r, int c) { Mat M(r, c); for (auto& x : M.a) x = cplx(g.gauss(), g.gauss()) * std::sqrt(0.5); return M; }
static Mat rand_herm(Rng& g, int n, double s)
{
  Mat A = rand_mat(g, n, n), H(n, n);
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) H(i, j) = 0.5 * s * (A(i, j) + std::conj(A(j, i)));
  return H;
}

std::shared_ptr<Physics> make_physics(const Problem& p)
{
  auto P = std::make_shared<Physics>();
  P->p = p;
  Rng g(hcomb(p.seed, 0x9a11));
  std::vector<double> w(p.nk);
  double ws = 0;
  Rng gu(hcomb(p.seed, 0x3e19));
  bool uneven = gu.p(0.12);   // points of very different weight
  for (auto& x : w) { x = g.range(0.3, 1.5); if (uneven) x *= gu.logrange(1e-3, 1); ws += x; }
  for (auto& x : w) x /= ws;
  for (int s = 0; s < p.nspin; ++s) {
    for (int k = 0; k < p.nk; ++k) {
      KeyData d;
      int lab = p.labels == 1 ? 3 + 7 * k : p.labels == 2 ? 2 + 3 * (p.nk - k) : p.labels == 3 ? 1000000 + 11 * k : k;
      d.key = {lab, s};
      d.w = w[k];
      Rng h(hcomb(hcomb(p.seed, 77 + k), s));
      d.nb = p.nbvar ? std::max(1, p.nb - h.below(2)) : p.nb;
      d.n = std::max(d.nb + 1, h.in(p.nmin, p.nmax));
      Mat T = rand_herm(h, d.n, 0.12);
      for (int i = 0; i < d.n; ++i) T(i, i) += -0.6 + 1.6 * (i + 0.7 * h.u()) / d.n + p.shift;
      // random unitary mixing
      Mat Q = rand_mat(h, d.n, d.n);
      std::vector<double> ev; Mat V;
      { Mat R = rand_herm(h, d.n, 1.0); jacobi(R, ev, V); }
      T = mul(mul(V, T), adj(V));
      d.T = T;
      d.Sm = eye(d.n);
      if (p.overlap > 0) {
        Mat A = rand_mat(h, d.n, std::max(1, d.n / 3));
        Mat AA = mul(A, adj(A));
        double s2 = fro(AA);
        d.Sm = axpy(p.overlap / s2 * 2, AA, d.Sm);
      }
      // preconditioner: approximate inverse of a shifted diagonal, Hermitian positive definite
      {
        std::vector<double> te; Mat tv;
        jacobi(T, te, tv);
        Mat D(d.n, d.n);
        for (int i = 0; i < d.n; ++i) D(i, i) = 1.0 / (1.0 + std::max(0.0, te[i] - te[0]) * h.range(0.7, 1.4));
        d.K = mul(mul(tv, D), adj(tv));
        Mat N = rand_herm(h, d.n, 0.03);
        Mat NN = mul(N, adj(N));
        d.K = axpy(1.0, NN, d.K);
        for (int j = 0; j < d.n; ++j) for (int i = 0; i < j; ++i) { cplx m = 0.5 * (d.K(i, j) + std::conj(d.K(j, i))); d.K(i, j) = m; d.K(j, i) = std::conj(m); }
        for (int i = 0; i < d.n; ++i) d.K(i, i) = d.K(i, i).real();
      }
      for (int q = 0; q < p.ng; ++q) {
        Mat b = rand_mat(h, d.n, 2);
        Mat Bq = mul(b, adj(b));
        double f = fro(Bq);
        for (auto& x : Bq.a) x /= f;
        d.B.push_back(Bq);
      }
      // initial guess: S-orthonormal
      Mat X = rand_mat(h, d.n, d.nb);
      if (p.init == 1) {
        std::vector<double> te; Mat tv;
        jacobi(T, te, tv);
        for (int j = 0; j < d.nb; ++j) for (int i = 0; i < d.n; ++i) X(i, j) = tv(i, j) + 0.05 * X(i, j);
      }
      Mat G = mulh(X, mul(d.Sm, X));
      X = mul(X, invsqrt(G));
      d.X0 = X;
      d.f0.assign(d.nb, 0);
      P->keys.push_back(d);
      P->maxb = std::max(P->maxb, d.nb);
    }
  }
  double cap = 0;
  for (auto& d : P->keys) cap += d.w * d.nb * p.occ;
  for (auto& d : P->keys) for (auto& f : d.f0) f = p.occ * p.ne / cap;
  for (int q = 0; q < p.ng; ++q) { P->cg.push_back(p.coupling * g.range(0.3, 1.0)); P->rho0.push_back(g.range(0.0, 0.5) * p.ne / std::max(1, p.ng)); }
  return P;
}

void start_levels(const Physics& P, int k, double* e, int nb)
{
  if (P.p.init < 2) return;
  double m = 0;
  for (int j = 0; j < nb; ++j) m += e[j] / nb;
  Rng q(hcomb(P.p.seed, 0x5b17 + k));
  double split = P.p.init == 3 ? q.logrange(1e-9, 1e-2) : 0;
  for (int j = 0; j < nb; ++j) e[j] = m + (split ? split * (j + q.u()) : 0);
}
static double trace_fBX(const Mat& X, const Mat& B, const std::vector<double>& f)
{
  double s = 0;
  for (int j = 0; j < X.c; ++j) {
    double q = 0;
    for (int b = 0; b < X.r; ++b) {
      cplx v = 0;
      for (int a = 0; a < X.r; ++a) v += std::conj(X(a, j)) * B(a, b);
      q += (v * X(b, j)).real();
    }
    s += f[j] * q;
  }
  return s;
}

StateEnergy energy_of(const Physics& P, const std::vector<Mat>& X, const std::vector<std::vector<double>>& fn)
{
  StateEnergy e;
  e.rho.assign(P.p.ng, 0.0);
  for (size_t k = 0; k < P.keys.size(); ++k) {
    auto& d = P.keys[k];
    e.Eband += d.w * trace_fBX(X[k], d.T, fn[k]);
    for (int g = 0; g < P.p.ng; ++g) e.rho[g] += d.w * trace_fBX(X[k], d.B[g], fn[k]);
  }
  for (int g = 0; g < P.p.ng; ++g) e.Eint += 0.5 * P.cg[g] * (e.rho[g] - P.rho0[g]) * (e.rho[g] - P.rho0[g]);
  e.E = e.Eband + e.Eint;
  return e;
}
Mat hamiltonian(const Physics& P, int k, const std::vector<double>& rho)
{
  Mat H = P.keys[k].T;
  for (int g = 0; g < P.p.ng; ++g) H = axpy(P.cg[g] * (rho[g] - P.rho0[g]), P.keys[k].B[g], H);
  return H;
}

static double landscape(const Physics& P, const StateEnergy& e, const std::vector<std::vector<double>>& fn)
{
  const Problem& p = P.p;
  if (!p.landscape || p.lamp == 0) return 0;
  double q = e.Eband;
  for (size_t g = 0; g < e.rho.size(); ++g) q += 0.37 * (double)(g + 1) * e.rho[g];
  Rng r(hcomb(p.seed, 0x1a5d));
  double ph = r.range(0, 6.28), wl = r.logrange(0.002, 0.2);
  switch (p.landscape) {
    case 1: return p.lamp * std::sin(q / wl + ph);
    case 2: { double c = std::floor(q / wl + ph); return p.lamp * ((mix64((uint64_t)(int64_t)c ^ p.seed) >> 11) * (1.0 / 9007199254740992.0)); }
    case 3: { double c = q / wl + ph; double f = c - std::floor(c); return f < 0.15 ? p.lamp * 1e3 : 0; }
    case 4: { double c = std::floor(q / wl); return p.lamp * (c * wl - q); }
    case 5: { double c = (q - ph * 0.1) / wl; return -p.lamp * 20 * std::exp(-c * c); }
    case 6: return p.lamp * q;
    case 7: return p.lamp * (std::sin(q / wl + ph) + std::sin(31.4 * q / wl));
  }
  return 0;
}

// ---------------------------------------------------------------- guarded buffers
static const uint64_t CANARY = 0xc0de5afe0badf00dull;
struct Region   // raw memory with canaries around and in all unused places
{
  unsigned char* base = nullptr;
  size_t bytes = 0, mapped = 0;
  bool is_map = false;
};
static Region region_new(size_t payload, bool map)
{
  Region g;
  g.bytes = payload + 128;
  g.is_map = map;
  if (map) {
    g.mapped = (g.bytes + 4095) / 4096 * 4096;
    g.base = (unsigned char*)mmap(nullptr, g.mapped, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g.bytes = g.mapped;
  } else {
    g.bytes = (g.bytes + 7) / 8 * 8;
    g.base = (unsigned char*)malloc(g.bytes);
  }
  for (size_t i = 0; i + 8 <= g.bytes; i += 8) std::memcpy(g.base + i, &CANARY, 8);
  return g;
}
struct Buf
{
  int n = 0, m = 0, s0 = 1, s1 = 1;
  bool vec = false;
  Region g;
  std::vector<uint64_t> shadow;     // expected content of read-only buffers (whole region)
  std::vector<bool> cell;           // 8-byte cells that belong to the payload
  std::vector<Region> stale;        // earlier homes, poisoned
  cplx* z() { return (cplx*)(g.base + 64); }
  double* d() { return (double*)(g.base + 64); }
  void init(int n_, int m_, int stride, bool map)
  {
    n = n_; m = m_;
    switch (stride) {
      case 0: s0 = 1; s1 = n; break;
      case 1: s0 = 1; s1 = n + 3; break;
      case 2: s0 = m; s1 = 1; break;
      case 3: s0 = 2; s1 = 2 * n + 3; break;
      case 4: s0 = m + 2; s1 = 1; break;
    }
    g = region_new(((size_t)(n - 1) * s0 + (size_t)(m - 1) * s1 + 1) * 16 + 64, map);
    mark_cells();
  }
  void initv(int n_, bool map) { n = n_; m = 1; vec = true; g = region_new((size_t)n * 8 + 32, map); mark_cells(); }
  void mark_cells()
  {
    cell.assign(g.bytes / 8, false);
    if (vec) for (int i = 0; i < n; ++i) cell[8 + i] = true;
    else for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) { size_t o = 8 + 2 * ((size_t)i * s0 + (size_t)j * s1); cell[o] = cell[o + 1] = true; }
  }
  Mat get() { Mat M(n, m); for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) M(i, j) = z()[(size_t)i * s0 + (size_t)j * s1]; return M; }
  void put(const Mat& M) { for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) z()[(size_t)i * s0 + (size_t)j * s1] = M(i, j); }
  void seal() { shadow.resize(g.bytes / 8); std::memcpy(shadow.data(), g.base, g.bytes / 8 * 8); }
  // buffers on pages of their own that nobody but the host may write
  void lock(bool on) { if (g.is_map) mprotect(g.base, g.mapped, on ? PROT_READ : PROT_READ | PROT_WRITE); }
  // what: bit 1 payload may change
  bool intact(bool payload_free, std::string& why)
  {
    const uint64_t* q = (const uint64_t*)g.base;
    for (size_t i = 0; i < g.bytes / 8; ++i) {
      uint64_t v; std::memcpy(&v, q + i, 8);
      if (cell[i]) { if (!payload_free && !shadow.empty() && v != shadow[i]) { why = "content changed"; return false; } }
      else if (v != CANARY) { why = "memory outside the declared elements changed"; return false; }
    }
    for (auto& r : stale) if (!r.is_map) {
      for (size_t i = 0; i + 8 <= r.bytes; i += 8) { uint64_t v; std::memcpy(&v, r.base + i, 8); if (v != 0x7ff8dead0000beefull) { why = "memory given up by the host was written"; return false; } }
    }
    return true;
  }
  void relocate(int mode)
  {
    if (mode == 0) return;
    Region o = g;
    Region q = region_new(o.bytes - 128, mode == 2);
    // same payload
    size_t words = std::min(o.bytes, q.bytes) / 8;
    for (size_t i = 0; i < words; ++i) if (i < cell.size() && cell[i]) std::memcpy(q.base + 8 * i, o.base + 8 * i, 8);
    g = q;
    mark_cells();
    if (mode == 2 && o.is_map) mprotect(o.base, o.mapped, PROT_NONE);
    else { uint64_t nan = 0x7ff8dead0000beefull; for (size_t i = 0; i + 8 <= o.bytes; i += 8) std::memcpy(o.base + i, &nan, 8); stale.push_back(o); }
    if (stale.size() > 16) { free(stale.front().base); stale.erase(stale.begin()); }
  }
};

// ---------------------------------------------------------------- the host of one call
struct Host
{
  int call;
  std::shared_ptr<Physics> phys;
  Call spec;
  int nranks;
  int commid;
  void* comm;
  std::vector<int> members;
  std::vector<int> owner;                                  // per key
  std::vector<std::vector<int>> local;                     // per rank: keys (natural order)
  struct RankBufs { std::vector<Buf> C, H, Sx, fn, ek, gk; std::vector<double> mu; long evals = 0; std::map<std::string, long> cb; int iters = 0; };
  std::vector<RankBufs> rb;
  StateEnergy last;
  double E_rep = 0;
  std::vector<bool> fn_set;
  std::vector<double> chem;
  std::vector<bool> mu_first;
  std::vector<double> mu_pending;
  CallHist* hist;
  std::vector<std::vector<double>> fn;                     // per key, as set
  size_t iter_start = 0;
  int blocked_iter = -1; long blocked_n = 0;
};
static std::vector<std::unique_ptr<Host>> hosts;

static void complain(Host* h, const std::string& s)
{
  if (h->hist->complaints.size() < 20) h->hist->complaints.push_back(s);
}

struct HostCall
{
  LibGuard lg;
  int r;
  long occ;
  HostCall(Host* h, const char* name) : lg(false), r(S->current)
  {
    if (!sim_on_main_thread()) { fprintf(stderr, "SIM: host callback %s from a thread the library started\n", name); _exit(98); }
    occ = h->rb[r].cb[name]++;
    sim_event(r, std::string("host ") + name, (uint64_t)occ);
    if (std::string(name) != "compute") maybe_throw(h, name);
    if ((mix64(hcomb(S->spec.sseed, hcomb(r, S->opcount[r]))) & 7) == 0) sim_yield(name);
  }
  void maybe_throw(Host* h, const char* name)
  {
    if (const Fault* f = fault_hit("host_throw", name, r, h->call, occ)) {
      int kind = (int)f->value;
      if (kind == 1) throw std::runtime_error("simulated host failure: runtime_error");
      if (kind == 2) throw HostThrowPlain{4242};
      if (kind == 3) throw std::bad_alloc();
      if (kind == 4) throw std::logic_error("simulated host failure: logic_error");
      throw HostThrow(4242);
    }
  }
};

static std::vector<int> order_of(Host* h, int r, int what)
{
  std::vector<int> o(h->local[r].size());
  for (size_t i = 0; i < o.size(); ++i) o[i] = (int)i;
  if (h->spec.l.order) {
    Rng g(hcomb(hcomb(h->spec.l.order, what), r));
    for (int i = (int)o.size() - 1; i > 0; --i) std::swap(o[i], o[g.below(i + 1)]);
  }
  return o;
}

template <class BASE> struct BufSet : BASE
{
  using buffer_t = typename BASE::buffer_t;
  Host* h; int r; std::vector<int> ord; std::vector<Buf>* bufs;
  std::vector<unsigned char*> at;          // where the buffers were when the container was made
  memory_type mt = memory_type::host;
  int mt_only = -1;                        // the only entry with that memory type; -1: all
  BufSet(Host* h, int r, int what, std::vector<Buf>* b) : h(h), r(r), ord(order_of(h, r, what)), bufs(b)
  {
    for (int q : ord) at.push_back((unsigned char*)((*b)[q].vec ? (void*)(*b)[q].d() : (void*)(*b)[q].z()));
  }
  buffer_t mk(int i) const
  {
    LibGuard lg(false);
    if (i < 0 || i >= (int)ord.size()) { complain(h, "container accessed outside its size"); throw std::out_of_range("container"); }
    Buf& b = (*bufs)[ord[i]];
    memory_type mt = mt_only >= 0 && i != mt_only % (int)ord.size() ? memory_type::host : this->mt;
    if (mt != memory_type::host) sim_probe("device memory handed out");
    if constexpr (std::is_same<BASE, nlcglib::MatrixBaseZ>::value)
      return buffer_t({b.s0, b.s1}, {b.n, b.m}, (std::complex<double>*)at[i], mt, MPI_COMM_SELF);
    else
      return buffer_t(b.n, (double*)at[i], mt, MPI_COMM_SELF);
  }
  buffer_t get(int i) override { return mk(i); }
  const buffer_t get(int i) const override { return mk(i); }
  int size() const override { return (int)ord.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return (MPI_Comm)h->comm; }
  Key kpoint_index(int i) const override { return h->phys->keys[h->local[r][ord[i]]].key; }
};
struct ScalarSet : nlcglib::ScalarBaseZ
{
  Host* h; int r; std::vector<int> ord;
  ScalarSet(Host* h, int r) : h(h), r(r), ord(order_of(h, r, 9)) {}
  double get(int i) override { return h->phys->keys[h->local[r][ord[i]]].w; }
  const double get(int i) const override { return h->phys->keys[h->local[r][ord[i]]].w; }
  int size() const override { return (int)ord.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return (MPI_Comm)h->comm; }
  Key kpoint_index(int i) const override { return h->phys->keys[h->local[r][ord[i]]].key; }
};

static void check_buffers(Host* h, int r)
{
  std::string why;
  auto& b = h->rb[r];
  for (auto& x : b.C) if (!x.intact(true, why)) complain(h, "wave function buffer: " + why);
  for (auto& x : b.H) if (!x.intact(false, why)) complain(h, "H*psi buffer: " + why);
  for (auto& x : b.Sx) if (!x.intact(false, why)) complain(h, "S*psi buffer: " + why);
  for (auto& x : b.fn) if (!x.intact(false, why)) complain(h, "occupation buffer: " + why);
  for (auto& x : b.ek) if (!x.intact(false, why)) complain(h, "band energy buffer: " + why);
  for (auto& x : b.gk) if (!x.intact(false, why)) complain(h, "kinetic energy buffer: " + why);
}

static bool same_state(Host* h, const Eval& a, const Eval& b)
{
  for (size_t k = 0; k < a.X.size(); ++k) {
    Mat fa = a.X[k], fb = b.X[k];
    for (int j = 0; j < fa.c; ++j) for (int i = 0; i < fa.r; ++i) { fa(i, j) *= a.fn[k][j]; fb(i, j) *= b.fn[k][j]; }
    Mat D = axpy(-1.0, mul(fb, adj(b.X[k])), mul(fa, adj(a.X[k])));
    if (!(fro(D) < 5e-10)) return false;   // the electron number is solved to 1e-11
    // bands may come back in another order
    auto u = a.fn[k], w = b.fn[k];
    std::sort(u.begin(), u.end()); std::sort(w.begin(), w.end());
    for (size_t j = 0; j < u.size(); ++j) if (!(std::abs(u[j] - w[j]) < 5e-10)) return false;
  }
  (void)h;
  return true;
}

// entropy of one state from its occupations (monotone smearings)
double entropy_from_f(const CallHist& h, const std::vector<std::vector<double>>& fn)
{
  auto& P = *h.phys;
  double s = 0;
  for (size_t k = 0; k < P.keys.size(); ++k)
    for (double f : fn[k]) {
      if (!(f > 0) || !(f < P.p.occ)) continue;
      s += P.keys[k].w * ref::entropy(P.p.smearing, ref::inverse(P.p.smearing, f, P.p.occ, 1e9), P.p.occ);
    }
  return -ref::kb * P.p.T * s;
}
static double bad_number(const Fault& f) { return f.value == 0 ? std::numeric_limits<double>::quiet_NaN() : f.value > 0 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity(); }
static void do_compute(Host* h)
{
  for (auto& R : h->rb)
    for (auto* v : {&R.H, &R.Sx, &R.ek, &R.gk})
      for (auto& b : *v) b.lock(false);
  auto& P = *h->phys;
  size_t nk = P.keys.size();
  Eval e;
  e.X.resize(nk);
  e.fn = h->fn;
  std::vector<int> slot(nk);
  for (int r = 0; r < h->nranks; ++r)
    for (size_t i = 0; i < h->local[r].size(); ++i) { e.X[h->local[r][i]] = h->rb[r].C[i].get(); slot[h->local[r][i]] = (int)i; }
  e.fn_set = true;
  for (int r = 0; r < h->nranks; ++r) if (!h->fn_set[r]) e.fn_set = false;
  StateEnergy se = energy_of(P, e.X, e.fn);
  h->last = se;
  e.rho = se.rho;
  e.E_true = se.E;
  e.mu.assign(h->nranks, std::numeric_limits<double>::quiet_NaN());
  for (int r = 0; r < h->nranks; ++r) if (h->mu_first[r]) e.mu[r] = h->mu_pending[r];
  int it = 0;
  for (auto& x : h->rb) it = std::max(it, x.iters);
  e.iter = it - 1;
  double w = 0;
  uint64_t hs = 5;
  for (size_t k = 0; k < nk; ++k) {
    auto& d = P.keys[k];
    Mat SX = mul(d.Sm, e.X[k]);
    Mat O = mulh(e.X[k], SX);
    for (int i = 0; i < O.r; ++i) O(i, i) -= 1.0;
    for (auto& z : O.a) { double q = std::abs(z); if (!(q <= e.ortho)) e.ortho = q; }
    for (double f : e.fn[k]) { w += d.w * f; hs = hcomb(hs, dbits(f)); }
    for (auto& z : e.X[k].a) hs = hcomb(hcomb(hs, dbits(z.real())), dbits(z.imag()));
    Mat HX = mul(hamiltonian(P, (int)k, se.rho), e.X[k]);
    int r = h->owner[k];
    auto& R = h->rb[r];
    int s = slot[k];
    if (s == 0)
      if (const Fault* f = fault_hit("nan_data", "H", r, h->call, (long)h->hist->ev.size())) HX.a[mix64(P.p.seed + h->hist->ev.size()) % HX.a.size()] = bad_number(*f);
    R.H[s].put(HX);
    R.Sx[s].put(SX);
    for (int j = 0; j < e.X[k].c; ++j) {
      cplx v = 0;
      for (int i = 0; i < e.X[k].r; ++i) v += std::conj(e.X[k](i, j)) * HX(i, j);
      R.ek[s].d()[j] = v.real();
    }
    if (h->hist->ev.empty()) start_levels(P, (int)k, R.ek[s].d(), e.X[k].c);
    if (s == 0)
      if (const Fault* f = fault_hit("nan_data", "ek", r, h->call, (long)h->hist->ev.size())) R.ek[s].d()[mix64(P.p.seed) % e.X[k].c] = bad_number(*f);
  }
  e.nel = w;
  e.hash = hs;
  long idx = (long)h->hist->ev.size();
  // iteration-level disturbance: trial points of an iteration look worse than its start
  int mk = e.iter;
  if (mk != h->blocked_iter) { h->blocked_iter = mk; h->blocked_n = 0; h->iter_start = idx > 0 ? idx - 1 : 0; }
  // the same state has the same energy, also next to a cliff
  bool same = !h->hist->ev.empty() && same_state(h, e, h->hist->ev[h->iter_start]);
  e.same = same;
  if (same) { auto& q = h->hist->ev[h->iter_start]; e.land = q.wild ? q.land : q.E_rep - q.E_true; }
  else e.land = landscape(P, se, e.fn);
  double E = se.E + e.land;
  for (auto& f : S->spec.faults) {
    if (f.call != h->call && f.call != -1) continue;
    bool hit = false;
    if (f.kind == "energy_add") hit = idx >= f.nth && idx < f.nth + f.count;
    else if (f.kind == "energy_noise") hit = idx >= f.nth && idx < f.nth + f.count;
    else if (f.kind == "energy_nan") hit = idx >= f.nth && idx < f.nth + f.count;
    else if (f.kind == "energy_block" && mk >= f.nth && mk < f.nth + f.count && mk >= 0) {
      long lim = f.target.empty() ? 1000000 : atol(f.target.c_str());
      hit = !same && h->blocked_n < lim;
    }
    else if (f.kind == "energy_tie" && mk >= f.nth && mk < f.nth + f.count && mk >= 0 && P.p.smearing <= 2) {
      long lim = f.target.empty() ? 1000000 : atol(f.target.c_str());
      hit = !same && h->blocked_n >= 1 && h->blocked_n < lim;
    }
    if (!hit) continue;
    S->fired[f.kind]++;
    e.disturbed = true;
    if (f.kind != "energy_block" && f.kind != "energy_tie") e.wild = true;
    if (f.kind == "energy_nan") {
      if (f.value == 1) E = std::numeric_limits<double>::infinity();
      else if (f.value == -1) E = -std::numeric_limits<double>::infinity();
      else E = std::numeric_limits<double>::quiet_NaN();
    } else if (f.kind == "energy_noise") E += f.value * (2.0 * (mix64(hcomb(P.p.seed, 0xe0 + idx)) >> 11) * (1.0 / 9007199254740992.0) - 1.0);
    else if (f.kind == "energy_tie") {
      auto& q = h->hist->ev[h->iter_start];
      double F0 = q.E_rep + entropy_from_f(*h->hist, q.fn);
      E = F0 + f.value * (1 + std::abs(F0)) - entropy_from_f(*h->hist, e.fn);
    } else E += f.value;
  }
  h->blocked_n++;
  e.E_rep = E;
  h->E_rep = E;
  h->hist->ev.push_back(std::move(e));
  g_evals_done++;
  for (auto& R : h->rb) {
    for (auto* v : {&R.C, &R.H, &R.Sx, &R.fn, &R.ek, &R.gk})
      for (auto& b : *v) b.relocate(h->spec.l.reloc);
    for (auto* v : {&R.H, &R.Sx, &R.fn, &R.ek, &R.gk})
      for (auto& b : *v) b.seal();
    for (auto* v : {&R.H, &R.Sx, &R.ek, &R.gk})
      for (auto& b : *v) b.lock(true);
  }
}

struct HostEnergy : nlcglib::EnergyBase
{
  Host* h; int r;
  HostEnergy(Host* h, int r) : h(h), r(r) {}
  void compute() override
  {
    HostCall hc(h, "compute");
    check_buffers(h, r);
    h->hist->requested[r] = h->rb[r].iters - 1;
    const Fault* f = nullptr;
    for (auto& x : S->spec.faults) if (x.kind == "host_throw" && x.target == "compute" && x.rank != -1) f = &x;
    if (f) hc.maybe_throw(h, "compute");   // one rank fails before it meets the others
    int id, mi; std::vector<int> m;
    comm_members(h->comm, id, m, mi);
    Host* hh = h;
    sim_rendezvous(id, m, "host_compute", 1, nullptr, [hh](Rendezvous&) { do_compute(hh); });
    if (!f) hc.maybe_throw(h, "compute");
  }
  int nelectrons() override { HostCall hc(h, "nelectrons"); return h->phys->p.ne; }
  int occupancy() override { HostCall hc(h, "occupancy"); return h->phys->p.occ; }
  double get_total_energy() override { HostCall hc(h, "get_total_energy"); return h->E_rep; }
  std::map<std::string, double> get_energy_components() override
  {
    HostCall hc(h, "get_energy_components");
    return {{"EBAND", h->last.Eband}, {"EINT", h->last.Eint}, {"ETOT", h->E_rep}};
  }
  std::shared_ptr<nlcglib::MatrixBaseZ> mat(const char* n, std::vector<Buf>* b, int what, memory_type mt)
  {
    HostCall hc(h, n);
    if (mt != memory_type::host) complain(h, std::string(n) + " asked for memory that is not host memory");
    auto c = std::make_shared<BufSet<nlcglib::MatrixBaseZ>>(h, r, what, b);
    if (const Fault* f = fault_hit("device_buffer", n, r, h->call, hc.occ)) { c->mt = memory_type::device; c->mt_only = (int)f->value - 1; }
    return c;
  }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_hphi(memory_type m) override { return mat("get_hphi", &h->rb[r].H, 1, m); }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_sphi(memory_type m) override { return mat("get_sphi", &h->rb[r].Sx, 2, m); }
  std::shared_ptr<nlcglib::MatrixBaseZ> get_C(memory_type m) override { return mat("get_C", &h->rb[r].C, 3, m); }
  std::shared_ptr<nlcglib::VectorBaseZ> vec(const char* n, std::vector<Buf>* b, int what)
  {
    HostCall hc(h, n);
    auto c = std::make_shared<BufSet<nlcglib::VectorBaseZ>>(h, r, what, b);
    if (const Fault* f = fault_hit("device_buffer", n, r, h->call, hc.occ)) { c->mt = memory_type::device; c->mt_only = (int)f->value - 1; }
    return c;
  }
  std::shared_ptr<nlcglib::VectorBaseZ> get_fn() override { return vec("get_fn", &h->rb[r].fn, 4); }
  std::shared_ptr<nlcglib::VectorBaseZ> get_ek() override { return vec("get_ek", &h->rb[r].ek, 5); }
  std::shared_ptr<nlcglib::VectorBaseZ> get_gkvec_ekin() override { return vec("get_gkvec_ekin", &h->rb[r].gk, 6); }
  void set_fn(const std::vector<Key>& keys, const std::vector<std::vector<double>>& v) override
  {
    HostCall hc(h, "set_fn");
    if (keys.size() != v.size() || keys.size() != h->local[r].size()) { complain(h, "set_fn: wrong number of k-points"); }
    std::vector<bool> seen(h->local[r].size(), false);
    for (size_t i = 0; i < keys.size() && i < v.size(); ++i) {
      bool found = false;
      for (size_t s = 0; s < h->local[r].size(); ++s) {
        int k = h->local[r][s];
        if (h->phys->keys[k].key != keys[i]) continue;
        found = true;
        if (seen[s]) complain(h, "set_fn: k-point given twice");
        seen[s] = true;
        if ((int)v[i].size() != h->phys->keys[k].nb) { complain(h, "set_fn: wrong number of bands"); continue; }
        h->fn[k] = v[i];
        for (int j = 0; j < (int)v[i].size(); ++j) h->rb[r].fn[s].d()[j] = v[i][j];
        h->rb[r].fn[s].seal();
      }
      if (!found) complain(h, "set_fn: k-point that is not on this rank");
    }
    for (bool b : seen) if (!b) complain(h, "set_fn: k-point left out");
    h->fn_set[r] = true;
  }
  std::shared_ptr<nlcglib::ScalarBaseZ> get_kpoint_weights() override { HostCall hc(h, "get_kpoint_weights"); return std::make_shared<ScalarSet>(h, r); }
  void set_chemical_potential(double m) override
  {
    HostCall hc(h, "set_chemical_potential");
    h->chem[r] = m;
    h->hist->chem_set[r] = m;
    // it belongs to the evaluation before it, unless the library sets it before evaluating
    size_t n = h->hist->ev.size();
    if (n == 1) h->mu_first[r] = true;
    if (h->mu_first[r]) h->mu_pending[r] = m;
    else if (n > 0) h->hist->ev.back().mu[r] = m;
  }
  double get_chemical_potential() override { HostCall hc(h, "get_chemical_potential"); return h->chem[r]; }
  void print_info() const override
  {
    HostCall hc(h, "print_info");
    check_buffers(h, r);
    h->rb[r].iters++;
    h->hist->marks[r].push_back(h->hist->ev.size());
  }
};

struct HostOp
{
  Host* h; int r; bool overlap;
  void apply(const Key& key, nlcglib::MatrixBaseZ::buffer_t& out, nlcglib::MatrixBaseZ::buffer_t& in) const
  {
    HostCall hc(h, overlap ? "overlap" : "precond");
    int k = -1;
    for (int q : h->local[r]) if (h->phys->keys[q].key == key) k = q;
    if (k < 0) { complain(h, "operator applied to a k-point that is not on this rank"); throw std::out_of_range("k-point"); }
    auto& d = h->phys->keys[k];
    if (in.size[0] != d.n || out.size[0] != d.n || in.size[1] != out.size[1]) { complain(h, "operator applied to a matrix of wrong size"); throw std::out_of_range("size"); }
    if (in.memtype != memory_type::host || out.memtype != memory_type::host) complain(h, "operator applied to memory that is not host memory");
    Mat X(d.n, in.size[1]);
    for (int j = 0; j < X.c; ++j) for (int i = 0; i < X.r; ++i) X(i, j) = in.data[(size_t)i * in.stride[0] + (size_t)j * in.stride[1]];
    Mat Y = mul(overlap ? d.Sm : d.K, X);
    if (const Fault* f = fault_hit("nan_data", overlap ? "overlap" : "precond", r, h->call, hc.occ)) Y.a[mix64(h->phys->p.seed + hc.occ) % Y.a.size()] = bad_number(*f);
    for (int j = 0; j < X.c; ++j) for (int i = 0; i < X.r; ++i) out.data[(size_t)i * out.stride[0] + (size_t)j * out.stride[1]] = Y(i, j);
    h->hist->applies++;
  }
  std::vector<Key> get_keys() const
  {
    HostCall hc(h, "get_keys");
    std::vector<Key> v;
    for (int i : order_of(h, r, overlap ? 7 : 8)) v.push_back(h->phys->keys[h->local[r][i]].key);
    return v;
  }
};
struct HostOverlap : nlcglib::OverlapBase
{
  HostOp o;
  HostOverlap(Host* h, int r) : o{h, r, true} {}
  void apply(const key_t& k, nlcglib::MatrixBaseZ::buffer_t& out, nlcglib::MatrixBaseZ::buffer_t& in) const override { o.apply(k, out, in); }
  std::vector<key_t> get_keys() const override { return o.get_keys(); }
};
struct HostPrecond : nlcglib::UltrasoftPrecondBase
{
  HostOp o;
  HostPrecond(Host* h, int r) : o{h, r, false} {}
  void apply(const key_t& k, nlcglib::MatrixBaseZ::buffer_t& out, nlcglib::MatrixBaseZ::buffer_t& in) const override { o.apply(k, out, in); }
  std::vector<key_t> get_keys() const override { return o.get_keys(); }
};

uint64_t CallHist::hash() const
{
  uint64_t h = 11;
  for (auto& e : ev) { h = hcomb(hcomb(h, e.hash), dbits(e.E_rep)); for (double m : e.mu) h = hcomb(h, std::isnan(m) ? 1 : dbits(m)); }
  for (auto& m : marks) for (auto x : m) h = hcomb(h, x);
  return h;
}

static void make_host(int c)
{
  const Call& cs = S->spec.calls[c];
  auto h = std::make_unique<Host>();
  h->call = c;
  h->spec = cs;
  h->phys = make_physics(cs.p);
  h->nranks = S->nranks;
  int nk = (int)h->phys->keys.size();
  h->comm = cs.l.comm == 0 ? (void*)MPI_COMM_WORLD : (cs.l.comm == 1 ? make_dup_comm() : make_reversed_comm());
  h->local.resize(h->nranks);
  for (int k = 0; k < nk; ++k) {
    int r = k < (int)cs.l.assign.size() ? cs.l.assign[k] : k % h->nranks;
    r %= h->nranks;
    h->owner.push_back(r);
    h->local[r].push_back(k);
  }
  h->rb.resize(h->nranks);
  h->fn_set.assign(h->nranks, false);
  h->chem.assign(h->nranks, 0.0);
  h->mu_first.assign(h->nranks, false);
  h->mu_pending.assign(h->nranks, std::numeric_limits<double>::quiet_NaN());
  for (int k = 0; k < nk; ++k) h->fn.push_back(h->phys->keys[k].f0);
  bool map = cs.l.reloc == 2;
  for (int r = 0; r < h->nranks; ++r) {
    auto& R = h->rb[r];
    for (int k : h->local[r]) {
      auto& d = h->phys->keys[k];
      auto add = [&](std::vector<Buf>& v, const Mat* M) { v.emplace_back(); v.back().init(d.n, d.nb, cs.l.stride, map); v.back().put(M ? *M : Mat(d.n, d.nb)); v.back().seal(); };
      add(R.C, &d.X0); add(R.H, nullptr); add(R.Sx, nullptr);
      auto addv = [&](std::vector<Buf>& v, int n, const std::vector<double>* x) { v.emplace_back(); v.back().initv(n, map); for (int i = 0; i < n; ++i) v.back().d()[i] = x ? (*x)[i] : 0.1 * i; v.back().seal(); };
      addv(R.fn, d.nb, &d.f0); addv(R.ek, d.nb, nullptr); addv(R.gk, d.n, nullptr);
    }
  }
  h->hist = &g_hist[c];
  h->hist->phys = h->phys;
  h->hist->call = cs;
  h->hist->marks.resize(h->nranks);
  h->hist->cb.resize(h->nranks);
  h->hist->requested.assign(h->nranks, -1);
  h->hist->final_same.assign(h->nranks, 0);
  h->hist->chem_set.assign(h->nranks, std::numeric_limits<double>::quiet_NaN());
  hosts[c] = std::move(h);
}

void host_new_call(int c)
{
  if (hosts.size() != S->spec.calls.size()) { hosts.clear(); hosts.resize(S->spec.calls.size()); g_hist.clear(); g_hist.resize(S->spec.calls.size()); g_evals_done = 0; }
  if (!hosts[c]) make_host(c);
}
void host_call_done(int rank, int c)
{
  Host* h = hosts[c].get();
  check_buffers(h, rank);
  h->hist->cb[rank] = h->rb[rank].cb;
  bool same = !h->hist->ev.empty();
  if (same) {
    auto& e = h->hist->ev.back();
    for (size_t i = 0; i < h->local[rank].size(); ++i) {
      int k = h->local[rank][i];
      Mat C = h->rb[rank].C[i].get();
      for (size_t q = 0; q < C.a.size(); ++q) if (dbits(C.a[q].real()) != dbits(e.X[k].a[q].real()) || dbits(C.a[q].imag()) != dbits(e.X[k].a[q].imag())) same = false;
      for (size_t q = 0; q < e.fn[k].size(); ++q) if (dbits(e.fn[k][q]) != dbits(h->fn[k][q])) same = false;
    }
    if (dbits(h->chem[rank]) != dbits(e.mu[rank])) same = false;
  }
  h->hist->final_same[rank] = same;
}

// ---------------------------------------------------------------- library copies
typedef nlcglib::nlcg_info (*us_fn)(nlcglib::EnergyBase&, nlcglib::UltrasoftPrecondBase&, nlcglib::OverlapBase&, nlcglib::smearing_type, double, double, double, double, int, int);
typedef nlcglib::nlcg_info (*mvp_fn)(nlcglib::EnergyBase&, nlcglib::smearing_type, double, double, double, double, int, int);
struct Lib { us_fn us[4]; mvp_fn mvp[4]; };
static std::vector<Lib> libs;

static void* must(void* h, const char* s)
{
  void* p = dlsym(h, s);
  if (!p) { fprintf(stderr, "missing symbol %s\n", s); _exit(2); }
  return p;
}
void load_libraries(const std::string& so, int n, const std::string& dir)
{
  for (int i = 0; i < n; ++i) {
    std::string dst = dir + "/rank" + std::to_string(i) + ".so";
    void* h = dlopen(dst.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(2); }
    Lib l;
    const char* us[] = {"nlcg_us_cpu", "nlcg_us_device_cpu", "nlcg_us_device", "nlcg_us_cpu_device"};
    const char* mv[] = {"nlcg_mvp2_cpu", "nlcg_mvp2_device", "nlcg_mvp2_cpu_device", "nlcg_mvp2_device_cpu"};
    for (int k = 0; k < 4; ++k) {
      std::string a = std::string("_ZN7nlcglib") + std::to_string(strlen(us[k])) + us[k] + "ERNS_10EnergyBaseERNS_20UltrasoftPrecondBaseERNS_11OverlapBaseENS_13smearing_typeEddddii";
      std::string b = std::string("_ZN7nlcglib") + std::to_string(strlen(mv[k])) + mv[k] + "ERNS_10EnergyBaseENS_13smearing_typeEddddii";
      l.us[k] = (us_fn)must(h, a.c_str());
      l.mvp[k] = (mvp_fn)must(h, b.c_str());
    }
    if (i == 0) ((void (*)())must(h, "_ZN7nlcglib10initializeEv"))();
    libs.push_back(l);
  }
  (void)so;
}

RankResult host_run_call(int r, int c)
{
  RankResult res;
  Host* h = hosts[c].get();
  HostEnergy E(h, r);
  HostOverlap O(h, r);
  HostPrecond P(h, r);
  const Params& a = h->spec.a;
  const Problem& p = h->spec.p;
  // poison the stack below, so that values read before they are written are visible
  {
    volatile unsigned char junk[24000];
    for (size_t i = 0; i < sizeof junk; ++i) junk[i] = (unsigned char)(S->spec.perturb ? S->spec.perturb : 0xa5);
  }
  try {
    nlcglib::nlcg_info info;
    {
      LibGuard lg(true);
      int e = a.entry;
      auto sm = (nlcglib::smearing_type)p.smearing;
      if (e < 4) info = libs[r].us[e](E, P, O, sm, p.T == -1 ? std::numeric_limits<double>::quiet_NaN() : p.T == -2 ? -std::numeric_limits<double>::infinity() : p.T, a.tol, a.kappa, a.tau, a.maxiter, a.restart);
      else info = libs[r].mvp[e - 4](E, sm, p.T == -1 ? std::numeric_limits<double>::quiet_NaN() : p.T == -2 ? -std::numeric_limits<double>::infinity() : p.T, a.tol, a.kappa, a.tau, a.maxiter, a.restart);
    }
    res.status = 0;
    res.tolerance = info.tolerance; res.F = info.F; res.S = info.S; res.iter = info.iter; res.converged = info.converged;
  } catch (HostThrow& e) {
    res.status = 1; res.etype = "HostThrow"; res.eid = e.id;
  } catch (HostThrowPlain& e) {
    res.status = 1; res.etype = "HostThrowPlain"; res.eid = e.id;
  } catch (std::bad_alloc& e) {
    res.status = 1; res.etype = "std::bad_alloc"; res.what = e.what();
  } catch (std::runtime_error& e) {
    res.status = 1; res.etype = "std::runtime_error"; res.what = e.what();
  } catch (std::logic_error& e) {
    res.status = 1; res.etype = "std::logic_error"; res.what = e.what();
  } catch (std::exception& e) {
    res.status = 1; res.etype = "std::exception"; res.what = e.what();
  } catch (...) {
    res.status = 1; res.etype = "unknown";
  }
  return res;
}
