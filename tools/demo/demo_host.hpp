// Small stand-in for the host DFT code, for demonstrations (real MPI, real library).
#pragma once
#include <mpi.h>
#include <unistd.h>
#include <map>
#include <stdexcept>
#include <nlcglib.hpp>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>
namespace demo {
using namespace nlcglib;
typedef std::complex<double> cplx;
struct Lcg { unsigned long s; double u() { s = s * 6364136223846793005ul + 1442695040888963407ul; return (double)(s >> 33) / 2147483648.0; } double g() { return 2 * u() - 1; } };
struct M {   // column major
  int r = 0, c = 0; std::vector<cplx> a;
  M() {} M(int r, int c) : r(r), c(c), a((size_t)r * c) {}
  cplx& operator()(int i, int j) { return a[i + (size_t)j * r]; }
  cplx operator()(int i, int j) const { return a[i + (size_t)j * r]; }
};
inline M mul(const M& A, const M& B) { M C(A.r, B.c); for (int j = 0; j < B.c; ++j) for (int k = 0; k < A.c; ++k) for (int i = 0; i < A.r; ++i) C(i, j) += A(i, k) * B(k, j); return C; }
inline M mulh(const M& A, const M& B) { M C(A.c, B.c); for (int j = 0; j < B.c; ++j) for (int i = 0; i < A.c; ++i) for (int k = 0; k < A.r; ++k) C(i, j) += std::conj(A(k, i)) * B(k, j); return C; }

struct Opt {
  int nk = 3, nspin = 1, nb = 4, n = 9, ne = 5, occ = 2;
  bool vary_n = true;              // basis size differs between k-points
  double T = 2000, tol = 1e-9, kappa = 0.3, tau = 0.1, coupling = 0.5, overlap = 0.4, shift = 0;
  int maxiter = 100, restart = 10;
  smearing_type sm = smearing_type::FERMI_DIRAC;
  unsigned long seed = 12345;
  int pad = 0;                     // padding of the leading dimension
  bool row_major = false;
  bool reverse = false;            // order of the entries
  std::vector<int> assign;         // rank of each (k-point, spin)
};
struct Key { std::pair<int, int> key; double w; int n; M T, S, K, B, X0; };
struct State { double E = 0, mu = 0, nel = 0, ortho = 0, rho = 0; std::vector<std::vector<double>> fn; std::vector<M> X; int iter = -1; };
struct World {
  Opt o; MPI_Comm comm = MPI_COMM_WORLD; int rank = 0, size = 1;
  std::vector<Key> keys; std::vector<int> mine;
  std::vector<std::vector<cplx>> C, H, Sx, retired; std::vector<std::vector<double>> fn, ek;
  double mu = 0, E = 0, rho = 0; int evals = 0, iters = 0;
  std::vector<State> hist;                              // of this rank
  std::function<double(int, double)> energy;            // evaluation number, true energy
  std::function<void(const char*, int)> call;           // called at every callback
  std::vector<int> marks;
  std::map<std::string, int> ncall;
  int ld(int k) const { return (o.row_major ? o.nb : keys[k].n) + o.pad; }
  size_t at(int k, int i, int j) const { return o.row_major ? (size_t)i * ld(k) + j : (size_t)j * ld(k) + i; }
  size_t len(int k) const { return (size_t)ld(k) * (o.row_major ? keys[k].n : o.nb); }
  void note(const char* n) { int c = ncall[n]++; if (call) call(n, c); }
  World(Opt opt) : o(opt) {
    MPI_Comm_rank(comm, &rank); MPI_Comm_size(comm, &size);
    Lcg g{o.seed}; double ws = 0; std::vector<double> w(o.nk);
    for (auto& x : w) { x = 0.5 + g.u(); ws += x; }
    for (int s = 0; s < o.nspin; ++s) for (int k = 0; k < o.nk; ++k) {
      Key d; d.key = {k, s}; d.w = w[k] / ws; d.n = o.n + (o.vary_n ? k % 3 : 0); int n = d.n;
      auto herm = [&](double sc) { M A(n, n); for (int j = 0; j < n; ++j) for (int i = 0; i <= j; ++i) { A(i, j) = sc * cplx(g.g(), i == j ? 0 : g.g()); A(j, i) = std::conj(A(i, j)); } return A; };
      d.T = herm(0.15); for (int i = 0; i < n; ++i) d.T(i, i) += -0.5 + 1.5 * i / n + o.shift;
      d.B = herm(0.4); d.S = M(n, n); d.K = M(n, n);
      std::vector<cplx> v(n); for (auto& x : v) x = cplx(g.g(), g.g());
      for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) d.S(i, j) = o.overlap / n * v[i] * std::conj(v[j]); d.S(i, i) += 1; d.K(i, i) = 1 / (1 + 1.5 * i / n); }
      d.X0 = M(n, o.nb); for (auto& x : d.X0.a) x = cplx(g.g(), g.g());
      for (int j = 0; j < o.nb; ++j) for (int q = 0; q < 2; ++q) {   // Gram-Schmidt in S
        M SX = mul(d.S, d.X0);
        for (int l = 0; l < j; ++l) { cplx p = 0; for (int i = 0; i < n; ++i) p += std::conj(SX(i, l)) * d.X0(i, j); for (int i = 0; i < n; ++i) d.X0(i, j) -= p * d.X0(i, l); }
        SX = mul(d.S, d.X0); double nn = 0; for (int i = 0; i < n; ++i) nn += (std::conj(d.X0(i, j)) * SX(i, j)).real();
        for (int i = 0; i < n; ++i) d.X0(i, j) /= std::sqrt(nn);
      }
      keys.push_back(d);
    }
    for (size_t i = 0; i < keys.size(); ++i) { int r = o.assign.empty() ? (int)(i % size) : o.assign[i] % size; if (r == rank) mine.push_back((int)i); }
    if (o.reverse) mine = std::vector<int>(mine.rbegin(), mine.rend());
    for (int k : mine) {
      C.emplace_back(len(k), cplx(7e77, 7e77)); put(C.back(), k, keys[k].X0);
      H.emplace_back(len(k), cplx(7e77, 7e77)); Sx.emplace_back(len(k), cplx(7e77, 7e77));
      fn.emplace_back(o.nb, (double)o.ne / o.nb / o.nspin); ek.emplace_back(o.nb, 0.0);
    }
  }
  void put(std::vector<cplx>& b, int k, const M& A) { for (int j = 0; j < A.c; ++j) for (int i = 0; i < A.r; ++i) b[at(k, i, j)] = A(i, j); }
  M get(const std::vector<cplx>& b, int k) const { M A(keys[k].n, o.nb); for (int j = 0; j < A.c; ++j) for (int i = 0; i < A.r; ++i) A(i, j) = b[at(k, i, j)]; return A; }
  double sum(double x) { double y = 0; MPI_Allreduce(&x, &y, 1, MPI_DOUBLE, MPI_SUM, comm); return y; }
  bool padding_intact() const {
    for (size_t q = 0; q < mine.size(); ++q) { int k = mine[q]; std::vector<char> in(len(k), 0);
      for (int j = 0; j < o.nb; ++j) for (int i = 0; i < keys[k].n; ++i) in[at(k, i, j)] = 1;
      for (auto* b : {&C[q], &H[q]}) for (size_t i = 0; i < in.size(); ++i) if (!in[i] && (*b)[i] != cplx(7e77, 7e77)) return false; }
    return true;
  }
  double energy_of(const std::vector<M>& X, const std::vector<std::vector<double>>& f, double& r) {   // local keys given, global result
    double eb = 0; r = 0;
    for (size_t q = 0; q < mine.size(); ++q) { auto& d = keys[mine[q]]; M A = mulh(X[q], mul(d.T, X[q])), B = mulh(X[q], mul(d.B, X[q])); for (int j = 0; j < o.nb; ++j) { eb += d.w * f[q][j] * A(j, j).real(); r += d.w * f[q][j] * B(j, j).real(); } }
    eb = sum(eb); r = sum(r); return eb + 0.5 * o.coupling * (r - 0.3) * (r - 0.3);
  }
  void compute() {
    State s; double nel = 0; s.ortho = 0;
    for (size_t q = 0; q < mine.size(); ++q) { auto& d = keys[mine[q]]; M X = get(C[q], mine[q]); M O = mulh(X, mul(d.S, X)); for (int i = 0; i < o.nb; ++i) O(i, i) -= 1; for (auto& z : O.a) s.ortho = std::max(s.ortho, std::abs(z)); for (double f : fn[q]) nel += d.w * f; s.X.push_back(X); }
    s.fn = fn; E = energy_of(s.X, fn, rho); s.rho = rho;
    if (energy) E = energy(evals, E);
    for (size_t q = 0; q < mine.size(); ++q) { int k = mine[q]; auto& d = keys[k]; M Hm = d.T; for (size_t i = 0; i < Hm.a.size(); ++i) Hm.a[i] += o.coupling * (rho - 0.3) * d.B.a[i]; M HX = mul(Hm, s.X[q]); put(H[q], k, HX); put(Sx[q], k, mul(d.S, s.X[q])); M hh = mulh(s.X[q], HX); for (int j = 0; j < o.nb; ++j) ek[q][j] = hh(j, j).real(); }
    s.nel = sum(nel); MPI_Allreduce(MPI_IN_PLACE, &s.ortho, 1, MPI_DOUBLE, MPI_MAX, comm); s.E = E; s.iter = iters - 1; s.mu = mu; hist.push_back(s); ++evals;
  }
};
struct Mat2 : MatrixBaseZ {
  World& w; std::vector<std::vector<cplx>>& b; Mat2(World& w, std::vector<std::vector<cplx>>& b) : w(w), b(b) {}
  buffer_t mk(int i) const { int k = w.mine[i]; std::array<int, 2> st = w.o.row_major ? std::array<int, 2>{w.ld(k), 1} : std::array<int, 2>{1, w.ld(k)}; return buffer_t(st, {w.keys[k].n, w.o.nb}, b[i].data(), memory_type::host, MPI_COMM_SELF); }
  buffer_t get(int i) override { return mk(i); } const buffer_t get(int i) const override { return mk(i); }
  int size() const override { return (int)w.mine.size(); } MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; } MPI_Comm mpicomm() const override { return w.comm; }
  std::pair<int, int> kpoint_index(int i) const override { return w.keys[w.mine[i]].key; }
};
struct Vec1 : VectorBaseZ {
  World& w; std::vector<std::vector<double>>& b; Vec1(World& w, std::vector<std::vector<double>>& b) : w(w), b(b) {}
  buffer_t get(int i) override { return buffer_t((int)b[i].size(), b[i].data(), memory_type::host); } const buffer_t get(int i) const override { return buffer_t((int)b[i].size(), b[i].data(), memory_type::host); }
  int size() const override { return (int)w.mine.size(); } MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; } MPI_Comm mpicomm() const override { return w.comm; }
  std::pair<int, int> kpoint_index(int i) const override { return w.keys[w.mine[i]].key; }
};
struct Sca : ScalarBaseZ {
  World& w; Sca(World& w) : w(w) {}
  double get(int i) override { return w.keys[w.mine[i]].w; } const double get(int i) const override { return w.keys[w.mine[i]].w; }
  int size() const override { return (int)w.mine.size(); } MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; } MPI_Comm mpicomm() const override { return w.comm; }
  std::pair<int, int> kpoint_index(int i) const override { return w.keys[w.mine[i]].key; }
};
struct Energy : EnergyBase {
  World& w; Energy(World& w) : w(w) {}
  void compute() override { w.note("compute"); w.compute(); }
  int nelectrons() override { return w.o.ne; } int occupancy() override { return w.o.occ; }
  double get_total_energy() override { w.note("get_total_energy"); return w.E; }
  std::map<std::string, double> get_energy_components() override { return {{"band", w.E}}; }
  std::shared_ptr<MatrixBaseZ> get_hphi(memory_type) override { w.note("get_hphi"); return std::make_shared<Mat2>(w, w.H); }
  std::shared_ptr<MatrixBaseZ> get_sphi(memory_type) override { return std::make_shared<Mat2>(w, w.Sx); }
  std::shared_ptr<MatrixBaseZ> get_C(memory_type) override { w.note("get_C"); return std::make_shared<Mat2>(w, w.C); }
  std::shared_ptr<VectorBaseZ> get_fn() override { return std::make_shared<Vec1>(w, w.fn); }
  void set_fn(const std::vector<std::pair<int, int>>& keys, const std::vector<std::vector<double>>& v) override { w.note("set_fn"); for (size_t i = 0; i < keys.size(); ++i) for (size_t q = 0; q < w.mine.size(); ++q) if (w.keys[w.mine[q]].key == keys[i]) w.fn[q] = v[i]; }
  std::shared_ptr<VectorBaseZ> get_ek() override { return std::make_shared<Vec1>(w, w.ek); }
  std::shared_ptr<VectorBaseZ> get_gkvec_ekin() override { return std::make_shared<Vec1>(w, w.ek); }
  std::shared_ptr<ScalarBaseZ> get_kpoint_weights() override { return std::make_shared<Sca>(w); }
  void set_chemical_potential(double m) override { w.note("set_chemical_potential"); w.mu = m; if (!w.hist.empty()) w.hist.back().mu = m; }
  double get_chemical_potential() override { return w.mu; }
  void print_info() const override { w.note("print_info"); w.iters++; w.marks.push_back(w.evals); }
};
template <class B> struct Op : B {
  World& w; bool prec; Op(World& w, bool prec) : w(w), prec(prec) {}
  void apply(const std::pair<int, int>& key, MatrixBaseZ::buffer_t& out, MatrixBaseZ::buffer_t& in) const override {
    for (auto& d : w.keys) if (d.key == key) {
      M A(in.size[0], in.size[1]);
      for (int j = 0; j < A.c; ++j) for (int i = 0; i < A.r; ++i) A(i, j) = in.data[(size_t)i * in.stride[0] + (size_t)j * in.stride[1]];
      M R = mul(prec ? d.K : d.S, A);
      for (int j = 0; j < A.c; ++j) for (int i = 0; i < A.r; ++i) out.data[(size_t)i * out.stride[0] + (size_t)j * out.stride[1]] = R(i, j);
    }
  }
  std::vector<std::pair<int, int>> get_keys() const override { std::vector<std::pair<int, int>> k; for (int i : w.mine) k.push_back(w.keys[i].key); return k; }
};
inline nlcg_info run(World& w) {
  Energy e(w); Op<UltrasoftPrecondBase> p(w, true); Op<OverlapBase> s(w, false);
  return nlcg_us_cpu(e, p, s, w.o.sm, w.o.T, w.o.tol, w.o.kappa, w.o.tau, w.o.maxiter, w.o.restart);
}
struct Session { Session(int& c, char**& v) { MPI_Init(&c, &v); nlcglib::initialize(); } ~Session() { nlcglib::finalize(); MPI_Finalize(); } };
inline int verdict(bool ok, const char* what) {   // the same on all ranks
  int a = ok ? 1 : 0, b = 1, r; MPI_Comm_rank(MPI_COMM_WORLD, &r);
  if (!ok) fprintf(stderr, "rank %d: FAILED: %s\n", r, what);
  MPI_Allreduce(&a, &b, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD); return b ? 0 : 1;
}
inline std::string slurp(const char* f) { std::string s; FILE* q = fopen(f, "r"); if (!q) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, q)) > 0) s.append(b, n); fclose(q); return s; }
// numbers of one field of all records of nlcg.json
inline std::vector<double> field(const std::string& text, const std::string& name) {
  std::vector<double> v; std::string k = "\"" + name + "\":"; size_t p = 0;
  while ((p = text.find(k, p)) != std::string::npos) { p += k.size(); v.push_back(strtod(text.c_str() + p, nullptr)); }
  return v;
}
}  // namespace demo
