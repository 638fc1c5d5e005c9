// Small dense complex algebra, independent of the library under test.
#pragma once
#include <cmath>
#include <complex>
#include <vector>
#include <algorithm>
typedef std::complex<double> cplx;
struct Mat
{
  int r = 0, c = 0;
  std::vector<cplx> a;
  Mat() {}
  Mat(int r, int c) : r(r), c(c), a((size_t)r * c) {}
  cplx& operator()(int i, int j) { return a[(size_t)j * r + i]; }
  const cplx& operator()(int i, int j) const { return a[(size_t)j * r + i]; }
};
inline Mat mul(const Mat& A, const Mat& B)
{
  Mat C(A.r, B.c);
  for (int j = 0; j < B.c; ++j)
    for (int k = 0; k < A.c; ++k) {
      cplx b = B(k, j);
      for (int i = 0; i < A.r; ++i) C(i, j) += A(i, k) * b;
    }
  return C;
}
// A^H B
inline Mat mulh(const Mat& A, const Mat& B)
{
  Mat C(A.c, B.c);
  for (int j = 0; j < B.c; ++j)
    for (int i = 0; i < A.c; ++i) {
      cplx s = 0;
      for (int k = 0; k < A.r; ++k) s += std::conj(A(k, i)) * B(k, j);
      C(i, j) = s;
    }
  return C;
}
inline Mat adj(const Mat& A)
{
  Mat C(A.c, A.r);
  for (int j = 0; j < A.c; ++j) for (int i = 0; i < A.r; ++i) C(j, i) = std::conj(A(i, j));
  return C;
}
inline Mat axpy(double t, const Mat& X, const Mat& Y)  // Y + t X
{
  Mat C = Y;
  for (size_t i = 0; i < C.a.size(); ++i) C.a[i] += t * X.a[i];
  return C;
}
inline Mat eye(int n) { Mat I(n, n); for (int i = 0; i < n; ++i) I(i, i) = 1; return I; }
inline double retr(const Mat& A, const Mat& B)  // Re tr A^H B
{
  double s = 0;
  for (size_t i = 0; i < A.a.size(); ++i) s += (std::conj(A.a[i]) * B.a[i]).real();
  return s;
}
inline double fro(const Mat& A) { double s = 0; for (auto& x : A.a) s += std::norm(x); return std::sqrt(s); }
inline bool finite(const Mat& A) { for (auto& x : A.a) if (!std::isfinite(x.real()) || !std::isfinite(x.imag())) return false; return true; }
// Hermitian Jacobi eigenvalues, ascending, vectors in columns
inline void jacobi(Mat A, std::vector<double>& w, Mat& V)
{
  int n = A.r;
  V = eye(n);
  for (int j = 0; j < n; ++j) for (int i = 0; i < j; ++i) { cplx m = 0.5 * (A(i, j) + std::conj(A(j, i))); A(i, j) = m; A(j, i) = std::conj(m); }
  for (int i = 0; i < n; ++i) A(i, i) = A(i, i).real();
  double tot = fro(A);
  for (int sweep = 0; sweep < 80; ++sweep) {
    double off = 0;
    for (int j = 0; j < n; ++j) for (int i = 0; i < j; ++i) off += std::norm(A(i, j));
    if (!(std::sqrt(off) > 1e-17 * tot)) break;
    for (int p = 0; p < n - 1; ++p)
      for (int q = p + 1; q < n; ++q) {
        double g = std::abs(A(p, q));
        if (g < 1e-300) continue;
        cplx ph = A(p, q) / g;
        double th = (A(q, q).real() - A(p, p).real()) / (2 * g);
        double t = (th >= 0 ? 1.0 : -1.0) / (std::abs(th) + std::sqrt(th * th + 1));
        double c = 1 / std::sqrt(t * t + 1), s = t * c;
        // rotation: col p' = c p - s conj(ph) q ; col q' = s ph p + c q
        for (int k = 0; k < n; ++k) {
          cplx x = A(k, p), y = A(k, q);
          A(k, p) = c * x - s * std::conj(ph) * y;
          A(k, q) = s * ph * x + c * y;
        }
        for (int k = 0; k < n; ++k) {
          cplx x = A(p, k), y = A(q, k);
          A(p, k) = c * x - s * ph * y;
          A(q, k) = s * std::conj(ph) * x + c * y;
        }
        for (int k = 0; k < n; ++k) {
          cplx x = V(k, p), y = V(k, q);
          V(k, p) = c * x - s * std::conj(ph) * y;
          V(k, q) = s * ph * x + c * y;
        }
        A(p, q) = 0; A(q, p) = 0; A(p, p) = A(p, p).real(); A(q, q) = A(q, q).real();
      }
  }
  std::vector<int> id(n);
  for (int i = 0; i < n; ++i) id[i] = i;
  std::stable_sort(id.begin(), id.end(), [&](int x, int y) { return A(x, x).real() < A(y, y).real(); });
  w.resize(n);
  Mat W(n, n);
  for (int i = 0; i < n; ++i) { w[i] = A(id[i], id[i]).real(); for (int k = 0; k < n; ++k) W(k, i) = V(k, id[i]); }
  V = W;
}
// solve A X = B for Hermitian positive definite A
inline bool cholsolve(Mat A, Mat B, Mat& X)
{
  int n = A.r;
  for (int j = 0; j < n; ++j) {
    double d = A(j, j).real();
    for (int k = 0; k < j; ++k) d -= std::norm(A(j, k));
    if (!(d > 0)) return false;
    d = std::sqrt(d);
    A(j, j) = d;
    for (int i = j + 1; i < n; ++i) {
      cplx s = A(i, j);
      for (int k = 0; k < j; ++k) s -= A(i, k) * std::conj(A(j, k));
      A(i, j) = s / d;
    }
  }
  for (int c = 0; c < B.c; ++c) {
    for (int i = 0; i < n; ++i) { cplx s = B(i, c); for (int k = 0; k < i; ++k) s -= A(i, k) * B(k, c); B(i, c) = s / A(i, i); }
    for (int i = n - 1; i >= 0; --i) { cplx s = B(i, c); for (int k = i + 1; k < n; ++k) s -= std::conj(A(k, i)) * B(k, c); B(i, c) = s / A(i, i); }
  }
  X = B;
  return true;
}
inline Mat invsqrt(const Mat& A)
{
  std::vector<double> w; Mat V;
  jacobi(A, w, V);
  Mat T = V;
  for (int j = 0; j < V.c; ++j) for (int i = 0; i < V.r; ++i) T(i, j) *= 1 / std::sqrt(w[j]);
  return mul(T, adj(V));
}
