// Reference smearing functions, written from their definitions (x = (mu-e)/kT).
#pragma once
#include <cmath>
namespace ref {
constexpr double kb = 3.16681156340226e-06;
inline double fn(int t, double x, double mo)
{
  switch (t) {
    case 0: return x > 0 ? mo / (1 + std::exp(-x)) : mo * std::exp(x) / (1 + std::exp(x));
    case 1: {  // Gaussian spline
      double s2 = std::sqrt(2.0);
      return x <= 0 ? mo * 0.5 * std::exp(0.5 - (x - 1 / s2) * (x - 1 / s2)) : mo * (1 - 0.5 * std::exp(0.5 - (x + 1 / s2) * (x + 1 / s2)));
    }
    case 2: return mo * 0.5 * std::erfc(-x);
    case 3: return mo * (0.5 * std::erfc(-x) + 0.5 * x * std::exp(-x * x) / std::sqrt(M_PI));  // first order
    case 4: {
      double z = x - 1 / std::sqrt(2.0);
      return mo * (0.5 * std::erfc(-z) + std::exp(-z * z) / std::sqrt(2 * M_PI));
    }
  }
  return 0;
}
inline double inverse(int t, double f, double mo, double guess);
// derivative of fn
inline double delta(int t, double x, double mo)
{
  switch (t) {
    case 0: { double e = std::exp(-std::abs(x)); return mo * e / ((1 + e) * (1 + e)); }
    case 1: { double y = std::abs(x), s2 = std::sqrt(2.0); return mo * 0.5 * (s2 + 2 * y) * std::exp(-y * (s2 + y)); }
    case 2: return mo * std::exp(-x * x) / std::sqrt(M_PI);
    case 3: return mo * std::exp(-x * x) * (1.5 - x * x) / std::sqrt(M_PI);
    case 4: { double z = x - 1 / std::sqrt(2.0); return mo * std::exp(-z * z) * (2 - std::sqrt(2.0) * x) / std::sqrt(M_PI); }
  }
  return 0;
}
// generalised entropy s(x) with s'(x) = -x delta(x), s(-inf) = 0
inline double entropy(int t, double x, double mo)
{
  switch (t) {
    case 0: {
      double e = std::exp(-std::abs(x)), f = 1 / (1 + e), g = e / (1 + e);
      return -mo * (f * std::log(f) + (g > 0 ? g * std::log(g) : 0));
    }
    case 1: {
      double y = std::abs(x), s2 = std::sqrt(2.0);
      return mo * 0.25 * (2 * y * std::exp(-y * (s2 + y)) + std::sqrt(M_PI * std::exp(1.0)) * std::erfc(1 / s2 + y));
    }
    case 2: return mo * 0.5 * std::exp(-x * x) / std::sqrt(M_PI);
    case 3: return mo * 0.25 * (1 - 2 * x * x) * std::exp(-x * x) / std::sqrt(M_PI);
    case 4: { double z = x - 1 / std::sqrt(2.0); return mo * 0.5 * (1 - std::sqrt(2.0) * x) * std::exp(-z * z) / std::sqrt(M_PI); }
  }
  return 0;
}
// x with fn(x) = f, monotone smearings
inline double inverse(int t, double f, double mo, double guess)
{
  double a = -60, b = 60;
  if (guess > -50 && guess < 50) {
    double w = 1e-6;
    while (w < 60) {
      double lo = guess - w, hi = guess + w;
      if (fn(t, lo, mo) <= f && fn(t, hi, mo) >= f) { a = lo; b = hi; break; }
      w *= 8;
    }
  }
  for (int i = 0; i < 70 && b - a > 1e-15; ++i) { double m = 0.5 * (a + b); if (fn(t, m, mo) < f) a = m; else b = m; }
  return 0.5 * (a + b);
}
}
