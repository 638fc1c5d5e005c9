From 10c8c69615938f6eaa2b21181962ffa25dbee9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:38 +0000
Subject: [PATCH 01/13] fix: return the residual in nlcg_info::tolerance

print_info added the placeholder -1 of the not yet separated eta slope to
the slope, so every call reported a residual near -1.
---
 src/nlcglib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index fb1e9cf..0fe8aa2 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -88,7 +88,8 @@ print_info(double free_energy,
   nlcg_info info;
   info.F = free_energy;
   info.S = entropy;
-  info.tolerance = slope_x + slope_eta;
+  // slope_eta is a placeholder (-1), slope_x is the slope in X and eta
+  info.tolerance = slope_x;
   info.iter = step;
 
   return info;
-- 
2.43.0


From c57ecf6a60d3f18f9296f930966f1342515e67c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:38 +0000
Subject: [PATCH 02/13] fix: scale the Gaussian-spline entropy with the maximal
 occupation

All other smearings do; without the factor the free energy of spin-unpolarised
calculations is inconsistent with its gradient.
---
 src/smearing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 40ed9f3..2d264c2 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -193,10 +193,10 @@ struct gaussian_spline : summed<gaussian_spline>
     double sqrte = std::exp(0.5);
 
     if (x > 0) {
-      return 0.25 *
+      return mo * 0.25 *
              (2 * std::exp(-x * (sqrt2 + x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 + x));
     } else {
-      return 0.25 *
+      return mo * 0.25 *
              (-2 * std::exp(x * (sqrt2 - x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 - x));
     }
   }
-- 
2.43.0


From 71f132d2bac07f6febe71c2e0d8768dcf371f4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:38 +0000
Subject: [PATCH 03/13] fix: evaluate the smearing derivative at (mu - e)/kT in
 the eta gradient

The occupations use this argument. The sign matters for cold smearing, whose
delta function is not symmetric: the residual was not the slope of the free
energy.
---
 src/pseudo_hamiltonian/grad_eta.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pseudo_hamiltonian/grad_eta.hpp b/src/pseudo_hamiltonian/grad_eta.hpp
index 3e07e62..99bde17 100644
--- a/src/pseudo_hamiltonian/grad_eta.hpp
+++ b/src/pseudo_hamiltonian/grad_eta.hpp
@@ -39,7 +39,7 @@ struct GradEtaHelper
           "dFdmu",
           Kokkos::RangePolicy<Kokkos::Serial>(0, nbands),
           KOKKOS_LAMBDA(int i, Kokkos::complex<double>& result) {
-            double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+            double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
             result += (hii(i) - en_loc(i)) * (delta);
           },
           v);
@@ -72,7 +72,7 @@ struct GradEtaHelper
       int nbands = en[key].size();
       auto en_loc = en[key];
       for (int i = 0; i < nbands; ++i) {
-        double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+        double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
         v += delta * w_k;
       }
     }
@@ -151,7 +151,7 @@ public:
     double kT_loc = kT;
     Kokkos::parallel_for(
         "gEta (1)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
-          double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+          double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
           mgETA(i, i) = -1 / kT_loc * (mHij(i, i) - wk * ek(i)) * (delta);
         });
 
@@ -161,7 +161,7 @@ public:
       Kokkos::parallel_for(
           "gEta (2)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
             // sumfn dmuFn
-            double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+            double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
             mgETA(i, i) += wk * (delta) / dmu_deta * (dFdmu / kT_loc);
           });
     }
-- 
2.43.0


From 7fcb9a489a9eaaf19f003451877a3f7255f99abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:38 +0000
Subject: [PATCH 04/13] fix: use the limit of the difference quotient for
 degenerate pseudo-eigenvalues

The off-diagonal eta gradient between equal pseudo-eigenvalues was dropped, so
the residual missed a contribution and a non-stationary state could be reported
as converged.
---
 src/pseudo_hamiltonian/grad_eta.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pseudo_hamiltonian/grad_eta.hpp b/src/pseudo_hamiltonian/grad_eta.hpp
index 99bde17..135b53d 100644
--- a/src/pseudo_hamiltonian/grad_eta.hpp
+++ b/src/pseudo_hamiltonian/grad_eta.hpp
@@ -176,7 +176,9 @@ public:
             double ej = ek(j);
             double ei = ek(i);
             if (std::abs(ej - ei) < 1e-10) {
-              // zero contribution
+              // limit of the difference quotient
+              double delta = smearing<smearing_t>::delta((mu - ei) / kT_loc, mo);
+              mgETA(i, j) += -1 / kT_loc * delta * mHij(i, j);
             } else {
               double II = (fn(j) - fn(i)) / (ej - ei);
               mgETA(i, j) += II * mHij(i, j);
-- 
2.43.0


From b784864be96bff12ded9985ae4b5489ee32c5753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:38 +0000
Subject: [PATCH 05/13] fix: report failed Cholesky factorisations

solve_sym ignored the status of zpotrf and zpotrs and went on with garbage.
---
 src/la/lapack_cpu.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index cb0e2e6..a50b05a 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -75,11 +75,13 @@ solve_sym(KokkosDVector<T, LAYOUT, KOKKOS...>& A, KokkosDVector<T, LAYOUT, KOKKO
 
     char uplo = 'U';
     auto order = CBLAS_ORDER::CblasColMajor;
-    potrf_t::call(order, uplo, n, ptr_A, lda);
+    int info = potrf_t::call(order, uplo, n, ptr_A, lda);
+    if (info != 0) throw std::runtime_error("zpotrf failed");
     int nrhs = RHS.array().extent(1);
 
     typedef cblas::potrs<numeric_t> potrs_t;
-    potrs_t::call(order, uplo, n, nrhs, ptr_A, lda, ptr_B, ldb);
+    info = potrs_t::call(order, uplo, n, nrhs, ptr_A, lda, ptr_B, ldb);
+    if (info != 0) throw std::runtime_error("zpotrs failed");
   } else {
     throw std::runtime_error("not implemented");
   }
-- 
2.43.0


From 514e64798b021c718b76a783e7363a82760b147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:38 +0000
Subject: [PATCH 06/13] fix: refuse energies that are not finite

A NaN passes the comparisons of the line search, so a step to a state without a
valid energy was accepted.
---
 src/free_energy.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/free_energy.hpp b/src/free_energy.hpp
index d4e1e43..58563b5 100644
--- a/src/free_energy.hpp
+++ b/src/free_energy.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <Kokkos_Core.hpp>
+#include <cmath>
+#include <stdexcept>
 #include "constants.hpp"
 #include "interface.hpp"
 #include "smearing.hpp"
@@ -100,6 +102,10 @@ FreeEnergy::compute(const mvector<tX>& X, const mvector<tF>& fn, const mvector<t
 
   entropy = physical_constants::kb * T * S;
   free_energy = etot + entropy;
+
+  if (!std::isfinite(free_energy)) {
+    throw std::runtime_error("free energy is not finite");
+  }
 }
 
 auto
-- 
2.43.0


From 6bf394c189024327f2299661ce3fb2891bd19c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:38 +0000
Subject: [PATCH 07/13] fix: create the MPI datatype for pairs only once

Every call of mpi_type<pair>::type() committed a new datatype that was never
freed, several per energy evaluation.
---
 src/mpi/mpi_type.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mpi/mpi_type.hpp b/src/mpi/mpi_type.hpp
index 8fdf03d..9775f3a 100644
--- a/src/mpi/mpi_type.hpp
+++ b/src/mpi/mpi_type.hpp
@@ -83,6 +83,14 @@ template <class T1, class T2>
 struct mpi_type<std::pair<T1, T2>>
 {
   static MPI_Datatype type()
+  {
+    // create the type once and keep it
+    static MPI_Datatype result = create();
+    return result;
+  }
+
+private:
+  static MPI_Datatype create()
   {
     MPI_Datatype result;
     int array_of_block_lengths[2] = {1, 1};
-- 
2.43.0


From 0c04768afa32981bb4a4952904e9e24c670254f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:38 +0000
Subject: [PATCH 08/13] fix: initialise the returned values when no iteration
 is allowed

With maxiter = 0 the members of nlcg_info were returned uninitialised.
---
 src/nlcglib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index 0fe8aa2..01f8740 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -227,7 +227,7 @@ nlcg_us(EnergyBase& energy_base,
   // std::feclearexcept(FE_ALL_EXCEPT);
   // feenableexcept(FE_ALL_EXCEPT & ~FE_INEXACT &
   //                ~FE_UNDERFLOW);  // Enable all floating point exceptions but FE_INEXACT
-  nlcg_info info;
+  nlcg_info info{};
 
   auto S = Overlap(overlap_base);
   auto P = USPreconditioner(us_precond_base);
-- 
2.43.0


From e888915870ecf9f500e7c18c95bc5f866742e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:58 +0000
Subject: [PATCH 09/13] fix: fall back to backtracking when the parabola has no
 curvature

---
 src/linesearch/linesearch.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/linesearch/linesearch.hpp b/src/linesearch/linesearch.hpp
index 3edc424..e8b8c8c 100644
--- a/src/linesearch/linesearch.hpp
+++ b/src/linesearch/linesearch.hpp
@@ -2,6 +2,7 @@
 
 #include "exceptions.hpp"
 #include "utils/logger.hpp"
+#include <cmath>
 #include <iomanip>
 #include <tuple>
 
@@ -130,6 +131,12 @@ line_search::qline(GEODESIC& G, FREE_ENERGY& FE, double slope, bool& force_resta
     }
   }
 
+  // vanishing curvature (a = 0): the parabola has no minimum
+  if (!std::isfinite(t_min)) {
+    Logger::GetInstance() << "\t quadratic line search failed: no curvature\n";
+    throw StepError();
+  }
+
   double F_pred = -b * b / (4 * a) + c;
 
   // evaluate FE at predicted minimum
-- 
2.43.0


From 3c9f6e8e7e9508ec5b1a1d1c461a10dab26418f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:36 +0000
Subject: [PATCH 10/13] fix: refuse a restart interval of zero instead of
 dividing by it

---
 src/nlcglib.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index 01f8740..a925cd0 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -229,6 +229,10 @@ nlcg_us(EnergyBase& energy_base,
   //                ~FE_UNDERFLOW);  // Enable all floating point exceptions but FE_INEXACT
   nlcg_info info{};
 
+  if (restart == 0) {
+    throw std::runtime_error("restart must be > 0.");
+  }
+
   auto S = Overlap(overlap_base);
   auto P = USPreconditioner(us_precond_base);
 
-- 
2.43.0


From ec0171b0ba64dacff7e98dada0f17a1742ec2cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:20 +0000
Subject: [PATCH 11/13] fix: refuse negative and not-a-number temperatures as
 well as zero

---
 src/smearing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 2d264c2..8e0c550 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -558,7 +558,7 @@ public:
       , wk(wk)
       , smearing_t(smearing_t)
   {
-    if (T == 0) {
+    if (!(T > 0)) {
       throw std::runtime_error("Temperature must be > 0.");
     }
     kT = T * physical_constants::kb;
-- 
2.43.0


From 164532d61e757ca9bcb81ee35962db18d1e35685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 12/13] fix: write out the previous log before nlcg.out is
 opened anew

The old stream was closed after the new one had truncated the file, so that
lines of the previous call that were still buffered ended up in the log of the
next one.
---
 src/utils/logger.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index 4f581d7..e8df8c7 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -27,6 +27,7 @@ public:
   void attach_file(const std::string& prefix = "out", const std::string& suffix = ".log")
   {
     MPI_Comm_rank(MPI_COMM_WORLD, &pid_);
+    stream_ptr_.reset();  // write out the rest of the previous log before a new one is opened
     stream_ptr_ = std::make_shared<std::ofstream>(prefix + std::to_string(pid_) + suffix);
   }
 
@@ -34,6 +35,7 @@ public:
   void attach_file_master(const std::string& fname = "nlcg.out")
   {
     MPI_Comm_rank(MPI_COMM_WORLD, &pid_);
+    stream_ptr_.reset();  // write out the rest of the previous log before a new one is opened
     if (pid_ == 0)
       stream_ptr_ = std::make_shared<std::ofstream>(fname);
   }
-- 
2.43.0


From c0a80f73681605dde268f8860833485dd6f2a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 13/13] fix: flush nlcg.out when a call gives up

The last iteration and the reason for giving up stayed in the buffer of the
log after the call had returned.
---
 src/nlcglib.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index a925cd0..b84f480 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -437,9 +437,11 @@ nlcg_us(EnergyBase& energy_base,
     } catch (DescentError&) {
       // CG failed abort
       logger << "[NLCG] Error: No descent direction found, nlcg didn't reach final tolerance\n";
+      logger.flush();
       return info;
     } catch (SlopeError&) {
       logger << "[NLCG] Error: slope > 0 after CG-restart. Abort.\n";
+      logger.flush();
       return info;
     }
   }
-- 
2.43.0

