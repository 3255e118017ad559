From 8156a66f61a0289309e4c5aa025c8cc6920a899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:45 +0000
Subject: [PATCH 01/27] fix: cutting_plane_q tells the oracle to retry after a
 cut without effect

---
 lib/include/ellcpp/cutting_plane.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index 56d5bc9..d377dfb 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -153,6 +153,7 @@ auto cutting_plane_q(
             x_best = x0;
         }
         const auto [cutstatus, tsq] = S.update(cut);
+        status = cutstatus; // the oracle is told to retry after noeffect
         if (cutstatus == CUTStatus::noeffect)
         {
             if (!more_alt)
@@ -162,7 +163,6 @@ auto cutting_plane_q(
         }
         if (cutstatus == CUTStatus::nosoln)
         {
-            status = cutstatus;
             break;
         }
         if (tsq < options.tol)
-- 
2.43.0


From 763fccce88c3ff1f585617c1a344d754411ba30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:00 +0000
Subject: [PATCH 02/27] fix: cutting-plane methods respect an iteration limit
 of zero

---
 lib/include/ellcpp/cutting_plane.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index d377dfb..4594e5d 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -39,7 +39,7 @@ auto cutting_plane_feas(
     auto status = CUTStatus::success;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto cut = Omega(S.xc()); // query the oracle at S.xc()
         if (!cut)
@@ -83,7 +83,7 @@ auto cutting_plane_dc(
     auto status = CUTStatus::success;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto [cut, shrunk] = Omega(S.xc(), t);
         if (shrunk)
@@ -143,7 +143,7 @@ auto cutting_plane_q(
     auto status = CUTStatus::nosoln; // note!!!
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         auto retry = (status == CUTStatus::noeffect);
         const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
-- 
2.43.0


From 8af6a0cf628f2186a7b50d076122aba4da568812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:14 +0000
Subject: [PATCH 03/27] fix: cutting-plane methods return an initialized x_best
 when nothing was found

---
 lib/include/ellcpp/cutting_plane.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index 4594e5d..e970be1 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -79,7 +79,7 @@ auto cutting_plane_dc(
     Oracle&& Omega, Space&& S, opt_type&& t, const Options& options = Options())
 {
     const auto t_orig = t;
-    decltype(S.xc()) x_best;
+    decltype(S.xc()) x_best {};
     auto status = CUTStatus::success;
 
     auto niter = 0U;
@@ -139,7 +139,7 @@ auto cutting_plane_q(
     Oracle&& Omega, Space&& S, opt_type&& t, const Options& options = Options())
 {
     const auto t_orig = t;
-    decltype(S.xc()) x_best;
+    decltype(S.xc()) x_best {};
     auto status = CUTStatus::nosoln; // note!!!
 
     auto niter = 0U;
-- 
2.43.0


From ca8176fd32421e7f7390e00db727f002b39c0377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:19 +0000
Subject: [PATCH 04/27] fix: parallel cut stays finite for a slab centred at xc
 and for two central cuts

---
 lib/src/ell.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/src/ell.cpp b/lib/src/ell.cpp
index 7f57f1f..0a6d7e6 100644
--- a/lib/src/ell.cpp
+++ b/lib/src/ell.cpp
@@ -50,8 +50,11 @@ auto ell::_calc_ll_core(const double& b0, const double& b1) -> CUTStatus
     const auto bav = bsum / 2.;
     const auto tempn = this->_halfN * bsumn * bdiff;
     const auto xi = std::sqrt(t0n * t1n + tempn * tempn);
-    this->_sigma =
-        this->_c3 + (1. + b0b1n - xi) / (bsumn * bav) / this->_nPlus1;
+    // (1 + b0b1n - xi) / (bsumn * bav), but well-defined for b0 == -b1 too
+    const auto tempd = this->_halfN * bdiff;
+    const auto ratio = 2. * (1. - tempd * (tempd / this->_tsq)) /
+        (1. + b0b1n + xi);
+    this->_sigma = this->_c3 + ratio / this->_nPlus1;
     this->_rho = this->_sigma * bav;
     this->_delta = this->_c1 * ((t0n + t1n) / 2. + xi / this->_nFloat);
     return CUTStatus::success;
@@ -68,7 +71,9 @@ void ell::_calc_ll_cc(const double& b1, const double& b1sqn)
 {
     const auto temp = this->_halfN * b1sqn;
     const auto xi = std::sqrt(1. - b1sqn + temp * temp);
-    this->_sigma = this->_c3 + this->_c2 * (1. - xi) / b1sqn;
+    // (1 - xi) / b1sqn, but well-defined for b1 == 0 too
+    const auto ratio = (1. - this->_halfN * temp) / (1. + xi);
+    this->_sigma = this->_c3 + this->_c2 * ratio;
     this->_rho = this->_sigma * b1 / 2;
     this->_delta = this->_c1 * (1. - b1sqn / 2. + xi / this->_nFloat);
 }
-- 
2.43.0


From 187489bbd9a6a437e07210473fec5a28243487e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:28 +0000
Subject: [PATCH 05/27] fix: qmi_oracle differentiates along the columns of F,
 as it evaluates

---
 lib/src/qmi_oracle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/qmi_oracle.cpp b/lib/src/qmi_oracle.cpp
index 79b7285..53b2b5e 100644
--- a/lib/src/qmi_oracle.cpp
+++ b/lib/src/qmi_oracle.cpp
@@ -53,8 +53,9 @@ std::optional<Cut> qmi_oracle::operator()(const Arr& x)
     auto g = zeros({this->_nx});
     for (auto k = 0U; k != this->_nx; ++k)
     {
-        const auto Fkp = ROW(this->_F[k], xt::range(start, stop));
-        g(k) = -2 * dot(dot(v, Fkp), Av)();
+        // columns, as in getA
+        const auto Fkp = Arr {COLUMN(this->_F[k], xt::range(start, stop))};
+        g(k) = -2 * dot(dot(Fkp, v), Av)();
     }
     return {{std::move(g), ep}};
 }
-- 
2.43.0


From c1bff66cea94c7b0dbf7748c23f8592119578a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 06/27] fix: Fraction keeps its denominator positive

---
 lib/include/py2cpp/fractions.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/include/py2cpp/fractions.hpp b/lib/include/py2cpp/fractions.hpp
index c3686e5..97f663c 100644
--- a/lib/include/py2cpp/fractions.hpp
+++ b/lib/include/py2cpp/fractions.hpp
@@ -79,15 +79,15 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
     constexpr void normalize()
     {
         auto common = gcd(this->_numerator, this->_denominator);
-        if (common == Z(1))
-        {
-            return;
-        }
         // if (common == Z(0)) [[unlikely]] return; // both num and den are zero
         if (this->_denominator < Z(0))
         {
             common = -common;
         }
+        if (common == Z(1))
+        {
+            return;
+        }
         this->_numerator /= common;
         this->_denominator /= common;
     }
@@ -151,6 +151,20 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
     constexpr void reciprocal()
     {
         std::swap(_numerator, _denominator);
+        this->keep_sign();
+    }
+
+    /*!
+     * @brief Keep the denominator positive
+     *
+     */
+    constexpr void keep_sign()
+    {
+        if (this->_denominator < Z(0))
+        {
+            this->_numerator = -this->_numerator;
+            this->_denominator = -this->_denominator;
+        }
     }
 
     /*!
@@ -379,6 +393,7 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
             this->_denominator *= (i / common);
             this->_numerator /= common;
         }
+        this->keep_sign();
         return *this;
     }
 
-- 
2.43.0


From 1b7cdd4df13f62ef3c0ddfbc8b117251d291590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 07/27] fix: gcd/lcm no longer truncate values wider than int

---
 lib/include/py2cpp/fractions.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/include/py2cpp/fractions.hpp b/lib/include/py2cpp/fractions.hpp
index 97f663c..7a8e0cf 100644
--- a/lib/include/py2cpp/fractions.hpp
+++ b/lib/include/py2cpp/fractions.hpp
@@ -7,6 +7,7 @@
 
 #include <boost/operators.hpp>
 #include <cmath>
+#include <cstdlib>
 #include <numeric>
 #include <type_traits>
 
@@ -24,6 +25,7 @@ namespace fun
 template <typename Mn>
 constexpr auto gcd(Mn _m, Mn _n) -> Mn
 {
+    using std::abs; // ::abs alone would truncate to int
     return _m == 0 ? abs(_n) : _n == 0 ? abs(_m) : gcd(_n, _m % _n);
 }
 
@@ -38,6 +40,7 @@ constexpr auto gcd(Mn _m, Mn _n) -> Mn
 template <typename Mn>
 constexpr auto lcm(Mn _m, Mn _n) -> Mn
 {
+    using std::abs;
     return (_m != 0 && _n != 0) ? (abs(_m) / gcd(_m, _n)) * abs(_n) : 0;
 }
 
-- 
2.43.0


From 13e6c82b36052446793bc3bc6898696bd8767419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 08/27] fix: CSD conversion sizes the leading digit exactly
 (values in (2/3,1) and at 2^k*2/3)

---
 lib/src/csd.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/lib/src/csd.cpp b/lib/src/csd.cpp
index 86f9775..2c438a6 100644
--- a/lib/src/csd.cpp
+++ b/lib/src/csd.cpp
@@ -8,6 +8,23 @@ using std::log2;
 using std::pow;
 using std::string;
 
+/**
+ * @brief Number of CSD digits before the radix point,
+ *        i.e. the smallest n >= 0 such that |num| <= 2^n * 2/3
+ *
+ * @param num
+ * @return int
+ */
+static auto num_digits(double num) noexcept -> int
+{
+    auto n = 0;
+    if (std::frexp(fabs(num), &n) > 2. / 3.)
+    {
+        n += 1;
+    }
+    return n < 0 ? 0 : n;
+}
+
 /**
  * @brief Convert to CSD (Canonical Signed Digit) string representation
  *
@@ -21,9 +38,8 @@ auto to_csd(double num, int places = 0) noexcept -> string
     {
         return "0";
     }
-    auto absnum = fabs(num);
-    auto n = absnum < 1. ? 0 : int(ceil(log2(absnum * 1.5)));
-    auto csd_str = string {absnum < 1. ? "0" : ""};
+    auto n = num_digits(num);
+    auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
     while (n > -places)
     {
@@ -107,9 +123,8 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
     {
         return "0";
     }
-    auto an = fabs(num);
-    auto n = an < 1. ? 0 : int(ceil(log2(an * 1.5)));
-    auto csd_str = string {an < 1. ? "0" : ""};
+    auto n = num_digits(num);
+    auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
     while (n > 0 || nnz > 0)
     {
-- 
2.43.0


From 2a2475f7d8a054c005e3a2b7a6334a83582bd1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 09/27] fix: to_csdfixed ends once the value is represented,
 and never exceeds nnz

---
 lib/src/csd.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/csd.cpp b/lib/src/csd.cpp
index 2c438a6..92acb20 100644
--- a/lib/src/csd.cpp
+++ b/lib/src/csd.cpp
@@ -126,8 +126,12 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
     auto n = num_digits(num);
     auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
-    while (n > 0 || nnz > 0)
+    while (n > 0 || (nnz > 0 && num != 0.))
     {
+        if (nnz == 0)
+        {
+            num = 0.;
+        }
         if (n == 0)
         {
             csd_str += '.';
@@ -150,10 +154,6 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
             csd_str += '0';
         }
         limit /= 2.;
-        if (nnz == 0)
-        {
-            num = 0;
-        }
     }
     return csd_str;
 }
-- 
2.43.0


From 299903e2ecf8d820dc67e79937f7550aa8fd169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 10/27] fix: ell_stable stays finite after a cut that changes
 nothing (sigma == 0)

---
 lib/src/ell_stable.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/ell_stable.cpp b/lib/src/ell_stable.cpp
index 8ba9199..218e772 100644
--- a/lib/src/ell_stable.cpp
+++ b/lib/src/ell_stable.cpp
@@ -71,17 +71,17 @@ auto ell_stable::update(const std::tuple<Arr, T>& cut) -> std::tuple<CUTStatus,
 
     // rank-one update: 3*n + (n-1)*n/2
     // const auto r = this->_sigma / omega;
-    const auto mu = this->_sigma / (1. - this->_sigma);
-    auto oldt = omega / mu; // initially
+    // (scaled by sigma, so that a cut with sigma == 0 leaves D as it is)
+    auto oldt = (1. - this->_sigma) * omega; // initially
     const auto m = this->_n - 1;
     for (auto j = 0; j != m; ++j)
     {
         // p=sqrt(k)*vv(j);
         // const auto p = invLg(j);
         // const auto mup = mu * p;
-        const auto t = oldt + gQg(j);
+        const auto t = oldt + this->_sigma * gQg(j);
         // this->_Q(j, j) /= t; // update invD
-        const auto beta2 = invDinvLg(j) / t;
+        const auto beta2 = this->_sigma * invDinvLg(j) / t;
         this->_Q(j, j) *= oldt / t; // update invD
         for (auto l = j + 1; l != this->_n; ++l)
         {
@@ -93,7 +93,7 @@ auto ell_stable::update(const std::tuple<Arr, T>& cut) -> std::tuple<CUTStatus,
 
     // const auto p = invLg(n1);
     // const auto mup = mu * p;
-    const auto t = oldt + gQg(m);
+    const auto t = oldt + this->_sigma * gQg(m);
     this->_Q(m, m) *= oldt / t; // update invD
 
 
-- 
2.43.0


From 69f5049e99ad288dd7ab7409399392e9cb8092e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 11/27] fix: gcd and lcm work for unsigned types again

---
 lib/include/py2cpp/fractions.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/include/py2cpp/fractions.hpp b/lib/include/py2cpp/fractions.hpp
index 7a8e0cf..12c62ff 100644
--- a/lib/include/py2cpp/fractions.hpp
+++ b/lib/include/py2cpp/fractions.hpp
@@ -14,6 +14,19 @@
 namespace fun
 {
 
+/*!
+ * @brief Absolute value (::abs alone would truncate to int)
+ *
+ * @tparam T any ordered ring, signed or unsigned
+ * @param[in] a
+ * @return T
+ */
+template <typename T>
+constexpr auto abs(const T& a) -> T
+{
+    return a < T(0) ? -a : a;
+}
+
 /*!
  * @brief Greatest common divider
  *
@@ -25,7 +38,6 @@ namespace fun
 template <typename Mn>
 constexpr auto gcd(Mn _m, Mn _n) -> Mn
 {
-    using std::abs; // ::abs alone would truncate to int
     return _m == 0 ? abs(_n) : _n == 0 ? abs(_m) : gcd(_n, _m % _n);
 }
 
@@ -40,7 +52,6 @@ constexpr auto gcd(Mn _m, Mn _n) -> Mn
 template <typename Mn>
 constexpr auto lcm(Mn _m, Mn _n) -> Mn
 {
-    using std::abs;
     return (_m != 0 && _n != 0) ? (abs(_m) / gcd(_m, _n)) * abs(_n) : 0;
 }
 
-- 
2.43.0


From 68742265d6a253fea0db593f57889e6a88271604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 12/27] fix: inserting an existing edge again does not count it
 twice

---
 lib/include/xnetwork/classes/digraphs.hpp | 10 ++++++----
 lib/include/xnetwork/classes/graph.hpp    | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index ddd3260..49f1306 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -343,9 +343,9 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
         // add the edge
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
-        this->_succ[u].insert(v);
+        const bool is_new = this->_succ[u].insert(v).second;
         // this->_prev[v].insert(u);
-        this->_num_of_edges += 1;
+        this->_num_of_edges += is_new ? 1 : 0;
     }
 
     template <typename U = key_type>
@@ -360,10 +360,11 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
         using T = typename adjlist_t::mapped_type;
+        const bool is_new = !this->_adj[u].contains(v);
         auto data = this->_adj[u].get(v, T {});
         this->_succ[u][v] = data;
         // this->_prev[v][u] = data;
-        this->_num_of_edges += 1;
+        this->_num_of_edges += is_new ? 1 : 0;
     }
 
     template <typename T>
@@ -371,8 +372,9 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
         assert(this->_node.contains(u));
         assert(this->_node.contains(v));
+        const bool is_new = !this->_succ[u].contains(v);
         this->_succ[u][v] = data;
-        this->_num_of_edges += 1;
+        this->_num_of_edges += is_new ? 1 : 0;
     }
 
     template <typename C1, typename C2>
diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index d3eb9db..436c48d 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -625,9 +625,9 @@ class Graph : public object
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
         // set
-        this->_adj[u].insert(v);
+        const bool is_new = this->_adj[u].insert(v).second;
         this->_adj[v].insert(u);
-        this->_num_of_edges += 1;
+        this->_num_of_edges += is_new ? 1 : 0;
     }
 
     template <typename U = key_type>
@@ -642,10 +642,11 @@ class Graph : public object
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
         using T = typename adjlist_t::mapped_type;
+        const bool is_new = !this->_adj[u].contains(v);
         auto data = this->_adj[u].get(v, T {});
         this->_adj[u][v] = data;
         this->_adj[v][u] = data; // ???
-        this->_num_of_edges += 1;
+        this->_num_of_edges += is_new ? 1 : 0;
     }
 
     template <typename T>
@@ -653,9 +654,10 @@ class Graph : public object
     {
         assert(this->_node.contains(u));
         assert(this->_node.contains(v));
+        const bool is_new = !this->_adj[u].contains(v);
         this->_adj[u][v] = data;
         this->_adj[v][u] = data;
-        this->_num_of_edges += 1;
+        this->_num_of_edges += is_new ? 1 : 0;
     }
 
     template <typename C1, typename C2>
-- 
2.43.0


From 86bd4cb8e787a4488ad42bc6d0bc962b1335c69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 13/27] fix: clear() leaves a usable graph without edges

---
 lib/include/xnetwork/classes/digraphs.hpp | 6 +++++-
 lib/include/xnetwork/classes/graph.hpp    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index 49f1306..4230ffb 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -539,7 +539,11 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     */
     auto clear()
     {
-        this->_succ.clear();
+        for (auto&& nbrs : this->_succ) // the nodes stay, so do their entries
+        {
+            nbrs.clear();
+        }
+        this->_num_of_edges = 0;
         // this->_pred.clear()
         // this->_node.clear();
         this->graph.clear();
diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index 436c48d..9b41594 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -837,7 +837,11 @@ class Graph : public object
         [];
 
          */
-        this->_adj.clear();
+        for (auto&& nbrs : this->_adj) // the nodes stay, so do their entries
+        {
+            nbrs.clear();
+        }
+        this->_num_of_edges = 0;
         // this->_node.clear();
         this->graph.clear();
     }
-- 
2.43.0


From 35841c982c6c51771a90b5145479d174bfb95de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 14/27] fix: sample covariance of create_2d_isotropic is
 symmetric (each sample drawn once)

---
 lib/src/lsq_corr_ell.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/lsq_corr_ell.cpp b/lib/src/lsq_corr_ell.cpp
index 995339c..4014f5c 100644
--- a/lib/src/lsq_corr_ell.cpp
+++ b/lib/src/lsq_corr_ell.cpp
@@ -70,7 +70,8 @@ Arr create_2d_isotropic(const Arr& s, size_t N = 3000U)
     for (auto k = 0U; k != N; ++k)
     {
         auto x = var * xt::random::randn<double>({n});
-        auto y = dot(A, x) + tau * xt::random::randn<double>({n});
+        // evaluated once: a lazy sample would be drawn anew at each access
+        const Arr y = dot(A, x) + tau * xt::random::randn<double>({n});
         // Arr y = dot(A, x);
         Y += xt::linalg::outer(y, y);
     }
-- 
2.43.0


From 50ebec944a6b892e6cba9dccb31e3eb5daaa7d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:55 +0000
Subject: [PATCH 15/27] fix: gradients of a single-term posynomial compile
 (monomial has lse_gradient only)

---
 lib/include/ellip/posynomial.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/ellip/posynomial.hpp b/lib/include/ellip/posynomial.hpp
index 63cb9e6..40bc27f 100644
--- a/lib/include/ellip/posynomial.hpp
+++ b/lib/include/ellip/posynomial.hpp
@@ -164,7 +164,7 @@ class posynomial
 
         if (N == 1)
         { // monomial
-            const Vec& gt = _M[0].gradient(y);
+            const auto gt = _M[0].lse_gradient(y);
             for (auto i = 0; i != n; ++i)
             {
                 g[i] = gt[i];
@@ -215,7 +215,7 @@ class posynomial
 
         if (N == 1)
         { // i.e. monomial
-            const Vec& gt = _M[0].gradient(y);
+            const auto gt = _M[0].lse_gradient(y);
             for (auto i = 0; i != n; ++i)
             {
                 g[i] = gt[i];
-- 
2.43.0


From ab132f10337502ac56ea3b2dae66d77c35403bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:55 +0000
Subject: [PATCH 16/27] fix: posynomial assignments with one of their own
 operands (p += p, p /= a term of p)

---
 lib/include/ellip/posynomial.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/include/ellip/posynomial.hpp b/lib/include/ellip/posynomial.hpp
index 40bc27f..88a2cdb 100644
--- a/lib/include/ellip/posynomial.hpp
+++ b/lib/include/ellip/posynomial.hpp
@@ -73,7 +73,8 @@ class posynomial
     /** Add and assign */
     _Self& operator+=(const _Self& P)
     {
-        for (auto i = 0; i != P._M.size(); ++i)
+        const auto N = P._M.size(); // P may be this very object
+        for (auto i = 0; i != N; ++i)
             _M.push_back(P._M[i]);
         return *this;
     }
@@ -81,16 +82,18 @@ class posynomial
     /** Multiply and assign */
     _Self& operator*=(const monomial<_Tp>& m)
     {
+        const auto m0 = m; // m may be one of the terms
         for (auto i = 0; i != _M.size(); ++i)
-            _M[i] *= m;
+            _M[i] *= m0;
         return *this;
     }
 
     /** Divide and assign */
     _Self& operator/=(const monomial<_Tp>& m)
     {
+        const auto m0 = m; // m may be one of the terms
         for (auto i = 0; i != _M.size(); ++i)
-            _M[i] /= m;
+            _M[i] /= m0;
         return *this;
     }
 
-- 
2.43.0


From 3d9f1453d9aedc68830a682a106af96d1f53c3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 17/27] fix: create_2d_isotropic draws from its own random
 engine

It reseeded and consumed xtensor's process-wide engine: a data race when
two threads sample, and a lasting side effect on the caller's own random
numbers. Same samples as before.
---
 lib/src/lsq_corr_ell.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/lsq_corr_ell.cpp b/lib/src/lsq_corr_ell.cpp
index 4014f5c..c93e342 100644
--- a/lib/src/lsq_corr_ell.cpp
+++ b/lib/src/lsq_corr_ell.cpp
@@ -51,7 +51,8 @@ Arr create_2d_isotropic(const Arr& s, size_t N = 3000U)
     const auto sdkern = 0.3;  // width of kernel
     const auto var = 2.;      // standard derivation
     const auto tau = 0.00001; // standard derivation of white noise
-    xt::random::seed(5);
+    // an own engine: the process-wide one belongs to the caller
+    auto engine = xt::random::default_engine_type(5U);
 
     auto Sig = zeros({n, n});
     for (auto i = 0U; i != n; ++i)
@@ -69,9 +70,9 @@ Arr create_2d_isotropic(const Arr& s, size_t N = 3000U)
     auto Y = zeros({n, n});
     for (auto k = 0U; k != N; ++k)
     {
-        auto x = var * xt::random::randn<double>({n});
+        auto x = var * xt::random::randn<double>({n}, 0., 1., engine);
         // evaluated once: a lazy sample would be drawn anew at each access
-        const Arr y = dot(A, x) + tau * xt::random::randn<double>({n});
+        const Arr y = dot(A, x) + tau * xt::random::randn<double>({n}, 0., 1., engine);
         // Arr y = dot(A, x);
         Y += xt::linalg::outer(y, y);
     }
-- 
2.43.0


From 99b03e127536fa22b7ca2587f8f58d058e8be3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:50 +0000
Subject: [PATCH 18/27] fix: a moved DiGraphS refers to its own adjacency, not
 to that of its source

---
 lib/include/xnetwork/classes/digraphs.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index 4230ffb..dd01cf3 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -242,6 +242,12 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
     }
 
+    DiGraphS(DiGraphS&& G) noexcept
+        : _Base {std::move(G)}
+        , _succ {_Base::_adj} // its own, not that of G
+    {
+    }
+
     /// @property
     /*! DiGraphS adjacency object holding the neighbors of each node.
 
-- 
2.43.0


From eca851f20e3f08eed4b9423909386ebd656490be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 19/27] fix: posynomial values and gradients beyond the range
 of exp

log(sum exp(p_i)) overflowed (or vanished to log(0)) as soon as a term left
the range of exp, although its logarithm is a moderate number. The largest
exponent is factored out first.
---
 lib/include/ellip/posynomial.hpp | 39 ++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/lib/include/ellip/posynomial.hpp b/lib/include/ellip/posynomial.hpp
index 88a2cdb..edd7917 100644
--- a/lib/include/ellip/posynomial.hpp
+++ b/lib/include/ellip/posynomial.hpp
@@ -3,6 +3,8 @@
 
 #include "monomial.hpp"
 #include <cassert>
+#include <cmath>
+#include <type_traits>
 #include <valarray>
 #include <vector>
 
@@ -145,14 +147,15 @@ class posynomial
             return p[0];
 
         // f <- log(sum_i(exp(y_i)))
+        const auto top = _largest(p);
         _Tp sum(0.0);
         for (auto i = 0; i != N; ++i)
         {
-            sum += exp(p[i]);
+            sum += exp(p[i] - top);
         }
 
         //_Tp sum = exp(p).sum();
-        return log(sum);
+        return top + log(sum);
     }
 
 
@@ -181,10 +184,14 @@ class posynomial
         // function evaluation.
         std::valarray<_Tp> z(N);
 
+        for (auto i = 0; i != N; ++i)
+            z[i] = _M[i].lse(y);
+
+        const auto top = _largest(z);
         _Tp sum(0.0);
         for (auto i = 0; i != N; ++i)
         {
-            z[i] = exp(_M[i].lse(y));
+            z[i] = exp(z[i] - top);
             sum += z[i];
         }
 
@@ -227,10 +234,11 @@ class posynomial
         }
 
         // f <- log(sum_i(exp(y_i)))
+        const auto top = _largest(p);
         _Tp sum(0.0);
         for (auto i = 0; i != N; ++i)
         {
-            p[i] = exp(p[i]);
+            p[i] = exp(p[i] - top);
             sum += p[i];
         }
 
@@ -246,7 +254,7 @@ class posynomial
             }
         }
 
-        return log(sum);
+        return top + log(sum);
     }
 
 
@@ -269,10 +277,11 @@ class posynomial
         }
 
         // f <- log(sum_i(exp(y_i)))
+        const auto top = _largest(p);
         _Tp sum(0.0);
         for (auto i = 0; i != N; ++i)
         {
-            p[i] = exp(p[i]);
+            p[i] = exp(p[i] - top);
             sum += p[i];
         }
 
@@ -289,10 +298,26 @@ class posynomial
             }
         }
 
-        f = log(sum);
+        f = top + log(sum);
         return g;
     }
 
+  private:
+    /** Largest exponent, factored out of a sum of exp's lest it overflow
+        (or vanish). AAF's are not ordered, nothing is factored out of them. */
+    static _Tp _largest(const std::valarray<_Tp>& p)
+    {
+        if constexpr (std::is_floating_point<_Tp>::value)
+        {
+            const auto top = p.max();
+            return std::isfinite(top) ? top : _Tp(0.0);
+        }
+        else
+        {
+            return _Tp(0.0);
+        }
+    }
+
   public:
     std::vector<monomial<_Tp>> _M; /**< vector of monomials */
 
-- 
2.43.0


From 07601456268f2993cc688b6898ab2b259bcbb569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 20/27] fix: bsearch on brackets wider than the range of their
 type

---
 lib/include/ellcpp/cutting_plane.hpp    |  2 +-
 lib/include/ellcpp/half_nonnegative.hpp | 24 ++++++++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index e970be1..92d450e 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -200,7 +200,7 @@ auto bsearch(Oracle&& Omega, Space&& I, const Options& options = Options())
 
     for (; niter != options.max_it; ++niter)
     {
-        auto tau = algo::half_nonnegative(upper - lower);
+        auto tau = algo::half_distance(lower, upper);
         if (tau < options.tol)
         {
             status = CUTStatus::smallenough;
diff --git a/lib/include/ellcpp/half_nonnegative.hpp b/lib/include/ellcpp/half_nonnegative.hpp
index 7780fa8..8d942d8 100644
--- a/lib/include/ellcpp/half_nonnegative.hpp
+++ b/lib/include/ellcpp/half_nonnegative.hpp
@@ -38,6 +38,30 @@ auto half_nonnegative(N n) noexcept ->
     return std::move(n) / 2;
 }
 
+// half of upper - lower, which itself may be beyond the range of N
+template <typename N>
+auto half_distance(N lower, N upper) noexcept ->
+    typename std::enable_if<std::is_integral<N>::value, N>::type
+{
+    using UN = typename std::make_unsigned<N>::type;
+    return static_cast<N>(
+        static_cast<UN>(static_cast<UN>(upper) - static_cast<UN>(lower)) / 2);
+}
+
+template <typename N>
+auto half_distance(N lower, N upper) noexcept ->
+    typename std::enable_if<std::is_floating_point<N>::value, N>::type
+{
+    return upper / 2 - lower / 2;
+}
+
+template <typename N>
+auto half_distance(N lower, N upper) noexcept ->
+    typename std::enable_if<!std::is_arithmetic<N>::value, N>::type
+{
+    return half_nonnegative(N(std::move(upper) - std::move(lower)));
+}
+
 } // namespace algo
 
 #endif // ALGO_HALF_NONNEGATIVE_H
\ No newline at end of file
-- 
2.43.0


From f98c185e25b3d7a8a19f31edc23fa50c28002648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 21/27] fix: bsearch with fractions no longer truncates the
 tolerance to an integer

---
 lib/include/py2cpp/fractions.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/include/py2cpp/fractions.hpp b/lib/include/py2cpp/fractions.hpp
index 12c62ff..92a9fc7 100644
--- a/lib/include/py2cpp/fractions.hpp
+++ b/lib/include/py2cpp/fractions.hpp
@@ -466,6 +466,17 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
         return this->_numerator < (this->_denominator * rhs);
     }
 
+    /**
+     * @brief compare with a floating-point number (not truncated to Z)
+     *
+     */
+    template <typename F,
+        std::enable_if_t<std::is_floating_point<F>::value, int> = 0>
+    constexpr auto operator<(const F& rhs) const -> bool
+    {
+        return F(this->_numerator) < F(this->_denominator) * rhs;
+    }
+
     /**
      * @brief
      *
-- 
2.43.0


From 7cf92b52901363bca4cc0260a3b60b05467fd092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 22/27] fix: ellipsoid.hpp compiles (undeclared x, status of a
 void update)

---
 lib/include/ellip/ellipsoid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/ellip/ellipsoid.hpp b/lib/include/ellip/ellipsoid.hpp
index dd6d237..ca92471 100644
--- a/lib/include/ellip/ellipsoid.hpp
+++ b/lib/include/ellip/ellipsoid.hpp
@@ -173,7 +173,7 @@ STATUS ellipsoid_dc(Enclosing& E, Oracle& P, Vec& best_x, double& best_f,
     for (int iter = 1; iter <= max_it; ++iter)
     {
         const Info4EM<Vec> info = P(lx);
-        // const Vec& x = info._x;
+        const Vec& x = info._x;
         const Vec& g = info._g;
         double f = info._f;
         // double beta = (g * (lx - x)).sum();
@@ -187,7 +187,7 @@ STATUS ellipsoid_dc(Enclosing& E, Oracle& P, Vec& best_x, double& best_f,
                 best_x = x;
             }
             // status = E.update(g, beta);
-            status = E.update(g);
+            E.update(g);
         }
         else
         {
-- 
2.43.0


From 7753d82067c767876a605fa1d3560813da01a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 23/27] fix: shallow cuts of ellip/ellipsoid beyond -tau/n lost
 points

---
 lib/include/ellip/ellipsoid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/ellip/ellipsoid.cpp b/lib/include/ellip/ellipsoid.cpp
index cc9e8b2..8d6f389 100644
--- a/lib/include/ellip/ellipsoid.cpp
+++ b/lib/include/ellip/ellipsoid.cpp
@@ -52,7 +52,7 @@ CUTSTATUS ellipsoid::update(const Vec& g, double beta)
     double tau = sqrt(gamma);
     if (beta > tau)
         return NOSOLUTION;
-    if (beta < -tau)
+    if (_n * beta < -tau)
         return NOEFFECT;
 
     double rho = (tau + _n * beta) / (_n + 1);
-- 
2.43.0


From 28b2ccf3387d532200380d5f0b3e4765dc5cb669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 24/27] fix: covariance fits failed for covariances in other
 units (fixed starting ellipsoids)

---
 lib/src/lsq_corr_ell.cpp | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/lib/src/lsq_corr_ell.cpp b/lib/src/lsq_corr_ell.cpp
index c93e342..26cc6e5 100644
--- a/lib/src/lsq_corr_ell.cpp
+++ b/lib/src/lsq_corr_ell.cpp
@@ -127,6 +127,21 @@ std::vector<Arr> construct_poly_matrix(const Arr& s, size_t m)
     return Sig;
 }
 
+/*!
+ * @brief Unit of the covariances
+ *
+ * A power of two (so that the change of unit is exact) in which the average
+ * variance is about 4, which the starting ellipsoids of the fits are meant for
+ *
+ * @param[in] Y
+ * @return double
+ */
+static auto unit_of(const Arr& Y) -> double
+{
+    const auto var = xt::linalg::trace(Y)() / Y.shape()[0];
+    return var > 0. ? std::exp2(std::round(std::log2(var / 4.))) : 1.;
+}
+
 /*!
  * @brief
  *
@@ -242,8 +257,11 @@ std::tuple<Arr, size_t, bool> lsq_corr_poly2(
     const Arr& Y, const Arr& s, size_t m)
 {
     auto Sig = construct_poly_matrix(s, m);
-    auto P = lsq_oracle(Sig, Y);
-    return lsq_corr_core2(Y, m, P);
+    const auto unit = unit_of(Y);
+    const auto Yu = Arr {Y / unit};
+    auto P = lsq_oracle(Sig, Yu);
+    auto [a, num_iters, feasible] = lsq_corr_core2(Yu, m, P);
+    return {a * unit, num_iters, feasible};
 }
 
 /*!
@@ -370,8 +388,11 @@ std::tuple<Arr, size_t, bool> mle_corr_poly(
     const Arr& Y, const Arr& s, size_t m)
 {
     const auto Sig = construct_poly_matrix(s, m);
-    auto P = mle_oracle(Sig, Y);
-    return mle_corr_core(Y, m, P);
+    const auto unit = unit_of(Y);
+    const auto Yu = Arr {Y / unit};
+    auto P = mle_oracle(Sig, Yu);
+    auto [a, num_iters, feasible] = mle_corr_core(Yu, m, P);
+    return {a * unit, num_iters, feasible};
 }
 
 /*!
@@ -388,13 +409,14 @@ std::tuple<Arr, size_t, bool> lsq_corr_poly(
     auto Sig = construct_poly_matrix(s, m);
     // P = mtx_norm_oracle(Sig, Y, a)
     auto a = zeros({m});
-    auto Q = qmi_oracle(Sig, Y);
+    const auto unit = unit_of(Y);
+    auto Q = qmi_oracle(Sig, Y / unit);
     auto E = ell(10., a);
     auto P = bsearch_adaptor<decltype(Q), decltype(E)>(Q, E);
     // double normY = xt::norm_l2(Y);
     auto bs_info = bsearch(P, std::make_pair(0., 100. * 100.));
 
     // std::cout << niter << ", " << feasible << '\n';
-    return {P.x_best(), bs_info.num_iters, bs_info.feasible};
+    return {P.x_best() * unit, bs_info.num_iters, bs_info.feasible};
     //  return prob.is_dcp()
 }
-- 
2.43.0


From 2eb7d45fff77eb3fcd8c598396e2b4672d2d1cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:01 +0000
Subject: [PATCH 25/27] fix: covariance fits failed for sites in other units of
 length

---
 lib/src/lsq_corr_ell.cpp | 45 ++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/lib/src/lsq_corr_ell.cpp b/lib/src/lsq_corr_ell.cpp
index 26cc6e5..320cafd 100644
--- a/lib/src/lsq_corr_ell.cpp
+++ b/lib/src/lsq_corr_ell.cpp
@@ -142,6 +142,36 @@ static auto unit_of(const Arr& Y) -> double
     return var > 0. ? std::exp2(std::round(std::log2(var / 4.))) : 1.;
 }
 
+/*!
+ * @brief Unit of the distances, one in which the largest is about 12
+ *
+ * @param[in] s
+ * @return double
+ */
+static auto length_of(const Arr& s) -> double
+{
+    const auto dmax = xt::amax(construct_distance_matrix(s))();
+    return dmax > 0. ? std::exp2(std::round(std::log2(dmax / 12.))) : 1.;
+}
+
+/*!
+ * @brief Coefficients in the original units
+ *
+ * @param[in] a
+ * @param[in] unit
+ * @param[in] length
+ * @return Arr
+ */
+static auto in_units(Arr a, double unit, double length) -> Arr
+{
+    for (auto& ak : a)
+    {
+        ak *= unit;
+        unit /= length;
+    }
+    return a;
+}
+
 /*!
  * @brief
  *
@@ -256,12 +286,13 @@ auto lsq_corr_core2(const Arr& Y, size_t m, lsq_oracle& P)
 std::tuple<Arr, size_t, bool> lsq_corr_poly2(
     const Arr& Y, const Arr& s, size_t m)
 {
-    auto Sig = construct_poly_matrix(s, m);
+    const auto length = length_of(s);
+    auto Sig = construct_poly_matrix(s / length, m);
     const auto unit = unit_of(Y);
     const auto Yu = Arr {Y / unit};
     auto P = lsq_oracle(Sig, Yu);
     auto [a, num_iters, feasible] = lsq_corr_core2(Yu, m, P);
-    return {a * unit, num_iters, feasible};
+    return {in_units(std::move(a), unit, length), num_iters, feasible};
 }
 
 /*!
@@ -387,12 +418,13 @@ auto mle_corr_core(const Arr& /* Y */, size_t m, mle_oracle& P)
 std::tuple<Arr, size_t, bool> mle_corr_poly(
     const Arr& Y, const Arr& s, size_t m)
 {
-    const auto Sig = construct_poly_matrix(s, m);
+    const auto length = length_of(s);
+    const auto Sig = construct_poly_matrix(s / length, m);
     const auto unit = unit_of(Y);
     const auto Yu = Arr {Y / unit};
     auto P = mle_oracle(Sig, Yu);
     auto [a, num_iters, feasible] = mle_corr_core(Yu, m, P);
-    return {a * unit, num_iters, feasible};
+    return {in_units(std::move(a), unit, length), num_iters, feasible};
 }
 
 /*!
@@ -406,7 +438,8 @@ std::tuple<Arr, size_t, bool> mle_corr_poly(
 std::tuple<Arr, size_t, bool> lsq_corr_poly(
     const Arr& Y, const Arr& s, size_t m)
 {
-    auto Sig = construct_poly_matrix(s, m);
+    const auto length = length_of(s);
+    auto Sig = construct_poly_matrix(s / length, m);
     // P = mtx_norm_oracle(Sig, Y, a)
     auto a = zeros({m});
     const auto unit = unit_of(Y);
@@ -417,6 +450,6 @@ std::tuple<Arr, size_t, bool> lsq_corr_poly(
     auto bs_info = bsearch(P, std::make_pair(0., 100. * 100.));
 
     // std::cout << niter << ", " << feasible << '\n';
-    return {P.x_best() * unit, bs_info.num_iters, bs_info.feasible};
+    return {in_units(P.x_best(), unit, length), bs_info.num_iters, bs_info.feasible};
     //  return prob.is_dcp()
 }
-- 
2.43.0


From 4f8663c46b1ef3a1db565a74412e1ba6f3ad361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 26/27] fix: size of a range longer than its type can count

---
 lib/include/py2cpp/py2cpp.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/include/py2cpp/py2cpp.hpp b/lib/include/py2cpp/py2cpp.hpp
index 46efba9..fee42e2 100644
--- a/lib/include/py2cpp/py2cpp.hpp
+++ b/lib/include/py2cpp/py2cpp.hpp
@@ -140,7 +140,14 @@ inline constexpr auto range(T start, T stop)
         }
         [[nodiscard]] constexpr auto size() const -> size_t
         {
-            return this->stop - this->start;
+            if constexpr (std::is_integral<T>::value)
+            { // the difference may be beyond the range of T
+                return size_t(this->stop) - size_t(this->start);
+            }
+            else
+            {
+                return this->stop - this->start;
+            }
         }
         constexpr auto operator[](size_t n) const -> T
         {
-- 
2.43.0


From 44a483940451614b44926f819a3feb038fdc7bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 27/27] fix: profit oracle with a target below the costs (NaN
 cut, no improvement)

---
 lib/src/profit_oracle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/profit_oracle.cpp b/lib/src/profit_oracle.cpp
index 5e13af5..915c0f2 100644
--- a/lib/src/profit_oracle.cpp
+++ b/lib/src/profit_oracle.cpp
@@ -26,7 +26,8 @@ auto profit_oracle::operator()(const Arr& y, double& t) const
     const auto vx = xt::linalg::dot(this->_v, x)();
     auto te = t + vx;
 
-    auto fj = std::log(te) - log_Cobb;
+    // (a target below the costs alone is worse than any profit, and has no log)
+    const auto fj = te > 0. ? std::log(te) - log_Cobb : -1.;
     if (fj < 0.)
     {
         te = std::exp(log_Cobb);
-- 
2.43.0

