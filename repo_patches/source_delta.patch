From ca8ad0946605d6794a8c183aa24afbdda0408b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 01/21] fix: DDScalar x *= x read the target while writing it

---
 include/hyperjet/hyperjet.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 250d204..05c1755 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1139,6 +1139,11 @@ namespace hyperjet
         {
             check_equal_size(size(), b.size());
 
+            if (this == &b)
+            {
+                return *this *= Type(b);
+            }
+
             const Data a_m_data = m_data;
 
             const Scalar da = b.f();
@@ -1154,7 +1159,7 @@ namespace hyperjet
             if constexpr (order() == 1)
                 return *this;
 
-            auto *it = &m_data[1 + size()];
+            auto *it = ptr() + 1 + size();
 
             for (index i = 0; i < size(); i++)
             {
-- 
2.43.0


From ed371750be4afcead0a3942bf413de9375170a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 02/21] fix: SScalar x *= x and x /= x read the target while
 writing it

---
 include/hyperjet/hyperjet.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 05c1755..70fc817 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -2257,6 +2257,9 @@ namespace hyperjet
 
         Type &operator*=(const Type &b)
         {
+            if (this == &b)
+                return *this *= Type(b);
+
             const Scalar da = b.m_f;
             const Scalar db = m_f;
 
@@ -2315,6 +2318,9 @@ namespace hyperjet
         {
             using std::pow;
 
+            if (this == &b)
+                return *this /= Type(b);
+
             const auto da = 1 / b.m_f;
             const auto db = -m_f / pow(b.m_f, 2);
 
-- 
2.43.0


From 07665fa861881045841fa342d432171bfe5eb31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 03/21] fix: default and value constructors of dynamic DDScalar
 claimed size 1 with the data of size 0

---
 include/hyperjet/hyperjet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 70fc817..2d2c7ea 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -318,7 +318,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
@@ -333,7 +333,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
-- 
2.43.0


From 3a3e5baa067ae0b66ea6093a1894d7b2c899c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 04/21] fix: initializer-list constructor of DDScalar neither
 allocated nor checked its length

---
 include/hyperjet/hyperjet.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 2d2c7ea..37e75dd 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -362,6 +362,13 @@ namespace hyperjet
         {
             static_assert(0 < order() && order() <= 2);
 
+            check_valid_size(m_size);
+
+            if constexpr (is_dynamic())
+            {
+                m_data.resize(data.size());
+            }
+
             std::copy(data.begin(), data.end(), m_data.begin());
         }
 
-- 
2.43.0


From e79a67681e63ab3bf501cab0c424b27c29f7c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 05/21] fix: DDScalar accepted empty data and negative sizes

---
 include/hyperjet/hyperjet.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 37e75dd..1019c77 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -69,7 +69,7 @@ namespace hyperjet
 
             if constexpr (throw_exceptions())
             {
-                if (data_length_from_size(s) != n)
+                if (s < 0 || data_length_from_size(s) != n)
                 {
                     throw std::runtime_error("Invalid length");
                 }
@@ -429,9 +429,10 @@ namespace hyperjet
         void resize(const index size)
         {
             static_assert(is_dynamic());
-            m_size = size;
+            check_valid_size(size);
             const index n = data_length_from_size(size);
             m_data.resize(n);
+            m_size = size;
         }
 
         Type pad_left(const index new_size) const
@@ -573,6 +574,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_size(size);
                 const index n = data_length_from_size(size);
                 const Data data(n);
                 Type result(data, size);
@@ -606,6 +608,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_size(size);
                 const Data data(data_length_from_size(size), 0);
                 Type result(data, size);
                 return result;
-- 
2.43.0


From a9012d5348472a28f78d17b8ceed6350d6710e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 06/21] fix: padding to a smaller size wrote out of bounds

---
 include/hyperjet/hyperjet.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 1019c77..b434657 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -133,6 +133,21 @@ namespace hyperjet
             }
         }
 
+        HYPERJET_INLINE static void check_padded_size(const index size, const index new_size)
+        {
+            if constexpr (throw_exceptions())
+            {
+                if (new_size < size)
+                {
+                    throw std::runtime_error("Invalid size");
+                }
+            }
+            else
+            {
+                assert(new_size >= size && "Invalid size");
+            }
+        }
+
         struct Zero
         {
             HYPERJET_INLINE Zero operator*(const Scalar) const
@@ -439,6 +454,8 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
+            check_padded_size(size(), new_size);
+
             Type result = empty(new_size);
 
             const index head = new_size - size();
@@ -486,6 +503,8 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
+            check_padded_size(size(), new_size);
+
             Type result = empty(new_size);
 
             const index tail = new_size - size();
-- 
2.43.0


From 64bc54dcac5b44ab7298846f8397d69ed8513ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 07/21] fix: atan2 and three-operand hypot did not reject
 operands of different sizes

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index b434657..edc2216 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1447,6 +1447,8 @@ namespace hyperjet
         {
             using std::atan2;
 
+            check_equal_size(size(), b.size());
+
             Type result = Type::empty(size());
 
             const Scalar tmp = this->f() * this->f() + b.f() * b.f();
@@ -1489,6 +1491,7 @@ namespace hyperjet
             using std::hypot;
 
             check_equal_size(a.size(), b.size());
+            check_equal_size(a.size(), c.size());
 
             Type result = Type::empty(a.size());
 
-- 
2.43.0


From 7e407211419635cddf430bca49cb4094177606ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 08/21] fix: inverted length assertion under
 HYPERJET_NO_EXCEPTIONS

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index edc2216..c2fd9df 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -76,7 +76,7 @@ namespace hyperjet
             }
             else
             {
-                assert(data_length_from_size(s) == n == 0 && "Invalid length");
+                assert(s >= 0 && data_length_from_size(s) == n && "Invalid length");
             }
 
             return s;
-- 
2.43.0


From 2b0f0e89befa2eab83cf152c24c24158aff33212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 09/21] fix: matrices and increments of the wrong shape were
 read out of bounds

---
 include/hyperjet/hyperjet.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index c2fd9df..7e3f28f 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -885,6 +885,9 @@ namespace hyperjet
 
         void set_hm(const Eigen::Ref<const Matrix> &value)
         {
+            check_equal_size(size(), value.rows());
+            check_equal_size(size(), value.cols());
+
             index it = 0;
 
             for (index i = 0; i < size(); i++)
@@ -922,7 +925,8 @@ namespace hyperjet
         {
             static_assert(order() == 2);
 
-            assert(g.size() == hm.rows() && g.size() == hm.cols());
+            check_equal_size(length(g), hm.rows());
+            check_equal_size(length(g), hm.cols());
 
             Type result = empty(length(g));
 
@@ -935,6 +939,8 @@ namespace hyperjet
 
         Scalar eval(typename std::conditional < TSize == Dynamic, std::vector<Scalar>, std::array<Scalar, TSize<0 ? 0 : TSize>>::type d) const
         {
+            check_equal_size(size(), length(d));
+
             Scalar result = f();
 
             for (index i = 0; i < size(); i++)
-- 
2.43.0


From 3f2718649a833044171178933a100519304e4dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 10/21] fix: first-order Python types offered Hessian accessors
 that read and wrote out of bounds

---
 python/src/common.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/src/common.h b/python/src/common.h
index 81b1193..c45544c 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -91,11 +91,16 @@ auto bind(py::module &m, const std::string &name)
         .def("__pow__", &T::pow)
         .def("__repr__", &T::to_string)
         .def("abs", &T::abs)
-        .def("eval", &T::eval, "d"_a)
-        .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
-        .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
-        .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
-        .def("set_hm", &T::set_hm, "value"_a);
+        .def("eval", &T::eval, "d"_a);
+
+    if constexpr (T::order() == 2)
+    {
+        cls
+            .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
+            .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
+            .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
+            .def("set_hm", &T::set_hm, "value"_a);
+    }
 
     if constexpr (T::is_dynamic())
     {
-- 
2.43.0


From b34a58194b384cf2a7d6f39ae60d55d1100f5ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 11/21] fix: hj.f truncated values to the type of the first
 entry

---
 python/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/main.cpp b/python/src/main.cpp
index 9eb058d..951fe24 100644
--- a/python/src/main.cpp
+++ b/python/src/main.cpp
@@ -62,7 +62,7 @@ PYBIND11_MODULE(hyperjet, m)
         auto global = py::dict();
         global["np"] = numpy;
 
-        m.attr("f") = py::eval("np.vectorize(lambda v: v.f if hasattr(v, 'f') else v)", global);
+        m.attr("f") = py::eval("np.vectorize(lambda v: v.f if hasattr(v, 'f') else v, otypes=[float])", global);
         m.attr("d") = py::eval("np.vectorize(lambda v: v.g if hasattr(v, 'g') else np.zeros((0)), signature='()->(n)')", global);
         m.attr("dd") = py::eval("np.vectorize(lambda v: v.hm() if hasattr(v, 'hm') else np.zeros((0, 0)), signature='()->(n,m)')", global);
 
-- 
2.43.0


From 64c576c59f1010641ea2923f2720345b81ca52cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 12/21] fix: pow at base zero with exponent 0 or 1 returned
 not-a-number derivatives

---
 include/hyperjet/hyperjet.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 7e3f28f..3bec8da 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1297,8 +1297,9 @@ namespace hyperjet
             Type result = Type::empty(size());
 
             const auto f = pow(this->f(), b);
-            const auto da = b * pow(this->f(), b - 1);
-            const auto daa = (b - 1) * b * pow(this->f(), b - 2);
+            const auto b2 = (b - 1) * b;
+            const auto da = b == 0 ? b : b * pow(this->f(), b - 1);
+            const auto daa = b2 == 0 ? b2 : b2 * pow(this->f(), b - 2);
 
             unary<false>(m_data, f, da, daa, result.m_data);
 
@@ -2387,7 +2388,7 @@ namespace hyperjet
             using std::pow;
 
             const auto f = pow(m_f, b);
-            const auto da = b * pow(m_f, b - Scalar(1));
+            const auto da = b == 0 ? b : b * pow(m_f, b - Scalar(1));
 
             return Type(f, unary(m_d, da));
         }
-- 
2.43.0


From ef92bdd9fb4ba7a3ea3896042499f4ecb3ac3af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 13/21] fix: SScalar::eval compared an iterator with the end of
 another map

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 3bec8da..af85cfd 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -2135,7 +2135,7 @@ namespace hyperjet
             {
                 const auto it = d.find(coef.first);
 
-                if (it == m_d.end())
+                if (it == d.end())
                     continue;
 
                 r += coef.second * it->second;
-- 
2.43.0


From 164492f788c761e7be1d489158188527965a57f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:58 +0000
Subject: [PATCH 14/21] fix: variables() of a fixed-size type asserted instead
 of refusing a wrong number of values

---
 include/hyperjet/hyperjet.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index af85cfd..992bd9d 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -690,10 +690,7 @@ namespace hyperjet
         {
             const index s = length(values);
 
-            if constexpr (!is_dynamic())
-            {
-                assert(s == TSize);
-            }
+            check_valid_size(s);
 
             std::vector<Type> vars(s);
             for (index i = 0; i < s; i++)
-- 
2.43.0


From 54ab4388737aeb80a766fd6169da05e3aa2c4c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:58 +0000
Subject: [PATCH 15/21] fix: log2 and log10 derivatives of extended precision
 numbers used a double precision constant

---
 include/hyperjet/hyperjet.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 992bd9d..5263bdf 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1671,7 +1671,7 @@ namespace hyperjet
             Type result = Type::empty(size());
 
             const auto f = log2(this->f());
-            const auto da = 1 / (this->f() * log(2));
+            const auto da = 1 / (this->f() * log(Scalar(2)));
             const auto daa = -da / this->f();
 
             unary<false>(m_data, f, da, daa, result.m_data);
@@ -1687,7 +1687,7 @@ namespace hyperjet
             Type result = Type::empty(size());
 
             const auto f = log10(this->f());
-            const auto da = 1 / (this->f() * log(10));
+            const auto da = 1 / (this->f() * log(Scalar(10)));
             const auto daa = -da / this->f();
 
             unary<false>(m_data, f, da, daa, result.m_data);
@@ -2636,7 +2636,7 @@ namespace hyperjet
             using std::log2;
 
             const auto f = log2(m_f);
-            const auto da = 1 / (m_f * log(2));
+            const auto da = 1 / (m_f * log(Scalar(2)));
 
             return Type(f, unary(m_d, da));
         }
@@ -2647,7 +2647,7 @@ namespace hyperjet
             using std::log10;
 
             const auto f = log10(m_f);
-            const auto da = 1 / (m_f * log(10));
+            const auto da = 1 / (m_f * log(Scalar(10)));
 
             return Type(f, unary(m_d, da));
         }
-- 
2.43.0


From 3a4242f8b3012d67958b74d5e7e59dbb4caedb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:38 +0000
Subject: [PATCH 16/21] fix: pow of extended precision numbers computed
 exponents in double precision

---
 include/hyperjet/hyperjet.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 5263bdf..ba395fe 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1293,10 +1293,12 @@ namespace hyperjet
 
             Type result = Type::empty(size());
 
-            const auto f = pow(this->f(), b);
-            const auto b2 = (b - 1) * b;
-            const auto da = b == 0 ? b : b * pow(this->f(), b - 1);
-            const auto daa = b2 == 0 ? b2 : b2 * pow(this->f(), b - 2);
+            const typename std::common_type<Scalar, double>::type e = b;
+
+            const auto f = pow(this->f(), e);
+            const auto e2 = (e - 1) * e;
+            const auto da = e == 0 ? e : e * pow(this->f(), e - 1);
+            const auto daa = e2 == 0 ? e2 : e2 * pow(this->f(), e - 2);
 
             unary<false>(m_data, f, da, daa, result.m_data);
 
-- 
2.43.0


From dfe925a05c8894340bbc95577f5475550b058f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:00 +0000
Subject: [PATCH 17/21] fix: gradient view of constant numbers did not compile

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index ba395fe..8bf1b5e 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -825,7 +825,7 @@ namespace hyperjet
 
         Eigen::Ref<const Vector> ag() const
         {
-            return Eigen::Map<Vector>(ptr() + 1, size());
+            return Eigen::Map<const Vector>(ptr() + 1, size());
         }
 
         Eigen::Ref<Vector> ag()
-- 
2.43.0


From b55c9c137acab3f155eb3606faf138d041f3bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:00 +0000
Subject: [PATCH 18/21] fix: Hessian buffers and flat data of the wrong size
 were accessed out of bounds

---
 include/hyperjet/hyperjet.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 8bf1b5e..0954ff2 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -844,6 +844,9 @@ namespace hyperjet
 
         void hm(const std::string mode, Eigen::Ref<Matrix> out) const
         {
+            check_equal_size(size(), out.rows());
+            check_equal_size(size(), out.cols());
+
             index it = 0;
 
             for (index i = 0; i < size(); i++)
@@ -903,6 +906,8 @@ namespace hyperjet
 
         void set_adata(const Eigen::Ref<DataVector> value)
         {
+            check_equal_size(length(m_data), length(value));
+
             Eigen::Map<DataVector>(ptr(), length(m_data)) = value;
         }
 
-- 
2.43.0


From 26d85f1a99fc1b389eb41a97ba95dd67a44048f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:00 +0000
Subject: [PATCH 19/21] fix: Hessian of one-variable numbers was not a matrix
 in Python

---
 python/src/common.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/src/common.h b/python/src/common.h
index c45544c..5793d66 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -98,7 +98,14 @@ auto bind(py::module &m, const std::string &name)
         cls
             .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
             .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
-            .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
+            .def(
+                "hm", [](const T &self, const std::string &mode)
+                {
+                    // a matrix for every size: a fixed 1x1 matrix would be converted to a vector
+                    Eigen::Matrix<typename T::Scalar, Eigen::Dynamic, Eigen::Dynamic> result = self.hm(mode);
+                    return result;
+                },
+                "mode"_a = "full")
             .def("set_hm", &T::set_hm, "value"_a);
     }
 
-- 
2.43.0


From 69c796e0369eab324425e952f8577cd5f0279179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:35 +0000
Subject: [PATCH 20/21] fix: DDScalar x /= x read the target while writing it

---
 include/hyperjet/hyperjet.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 0954ff2..26e1508 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1269,6 +1269,11 @@ namespace hyperjet
 
             check_equal_size(size(), b.size());
 
+            if (this == &b)
+            {
+                return *this /= Type(b);
+            }
+
             const Data a_m_data = m_data;
 
             const auto f = a_m_data[0] / b.f();
-- 
2.43.0


From 93f2a43083d5baac1a13ec966852e09aeb352891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:45 +0000
Subject: [PATCH 21/21] fix: DDScalar x *= x.f() read the factor while
 overwriting it

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 26e1508..b0e91a9 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1209,7 +1209,7 @@ namespace hyperjet
             return *this;
         }
 
-        Type &operator*=(const Scalar &b)
+        Type &operator*=(const Scalar b)
         {
             for (index i = 0; i < length(m_data); i++)
             {
-- 
2.43.0

