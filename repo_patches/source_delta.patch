From c83450908fe63dd8628135bf28e58e4534b84385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:40 +0000
Subject: [PATCH 01/34] fix: renf_elem_fmpq_div computed b * c instead of b / c

The inverse of c was computed in a but then dropped.
---
 libeantic/src/renf_elem/fmpq_div.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/fmpq_div.c b/libeantic/src/renf_elem/fmpq_div.c
index d2e8eb3..9b6449e 100644
--- a/libeantic/src/renf_elem/fmpq_div.c
+++ b/libeantic/src/renf_elem/fmpq_div.c
@@ -17,5 +17,5 @@ void renf_elem_fmpq_div(renf_elem_t a, const fmpq_t b, const renf_elem_t c, cons
 {
     renf_elem_set(a, c, nf);
     renf_elem_inv(a, a, nf);
-    renf_elem_mul_fmpq(a, c, b, nf);
+    renf_elem_mul_fmpq(a, a, b, nf);
 }
-- 
2.43.0


From 633d453239329439791d50b7cf0adf5b9e948b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:40 +0000
Subject: [PATCH 02/34] fix: generator of a linear field was the inverse of the
 root

The root of b*x + a is -a/b and not -b/a.
---
 libeantic/src/renf_elem/gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf_elem/gen.c b/libeantic/src/renf_elem/gen.c
index b0891e4..f16f0fb 100644
--- a/libeantic/src/renf_elem/gen.c
+++ b/libeantic/src/renf_elem/gen.c
@@ -17,8 +17,8 @@ void renf_elem_gen(renf_elem_t a, const renf_t nf)
 {
     if (nf->nf->flag & NF_LINEAR)
     {
-        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs + 1);
-        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs + 1);
 
         fmpz_neg(LNF_ELEM_NUMREF(a->elem), LNF_ELEM_NUMREF(a->elem));
 
-- 
2.43.0


From 0da8e8a02d141711189fc6f3acb2c4665ca65e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:40 +0000
Subject: [PATCH 03/34] fix: positive root upper bound was not a bound

The local max bound pairs each coefficient that has not the sign of the leading
coefficient with one that has. Pairing it with any coefficient gives values that
are smaller than a root, e.g., for 8*x^4 - 4*x^3 - 2*x^2 - 2*x - 1, and such
roots were then missed by fmpz_poly_isolate_real_roots.
---
 .../src/fmpz_poly_extra/positive_root_upper_bound_2exp.c      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
index 71168f8..fa2b3d9 100644
--- a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
+++ b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
@@ -50,6 +50,10 @@ slong _fmpz_poly_positive_root_upper_bound_2exp_local_max(const fmpz * pol, slon
         bmin = WORD_MAX;
         for (j = i + 1; j < len; j++)
         {
+            /* only coefficients with the sign of the leading coefficient */
+            /* can compensate p_i                                         */
+            if (fmpz_sgn(pol + j) != sgn) continue;
+
             /* compare the current bound with the log (in base 2) of */
             /* (- 2^coeffs[j] * p_i / p_j) ^ (1 / (j - i))           */
             /* which equals                                          */
-- 
2.43.0


From 267014dd670ec9dcc2cd379de373d2a3f7dd8b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:40 +0000
Subject: [PATCH 04/34] fix: fmpz_poly_set_str_pretty kept the previous higher
 coefficients

---
 libeantic/src/fmpz_poly_extra/set_str_pretty.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libeantic/src/fmpz_poly_extra/set_str_pretty.c b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
index 5567284..2a2b23f 100644
--- a/libeantic/src/fmpz_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
@@ -33,6 +33,8 @@ int fmpz_poly_set_str_pretty(fmpz_poly_t p, const char * s, const char * var)
         return -1;
     }
 
+    fmpz_poly_zero(p);
+
     for (long i = fmpq_poly_length(q) - 1; i >= 0; i--)
     {
         fmpz_poly_set_coeff_fmpz(p, i, fmpq_poly_numref(q) + i);
-- 
2.43.0


From 1ad9237e193a033c48f5307d5da468864457a171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:13 +0000
Subject: [PATCH 05/34] fix: Sturm root count was off when an inner term of the
 sequence vanishes

Zeros must be skipped when counting sign variations of a Sturm sequence, e.g.,
4*x^2 - 1 was reported to have two roots between 0 and 1.
---
 libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c b/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
index 5645eaf..0197a3c 100644
--- a/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
+++ b/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
@@ -50,7 +50,7 @@ slong fmpz_poly_num_real_roots_0_1_sturm(fmpz_poly_t pol)
             t++;
             s0a = s;
         }
-        else if (s != s0a)
+        else if (s != 0 && s != s0a)
         {
             t++;
             s0a = s;
@@ -61,7 +61,7 @@ slong fmpz_poly_num_real_roots_0_1_sturm(fmpz_poly_t pol)
         s = fmpz_sgn(c);
         if (s0b == 0)
             s0b = s;
-        else if (s != s0b)
+        else if (s != 0 && s != s0b)
         {
             t--;
             s0b = s;
-- 
2.43.0


From 2da16f685e493d5300d37c182978e11968e2dd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:11 +0000
Subject: [PATCH 06/34] fix: floor and ceil of zero read a stale coefficient

In fields of degree at least three, zero is a polynomial of length zero whose
constant coefficient holds whatever was there before, e.g., the floor of
(x + 5) - (x + 5) was 5.
---
 libeantic/src/renf_elem/rounding_template.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libeantic/src/renf_elem/rounding_template.h b/libeantic/src/renf_elem/rounding_template.h
index 2ea68a4..8797919 100644
--- a/libeantic/src/renf_elem/rounding_template.h
+++ b/libeantic/src/renf_elem/rounding_template.h
@@ -46,6 +46,13 @@ RENF_ELEM_INT(fmpz_t a, renf_elem_t b, renf_t nf)
     slong size, cond = WORD_MIN, prec;
     fmpz_t zsize;
 
+    if (nf_elem_is_zero(b->elem, nf->nf))
+    {
+        /* there might not be a meaningful constant coefficient to read */
+        fmpz_zero(a);
+        return;
+    }
+
     if (nf_elem_is_rational(b->elem, nf->nf))
     {
         if (nf->nf->flag & NF_LINEAR)
-- 
2.43.0


From 8678ff679d41fd70ffe58882f9fa71313e3a53b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:11 +0000
Subject: [PATCH 07/34] fix: renf_class::make leaked when there is no unique
 root

The callback that provides the embedding throws in that case but the polynomial
and the ball had already been allocated.
---
 libeantic/srcxx/renf_class.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 0d4bf83..2f5b6ab 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -124,6 +124,9 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
 boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minpoly, const std::string& gen, const std::function<std::string(slong prec)> emb, slong prec) {
     while (true)
     {
+        // Might throw so we call it before we allocate anything.
+        const std::string embedding = emb(prec);
+
         arb_t e;
         fmpq_poly_t p;
 
@@ -135,7 +138,7 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
         }
 
         arb_init(e);
-        if (arb_set_str(e, emb(prec).c_str(), prec))
+        if (arb_set_str(e, embedding.c_str(), prec))
         {
             fmpq_poly_clear(p);
             arb_clear(e);
-- 
2.43.0


From 656f0bb58264d67624ac3a2e75db4bfab30fca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:11 +0000
Subject: [PATCH 08/34] fix: renf_elem_class constructors leaked when they
 throw

The destructor is not run when a constructor throws so everything allocated so
far has to be released explicitly.
---
 libeantic/srcxx/renf_elem_class.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 0aae188..20d886b 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -427,6 +427,7 @@ renf_elem_class::renf_elem_class(const renf_class& k, const std::string & str)
     if (err)
     {
         fmpq_poly_clear(p);
+        flint_free(t);
         throw std::invalid_argument("renf_elem_class fmpq_poly_set_str_pretty");
     }
     renf_elem_init(a, nf->renf_t());
@@ -438,14 +439,15 @@ renf_elem_class::renf_elem_class(const renf_class& k, const std::string & str)
 
 renf_elem_class::renf_elem_class(const renf_class& k, const renf_elem_class & value)
     : nf(&k) {
+    if (value.parent() != parent() && !value.is_rational())
+        throw std::logic_error("not implemented: coercion between these number fields");
+
     renf_elem_init(a, nf->renf_t());
 
     if (value.parent() == parent())
         renf_elem_set(a, value.renf_elem_t(), nf->renf_t());
-    else if (value.is_rational())
-        renf_elem_set_mpq(a, static_cast<mpq_class>(value).get_mpq_t(), nf->renf_t());
     else
-        throw std::logic_error("not implemented: coercion between these number fields");
+        renf_elem_set_mpq(a, static_cast<mpq_class>(value).get_mpq_t(), nf->renf_t());
 }
 
 renf_elem_class::renf_elem_class(const renf_class& k, const std::vector<int> & coefficients)
-- 
2.43.0


From 2ee8799ff5b510b883731bdb5d36fa723bbcfd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:11 +0000
Subject: [PATCH 09/34] fix: undefined behavior in renf_elem_class::pow with
 the smallest exponent

---
 libeantic/srcxx/renf_elem_class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 20d886b..c452034 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -972,7 +972,7 @@ renf_elem_class renf_elem_class::pow(int exp) const
     if (exp < 0)
     {
         renf_elem_inv(res.renf_elem_t(), renf_elem_t(), nf->renf_t());
-        renf_elem_pow(res.renf_elem_t(), res.renf_elem_t(), static_cast<ulong>(-exp), nf->renf_t());
+        renf_elem_pow(res.renf_elem_t(), res.renf_elem_t(), -static_cast<ulong>(exp), nf->renf_t());
     }
     else
     {
-- 
2.43.0


From 8e6da6b624f44e1c31a187396f70e36642b54ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:11 +0000
Subject: [PATCH 10/34] fix: floordiv interpreted elements of another field as
 its own

The other binary operators throw a std::logic_error for non-rational elements of
different fields but floordiv used the representation of one in the other field.
---
 libeantic/srcxx/renf_elem_class.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index c452034..c043cff 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -950,6 +950,7 @@ mpz_class renf_elem_class::floordiv(const renf_elem_class& rhs) const
             return (*this / rhs).floor();
         if (this->is_rational())
             return renf_elem_class(rhs.parent(), static_cast<mpq_class>(*this)).floordiv(rhs);
+        throw std::logic_error("not implemented: floor division of elements from different number fields");
     }
 
     mpz_class ret;
-- 
2.43.0


From 5470674700a04d192e6df9599730184bd3b221fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:11 +0000
Subject: [PATCH 11/34] fix: race between releasing a field and looking it up
 in the registry

When the last reference to a field was released, make() could still find the
field in the registry and hand out a new reference before the releasing thread
had acquired the lock, which then deleted the field anyway.
---
 libeantic/srcxx/renf_class.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 2f5b6ab..e3e905a 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -289,7 +289,20 @@ void intrusive_ptr_add_ref(const renf_class* nf) {
 
 // Stop tracking a pointer to the field `nf`.
 void intrusive_ptr_release(const renf_class* nf) {
-    if (nf->refcount.fetch_sub(1, std::memory_order_release) == 4)
+    // There are references left (or this field is already being deleted.)
+    auto count = nf->refcount.load(std::memory_order_relaxed);
+    while (count != 4)
+    {
+        if (nf->refcount.compare_exchange_weak(count, count - 1, std::memory_order_acq_rel, std::memory_order_relaxed))
+            return;
+    }
+
+    // This might be the last reference. The final decision has to be made
+    // while holding the lock since make() might be handing out a new reference
+    // to this field from the registry.
+    std::lock_guard<std::mutex> lock(fields_mutex);
+
+    if (nf->refcount.fetch_sub(1, std::memory_order_acq_rel) == 4)
     {
         // All references to this field have been released, i.e., all
         // intrusive_ptr<const renf_class*> are gone except for the ones
@@ -297,8 +310,6 @@ void intrusive_ptr_release(const renf_class* nf) {
         // We remove this field from the registry of fields and then free the
         // memory it is occupying.
 
-        std::lock_guard<std::mutex> lock(fields_mutex);
-
         assert(fields.find(nf) != fields.end());
         fields.erase(nf);
         delete(nf);
-- 
2.43.0


From 4890bc48d6c171c96dfaa462cf11a3a8d8d7893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:49 +0000
Subject: [PATCH 12/34] fix: memory leaks in fmpq_poly_check_unique_real_root

---
 libeantic/src/fmpq_poly_extra/check_unique_real_root.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
index 0eaadac..b5c50a0 100644
--- a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
+++ b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
@@ -86,7 +86,12 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
             }
         }
         else
+        {
+            arf_clear(l);
+            arf_clear(r);
+            arb_clear(b);
             return 0;
+        }
         arb_clear(b);
 
         /* 2 - expensive testing                                        */
@@ -96,6 +101,8 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         fmpq_init(qr);
         arf_get_fmpq(ql, l);
         arf_get_fmpq(qr, r);
+        arf_clear(l);
+        arf_clear(r);
 
         fmpz_poly_init(pol2);
         fmpz_poly_fit_length(pol2, pol->length);
-- 
2.43.0


From 4c4ed041ce000d56f78cc80ca9ca8d160c4940ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:49 +0000
Subject: [PATCH 13/34] fix: fmpq_poly_check_unique_real_root was wrong for
 small precision

The endpoints of the ball were rounded outwards to the given precision so balls
that do not contain a root were accepted. Also, balls were rejected when the
sign of the polynomial at an endpoint was not visible at that precision.
---
 .../fmpq_poly_extra/check_unique_real_root.c  | 47 ++++++++++++-------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
index b5c50a0..4871d66 100644
--- a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
+++ b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
@@ -18,12 +18,29 @@
 #include "../../e-antic/fmpz_poly_extra.h"
 #include "../../e-antic/fmpq_poly_extra.h"
 
-static __inline__ int
-arb_sgn2(arb_t a)
+/* exact sign of pol at the finite number x */
+static int
+_fmpz_poly_sgn_at_arf(const fmpz * pol, slong len, const arf_t x, slong prec)
 {
-    if (arb_is_positive(a)) return 1;
-    else if (arb_is_negative(a)) return -1;
-    return 0;
+    arb_t b, c;
+    int sgn;
+
+    arb_init(b);
+    arb_init(c);
+    arb_set_arf(b, x);
+
+    do
+    {
+        _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
+        prec *= 2;
+    } while (arb_contains_zero(c) && !arb_is_zero(c));
+
+    sgn = arf_sgn(arb_midref(c));
+
+    arb_clear(b);
+    arb_clear(c);
+
+    return sgn;
 }
 
 int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong prec)
@@ -45,7 +62,7 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
     }
     else
     {
-        arb_t b, c;
+        arb_t b;
         arf_t l, r;
 
         fmpz * der;
@@ -56,20 +73,18 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         /* 1 - cheap test:                    */
         /*   - sign(left) * sign(right) = -1  */
         /*   - no zero of the derivative      */
+        if (!arb_is_finite(a))
+            return 0;
+
         arb_init(b);
-        arb_init(c);
         arf_init(l);
         arf_init(r);
-        arb_get_interval_arf(l, r, a, prec);
-        arb_set_arf(b, l);
-        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, 2*prec);
-        lsign = arb_sgn2(c);
-
-        arb_set_arf(b, r);
-        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, 2*prec);
-        rsign = arb_sgn2(c);
+        /* the endpoints must not be rounded here, the root that we find */
+        /* could otherwise be outside of the ball                        */
+        arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
+        lsign = _fmpz_poly_sgn_at_arf(pol->coeffs, pol->length, l, 2*prec);
+        rsign = _fmpz_poly_sgn_at_arf(pol->coeffs, pol->length, r, 2*prec);
 
-        arb_clear(c);
         if (lsign * rsign == -1)
         {
             der = _fmpz_vec_init(pol->length - 1);
-- 
2.43.0


From 7ef8b2e83aaa4aa7e65c56d0fcaa001355302ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:49 +0000
Subject: [PATCH 14/34] fix: renf_set_embeddings_fmpz_poly aborted for close
 roots

The center of the isolating interval was rounded to the given precision without
taking the rounding error into account.
---
 libeantic/src/renf/set_embeddings_fmpz_poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/renf/set_embeddings_fmpz_poly.c b/libeantic/src/renf/set_embeddings_fmpz_poly.c
index 72d068e..110872b 100644
--- a/libeantic/src/renf/set_embeddings_fmpz_poly.c
+++ b/libeantic/src/renf/set_embeddings_fmpz_poly.c
@@ -51,7 +51,7 @@ slong renf_set_embeddings_fmpz_poly(renf * nf, fmpz_poly_t pol, slong lim, slong
     {
         arb_set_fmpz(a, c + i);
         arb_mul_2exp_si(a, a, 1);
-        arb_add_si(a, a, 1, prec);
+        arb_add_si(a, a, 1, ARF_PREC_EXACT);
         mag_one(arb_radref(a));
         arb_mul_2exp_si(a, a, k[i] - 1);
 
-- 
2.43.0


From c65342a80f4dec2f5068b6689e2980a6985b98d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:03 +0000
Subject: [PATCH 15/34] fix: refinement of the embedding could converge to
 something that is not a root

The bisection step rounded the endpoints of the ball outwards so that other
roots could enter. The sign change that was then found did not need to belong
to the root in the ball. This affects roots that are very close to each other,
e.g., the roots of x^20 - 2*(256*x - 1)^2. Also, the step could report success
without any progress.
---
 .../src/fmpz_poly_extra/bisection_step_arb.c  | 52 ++++++++-----------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
index 40fbf9a..5553321 100644
--- a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
+++ b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
@@ -54,57 +54,51 @@ void _fmpz_poly_bisection_step_arf(arf_t l, arf_t r, const fmpz * pol, slong len
 
 int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slong prec)
 {
-    int sl, sr;
-    arb_t b, c, rres;
+    int sl, sr, sm, ans = 0;
+    arb_t b, c;
     arf_t l, r;
 
     arf_init(l);
     arf_init(r);
     arb_init(b);
     arb_init(c);
-    arb_init(rres);
 
     /* set l, r as the left and right endpoint of the ball */
-    /* compute the signs of pol(l) and pol(r)              */
-    arb_get_interval_arf(l, r, a, prec);
+    /* compute the signs of pol(l) and pol(r); note that l */
+    /* and r must not be rounded, the sign change could    */
+    /* otherwise be due to a root outside of the ball      */
+    arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
 
     arb_set_arf(b, l);
     _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
-    if (arb_contains_zero(c))
-    {
-        arf_clear(l);
-        arf_clear(r);
-        arb_clear(b);
-        arb_clear(c);
-        arb_clear(rres);
-        return 0;
-    }
-    sl = arf_sgn(arb_midref(c));
+    sl = arb_contains_zero(c) ? 0 : arf_sgn(arb_midref(c));
 
     arb_set_arf(b, r);
     _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
-    if (arb_contains_zero(c))
+    sr = arb_contains_zero(c) ? 0 : arf_sgn(arb_midref(c));
+
+    /* compute the sign of pol at the center of the ball */
+    arb_set_arf(b, arb_midref(a));
+    _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
+    sm = arb_contains_zero(c) ? 0 : arf_sgn(arb_midref(c));
+
+    if (sl && sm && sr == -sl)
     {
-        arf_clear(l);
-        arf_clear(r);
-        arb_clear(b);
-        arb_clear(c);
-        arb_clear(rres);
-        return 0;
+        /* set res to the half of a which contains the root; */
+        /* it is again a ball so there is no rounding here   */
+        arf_add(arb_midref(b), arb_midref(a), (sm == sl) ? r : l, ARF_PREC_EXACT, ARF_RND_DOWN);
+        arf_mul_2exp_si(arb_midref(b), arb_midref(b), -1);
+        mag_mul_2exp_si(arb_radref(b), arb_radref(a), -1);
+        arb_swap(res, b);
+        ans = 1;
     }
-    sr = arf_sgn(arb_midref(c));
-
-    _fmpz_poly_bisection_step_arf(l, r, pol, len, sl, sr, prec);
-    arb_set_interval_arf(rres, l, r, prec);
-    arb_intersection(res, rres, a, prec);
 
     arb_clear(b);
     arb_clear(c);
-    arb_clear(rres);
     arf_clear(l);
     arf_clear(r);
 
-    return 1;
+    return ans;
 }
 
 int fmpz_poly_bisection_step_arb(arb_t res, const fmpz_poly_t pol, arb_t a, slong prec)
-- 
2.43.0


From 19552434519fc22ae2063a6838bb50c8202d9e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:22 +0000
Subject: [PATCH 16/34] fix: renf_equal identified distinct fields

Two distinct but very close roots can have enclosures that overlap (or touch.)
In particular, renf_class::make returned the wrong field for such roots.
---
 libeantic/src/renf/equal.c | 58 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf/equal.c b/libeantic/src/renf/equal.c
index 24edd06..0bc76ab 100644
--- a/libeantic/src/renf/equal.c
+++ b/libeantic/src/renf/equal.c
@@ -12,6 +12,7 @@
 #include "../../e-antic/config.h"
 
 #include "../../e-antic/renf.h"
+#include "../../e-antic/fmpz_poly_extra.h"
 
 static __inline__
 int nf_equal(const nf_t nf1, const nf_t nf2)
@@ -19,7 +20,62 @@ int nf_equal(const nf_t nf1, const nf_t nf2)
     return fmpq_poly_equal(nf1->pol, nf2->pol);
 }
 
+/* sign of the defining polynomial at x which must not be a root of it */
+static int pol_sgn(const nf_t nf, const arf_t x, slong prec)
+{
+    arb_t b, c;
+    int sgn;
+
+    arb_init(b);
+    arb_init(c);
+    arb_set_arf(b, x);
+
+    do
+    {
+        _fmpz_poly_evaluate_arb(c, nf->pol->coeffs, nf->pol->length, b, prec);
+        prec *= 2;
+    } while (arb_contains_zero(c));
+
+    sgn = arf_sgn(arb_midref(c));
+
+    arb_clear(b);
+    arb_clear(c);
+
+    return sgn;
+}
+
 int renf_equal(const renf_t nf1, const renf_t nf2)
 {
-    return nf_equal(nf1->nf, nf2->nf) && arb_overlaps(nf1->emb, nf2->emb);
+    arf_t l, r, l2, r2;
+    int ans;
+
+    if (!nf_equal(nf1->nf, nf2->nf) || !arb_overlaps(nf1->emb, nf2->emb))
+        return 0;
+
+    /* each ball contains exactly one root */
+    if ((nf1->nf->flag & NF_LINEAR) || arb_contains(nf1->emb, nf2->emb) || arb_contains(nf2->emb, nf1->emb))
+        return 1;
+
+    /* the balls contain the same root if and only if it is in their */
+    /* intersection; note that the endpoints are rational            */
+    arf_init(l);
+    arf_init(r);
+    arf_init(l2);
+    arf_init(r2);
+
+    arb_get_interval_arf(l, r, nf1->emb, ARF_PREC_EXACT);
+    arb_get_interval_arf(l2, r2, nf2->emb, ARF_PREC_EXACT);
+    if (arf_cmp(l, l2) < 0)
+        arf_swap(l, l2);
+    if (arf_cmp(r, r2) > 0)
+        arf_swap(r, r2);
+
+    ans = pol_sgn(nf1->nf, l, nf1->prec) != pol_sgn(nf1->nf, r, nf1->prec);
+
+    arf_clear(l);
+    arf_clear(r);
+    arf_clear(l2);
+    arf_clear(r2);
+
+    return ans;
 }
-- 
2.43.0


From d1220839c1a6840f9a38ec840294cc0297f820b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:14 +0000
Subject: [PATCH 17/34] fix: serialization could write the wrong number field

When a field was destroyed while an archive was still being written, another
field could be created at the same address. It was then stored as a reference to
the destroyed field.
---
 libeantic/e-antic/cereal.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libeantic/e-antic/cereal.hpp b/libeantic/e-antic/cereal.hpp
index 4fb9e75..3e16c80 100644
--- a/libeantic/e-antic/cereal.hpp
+++ b/libeantic/e-antic/cereal.hpp
@@ -30,7 +30,9 @@ template <class Archive>
 void save(Archive & archive, const boost::intrusive_ptr<const renf_class> & self)
 {
 #if CEREAL_VERSION >= 10301
-    uint32_t id = archive.registerSharedPointer(std::shared_ptr<const renf_class>(self.get(), [](auto) {}));
+    // The deleter keeps the field alive for the lifetime of the archive. (The id is
+    // attached to the address of the field so it must not be reused meanwhile.)
+    uint32_t id = archive.registerSharedPointer(std::shared_ptr<const renf_class>(self.get(), [self](auto) {}));
 #else
     uint32_t id = archive.registerSharedPointer(self.get());
 #endif
-- 
2.43.0


From 700e0108cacf724f5ef83beb8c52d81e36d8980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:14 +0000
Subject: [PATCH 18/34] fix: renf_class::construction did not always describe
 the field

The printed embedding can contain several roots (when read with the precision of
the field) and the field could then not be reconstructed, e.g., by cereal.
---
 libeantic/srcxx/renf_class.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index e3e905a..8be1dc1 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -192,10 +192,24 @@ const renf_elem_class& renf_class::gen() const
 }
 
 std::tuple<std::string, std::string, std::string, slong> renf_class::construction() const {
+  slong prec = renf_t()->prec;
   char * emb = arb_get_str(renf_t()->emb, arf_bits(arb_midref(renf_t()->emb)), 0);
+
+  // Make sure that the embedding still singles out our root when read by make().
+  arb_t parsed;
+  arb_init(parsed);
+  while (arb_set_str(parsed, emb, prec) || !fmpq_poly_check_unique_real_root(renf_t()->nf->pol, parsed, prec))
+  {
+    flint_free(emb);
+    prec *= 2;
+    renf_refine_embedding(renf_t(), prec);
+    emb = arb_get_str(renf_t()->emb, prec, 0);
+  }
+  arb_clear(parsed);
+
   char * pol = fmpq_poly_get_str_pretty(renf_t()->nf->pol, gen_name().c_str());
 
-  const auto construction = std::make_tuple(std::string(pol), gen_name(), std::string(emb), renf_t()->prec);
+  const auto construction = std::make_tuple(std::string(pol), gen_name(), std::string(emb), prec);
 
   flint_free(pol);
   flint_free(emb);
-- 
2.43.0


From fec2fe8d193dff1c0616323d9ce2abc39af4d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:47 +0000
Subject: [PATCH 19/34] fix: renf_elem_fmpq_sub was wrong for zero in quadratic
 fields

nf_elem_fmpq_sub leaves the linear coefficient of the target untouched when
its argument is zero.
---
 libeantic/src/renf_elem/fmpq_sub.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/fmpq_sub.c b/libeantic/src/renf_elem/fmpq_sub.c
index 6e5a164..65de348 100644
--- a/libeantic/src/renf_elem/fmpq_sub.c
+++ b/libeantic/src/renf_elem/fmpq_sub.c
@@ -24,6 +24,9 @@ static void arb_fmpq_sub(arb_t a, const fmpq_t c, const arb_t b, slong prec)
 
 void renf_elem_fmpq_sub(renf_elem_t a, const fmpq_t c, const renf_elem_t b, const renf_t nf)
 {
-    nf_elem_fmpq_sub(a->elem, c, b->elem, nf->nf);
+    /* nf_elem_fmpq_sub() leaves a stale coefficient in quadratic fields */
+    /* when b is zero                                                    */
+    nf_elem_sub_fmpq(a->elem, b->elem, c, nf->nf);
+    nf_elem_neg(a->elem, a->elem, nf->nf);
     arb_fmpq_sub(a->emb, c, b->emb, nf->prec);
 }
-- 
2.43.0


From 850bb4f3c201d6df62e18eb32173b1257e4999f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:47 +0000
Subject: [PATCH 20/34] fix: fractions in strings were not canonical

The fraction 2/4 was not reduced, leading to wrong results of comparisons
later. The fraction 1/0 was accepted.
---
 libeantic/src/fmpq_poly_extra/set_str_pretty.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libeantic/src/fmpq_poly_extra/set_str_pretty.c b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
index 4c45892..94d0027 100644
--- a/libeantic/src/fmpq_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
@@ -60,6 +60,13 @@ static int _monomial_set_str(fmpq_t coeff, slong * pow, const char * var, char *
 
         if (ans)
             return ans;
+        if (fmpz_is_zero(fmpq_denref(coeff)))
+        {
+            fmpq_zero(coeff);
+            return -1;
+        }
+        /* fractions such as 2/4 have not been reduced yet */
+        fmpq_canonicalise(coeff);
         x = y;
     }
     else
-- 
2.43.0


From 3bc3eb6ed8dfc6610556dd6b84511bc6279d27a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:01 +0000
Subject: [PATCH 21/34] fix: evaluation with negative precision when the
 generator is small

When the generator is close to zero, the condition number of an element could
be so negative that e.g. floor division evaluated the element with a negative
number of bits, leading to crashes inside FLINT.
---
 libeantic/src/renf_elem/relative_condition_number_2exp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/relative_condition_number_2exp.c b/libeantic/src/renf_elem/relative_condition_number_2exp.c
index d24d020..c6054a9 100644
--- a/libeantic/src/renf_elem/relative_condition_number_2exp.c
+++ b/libeantic/src/renf_elem/relative_condition_number_2exp.c
@@ -37,7 +37,13 @@ int renf_elem_relative_condition_number_2exp(slong * cond, renf_elem_t a, renf_t
         len = NF_ELEM(a->elem)->length;
     }
 
-    return _fmpz_poly_relative_condition_number_2exp(cond, p,
+    int ret = _fmpz_poly_relative_condition_number_2exp(cond, p,
                 len, nf->emb, FLINT_MAX(nf->prec, 16));
+
+    /* We do not gain precision if the generator is very small. (The caller */
+    /* would otherwise evaluate with a non-positive number of bits.)        */
+    *cond = FLINT_MAX(*cond, 0);
+
+    return ret;
 }
 
-- 
2.43.0


From 9a76b29d968fb93d53195136df8b09771ee82acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:01 +0000
Subject: [PATCH 22/34] fix: renf_elem_get_arb in linear fields with an exact
 embedding

The accuracy of an exact embedding is WORD_MAX so the element was evaluated
with infinite precision.
---
 libeantic/src/renf_elem/get_arb.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libeantic/src/renf_elem/get_arb.c b/libeantic/src/renf_elem/get_arb.c
index f31f807..ec879f8 100644
--- a/libeantic/src/renf_elem/get_arb.c
+++ b/libeantic/src/renf_elem/get_arb.c
@@ -30,6 +30,13 @@ renf_elem_get_arb(arb_t x, renf_elem_t a, renf_t nf, slong prec)
         return;
     }
 
+    if (nf->nf->flag & NF_LINEAR)
+    {
+        /* the embedding is not used (and its precision might be infinite) */
+        arb_fmpz_div_fmpz(x, LNF_ELEM_NUMREF(a->elem), LNF_ELEM_DENREF(a->elem), prec+2);
+        return;
+    }
+
     renf_elem_relative_condition_number_2exp(&cond, a, nf);
     slong pprec = FLINT_MAX(nf->prec, arb_rel_accuracy_bits(nf->emb));
     do
-- 
2.43.0


From f7eb146cadd40e1fd903b6a96d969ba35b79f4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:21 +0000
Subject: [PATCH 23/34] fix: signed overflow in renf_refine_embedding

The accuracy of an exact ball and of a ball centered at zero is plus or minus
WORD_MAX.
---
 libeantic/src/renf/refine_embedding.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf/refine_embedding.c b/libeantic/src/renf/refine_embedding.c
index bf15abb..23a8199 100644
--- a/libeantic/src/renf/refine_embedding.c
+++ b/libeantic/src/renf/refine_embedding.c
@@ -17,6 +17,13 @@
 #include "../../e-antic/fmpz_poly_extra.h"
 #include "../../e-antic/renf.h"
 
+/* the accuracy of emb, but prec instead of infinity */
+static slong accuracy(const arb_t emb, slong prec)
+{
+    slong acc = FLINT_ABS(arb_rel_accuracy_bits(emb));
+    return acc >= ARF_PREC_EXACT ? prec : acc;
+}
+
 void renf_refine_embedding(renf_t nf, slong prec)
 {
     arb_t tmp;
@@ -31,7 +38,7 @@ void renf_refine_embedding(renf_t nf, slong prec)
     cond *= nf->nf->pol->length;
     arb_init(tmp);
 
-    comp_prec = 2 * FLINT_ABS(arb_rel_accuracy_bits(nf->emb)) + cond;
+    comp_prec = 2 * accuracy(nf->emb, prec) + cond;
     while (arb_rel_accuracy_bits(nf->emb) < prec)
     {
         if(!_fmpz_poly_newton_step_arb(tmp,
@@ -56,7 +63,7 @@ void renf_refine_embedding(renf_t nf, slong prec)
         _fmpz_poly_relative_condition_number_2exp(&cond,
                 nf->nf->pol->coeffs, nf->nf->pol->length,
                 nf->emb, 32);
-        comp_prec = 2 * FLINT_ABS(arb_rel_accuracy_bits(nf->emb)) + cond * nf->nf->pol->length;
+        comp_prec = 2 * accuracy(nf->emb, prec) + cond * nf->nf->pol->length;
     }
     arb_clear(tmp);
 
-- 
2.43.0


From 6dceaf990098d6ff7661f5e2b06156b8426189b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:07 +0000
Subject: [PATCH 24/34] fix: conversion of rationals to subnormal doubles
 rounded twice

---
 libeantic/src/renf_elem/get_d.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/get_d.c b/libeantic/src/renf_elem/get_d.c
index 08d6594..ebd747b 100644
--- a/libeantic/src/renf_elem/get_d.c
+++ b/libeantic/src/renf_elem/get_d.c
@@ -59,7 +59,17 @@ double renf_elem_get_d(renf_elem_t a, renf_t nf, arf_rnd_t rnd)
         arf_init(c);
 
         nf_elem_get_coeff_fmpq(b, a->elem, 0, nf->nf);
-        arf_set_fmpq(c, b, DBL_MANT_DIG, rnd);
+        if (arf_set_fmpq(c, b, 2 * DBL_MANT_DIG, ARF_RND_DOWN))
+        {
+            /* We must only round once (subnormal numbers have less than
+             * DBL_MANT_DIG bits) so we just record that something nonzero is
+             * missing here. */
+            arf_t eps;
+            arf_init(eps);
+            arf_mul_2exp_si(eps, c, -3 * DBL_MANT_DIG);
+            arf_add(c, c, eps, ARF_PREC_EXACT, ARF_RND_DOWN);
+            arf_clear(eps);
+        }
 
         double d = arf_get_d(c, rnd);
 
-- 
2.43.0


From 21b5563a6d489f8cc80ea3386ba54f5822f06d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:54 +0000
Subject: [PATCH 25/34] fix: refine the embedding when the generator is zero

The working precision computed from the condition number was negative for the
polynomial x, so that renf_refine_embedding() aborted with 'invalid precision'.
---
 libeantic/src/renf/refine_embedding.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf/refine_embedding.c b/libeantic/src/renf/refine_embedding.c
index 23a8199..6d05327 100644
--- a/libeantic/src/renf/refine_embedding.c
+++ b/libeantic/src/renf/refine_embedding.c
@@ -35,7 +35,8 @@ void renf_refine_embedding(renf_t nf, slong prec)
     _fmpz_poly_relative_condition_number_2exp(&cond,
             nf->nf->pol->coeffs, nf->nf->pol->length,
             nf->emb, FLINT_MAX(nf->prec, 64));
-    cond *= nf->nf->pol->length;
+    /* negative for the polynomial x, i.e., when the root is zero */
+    cond = FLINT_MAX(cond, 0) * nf->nf->pol->length;
     arb_init(tmp);
 
     comp_prec = 2 * accuracy(nf->emb, prec) + cond;
@@ -63,7 +64,7 @@ void renf_refine_embedding(renf_t nf, slong prec)
         _fmpz_poly_relative_condition_number_2exp(&cond,
                 nf->nf->pol->coeffs, nf->nf->pol->length,
                 nf->emb, 32);
-        comp_prec = 2 * accuracy(nf->emb, prec) + cond * nf->nf->pol->length;
+        comp_prec = 2 * accuracy(nf->emb, prec) + FLINT_MAX(cond, 0) * nf->nf->pol->length;
     }
     arb_clear(tmp);
 
-- 
2.43.0


From 0d5e2992c96636bec3e056c314c4ca481a26e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:54 +0000
Subject: [PATCH 26/34] fix: immutable fields can be used when they are precise
 enough

renf_elem_get_d() and others ask for a refinement to a precision that the field
might already have. Such a request changes nothing but it made the assertions
for immutable fields fail, i.e., fields that had been refined in advance could
not be used from several threads.
---
 libeantic/src/renf/refine_embedding.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libeantic/src/renf/refine_embedding.c b/libeantic/src/renf/refine_embedding.c
index 6d05327..8701ae1 100644
--- a/libeantic/src/renf/refine_embedding.c
+++ b/libeantic/src/renf/refine_embedding.c
@@ -30,6 +30,10 @@ void renf_refine_embedding(renf_t nf, slong prec)
     slong cond;
     slong comp_prec;
 
+    /* nothing is written then, so this is also fine for an immutable field */
+    if (arb_rel_accuracy_bits(nf->emb) >= prec)
+        return;
+
     assert(!renf_set_immutable(nf, 1) && "An embedding cannot be safely refined in a multi-threaded environment; you should have refined as needed and called renf_set_immutable() before entering multi-threaded code. Alternatively, you might also be able to use a distinct copy of the renf_t in each thread.");
 
     _fmpz_poly_relative_condition_number_2exp(&cond,
-- 
2.43.0


From e667f9100124e6ea0fa997547aeac807046f69a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:57 +0000
Subject: [PATCH 27/34] fix: making a field raced with the refinement of a
 field with another generator name

The registry compared the embeddings of the fields before comparing the names
of their generators, i.e., a thread that makes Q(a) read the embedding of Q(b)
while the thread that is using Q(b) might be refining it.
---
 libeantic/srcxx/renf_class.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 8be1dc1..93197af 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -46,7 +46,9 @@ struct fields_hasher {
 // faster.
 struct fields_equality {
     bool operator()(const renf_class* lhs, const renf_class* rhs) const {
-        return renf_equal(lhs->renf_t(), rhs->renf_t()) && lhs->gen_name() == rhs->gen_name();
+        // Note that we must not look at the embedding of fields with another
+        // generator, it might be refined by another thread right now.
+        return lhs->gen_name() == rhs->gen_name() && renf_equal(lhs->renf_t(), rhs->renf_t());
     }
 };
 
-- 
2.43.0


From 556c1fb41124dbf739b0d7d48375e051db426307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:59 +0000
Subject: [PATCH 28/34] fix: parent() released the field a Python variable is
 referring to

cppyy stores an attribute __lifeline on the references it returns. Since it
returns the same Python object for the same C++ object, calling parent() replaced
the intrusive pointer we had been keeping there, so the field was deleted while
it was still in use.
---
 pyeantic/src/pyeantic/cppyy_eantic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index c60459d..c83b927 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -131,7 +131,9 @@ def unwrap_intrusive_ptr(K):
         raise TypeError("argument must be an intrusive_ptr to a renf_class")
 
     wrapped = K.get()
-    wrapped.__lifeline = K
+    # Note that we must not use __lifeline here since cppyy overwrites it when
+    # it returns this very reference again, e.g., from renf_elem_class.parent().
+    wrapped._eantic_lifeline = K
 
     return wrapped
 
-- 
2.43.0


From 9fa12c48c7361b50cd549d65f6aa2427169a87c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:06 +0000
Subject: [PATCH 29/34] fix: large Python integers were rounded to doubles

renf_elem(K, n) went through a double for integers that do not fit into 64 bits.
---
 pyeantic/src/pyeantic/cppyy_eantic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index c83b927..8620b34 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -167,6 +167,10 @@ def for_eantic(x):
 
     If no such conversion exists, leave the argument unchanged.
     """
+    if isinstance(x, int) and not -2**31 <= x < 2**31:
+        # cppyy considers large integers as doubles (and other integers that do
+        # not fit into an int are not supported by most operators.)
+        return cppyy.gbl.mpz_class(cppyy.gbl.std.string(str(x)))
     if isinstance(x, (int, eantic.renf_elem_class, cppyy.gbl.mpz_class, cppyy.gbl.mpq_class)):
         return x
     if isinstance(x, (tuple, list)):
-- 
2.43.0


From 02e8c806d7cbe20b0896103ddc97c278459648c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:16 +0000
Subject: [PATCH 30/34] fix: conversion of realalg fields with embeddings
 larger than 10

The center of the interval was rounded to a float, so the resulting ball might
not contain the root anymore.
---
 pyeantic/src/pyeantic/realalg_conversion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyeantic/src/pyeantic/realalg_conversion.py b/pyeantic/src/pyeantic/realalg_conversion.py
index 4cc3125..58eac85 100644
--- a/pyeantic/src/pyeantic/realalg_conversion.py
+++ b/pyeantic/src/pyeantic/realalg_conversion.py
@@ -49,9 +49,10 @@ def realalg_interval_to_arb(i):
     from realalg.interval import Interval
     if not isinstance(i, Interval):
         raise ValueError
-    center = float(i.lower + i.upper) / 2.0 / 10.0 ** (i.precision)
-    rad = float(i.upper - i.lower) / 10.0 ** (i.precision - 1)
-    return '[' + str(center) + ' +/- ' + str(rad) + ']'
+    # Note that a float cannot hold all the digits.
+    center = '%de%d' % (5 * (i.lower + i.upper), -i.precision - 1)
+    rad = '%de%d' % (i.upper - i.lower, 1 - i.precision)
+    return '[' + center + ' +/- ' + rad + ']'
 
 def realalg_nf_to_eantic(K, name='a'):
     r"""
-- 
2.43.0


From c02f14a7ae578c964d66d5b52c2d6996962b7118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:29 +0000
Subject: [PATCH 31/34] fix: a comparison that throws breaks all later
 comparisons in Python

When the comparison of elements of different fields threw, cppyy went on with
a template instance for pointers and used it for all further comparisons.
---
 libeantic/e-antic/cppyy.hpp           | 12 ++++++++++++
 pyeantic/src/pyeantic/cppyy_eantic.py | 19 +++++++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/libeantic/e-antic/cppyy.hpp b/libeantic/e-antic/cppyy.hpp
index 5b747bb..4a90be0 100644
--- a/libeantic/e-antic/cppyy.hpp
+++ b/libeantic/e-antic/cppyy.hpp
@@ -36,6 +36,18 @@ template <typename S, typename T>
 auto truediv(const S& lhs, const T& rhs) { return lhs / rhs; }
 template <typename T>
 auto neg(const T& value) { return -value; }
+template <typename S, typename T>
+bool lt(const S& lhs, const T& rhs) { return lhs < rhs; }
+template <typename S, typename T>
+bool gt(const S& lhs, const T& rhs) { return lhs > rhs; }
+template <typename S, typename T>
+bool le(const S& lhs, const T& rhs) { return lhs <= rhs; }
+template <typename S, typename T>
+bool ge(const S& lhs, const T& rhs) { return lhs >= rhs; }
+template <typename S, typename T>
+bool eq(const S& lhs, const T& rhs) { return lhs == rhs; }
+template <typename S, typename T>
+bool ne(const S& lhs, const T& rhs) { return lhs != rhs; }
 
 inline mpq_class rational(const renf_elem_class& x) {
     return static_cast<mpq_class>(x);
diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index 8620b34..ce98f00 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -61,13 +61,28 @@ with warnings.catch_warnings():
 
 from cppyythonizations.printing import enable_pretty_printing
 from cppyythonizations.pickling.cereal import enable_cereal
-from cppyythonizations.operators.order import enable_total_order
 from cppyythonizations.util import filtered
 
 cppyy.py.add_pythonization(enable_pretty_printing, "eantic")
 
+def enable_order(proxy, name):
+    r"""
+    Make sure that comparisons only ever resolve to the operators of libeantic.
+
+    We pick the template instance explicitly. Otherwise, when a comparison
+    throws because it is not defined, cppyy goes on with an instance for
+    pointers and uses that instance for all comparisons from then on.
+    """
+    for op in ['lt', 'gt', 'le', 'ge', 'eq', 'ne']:
+        implementation = getattr(cppyy.gbl.eantic.cppyy, op)
+        def compare(lhs, rhs, implementation=implementation):
+            rhs = for_eantic(rhs)
+            return implementation[type(lhs), type(rhs)](lhs, rhs)
+
+        setattr(proxy, "__%s__" % (op,), compare)
+
 # Make sure that the operators <, >, <=, >=, ==, != are available.
-cppyy.py.add_pythonization(filtered('renf_elem_class')(enable_total_order), "eantic")
+cppyy.py.add_pythonization(filtered('renf_elem_class')(enable_order), "eantic")
 
 def enable_arithmetic(proxy, name):
     r"""
-- 
2.43.0


From 470e0f4ff5a33ef087817be55830361ccaa83c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:10 +0000
Subject: [PATCH 32/34] fix: constructing an element in Python that throws
 makes later constructions wrong

When a constructor threw, cppyy went on with other constructors, for which it
could convert the argument, e.g., from a character or a double to an integer,
and preferred these from then on. So, renf_elem(K, 'z') was 122 and
renf_elem(K, '1') was 49 from then on.
---
 libeantic/e-antic/cppyy.hpp           | 3 +++
 pyeantic/src/pyeantic/cppyy_eantic.py | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/libeantic/e-antic/cppyy.hpp b/libeantic/e-antic/cppyy.hpp
index 4a90be0..48b4031 100644
--- a/libeantic/e-antic/cppyy.hpp
+++ b/libeantic/e-antic/cppyy.hpp
@@ -49,6 +49,9 @@ bool eq(const S& lhs, const T& rhs) { return lhs == rhs; }
 template <typename S, typename T>
 bool ne(const S& lhs, const T& rhs) { return lhs != rhs; }
 
+template <typename T>
+renf_elem_class make(const renf_class& parent, const T& value) { return renf_elem_class(parent, value); }
+
 inline mpq_class rational(const renf_elem_class& x) {
     return static_cast<mpq_class>(x);
 }
diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index ce98f00..3287036 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -188,6 +188,9 @@ def for_eantic(x):
         return cppyy.gbl.mpz_class(cppyy.gbl.std.string(str(x)))
     if isinstance(x, (int, eantic.renf_elem_class, cppyy.gbl.mpz_class, cppyy.gbl.mpq_class)):
         return x
+    if isinstance(x, str):
+        # cppyy prefers to treat strings of length one as characters, i.e., as integers.
+        return cppyy.gbl.std.string(x)
     if isinstance(x, (tuple, list)):
         x = [for_eantic(v) for v in x]
         if not all([isinstance(v, (int, cppyy.gbl.mpz_class, cppyy.gbl.mpq_class)) for v in x]):
@@ -240,7 +243,11 @@ def make_renf_elem_class(*args):
     if K is None:
         return eantic.renf_elem_class(for_eantic(v))
     else:
-        return eantic.renf_elem_class(K, for_eantic(v))
+        # We do not call the constructor directly since, when it throws, cppyy
+        # goes on with the constructors for the types to which it can convert v
+        # in some way and prefers these from then on.
+        v = for_eantic(v)
+        return eantic.cppyy.make[type(v)](K, v)
 
 
 eantic.renf_elem = make_renf_elem_class
-- 
2.43.0


From 9279eb5e8162370cde323324b61582c3080637ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:47 +0000
Subject: [PATCH 33/34] fix: build Sage fields from renfs with fractional or
 negative leading coefficients

The variable of the minimal polynomial was guessed with a regular expression
that only knew non-negative integral leading coefficients; the renf knows the
name of its generator.
---
 pyeantic/src/pyeantic/real_embedded_number_field.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyeantic/src/pyeantic/real_embedded_number_field.py b/pyeantic/src/pyeantic/real_embedded_number_field.py
index 10fdbe6..402b82d 100644
--- a/pyeantic/src/pyeantic/real_embedded_number_field.py
+++ b/pyeantic/src/pyeantic/real_embedded_number_field.py
@@ -460,9 +460,7 @@ class RealEmbeddedNumberField(UniqueRepresentation, CommutativeRing):
             assert match, "renf_class printed in an unexpected way: " + repr(embed)
             minpoly = match.group(1)
             root_str = match.group(2)
-            match = re.match("^\\d*\\*?([^\\^ *]+)[\\^ +-]", minpoly)
-            assert match, "renf_class printed leading coefficient in an unexpected way: " + minpoly
-            minpoly = QQ[match.group(1)](minpoly)
+            minpoly = QQ[str(embed.gen_name())](minpoly)
             roots = []
             AA_roots = minpoly.roots(AA, multiplicities=False)
             for prec in [53, 64, 128, 256]:
-- 
2.43.0


From 5710ca98f57fe91dd185d567a819ef578fa6f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:51 +0000
Subject: [PATCH 34/34] fix: floor and ceil abort for enclosures with enormous
 endpoints

The size of the endpoints only serves as a first guess for the precision; when
the exponent does not fit into a word, the enclosure has to be recomputed, which
happens anyway.
---
 libeantic/src/renf_elem/rounding_template.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libeantic/src/renf_elem/rounding_template.h b/libeantic/src/renf_elem/rounding_template.h
index 8797919..07b2f8f 100644
--- a/libeantic/src/renf_elem/rounding_template.h
+++ b/libeantic/src/renf_elem/rounding_template.h
@@ -92,15 +92,15 @@ RENF_ELEM_INT(fmpz_t a, renf_elem_t b, renf_t nf)
     /* try higher precision and possibly refine the number field */
     fmpz_init(zsize);
 
+    /* an enclosure with enormous endpoints tells nothing about the size */
+    size = 1;
     arf_abs_bound_lt_2exp_fmpz(zsize, cl);
-    if (!fmpz_fits_si(zsize))
-        abort();
-    size = FLINT_MAX(fmpz_get_si(zsize) + 1, 1);
+    if (fmpz_cmp_si(zsize, WORD_MAX) < 0)
+        size = FLINT_MAX(size, fmpz_get_si(zsize) + 1);
 
     arf_abs_bound_lt_2exp_fmpz(zsize, cr);
-    if (!fmpz_fits_si(zsize))
-        abort();
-    size = FLINT_MAX(size, fmpz_get_si(zsize) + 1);
+    if (fmpz_cmp_si(zsize, WORD_MAX) < 0)
+        size = FLINT_MAX(size, fmpz_get_si(zsize) + 1);
 
     fmpz_clear(zsize);
 
-- 
2.43.0

