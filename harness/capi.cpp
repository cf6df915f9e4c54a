#include "ops.hpp"
#include "refd.hpp"
#include <mpfr.h>
#include <cmath>
#include <cfloat>
#include <climits>
#include <sys/wait.h>
#include <sys/resource.h>
#include <cerrno>
#include <algorithm>
using namespace vf;

// ------------------------------------------------------------------ arith
static void check_predicates(Rng& g, Pool& P, size_t i) {
    renf* nf = P.K.nf; const QP& r = P.r[i];
    bool z = fmpq_poly_is_zero(r.v), rat = RefField::is_rational(r);
    Q q = RefField::rational(r); bool in = rat && fmpz_is_one(fmpq_denref(q.v));
    auto chk = [&](const char* n, int got, bool want) { evaluated(); event(std::string("pred:") + n); if ((got != 0) != want) fail("predicate", std::string(n) + " answers " + str((long)got) + " for " + str(r) + " in " + P.K.spec.desc()); };
    chk("is_zero", renf_elem_is_zero(P.a(i), nf), z);
    chk("is_one", renf_elem_is_one(P.a(i), nf), fmpq_poly_is_one(r.v));
    chk("is_rational", renf_elem_is_rational(P.a(i), nf), rat);
    chk("is_integer", renf_elem_is_integer(P.a(i), nf), in);
    size_t j = g.below(P.e.size());
    chk("equal", renf_elem_equal(P.a(i), P.a(j), nf), fmpq_poly_equal(r.v, P.r[j].v));
    Q t = rat && g.chance(2, 3) ? q : rnd_q(g); if (g.chance(1, 3)) fmpq_add_si(t.v, t.v, g.range(-1, 1));
    chk("equal_fmpq", renf_elem_equal_fmpq(P.a(i), t.v, nf), rat && fmpq_equal(q.v, t.v));
    Z tz; fmpz_set(tz.v, fmpq_numref(t.v)); Q tzq = q_z(tz);
    chk("equal_fmpz", renf_elem_equal_fmpz(P.a(i), tz.v, nf), rat && fmpq_equal(q.v, tzq.v));
    slong s = g.chance(1, 2) && fmpz_fits_si(tz.v) ? fmpz_get_si(tz.v) : g.range(-2, 2); 
    chk("equal_si", renf_elem_equal_si(P.a(i), s, nf), rat && fmpq_equal(q.v, q_z(z_si(s)).v));
    ulong u = g.chance(1, 2) && fmpz_abs_fits_ui(tz.v) ? fmpz_get_ui(tz.v) : g.below(3);
    chk("equal_ui", renf_elem_equal_ui(P.a(i), u, nf), rat && fmpq_equal(q.v, q_z(z_ui(u)).v));
}
static void m_arith(Rng& g, long) {
    CField K(gen_field(g));
    event("field:" + K.spec.kind);
    Pool P(K, (int)g.range(2, 5));
    for (size_t i = 0; i < P.e.size(); i++) P.fill(g, i);
    step(K.spec.desc());
    long n = 30;
    for (long k = 0; k < n; k++) {
        OpRec o = random_op(g, P);
        check_values(P, o);
        if (g.chance(1, 3)) check_predicates(g, P, o.dst);
        P.trim(g);
    }
    sample("field " + K.spec.desc() + ", last value " + str(P.r[0]));
}

// -------------------------------------------------------------- enclosure
static void check_field_ball(CField& K, const std::string& when) {
    evaluated();
    QP x; fmpq_poly_set_coeff_si(x.v, 1, 1);
    long w = -1; int n = roots_in_ball(K.ref(), K.nf->emb, &w);
    if (n != 1 || w != K.ref().index)
        fail("field-enclosure", when + ": the enclosure of the generator [" + str_arb(K.nf->emb) + "] contains " + str((long)n) + " roots; " + K.spec.desc());
}
static void check_ball(Pool& P, size_t i, const std::string& when) {
    evaluated();
    if (!P.f().contained(P.a(i)->emb, P.r[i]))
        fail("enclosure", when + ": enclosure [" + str_arb(P.a(i)->emb) + "] of #" + str((long)i) + " does not contain its value " + str(P.r[i]) + " ~ " + str_arb(P.f().value(P.r[i], 60).v) + " in " + P.K.spec.desc());
}
static void query(Rng& g, Pool& P) {   // calls which may tighten enclosures
    renf* nf = P.K.nf; size_t i = g.below(P.e.size()), j = g.below(P.e.size());
    slong before = P.K.acc();
    switch (g.below(11)) {
    case 0: step("sgn #" + str((long)i)); renf_elem_sgn(P.a(i), nf); event("q:sgn"); break;
    case 1: step("cmp #" + str((long)i) + " #" + str((long)j)); renf_elem_cmp(P.a(i), P.a(j), nf); event("q:cmp"); break;
    case 2: { Z z; step("floor #" + str((long)i)); renf_elem_floor(z.v, P.a(i), nf); event("q:floor"); break; }
    case 3: { Z z; step("ceil #" + str((long)i)); renf_elem_ceil(z.v, P.a(i), nf); event("q:ceil"); break; }
    case 4: step("get_d #" + str((long)i)); renf_elem_get_d(P.a(i), nf, ARF_RND_NEAR); event("q:get_d"); break;
    case 5: { slong p = g.range(2, 300); step("set_evaluation #" + str((long)i) + " " + str((long)p)); renf_elem_set_evaluation(P.a(i), nf, p); event("q:set_evaluation"); break; }
    case 6: if (P.f().deg > 1) { slong p = g.range(2, 700); step("refine " + str((long)p)); renf_refine_embedding(nf, p); event("q:refine"); } break;
    case 7: if (!fmpq_poly_is_zero(P.r[j].v)) { Z z; step("fdiv #" + str((long)i) + " #" + str((long)j)); renf_elem_fdiv(z.v, P.a(i), P.a(j), nf); event("q:fdiv"); } break;
    case 8: { Q q = rnd_q(g); step("cmp_fmpq #" + str((long)i) + " " + str(q)); renf_elem_cmp_fmpq(P.a(i), q.v, nf); event("q:cmp_fmpq"); break; }
    default: {
        slong p = g.chance(1, 80) ? g.chance(1, 6) && P.f().deg <= 8 ? g.range(8000, 16000) : g.range(1000, 4000) : g.range(2, 400); Arb x; step("get_arb #" + str((long)i) + " " + str((long)p));
        renf_elem_get_arb(x.v, P.a(i), nf, p); event("q:get_arb"); evaluated(2);
        if (!P.f().contained(x.v, P.r[i])) fail("get_arb", "get_arb returned [" + str_arb(x.v) + "] which does not contain " + str(P.r[i]) + " ~ " + str_arb(P.f().value(P.r[i], 60).v) + " in " + P.K.spec.desc());
        if (!fmpq_poly_is_zero(P.r[i].v) && arb_rel_accuracy_bits(x.v) < p) fail("get_arb-precision", "get_arb returned [" + str_arb(x.v) + "] with " + str((long)arb_rel_accuracy_bits(x.v)) + " bits instead of " + str((long)p) + " for " + str(P.r[i]) + " in " + P.K.spec.desc());
        if (fmpq_poly_is_zero(P.r[i].v) && !arb_is_zero(x.v)) fail("get_arb", "get_arb of zero is not zero");
        situation("get_arb|" + degclass(P.f().deg) + "|" + valclass(P.r[i]) + "|" + precclass(p) + precclass(P.K.spec.prec));
        break; }
    }
    if (P.K.acc() > before) event("field-refined");
}
static void m_encl(Rng& g, long) {
    CField K(gen_field(g, 8, {8, 16, 24, 32, 53, 64, 64, 100, 256}));
    event("field:" + K.spec.kind); event("ball:" + K.spec.ballkind);
    step(K.spec.desc());
    check_field_ball(K, "after construction");
    Pool P(K, (int)g.range(2, 4));
    for (size_t i = 0; i < P.e.size(); i++) P.fill(g, i);
    for (long k = 0; k < 25; k++) {
        if (g.chance(1, 3)) { query(g, P); for (size_t i = 0; i < P.e.size(); i++) check_ball(P, i, "after a query"); check_field_ball(K, "after a query"); }
        else {
            OpRec o = random_op(g, P); check_ball(P, o.dst, o.name);
            if (arb_is_finite(P.a(o.dst)->emb)) event("finite-result"); else event("infinite-result");
        }
        if (g.chance(1, 10)) { size_t i = g.below(P.e.size()); step("check_embedding"); renf_elem_check_embedding(P.a(i), K.nf, g.range(2, 300)); event("check_embedding"); evaluated(); }
        P.trim(g);
        // values are the business of another monitor; a wrong value here would be misread as a wrong enclosure
        for (size_t i = 0; i < P.e.size(); i++) P.r[i] = P.e[i]->get();
    }
    for (size_t i = 0; i < P.e.size(); i++) check_ball(P, i, "at the end");
    sample("field " + K.spec.desc() + " enclosure [" + str_arb(P.a(0)->emb) + "] of " + str(P.r[0]));
}

// ------------------------------------------------------------------ order
static QP tiny_elem(Rng& g, const RefField& f) {
    QP p;
    if (f.deg == 1) { Q q = rnd_q(g); fmpq_poly_set_fmpq(p.v, q.v); }
    else {
        bool deep = f.deg <= 8 && g.chance(1, 40); if (deep) event("deep"); slong b = deep ? g.range(600, 9000) : g.range(8, 200); const Arb& x = f.root(b + 64);
        Arf m; arf_set_round(m.v, arb_midref(x.v), b, ARF_RND_NEAR); Q r; arf_get_fmpq(r.v, m.v); fmpq_neg(r.v, r.v);
        QP lin = f.gen(), c0; fmpq_poly_set_fmpq(c0.v, r.v); fmpq_poly_add(lin.v, lin.v, c0.v);
        p = f.pow(lin, deep ? 1 : (ulong)g.range(1, 3));
    }
    if (g.chance(1, 2)) fmpq_poly_neg(p.v, p.v);
    if (g.chance(1, 2)) { Z d; fmpz_one(d.v); fmpz_mul_2exp(d.v, d.v, (ulong)g.range(0, 150)); if (g.chance(1, 2)) fmpq_poly_scalar_div_fmpz(p.v, p.v, d.v); else fmpq_poly_scalar_mul_fmpz(p.v, p.v, d.v); }
    return f.reduce(p);
}
// put a value into a library element in one of several ways (different enclosures, same number)
static void store(Rng& g, CField& K, CElem& e, const QP& v) {
    switch (g.below(7)) {
    case 0: e.set(v); break;
    case 5: { Arb x; e.set(v); renf_elem_get_arb(x.v, e.a, K.nf, g.range(60, 700)); event("stored-tight"); break; } // much tighter than the default
    case 6: { // v = (v * w) / w, where the enclosure of the second w contains zero
        std::string c; QP w = g.chance(1, 2) ? tiny_elem(g, K.ref()) : gen_elem(g, K.ref(), &c, 30); if (fmpq_poly_is_zero(w.v)) { e.set(v); break; }
        CElem t(K.nf); e.set(K.ref().mul(v, w)); t.set(w); if (K.ref().deg > 1) renf_elem_set_evaluation(t.a, K.nf, 2); renf_elem_div(e.a, e.a, t.a, K.nf); if (!arb_is_finite(e.a->emb)) event("stored-infinite"); break; }
    case 1: e.set(v); renf_elem_set_evaluation(e.a, K.nf, g.range(2, 64)); break;
    case 2: { // v = (v - w) + w
        std::string c; QP w = gen_elem(g, K.ref(), &c), d; fmpq_poly_sub(d.v, v.v, w.v);
        CElem t(K.nf); e.set(K.ref().reduce(d)); t.set(w); renf_elem_add(e.a, e.a, t.a, K.nf); break; }
    case 3: { // v = (v * w) / w
        std::string c; QP w = gen_elem(g, K.ref(), &c, 30); if (fmpq_poly_is_zero(w.v)) { e.set(v); break; }
        CElem t(K.nf); e.set(K.ref().mul(v, w)); t.set(w); renf_elem_div(e.a, e.a, t.a, K.nf); break; }
    default: { // overwrite something else first
        std::string c; e.set(gen_elem(g, K.ref(), &c)); e.set(v); break; }
    }
    if (g.chance(1, 60)) giant_ball(g, e.a, K.nf);
    QP got = e.get();
    if (!fmpq_poly_equal(got.v, v.v)) fail("wrong-value", "storing " + str(v) + " gave " + str(got) + " in " + K.spec.desc());
}
static int isgn(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static void m_cmp(Rng& g, long) {
    CField K(gen_field(g, 8, {8, 16, 32, 53, 64, 64, 64, 128}));
    const RefField& f = K.ref(); renf* nf = K.nf;
    event("field:" + K.spec.kind); step(K.spec.desc());
    for (int rep = 0; rep < 6; rep++) {
        std::string c; QP a = gen_elem(g, f, &c), b; std::string how;
        switch (g.below(5)) {
        case 0: how = "independent"; b = gen_elem(g, f, &c); break;
        case 1: how = "equal"; b = a; break;
        case 2: case 3: { how = "near-tie"; QP t = tiny_elem(g, f); fmpq_poly_add(b.v, a.v, t.v); break; }
        default: how = "tiny-pair"; a = tiny_elem(g, f); b = tiny_elem(g, f); break;
        }
        CElem A(nf), B(nf); store(g, K, A, a); store(g, K, B, b);
        step("compare " + str(a) + " with " + str(b) + " (" + how + ")");
        slong before = K.acc();
        int want = f.cmp(a, b), got = isgn(renf_elem_cmp(A.a, B.a, nf));
        evaluated(); event("cmp:" + how); if (K.acc() > before) event("field-refined");
        situation("cmp|" + how + "|" + f.kind + "|" + degclass(f.deg) + "|" + precclass(K.spec.prec) + "|" + str((long)want) + valclass(a) + valclass(b));
        if (want != got) fail("cmp", "cmp answers " + str((long)got) + " instead of " + str((long)want) + " for " + str(a) + " and " + str(b) + " in " + K.spec.desc());
        if (g.chance(1, 2)) { int back = isgn(renf_elem_cmp(B.a, A.a, nf)); evaluated(); if (back != -want) fail("cmp", "cmp is not antisymmetric for " + str(a) + " and " + str(b) + " in " + K.spec.desc()); }
        int ws = f.sgn(a), gs = isgn(renf_elem_sgn(A.a, nf)); evaluated(); event("sgn");
        if (ws != gs) fail("sgn", "sgn answers " + str((long)gs) + " instead of " + str((long)ws) + " for " + str(a) + " in " + K.spec.desc());
        if ((renf_elem_equal(A.a, B.a, nf) != 0) != (want == 0)) fail("equal", "equal disagrees with the order for " + str(a) + " and " + str(b));
        // scalars around the value
        CElem C(nf); store(g, K, C, b);
        Q q;
        switch (g.below(5)) {
        case 0: q = rnd_q(g); break;
        case 1: if (RefField::is_rational(b)) q = RefField::rational(b); else q = rnd_q(g); break;
        default: { // a rational number close to b
            if (fmpq_poly_is_zero(b.v)) { q = rnd_q(g); break; }
            slong wb = g.chance(1, 40) ? g.range(600, 8000) : g.range(2, 250); Arb v = f.value(b, wb + 50); Arf m; arf_set_round(m.v, arb_midref(v.v), wb, g.chance(1, 2) ? ARF_RND_FLOOR : ARF_RND_CEIL);
            if (fmpz_bits(arf_is_special(m.v) ? z_si(0).v : ARF_EXPREF(m.v)) > 20) { q = rnd_q(g); break; }
            arf_get_fmpq(q.v, m.v); break; }
        }
        int wq = f.cmp_q(b, q), gq = isgn(renf_elem_cmp_fmpq(C.a, q.v, nf)); evaluated(); event("cmp_fmpq");
        situation("cmp_fmpq|" + f.kind + "|" + degclass(f.deg) + precclass(K.spec.prec) + str((long)wq) + valclass(b));
        if (wq != gq) fail("cmp_fmpq", "cmp_fmpq answers " + str((long)gq) + " instead of " + str((long)wq) + " for " + str(b) + " and " + str(q) + " in " + K.spec.desc());
        if ((renf_elem_equal_fmpq(C.a, q.v, nf) != 0) != (wq == 0)) fail("equal", "equal_fmpq disagrees with cmp_fmpq");
        Z z = f.floor(b); fmpz_add_si(z.v, z.v, g.range(-1, 2)); if (g.chance(1, 4)) z = rnd_z(g);
        int wz = f.cmp_q(b, q_z(z)), gz = isgn(renf_elem_cmp_fmpz(C.a, z.v, nf)); evaluated(); event("cmp_fmpz");
        if (wz != gz) fail("cmp_fmpz", "cmp_fmpz answers " + str((long)gz) + " instead of " + str((long)wz) + " for " + str(b) + " and " + str(z) + " in " + K.spec.desc());
        slong s = fmpz_fits_si(z.v) && g.chance(3, 4) ? fmpz_get_si(z.v) : g.chance(1, 2) ? WORD_MIN + (slong)g.below(2) : WORD_MAX - (slong)g.below(2);
        int wsi = f.cmp_q(b, q_z(z_si(s))), gsi = isgn(renf_elem_cmp_si(C.a, s, nf)); evaluated(); event("cmp_si");
        if (wsi != gsi) fail("cmp_si", "cmp_si answers " + str((long)gsi) + " instead of " + str((long)wsi) + " for " + str(b) + " and " + str((long)s) + " in " + K.spec.desc());
        ulong u = fmpz_abs_fits_ui(z.v) && g.chance(3, 4) ? fmpz_get_ui(z.v) : UWORD_MAX - g.below(2);
        int wu = f.cmp_q(b, q_z(z_ui(u))), gu = isgn(renf_elem_cmp_ui(C.a, u, nf)); evaluated(); event("cmp_ui");
        if (wu != gu) fail("cmp_ui", "cmp_ui answers " + str((long)gu) + " instead of " + str((long)wu) + " for " + str(b) + " and " + std::to_string(u) + " in " + K.spec.desc());
        // deciding must not change the numbers
        if (!fmpq_poly_equal(A.get().v, a.v) || !fmpq_poly_equal(C.get().v, b.v)) fail("operand-modified", "a comparison changed its operand");
        if (rep == 0) sample(how + ": " + str(a) + " vs " + str(b) + " -> " + str((long)want) + " in " + K.spec.desc());
    }
}

// --------------------------------------------------------------- rounding
static QP near_integer(Rng& g, const RefField& f, std::string& how) {
    QP p; std::string c;
    switch (g.below(7)) {
    case 0: how = "generic"; p = gen_elem(g, f, &c); break;
    case 1: how = "big"; p = gen_elem(g, f, &c); fmpq_poly_scalar_mul_si(p.v, p.v, 1L << g.range(1, 60)); break;
    case 2: { how = "integer"; Z z = rnd_z(g); fmpq_poly_set_fmpz(p.v, z.v); break; }
    case 3: { how = "half-integer"; Z z = rnd_z(g); fmpq_poly_set_fmpz(p.v, z.v); fmpq_poly_scalar_div_si(p.v, p.v, g.range(2, 7)); break; }
    case 4: how = "zero"; break;
    default: { how = "integer+tiny"; QP t = tiny_elem(g, f); Z z = rnd_z(g); fmpq_poly_set_fmpz(p.v, z.v); fmpq_poly_add(p.v, p.v, t.v); break; }
    }
    return f.reduce(p);
}
static void m_floor(Rng& g, long) {
    CField K(gen_field(g, 8, {8, 16, 32, 53, 64, 64, 64, 128}));
    const RefField& f = K.ref(); renf* nf = K.nf;
    event("field:" + K.spec.kind); step(K.spec.desc());
    for (int rep = 0; rep < 5; rep++) {
        std::string how; QP a = near_integer(g, f, how);
        CElem A(nf); store(g, K, A, a); step("round " + str(a));
        slong before = K.acc();
        Z w = f.floor(a), r = z_si(12345); renf_elem_floor(r.v, A.a, nf); evaluated(); event("floor:" + how);
        if (K.acc() > before) event("field-refined");
        situation("floor|" + how + "|" + f.kind + degclass(f.deg) + precclass(K.spec.prec) + valclass(a));
        if (!fmpz_equal(w.v, r.v)) fail("floor", "floor is " + str(r) + " instead of " + str(w) + " for " + str(a) + " in " + K.spec.desc());
        CElem A2(nf); store(g, K, A2, a);
        w = f.ceil(a); renf_elem_ceil(r.v, A2.a, nf); evaluated(); event("ceil:" + how);
        if (!fmpz_equal(w.v, r.v)) fail("ceil", "ceil is " + str(r) + " instead of " + str(w) + " for " + str(a) + " in " + K.spec.desc());
        if (rep == 0) sample("floor of " + str(a) + " = " + str(f.floor(a)) + " in " + K.spec.desc());
        // floor division
        std::string c; QP d = gen_elem(g, f, &c), b; std::string fh;
        if (fmpq_poly_is_zero(d.v)) d = f.gen(); if (fmpq_poly_is_zero(d.v)) fmpq_poly_one(d.v);
        switch (g.below(4)) {
        case 0: fh = "generic"; b = gen_elem(g, f, &c); break;
        case 1: { fh = "exact"; Z z = rnd_z(g, 100); fmpq_poly_scalar_mul_fmpz(b.v, d.v, z.v); break; }
        case 2: { fh = "near-exact"; Z z = rnd_z(g, 100); fmpq_poly_scalar_mul_fmpz(b.v, d.v, z.v); QP t = tiny_elem(g, f); fmpq_poly_add(b.v, b.v, t.v); break; }
        default: fh = "tiny-divisor"; b = gen_elem(g, f, &c); d = tiny_elem(g, f); if (fmpq_poly_is_zero(d.v)) fmpq_poly_one(d.v); break;
        }
        CElem B(nf), D(nf); store(g, K, B, b); store(g, K, D, d); step("fdiv " + str(b) + " by " + str(d));
        w = f.floor(f.mul(b, f.inv(d))); renf_elem_fdiv(r.v, B.a, D.a, nf); evaluated(); event("fdiv:" + fh);
        situation("fdiv|" + fh + "|" + f.kind + degclass(f.deg) + precclass(K.spec.prec) + valclass(b) + valclass(d) + str((long)f.sgn(d)));
        if (!fmpz_equal(w.v, r.v)) fail("fdiv", "floor division gives " + str(r) + " instead of " + str(w) + " for " + str(b) + " by " + str(d) + " in " + K.spec.desc());
        if (g.chance(1, 4)) { renf_elem_fdiv(r.v, D.a, D.a, nf); evaluated(); if (!fmpz_is_one(r.v)) fail("fdiv", "x // x is " + str(r)); }
        if (!fmpq_poly_equal(A.get().v, a.v) || !fmpq_poly_equal(B.get().v, b.v) || !fmpq_poly_equal(D.get().v, d.v)) fail("operand-modified", "rounding changed its operand");
    }
    { // continued fractions
        std::string how; QP a = g.chance(1, 2) ? gen_elem(g, f, &how, 20) : near_integer(g, f, how);
        if (Pool::bits(a) > (f.deg > 8 ? 300 : 600)) a = f.gen();
        slong n = g.chance(1, 60) && f.deg <= 3 && Pool::bits(a) < 80 ? g.range(20, 40) : g.range(0, f.deg > 8 ? 3 : 12);
        fmpz* c = _fmpz_vec_init(n + 1); CElem A(nf), R(nf); store(g, K, A, a); store(g, K, R, f.gen());
        step("cfrac " + str(a) + " n=" + str((long)n));
        bool alias = g.chance(1, 4); // the remainder may replace the operand
        slong m = alias ? renf_elem_get_cfrac(c, A.a, A.a, n, nf) : renf_elem_get_cfrac(c, R.a, A.a, n, nf); event(alias ? "cfrac-aliased" : "cfrac");
        QP x = a; slong k = 0; std::vector<Z> want;
        if (!fmpq_poly_is_zero(a.v))
            for (; k < n; k++) { Z q = f.floor(x); want.push_back(q); QP t; fmpq_poly_set_fmpz(t.v, q.v); fmpq_poly_sub(x.v, x.v, t.v); if (fmpq_poly_is_zero(x.v)) { k++; break; } x = f.inv(x); }
        evaluated();
        if (m != (slong)want.size()) fail("cfrac", "continued fraction of " + str(a) + " has " + str((long)m) + " partial quotients instead of " + str((long)want.size()) + " in " + K.spec.desc());
        for (slong i = 0; i < m; i++) { evaluated(); Z q; fmpz_set(q.v, c + i); if (!fmpz_equal(q.v, want[(size_t)i].v)) fail("cfrac", "partial quotient " + str((long)i) + " of " + str(a) + " is " + str(q) + " instead of " + str(want[(size_t)i]) + " in " + K.spec.desc()); }
        QP rem = alias ? A.get() : R.get();
        if (!fmpq_poly_equal(rem.v, x.v)) fail("cfrac", "remainder of the continued fraction of " + str(a) + " is " + str(rem) + " instead of " + str(x));
        if (!alias && !fmpq_poly_equal(A.get().v, a.v)) fail("operand-modified", "cfrac changed its operand");
        situation("cfrac|" + f.kind + degclass(f.deg) + valclass(a) + str((long)m));
        _fmpz_vec_clear(c, n + 1);
    }
}

// ----------------------------------------------------------------- double
static void m_dbl(Rng& g, long) {
    CField K(gen_field(g, 8, {8, 16, 32, 53, 64, 64, 64, 128}));
    const RefField& f = K.ref(); renf* nf = K.nf;
    event("field:" + K.spec.kind); step(K.spec.desc());
    for (int rep = 0; rep < 8; rep++) {
        QP a; std::string how, c;
        auto rnd_double = [&]() { for (;;) { uint64_t b = g.next(); double d; if (g.chance(1, 4)) b &= 0x800fffffffffffffULL; else if (g.chance(2, 3)) b = (b & 0x800fffffffffffffULL) | ((uint64_t)g.range(1000, 1100) << 52); memcpy(&d, &b, 8); if (std::isfinite(d)) return d; } };
        auto q_d = [&](double d) { Arf x; arf_set_d(x.v, d); Q q; if (arf_is_zero(x.v)) return q; arf_get_fmpq(q.v, x.v); return q; };
        switch (g.below(9)) {
        case 0: how = "generic"; a = gen_elem(g, f, &c); break;
        case 1: { how = "scaled"; a = gen_elem(g, f, &c); Q s; fmpq_one(s.v); long k = g.range(-1150, 1000); if (k >= 0) fmpq_mul_2exp(s.v, s.v, (ulong)k); else fmpq_div_2exp(s.v, s.v, (ulong)-k); fmpq_poly_scalar_mul_fmpq(a.v, a.v, s.v); break; }
        case 2: { how = "exact-double"; Q q = q_d(rnd_double()); fmpq_poly_set_fmpq(a.v, q.v); break; }
        case 3: { how = "midpoint"; double d = rnd_double(), e = std::nextafter(d, INFINITY); if (!std::isfinite(e)) e = 0; Q q = q_d(d), r = q_d(e); fmpq_add(q.v, q.v, r.v); fmpq_div_2exp(q.v, q.v, 1); fmpq_poly_set_fmpq(a.v, q.v); break; }
        case 4: case 5: { how = "near-midpoint"; double d = rnd_double(), e = g.chance(1, 2) ? std::nextafter(d, INFINITY) : d; if (!std::isfinite(e)) e = d; Q q = q_d(d), r = q_d(e); fmpq_add(q.v, q.v, r.v); fmpq_div_2exp(q.v, q.v, 1); 
            QP t = tiny_elem(g, f), m; Q sc; fmpq_abs(sc.v, q.v); if (fmpq_is_zero(sc.v)) fmpq_one(sc.v); fmpq_div_2exp(sc.v, sc.v, (ulong)(g.chance(1, 60) ? g.range(600, 6000) : g.chance(1, 3) ? g.range(90, 500) : g.range(50, 90))); 
            // |t| may be anything, bring it down first
            if (!fmpq_poly_is_zero(t.v)) { Arb tv = f.value(t, 20); Z ex; arf_abs_bound_lt_2exp_fmpz(ex.v, arb_midref(tv.v)); long k = fmpz_get_si(ex.v); Q s2; fmpq_one(s2.v); if (k > 0) fmpq_div_2exp(s2.v, s2.v, (ulong)k); else fmpq_mul_2exp(s2.v, s2.v, (ulong)-k); fmpq_mul(sc.v, sc.v, s2.v); }
            fmpq_poly_scalar_mul_fmpq(t.v, t.v, sc.v); fmpq_poly_set_fmpq(a.v, q.v); fmpq_poly_add(a.v, a.v, t.v); break; }
        case 6: { how = "rational"; Q q = rnd_q(g, 300); fmpq_poly_set_fmpq(a.v, q.v); break; }
        case 7: { how = "near-overflow"; // a few units in the last place around the largest double
            Z n; fmpz_one(n.v); fmpz_mul_2exp(n.v, n.v, 53 + 970); Z d; fmpz_set_si(d.v, g.range(-4, 3)); fmpz_mul_2exp(d.v, d.v, 968 + g.below(4)); fmpz_add(n.v, n.v, d.v); if (g.chance(1, 4)) { Z t; fmpz_one(t.v); fmpz_mul_2exp(t.v, t.v, g.below(900)); fmpz_add(n.v, n.v, t.v); }
            if (g.chance(1, 8)) fmpz_mul_2exp(n.v, n.v, g.below(3000)); if (g.chance(1, 2)) fmpz_neg(n.v, n.v);
            fmpq_poly_set_fmpz(a.v, n.v); if (g.chance(2, 3)) { QP t = tiny_elem(g, f); fmpq_poly_add(a.v, a.v, t.v); } break; }
        default: how = "tiny"; a = tiny_elem(g, f); break;
        }
        a = f.reduce(a);
        static const arf_rnd_t modes[] = {ARF_RND_NEAR, ARF_RND_NEAR, ARF_RND_FLOOR, ARF_RND_CEIL, ARF_RND_UP, ARF_RND_DOWN};
        arf_rnd_t m = modes[g.below(6)];
        double want, got;
        if (!ref_double(f, a, m, want)) { event("out-of-range"); continue; }
        CElem A(nf); store(g, K, A, a); step("get_d " + str(a) + " mode " + str((long)m));
        slong before = K.acc();
        got = renf_elem_get_d(A.a, nf, m); evaluated(); event("get_d:" + how); if (K.acc() > before) event("field-refined");
        if (std::fabs(want) < DBL_MIN && want != 0) event("subnormal");
        if (std::isinf(want)) event("overflow");
        situation("get_d|" + how + "|" + f.kind + degclass(f.deg) + precclass(K.spec.prec) + valclass(a) + str((long)m));
        char bb[160]; snprintf(bb, sizeof bb, "%a instead of %a (mode %d)", got, want, (int)m);
        if (!(got == want)) fail("get_d", "double value is " + std::string(bb) + " for " + str(a) + " in " + K.spec.desc());
        if (!fmpq_poly_equal(A.get().v, a.v)) fail("operand-modified", "get_d changed its operand");
        evaluated(); if (!f.contained(A.a->emb, a)) fail("enclosure", "get_d left a wrong enclosure");
        if (rep == 0) sample(how + ": " + str(a) + " -> " + bb + " in " + K.spec.desc());
    }
}

#include "capi2.hpp"

int main(int argc, char** argv) {
    return vf::run(argc, argv, {
        {"arith", m_arith}, {"encl", m_encl}, {"cmp", m_cmp}, {"floor", m_floor}, {"dbl", m_dbl},
        {"field", m_field}, {"roots", m_roots}, {"parse", m_parse}, {"indep", m_indep}, {"mem", m_mem},
    });
}
