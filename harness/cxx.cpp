#include "cxx.hpp"
#include <algorithm>
#include <climits>
#include <list>
#include <map>
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <random>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#include <sanitizer/allocator_interface.h>
#endif
#endif
using namespace vf;

struct El { renf_elem_class x; int f = 0; QP r; };

static bool strict_env() { static bool b = getenv("LIBEANTIC_STRICT_BINOP") != nullptr; return b; }

static World gen_world(Rng& g, int n, long maxdeg = 6) {
    World W;
    for (int i = 0; i < n; i++) { XSpec x = gen_xspec(g, maxdeg); step("field " + x.desc()); int k = W.add(x); (void)k; event("field:" + x.kind); }
    return W;
}
static El gen_el(Rng& g, const World& W, int f = -1) {
    El e; e.f = f < 0 ? (int)g.below(W.spec.size()) : f; std::string c;
    e.r = gen_elem(g, W.ref(e.f), &c, 90);
    if (g.chance(1, 3)) e.r = q_poly(g.chance(1, 2) ? q_z(rnd_z(g)) : rnd_q(g));   // rationals in every field
    e.x = build(W.field(e.f), e.r);
    return e;
}

// ------------------------------------------------------------------ ops
template <class T> struct Scalar;
template <class T> T int_of(Rng& g) {
    typedef std::numeric_limits<T> L;
    switch (g.below(7)) { case 0: return L::max(); case 1: return L::min(); case 2: return (T)(L::max() - (T)g.below(3)); case 3: return (T)g.range(0, 4); case 4: return (T)(L::is_signed ? g.range(-4, 4) : g.range(0, 9)); default: return (T)(g.next() >> g.below(62)); }
}
template <class T> Q q_of(const T& v) { Q r; std::string s = std::to_string(v); fmpz_set_str(fmpq_numref(r.v), s.c_str(), 10); return r; }
template <> Q q_of<mpz_class>(const mpz_class& v) { return q_z(from_mpz(v)); }
template <> Q q_of<mpq_class>(const mpq_class& v) { return from_mpq(v); }
template <class T> T scalar(Rng& g, const El& near) { (void)near; return int_of<T>(g); }
template <> mpz_class scalar<mpz_class>(Rng& g, const El&) { return to_mpz(rnd_z(g)); }
template <> mpq_class scalar<mpq_class>(Rng& g, const El&) { return to_mpq(rnd_q(g)); }

template <class T> static void scalar_ops(Rng& g, World& W, El& e, const std::string& tn) {
    const RefField& f = W.ref(e.f);
    T s = scalar<T>(g, e); Q q = q_of<T>(s);
    if (RefField::is_rational(e.r) && g.chance(1, 3)) {   // compare and cancel with (almost) the same number
        Q v = RefField::rational(e.r);
        if (g.chance(1, 3)) e.r = q_poly(q), e.r = f.reduce(e.r), e.x = build(W.field(e.f), e.r);
        else if (g.chance(1, 2)) { Q t = q; fmpq_add_si(t.v, t.v, g.range(-1, 1)); e.r = q_poly(t); e.x = build(W.field(e.f), e.r); }
        (void)v;
    }
    const QP& r = e.r; QP c = q_poly(q);
    renf_elem_class x = e.x;
    bool sz = fmpq_is_zero(q.v), rz = fmpq_poly_is_zero(r.v);
    step(tn + " " + str(q) + " with " + str(r) + " in field #" + str((long)e.f));
    QP sum, dif, rdif, prod, quo, rquo; fmpq_poly_add(sum.v, r.v, c.v); fmpq_poly_sub(dif.v, r.v, c.v); fmpq_poly_sub(rdif.v, c.v, r.v); fmpq_poly_scalar_mul_fmpq(prod.v, r.v, q.v);
    if (!sz) fmpq_poly_scalar_div_fmpq(quo.v, r.v, q.v);
    if (!rz) { QP i = f.inv(r); fmpq_poly_scalar_mul_fmpq(rquo.v, i.v, q.v); }
    // s - x and s / x for rational x may live in the rational field or in the field of x
    auto ckr = [&](const renf_elem_class& y, const QP& want, const char* op) { event("op:" + std::string(op) + ":" + tn); int rf = RefField::is_rational(r) && &y.parent() == &W.field(0) ? 0 : e.f; check_elem(W, y, rf, want, std::string(op) + " with " + tn + " " + str(q) + " of " + str(r)); };
    auto ck = [&](const renf_elem_class& y, const QP& want, const char* op) { event("op:" + std::string(op) + ":" + tn); check_elem(W, y, e.f, want, std::string(op) + " with " + tn + " " + str(q) + " of " + str(r)); };
    switch (g.below(11)) {
    case 0: ck(x += s, sum, "+="); break;
    case 1: ck(x -= s, dif, "-="); break;
    case 2: ck(x *= s, prod, "*="); break;
    case 3: if (!sz) ck(x /= s, quo, "/="); break;
    case 4: ck(x + s, sum, "+"); ck(s + x, sum, "+r"); break;
    case 5: ck(x - s, dif, "-"); break;
    case 6: ckr(s - x, rdif, "-r"); break;
    case 7: ck(x * s, prod, "*"); ck(s * x, prod, "*r"); break;
    case 8: if (!sz) ck(x / s, quo, "/"); break;
    case 9: if (!rz) ckr(s / x, rquo, "/r"); break;
    default: break;
    }
    int cmp = f.cmp_q(r, q); renf_elem_class y = e.x;
    auto cb = [&](bool got, bool want, const char* op) { evaluated(); event("cmp:" + tn); if (got != want) fail("comparison", std::string("element ") + op + " " + tn + " is " + (got ? "true" : "false") + " for " + str(r) + " and " + str(q) + " in " + W.spec[(size_t)e.f].desc()); };
    cb(y == s, cmp == 0, "=="); cb(y != s, cmp != 0, "!="); cb(y < s, cmp < 0, "<"); cb(y <= s, cmp <= 0, "<="); cb(y > s, cmp > 0, ">"); cb(y >= s, cmp >= 0, ">=");
    cb(s == y, cmp == 0, "== (reversed)"); cb(s != y, cmp != 0, "!= (reversed)"); cb(s < y, cmp > 0, "> (reversed)"); cb(s <= y, cmp >= 0, ">= (reversed)"); cb(s > y, cmp < 0, "< (reversed)"); cb(s >= y, cmp <= 0, "<= (reversed)");
    check_elem(W, e.x, e.f, e.r, "operand after scalar operations");
    if (q_of<T>(s).v, !fmpq_equal(q_of<T>(s).v, q.v)) fail("operand-modified", tn + " operand changed");
    situation("scalar|" + tn + "|" + dclass(f.deg) + f.kind + vclass(r) + str((long)cmp) + (e.f ? "K" : "Q"));
    // construction and assignment
    switch (g.below(4)) {
    case 0: { renf_elem_class z(s); check_elem(W, z, 0, c, "construction from " + tn + " " + str(q)); event("ctor:" + tn); break; }
    case 1: { renf_elem_class z(W.field(e.f), s); check_elem(W, z, e.f, c, "construction in a field from " + tn + " " + str(q)); event("ctorK:" + tn); break; }
    default: { renf_elem_class z = e.x; if (g.chance(1, 4)) { renf_elem_class w = std::move(z); } renf_elem_class& ret = (z = s); check_elem(W, z, 0, c, "assignment from " + tn + " " + str(q)); event("assign:" + tn); if (&ret != &z) fail("assign", "assignment does not return the element"); break; }
    }
}
// fmpz_t and fmpq_t
static void flint_scalars(Rng& g, World& W, El& e) {
    Z z = rnd_z(g), z0 = z; Q q = rnd_q(g), q0 = q; 
    { renf_elem_class x(z.v); check_elem(W, x, 0, q_poly(q_z(z)), "construction from fmpz"); renf_elem_class y(W.field(e.f), z.v); check_elem(W, y, e.f, q_poly(q_z(z)), "construction in a field from fmpz"); renf_elem_class u = e.x; u = z.v; check_elem(W, u, 0, q_poly(q_z(z)), "assignment from fmpz"); }
    { renf_elem_class x(q.v); check_elem(W, x, 0, q_poly(q), "construction from fmpq"); renf_elem_class y(W.field(e.f), q.v); check_elem(W, y, e.f, q_poly(q), "construction in a field from fmpq"); renf_elem_class u = e.x; u = q.v; check_elem(W, u, 0, q_poly(q), "assignment from fmpq"); }
    if (!fmpz_equal(z.v, z0.v) || !fmpq_equal(q.v, q0.v)) fail("operand-modified", "flint scalar changed");
    event("flint-scalars");
}
template <class T> static T coeff(Rng& g) { return int_of<T>(g); }
template <> mpz_class coeff<mpz_class>(Rng& g) { return to_mpz(rnd_z(g)); }
template <> mpq_class coeff<mpq_class>(Rng& g) { return to_mpq(rnd_q(g)); }
template <class T> static void vector_ctor(Rng& g, World& W, int f, const std::string& tn) {
    std::vector<T> v; QP want; long n = g.range(0, W.ref(f).deg);
    for (long i = 0; i < n; i++) { v.push_back(g.chance(1, 4) ? T(0) : coeff<T>(g)); Q q = q_of<T>(v.back()); fmpq_poly_set_coeff_fmpq(want.v, i, q.v); }
    step("vector<" + tn + "> of size " + str(n) + " -> " + str(want));
    renf_elem_class x(W.field(f), v); event("vector:" + tn); situation("vector|" + tn + str(n) + "/" + str(W.ref(f).deg));
    check_elem(W, x, f, W.ref(f).reduce(want), "construction from vector<" + tn + ">");
}
static void conversions(Rng& g, World& W, El& e) {
    const RefField& f = W.ref(e.f); const QP& r = e.r; bool rat = RefField::is_rational(r); Q q = RefField::rational(r); bool in = rat && fmpz_is_one(fmpq_denref(q.v));
    const renf_elem_class& x = e.x; std::string d = str(r) + " in " + W.spec[(size_t)e.f].desc();
    step("conversions of " + d);
    auto ck = [&](bool ok, const char* n) { evaluated(); event(std::string("conv:") + n); if (!ok) fail("conversion", std::string(n) + " is wrong for " + d); };
    ck(x.is_zero() == (bool)fmpq_poly_is_zero(r.v), "is_zero"); ck(x.is_one() == (bool)fmpq_poly_is_one(r.v), "is_one"); ck(x.is_integer() == in, "is_integer"); ck(x.is_rational() == rat, "is_rational");
    ck(static_cast<bool>(x) == !fmpq_poly_is_zero(r.v), "bool"); ck(!x == (bool)fmpq_poly_is_zero(r.v), "not");
    int s = f.sgn(r); int got = x.sgn(); ck((got > 0) - (got < 0) == s, "sgn"); ck(got >= -1 && got <= 1, "sgn-range");
    Z den; fmpz_set(den.v, fmpq_poly_denref(r.v)); ck(x.den() == to_mpz(den), "den");
    std::vector<mpz_class> nv = x.num_vector(); ck((long)nv.size() == f.deg, "num_vector-size"); Z content;
    for (long i = 0; i < f.deg; i++) { Z c; if (i < fmpq_poly_length(r.v)) fmpz_set(c.v, r.v->coeffs + i); ck(nv[(size_t)i] == to_mpz(c), "num_vector"); fmpz_gcd(content.v, content.v, c.v); }
    ck(x.num_content() == to_mpz(content), "num_content");
    if (rat) { Z n; fmpz_set(n.v, fmpq_numref(q.v)); ck(x.num() == to_mpz(n), "num"); mpq_class m = static_cast<mpq_class>(x); ck(m == to_mpq(q), "mpq"); ck(m.get_den() > 0 && gcd(m.get_num(), m.get_den()) == 1, "mpq-canonical"); }
    if (in) { Z n; fmpz_set(n.v, fmpq_numref(q.v)); ck(static_cast<mpz_class>(x) == to_mpz(n), "mpz"); }
    mpz_class fl = to_mpz(f.floor(r)), ce = to_mpz(f.ceil(r));
    ck(x.floor() == fl, "floor"); ck(eantic::floor(x) == fl, "floor()"); ck(x.ceil() == ce, "ceil"); ck(eantic::ceil(x) == ce, "ceil()");
    double want; if (ref_double(f, r, ARF_RND_NEAR, want)) ck(static_cast<double>(x) == want, "double");
    if (g.chance(1, 3)) { // the old names of the same functions
        ck(x.get_den() == to_mpz(den), "get_den"); ck(x.get_num_vector() == nv, "get_num_vector"); ck(x.get_renf_elem() == x.renf_elem_t(), "get_renf_elem"); ck(x.parent().get_renf() == x.parent().renf_t(), "get_renf");
        int fl2 = (int)g.range(1, 5); ck(x.get_str(fl2) == x.to_string(fl2), "get_str"); ck(x.get_str() == x.to_string(), "get_str-default");
        if (rat) { ck(x.get_num() == x.num(), "get_num"); ck(x.get_rational() == to_mpq(q), "get_rational"); }
        if (ref_double(f, r, ARF_RND_NEAR, want)) ck(x.get_d() == want, "get_d");
    }
    QP neg; fmpq_poly_neg(neg.v, r.v); check_elem(W, -x, e.f, neg, "unary minus"); check_elem(W, +x, e.f, r, "unary plus"); event("conv:unary");
    check_elem(W, x, e.f, r, "operand after conversions");
    situation("conv|" + dclass(f.deg) + f.kind + vclass(r) + str((long)s));
    { // powers
        int k = (int)g.range(-6, 9); if (fmpq_poly_is_zero(r.v) && k < 0) k = -k;
        long bits = 0; for (slong i = 0; i < fmpq_poly_length(r.v); i++) bits += (long)fmpz_bits(r.v->coeffs + i);
        if (bits > 400) k = (int)g.range(-1, 2) , k = fmpq_poly_is_zero(r.v) && k < 0 ? 1 : k;
        QP want2 = k >= 0 ? f.pow(r, (ulong)k) : f.pow(f.inv(r), (ulong)-k);
        check_elem(W, g.chance(1, 2) ? x.pow(k) : eantic::pow(x, k), e.f, want2, "pow " + str((long)k) + " of " + str(r)); event("pow");
        if (fmpq_poly_is_one(r.v)) { int big = g.chance(1, 2) ? INT_MIN : INT_MAX; check_elem(W, x.pow(big), e.f, r, "pow of one"); }
    }
}
// binary operators between elements, within and across fields
static void elem_ops(Rng& g, World& W, El& A, El& B) {
    if (g.chance(1, 4)) { // B (almost) the same number as A, possibly in another field
        Q e = q_si(1); fmpq_div_2exp(e.v, e.v, (ulong)g.range(10, 300));
        if (RefField::is_rational(A.r)) { Q q = RefField::rational(A.r);
            switch (g.below(6)) { case 0: break; case 1: fmpq_add(q.v, q.v, e.v); break; case 2: fmpq_neg(q.v, q.v); break; case 3: fmpz_add_ui(fmpq_denref(q.v), fmpq_denref(q.v), 1); fmpq_canonicalise(q.v); break; case 4: fmpz_add_ui(fmpq_numref(q.v), fmpq_numref(q.v), 1); fmpq_canonicalise(q.v); break; default: if (!fmpq_is_zero(q.v)) fmpq_inv(q.v, q.v); }
            B.r = q_poly(q); event("near-rational"); }
        else { B.f = A.f; B.r = A.r; QP c = q_poly(e); if (g.chance(2, 3)) fmpq_poly_add(B.r.v, B.r.v, c.v); event("near-irrational"); }
        B.x = build(W.field(B.f), B.r);
        if (g.chance(1, 2)) std::swap(A, B);
    }
    const RefField &fa = W.ref(A.f), &fb = W.ref(B.f); bool same = A.f == B.f, ra = RefField::is_rational(A.r), rb = RefField::is_rational(B.r), az = fmpq_poly_is_zero(A.r.v), bz = fmpq_poly_is_zero(B.r.v);
    bool impossible = !same && !ra && !rb; bool strict = strict_env() && !same && A.f != 0 && B.f != 0;
    int rf = same || rb ? A.f : B.f; const RefField& f = W.ref(rf);
    std::string d = str(A.r) + " in " + W.spec[(size_t)A.f].desc() + " and " + str(B.r) + " in " + W.spec[(size_t)B.f].desc();
    step("binary operators on " + d);
    std::string rel = same ? "same" : impossible ? "impossible" : A.f == 0 || B.f == 0 ? "with-rationals" : "cross";
    situation("binary|" + rel + "|" + dclass(fa.deg) + fa.kind + vclass(A.r) + dclass(fb.deg) + vclass(B.r));
    auto op = [&](const std::string& n, const std::function<renf_elem_class()>& run, const QP& want) {
        evaluated(); event("binop:" + rel + ":" + n);
        long before = quiet_cerr().chars;
        if (impossible || strict) {
            bool thrown = false;
            try { renf_elem_class y = run(); }
            catch (const std::invalid_argument&) { thrown = strict; }
            catch (const std::logic_error&) { thrown = !strict; }
            if (!thrown) fail("exception", n + " does not throw the right exception for " + d);
        } else {
            renf_elem_class y = run();
            check_elem(W, y, rf, want, n + " of " + d);
        }
        if (quiet_cerr().chars > before) event("deprecation-note:" + rel);
        check_elem(W, A.x, A.f, A.r, "left operand after " + n); check_elem(W, B.x, B.f, B.r, "right operand after " + n);
    };
    QP t;
    switch (g.below(8)) {
    case 0: fmpq_poly_add(t.v, A.r.v, B.r.v); op("+", [&] { return A.x + B.x; }, t); break;
    case 1: fmpq_poly_sub(t.v, A.r.v, B.r.v); op("-", [&] { return A.x - B.x; }, t); break;
    case 2: t = f.mul(A.r, B.r); op("*", [&] { return A.x * B.x; }, t); break;
    case 3: if (bz) break; if (!impossible) t = f.mul(A.r, f.inv(B.r)); op("/", [&] { return A.x / B.x; }, t); break;
    case 4: fmpq_poly_add(t.v, A.r.v, B.r.v); op("+=", [&] { renf_elem_class y = A.x; y += B.x; return y; }, t); break;
    case 5: fmpq_poly_sub(t.v, A.r.v, B.r.v); op("-=", [&] { renf_elem_class y = A.x; y -= B.x; return y; }, t); break;
    case 6: t = f.mul(A.r, B.r); op("*=", [&] { renf_elem_class y = A.x; y *= B.x; return y; }, t); break;
    default: if (bz) break; if (!impossible) t = f.mul(A.r, f.inv(B.r)); op("/=", [&] { renf_elem_class y = A.x; y /= B.x; return y; }, t); break;
    }
    // failed in-place operation leaves the operand alone
    if (impossible) { renf_elem_class y = A.x; try { y += B.x; } catch (const std::exception&) { } check_elem(W, y, A.f, A.r, "left operand after a failed +="); event("failed-inplace"); }
    if (same && g.chance(1, 3)) {  // with itself
        renf_elem_class y = A.x; QP want; 
        switch (g.below(4)) { case 0: y += y; fmpq_poly_add(want.v, A.r.v, A.r.v); break; case 1: y -= y; break; case 2: y *= y; want = fa.mul(A.r, A.r); break; default: if (az) { want = A.r; break; } y /= y; fmpq_poly_one(want.v); }
        check_elem(W, y, A.f, want, "operation of an element with itself: " + str(A.r)); event("self-op");
    }
    // relational
    int cmp = 0; if (!impossible) { QP df; fmpq_poly_sub(df.v, A.r.v, B.r.v); cmp = f.sgn(df); }
    auto cb = [&](const std::string& n, const std::function<bool()>& run, bool want) {
        evaluated(); event("relop:" + rel);
        if (impossible) { bool thrown = false; try { run(); } catch (const std::logic_error&) { thrown = true; } if (!thrown) fail("exception", n + " does not throw for " + d); return; }
        if (run() != want) fail("comparison", n + " is wrong for " + d);
    };
    cb("==", [&] { return A.x == B.x; }, cmp == 0); cb("!=", [&] { return A.x != B.x; }, cmp != 0); cb("<", [&] { return A.x < B.x; }, cmp < 0); cb("<=", [&] { return A.x <= B.x; }, cmp <= 0); cb(">", [&] { return A.x > B.x; }, cmp > 0); cb(">=", [&] { return A.x >= B.x; }, cmp >= 0);
    cb("== (swapped)", [&] { return B.x == A.x; }, cmp == 0); cb("< (swapped)", [&] { return B.x < A.x; }, cmp > 0);
    if (!bz && !(strict && !impossible)) {
        evaluated(); event("floordiv:" + rel);
        if (impossible) { bool thrown = false; try { A.x.floordiv(B.x); } catch (const std::logic_error&) { thrown = true; } if (!thrown) fail("exception", "floordiv does not throw for " + d); }
        else { QP quo = f.mul(A.r, f.inv(B.r)); mpz_class want = to_mpz(f.floor(quo)), got = A.x.floordiv(B.x); if (got != want) fail("floordiv", "floordiv is " + got.get_str() + " instead of " + want.get_str() + " for " + d); }
    }
    // coercion
    evaluated(); event("coerce:" + rel);
    bool bad = !same && !rb; bool thrown = false;
    try { renf_elem_class y(W.field(A.f), B.x); if (!bad) check_elem(W, y, A.f, B.r, "coercion of " + d); } catch (const std::logic_error&) { thrown = true; }
    if (thrown != bad) fail("exception", "coercion " + std::string(thrown ? "throws" : "does not throw") + " for " + d);
    check_elem(W, A.x, A.f, A.r, "left operand at the end"); check_elem(W, B.x, B.f, B.r, "right operand at the end");
}
static void m_ops(Rng& g, long) {
    quiet_cerr();
    World W = gen_world(g, (int)g.range(1, 2), 6);
    El A = gen_el(g, W), B = gen_el(g, W);
    for (int k = 0; k < 10; k++) {
        if (g.chance(1, 2)) A = gen_el(g, W);
        if (g.chance(1, 2)) B = gen_el(g, W, g.chance(1, 3) ? A.f : -1);
        if (A.f == B.f && g.chance(1, 5)) { B.r = A.r; B.x = build(W.field(B.f), B.r); if (g.chance(1, 2)) { B.x += 1; B.x -= 1; } }
        if (A.f != B.f && RefField::is_rational(A.r) && g.chance(1, 3)) { B.r = A.r; B.x = build(W.field(B.f), B.r); }
        switch (g.below(4)) {
        case 0: switch (g.below(10)) {
            case 0: scalar_ops<short>(g, W, A, "short"); break; case 1: scalar_ops<unsigned short>(g, W, A, "unsigned short"); break;
            case 2: scalar_ops<int>(g, W, A, "int"); break; case 3: scalar_ops<unsigned int>(g, W, A, "unsigned int"); break;
            case 4: scalar_ops<long>(g, W, A, "long"); break; case 5: scalar_ops<unsigned long>(g, W, A, "unsigned long"); break;
            case 6: scalar_ops<long long>(g, W, A, "long long"); break; case 7: scalar_ops<unsigned long long>(g, W, A, "unsigned long long"); break;
            case 8: scalar_ops<mpz_class>(g, W, A, "mpz"); break; default: scalar_ops<mpq_class>(g, W, A, "mpq"); break; } break;
        case 1: conversions(g, W, A); break;
        case 2: elem_ops(g, W, A, B); break;
        default: switch (g.below(7)) {
            case 0: vector_ctor<int>(g, W, A.f, "int"); break; case 1: vector_ctor<unsigned int>(g, W, A.f, "unsigned int"); break; case 2: vector_ctor<long>(g, W, A.f, "long"); break;
            case 3: vector_ctor<unsigned long>(g, W, A.f, "unsigned long"); break; case 4: vector_ctor<mpz_class>(g, W, A.f, "mpz"); break; case 5: vector_ctor<mpq_class>(g, W, A.f, "mpq"); break;
            default: flint_scalars(g, W, A); break; } elem_ops(g, W, A, B); break;
        }
    }
    sample("operands " + str(A.r) + " in " + W.spec[(size_t)A.f].desc() + " and " + str(B.r) + " in " + W.spec[(size_t)B.f].desc());
}

// --------------------------------------------------------------- parents
static bool same_field(const XSpec& a, const XSpec& b) { return a.gen == b.gen && fmpq_poly_equal(a.ref->pol.v, b.ref->pol.v) && (a.ref->deg == 1 || a.ref->index == b.ref->index); }
static void check_make(const FieldPtr& p, const XSpec& x, const std::string& how) {
    evaluated();
    const RefField& f = *x.ref; renf* nf = p->renf_t();
    if (!fmpq_poly_equal(nf->nf->pol, f.pol.v)) fail("make", how + " has the wrong polynomial for " + x.desc());
    if (p->gen_name() != x.gen) fail("make", how + " has the wrong generator name for " + x.desc());
    if (p->degree() != f.deg) fail("make", how + " has the wrong degree for " + x.desc());
    long w = -1; if (roots_in_ball(f, nf->emb, &w) != 1 || w != f.index) fail("make", how + " selects the wrong root, its enclosure is [" + str_arb(nf->emb) + "] for " + x.desc());
    QP one; fmpq_poly_one(one.v); QP zero;
    if (!fmpq_poly_equal(read(p->zero()).v, zero.v) || !fmpq_poly_equal(read(p->one()).v, one.v) || !fmpq_poly_equal(read(p->gen()).v, f.gen().v)) fail("make", how + " has wrong constants for " + x.desc());
    if (&p->zero().parent() != p.get() || &p->one().parent() != p.get() || &p->gen().parent() != p.get()) fail("make", "constants belong to another field");
    for (const renf_elem_class* e : {&p->zero(), &p->one(), &p->gen()}) if (!f.contained(e->renf_elem_t()->emb, read(*e))) fail("make", "constant with wrong enclosure in " + x.desc());
}
static XSpec variation(Rng& g, const XSpec& x, std::string& how) {
    XSpec y = x; y.ref = std::make_shared<RefField>(*x.ref);
    switch (g.below(6)) {
    case 0: how = "same-strings"; break;
    case 1: how = "other-precision"; y.prec = g.pick(std::vector<slong>{32, 64, 100, 200, 333}); break;
    case 2: how = "other-enclosure"; break;
    case 3: how = "other-root"; y.ref->index = (long)g.below((uint64_t)y.ref->nreal); break;
    case 4: { how = "multiple"; Q c = q_si(g.range(2, 5), (ulong)g.range(1, 3)); QP p; fmpq_poly_scalar_mul_fmpq(p.v, x.ref->pol.v, c.v); long i = x.ref->index; y.ref->init(p); y.ref->index = i; break; }
    default: how = "other-name"; y.gen = g.pick(gen_names());
        if (g.chance(1, 2)) { y.gen = x.gen; switch (g.below(3)) { case 0: y.gen += "_"; break; case 1: y.gen += "0"; break; default: y.gen.back() = y.gen.back() == 'q' ? 'p' : 'q'; break; } how = "similar-name"; }
        break;
    }
    y.minpoly = take(fmpq_poly_get_str_pretty(y.ref->pol.v, y.gen.c_str()));
    if (how == "same-strings") return y;
    for (;;) { y.emb = emb_string(g, *y.ref, y.ref->index, y.prec); if (!y.emb.empty()) return y; y.prec *= 2; if (y.prec > 100000) harness_error("cannot write an enclosure"); }
}
static FieldPtr make_some_way(Rng& g, const XSpec& x, std::string& how) {
    switch (g.below(4)) {
    case 0: { how = "C field"; renf_t nf; Arb b; if (arb_set_str(b.v, x.emb.c_str(), x.prec)) harness_error("emb"); QP p = x.ref->pol; renf_init(nf, p.v, b.v, x.prec); FieldPtr r = renf_class::make(nf, x.gen); renf_clear(nf); return r; }
    case 1: { how = "function"; auto f = x.ref; std::vector<slong> asked; 
        // an approximation which becomes isolating only with growing precision
        FieldPtr r = renf_class::make(x.minpoly, x.gen, [&](slong p) { asked.push_back(p); const Arb& v = f->root(p + 64); Arb t; arb_set_round(t.v, v.v, p); Arb w; arb_get_mag(arb_radref(w.v), t.v); mag_mul_2exp_si(arb_radref(w.v), arb_radref(w.v), -(p / 2)); mag_add(arb_radref(t.v), arb_radref(t.v), arb_radref(w.v)); return take(arb_get_str(t.v, p, ARB_STR_MORE)); }, g.chance(1, 2) ? x.prec : g.range(2, 20));
        for (size_t i = 1; i < asked.size(); i++) if (asked[i] <= asked[i - 1]) fail("make", "precision asked from the embedding function does not grow");
        if (asked.size() > 1) event("function-asked-again"); return r; }
    default: how = "strings"; return make(x);
    }
}
// very many fields at once, dropped and made again in random order
static void crowd(Rng& g) {
    long n = g.range(200, 1500); std::vector<FieldPtr> p((size_t)n); std::vector<const renf_class*> addr((size_t)n, nullptr); std::map<const renf_class*, long> owner;
    auto mk = [&](long i) { long k = i / 2; // the two roots of x^2 - x - (k + 1)(k + 2) - 1, never a square discriminant
        std::string c = std::to_string((k + 1) * (k + 2) + 1), hi = std::to_string(k + 2) + ".25 +/- 0.75", lo = "-" + std::to_string(k + 1) + ".25 +/- 0.75";
        return renf_class::make("x^2 - x - " + c, "x", i & 1 ? hi : lo, 64); };
    for (long i = 0; i < n; i++) { p[(size_t)i] = mk(i); addr[(size_t)i] = p[(size_t)i].get(); evaluated(); if (!owner.emplace(addr[(size_t)i], i).second) fail("unique-parent", "two of " + str(n) + " different fields are the same object"); }
    for (long t = 0; t < n; t++) {
        long i = (long)g.below((uint64_t)n); FieldPtr q = mk(i); evaluated();
        if (p[(size_t)i] && q.get() != addr[(size_t)i]) fail("unique-parent", "among " + str(n) + " fields, one made twice is not the same object");
        if (!p[(size_t)i] && owner.count(q.get())) fail("unique-parent", "among " + str(n) + " fields, a new one is an existing one");
        const renf_elem_class& x = q->gen(); if (x * x - x - renf_elem_class(((i / 2) + 1) * ((i / 2) + 2) + 1) != 0 || (x > 0) != (bool)(i & 1)) fail("make", "wrong root in field " + str(i) + " of " + str(n));
        if (g.chance(1, 2)) { owner.erase(addr[(size_t)i]); p[(size_t)i] = g.chance(1, 2) ? nullptr : q; if (p[(size_t)i]) { addr[(size_t)i] = q.get(); owner[q.get()] = i; } }
    }
    event("crowd"); situation("crowd|" + str(n / 100));
}
static void m_parents(Rng& g, long idx) {
    if (idx % 400 == 7) { crowd(g); return; }
    struct Live { XSpec x; FieldPtr p; renf_elem_class* e; const renf_class* addr; };
    std::vector<Live> live; std::vector<std::unique_ptr<renf_elem_class>> holders;
    auto find = [&](const XSpec& x) -> Live* { for (auto& l : live) if (same_field(l.x, x)) return &l; return nullptr; };
    std::vector<XSpec> base; int nb = (int)g.range(1, 3); for (int i = 0; i < nb; i++) base.push_back(gen_xspec(g, 7, {16, 32, 64, 64, 64, 128}));
    for (int k = 0; k < 14; k++) {
        std::string how, how2; XSpec x = variation(g, g.pick(base), how);
        if (g.chance(1, 4) && !live.empty()) x = variation(g, g.pick(live).x, how);
        Live* l = find(x); step(how + ": " + x.desc() + (l ? " (alive)" : " (new)"));
        int c = (int)g.below(10);
        if (c < 6) {
            FieldPtr p = make_some_way(g, x, how2); event("make:" + how2 + ":" + how); situation("make|" + how2 + how + (l ? "live" : "new") + dclass(x.ref->deg) + x.kind);
            check_make(p, x, how2);
            evaluated();
            if (l && p.get() != l->addr) fail("unique-parent", "field made twice is not the same object: " + x.desc() + " and " + l->x.desc() + " (" + how2 + ")");
            for (auto& o : live) { bool s = same_field(o.x, x); evaluated(); if ((p.get() == o.addr) != s) fail("unique-parent", std::string(s ? "same" : "different") + " fields are " + (s ? "different" : "the same") + " objects: " + x.desc() + " and " + o.x.desc());
                if ((*p == *o.addr) != s || (*p != *o.addr) == s) fail("unique-parent", "operator== of fields is wrong: " + x.desc() + " and " + o.x.desc());
                if (s && std::hash<renf_class>()(*p) != std::hash<renf_class>()(*o.addr)) fail("hash", "equal fields have different hashes");
                if (renf_equal(p->renf_t(), o.addr->renf_t()) != (int)(fmpq_poly_equal(x.ref->pol.v, o.x.ref->pol.v) && (x.ref->deg == 1 || x.ref->index == o.x.ref->index))) fail("renf_equal", "renf_equal is wrong for " + x.desc() + " and " + o.x.desc()); }
            if (!l) { Live n{x, p, nullptr, p.get()}; if (g.chance(1, 3)) { holders.emplace_back(new renf_elem_class(g.chance(1, 2) ? p->gen() : renf_elem_class(*p, 3))); n.e = holders.back().get(); n.p.reset(); event("held-by-element"); } live.push_back(n); }
        } else if (c == 6 && !live.empty()) { // drop one
            size_t i = g.below(live.size()); if (live[i].e) for (auto& h : holders) if (h.get() == live[i].e) h.reset();
            live.erase(live.begin() + (long)i); holders.erase(std::remove(holders.begin(), holders.end(), nullptr), holders.end()); event("dropped");
        } else if (c == 7 && !live.empty()) { // more digits
            Live& o = live[g.below(live.size())]; const renf_class* a = o.addr; if (o.x.ref->deg > 1) { renf_refine_embedding(a->renf_t(), g.range(80, 600)); event("refined"); check_make(FieldPtr(a), o.x, "refined field"); }
        } else if (c == 8 && !live.empty()) { // reconstruct
            Live& o = live[g.below(live.size())]; auto t = o.addr->construction(); XSpec y = o.x; y.minpoly = std::get<0>(t); y.gen = std::get<1>(t); y.emb = std::get<2>(t); y.prec = std::get<3>(t);
            step("construction " + y.desc()); evaluated(); event("construction"); FieldPtr p;
            try { p = make(y); } catch (const std::invalid_argument&) { fail("construction", "construction() of " + o.x.desc() + " is rejected: " + y.desc()); }
            if (p.get() != o.addr) fail("construction", "construction() of " + o.x.desc() + " gives another field: " + y.desc());
            check_make(p, o.x, "construction()"); situation("construction|" + dclass(o.x.ref->deg) + o.x.kind + (o.e ? "e" : "p"));
            if (g.chance(1, 3)) { // also when nothing of it is left
                XSpec z = o.x; size_t i = (size_t)(&o - &live[0]); p.reset(); if (o.e) for (auto& h : holders) if (h.get() == o.e) h.reset(); live.erase(live.begin() + (long)i); holders.erase(std::remove(holders.begin(), holders.end(), nullptr), holders.end());
                FieldPtr r = make(y); check_make(r, z, "construction() after the field was gone"); event("construction-after-release");
            }
        } else { // not a field
            std::string mp = x.minpoly, em = x.emb; std::string kind; slong pr = x.prec;
            switch (g.below(5)) {
            case 0: kind = "bad polynomial"; mp += g.chance(1, 2) ? "+" : " ?"; break;
            case 1: kind = "bad ball"; em = g.pick(std::vector<std::string>{"", "one", "1 +/-", "1.4.1", "[1 +/- ", "1 +/- x"}); break;
            case 2: { kind = "no root"; const Arb& r = x.ref->roots.back(); Arf u; arf_add_ui(u.v, arb_midref(r.v), 1000, 64, ARF_RND_UP); arf_abs(u.v, u.v); arf_mul_2exp_si(u.v, u.v, 3); Arb t; arb_set_arf(t.v, u.v); em = take(arb_get_str(t.v, 30, 0)); break; }
            case 3: if (x.ref->nreal < 2) continue; { kind = "several roots"; Arb h; arb_union(h.v, x.ref->roots.front().v, x.ref->roots.back().v, 64); em = take(arb_get_str(h.v, 20, 0)); Arb r; if (arb_set_str(r.v, em.c_str(), pr)) continue; if (roots_in_ball(*x.ref, r.v) < 2) continue; } break;
            default: if (x.ref->deg < 2) continue; kind = "inexact point"; em = take(arb_get_str(x.ref->roots[(size_t)x.ref->index].v, 20, ARB_STR_NO_RADIUS)); { Arb r; if (arb_set_str(r.v, em.c_str(), pr)) continue; if (roots_in_ball(*x.ref, r.v) == 1) continue; } break;
            }
            step(kind + ": make(" + mp + ", " + x.gen + ", " + em + ")"); evaluated(); event("invalid:" + kind); situation("invalid|" + kind + dclass(x.ref->deg));
            bool thrown = false; try { renf_class::make(mp, x.gen, em, pr); } catch (const std::invalid_argument&) { thrown = true; }
            if (!thrown) fail("invalid-accepted", kind + " is accepted: make(\"" + mp + "\", \"" + x.gen + "\", \"" + em + "\")");
        }
        // whatever happened, the others are what they were
        if (!live.empty()) { Live& o = live[g.below(live.size())]; if (o.e && &o.e->parent() != o.addr) fail("parent", "parent of an element changed"); check_make(FieldPtr(o.addr), o.x, "an older field"); }
    }
    sample(live.empty() ? base[0].desc() : live[0].x.desc());
}

// ------------------------------------------------------------------ life
// histories of special member functions and containers
struct Slot { std::unique_ptr<renf_elem_class> x; bool moved = false; int f = 0; QP r; };
static void m_life(Rng& g, long idx) {
    quiet_cerr();
    if (idx % 64 == 5) { // repeated creation and destruction of fields must not accumulate memory
#ifdef VF_ASAN
        std::vector<XSpec> xs; for (int i = 0; i < 12; i++) xs.push_back(gen_xspec(g, 5));
        auto round = [&](int n) { for (int i = 0; i < n; i++) { XSpec& x = xs[(size_t)i % xs.size()]; FieldPtr p = make(x); renf_elem_class y = p->gen() * p->gen() + 1; renf_elem_class z = y; p.reset(); z = std::move(y); renf_elem_class w = z - 1; if (w.sgn() < -1) abort(); } };
        round(48); size_t a = __sanitizer_get_current_allocated_bytes(); round(480); size_t b = __sanitizer_get_current_allocated_bytes(); 
        evaluated(); event("growth-monitored"); step("growth " + str((long)(b - a)));
        if (b > a + 100000) fail("growth", "creating and destroying fields 480 times increases the allocated memory by " + str((long)(b - a)) + " bytes");
        return;
#endif
    }
    World W = gen_world(g, (int)g.range(1, 3), 5);
    std::vector<Slot> S(g.range(3, 6));
    std::vector<const renf_class*> addr; for (auto& p : W.ptr) addr.push_back(p.get());
    std::vector<bool> dropped(W.ptr.size(), false);
    // a field whose handle was dropped is made again on demand; elements still in it must then share it
    auto handle = [&](int w) {
        if (!dropped[(size_t)w]) return;
        W.ptr[(size_t)w] = make(W.spec[(size_t)w]); addr[(size_t)w] = W.ptr[(size_t)w].get(); dropped[(size_t)w] = false; event("field-made-again");
        for (auto& s : S) if (s.x && !s.moved && s.f == w) { evaluated(); event("field-found-again"); if (&s.x->parent() != addr[(size_t)w]) fail("unique-parent", "a field kept alive by an element is made a second time: " + W.spec[(size_t)w].desc()); }
    };
    auto fresh = [&](Slot& s) { int w = (int)g.below(W.spec.size()); handle(w); El e = gen_el(g, W, w); s.x.reset(new renf_elem_class(e.x)); s.f = e.f; s.r = e.r; s.moved = false; };
    for (auto& s : S) fresh(s);
    // the world keeps its reference model but forgets some handles, so that elements alone keep fields alive
    auto check_all = [&](const std::string& what) {
        for (size_t i = 0; i < S.size(); i++) if (S[i].x && !S[i].moved) {
            evaluated(); const renf_elem_class& x = *S[i].x;
            const RefField& f = W.ref(S[i].f);
            if (!fmpq_poly_equal(x.parent().renf_t()->nf->pol, f.pol.v) || x.parent().gen_name() != W.spec[(size_t)S[i].f].gen) fail("parent", what + ": element #" + str((long)i) + " is in the wrong field");
            if (!dropped[(size_t)S[i].f] && &x.parent() != addr[(size_t)S[i].f]) fail("parent", what + ": element #" + str((long)i) + " is not in the field it was in");
            QP got = read(x); if (!fmpq_poly_equal(got.v, S[i].r.v)) fail("wrong-value", what + ": element #" + str((long)i) + " is " + str(got) + " instead of " + str(S[i].r) + " in " + W.spec[(size_t)S[i].f].desc());
            if (!f.contained(x.renf_elem_t()->emb, S[i].r)) fail("enclosure", what + ": element #" + str((long)i) + " has a wrong enclosure");
        }
    };
    auto pick = [&](bool alive) -> long { std::vector<long> c; for (size_t i = 0; i < S.size(); i++) if (S[i].x && (!alive || !S[i].moved)) c.push_back((long)i); return c.empty() ? -1 : c[g.below(c.size())]; };
    for (int k = 0; k < 30; k++) {
        long i = pick(true), j = pick(false), d = (long)g.below(S.size()); std::string what;
        if (i < 0) { fresh(S[(size_t)d]); continue; }
        Slot &A = S[(size_t)i], &D = S[(size_t)d];
        switch (g.below(20)) {
        case 0: { what = "copy construction"; auto n = std::make_unique<renf_elem_class>(*A.x); int f = A.f; QP r = A.r; D.x = std::move(n); D.f = f; D.r = r; D.moved = false; break; }
        case 1: { what = "move construction"; if (d == i) break; auto n = std::make_unique<renf_elem_class>(std::move(*A.x)); A.moved = true; D.x = std::move(n); D.f = A.f; D.r = A.r; D.moved = false; break; }
        case 2: case 3: { if (j < 0) break; Slot& B = S[(size_t)j]; what = B.moved ? "copy assignment to a moved-from element" : i == j ? "self assignment" : "copy assignment"; renf_elem_class& ret = (*B.x = *A.x); if (&ret != B.x.get()) fail("assign", "assignment returns something else"); B.f = A.f; B.r = A.r; B.moved = false; break; }
        case 4: case 5: { if (j < 0) break; Slot& B = S[(size_t)j]; what = B.moved ? "move assignment to a moved-from element" : i == j ? "self move" : "move assignment"; 
            if (i == j) { renf_elem_class& self = *B.x; *B.x = std::move(self); B.moved = true; B.x = std::make_unique<renf_elem_class>(1); B.f = 0; fmpq_poly_one(B.r.v); B.moved = false; }
            else { *B.x = std::move(*A.x); B.f = A.f; B.r = A.r; B.moved = false; A.moved = true; } break; }
        case 6: { if (j < 0) break; Slot& B = S[(size_t)j]; what = "swap"; if (g.chance(1, 2)) swap(*A.x, *B.x); else std::swap(*A.x, *B.x); if (i != j) { std::swap(A.f, B.f); std::swap(A.r, B.r); std::swap(A.moved, B.moved); } break; }
        case 7: { if (j < 0) break; Slot& B = S[(size_t)j]; what = "scalar assignment"; Q q = rnd_q(g); mpq_class m = to_mpq(q); long n = g.range(-9, 9);
            switch (g.below(4)) { case 0: *B.x = m; break; case 1: *B.x = (int)n; q = q_si(n); break; case 2: *B.x = mpz_class(n); q = q_si(n); break; default: *B.x = (unsigned long)labs(n); q = q_si(labs(n)); } B.f = 0; B.r = q_poly(q); B.moved = false; break; }
        case 8: { if (j < 0) break; what = "destruction"; S[(size_t)j].x.reset(); fresh(D.x ? S[(size_t)j] : D); if (!S[(size_t)j].x) fresh(S[(size_t)j]); break; }
        case 9: { what = "dropping a handle"; size_t w = g.below(W.ptr.size()); if (w && !dropped[w]) { bool used = false; for (auto& s : S) if (s.x && !s.moved && (size_t)s.f == w) used = true; W.ptr[w].reset(); dropped[w] = true; event(used ? "field-kept-by-elements" : "field-released"); } break; }
        case 10: { what = "arithmetic"; long b = pick(true); Slot& B = S[(size_t)b]; if (A.f != B.f) break; QP t; fmpq_poly_add(t.v, A.r.v, B.r.v); if (g.chance(1, 2)) { *A.x += *B.x; } else { *A.x = *A.x + *B.x; } A.r = t; break; }
        case 11: { what = "query"; A.x->floor(); A.x->sgn(); (void)static_cast<double>(*A.x); A.x->to_string(); break; }
        case 12: { // vector with reallocation, erasure, insertion
            what = "vector"; std::vector<renf_elem_class> v; std::vector<std::pair<int, QP>> m; int n = (int)g.range(1, 9);
            for (int q = 0; q < n; q++) { long b = pick(true); v.push_back(*S[(size_t)b].x); m.push_back({S[(size_t)b].f, S[(size_t)b].r}); if (g.chance(1, 4)) { size_t e = g.below(v.size()); v.erase(v.begin() + (long)e); m.erase(m.begin() + (long)e); } if (g.chance(1, 3)) { size_t e = g.below(v.size() + 1); v.insert(v.begin() + (long)e, *A.x); m.insert(m.begin() + (long)e, {A.f, A.r}); } if (g.chance(1, 3)) { size_t e = g.below(v.size() + 1); v.emplace(v.begin() + (long)e, 7); QP s7; fmpq_poly_set_si(s7.v, 7); m.insert(m.begin() + (long)e, {0, s7}); } }
            if (g.chance(1, 3)) { std::reverse(v.begin(), v.end()); std::reverse(m.begin(), m.end()); }
            if (g.chance(1, 3)) { size_t e = g.below(v.size() + 1); std::rotate(v.begin(), v.begin() + (long)e, v.end()); std::rotate(m.begin(), m.begin() + (long)e, m.end()); }
            if (g.chance(1, 3)) { v.resize(v.size() + 2); QP z; m.push_back({0, z}); m.push_back({0, z}); }
            std::vector<renf_elem_class> v2 = v; v = v2; v2 = std::move(v);
            for (size_t q = 0; q < v2.size(); q++) { evaluated(); QP got = read(v2[q]); if (!fmpq_poly_equal(got.v, m[q].second.v) || v2[q].parent().gen_name() != W.spec[(size_t)m[q].first].gen) fail("container", "element " + str((long)q) + " of a vector is " + str(got) + " instead of " + str(m[q].second)); }
            event("vector-elements", (long)v2.size()); break; }
        case 13: { // sorting in one field
            what = "sort"; std::vector<renf_elem_class> v; std::vector<QP> m; for (auto& s : S) if (s.x && !s.moved && s.f == A.f) { v.push_back(*s.x); m.push_back(s.r); }
            int ex = (int)g.range(0, 12); for (int q = 0; q < ex; q++) { std::string c; QP r = gen_elem(g, W.ref(A.f), &c, 40); v.push_back(build(A.x->parent(), r)); m.push_back(r); }
            const RefField& f = W.ref(A.f); std::sort(v.begin(), v.end()); std::sort(m.begin(), m.end(), [&](const QP& x, const QP& y) { return f.cmp(x, y) < 0; });
            for (size_t q = 0; q < v.size(); q++) { evaluated(); if (!fmpq_poly_equal(read(v[q]).v, m[q].v)) fail("sort", "sorting gives the wrong order in " + W.spec[(size_t)A.f].desc()); }
            auto u = v; u.erase(std::unique(u.begin(), u.end()), u.end()); std::map<renf_elem_class, int> mp; for (auto& y : v) mp[y]++; if (mp.size() != u.size()) fail("sort", "map and unique disagree"); event("sorted"); break; }
        case 14: { // exceptions while constructing
            what = "throwing constructors"; int n = 0; const renf_class& K = A.x->parent();
            try { renf_elem_class y(K, "?"); } catch (const std::invalid_argument&) { n++; }
            try { renf_elem_class y(K, K.gen_name() + " + "); } catch (const std::invalid_argument&) { n++; }
            evaluated(); if (n != 2) fail("exception", "malformed strings are accepted"); event("throwing-ctor");
            for (auto& s : S) if (s.x && !s.moved && s.f != A.f && !RefField::is_rational(s.r)) { bool t = false; try { renf_elem_class y(K, *s.x); } catch (const std::logic_error&) { t = true; } if (!t) fail("exception", "impossible coercion accepted"); event("throwing-coercion"); }
            break; }
        case 15: { what = "temporary field"; XSpec x = gen_xspec(g, 4); { FieldPtr p = make(x); renf_elem_class y = p->gen(); renf_elem_class z(*p, 5); p.reset(); y = z; QP s5; fmpq_poly_set_si(s5.v, 5); if (!fmpq_poly_equal(read(y).v, s5.v)) fail("wrong-value", "element of a temporary field"); if (g.chance(1, 2)) y = 3; else y = *A.x; } break; }
        case 16: { what = "pass by value and return"; auto f = [](renf_elem_class y) { y += 1; y -= 1; return y; }; *A.x = f(*A.x); if (g.chance(1, 2)) *A.x = f(std::move(*A.x)); break; }
        case 17: { if (j < 0) break; Slot& B = S[(size_t)j]; what = "moved-from element overwritten from a field constant"; const renf_class& K = A.x->parent(); FieldPtr keep(&K); *B.x = g.chance(1, 2) ? K.gen() : K.one(); int f = A.f; QP r; if (fmpq_poly_equal(read(*B.x).v, W.ref(f).gen().v)) r = W.ref(f).gen(); else fmpq_poly_one(r.v); B.f = f; B.r = r; B.moved = false; break; }
        case 18: { what = "list/deque/hash containers"; std::list<renf_elem_class> l; std::deque<renf_elem_class> dq; for (int q = 0; q < 5; q++) { l.push_front(*A.x); dq.push_back(*A.x); dq.push_front(renf_elem_class(q)); } l.reverse(); dq.pop_front(); for (auto& y : l) if (!fmpq_poly_equal(read(y).v, A.r.v)) fail("container", "list element changed"); break; }
        default: { what = "new"; fresh(D); break; }
        }
        if (what.empty()) continue;
        step(what + " i=" + str(i) + " j=" + str(j) + " d=" + str(d)); event("life:" + what);
        std::string sh; for (auto& s : S) sh += !s.x ? "-" : s.moved ? "m" : s.f == 0 ? "q" : dropped[(size_t)s.f] ? "d" : "k";
        situation("life|" + what + "|" + sh);
        check_all(what);
    }
    std::shuffle(S.begin(), S.end(), std::minstd_rand((unsigned)g.next()));
    for (auto& p : W.ptr) if (g.chance(1, 2)) p.reset();
    sample("histories over " + W.desc());
}

// ------------------------------------------------------------------ hash
static void m_hash(Rng& g, long) {
    quiet_cerr();
    World W = gen_world(g, (int)g.range(1, 3), 6); std::hash<renf_elem_class> H;
    std::unordered_set<renf_elem_class> set; std::vector<El> in;
    // hash of elements of different fields may be compared as long as they are rational
    for (int k = 0; k < 10; k++) {
        El e = gen_el(g, W); const RefField& f = W.ref(e.f);
        step("hash of " + str(e.r) + " in " + W.spec[(size_t)e.f].desc());
        size_t h = H(e.x); std::vector<std::pair<std::string, renf_elem_class>> eq;
        auto add = [&](const std::string& n, const renf_elem_class& y) { eq.push_back({n, y}); };
        add("copy", e.x);
        { renf_elem_class y = e.x; Q t = rnd_q(g); mpq_class m = to_mpq(t); y += m; y -= m; add("add-subtract", y); }
        { renf_elem_class y = e.x; Q t = rnd_q(g); if (!fmpq_is_zero(t.v)) { mpq_class m = to_mpq(t); y *= m; y /= m; add("multiply-divide", y); } }
        { El o = gen_el(g, W, e.f); renf_elem_class y = o.x; y -= o.x; y += e.x; add("cancellation", y); if (!o.x.is_zero()) { renf_elem_class z = e.x * o.x; z /= o.x; add("multiply-divide-element", z); } }
        { renf_elem_class y = e.x; renf_elem_set_evaluation(y.renf_elem_t(), e.x.parent().renf_t(), g.range(4, 300)); add("other-accuracy", y); }
        { std::string s = e.x.to_string(EANTIC_STR_ALG); add("string", renf_elem_class(W.field(e.f), s)); }
        add("negated twice", -(-e.x));
        if (RefField::is_rational(e.r)) for (size_t w = 0; w < W.spec.size(); w++) { renf_elem_class y(W.field((int)w), e.x); add("rational in another field", y); }
        { renf_elem_class y = e.x; y.floor(); y.sgn(); (void)static_cast<double>(y); add("after queries", y); }
        if (f.deg > 1 && g.chance(1, 3)) { renf_refine_embedding(W.field(e.f).renf_t(), g.range(100, 400)); event("refined"); add("after refinement", e.x); }
        for (auto& q : eq) { evaluated(2); event("hash:" + q.first); if (!(q.second == e.x)) fail("equality", "equal elements differ (" + q.first + "): " + str(e.r)); if (H(q.second) != h) fail("hash", "equal elements have different hashes (" + q.first + "): " + str(e.r) + " in " + W.spec[(size_t)e.f].desc()); situation("hash|" + q.first + dclass(f.deg) + f.kind + vclass(e.r)); }
        evaluated(); if (H(e.x) != h) fail("hash", "the hash of an element changes: " + str(e.r));
        { // hash sets find every equal element (one field and rationals)
            std::unordered_map<renf_elem_class, int> m; const El& a = e; m[a.x] = 1; for (auto& q : eq) { evaluated(); auto it = m.find(q.second); if (it == m.end()) fail("hash", "an equal element is not found in a hash map (" + q.first + ")"); m[q.second]++; } if (m.size() != 1) fail("hash", "equal elements are kept apart in a hash map"); event("hash-map"); }
    }
    { // fields
        std::unordered_set<const renf_class*> seen; for (size_t w = 0; w < W.ptr.size(); w++) { evaluated(); FieldPtr p = w ? make(W.spec[w]) : FieldPtr(&renf_class::make()); if (std::hash<renf_class>()(*p) != std::hash<renf_class>()(W.field((int)w))) fail("hash", "equal fields with different hashes"); event("hash:field"); }
    }
    // distinct values spread: not all equal (a constant hash is legal but useless: not judged)
    sample(W.desc());
}

// ------------------------------------------------------------------ text
static void m_text(Rng& g, long) {
    quiet_cerr();
    World W = gen_world(g, (int)g.range(1, 2), 6);
    for (int k = 0; k < 6; k++) {
        El e = gen_el(g, W); const RefField& f = W.ref(e.f); const renf_class& K = W.field(e.f); bool in = RefField::is_rational(e.r) && fmpz_is_one(fmpq_poly_denref(e.r.v));
        step("text of " + str(e.r) + " in " + W.spec[(size_t)e.f].desc());
        std::string alg = e.x.to_string(EANTIC_STR_ALG); event("to_string");
        check_elem(W, renf_elem_class(K, alg), e.f, e.r, "reading '" + alg + "'");
        std::string full = e.x.to_string(), st = static_cast<std::string>(e.x); evaluated(2);
        if (full != st) fail("to_string", "string conversion and to_string disagree");
        if (full.size() < 2 || full.front() != '(' || full.back() != ')') fail("to_string", "'" + full + "' is not in parentheses");
        std::string inner = full.substr(1, full.size() - 2); size_t at = inner.find(" ~ ");
        if (at == std::string::npos || inner.substr(0, at) != alg) fail("to_string", "'" + full + "' does not start with '" + alg + "'");
        double d = strtod(inner.c_str() + at + 3, nullptr), want; evaluated();
        if (ref_double(f, e.r, ARF_RND_NEAR, want) && std::isfinite(want) && std::fabs(want) > 1e-300 && !(std::fabs(d - want) <= 2e-7 * std::fabs(want))) fail("to_string", "the approximation in '" + full + "' is not close to the value");
        check_elem(W, renf_elem_class(K, inner), e.f, e.r, "reading '" + inner + "'");
        { std::string arb = e.x.to_string(EANTIC_STR_ARB); Arb b; evaluated(); event("arb-string"); if (arb_set_str(b.v, arb.c_str(), 400) || !f.contained(b.v, e.r)) fail("to_string", "the ball '" + arb + "' does not contain " + str(e.r)); }
        std::ostringstream os; os << e.x; std::string out = os.str(); evaluated(); event("ostream");
        if (out != (in ? alg : full)) fail("ostream", "operator<< writes '" + out + "'");
        { // the same with the enclosure as approximation
            std::string t = e.x.to_string(EANTIC_STR_ALG | EANTIC_STR_ARB), sep = g.chance(1, 2) ? "" : " 5"; std::istringstream is(t + sep); K.set_pword(is); renf_elem_class y; step("stream '" + t + sep + "'"); event("istream-ball");
            try { is >> y; } catch (const std::exception& ex) { fail("istream", "reading '" + t + sep + "' throws " + ex.what()); }
            check_elem(W, y, e.f, e.r, "the stream '" + t + sep + "'");
            std::string ds = e.x.to_string(EANTIC_STR_D); evaluated(); if (ds != inner.substr(at + 3)) fail("to_string", "the double is written as '" + ds + "' alone and in '" + full + "' with the polynomial"); }
        // several elements in one stream
        std::ostringstream many; std::vector<QP> vals; int n = (int)g.range(1, 4); for (int q = 0; q < n; q++) { El o = gen_el(g, W, e.f); vals.push_back(o.r); many << o.x; if (q + 1 < n) many << (g.chance(1, 2) ? " " : "\n"); }
        std::istringstream is(many.str()); if (g.chance(1, 2)) K.set_pword(is); else K.set_istream(is); step("stream '" + many.str() + "'");
        if (!(renf_class::get_pword(is) == FieldPtr(&K))) fail("istream", "get_pword returns another field");
        for (int q = 0; q < n; q++) { renf_elem_class y = g.chance(1, 2) ? renf_elem_class() : e.x; if (q) is.get(); 
            try { is >> y; } catch (const std::exception& ex) { fail("istream", "reading '" + many.str() + "' throws " + ex.what()); }
            check_elem(W, y, e.f, vals[(size_t)q], "element " + str((long)q) + " of the stream '" + many.str() + "'"); event("istream"); }
        situation("text|" + dclass(f.deg) + f.kind + vclass(e.r) + W.spec[(size_t)e.f].gen);
        static const std::vector<std::string> bad = {"?", "V+", "V^", "1/0", "V V", "(V)", "2**V", "V^-1", "~", "", " ", "V+~1.0", "Y"};
        std::string s; for (char c : bad[g.below(bad.size())]) if (c == 'V') s += K.gen_name(); else if (c == 'Y') s += K.gen_name() == "y" ? "z" : "y"; else s += c;
        bool blank = s.find_first_not_of(" ~") == std::string::npos;
        step("malformed '" + s + "'"); bool thrown = false; try { renf_elem_class y(K, s); } catch (const std::invalid_argument&) { thrown = true; } evaluated(); event("malformed");
        if (!thrown && !blank) fail("text-invalid", "accepts the malformed string '" + s + "'");
        { // elements written by hand: parentheses without an approximation, or no blanks at all
            std::string tight; for (char c : alg) if (c != ' ') tight += c;
            std::string t = g.chance(1, 2) ? "(" + (g.chance(1, 2) ? alg : tight) + ")" : tight, rest = g.chance(1, 2) ? "" : g.chance(1, 2) ? " 7" : "\n(1)";
            std::istringstream is2(t + rest); K.set_pword(is2); renf_elem_class y; step("stream '" + t + rest + "'");
            try { is2 >> y; } catch (const std::exception& ex) { fail("istream", "reading '" + t + rest + "' throws " + ex.what()); }
            check_elem(W, y, e.f, e.r, "the stream '" + t + rest + "'"); evaluated(); event("istream-hand");
            std::string left((std::istreambuf_iterator<char>(is2)), std::istreambuf_iterator<char>()); if (is2.rdbuf() && left != rest) fail("istream", "after reading from '" + t + rest + "' the stream goes on with '" + left + "'"); }
        { // malformed streams
            std::string t; switch (g.below(4)) { case 0: t = full.substr(0, full.size() - 1); break; case 1: t = "(" + alg; break; case 2: t = blank ? "(?)" : "(" + s + ")"; break; default: t = "("; break; }
            if (t != "((" + K.gen_name() + "))") {
                std::istringstream is2(t); K.set_pword(is2); renf_elem_class y; bool th = false; step("malformed stream '" + t + "'");
                try { is2 >> y; } catch (const std::invalid_argument&) { th = true; } evaluated(); event("malformed-stream");
                if (!th && !(s == "V V" || s.find(' ') != std::string::npos)) fail("text-invalid", "accepts the malformed stream '" + t + "'"); } }
        { std::string ks = K.to_string(); std::ostringstream o; o << K; evaluated(); event("field-text"); if (o.str() != ks) fail("ostream", "operator<< of a field differs from to_string"); std::string pre = "NumberField(" + (e.f ? take(fmpq_poly_get_str_pretty(f.pol.v, K.gen_name().c_str())) : std::string("a-1")) + ", "; if (ks.compare(0, pre.size(), pre)) fail("to_string", "field is printed as " + ks); }
    }
    sample(W.desc());
}

int main(int argc, char** argv) {
    return vf::run(argc, argv, {{"ops", m_ops}, {"parents", m_parents}, {"life", m_life}, {"hash", m_hash}, {"text", m_text}});
}
