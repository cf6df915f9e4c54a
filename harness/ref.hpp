// Independent reference model: exact arithmetic with polynomials modulo the
// defining polynomial and certified real root enclosures (Sturm isolation, exact
// signs at dyadic points); no code of e-antic is used here.
#pragma once
#include "vf.hpp"
#include <memory>

namespace vf {

// Certified real roots of an irreducible integer polynomial of degree >= 2:
// Sturm's theorem for isolation, exact signs at dyadic points for refinement.
struct DyadicRoot { Z a; slong e = 0; };   // the root lies strictly between a 2^-e and (a + 1) 2^-e
struct RootFinder {
    ZP p, dp; std::vector<ZP> sturm;
    static int sgn_dyadic(const ZP& q, const Z& a, slong e) {   // sign of q(a 2^-e)
        slong d = fmpz_poly_degree(q.v); if (d < 0) return 0;
        Z r, t;
        if (e >= 0) {
            fmpz_set(r.v, q.v->coeffs + d);
            for (slong i = d - 1; i >= 0; i--) { fmpz_mul(r.v, r.v, a.v); fmpz_mul_2exp(t.v, q.v->coeffs + i, (ulong)(e * (d - i))); fmpz_add(r.v, r.v, t.v); }
        } else { Z x; fmpz_mul_2exp(x.v, a.v, (ulong)-e); fmpz_poly_evaluate_fmpz(r.v, q.v, x.v); }
        return fmpz_sgn(r.v);
    }
    long var(const Z& a, slong e) const {
        long n = 0; int last = 0;
        for (auto& q : sturm) { int s = sgn_dyadic(q, a, e); if (s) { if (last && s != last) n++; last = s; } }
        return n;
    }
    void init(const ZP& q) {
        p = q; fmpz_poly_derivative(dp.v, p.v); sturm.clear();
        ZP a = p, b = dp; fmpz_poly_primitive_part(b.v, b.v); if (fmpz_sgn(dp.v->coeffs + fmpz_poly_degree(dp.v)) < 0) fmpz_poly_neg(b.v, b.v);
        sturm.push_back(a); sturm.push_back(b);
        while (fmpz_poly_degree(b.v) > 0) {
            ZP r; ulong d; fmpz_poly_pseudo_rem(r.v, &d, a.v, b.v);
            if (fmpz_poly_is_zero(r.v)) harness_error("reference: polynomial is not squarefree");
            // lc(b)^d a = q b + r
            int s = (d & 1) ? fmpz_sgn(b.v->coeffs + fmpz_poly_degree(b.v)) : 1;
            Z c; fmpz_poly_content(c.v, r.v); fmpz_poly_scalar_divexact_fmpz(r.v, r.v, c.v);
            if (s > 0) fmpz_poly_neg(r.v, r.v);
            sturm.push_back(r); a = b; b = r;
        }
    }
    // all real roots, ascending
    std::vector<DyadicRoot> isolate() const {
        slong d = fmpz_poly_degree(p.v), k = 0;
        for (slong i = 0; i < d; i++) if (!fmpz_is_zero(p.v->coeffs + i)) {
            // |a_i / a_d|^(1/(d-i)) < 2^((bits(a_i) - bits(a_d) + 1) / (d - i))
            slong b = (slong)fmpz_bits(p.v->coeffs + i) - (slong)fmpz_bits(p.v->coeffs + d) + 1, m = d - i;
            slong c = b > 0 ? (b + m - 1) / m : -((-b) / m);
            if (i == 0 || c > k) k = (i == 0) ? c : std::max(k, c);
        }
        k += 2;
        std::vector<DyadicRoot> out;
        DyadicRoot neg, pos; neg.a = z_si(-1); neg.e = -k; pos.e = -k;
        Z one = z_si(1), zero, mone = z_si(-1);
        split(neg, var(mone, -k), var(zero, 0), out);
        split(pos, var(zero, 0), var(one, -k), out);
        return out;
    }
    void split(const DyadicRoot& r, long vl, long vr, std::vector<DyadicRoot>& out) const {
        DyadicRoot c = r;
        for (;;) {
            if (vl == vr) return;
            // a single root with known sign of its position
            if (vl - vr == 1) { out.push_back(c); return; }
            DyadicRoot L, R; L.e = R.e = c.e + 1; fmpz_mul_2exp(L.a.v, c.a.v, 1); fmpz_add_ui(R.a.v, L.a.v, 1);
            long vm = var(R.a, R.e);
            if (vm == vl) { c = R; continue; }
            if (vm == vr) { c = L; continue; }
            split(L, vl, vm, out); c = R; vl = vm;
        }
    }
    void bisect(DyadicRoot& r, int sl) const {
        DyadicRoot m; m.e = r.e + 1; fmpz_mul_2exp(r.a.v, r.a.v, 1); fmpz_add_ui(m.a.v, r.a.v, 1); r.e++;
        if (sgn_dyadic(p, m.a, m.e) == sl) r.a = m.a;
    }
    // at least `prec` bits of relative accuracy
    void refine(DyadicRoot& r, slong prec) const {
        int sl = 0;
        for (slong step = 4;;) {
            Z hi; fmpz_add_ui(hi.v, r.a.v, 1);
            bool zero = fmpz_is_zero(r.a.v) || fmpz_is_zero(hi.v);
            if (!zero && (slong)fmpz_bits(r.a.v) > prec && (slong)fmpz_bits(hi.v) > prec) return;
            if (!sl) sl = sgn_dyadic(p, r.a, r.e), sl = sl ? sl : -sgn_dyadic(p, hi, r.e);
            if (!sl) harness_error("reference: endpoint signs");
            // try `step` more bits at once by a secant-free Newton guess, verified by signs
            DyadicRoot t; t.e = r.e + step;
            slong wp = (slong)fmpz_bits(r.a.v) + step + 40;
            Arb m, f, g; arb_set_fmpz(m.v, r.a.v); arb_mul_2exp_si(m.v, m.v, 1); arb_add_ui(m.v, m.v, 1, ARF_PREC_EXACT); arb_mul_2exp_si(m.v, m.v, -r.e - 1);
            bool ok = false;
            eval(f, p, m, wp + 64 + 2 * (slong)labs((long)r.e)); eval(g, dp, m, wp + 64 + 2 * (slong)labs((long)r.e));
            if (!arb_contains_zero(g.v) && arb_is_finite(f.v)) {
                arb_div(f.v, f.v, g.v, wp); arb_sub(m.v, m.v, f.v, wp + (slong)labs((long)r.e)); arb_mul_2exp_si(m.v, m.v, t.e);
                if (arb_is_finite(m.v) && arf_cmpabs_2exp_si(arb_midref(m.v), wp + 400) < 0) {
                    arf_get_fmpz(t.a.v, arb_midref(m.v), ARF_RND_FLOOR);
                    Z lo, up; fmpz_mul_2exp(lo.v, r.a.v, (ulong)step); fmpz_mul_2exp(up.v, hi.v, (ulong)step);
                    for (int k = 0; k < 3 && !ok; k++) {
                        Z c; fmpz_add_si(c.v, t.a.v, k == 0 ? 0 : k == 1 ? -1 : 1); Z c1; fmpz_add_ui(c1.v, c.v, 1);
                        if (fmpz_cmp(c.v, lo.v) < 0 || fmpz_cmp(c1.v, up.v) > 0) continue;
                        int s0 = fmpz_equal(c.v, lo.v) ? sl : sgn_dyadic(p, c, t.e), s1 = fmpz_equal(c1.v, up.v) ? -sl : sgn_dyadic(p, c1, t.e);
                        if (s0 == sl && s1 == -sl) { r.a = c; r.e = t.e; ok = true; }
                    }
                }
            }
            if (ok) step *= 2; else { bisect(r, sl); step = step > 4 ? step / 2 : 4; }
            sl = 0;
        }
    }
    static void eval(Arb& res, const ZP& q, const Arb& x, slong prec) {
        arb_zero(res.v);
        for (slong i = fmpz_poly_degree(q.v); i >= 0; i--) { arb_mul(res.v, res.v, x.v, prec); arb_add_fmpz(res.v, res.v, q.v->coeffs + i, prec); }
    }
};

struct RefField {
    QP pol;       // defining polynomial as handed to the library
    ZP zpol;      // primitive integer polynomial with the same roots
    long deg = 0;
    long index = 0;             // which real root (ascending)
    long nreal = 0;
    Q lin;                      // the root when deg == 1
    std::string kind;
    mutable slong cached = 0;
    mutable std::vector<Arb> roots;   // all real roots
    RootFinder finder; mutable std::vector<DyadicRoot> dyadic;

    void init(const QP& p) {
        pol = p;
        deg = fmpq_poly_degree(p.v);
        fmpq_poly_get_numerator(zpol.v, p.v);
        fmpz_poly_primitive_part(zpol.v, zpol.v);
        cached = 0;
        if (deg == 1) {
            fmpq_set_fmpz_frac(lin.v, zpol.v->coeffs, zpol.v->coeffs + 1);
            fmpq_neg(lin.v, lin.v);
        } else { finder.init(zpol); dyadic = finder.isolate(); }
        ensure(64);
        nreal = (long)roots.size();
    }
    void ensure(slong prec) const {
        if (prec <= cached) return;
        slong p = cached ? cached : 64;
        while (p < prec) p *= 2;
        roots.clear();
        if (deg == 1) {
            Arb a; arb_set_fmpq(a.v, lin.v, p + 64); roots.push_back(a);
        } else {
            for (auto& r : dyadic) {
                finder.refine(r, p + 32);
                Arb a; arb_set_fmpz(a.v, r.a.v); arb_mul_2exp_si(a.v, a.v, 1); arb_add_ui(a.v, a.v, 1, ARF_PREC_EXACT); mag_one(arb_radref(a.v)); arb_mul_2exp_si(a.v, a.v, -r.e - 1);
                roots.push_back(a);
            }
            for (size_t i = 0; i + 1 < roots.size(); i++)
                if (arb_gt(roots[i].v, roots[i + 1].v)) harness_error("reference roots not sorted");
        }
        cached = p;
    }
    const Arb& root(slong prec) const { ensure(prec); return roots[(size_t)index]; }

    QP reduce(const QP& p) const {
        QP r;
        if (fmpq_poly_degree(p.v) >= deg) fmpq_poly_rem(r.v, p.v, pol.v); else r = p;
        return r;
    }
    QP gen() const { QP r; fmpq_poly_set_coeff_si(r.v, 1, 1); return reduce(r); }
    QP mul(const QP& a, const QP& b) const { QP r; fmpq_poly_mul(r.v, a.v, b.v); return reduce(r); }
    QP inv(const QP& a) const {
        QP g, s, t;
        fmpq_poly_xgcd(g.v, s.v, t.v, a.v, pol.v);
        if (fmpq_poly_degree(g.v) != 0) harness_error("reference inverse of a non-unit");
        return reduce(s);   // xgcd returns monic gcd = 1
    }
    QP pow(const QP& a, unsigned long e) const {
        QP r, b = a; fmpq_poly_one(r.v);
        r = reduce(r);
        while (e) { if (e & 1) r = mul(r, b); e >>= 1; if (e) b = mul(b, b); }
        return r;
    }
    // enclosure of the value with at least `bits` relative accuracy (value non-zero or exact)
    Arb value(const QP& p, slong bits) const {
        Arb r;
        if (fmpq_poly_length(p.v) <= 1) {
            Q q; fmpq_poly_get_coeff_fmpq(q.v, p.v, 0);
            arb_set_fmpq(r.v, q.v, bits + 16);
            return r;
        }
        for (slong wp = bits + 64;; wp *= 2) {
            const Arb& x = root(wp);
            arb_zero(r.v);
            for (slong i = fmpq_poly_length(p.v) - 1; i >= 0; i--) {
                arb_mul(r.v, r.v, x.v, wp);
                arb_add_fmpz(r.v, r.v, p.v->coeffs + i, wp);
            }
            arb_div_fmpz(r.v, r.v, p.v->den, wp);
            if (arb_rel_accuracy_bits(r.v) >= bits) return r;
            if (wp > 4000000) harness_error("reference value does not converge");
        }
    }
    static bool is_rational(const QP& p) { return fmpq_poly_length(p.v) <= 1; }
    static Q rational(const QP& p) { Q q; fmpq_poly_get_coeff_fmpq(q.v, p.v, 0); return q; }
    int sgn(const QP& p) const {
        if (fmpq_poly_is_zero(p.v)) return 0;
        if (is_rational(p)) return fmpq_sgn(rational(p).v);
        return arf_sgn(arb_midref(value(p, 8).v));
    }
    int cmp(const QP& a, const QP& b) const { QP d; fmpq_poly_sub(d.v, a.v, b.v); return sgn(d); }
    int cmp_q(const QP& a, const Q& b) const { QP d; fmpq_poly_set_fmpq(d.v, b.v); fmpq_poly_sub(d.v, a.v, d.v); return sgn(d); }
    Z floor(const QP& p) const {
        Z r;
        if (is_rational(p)) { Q q = rational(p); fmpz_fdiv_q(r.v, fmpq_numref(q.v), fmpq_denref(q.v)); return r; }
        for (slong b = 64;; b *= 2) {
            Arb v = value(p, b), f; arb_floor(f.v, v.v, ARF_PREC_EXACT);
            if (arb_get_unique_fmpz(r.v, f.v)) return r;
            if (b > 2000000) harness_error("reference floor does not converge");
        }
    }
    Z ceil(const QP& p) const {
        QP n; fmpq_poly_neg(n.v, p.v); Z r = floor(n); fmpz_neg(r.v, r.v); return r;
    }
    // does the ball contain the exact value?
    bool contained(const arb_t ball, const QP& p) const {
        if (is_rational(p)) return arb_contains_fmpq(ball, rational(p).v);
        if (!arb_is_finite(ball)) {
            if (arf_is_nan(arb_midref(ball))) return true;      // NaN +/- anything: no information
            return mag_is_inf(arb_radref(ball));
        }
        for (slong b = 64;; b *= 2) {
            Arb v = value(p, b);
            if (arb_contains(ball, v.v)) return true;
            if (!arb_overlaps(ball, v.v)) return false;
            if (b > 2000000) harness_error("reference containment does not converge");
        }
    }
};

inline bool irreducible(const ZP& p) {
    if (fmpz_poly_degree(p.v) < 1) return false;
    fmpz_poly_factor_t f; fmpz_poly_factor_init(f); fmpz_poly_factor(f, p.v);
    bool r = f->num == 1 && f->exp[0] == 1;
    fmpz_poly_factor_clear(f);
    return r;
}

// substitute x -> x * 2^k (k may be negative), clearing denominators
inline ZP scale2(const ZP& p, long k) {
    ZP r = p; long d = fmpz_poly_degree(p.v);
    for (long i = 0; i <= d; i++) fmpz_mul_2exp(r.v->coeffs + i, r.v->coeffs + i, (ulong)(k >= 0 ? k * i : -k * (d - i)));
    return r;
}

inline bool nr_real(const ZP& p) { if (fmpz_poly_degree(p.v) == 1) return true; RootFinder f; f.init(p); return !f.isolate().empty(); }

// a random defining polynomial; `kind` names the class it was drawn from
inline ZP gen_minpoly(Rng& g, std::string& kind, long maxdeg = 8) {
    const bool high = maxdeg >= 6 && g.chance(1, 40);   // now and then a degree far beyond the usual ones
    for (;;) {
        ZP p; int c = high ? 16 : (int)g.below(16);
        auto setc = [&](long i, const Z& z) { fmpz_poly_set_coeff_fmpz(p.v, i, z.v); };
        switch (c) {
        case 0: {
            kind = "linear";
            Z a = g.chance(1, 6) ? z_si(0) : rnd_z(g, 150), b = g.chance(1, 3) ? z_si(1) : rnd_z(g, 100);
            if (fmpz_is_zero(b.v)) continue;
            setc(0, a); setc(1, b); break; }
        case 1: case 2: case 3: {
            kind = "quadratic";
            int bits = g.chance(1, 4) ? 90 : 8;
            Z a = rnd_bits(g, bits), b = rnd_bits(g, bits), d = g.chance(1, 2) ? z_si(1) : rnd_bits(g, bits);
            if (fmpz_is_zero(d.v)) continue;
            if (g.chance(1, 2)) fmpz_neg(a.v, a.v);
            if (g.chance(1, 2)) fmpz_neg(b.v, b.v);
            if (g.chance(1, 4)) fmpz_neg(d.v, d.v);
            setc(0, a); setc(1, b); setc(2, d); break; }
        case 4: case 5: case 6: case 7: {
            kind = "random";
            long d = g.range(3, maxdeg); int bits = g.chance(1, 5) ? 70 : (int)g.range(2, 8);
            for (long i = 0; i <= d; i++) { Z a = rnd_bits(g, bits); if (g.chance(1, 2)) fmpz_neg(a.v, a.v); if (!g.chance(1, 4) || i == 0 || i == d) setc(i, a); }
            if (g.chance(1, 2)) setc(d, z_si(1));
            break; }
        case 8: case 9: {
            kind = "nthroot";
            long d = g.range(2, maxdeg); Z a = g.chance(1, 3) ? rnd_z(g, 150) : z_si(g.range(-60, 60)), b = g.chance(1, 2) ? z_si(1) : z_si(g.range(1, 50));
            setc(0, a); setc(d, b); break; }
        case 10: {
            kind = "mignotte";
            long d = g.range(3, maxdeg < 5 ? maxdeg : maxdeg + 4); Z a = g.chance(1, 2) ? z_si(1L << g.range(2, 8)) : z_si(g.range(3, 300)), t;
            long m = g.chance(1, 2) ? 2 : g.range(1, 7);
            if (g.chance(1, 8)) { kind = "mignotte-close"; static const bool light = getenv("VF_LIGHT") != nullptr; a = rnd_bits(g, light ? (int)g.range(9, 90) : g.chance(1, 6) ? (int)g.range(300, 1300) : (int)g.range(9, 300)); if (fmpz_cmp_si(a.v, 2) < 0) continue; }
            // x^d - m (a x - 1)^2
            setc(d, z_si(1));
            fmpz_mul(t.v, a.v, a.v); fmpz_mul_si(t.v, t.v, -m); Z o; fmpz_poly_get_coeff_fmpz(o.v, p.v, 2); fmpz_add(o.v, o.v, t.v); setc(2, o);
            fmpz_mul_si(t.v, a.v, 2 * m); fmpz_poly_get_coeff_fmpz(o.v, p.v, 1); fmpz_add(o.v, o.v, t.v); setc(1, o);
            setc(0, z_si(-m)); break; }
        case 11: {
            kind = "cos";
            static const std::vector<long> ns = {5, 7, 8, 9, 11, 12, 13, 15, 16, 17, 20, 21, 24, 30};
            fmpz_poly_cos_minpoly(p.v, (ulong)g.pick(ns));
            if (fmpz_poly_degree(p.v) > maxdeg) continue;
            break; }
        case 12: case 13: {
            kind = "scaled";
            std::string k2; p = gen_minpoly(g, k2, maxdeg < 5 ? maxdeg : 5);
            if (fmpz_poly_degree(p.v) < 2) continue;
            p = scale2(p, g.range(1, 220) * (g.chance(1, 2) ? 1 : -1));
            break; }
        case 14: {
            kind = "nearint";
            // (x - n)^d * a - 1  or  x^d - n^d - 1: a root very close to n (or to a dyadic number)
            long d = g.range(2, maxdeg < 6 ? maxdeg : 6); Z n = g.chance(1, 2) ? z_si(g.range(-20, 20)) : rnd_bits(g, (int)g.range(4, 40));
            ZP x; fmpz_poly_set_coeff_si(x.v, 1, 1); Z nn; fmpz_neg(nn.v, n.v); fmpz_poly_set_coeff_fmpz(x.v, 0, nn.v);
            if (g.chance(1, 2)) {
                fmpz_poly_pow(p.v, x.v, (ulong)d); Z a = rnd_bits(g, (int)g.range(2, 90)); if (fmpz_is_zero(a.v)) continue;
                fmpz_poly_scalar_mul_fmpz(p.v, p.v, a.v); Z o; fmpz_poly_get_coeff_fmpz(o.v, p.v, 0); fmpz_add_si(o.v, o.v, g.chance(1, 2) ? -1 : -2); setc(0, o);
            } else {
                Z t; fmpz_pow_ui(t.v, n.v, (ulong)d); fmpz_neg(t.v, t.v); fmpz_add_si(t.v, t.v, g.chance(1, 2) ? 1 : -1); setc(0, t); setc(d, z_si(1));
                if (g.chance(1, 3)) p = scale2(p, g.range(-20, 20));
            }
            break; }
        case 16: {
            kind = "highdeg";
            long d = g.range(9, 34); int form = (int)g.below(4);
            setc(d, z_si(1));
            if (form == 0) { setc(1, z_si(-1)); setc(0, z_si(-1)); }
            else if (form == 1) setc(0, z_si(-g.range(2, 60)));
            else if (form == 2) { setc(g.range(1, d - 1), z_si(g.range(-5, 5))); setc(0, z_si(g.range(-9, 9))); }
            else { d = g.range(9, 15); p = ZP(); for (long i = 0; i <= d; i++) setc(i, z_si(g.range(-9, 9))); setc(d, z_si(g.range(1, 9))); }
            break; }
        default: {
            kind = "shifted";
            std::string k2; ZP q = gen_minpoly(g, k2, maxdeg < 4 ? maxdeg : 4);
            if (fmpz_poly_degree(q.v) < 2) continue;
            Z s = rnd_z(g, 60); fmpz_poly_taylor_shift(p.v, q.v, s.v);
            break; }
        }
        if (fmpz_poly_degree(p.v) < 1) continue;
        fmpz_poly_primitive_part(p.v, p.v);
        if (fmpz_poly_degree(p.v) > 1 && fmpz_is_zero(p.v->coeffs)) continue;
        if (!irreducible(p) || !nr_real(p)) continue;
        return p;
    }
}

struct FieldSpec {
    std::shared_ptr<RefField> ref = std::make_shared<RefField>();
    Arb ball;          // isolating ball for the chosen root
    slong prec = 64;
    std::string kind, ballkind;
    std::string desc() const {
        return "pol=" + str(ref->pol) + " root#" + str(ref->index) + " ball=[" + str_arb(ball.v) + "] prec=" + str((long)prec);
    }
};

// number of real roots in the ball (exactly decided); which = index of the last one found
inline int roots_in_ball(const RefField& f, const arb_t ball, long* which = nullptr) {
    int n = 0;
    if (f.deg == 1) { if (arb_contains_fmpq(ball, f.lin.v)) { if (which) *which = 0; return 1; } return 0; }
    for (long i = 0; i < f.nreal; i++) {
        for (slong p = 64;; p *= 2) {
            f.ensure(p);
            if (arb_contains(ball, f.roots[(size_t)i].v)) { n++; if (which) *which = i; break; }
            if (!arb_overlaps(ball, f.roots[(size_t)i].v)) break;
            if (p > 1000000) harness_error("roots_in_ball does not converge");
        }
    }
    return n;
}

// a random ball that isolates real root number `i` of f
inline void gen_ball(Rng& g, const RefField& f, long i, Arb& ball, std::string& bk) {
    for (int attempt = 0;; attempt++) {
        int c = attempt > 30 ? 0 : (int)g.below(5);
        if (f.deg == 1) {
            Arb r; arb_set_fmpq(r.v, f.lin.v, 40 + (slong)g.below(100)); 
            bk = "linear";
            if (g.chance(1, 2)) { arb_add_error_2exp_si(r.v, g.range(-80, 5)); }
            ball = r;
            if (arb_contains_fmpq(ball.v, f.lin.v)) return;
            continue;
        }
        slong p = 64; f.ensure(p);
        // make sure the root is separated well from its neighbours
        auto sep = [&](long a, long b) { Arb d; arb_sub(d.v, f.roots[(size_t)b].v, f.roots[(size_t)a].v, 60); return arb_rel_accuracy_bits(d.v) > 20; };
        while ((i > 0 && !sep(i - 1, i)) || (i + 1 < f.nreal && !sep(i, i + 1)) || arb_rel_accuracy_bits(f.roots[(size_t)i].v) < 20) { p *= 2; f.ensure(p); }
        Arf m, l, r, gap; 
        arf_set(m.v, arb_midref(f.roots[(size_t)i].v));
        Arb t;
        if (c == 0) {   // tight
            bk = "tight";
            slong bits = g.range(4, 300) + (attempt > 30 ? 40 * attempt : 0);
            f.ensure(bits + 64);
            arf_set_round(m.v, arb_midref(f.roots[(size_t)i].v), bits + g.range(0, 20), ARF_RND_NEAR);
            arb_set_arf(t.v, m.v);
            Arb e; arb_get_mag(arb_radref(e.v), f.roots[(size_t)i].v);
            mag_mul_2exp_si(arb_radref(t.v), arb_radref(e.v), -bits);
        } else {
            // endpoints somewhere between the neighbours
            auto endp = [&](Arf& out, int side) {
                bool has = side < 0 ? i > 0 : i + 1 < f.nreal;
                Arf d;
                if (has) { arf_sub(d.v, arb_midref(f.roots[(size_t)(i + side)].v), m.v, 53, ARF_RND_DOWN); }
                else { arf_set_si(d.v, side); arf_mul_2exp_si(d.v, d.v, g.range(-20, 20)); }
                int w = c == 1 ? 3 : (int)g.below(4);
                if (w == 3) arf_mul_ui(d.v, d.v, (ulong)g.range(60, 99), 53, ARF_RND_DOWN), arf_div_ui(d.v, d.v, 100, 53, ARF_RND_DOWN);
                else if (w == 2) arf_mul_2exp_si(d.v, d.v, -1);
                else arf_mul_2exp_si(d.v, d.v, -(slong)g.range(2, 90));
                arf_add(out.v, m.v, d.v, 400, ARF_RND_NEAR);
            };
            bk = c == 1 ? "wide" : "lopsided";
            endp(l, -1); endp(r, 1);
            arb_set_interval_arf(t.v, l.v, r.v, g.chance(1, 2) ? 400 : g.range(10, 100));
        }
        long w = -1;
        if (roots_in_ball(f, t.v, &w) == 1 && w == i) { ball = t; return; }
        if (attempt > 400) harness_error("cannot build an isolating ball for " + str(f.pol));
    }
}

inline FieldSpec gen_field(Rng& g, long maxdeg = 8, const std::vector<slong>& precs = {16, 32, 53, 64, 64, 64, 128, 256}) {
    FieldSpec s;
    ZP p = gen_minpoly(g, s.kind, maxdeg);
    QP q; fmpq_poly_set_fmpz_poly(q.v, p.v);
    if (g.chance(1, 5)) { // rational multiple
        Q c = q_si(g.range(1, 30), (ulong)g.range(1, 30)); if (g.chance(1, 3)) fmpq_neg(c.v, c.v);
        fmpq_poly_scalar_mul_fmpq(q.v, q.v, c.v); s.kind += "/multiple";
    }
    s.ref->init(q);
    s.ref->kind = s.kind;
    s.ref->index = (long)g.below((uint64_t)s.ref->nreal);
    gen_ball(g, *s.ref, s.ref->index, s.ball, s.ballkind);
    s.prec = g.pick(precs);
    return s;
}

// random reduced element
inline QP gen_elem(Rng& g, const RefField& f, std::string* cls = nullptr, int maxbits = 100) {
    QP p; std::string k;
    int c = maxbits >= 60 && g.chance(1, 300) ? 12 : (int)g.below(12);
    auto rnd = [&](int bits, int dens) {
        for (long i = 0; i < f.deg; i++) {
            if (g.chance(1, 4)) continue;
            Z a = rnd_bits(g, (int)g.range(1, bits)); if (g.chance(1, 2)) fmpz_neg(a.v, a.v);
            fmpq_poly_set_coeff_fmpz(p.v, i, a.v);
        }
        if (dens) { Z d = rnd_bits(g, dens); if (fmpz_is_zero(d.v)) fmpz_one(d.v); fmpq_poly_scalar_div_fmpz(p.v, p.v, d.v); }
    };
    switch (c) {
    case 0: k = "zero"; break;
    case 1: k = "small-int"; fmpq_poly_set_si(p.v, g.range(-3, 3)); break;
    case 2: { k = "integer"; Z z = rnd_z(g); fmpq_poly_set_fmpz(p.v, z.v); break; }
    case 3: { k = "rational"; Q q = rnd_q(g); fmpq_poly_set_fmpq(p.v, q.v); break; }
    case 4: { k = "gen"; p = f.gen(); break; }
    case 5: case 6: k = "small"; rnd(4, g.chance(1, 2) ? 4 : 0); break;
    case 7: case 8: k = "medium"; rnd(40, g.chance(1, 2) ? 30 : 0); break;
    case 9: k = "big"; rnd(maxbits, g.chance(1, 2) ? maxbits : 0); break;
    case 12: k = "huge"; rnd((int)g.range(500, 4000), g.chance(1, 2) ? (int)g.range(1, 3000) : 0); break;
    case 10: case 11: {   // close to zero: (x - r)^m with r a rational approximation
        k = "tiny";
        if (f.deg == 1) { fmpq_poly_set_fmpq(p.v, rnd_q(g).v); break; }
        slong b = g.range(4, 70);
        const Arb& x = f.root(b + 64);
        Arf m; arf_set_round(m.v, arb_midref(x.v), b, ARF_RND_NEAR);
        Q r; arf_get_fmpq(r.v, m.v); fmpq_neg(r.v, r.v);
        QP lin = f.gen(), c0; fmpq_poly_set_fmpq(c0.v, r.v); fmpq_poly_add(lin.v, lin.v, c0.v);
        p = f.pow(lin, (unsigned long)g.range(1, 4));
        if (g.chance(1, 2)) fmpq_poly_neg(p.v, p.v);
        break; }
    }
    p = f.reduce(p);
    if (cls) *cls = k;
    return p;
}

}  // namespace vf
