// A pool of library elements shadowed by the reference model, and random operations on it
#pragma once
#include "capi.hpp"

namespace vf {

struct Pool {
    CField& K;
    std::vector<std::unique_ptr<CElem>> e;
    std::vector<QP> r;      // reference values
    Pool(CField& k, int n) : K(k) {
        for (int i = 0; i < n; i++) { e.emplace_back(new CElem(K.nf)); r.emplace_back(); renf_elem_zero(e.back()->a, K.nf); }
    }
    renf_elem* a(size_t i) { return e[i]->a; }
    const RefField& f() const { return K.ref(); }
    static long bits(const QP& p) {
        long b = (long)fmpz_bits(fmpq_poly_denref(p.v));
        for (slong i = 0; i < fmpq_poly_length(p.v); i++) b += (long)fmpz_bits(p.v->coeffs + i);
        return b;
    }
    void fill(Rng& g, size_t i, int maxbits = 100) {
        std::string c; r[i] = gen_elem(g, f(), &c, maxbits);
        step("set #" + str((long)i) + " = " + str(r[i]));
        e[i]->set(r[i]);
        event("operand:" + c);
    }
    void trim(Rng& g, long limit = 3000) { for (size_t i = 0; i < r.size(); i++) if (bits(r[i]) > limit) fill(g, i); }
};

struct OpRec { std::string name; size_t dst; };

inline std::string valclass(const QP& p) {
    if (fmpq_poly_is_zero(p.v)) return "0";
    if (fmpq_poly_length(p.v) == 1) return fmpz_is_one(fmpq_poly_denref(p.v)) ? "Z" : "Q";
    return fmpz_is_one(fmpq_poly_denref(p.v)) ? "A" : "AQ";
}

// perform one random operation on the library objects and on the reference values
// the same value with an enclosure of enormous (or tiny, but not exact) radius: x + ((x - x) * 2^k)^e
inline void giant_ball(Rng& g, renf_elem* x, renf* nf) {
    renf_elem_t t; renf_elem_init(t, nf); renf_elem_sub(t, x, x, nf);
    Z k; fmpz_one(k.v); fmpz_mul_2exp(k.v, k.v, (ulong)g.range(1, 300));
    if (g.chance(1, 4)) renf_elem_div_fmpz(t, t, k.v, nf); else renf_elem_mul_fmpz(t, t, k.v, nf);
    renf_elem_pow(t, t, g.chance(1, 2) ? UWORD_MAX - g.below(3) : ((ulong)1 << g.below(64)) + g.below(3), nf);
    renf_elem_add(x, x, t, nf); renf_elem_clear(t, nf);
    if (!arb_is_exact(x->emb)) event(mag_cmp_2exp_si(arb_radref(x->emb), WORD_MAX / 4) > 0 ? "giant-ball" : "wide-ball");
}
inline OpRec random_op(Rng& g, Pool& P) {
    const RefField& f = P.f();
    renf* nf = P.K.nf;
    size_t n = P.e.size();
    size_t d = g.below(n), b = g.below(n), c = g.below(n);
    switch (g.below(6)) { case 0: b = d; break; case 1: c = d; break; case 2: b = c = d; break; case 3: c = b; break; default: break; }
    QP rb = P.r[b], rc = P.r[c], rr;
    OpRec o{"", d};
    auto tag = [&](const std::string& nm, bool two) {
        o.name = nm;
        step(nm + " #" + str((long)d) + " <- #" + str((long)b) + (two ? " #" + str((long)c) : ""));
        situation(nm + "|" + (b == d ? "b=d" : "") + (two && c == d ? "c=d" : "") + (two && b == c ? "b=c" : "") + "|" + degclass(f.deg) + "|" + f.kind + "|" + precclass(P.K.spec.prec) + "|" + valclass(rb) + (two ? valclass(rc) : ""));
    };
    auto cq = [&](const Q& q) { QP t; fmpq_poly_set_fmpq(t.v, q.v); return t; };
    bool cz = fmpq_poly_is_zero(rc.v), bz = fmpq_poly_is_zero(rb.v);
    for (;;) {
        switch (g.below(46)) {
        case 0: tag("add", true); renf_elem_add(P.a(d), P.a(b), P.a(c), nf); fmpq_poly_add(rr.v, rb.v, rc.v); break;
        case 1: case 2: tag("sub", true); renf_elem_sub(P.a(d), P.a(b), P.a(c), nf); fmpq_poly_sub(rr.v, rb.v, rc.v); break;
        case 3: case 4: tag("mul", true); renf_elem_mul(P.a(d), P.a(b), P.a(c), nf); rr = f.mul(rb, rc); break;
        case 5: case 6: if (cz) continue; tag("div", true); renf_elem_div(P.a(d), P.a(b), P.a(c), nf); rr = f.mul(rb, f.inv(rc)); break;
        case 7: tag("neg", false); renf_elem_neg(P.a(d), P.a(b), nf); fmpq_poly_neg(rr.v, rb.v); break;
        case 8: if (bz) continue; tag("inv", false); renf_elem_inv(P.a(d), P.a(b), nf); rr = f.inv(rb); break;
        case 9: { ulong e = g.chance(1, 4) ? g.below(14) : g.below(5); if (Pool::bits(rb) * (long)e > 4000) e = g.below(2);
            { QP m1; fmpq_poly_set_si(m1.v, -1); bool unit = bz || fmpq_poly_is_one(rb.v) || fmpq_poly_equal(rb.v, m1.v); // any exponent for 0 and the units, large ones where the result stays small
              if (unit && g.chance(1, 2)) { e = g.chance(1, 2) ? UWORD_MAX - g.below(3) : (ulong)g.next() >> g.below(64); event("pow:any-exponent"); }
              else if (!unit && g.chance(1, 4) && Pool::bits(rb) * 70 < 2500) { e = 60 + g.below(210); if (Pool::bits(rb) * (long)e > 2500) e = 60 + g.below(9); event("pow:large-exponent"); } } tag("pow", false); step("  e=" + str((long)e)); renf_elem_pow(P.a(d), P.a(b), e, nf); rr = f.pow(rb, e); break; }
        case 10: tag("set", false); renf_elem_set(P.a(d), P.a(b), nf); rr = rb; break;
        case 11: { // swap
            tag("swap", false); renf_elem_swap(P.a(d), P.a(b)); rr = rb; P.r[b] = P.r[d]; P.r[d] = rr; rr = P.r[d]; break; }
        case 12: tag("zero", false); renf_elem_zero(P.a(d), nf); fmpq_poly_zero(rr.v); break;
        case 13: tag("one", false); renf_elem_one(P.a(d), nf); fmpq_poly_one(rr.v); break;
        case 14: tag("gen", false); renf_elem_gen(P.a(d), nf); rr = f.gen(); break;
        case 15: case 16: case 17: case 18: case 19: case 20: case 21: case 22: case 23: { // machine integers
            bool sgnd = g.chance(1, 2); slong si; ulong ui;
            switch (g.below(5)) { case 0: si = g.range(-5, 5); break; case 1: si = WORD_MAX - (slong)g.below(3); break; case 2: si = WORD_MIN + (slong)g.below(3); break; case 3: si = (WORD(1) << 62) + g.range(-2, 2); break; default: si = (slong)g.next() >> g.below(63); }
            ui = g.chance(1, 3) ? UWORD_MAX - g.below(3) : (ulong)si;
            Q s = sgnd ? q_z(z_si(si)) : q_z(z_ui(ui)); QP cs = cq(s);
            std::string suf = sgnd ? "_si" : "_ui";
            switch (g.below(5)) {
            case 0: tag("add" + suf, false); if (sgnd) renf_elem_add_si(P.a(d), P.a(b), si, nf); else renf_elem_add_ui(P.a(d), P.a(b), ui, nf); fmpq_poly_add(rr.v, rb.v, cs.v); break;
            case 1: tag("sub" + suf, false); if (sgnd) renf_elem_sub_si(P.a(d), P.a(b), si, nf); else renf_elem_sub_ui(P.a(d), P.a(b), ui, nf); fmpq_poly_sub(rr.v, rb.v, cs.v); break;
            case 2: tag("mul" + suf, false); if (sgnd) renf_elem_mul_si(P.a(d), P.a(b), si, nf); else renf_elem_mul_ui(P.a(d), P.a(b), ui, nf); fmpq_poly_mul(rr.v, rb.v, cs.v); break;
            case 3: if (fmpq_is_zero(s.v)) continue; tag("div" + suf, false); if (sgnd) renf_elem_div_si(P.a(d), P.a(b), si, nf); else renf_elem_div_ui(P.a(d), P.a(b), ui, nf); fmpq_poly_scalar_div_fmpq(rr.v, rb.v, s.v); break;
            default: tag("set" + suf, false); if (sgnd) renf_elem_set_si(P.a(d), si, nf); else renf_elem_set_ui(P.a(d), ui, nf); rr = cs; break;
            }
            step("  scalar " + str(s)); break; }
        case 24: case 25: case 26: case 27: case 28: case 29: case 30: { // integers
            Z z = rnd_z(g), z0 = z; Q s = q_z(z); QP cs = cq(s);
            switch (g.below(6)) {
            case 0: tag("add_fmpz", false); renf_elem_add_fmpz(P.a(d), P.a(b), z.v, nf); fmpq_poly_add(rr.v, rb.v, cs.v); break;
            case 1: tag("sub_fmpz", false); renf_elem_sub_fmpz(P.a(d), P.a(b), z.v, nf); fmpq_poly_sub(rr.v, rb.v, cs.v); break;
            case 2: tag("mul_fmpz", false); renf_elem_mul_fmpz(P.a(d), P.a(b), z.v, nf); fmpq_poly_mul(rr.v, rb.v, cs.v); break;
            case 3: if (fmpz_is_zero(z.v)) continue; tag("div_fmpz", false); renf_elem_div_fmpz(P.a(d), P.a(b), z.v, nf); fmpq_poly_scalar_div_fmpq(rr.v, rb.v, s.v); break;
            case 4: tag("set_fmpz", false); renf_elem_set_fmpz(P.a(d), z.v, nf); rr = cs; break;
            default: { mpz_class m = to_mpz(z), m0 = m; tag("set_mpz", false); renf_elem_set_mpz(P.a(d), m.get_mpz_t(), nf); rr = cs; if (m != m0) fail("operand-modified", "set_mpz changed its argument"); break; }
            }
            step("  scalar " + str(s));
            if (!fmpz_equal(z.v, z0.v)) fail("operand-modified", o.name + " changed its integer argument");
            break; }
        case 31: case 32: case 33: case 34: case 35: case 36: case 37: case 38: case 39: { // rationals
            Q s = rnd_q(g), s0 = s; QP cs = cq(s);
            switch (g.below(8)) {
            case 0: tag("add_fmpq", false); renf_elem_add_fmpq(P.a(d), P.a(b), s.v, nf); fmpq_poly_add(rr.v, rb.v, cs.v); break;
            case 1: tag("sub_fmpq", false); renf_elem_sub_fmpq(P.a(d), P.a(b), s.v, nf); fmpq_poly_sub(rr.v, rb.v, cs.v); break;
            case 2: tag("mul_fmpq", false); renf_elem_mul_fmpq(P.a(d), P.a(b), s.v, nf); fmpq_poly_mul(rr.v, rb.v, cs.v); break;
            case 3: if (fmpq_is_zero(s.v)) continue; tag("div_fmpq", false); renf_elem_div_fmpq(P.a(d), P.a(b), s.v, nf); fmpq_poly_scalar_div_fmpq(rr.v, rb.v, s.v); break;
            case 4: tag("fmpq_sub", false); renf_elem_fmpq_sub(P.a(d), s.v, P.a(b), nf); fmpq_poly_sub(rr.v, cs.v, rb.v); break;
            case 5: if (bz) continue; tag("fmpq_div", false); renf_elem_fmpq_div(P.a(d), s.v, P.a(b), nf); { QP iv = f.inv(rb); fmpq_poly_scalar_mul_fmpq(rr.v, iv.v, s.v); } break;
            case 6: tag("set_fmpq", false); renf_elem_set_fmpq(P.a(d), s.v, nf); rr = cs; break;
            default: { mpq_class m = to_mpq(s), m0 = m; tag("set_mpq", false); renf_elem_set_mpq(P.a(d), m.get_mpq_t(), nf); rr = cs; if (m != m0) fail("operand-modified", "set_mpq changed its argument"); break; }
            }
            step("  scalar " + str(s));
            if (!fmpq_equal(s.v, s0.v)) fail("operand-modified", o.name + " changed its rational argument");
            break; }
        case 40: { // polynomial (possibly not reduced)
            QP p; bool lng = f.deg <= 8 && g.chance(1, 30); long m = lng ? g.range(0, 80 * f.deg) : g.range(0, 2 * f.deg + 1);
            for (long i = 0; i <= m; i++) { if (lng && i < m && g.chance(2, 3)) continue; Q q = lng ? q_si(g.range(-9, 9)) : rnd_q(g, 40); if (lng && i == m) fmpq_one(q.v); fmpq_poly_set_coeff_fmpq(p.v, i, q.v); }
            QP p0 = p; tag("set_fmpq_poly", false); step("  poly " + str(p)); renf_elem_set_fmpq_poly(P.a(d), p.v, nf); rr = f.reduce(p);
            if (!fmpq_poly_equal(p.v, p0.v)) fail("operand-modified", "set_fmpq_poly changed its argument");
            break; }
        case 41: { // from the exact field
            std::string cl; QP p = gen_elem(g, f, &cl); nf_elem_t t; nf_elem_init(t, nf->nf); nf_elem_set_fmpq_poly(t, p.v, nf->nf);
            tag("set_nf_elem", false); step("  value " + str(p)); renf_elem_set_nf_elem(P.a(d), t, nf, g.range(2, 200)); nf_elem_clear(t, nf->nf); rr = p; break; }
        case 45: if (g.chance(1, 4)) { step("giant-ball #" + str((long)d)); giant_ball(g, P.a(d), nf); o.name = "giant-ball"; rr = P.r[d]; break; } // fall through
        default: // exact cancellation, leaves a zero with history
            tag("sub-self", false); b = d; renf_elem_sub(P.a(d), P.a(d), P.a(d), nf); fmpq_poly_zero(rr.v); break;
        }
        break;
    }
    P.r[d] = f.reduce(rr);
    event("op:" + o.name);
    return o;
}

inline void check_values(Pool& P, const OpRec& o) {
    for (size_t i = 0; i < P.e.size(); i++) {
        QP got = P.e[i]->get();
        evaluated();
        if (!fmpq_poly_equal(got.v, P.r[i].v))
            fail(i == o.dst ? "wrong-value" : "operand-modified", o.name + ": element #" + str((long)i) + " is " + str(got) + " but should be " + str(P.r[i]) + " in " + P.K.spec.desc());
        if (!fmpq_poly_is_canonical(got.v)) fail("not-canonical", o.name + ": " + str(got));
    }
}

}  // namespace vf
