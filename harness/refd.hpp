#pragma once
#include "ref.hpp"
#include <cmath>
#include <algorithm>
namespace vf {
// exact rounding of the value of p to a double, computed with integers only
inline bool ref_double(const RefField& f, const QP& p, arf_rnd_t rnd, double& out) {
    int s = f.sgn(p);
    if (s == 0) { out = 0; return true; }
    QP v = p; if (s < 0) fmpq_poly_neg(v.v, p.v);
    Arb e = f.value(v, 40); Z ex; 
    // E with 2^E <= v < 2^(E+1)
    arf_abs_bound_lt_2exp_fmpz(ex.v, arb_midref(e.v));
    if (!fmpz_fits_si(ex.v)) return false;
    long E = fmpz_get_si(ex.v) - 1;
    if (E > 3000 || E < -3000) { // far outside
        if (E > 0) {
            bool towards = rnd == ARF_RND_UP || rnd == ARF_RND_NEAR || (rnd == ARF_RND_FLOOR && s < 0) || (rnd == ARF_RND_CEIL && s > 0);
            double d = towards || fmpq_poly_length(p.v) > 1 ? INFINITY : DBL_MAX;
            out = s < 0 ? -d : d;
            return true;
        }
    }
    auto pow2 = [&](long k) { Q q; fmpq_one(q.v); if (k >= 0) fmpq_mul_2exp(q.v, q.v, (ulong)k); else fmpq_div_2exp(q.v, q.v, (ulong)-k); return q; };
    while (f.cmp_q(v, pow2(E)) < 0) E--;
    while (f.cmp_q(v, pow2(E + 1)) >= 0) E++;
    long u = std::max(E - 52, -1074L);
    QP t; Q sc = pow2(-u); fmpq_poly_scalar_mul_fmpq(t.v, v.v, sc.v);
    Z n = f.floor(t);
    Q nq = q_z(n); bool exact = f.cmp_q(t, nq) == 0;
    bool up = false;
    if (!exact) {
        bool towards = false;
        switch (rnd) {
        case ARF_RND_DOWN: towards = false; break;
        case ARF_RND_UP: towards = true; break;
        case ARF_RND_FLOOR: towards = s < 0; break;
        case ARF_RND_CEIL: towards = s > 0; break;
        default: { Q h; fmpq_set_si(h.v, 1, 2); fmpq_add(h.v, h.v, nq.v); int c = f.cmp_q(t, h); towards = c > 0 || (c == 0 && fmpz_is_odd(n.v)); }
        }
        up = towards;
    }
    if (up) fmpz_add_ui(n.v, n.v, 1);
    double d = ldexp((double)fmpz_get_si(n.v), (int)u);
    if (std::isinf(d) || E >= 1024) {
        // rounded beyond the largest double: rationals follow the direction of rounding
        d = INFINITY;
        if (E >= 1024 && (rnd == ARF_RND_DOWN || (rnd == ARF_RND_FLOOR && s > 0) || (rnd == ARF_RND_CEIL && s < 0))) d = DBL_MAX;
    }
    // any other number outside of the range of finite doubles is infinite, whatever the direction
    if (E >= 1023 && fmpq_poly_length(p.v) > 1) { Q mx; Arf x; arf_set_d(x.v, DBL_MAX); arf_get_fmpq(mx.v, x.v); if (f.cmp_q(v, mx) > 0) d = INFINITY; }
    out = s < 0 ? -d : d;
    return true;
}
}
