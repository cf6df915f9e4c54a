// Driving the C++ interface: fields with their reference model, elements with shadows
#pragma once
#include "refd.hpp"
#include <e-antic/renf_class.hpp>
#include <e-antic/renf_elem_class.hpp>
#include <iostream>
#include <limits>
#include <sstream>
#include <stdexcept>

namespace vf {
using eantic::renf_class;
using eantic::renf_elem_class;
typedef boost::intrusive_ptr<const renf_class> FieldPtr;

inline const std::vector<std::string>& gen_names() { static const std::vector<std::string> v = {"a", "x", "alpha", "b", "zeta_", "E", "a", "x", "alpha", "b", "generator_of_the_field", std::string(300, 'q') + "_0"}; return v; }

// the strings handed to make() for a field
struct XSpec {
    std::shared_ptr<RefField> ref;
    std::string minpoly, gen, emb, kind;
    slong prec = 64;
    std::string desc() const { return "make(\"" + minpoly + "\", \"" + gen + "\", \"" + emb + "\", " + std::to_string(prec) + ")"; }
};
// a decimal ball for root `index` which still isolates it when read with `prec` bits
inline std::string emb_string(Rng& g, const RefField& f, long index, slong prec, std::string* how = nullptr) {
    for (int t = 0; t < 60; t++) {
        Arb b; std::string bk; gen_ball(g, f, index, b, bk);
        std::string s = take(arb_get_str(b.v, t > 20 ? prec : g.range(3, 40), g.chance(1, 2) ? ARB_STR_MORE : 0));
        Arb r; long w = -1;
        if (arb_set_str(r.v, s.c_str(), prec)) continue;
        if (!arb_is_finite(r.v)) continue;
        if (roots_in_ball(f, r.v, &w) == 1 && w == index) { if (how) *how = bk; return s; }
    }
    return "";
}
inline XSpec gen_xspec(Rng& g, long maxdeg = 6, const std::vector<slong>& precs = {32, 53, 64, 64, 64, 128, 256}) {
    for (;;) {
        XSpec x; FieldSpec s = gen_field(g, maxdeg, precs);
        x.ref = s.ref; x.kind = s.kind; x.prec = s.prec; x.gen = g.pick(gen_names());
        x.minpoly = take(fmpq_poly_get_str_pretty(s.ref->pol.v, x.gen.c_str()));
        for (;;) { x.emb = emb_string(g, *s.ref, s.ref->index, x.prec); if (!x.emb.empty()) break; if (x.prec > 4000) break; x.prec *= 2; }
        if (!x.emb.empty()) return x;
    }
}
inline FieldPtr make(const XSpec& x) { return renf_class::make(x.minpoly, x.gen, x.emb, x.prec); }

inline QP read(const renf_elem_class& x) { QP p; nf_elem_get_fmpq_poly(p.v, x.renf_elem_t()->elem, x.parent().renf_t()->nf); return p; }

// ways in which a field may be known to the harness; #0 is the rational field
struct World {
    std::vector<XSpec> spec; std::vector<FieldPtr> ptr;
    World() {
        XSpec q; q.ref = std::make_shared<RefField>(); QP p; fmpq_poly_set_coeff_si(p.v, 1, 1); fmpq_poly_set_coeff_si(p.v, 0, -1); q.ref->init(p); q.minpoly = "a-1"; q.gen = "a"; q.emb = "1 +/- 1"; q.kind = "rational";
        spec.push_back(q); ptr.push_back(FieldPtr(&renf_class::make()));
    }
    const RefField& ref(int i) const { return *spec[(size_t)i].ref; }
    const renf_class& field(int i) const { return *ptr[(size_t)i]; }
    int add(const XSpec& x) { FieldPtr p = make(x); for (size_t i = 0; i < ptr.size(); i++) if (ptr[i] == p) return (int)i; spec.push_back(x); ptr.push_back(p); return (int)spec.size() - 1; }
    std::string desc() const { std::string s; for (auto& x : spec) s += x.desc() + "; "; return s; }
};
inline std::string vclass(const QP& p) {
    if (fmpq_poly_is_zero(p.v)) return "0";
    if (fmpq_poly_length(p.v) == 1) return fmpz_is_one(fmpq_poly_denref(p.v)) ? "Z" : "Q";
    return fmpz_is_one(fmpq_poly_denref(p.v)) ? "A" : "AQ";
}
inline std::string dclass(long d) { return d == 1 ? "lin" : d == 2 ? "quad" : d <= 4 ? "mid" : "high"; }
inline QP q_poly(const Q& q) { QP p; fmpq_poly_set_fmpq(p.v, q.v); return p; }
inline renf_elem_class build(const renf_class& K, const QP& p) { renf_elem_class x(K); renf_elem_set_fmpq_poly(x.renf_elem_t(), p.v, K.renf_t()); return x; }

// value, parent and enclosure of x are as expected
inline void check_elem(const World& W, const renf_elem_class& x, int f, const QP& want, const std::string& what, bool encl = true) {
    evaluated();
    if (&x.parent() != &W.field(f)) fail("parent", what + ": result is in the wrong field " + x.parent().to_string() + " instead of " + W.spec[(size_t)f].desc());
    QP got = read(x);
    if (!fmpq_poly_equal(got.v, want.v)) fail("wrong-value", what + ": value is " + str(got) + " instead of " + str(want) + " in " + W.spec[(size_t)f].desc());
    if (encl) { evaluated(); if (!W.ref(f).contained(x.renf_elem_t()->emb, want)) fail("enclosure", what + ": enclosure [" + str_arb(x.renf_elem_t()->emb) + "] does not contain " + str(want) + " in " + W.spec[(size_t)f].desc()); }
}

// the library reports deprecated cross-field operations on cerr; count instead of printing
struct NullBuf : std::streambuf {
    long chars = 0;
    int overflow(int c) override { chars++; return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { chars += n; return n; }
};
inline NullBuf& quiet_cerr() { static NullBuf b; static bool once = (std::cerr.rdbuf(&b), true); (void)once; return b; }
}
