// Driving the C interface: RAII for fields and elements and read-out of values
#pragma once
#include "ref.hpp"
#include <e-antic/renf.h>
#include <e-antic/renf_elem.h>
#include <e-antic/fmpz_poly_extra.h>
#include <e-antic/fmpq_poly_extra.h>

namespace vf {
struct CField {
    renf_t nf;
    FieldSpec spec;
    explicit CField(const FieldSpec& s) : spec(s) {
        QP p = s.ref->pol; Arb b = s.ball;
        renf_init(nf, p.v, b.v, s.prec);
    }
    CField(const CField&) = delete;
    ~CField() { renf_clear(nf); }
    const RefField& ref() const { return *spec.ref; }
    slong acc() const { return arb_rel_accuracy_bits(nf->emb); }
};
inline QP read(const renf_elem_t a, const renf_t nf) { QP p; nf_elem_get_fmpq_poly(p.v, a->elem, nf->nf); return p; }
struct CElem {
    renf_elem_t a;
    renf* nf;
    explicit CElem(renf* n) : nf(n) { renf_elem_init(a, n); }
    CElem(const CElem&) = delete;
    ~CElem() { renf_elem_clear(a, nf); }
    QP get() const { return read(a, nf); }
    // write the exact value; the enclosure is the library's own
    void set(const QP& p) { renf_elem_set_fmpq_poly(a, p.v, nf); }
};
inline std::string precclass(slong p) { return p < 64 ? "lo" : p == 64 ? "64" : "hi"; }
inline std::string degclass(long d) { return d == 1 ? "lin" : d == 2 ? "quad" : d <= 4 ? "mid" : "high"; }
}
