#include "cxx.hpp"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/archives/xml.hpp>
#include <cereal/types/map.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/utility.hpp>
#include <cereal/types/vector.hpp>
#include <e-antic/cereal.hpp>
using namespace vf;

// what was written: elements and fields, singly and in containers
struct Item { int kind; std::vector<std::pair<int, QP>> vals; int field = -1; };

static renf_elem_class make_elem(const XSpec& x, const FieldPtr& K, const QP& v) { (void)x; return build(*K, v); }

static void expect_field(const renf_class& K, const XSpec& x, const std::string& what) {
    evaluated(); const RefField& f = *x.ref; renf* nf = K.renf_t();
    if (!fmpq_poly_equal(nf->nf->pol, f.pol.v)) fail("field", what + ": restored field has another polynomial, " + K.to_string() + " instead of " + x.desc());
    if (K.gen_name() != x.gen) fail("field", what + ": restored field has the generator " + K.gen_name() + " instead of " + x.gen);
    long w = -1; if (roots_in_ball(f, nf->emb, &w) != 1 || w != f.index) fail("field", what + ": restored field is embedded at another root, " + K.to_string() + " instead of " + x.desc());
}
static void expect_elem(const renf_elem_class& y, const XSpec& x, const QP& v, const std::string& what) {
    expect_field(y.parent(), x, what); evaluated(2);
    QP got = read(y); if (!fmpq_poly_equal(got.v, v.v)) fail("value", what + ": restored element is " + str(got) + " instead of " + str(v) + " in " + x.desc());
    if (!x.ref->contained(y.renf_elem_t()->emb, v)) fail("enclosure", what + ": restored element has a wrong enclosure");
}

template <class OA, class IA> static void roundtrip(Rng& g, const std::string& an) {
    std::vector<XSpec> xs; bool many = g.chance(1, 150); int n = many ? (int)g.range(40, 150) : (int)g.range(1, 4); if (many) event("many-fields");
    for (int i = 0; i < n; i++) xs.push_back(gen_xspec(g, many ? 3 : 7, {16, 32, 64, 64, 64, 128, 300}));
    { // relatives of the same field: another root, another name
        XSpec y = xs[0]; y.ref = std::make_shared<RefField>(*xs[0].ref); if (g.chance(1, 2)) y.ref->index = (long)g.below((uint64_t)y.ref->nreal); else y.gen = g.pick(gen_names());
        y.minpoly = take(fmpq_poly_get_str_pretty(y.ref->pol.v, y.gen.c_str())); for (;;) { y.emb = emb_string(g, *y.ref, y.ref->index, y.prec); if (!y.emb.empty()) break; y.prec *= 2; } xs.push_back(y); }
    // indices of equal fields share one identity
    auto same = [&](size_t a, size_t b) { return xs[a].gen == xs[b].gen && fmpq_poly_equal(xs[a].ref->pol.v, xs[b].ref->pol.v) && (xs[a].ref->deg == 1 || xs[a].ref->index == xs[b].ref->index); };
    std::vector<FieldPtr> keep(xs.size()); bool hold = g.chance(1, 2);
    if (hold) for (size_t i = 0; i < xs.size(); i++) { keep[i] = make(xs[i]); if (g.chance(1, 3) && xs[i].ref->deg > 1) renf_refine_embedding(keep[i]->renf_t(), g.range(100, 500)); }
    std::stringstream ss; std::vector<Item> items; std::vector<std::pair<std::string, mpq_class>> dummy;
    {
        OA ar(ss); int m = many || g.chance(1, 60) ? (int)g.range(60, 200) : (int)g.range(1, 7); if (many) m *= 3; if (m > 10) event("long-archive");
        for (int k = 0; k < m; k++) {
            Item it; it.kind = (int)g.below(6); size_t fi = many && k < n ? (size_t)k : g.below(xs.size()); if (many && k < n) it.kind = 0;
            auto val = [&](size_t i) { std::string c; return gen_elem(g, *xs[i].ref, &c, 90); };
            // without held handles the field lives only while it is being written
            auto K = [&](size_t i) { FieldPtr p = hold ? keep[i] : make(xs[i]); if (!hold && g.chance(1, 4) && xs[i].ref->deg > 1) renf_refine_embedding(p->renf_t(), g.range(65, 300)); return p; };
            switch (it.kind) {
            case 0: case 1: { QP v = val(fi); step("save element " + str(v) + " of " + xs[fi].desc()); FieldPtr p = K(fi); renf_elem_class e = make_elem(xs[fi], p, v); if (g.chance(1, 3)) e.floor(); ar(e); it.vals.push_back({(int)fi, v}); break; }
            case 2: { std::vector<renf_elem_class> v; int q = g.chance(1, 40) ? (int)g.range(100, 300) : (int)g.range(0, 5); if (q > 10) event("long-vector"); for (int i = 0; i < q; i++) { size_t w = g.chance(1, 2) ? fi : g.below(xs.size()); QP r = val(w); v.push_back(make_elem(xs[w], K(w), r)); it.vals.push_back({(int)w, r}); } step("save vector of " + str((long)q)); ar(v); break; }
            case 3: { step("save field " + xs[fi].desc()); FieldPtr p = K(fi); ar(p); it.field = (int)fi; break; }
            case 4: { QP v = val(fi), w = val(fi); FieldPtr p = K(fi); step("save pair in " + xs[fi].desc()); std::pair<renf_elem_class, renf_elem_class> pr(make_elem(xs[fi], p, v), make_elem(xs[fi], p, w)); ar(pr); it.vals.push_back({(int)fi, v}); it.vals.push_back({(int)fi, w}); break; }
            default: { Q q = rnd_q(g); step("save rational " + str(q)); renf_elem_class e(to_mpq(q)); ar(e); QP v; fmpq_poly_set_fmpq(v.v, q.v); it.vals.push_back({-1, v}); break; }
            }
            items.push_back(it);
        }
    }
    std::string text = ss.str();
    bool gone = hold && g.chance(1, 3); std::vector<const renf_class*> addr(xs.size(), nullptr);
    if (gone) for (auto& k : keep) k.reset();
    else if (hold) for (size_t i = 0; i < xs.size(); i++) addr[i] = keep[i].get();
    event("archive:" + an); event(hold ? gone ? "fields-gone" : "fields-alive" : "fields-temporary");
    std::vector<std::pair<size_t, FieldPtr>> seen;
    XSpec rat; rat.ref = std::make_shared<RefField>(); { QP p; fmpq_poly_set_coeff_si(p.v, 1, 1); fmpq_poly_set_coeff_si(p.v, 0, -1); rat.ref->init(p); rat.gen = "a"; rat.minpoly = "a-1"; }
    auto note = [&](int fi, const renf_class& K, const std::string& what) {
        if (fi < 0) { evaluated(); if (&K != &renf_class::make()) fail("parent", what + ": restored rational is not in the rational field"); return; }
        evaluated(); if (addr[(size_t)fi] && &K != addr[(size_t)fi]) fail("parent", what + ": restored object is not in the field that is still alive: " + xs[(size_t)fi].desc());
        for (auto& s : seen) { evaluated(); if ((s.second.get() == &K) != same(s.first, (size_t)fi)) fail("parent", what + ": identity of the restored fields is wrong"); }
        seen.push_back({(size_t)fi, FieldPtr(&K)});
    };
    std::istringstream is(text);
    try {
        IA ar(is);
        for (size_t k = 0; k < items.size(); k++) {
            Item& it = items[k]; std::string what = an + " item " + str((long)k); event("item:" + str((long)it.kind));
            auto spec = [&](int i) -> const XSpec& { return i < 0 ? rat : xs[(size_t)i]; };
            std::vector<renf_elem_class> got;
            switch (it.kind) {
            case 2: ar(got); evaluated(); if (got.size() != it.vals.size()) fail("value", what + ": wrong number of elements"); break;
            case 3: { FieldPtr p; if (g.chance(1, 2)) p = make(xs[g.below(xs.size())]); ar(p); if (!p) fail("field", what + ": no field restored"); expect_field(*p, xs[(size_t)it.field], what); note(it.field, *p, what); break; }
            case 4: { std::pair<renf_elem_class, renf_elem_class> pr; ar(pr); got = {pr.first, pr.second}; break; }
            default: { renf_elem_class e; if (g.chance(1, 2)) e = make(xs[g.below(xs.size())])->gen(); ar(e); got = {e}; break; }
            }
            for (size_t i = 0; i < got.size(); i++) { expect_elem(got[i], spec(it.vals[i].first), it.vals[i].second, what); note(it.vals[i].first, got[i].parent(), what); if (it.vals[i].first >= 0) situation("cereal|" + an + str((long)it.kind) + (hold ? gone ? "g" : "h" : "t") + xs[(size_t)it.vals[i].first].kind + dclass(xs[(size_t)it.vals[i].first].ref->deg) + vclass(it.vals[i].second)); }
        }
    } catch (const std::exception& ex) { fail("exception", an + ": loading throws " + ex.what() + " for " + text.substr(0, 400)); }
    sample(an + ": " + text.substr(0, 250));
}
// documents written by the releases before 1.0
static void legacy(Rng& g) {
    XSpec x = gen_xspec(g, 7); std::string c; QP v = gen_elem(g, *x.ref, &c, 60); int form = (int)g.below(4);
    std::string val = take(fmpq_poly_get_str_pretty(v.v, x.gen.c_str())), id = form & 1 ? "shared" : "id", ver = form & 2 ? "\"cereal_class_version\": 0, " : "";
    std::string s = "{\"cereal\":{" + ver + "\"parent\": {\"" + id + "\": 2147483649, \"name\": \"" + x.gen + "\", \"embedding\": \"" + x.emb + "\", \"minpoly\": \"" + x.minpoly + "\", \"precision\": " + std::to_string(x.prec) + "}, \"value\": \"" + val + "\"}}";
    step("legacy " + s); std::istringstream is(s); renf_elem_class y;
    try { cereal::JSONInputArchive ar(is); ar(y); } catch (const std::exception& ex) { fail("exception", "loading throws " + std::string(ex.what()) + " for " + s); }
    expect_elem(y, x, v, "document " + s); event("legacy:" + str((long)form)); situation("legacy|" + str((long)form) + x.kind);
}
// damaged documents are rejected with an exception, and nothing else
static void damaged(Rng& g) {
    XSpec x = gen_xspec(g, 5); std::string c; std::stringstream ss; { cereal::JSONOutputArchive ar(ss); FieldPtr p = make(x); ar(build(*p, gen_elem(g, *x.ref, &c, 40))); ar(p); }
    std::string s = ss.str(), how;
    switch (g.below(4)) {
    case 0: how = "truncated"; s.resize(s.size() * g.range(10, 90) / 100); break;
    case 1: { how = "bad minpoly"; size_t i = s.find("\"minpoly\": \""); if (i == std::string::npos) harness_error("json layout"); s.insert(i + 12, "?"); break; }
    case 2: { how = "bad embedding"; size_t i = s.find("\"embedding\": \""); if (i == std::string::npos) harness_error("json layout"); s.insert(i + 14, "x"); break; }
    default: { how = "bad value"; size_t i = s.find("\"value\": \""); if (i == std::string::npos) harness_error("json layout"); s.insert(i + 10, "?"); break; }
    }
    step(how + " " + s); std::istringstream is(s); bool thrown = false; renf_elem_class y; FieldPtr p;
    try { cereal::JSONInputArchive ar(is); ar(y); ar(p); } catch (const std::exception&) { thrown = true; }
    evaluated(); event("damaged:" + how); situation("damaged|" + how + x.kind); if (!thrown) fail("damaged", how + " document is accepted: " + s);
}
static void m_cereal(Rng& g, long) {
    switch (g.below(12)) {
    case 0: case 1: case 2: roundtrip<cereal::JSONOutputArchive, cereal::JSONInputArchive>(g, "json"); break;
    case 3: case 4: case 5: roundtrip<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(g, "binary"); break;
    case 6: case 7: roundtrip<cereal::PortableBinaryOutputArchive, cereal::PortableBinaryInputArchive>(g, "portable"); break;
    case 8: case 9: roundtrip<cereal::XMLOutputArchive, cereal::XMLInputArchive>(g, "xml"); break;
    case 10: legacy(g); break;
    default: damaged(g); break;
    }
}
int main(int argc, char** argv) { return vf::run(argc, argv, {{"cereal", m_cereal}}); }
