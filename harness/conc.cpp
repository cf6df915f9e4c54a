// Several threads: the registry of fields, reference counting, fields shared after
// having been refined, and independent fields in different threads.
#include "cxx.hpp"
#include <e-antic/renf.h>
#include <e-antic/renf_elem.h>
#include <e-antic/fmpz_poly_extra.h>
#include <e-antic/fmpq_poly_extra.h>
#include <atomic>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <thread>
using namespace vf;

// ------------------------------------------------------- injected delays
static std::atomic<int> delay_level{0};           // 0: none; otherwise 1 in delay_level synchronisation points is delayed
static std::atomic<long> n_locks{0}, n_contended{0}, n_delays{0};
static thread_local Rng* tl_rng = nullptr;
static inline void maybe_delay() {
    int l = delay_level.load(std::memory_order_relaxed);
    if (!l || !tl_rng || tl_rng->below((uint64_t)l)) return;
    n_delays.fetch_add(1, std::memory_order_relaxed);
    switch (tl_rng->below(4)) { case 0: usleep((useconds_t)tl_rng->below(60)); break; case 1: for (volatile int i = 0; i < 300; i++) {} break; default: sched_yield(); }
}
// FLINT is not instrumented; what the library lets it read and write is reported to the race detector here
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VF_TSAN 1
#endif
#endif
#ifdef VF_TSAN
extern "C" { void __tsan_read8(void*); void __tsan_write8(void*); }
#define RD(x) __tsan_read8((void*)(x))
#define WR(x) __tsan_write8((void*)(x))
#else
#define RD(x) (void)(x)
#define WR(x) (void)(x)
#endif
extern "C" {
#define WRAP_PRED(F, A, B) int __real_##F(const A, const B); int __wrap_##F(const A x, const B y) { RD(x); RD(y); return __real_##F(x, y); }
#define WRAP_SET(F, A, B) void __real_##F(A, const B); void __wrap_##F(A x, const B y) { RD(y); WR(x); __real_##F(x, y); }
#define WRAP_ROUND(F, A, B) void __real_##F(A, const B, slong); void __wrap_##F(A x, const B y, slong p) { RD(y); WR(x); __real_##F(x, y, p); }
#define WRAP_BIN(F, A, B, C) void __real_##F(A, const B, const C, slong); void __wrap_##F(A x, const B y, const C z, slong p) { RD(y); RD(z); WR(x); __real_##F(x, y, z, p); }
#define WRAP_NF(F) void __real_##F(nf_elem_t, const nf_elem_t, const nf_elem_t, const nf_t); void __wrap_##F(nf_elem_t x, const nf_elem_t y, const nf_elem_t z, const nf_t k) { RD(y); RD(z); WR(x); __real_##F(x, y, z, k); }
WRAP_PRED(arb_overlaps, arb_t, arb_t) WRAP_PRED(arb_contains, arb_t, arb_t) WRAP_PRED(arb_lt, arb_t, arb_t) WRAP_PRED(arb_gt, arb_t, arb_t)
WRAP_SET(arb_set, arb_t, arb_t) WRAP_SET(arb_neg, arb_t, arb_t) WRAP_ROUND(arb_set_round, arb_t, arb_t)
WRAP_BIN(arb_add, arb_t, arb_t, arb_t) WRAP_BIN(arb_sub, arb_t, arb_t, arb_t) WRAP_BIN(arb_mul, arb_t, arb_t, arb_t) WRAP_BIN(arb_div, arb_t, arb_t, arb_t)
WRAP_NF(nf_elem_add) WRAP_NF(nf_elem_sub) WRAP_NF(nf_elem_mul)
void __real_nf_elem_set(nf_elem_t, const nf_elem_t, const nf_t); void __wrap_nf_elem_set(nf_elem_t x, const nf_elem_t y, const nf_t k) { RD(y); WR(x); __real_nf_elem_set(x, y, k); }
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { maybe_delay(); n_locks.fetch_add(1, std::memory_order_relaxed); int r = __real_pthread_mutex_lock(m); maybe_delay(); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { maybe_delay(); int r = __real_pthread_mutex_unlock(m); maybe_delay(); return r; }
int __real_renf_equal(const renf_t, const renf_t);
int __wrap_renf_equal(const renf_t a, const renf_t b) { maybe_delay(); if (fmpq_poly_equal(a->nf->pol, b->nf->pol)) { RD(a->emb); RD(b->emb); } return __real_renf_equal(a, b); }
void __real_renf_init_set(renf_t, const renf_t);
void __wrap_renf_init_set(renf_t a, const renf_t b) { maybe_delay(); RD(b->emb); __real_renf_init_set(a, b); }
void __real_renf_clear(renf_t);
void __wrap_renf_clear(renf_t a) { maybe_delay(); __real_renf_clear(a); }
void __real_renf_elem_set(renf_elem_t, const renf_elem_t, const renf_t);
void __wrap_renf_elem_set(renf_elem_t a, const renf_elem_t b, const renf_t c) { maybe_delay(); RD(b->emb); WR(a->emb); __real_renf_elem_set(a, b, c); }
}

// ------------------------------------------------------- scaffolding
struct Gate { // spinning start line; everybody leaves at about the same time
    std::atomic<int> n{0}; int want; explicit Gate(int w) : want(w) {}
    void wait() { n.fetch_add(1, std::memory_order_acq_rel); while (n.load(std::memory_order_acquire) < want) sched_yield(); }
};
struct Log { std::atomic<unsigned> ticket{0}; };
struct Tally { std::map<std::string, long> ev; long evals = 0; std::vector<std::pair<unsigned, int>> order; };
static std::mutex fail_mutex;
[[noreturn]] static void tfail(const std::string& k, const std::string& m) { fail_mutex.lock(); fail(k, m); }

template <class F> static std::vector<Tally> parallel(Rng& g, int T, const F& body) {
    std::vector<Tally> tl((size_t)T); std::vector<uint64_t> seeds; for (int t = 0; t < T; t++) seeds.push_back(g.next());
    Gate gate(T); std::vector<std::thread> th;
    for (int t = 0; t < T; t++) th.emplace_back([&, t] { Rng r(seeds[(size_t)t]); tl_rng = &r; gate.wait(); try { body(r, t, tl[(size_t)t]); } catch (const std::exception& e) { tfail("exception", std::string("unexpected exception in a thread: ") + e.what()); } tl_rng = nullptr; flint_cleanup(); });
    for (auto& x : th) x.join();
    return tl;
}
static void merge(const std::vector<Tally>& tl, const std::string& what) {
    std::vector<std::pair<unsigned, int>> o; long sw = 0;
    for (auto& t : tl) { for (auto& e : t.ev) event(e.first, e.second); evaluated(t.evals); o.insert(o.end(), t.order.begin(), t.order.end()); }
    std::sort(o.begin(), o.end()); std::string s = what; for (size_t i = 0; i < o.size(); i++) { s += (char)('a' + o[i].second % 26); if (i && o[i].second / 64 != o[i - 1].second / 64) sw++; }
    situation(s); event("observed-handovers", sw); event("observed-steps", (long)o.size());
}

static void set_delays(Rng& g) { static const std::vector<int> l = {0, 2, 5, 20, 100}; delay_level.store(g.pick(l)); }
static void note_counts() { event("lock-acquisitions", n_locks.exchange(0)); event("injected-delays", n_delays.exchange(0)); }

// ------------------------------------------------------- registry
// Threads obtain and give up handles to a small set of fields.  As long as anybody
// holds a handle to a field, everybody who asks for this field must get that one.
static void m_registry(Rng& g, long) {
    int n = (int)g.range(1, 4), T = (int)g.range(2, 8), rounds = (int)g.range(5, 40); std::vector<XSpec> xs;
    for (int i = 0; i < n; i++) xs.push_back(gen_xspec(g, 4));
    if (g.chance(1, 2)) { XSpec y = xs[0]; for (auto& c : gen_names()) if (c != xs[0].gen) { y.gen = c; break; } y.minpoly = take(fmpq_poly_get_str_pretty(y.ref->pol.v, y.gen.c_str())); xs.push_back(y); }
    auto same = [&](size_t a, size_t b) { return xs[a].gen == xs[b].gen && fmpq_poly_equal(xs[a].ref->pol.v, xs[b].ref->pol.v) && (xs[a].ref->deg == 1 || xs[a].ref->index == xs[b].ref->index); };
    std::vector<size_t> id(xs.size()); for (size_t i = 0; i < xs.size(); i++) for (size_t j = 0; j <= i; j++) if (same(i, j)) { id[i] = j; break; }
    std::vector<std::string> keys(xs.size());
    bool table = g.chance(1, 3);
    std::mutex tm; std::vector<const renf_class*> held(xs.size(), nullptr); std::vector<int> holders(xs.size(), 0);
    set_delays(g); Log log; for (auto& x : xs) step(x.desc()); step("threads " + str((long)T) + (table ? " with a table of holders" : ""));
    // what every field must look like, independently of who has made it
    struct Want { long deg; std::string gen; }; std::vector<Want> want; for (auto& x : xs) want.push_back({x.ref->deg, x.gen});
    auto tl = parallel(g, T, [&](Rng& r, int t, Tally& ta) {
        auto mark = [&](int what) { ta.order.push_back({log.ticket.fetch_add(1, std::memory_order_relaxed), t * 64 + what}); };
        std::vector<std::pair<size_t, FieldPtr>> mine; std::vector<std::pair<size_t, renf_elem_class>> elems;
        auto drop = [&](size_t k) { size_t i = id[mine[k].first]; if (table) { std::lock_guard<std::mutex> l(tm); holders[i]--; } mark(2); ta.ev["release"]++; mine.erase(mine.begin() + (long)k); };
        for (int k = 0; k < rounds; k++) {
            switch (r.below(7)) {
            case 0: case 1: case 2: {
                size_t i = r.below(xs.size()); mark(1); FieldPtr p = make(xs[i]); ta.ev["make"]++; ta.evals++;
                if (!p) tfail("registry", "make returns no field for " + xs[i].desc());
                if (p->degree() != want[i].deg || p->gen_name() != want[i].gen) tfail("registry", "make returns the field " + std::to_string(p->degree()) + " " + p->gen_name() + " for " + xs[i].desc());
                for (auto& m : mine) { ta.evals++; if ((m.second == p) != (id[m.first] == id[i])) tfail("registry", std::string("a thread holds two ") + (m.second == p ? "equal handles for different fields" : "different handles for the same field") + ": " + xs[i].desc() + " and " + xs[m.first].desc()); }
                for (auto& e : elems) { ta.evals++; if ((&e.second.parent() == p.get()) != (id[e.first] == id[i])) tfail("registry", "the parent of a live element is not the field that is handed out for " + xs[i].desc()); }
                if (table) { std::lock_guard<std::mutex> l(tm); ta.evals++; if (holders[id[i]] && held[id[i]] != p.get()) tfail("registry", "two different fields are alive for " + xs[i].desc()); held[id[i]] = p.get(); holders[id[i]]++; ta.ev["cross-thread-identity"]++; }
                mine.push_back({i, p}); break; }
            case 3: case 4: if (!mine.empty()) drop(r.below(mine.size())); break;
            case 5: { // an element keeps its field alive
                if (!mine.empty()) { auto& m = mine[r.below(mine.size())]; elems.push_back({m.first, renf_elem_class(*m.second, (int)r.range(-5, 5))}); ta.ev["element"]++; if (r.chance(1, 2)) drop((size_t)(&m - &mine[0])); } break; }
            default: if (!elems.empty()) { size_t e = r.below(elems.size()); renf_elem_class c(elems[e].second); ta.evals++; if (c.parent().degree() != want[elems[e].first].deg) tfail("registry", "the parent of an element has changed"); if (r.chance(1, 2)) { std::swap(elems[e], elems.back()); elems.pop_back(); ta.ev["element-gone"]++; } }
            }
        }
        while (!mine.empty()) drop(mine.size() - 1);
    });
    delay_level.store(0); merge(tl, "registry"); note_counts(); event("threads:" + str((long)T));
    // afterwards nothing is left over: a fresh field can be made and used
    for (auto& x : xs) { FieldPtr p = make(x); evaluated(); if (p->gen() != p->gen() || p->degree() != x.ref->deg) fail("registry", "field is unusable afterwards: " + x.desc()); }
    sample("registry " + xs[0].desc() + " and " + str((long)xs.size() - 1) + " more, " + str((long)T) + " threads");
}
// all threads make and release the same fields at the same moment, over and over
static void m_burst(Rng& g, long) {
    int T = (int)g.range(2, 8), rounds = (int)g.range(3, 12); XSpec x = gen_xspec(g, 3); set_delays(g); step(x.desc());
    std::vector<std::unique_ptr<Gate>> gates; for (int i = 0; i < 3 * rounds; i++) gates.emplace_back(new Gate(T));
    std::vector<std::vector<const renf_class*>> got((size_t)rounds, std::vector<const renf_class*>((size_t)T)); Log log; std::vector<int> style; for (int i = 0; i < rounds; i++) style.push_back((int)g.below(3));
    auto tl = parallel(g, T, [&](Rng& r, int t, Tally& ta) {
        FieldPtr keep;
        for (int k = 0; k < rounds; k++) {
            gates[(size_t)(3 * k)]->wait();
            if (style[(size_t)k] == 2) { // release and make overlap
                if (t % 2) { maybe_delay(); keep.reset(); }
            } else keep.reset();
            ta.order.push_back({log.ticket.fetch_add(1, std::memory_order_relaxed), t * 64 + 1});
            FieldPtr p = make(x); ta.ev["make"]++; got[(size_t)k][(size_t)t] = p.get();
            gates[(size_t)(3 * k + 1)]->wait();
            for (int u = 0; u < T; u++) { ta.evals++; if (got[(size_t)k][(size_t)u] != p.get()) tfail("registry", "threads making the same field at the same time hold different fields: " + x.desc()); }
            if (keep) { ta.evals++; if (keep != p) tfail("registry", "field held from before is not the one handed out: " + x.desc()); }
            if (p->degree() != x.ref->deg) tfail("registry", "wrong degree");
            gates[(size_t)(3 * k + 2)]->wait();
            if (style[(size_t)k] == 0) { ta.order.push_back({log.ticket.fetch_add(1, std::memory_order_relaxed), t * 64 + 2}); p.reset(); keep.reset(); ta.ev["release"]++; }
            else if (style[(size_t)k] == 1) { keep = p; for (int c = (int)r.below(20); c > 0; c--) { FieldPtr q = p; if (r.chance(1, 2)) p = std::move(q); } ta.ev["copy"]++; }
            else keep = p;
        }
    });
    delay_level.store(0); merge(tl, "burst"); note_counts(); event("threads:" + str((long)T)); sample("burst " + x.desc() + ", " + str((long)T) + " threads, " + str((long)rounds) + " rounds");
}

// ------------------------------------------------------- prepared work with known answers
struct Work { int op; QP a, b, want; Q q; int cmp = 0; Z z; double d = 0; long e = 0; std::string s; };
enum { W_ADD, W_SUB, W_MUL, W_DIV, W_POW, W_CMP, W_FLOOR, W_CEIL, W_DBL, W_STR, W_PARSE, W_SCALAR, W_HASH, W_FDIV, W_CROSS, W_STREAM, W_GET, W_VECTOR, W_MISC, W_N };
static Work gen_work(Rng& g, const XSpec& x, int bits) {
    const RefField& f = *x.ref; Work w; std::string c;
    auto el = [&] { QP v; do v = gen_elem(g, f, &c, bits); while (fmpq_poly_is_zero(v.v) && g.chance(9, 10)); return v; };
    for (;;) {
        w.op = (int)g.below(W_N); w.a = el(); w.b = g.chance(1, 8) ? w.a : el();
        if ((w.op == W_DIV || w.op == W_FDIV) && fmpq_poly_is_zero(w.b.v)) continue;
        switch (w.op) {
        case W_ADD: fmpq_poly_add(w.want.v, w.a.v, w.b.v); break;
        case W_SUB: fmpq_poly_sub(w.want.v, w.a.v, w.b.v); break;
        case W_MUL: w.want = f.mul(w.a, w.b); break;
        case W_DIV: w.want = f.mul(w.a, f.inv(w.b)); break;
        case W_POW: w.e = g.range(0, 5); w.want = f.pow(w.a, (unsigned long)w.e); break;
        case W_CMP: w.cmp = f.cmp(w.a, w.b); break;
        case W_FLOOR: w.z = f.floor(w.a); break;
        case W_CEIL: w.z = f.ceil(w.a); break;
        case W_DBL: case W_HASH: ref_double(f, w.a, ARF_RND_NEAR, w.d); break;
        case W_STR: w.s = take(fmpq_poly_get_str_pretty(w.a.v, x.gen.c_str())); break;
        case W_PARSE: w.s = take(fmpq_poly_get_str_pretty(w.a.v, x.gen.c_str())); w.want = w.a; break;
        case W_SCALAR: w.q = rnd_q(g, 60); { QP s; fmpq_poly_set_fmpq(s.v, w.q.v); fmpq_poly_add(w.want.v, w.a.v, s.v); } break;
        case W_FDIV: w.z = f.floor(f.mul(w.a, f.inv(w.b))); break;
        case W_CROSS: w.q = g.chance(1, 2) ? q_z(rnd_z(g, 200)) : rnd_q(g, 100); w.e = g.range(0, 5); { QP s; fmpq_poly_set_fmpq(s.v, w.q.v);
            switch (w.e) { case 0: case 1: fmpq_poly_add(w.want.v, w.a.v, s.v); break; case 2: fmpq_poly_sub(w.want.v, s.v, w.a.v); break; case 3: w.want = f.mul(s, w.a); break; case 4: if (fmpq_poly_is_zero(w.a.v)) continue; w.want = f.mul(s, f.inv(w.a)); break; default: w.cmp = f.cmp_q(w.a, w.q); } } break;
        case W_VECTOR: case W_GET: case W_STREAM: w.want = w.a; break;
        case W_MISC: w.want = w.a; w.z = f.floor(w.a); w.e = g.chance(1, 3) ? (long)g.range(-9, 9) : g.chance(1, 2) ? (long)g.next() : (long)(w.z.v[0] < 0 ? -1 : 1); if (g.chance(1, 2)) { Z o = w.z; if (g.chance(1, 2)) fmpz_add_si(o.v, o.v, 1); if (fmpz_fits_si(o.v)) w.e = fmpz_get_si(o.v); } w.q = q_z(z_si(w.e)); w.cmp = f.cmp_q(w.a, w.q); break;
        }
        return w;
    }
}
static void do_work(const renf_class& K, const Work& w, Tally& ta, Rng& r, const std::string& fd) {
    ta.evals++; ta.ev["op:" + std::to_string(w.op)]++;
    auto bad = [&](const std::string& what, const std::string& got) { tfail("wrong-value", what + " of " + str(w.a) + " and " + str(w.b) + " gives " + got + " in " + fd); };
    renf_elem_class a = build(K, w.a);
    auto want = [&](const renf_elem_class& x, const char* what) { QP g = read(x); if (!fmpq_poly_equal(g.v, w.want.v)) bad(what, str(g)); if (&x.parent() != &K) bad(what, "an element of another field"); };
    switch (w.op) {
    case W_ADD: { renf_elem_class b = build(K, w.b); want(a + b, "sum"); if (r.chance(1, 2)) { a += b; want(a, "sum"); } break; }
    case W_SUB: want(a - build(K, w.b), "difference"); break;
    case W_MUL: want(a * build(K, w.b), "product"); break;
    case W_DIV: want(a / build(K, w.b), "quotient"); break;
    case W_POW: want(a.pow((int)w.e), "power"); break;
    case W_CMP: { renf_elem_class b = build(K, w.b); int s = a < b ? -1 : a == b ? 0 : 1; if (s != w.cmp) bad("comparison", std::to_string(s)); break; }
    case W_FLOOR: { mpz_class z = a.floor(); if (z != to_mpz(w.z)) bad("floor", z.get_str()); break; }
    case W_CEIL: { mpz_class z = a.ceil(); if (z != to_mpz(w.z)) bad("ceil", z.get_str()); break; }
    case W_FDIV: { mpz_class z = a.floordiv(build(K, w.b)); if (z != to_mpz(w.z)) bad("floordiv", z.get_str()); break; }
    case W_DBL: { double d = static_cast<double>(a); if (d != w.d) bad("double", std::to_string(d)); break; }
    case W_HASH: { if (std::hash<renf_elem_class>()(a) != std::hash<renf_elem_class>()(renf_elem_class(a))) bad("hash", "different values"); break; }
    case W_STR: { std::string s = a.to_string(EANTIC_STR_ALG); if (s.find(w.s) == std::string::npos && !fmpq_poly_is_zero(w.a.v)) { renf_elem_class b(K, s); if (!fmpq_poly_equal(read(b).v, w.a.v)) bad("string", s); } break; }
    case W_PARSE: want(renf_elem_class(K, w.s), "reading"); break;
    case W_CROSS: { // a rational in the rational field, an element in this field
        renf_elem_class q(to_mpq(w.q)); bool rat = RefField::is_rational(w.a);
        auto in = [&](const renf_elem_class& x, const char* what) { QP g = read(x); if (!fmpq_poly_equal(g.v, w.want.v)) bad(std::string(what) + " of the rational " + str(w.q) + ":", str(g)); if (!rat && &x.parent() != &K) bad(what, "an element of another field"); };
        switch (w.e) { case 0: in(q + a, "sum"); break; case 1: in(a + q, "sum"); break; case 2: in(q - a, "difference"); break; case 3: in(q * a, "product"); break; case 4: in(q / a, "quotient"); break;
        default: { int s = a < q ? -1 : a == q ? 0 : 1, t = q < a ? 1 : q == a ? 0 : -1; if (s != w.cmp || t != w.cmp) bad("comparison with the rational " + str(w.q) + ":", std::to_string(s) + " and " + std::to_string(t)); } }
        break; }
    case W_STREAM: { std::stringstream s; s << a; s.seekg(0); K.set_pword(s); renf_elem_class b; s >> b; want(b, "writing and reading"); break; }
    case W_GET: { std::vector<mpz_class> v = a.num_vector(); mpz_class d = a.den(); QP p; for (size_t i = 0; i < v.size(); i++) { Z z = from_mpz(v[i]); fmpq_poly_set_coeff_fmpz(p.v, (slong)i, z.v); } Z z = from_mpz(d); fmpq_poly_scalar_div_fmpz(p.v, p.v, z.v); if (!fmpq_poly_equal(p.v, w.a.v)) bad("num_vector", str(p)); if (RefField::is_rational(w.a) && static_cast<mpq_class>(a) != to_mpq(RefField::rational(w.a))) bad("mpq_class", "something else"); break; }
    case W_VECTOR: { std::vector<mpq_class> v; for (slong i = 0; i < fmpq_poly_length(w.a.v); i++) { Q c; fmpq_poly_get_coeff_fmpq(c.v, w.a.v, i); v.push_back(to_mpq(c)); } want(renf_elem_class(K, v), "element with given coefficients"); break; }
    case W_MISC: { // accessors, predicates and machine integers
        mpz_class c = a.num_content(), h = 0; for (auto& v : a.num_vector()) h = gcd(h, v); if (c != h) bad("num_content", c.get_str());
        bool rat = RefField::is_rational(w.a); Q q; if (rat) q = RefField::rational(w.a);
        if (a.is_rational() != rat || a.is_zero() != (bool)fmpq_poly_is_zero(w.a.v) || a.is_one() != (bool)fmpq_poly_is_one(w.a.v) || a.is_integer() != (rat && fmpz_is_one(fmpq_denref(q.v)))) bad("predicate", "a wrong answer");
        if ((a < w.e ? -1 : a == w.e ? 0 : 1) != w.cmp || (a > (long long)w.e) != (w.cmp > 0) || (a < mpz_class(w.e)) != (w.cmp < 0) || (a == mpq_class(w.e)) != (w.cmp == 0) || a.sgn() != (a > 0) - (a < 0)) bad("comparison with " + std::to_string(w.e), "a wrong answer");
        unsigned long long u = (unsigned long long)w.e | 1; renf_elem_class b = a; b += (short)7; b *= u; b -= mpz_class(mpz_class(7) * mpz_class((unsigned long)u)); b /= u; want(b, "arithmetic with machine integers"); b = -(-b); want(b, "negation"); want(+b, "plus");
        for (int fl : {EANTIC_STR_ALG, EANTIC_STR_D, EANTIC_STR_ALG | EANTIC_STR_D, EANTIC_STR_ALG | EANTIC_STR_ARB}) { std::string t = a.to_string(fl); if (fl == EANTIC_STR_ALG) want(renf_elem_class(K, t), "reading what was printed"); }
        std::ostringstream o1, o2; o1 << K; o2 << K; if (o1.str().empty()) bad("printing", "nothing");
        { Arb x; renf_elem_get_arb(x.v, a.renf_elem_t(), K.renf_t(), r.range(10, 150)); }
        { renf_elem_class m(K); fmpz* cf = _fmpz_vec_init(4); slong n = renf_elem_get_cfrac(cf, m.renf_elem_t(), a.renf_elem_t(), 4, K.renf_t()); bool ok = fmpq_poly_is_zero(w.a.v) ? n == 0 : n > 0 && fmpz_equal(cf, w.z.v); _fmpz_vec_clear(cf, 4); if (!ok) bad("continued fraction", "a wrong first term"); }
        ta.ev["misc"]++; break; }
    case W_SCALAR: want(r.chance(1, 2) ? a + to_mpq(w.q) : to_mpq(w.q) + a, "sum with a rational"); break;
    }
}
// One field, refined once and then declared immutable, is used by all threads with elements of their own
static void m_shared(Rng& g, long) {
    XSpec x = gen_xspec(g, 5); int T = (int)g.range(2, 8), per = (int)g.range(3, 12); FieldPtr K = make(x);
    renf_refine_embedding(K->renf_t(), 6000); double dg = static_cast<double>(K->gen()); (void)dg;
    std::vector<std::vector<Work>> ws((size_t)T); for (auto& v : ws) for (int i = 0; i < per; i++) v.push_back(gen_work(g, x, 40));
    QP sv = gen_elem(g, *x.ref, nullptr, 40); renf_elem_class shared_elem = build(*K, sv); Arb before; arb_set(before.v, K->renf_t()->emb);
    renf_set_immutable(K->renf_t(), 1); set_delays(g); Log log; step(x.desc() + " threads " + str((long)T)); std::string fd = x.desc();
    { // the answers must be possible without refining: dry run in one thread
        Tally ta; Rng r(1); for (auto& v : ws) for (auto& w : v) do_work(*K, w, ta, r, fd); }
    auto tl = parallel(g, T, [&](Rng& r, int t, Tally& ta) {
        std::vector<renf_elem_class> mine;
        for (auto& w : ws[(size_t)t]) {
            ta.order.push_back({log.ticket.fetch_add(1, std::memory_order_relaxed), t * 64 + w.op});
            do_work(*K, w, ta, r, fd);
            switch (r.below(6)) {
            case 0: mine.push_back(shared_elem); ta.ev["shared-element-copied"]++; break;                     // copying only reads
            case 1: mine.push_back(renf_elem_class(K->gen())); ta.ev["generator-copied"]++; break;
            case 2: { FieldPtr p = make(x); ta.evals++; if (p != K) tfail("registry", "the shared field is not handed out again: " + fd); ta.ev["make-shared"]++; break; }
            case 3: { renf_elem_class y = shared_elem + K->one(); QP o; fmpq_poly_one(o.v); fmpq_poly_add(o.v, o.v, sv.v); ta.evals++; if (!fmpq_poly_equal(read(y).v, o.v)) tfail("wrong-value", "shared element + 1 is wrong in " + fd); ta.ev["shared-element-read"]++; break; }
            case 4: if (!mine.empty()) { size_t k = r.below(mine.size()); renf_elem_class c = mine[k]; mine[k] = std::move(mine.back()); mine.pop_back(); ta.evals++; QP got = read(c), q = x.ref->deg == 1 ? got : got; if (!fmpq_poly_equal(got.v, sv.v) && &c.parent() != K.get()) tfail("wrong-value", "copy of a shared element is wrong in " + fd); } break;
            default: { renf_elem_class z(*K); z = (int)r.range(-3, 3); FieldPtr k2 = K; ta.ev["handle-copied"]++; break; }
            }
        }
    });
    delay_level.store(0); renf_set_immutable(K->renf_t(), 0); evaluated();
    if (!arb_equal(before.v, K->renf_t()->emb)) fail("immutable", "the embedding of an immutable field has changed: " + fd);
    merge(tl, "shared"); note_counts(); event("threads:" + str((long)T)); sample("shared " + fd + ", " + str((long)T) + " threads");
}
// Every thread uses fields of its own, refining them as it likes
static void m_private(Rng& g, long) {
    int T = (int)g.range(2, 8), per = (int)g.range(3, 10); std::vector<XSpec> xs; std::vector<std::vector<Work>> ws((size_t)T); bool alike = g.chance(1, 2); XSpec base = gen_xspec(g, 5);
    for (int t = 0; t < T; t++) { // the name of the generator makes the fields different
        XSpec x = alike ? base : gen_xspec(g, 5); x.gen = std::string(1, (char)('p' + t));
        if (!alike) { bool distinct = true; for (auto& y : xs) distinct = distinct && !fmpq_poly_equal(y.ref->pol.v, x.ref->pol.v); if (distinct) x.gen = "a"; } x.minpoly = take(fmpq_poly_get_str_pretty(x.ref->pol.v, x.gen.c_str())); xs.push_back(x);
        for (int i = 0; i < per; i++) ws[(size_t)t].push_back(gen_work(g, x, 120)); step(x.desc()); }
    // the same field in C, as independent copies
    renf_t origin; QP p = base.ref->pol; Arb b; std::string bk; gen_ball(g, *base.ref, base.ref->index, b, bk); renf_init(origin, p.v, b.v, 64);
    std::vector<renf> copies((size_t)T); for (auto& c : copies) renf_init_set(&c, origin);
    std::vector<std::vector<Work>> cw((size_t)T); for (auto& v : cw) for (int i = 0; i < per; i++) v.push_back(gen_work(g, base, 120));
    // polynomials for the root isolation helpers
    std::vector<ZP> polys; std::vector<long> nroots; std::vector<std::string> fd; for (auto& x : xs) fd.push_back(x.desc());
    for (int t = 0; t < T; t++) { std::string kind; ZP q = gen_minpoly(g, kind, 6); polys.push_back(q); if (fmpz_poly_degree(q.v) == 1) nroots.push_back(1); else { RootFinder rf; rf.init(q); nroots.push_back((long)rf.isolate().size()); } }
    set_delays(g); Log log;
    auto tl = parallel(g, T, [&](Rng& r, int t, Tally& ta) {
        FieldPtr K = make(xs[(size_t)t]); renf* nf = &copies[(size_t)t];
        for (int i = 0; i < per; i++) {
            const Work& w = ws[(size_t)t][(size_t)i]; ta.order.push_back({log.ticket.fetch_add(1, std::memory_order_relaxed), t * 64 + w.op});
            do_work(*K, w, ta, r, fd[(size_t)t]);
            if (r.chance(1, 6)) { renf_refine_embedding(K->renf_t(), r.range(64, 400)); ta.ev["own-field-refined"]++; }
            if (r.chance(1, 6)) { K.reset(); K = make(xs[(size_t)t]); ta.ev["own-field-remade"]++; }
            { // C interface on the copy
                const Work& v = cw[(size_t)t][(size_t)i]; renf_elem_t a, c, d; renf_elem_init(a, nf); renf_elem_init(c, nf); renf_elem_init(d, nf); renf_elem_set_fmpq_poly(a, v.a.v, nf); renf_elem_set_fmpq_poly(c, v.b.v, nf);
                ta.evals++; ta.ev["c-op"]++; bool ok = true; Z z; QP got;
                auto val = [&](const renf_elem_t e) { QP q; nf_elem_get_fmpq_poly(q.v, e->elem, nf->nf); return q; };
                switch (v.op) {
                case W_ADD: renf_elem_add(d, a, c, nf); ok = fmpq_poly_equal(val(d).v, v.want.v); break;
                case W_SUB: renf_elem_sub(d, a, c, nf); ok = fmpq_poly_equal(val(d).v, v.want.v); break;
                case W_MUL: renf_elem_mul(d, a, c, nf); ok = fmpq_poly_equal(val(d).v, v.want.v); break;
                case W_DIV: renf_elem_div(d, a, c, nf); ok = fmpq_poly_equal(val(d).v, v.want.v); break;
                case W_POW: renf_elem_pow(d, a, (ulong)v.e, nf); ok = fmpq_poly_equal(val(d).v, v.want.v); break;
                case W_CMP: { int s = renf_elem_cmp(a, c, nf); ok = (s > 0) - (s < 0) == v.cmp; break; }
                case W_FLOOR: renf_elem_floor(z.v, a, nf); ok = fmpz_equal(z.v, v.z.v); break;
                case W_CEIL: renf_elem_ceil(z.v, a, nf); ok = fmpz_equal(z.v, v.z.v); break;
                case W_FDIV: renf_elem_fdiv(z.v, a, c, nf); ok = fmpz_equal(z.v, v.z.v); break;
                case W_DBL: ok = renf_elem_get_d(a, nf, ARF_RND_NEAR) == v.d; break;
                default: { char* s = renf_elem_get_str_pretty(a, "x", nf, 10, EANTIC_STR_ALG | EANTIC_STR_D); flint_free(s); break; }
                }
                if (!ok) tfail("wrong-value", "C operation " + std::to_string(v.op) + " on " + str(v.a) + " and " + str(v.b) + " is wrong in a copy of " + fd[(size_t)t]);
                renf_elem_clear(a, nf); renf_elem_clear(c, nf); renf_elem_clear(d, nf);
            }
            if (i == 0) { // helpers
                ZP& q = polys[(size_t)t]; slong m = (slong)nroots[(size_t)t], len = fmpz_poly_length(q.v); fmpz* cc = _fmpz_vec_init(len + 2); slong* kk = (slong*)malloc(sizeof(slong) * (size_t)(len + 2)); slong ne = 0, ni = 0; fmpq* ex = _fmpq_vec_init(len + 2);
                fmpz_poly_isolate_real_roots(ex, &ne, cc, kk, &ni, q.v); ta.evals++; ta.ev["isolate"]++;
                if (ne + ni != m || fmpz_poly_num_real_roots(q.v) != m) tfail("wrong-value", "number of real roots of " + str(q));
                _fmpq_vec_clear(ex, len + 2); free(kk); _fmpz_vec_clear(cc, len + 2);
            }
        }
    });
    delay_level.store(0); for (auto& c : copies) renf_clear(&c); renf_clear(origin); merge(tl, "private"); note_counts(); event("threads:" + str((long)T)); event(alike ? "alike-fields" : "unrelated-fields"); sample("private " + fd[0] + ", " + str((long)T) + " threads");
}
// elements travel between threads
static void m_handoff(Rng& g, long) {
    int T = (int)g.range(2, 6), per = (int)g.range(4, 20); std::vector<XSpec> xs; for (int i = 0; i < 3; i++) xs.push_back(gen_xspec(g, 4)); std::vector<std::vector<std::pair<int, QP>>> vals((size_t)T);
    for (auto& v : vals) for (int i = 0; i < per; i++) { int k = (int)g.below(3); v.push_back({k, gen_elem(g, *xs[(size_t)k].ref, nullptr, 150)}); }
    struct Parcel { int f, t, i; renf_elem_class e; FieldPtr p; }; std::mutex qm; std::vector<Parcel> box; std::atomic<int> left{T * per}; set_delays(g); Log log; for (auto& x : xs) step(x.desc());
    std::vector<FieldPtr> base; if (g.chance(1, 2)) for (auto& x : xs) { base.push_back(make(x)); renf_refine_embedding(base.back()->renf_t(), 3000); }
    auto tl = parallel(g, T, [&](Rng& r, int t, Tally& ta) {
        int sent = 0;
        while (sent < per || left.load(std::memory_order_relaxed) > 0) {
            if (sent < per && r.chance(1, 2)) { auto& v = vals[(size_t)t][(size_t)sent]; FieldPtr p = make(xs[(size_t)v.first]); Parcel c{v.first, t, sent, build(*p, v.second), r.chance(1, 2) ? p : FieldPtr()}; ta.order.push_back({log.ticket.fetch_add(1, std::memory_order_relaxed), t * 64 + 1}); std::lock_guard<std::mutex> l(qm); box.push_back(std::move(c)); sent++; ta.ev["sent"]++; }
            else {
                std::unique_ptr<Parcel> c; { std::lock_guard<std::mutex> l(qm); if (!box.empty()) { size_t k = r.below(box.size()); std::swap(box[k], box.back()); c.reset(new Parcel(std::move(box.back()))); box.pop_back(); } }
                if (!c) { sched_yield(); continue; }
                ta.order.push_back({log.ticket.fetch_add(1, std::memory_order_relaxed), t * 64 + 2}); ta.evals += 2; ta.ev["received"]++; if (c->t != t) ta.ev["received-from-other"]++;
                QP got = read(c->e); if (!fmpq_poly_equal(got.v, vals[(size_t)c->t][(size_t)c->i].second.v)) tfail("wrong-value", "element arrives as " + str(got) + " in " + xs[(size_t)c->f].desc());
                if (c->p && c->p.get() != &c->e.parent()) tfail("registry", "parent of an element has changed"); if (make(xs[(size_t)c->f]).get() != &c->e.parent()) tfail("registry", "parent of a live element is not the field that is handed out");
                if (r.chance(1, 2)) { renf_elem_class s = c->e; c.reset(); if (!fmpq_poly_equal(read(s).v, got.v)) tfail("wrong-value", "copy of an element is wrong"); }
                left.fetch_sub(1, std::memory_order_relaxed);
            }
        }
    });
    delay_level.store(0); merge(tl, "handoff"); note_counts(); event("threads:" + str((long)T)); sample("handoff " + xs[0].desc() + ", " + str((long)T) + " threads");
}
// the first use of the library in a process, by several threads at once: the rational field is made on demand
static void first_use_once() {
    static bool done = false; if (done) return; done = true;
    const int T = 6; std::atomic<int> ready{0}; std::vector<std::thread> th; std::vector<const renf_class*> got((size_t)T, nullptr);
    std::vector<std::string> said((size_t)T);
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
        if (t % 3 == 0) got[(size_t)t] = &renf_class::make();
        else if (t % 3 == 1) { renf_elem_class x; x += 7; got[(size_t)t] = &x.parent(); said[(size_t)t] = x.to_string(EANTIC_STR_ALG); }
        else { renf_elem_class x(mpq_class(7, 2)); x *= 2; got[(size_t)t] = &x.parent(); said[(size_t)t] = x.to_string(EANTIC_STR_ALG); }
    });
    for (auto& t : th) t.join();
    for (int t = 0; t < T; t++) {
        if (got[(size_t)t] != &renf_class::make()) fail("registry", "threads using the library for the first time got different rational fields");
        if (t % 3 && said[(size_t)t] != "7") fail("value", "first use of a rational number gives " + said[(size_t)t] + " instead of 7");
    }
    event("first-use"); evaluated(2 * T);
}
static void m_all(Rng& g, long i) { first_use_once(); switch (g.below(5)) { case 0: event("kind:registry"); m_registry(g, i); break; case 1: event("kind:burst"); m_burst(g, i); break; case 2: event("kind:shared"); m_shared(g, i); break; case 3: event("kind:private"); m_private(g, i); break; default: event("kind:handoff"); m_handoff(g, i); } }
int main(int argc, char** argv) { quiet_cerr(); return vf::run(argc, argv, {{"threads", m_all}, {"registry", m_registry}, {"burst", m_burst}, {"shared", m_shared}, {"private", m_private}, {"handoff", m_handoff}}); }
