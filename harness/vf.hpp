// Common runtime for all monitors: deterministic randomness, event recording,
// violation reporting, RAII wrappers for FLINT types.
#pragma once
#include <flint/flint.h>
#include <flint/fmpz.h>
#include <flint/fmpz_vec.h>
#include <flint/fmpz_poly.h>
#include <flint/fmpz_poly_factor.h>
#include <flint/fmpq.h>
#include <flint/fmpq_vec.h>
#include <flint/ulong_extras.h>
#include <flint/fmpq_poly.h>
#include <flint/arf.h>
#include <flint/arb.h>
#include <flint/acb.h>
#include <flint/arb_fmpz_poly.h>
#include <flint/nf.h>
#include <flint/nf_elem.h>
#include <gmpxx.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>

namespace vf {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
    bool chance(int num, int den) { return (int)below((uint64_t)den) < num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- reporting
struct Ctx {
    std::string mode, tier, replay_note;
    uint64_t seed = 1;
    long cur = -1;                 // current case
    std::map<std::string, long> events;   // monitored events by kind
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    long evaluations = 0;          // oracle decisions
    volatile long* state = nullptr;
    std::vector<std::string> trail; // operations of the current case
    bool keep_trail = true;
    double slowest = 0; long slowest_case = -1;
};
inline Ctx& ctx() { static Ctx c; return c; }

inline uint64_t fnv(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}
inline void event(const std::string& k, long n = 1) { ctx().events[k] += n; }
inline void situation(const std::string& k) { ctx().distinct.insert(fnv(k)); }
inline void evaluated(long n = 1) { ctx().evaluations += n; }
inline void sample(const std::string& s) {
    if (ctx().samples.size() < 12) ctx().samples.push_back(s.substr(0, 300));
}
inline void step(const std::string& s) {
    static const bool verbose = getenv("VF_VERBOSE") != nullptr;
    if (verbose) fprintf(stderr, "VF-STEP|%ld|%s\n", ctx().cur, s.c_str());
    if (ctx().keep_trail && ctx().trail.size() < 4000) ctx().trail.push_back(s);
}
[[noreturn]] inline void fail(const std::string& kind, const std::string& msg) {
    printf("\nVF-FAIL|%s|case=%ld|kind=%s|%s\n", ctx().mode.c_str(), ctx().cur, kind.c_str(), msg.c_str());
    size_t n = ctx().trail.size(), from = n > 40 ? n - 40 : 0;
    for (size_t i = from; i < n; i++) printf("VF-TRAIL|%s\n", ctx().trail[i].c_str());
    fflush(stdout);
    _exit(77);
}
[[noreturn]] inline void harness_error(const std::string& msg) {
    printf("\nVF-ERROR|%s|case=%ld|%s\n", ctx().mode.c_str(), ctx().cur, msg.c_str());
    fflush(stdout);
    _exit(78);
}

// ---------------------------------------------------------------- wrappers
#define VF_WRAP(NAME, T, INIT, CLEAR, SET)                                     \
    struct NAME {                                                              \
        T v;                                                                   \
        NAME() { INIT(v); }                                                    \
        NAME(const NAME& o) { INIT(v); SET(v, o.v); }                          \
        NAME& operator=(const NAME& o) { if (this != &o) SET(v, o.v); return *this; } \
        ~NAME() { CLEAR(v); }                                                  \
    };
VF_WRAP(Z, fmpz_t, fmpz_init, fmpz_clear, fmpz_set)
VF_WRAP(Q, fmpq_t, fmpq_init, fmpq_clear, fmpq_set)
VF_WRAP(ZP, fmpz_poly_t, fmpz_poly_init, fmpz_poly_clear, fmpz_poly_set)
VF_WRAP(QP, fmpq_poly_t, fmpq_poly_init, fmpq_poly_clear, fmpq_poly_set)
VF_WRAP(Arb, arb_t, arb_init, arb_clear, arb_set)
VF_WRAP(Arf, arf_t, arf_init, arf_clear, arf_set)

inline std::string take(char* s) { std::string r = s ? s : "(null)"; flint_free(s); return r; }
inline std::string str(const Z& a) { return take(fmpz_get_str(nullptr, 10, a.v)); }
inline std::string str(const Q& a) { return take(fmpq_get_str(nullptr, 10, a.v)); }
inline std::string str(const QP& a) { return take(fmpq_poly_get_str_pretty(a.v, "x")); }
inline std::string str(const ZP& a) { return take(fmpz_poly_get_str_pretty(a.v, "x")); }
inline std::string str_arb(const arb_t a, long d = 30) { return take(arb_get_str(a, d, ARB_STR_MORE)); }
inline std::string str(long a) { return std::to_string(a); }

inline mpz_class to_mpz(const Z& a) { mpz_class r; fmpz_get_mpz(r.get_mpz_t(), a.v); return r; }
inline mpq_class to_mpq(const Q& a) { mpq_class r; fmpq_get_mpq(r.get_mpq_t(), a.v); return r; }
inline Q from_mpq(const mpq_class& a) { Q r; fmpq_set_mpq(r.v, a.get_mpq_t()); return r; }
inline Z from_mpz(const mpz_class& a) { Z r; fmpz_set_mpz(r.v, a.get_mpz_t()); return r; }
inline Q q_si(long a, unsigned long b = 1) { Q r; fmpq_set_si(r.v, a, b); return r; }
inline Z z_si(long a) { Z r; fmpz_set_si(r.v, a); return r; }
inline Z z_ui(unsigned long a) { Z r; fmpz_set_ui(r.v, a); return r; }
inline Q q_z(const Z& a) { Q r; fmpq_set_fmpz(r.v, a.v); return r; }

// --------------------------------------------------------------- generators
inline Z rnd_bits(Rng& g, int bits) {
    Z r;
    for (int i = 0; i < bits; i += 32) {
        fmpz_mul_2exp(r.v, r.v, 32);
        fmpz_add_ui(r.v, r.v, g.next() & 0xffffffffu);
    }
    fmpz_fdiv_r_2exp(r.v, r.v, (ulong)bits);
    return r;
}
// integers of all interesting sizes (machine boundaries, FLINT small/big boundary, huge)
inline Z rnd_z(Rng& g, int maxbits = 200) {
    Z r;
    switch (g.below(10)) {
    case 0: r = z_si(g.range(-3, 3)); return r;
    case 1: case 2: r = z_si(g.range(-100, 100)); return r;
    case 3: { static const std::vector<long> b = {31, 32, 61, 62, 63, 64, 15, 16, 53, 127, 128};
        fmpz_one(r.v); fmpz_mul_2exp(r.v, r.v, (ulong)g.pick(b)); fmpz_add_si(r.v, r.v, g.range(-2, 2)); break; }
    case 4: case 5: r = rnd_bits(g, (int)g.range(1, 32)); break;
    case 6: case 7: r = rnd_bits(g, (int)g.range(32, 70)); break;
    default: r = rnd_bits(g, maxbits >= 120 && g.chance(1, 60) ? (int)g.range(400, 3000) : (int)g.range(1, maxbits)); break;
    }
    if (g.chance(1, 2)) fmpz_neg(r.v, r.v);
    return r;
}
inline Q rnd_q(Rng& g, int maxbits = 120) {
    Q r; Z n = rnd_z(g, maxbits), d;
    if (g.chance(1, 3)) fmpz_one(d.v);
    else do { d = g.chance(2, 3) ? z_si(g.range(1, 60)) : rnd_z(g, maxbits); fmpz_abs(d.v, d.v); } while (fmpz_is_zero(d.v));
    fmpq_set_fmpz_frac(r.v, n.v, d.v);
    return r;
}

// ---------------------------------------------------------------- main loop
struct Options { long from = 0, count = 100, stride = 1; std::string out, state; long cpu = 60; long deadline = 0; };
typedef std::function<void(Rng&, long)> CaseFn;

inline void on_cpu_limit(int) {
    char b[200];
    int n = snprintf(b, sizeof b, "\nVF-FAIL|%s|case=%ld|kind=nontermination|no answer within the CPU budget of one case\n", ctx().mode.c_str(), ctx().cur);
    if (write(1, b, (size_t)n)) {}
    for (auto& t : ctx().trail) { if (&t + 8 > &ctx().trail.back()) { if (write(1, "VF-TRAIL|", 9)) {} if (write(1, t.c_str(), t.size())) {} if (write(1, "\n", 1)) {} } }
    _exit(79);
}

inline std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
inline void write_summary(const std::string& path, long cases) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) harness_error("cannot write " + path);
    fprintf(f, "{\"mode\":%s,\"cases\":%ld,\"slowest\":[%.3f,%ld],\"evaluations\":%ld,\"events\":{", jstr(ctx().mode).c_str(), cases, ctx().slowest, ctx().slowest_case, ctx().evaluations);
    bool first = true;
    for (auto& e : ctx().events) { fprintf(f, "%s%s:%ld", first ? "" : ",", jstr(e.first).c_str(), e.second); first = false; }
    fprintf(f, "},\"distinct\":[");
    first = true;
    for (auto d : ctx().distinct) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)d); first = false; }
    fprintf(f, "],\"samples\":[");
    first = true;
    for (auto& s : ctx().samples) { fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
}

inline int run(int argc, char** argv, const std::map<std::string, CaseFn>& modes) {
    Options o;
    if (argc < 2 || !modes.count(argv[1])) { fprintf(stderr, "modes:"); for (auto& m : modes) fprintf(stderr, " %s", m.first.c_str()); fprintf(stderr, "\n"); return 2; }
    ctx().mode = argv[1];
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") ctx().seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--from") o.from = atol(v.c_str());
        else if (k == "--count") o.count = atol(v.c_str());
        else if (k == "--stride") o.stride = atol(v.c_str());
        else if (k == "--out") o.out = v;
        else if (k == "--state") o.state = v;
        else if (k == "--cpu") o.cpu = atol(v.c_str());
        else if (k == "--deadline") o.deadline = atol(v.c_str());
        else if (k == "--tier") ctx().tier = v;
        else return 2;
    }
    if (!o.state.empty()) {
        int fd = open(o.state.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 64)) return 2;
        ctx().state = (long*)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    signal(SIGPROF, on_cpu_limit);
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    const CaseFn& fn = modes.at(argv[1]);
    struct timeval t0; gettimeofday(&t0, nullptr);
    long done = 0;
    for (long i = 0; i < o.count; i++) {
        if (o.deadline) { struct timeval t; gettimeofday(&t, nullptr); if (t.tv_sec - t0.tv_sec > o.deadline) { event("truncated-by-watchdog"); break; } }
        long idx = o.from + i * o.stride;
        ctx().cur = idx;
        if (ctx().state) ctx().state[0] = idx;
        ctx().trail.clear();
        struct itimerval it = {{0, 0}, {o.cpu, 0}};
        setitimer(ITIMER_PROF, &it, nullptr);
        Rng g(ctx().seed * 1000003ULL + (uint64_t)idx * 7919ULL + fnv(ctx().mode));
        fn(g, idx);
        done++;
        { struct itimerval left; getitimer(ITIMER_PROF, &left); double used = (double)o.cpu - (double)left.it_value.tv_sec - 1e-6 * (double)left.it_value.tv_usec; if (used > ctx().slowest) { ctx().slowest = used; ctx().slowest_case = idx; } }
    }
    struct itimerval off = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &off, nullptr);
    if (ctx().state) ctx().state[0] = -2;
    ctx().cur = -2;
    if (!o.out.empty()) write_summary(o.out, done);
    flint_cleanup();
    return 0;
}

}  // namespace vf
