// Modes of the C harness: fields, root isolation, strings, precision independence, memory
#pragma once

// run `fn` in a child process; true if the child died by SIGABRT
template <class F> static bool dies(F fn) {
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) harness_error("fork failed");
    if (p == 0) {
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
        signal(SIGABRT, SIG_DFL);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        fn();
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) if (errno != EINTR) harness_error("waitpid failed");
    return WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0);
}

// ------------------------------------------------------------------ field
// a random ball which may contain any number of roots
static Arb any_ball(Rng& g, const RefField& f) {
    Arb b;
    long i = (long)g.below((uint64_t)f.nreal);
    switch (g.below(6)) {
    case 0: { std::string k; gen_ball(g, f, i, b, k); break; }
    case 1: { // an interval between two points near roots
        long j = (long)g.below((uint64_t)f.nreal);
        f.ensure(64);
        Arf l, r; arf_set_round(l.v, arb_midref(f.roots[(size_t)i].v), g.range(2, 60), ARF_RND_FLOOR); arf_set_round(r.v, arb_midref(f.roots[(size_t)j].v), g.range(2, 60), ARF_RND_CEIL);
        if (arf_cmp(l.v, r.v) > 0) arf_swap(l.v, r.v);
        arb_set_interval_arf(b.v, l.v, r.v, g.range(4, 100)); break; }
    case 2: { // barely including or missing a root
        slong p = g.range(4, 120); f.ensure(p + 64);
        Arf x, d; arf_set_round(x.v, arb_midref(f.roots[(size_t)i].v), p, g.chance(1, 2) ? ARF_RND_FLOOR : ARF_RND_CEIL);
        arf_set_si_2exp_si(d.v, 1, g.range(-30, 3));
        if (g.chance(1, 2)) arf_neg(d.v, d.v);
        arf_add(x.v, x.v, d.v, ARF_PREC_EXACT, ARF_RND_DOWN);   // the centre; one end of the ball is the approximation
        arb_set_arf(b.v, x.v); arf_get_mag(arb_radref(b.v), d.v); break; }
    case 3: { arb_set_si(b.v, g.range(-20, 20)); arb_mul_2exp_si(b.v, b.v, g.range(-6, 3)); arb_add_error_2exp_si(b.v, g.range(-8, 4)); break; }
    default: { // centred at an approximation with arbitrary radius
        slong p = g.range(2, 100); f.ensure(64);
        arf_set_round(arb_midref(b.v), arb_midref(f.roots[(size_t)i].v), p, ARF_RND_NEAR);
        Arb t; arb_get_mag(arb_radref(t.v), f.roots[(size_t)i].v); mag_mul_2exp_si(arb_radref(t.v), arb_radref(t.v), g.range(-p - 4, 4)); arb_add_error(b.v, t.v); mag_set(arb_radref(b.v), arb_radref(t.v)); break; }
    }
    return b;
}
static void field_state(CField& K, const std::string& when, slong minacc) {
    check_field_ball(K, when);
    evaluated();
    if (K.ref().deg > 1 && K.acc() < minacc) fail("refine-precision", when + ": the enclosure [" + str_arb(K.nf->emb) + "] has only " + str((long)K.acc()) + " bits instead of " + str((long)minacc) + " in " + K.spec.desc());
}
static void check_gen(CField& K) {
    CElem x(K.nf); renf_elem_gen(x.a, K.nf); evaluated();
    if (!fmpq_poly_equal(x.get().v, K.ref().gen().v)) fail("gen", "the generator is " + str(x.get()) + " in " + K.spec.desc());
    if (!K.ref().contained(x.a->emb, K.ref().gen())) fail("gen", "the enclosure of the generator is wrong in " + K.spec.desc());
    if (renf_degree(K.nf) != K.ref().deg) fail("degree", "degree is " + str((long)renf_degree(K.nf)));
}
// does the call end the process with abort()?  (run in a child; what the child prints is dropped)
template <typename F> static bool aborts(F&& what) {
    fflush(stdout); pid_t pid = fork();
    if (pid < 0) harness_error("fork");
    if (!pid) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); alarm(120); what(); _exit(0); }
    int st; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) harness_error("waitpid");
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) harness_error("child was killed");
    return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}
static void m_field(Rng& g, long) {
    FieldSpec s = gen_field(g, 10, {4, 8, 16, 32, 53, 64, 64, 128, 256, 600});
    const RefField& f = *s.ref;
    event("field:" + s.kind); event("ball:" + s.ballkind); step(s.desc());
    // 1. which balls define a root
    for (int k = 0; k < 4; k++) {
        Arb b = any_ball(g, f); slong p = g.chance(1, 2) ? 64 : g.range(2, 200); QP pol = f.pol;
        int n = roots_in_ball(f, b.v); step("check_unique [" + str_arb(b.v) + "] prec " + str((long)p));
        int got = fmpq_poly_check_unique_real_root(pol.v, b.v, p); evaluated(); event("unique-check:" + str((long)(n > 2 ? 2 : n)));
        situation("unique|" + s.kind + degclass(f.deg) + precclass(p) + str((long)(n > 2 ? 2 : n)));
        if ((got != 0) != (n == 1)) fail("unique-root", "check_unique_real_root answers " + str((long)got) + " for a ball with " + str((long)n) + " roots: [" + str_arb(b.v) + "] prec " + str((long)p) + " for " + str(f.pol));
        if (!arb_is_finite(b.v)) continue;
        if (n != 1 && g.chance(1, 12)) {
            evaluated(); event("init-refused");
            if (!aborts([&] { renf_t nf; renf_init(nf, pol.v, b.v, p < 8 ? 8 : p); })) fail("init-refused", "renf_init accepts a ball with " + str((long)n) + " roots: [" + str_arb(b.v) + "] for " + str(f.pol));
        } else if (n == 1 && g.chance(1, 4)) {
            FieldSpec t = s; t.ref = std::make_shared<RefField>(f); long w = -1; roots_in_ball(f, b.v, &w); t.ref->index = w; t.ball = b; t.prec = p < 8 ? 8 : p; t.ballkind = "any";
            CField L(t); field_state(L, "construction", t.prec); check_gen(L); event("init-any-ball");
        }
    }
    // 2. construction
    CField K(s);
    field_state(K, "construction", s.prec); check_gen(K);
    situation("init|" + s.kind + "|" + s.ballkind + "|" + degclass(f.deg) + precclass(s.prec));
    sample("field " + s.desc() + " generator [" + str_arb(K.nf->emb) + "]");
    // 3. refinement
    for (int k = 0, n = (int)g.below(4); k < n; k++) {
        slong before = K.acc(), p = g.chance(1, 150) ? g.range(8000, 20000) : g.chance(1, 6) ? g.range(1500, 4000) : g.range(2, 900);
        Arb old; arb_set(old.v, K.nf->emb);
        step("refine " + str((long)p)); renf_refine_embedding(K.nf, p); event("refine");
        field_state(K, "refinement to " + str((long)p), p);
        if (K.acc() < before && K.acc() < p) fail("refine-worse", "refinement lost accuracy in " + s.desc());
        if (!renf_set_immutable(K.nf, 0)) { } else fail("immutable-left", "refinement left the field immutable");
    }
    // 4. copies are independent and equal
    {
        CField* C = (CField*)calloc(1, sizeof(CField)); new (&C->spec) FieldSpec(s);
        renf_init_set(C->nf, K.nf); event("init_set");
        field_state(*C, "copy", f.deg > 1 ? std::min<slong>(K.acc(), s.prec) : 0);
        evaluated(2);
        if (!renf_equal(C->nf, K.nf) || !renf_equal(K.nf, C->nf)) fail("equal", "a copy is not equal to the original: " + s.desc());
        if (f.deg > 1) {
            Arb keep; arb_set(keep.v, K.nf->emb); slong a = K.acc();
            renf_refine_embedding(C->nf, a + 100);
            if (!arb_equal(keep.v, K.nf->emb)) fail("copy-shares", "refining a copy changed the original");
            if (!renf_equal(C->nf, K.nf)) fail("equal", "a refined copy is not equal to the original");
            field_state(*C, "refined copy", a + 100);
        }
        check_gen(*C);
        renf_clear(C->nf); C->spec.~FieldSpec(); free(C);
        field_state(K, "after the copy was cleared", 0);
    }
    // 5. equality with other descriptions and other roots
    for (int k = 0; k < 2; k++) {
        FieldSpec t = s; t.ref = std::make_shared<RefField>(f); t.ref->index = (long)g.below((uint64_t)f.nreal);
        t.prec = g.chance(1, 2) ? s.prec : g.range(8, 200);
        gen_ball(g, *t.ref, t.ref->index, t.ball, t.ballkind);
        CField L(t); field_state(L, "construction", t.prec);
        bool same = t.ref->index == f.index; evaluated(2); event(same ? "equal:same-root" : "equal:other-root");
        situation(std::string("equal|") + (same ? "same" : "other") + s.kind + s.ballkind + t.ballkind + precclass(s.prec) + precclass(t.prec));
        if ((renf_equal(K.nf, L.nf) != 0) != same || (renf_equal(L.nf, K.nf) != 0) != same)
            fail("equal", std::string("fields of ") + (same ? "the same root are not equal: " : "different roots are equal: ") + s.desc() + " and " + t.desc());
    }
    { // another polynomial with (possibly) overlapping roots
        FieldSpec t = gen_field(g, 4); CField L(t); evaluated();
        bool samepol = fmpz_poly_equal(t.ref->zpol.v, f.zpol.v); // up to a constant
        if (!samepol && (renf_equal(K.nf, L.nf) || renf_equal(L.nf, K.nf))) fail("equal", "fields of different polynomials are equal: " + s.desc() + " and " + t.desc());
        event("equal:other-polynomial");
    }
    // 6. all embeddings
    if (f.deg > 1) {
        ZP p = f.zpol; long n = f.nreal, lim = g.chance(1, 2) ? n : g.range(0, n);
        renf* v = (renf*)malloc(sizeof(renf) * (size_t)(lim + 1));
        slong prec = g.range(8, 150);
        step("set_embeddings lim=" + str(lim) + " prec=" + str((long)prec));
        slong m = renf_set_embeddings_fmpz_poly(v, p.v, lim, prec); evaluated(); event("set_embeddings");
        if (m != n) fail("embeddings", "set_embeddings finds " + str((long)m) + " instead of " + str(n) + " real embeddings of " + str(f.pol));
        for (long i = 0; i < std::min(lim, n); i++) {
            long w = -1; int c = roots_in_ball(f, v[i].emb, &w); evaluated();
            if (c != 1 || w != i) fail("embeddings", "embedding " + str(i) + " of " + str(f.pol) + " is [" + str_arb(v[i].emb) + "]");
            if (arb_rel_accuracy_bits(v[i].emb) < prec) fail("refine-precision", "set_embeddings: embedding " + str(i) + " of " + str(f.pol) + " has only " + str((long)arb_rel_accuracy_bits(v[i].emb)) + " bits instead of " + str((long)prec));
            renf_clear(v + i);
        }
        free(v);
    }
    // 7. n-th roots
    if (g.chance(1, 3)) for (;;) {
        bool large = g.chance(1, 10); ulong n = (ulong)(large ? g.range(8, 70) : g.range(1, 9)); Q d; Z a = rnd_z(g, large ? 300 : 80), b = g.chance(1, 2) ? z_si(1) : rnd_z(g, large ? 300 : 60);
        fmpz_abs(a.v, a.v); fmpz_abs(b.v, b.v); if (fmpz_is_zero(a.v) || fmpz_is_zero(b.v)) continue;
        fmpq_set_fmpz_frac(d.v, a.v, b.v);
        QP q; Q md; fmpq_neg(md.v, d.v); fmpq_poly_set_coeff_fmpq(q.v, 0, md.v); fmpq_poly_set_coeff_si(q.v, (slong)n, 1);
        FieldSpec t; t.ref->init(q); t.kind = "nth-root"; if (!irreducible(t.ref->zpol)) continue;
        t.ref->index = t.ref->nreal - 1; t.prec = large && g.chance(1, 2) ? g.range(300, 2000) : g.range(8, 300); 
        CField* C = (CField*)calloc(1, sizeof(CField)); new (&C->spec) FieldSpec(t);
        step("nth_root " + str(d) + " n=" + str((long)n) + " prec=" + str((long)t.prec));
        renf_init_nth_root_fmpq(C->nf, d.v, n, t.prec); event("nth_root"); evaluated();
        field_state(*C, "nth root", t.prec); check_gen(*C);
        QP got; fmpq_poly_set(got.v, C->nf->nf->pol); 
        situation("nthroot|" + str((long)n) + precclass(t.prec));
        renf_clear(C->nf); C->spec.~FieldSpec(); free(C);
        break;
    }
    // 8. immutability
    {
        int was = renf_set_immutable(K.nf, 1); int was2 = renf_set_immutable(K.nf, g.chance(1, 2) ? 1 : 7); int was3 = renf_set_immutable(K.nf, 0), was4 = renf_set_immutable(K.nf, 0);
        evaluated(); event("set_immutable");
        if (was || !was2 || !was3 || was4) fail("immutable", "set_immutable reports the wrong previous state");
#ifndef NDEBUG
        if (g.chance(1, 40) && f.deg > 1) {
            renf_set_immutable(K.nf, 1); slong target = K.acc() + 100;
            bool died = dies([&] { renf_refine_embedding(K.nf, target); }); evaluated(); event("refine-immutable");
            if (!died) fail("immutable", "an immutable field can be refined");
            renf_set_immutable(K.nf, 0);
        }
#endif
    }
    // 9. random elements of the library itself
    if (g.chance(1, 10)) {
        flint_rand_t st; flint_randinit(st); for (ulong k = g.below(50); k > 0; k--) n_randlimb(st);
        CElem a(K.nf); renf_elem_randtest(a.a, st, (ulong)g.range(2, 60), K.nf); event("randtest"); evaluated();
        if (!f.contained(a.a->emb, a.get())) fail("randtest", "renf_elem_randtest built a wrong enclosure");
        renf_elem_check_embedding(a.a, K.nf, g.range(2, 200));
        if (g.chance(1, 3)) {
            slong prec = g.range(8, 200), len = g.range(2, 8); ulong bits = (ulong)g.range(3, 30); renf_t R; step("renf_randtest");
            // it gives up (abort) when it happens to draw a polynomial with exact dyadic roots only
            if (aborts([&] { renf_randtest(R, st, len, prec, bits); })) { event("renf_randtest:gave-up"); flint_randclear(st); return; }
            renf_randtest(R, st, len, prec, bits); evaluated(); event("renf_randtest");
            QP rp; fmpq_poly_set(rp.v, R->nf->pol); RefField rf; rf.init(rp);
            if (fmpq_poly_length(rp.v) > len || !irreducible(rf.zpol)) fail("randtest", "renf_randtest made a field of " + str(rp));
            if (roots_in_ball(rf, R->emb) != 1) fail("randtest", "renf_randtest made a field of " + str(rp) + " with generator [" + str_arb(R->emb) + "]");
            if (rf.deg > 1 && arb_rel_accuracy_bits(R->emb) < prec) fail("randtest", "renf_randtest made a field of " + str(rp) + " with " + str((long)arb_rel_accuracy_bits(R->emb)) + " bits instead of " + str((long)prec));
            renf_clear(R);
        }
        flint_randclear(st);
    }
}

// ------------------------------------------------------------------ roots
// exact sign of an integer polynomial at a rational number
static int sgn_at(const ZP& p, const Q& x) { Q v; fmpz_poly_evaluate_fmpq(v.v, p.v, x.v); return fmpq_sgn(v.v); }
// number of roots in the open interval (a, b) of a square-free polynomial, by reference enclosures
struct RefRoots {
    ZP p; std::vector<Q> exact; std::vector<RefField> facs;   // irreducible factors of degree >= 2
    std::vector<std::pair<int, long>> irr;
    explicit RefRoots(const ZP& q) : p(q) {
        fmpz_poly_factor_t fac; fmpz_poly_factor_init(fac); fmpz_poly_factor(fac, p.v);
        for (slong i = 0; i < fac->num; i++) {
            QP t; fmpq_poly_set_fmpz_poly(t.v, fac->p + i);
            RefField f; f.init(t);
            if (f.deg == 1) exact.push_back(f.lin);
            else if (f.nreal) { for (long k = 0; k < f.nreal; k++) irr.push_back({(int)facs.size(), k}); facs.push_back(f); }
        }
        fmpz_poly_factor_clear(fac);
    }
    long total() const { return (long)(exact.size() + irr.size()); }
    int cmp(size_t k, const Q& x) const { // irrational root k against a rational number
        const RefField& f = facs[(size_t)irr[k].first];
        for (slong pr = 64;; pr *= 2) {
            f.ensure(pr); Arb d, xa; arb_set_fmpq(xa.v, x.v, pr + 64); arb_sub(d.v, f.roots[(size_t)irr[k].second].v, xa.v, pr + 64);
            if (arb_is_positive(d.v)) return 1;
            if (arb_is_negative(d.v)) return -1;
            if (pr > 1000000) harness_error("RefRoots::cmp does not converge");
        }
    }
    long open(const Q& a, const Q& b) const {
        long n = 0;
        for (auto& e : exact) if (fmpq_cmp(e.v, a.v) > 0 && fmpq_cmp(e.v, b.v) < 0) n++;
        for (size_t k = 0; k < irr.size(); k++) if (cmp(k, a) > 0 && cmp(k, b) < 0) n++;
        return n;
    }
    bool is_root(const Q& a) const { return sgn_at(p, a) == 0; }
};
static Q q2exp(const fmpz_t c, slong k) { Q q; fmpq_set_fmpz(q.v, c); if (k >= 0) fmpq_mul_2exp(q.v, q.v, (ulong)k); else fmpq_div_2exp(q.v, q.v, (ulong)-k); return q; }
// random square-free polynomial
static ZP gen_sqfree(Rng& g, std::string& kind) {
    for (;;) {
        ZP p; fmpz_poly_one(p.v); kind.clear();
        auto mulin = [&](long a, long b) { ZP l; fmpz_poly_set_coeff_si(l.v, 0, a); fmpz_poly_set_coeff_si(l.v, 1, b); fmpz_poly_mul(p.v, p.v, l.v); };
        int parts = (int)g.range(1, 3); long maxdeg = 20;
        if (g.chance(1, 40)) { // many roots, or roots very close to each other, or very large
            parts = (int)g.below(2); maxdeg = 80;
            switch (g.below(4)) {
            case 0: { kind += "W"; long n = g.range(8, 36), o = g.range(-40, 10), d = g.chance(1, 2) ? 1 : g.range(1, 9); for (long i = 0; i < n; i++) mulin(-(o + i), d); break; }
            case 1: { kind += "T"; ZP q; fmpz_poly_chebyshev_t(q.v, (ulong)g.range(6, 64)); if (g.chance(1, 2)) { ZP sh; fmpz_poly_set_coeff_si(sh.v, 0, g.range(-5, 5)); fmpz_poly_set_coeff_si(sh.v, 1, 1); fmpz_poly_compose(q.v, q.v, sh.v); } fmpz_poly_mul(p.v, p.v, q.v); break; }
            case 2: { kind += "P"; // two or three roots at a distance of 2^-k from each other
                ulong k = (ulong)(g.chance(1, 4) ? g.range(200, 1200) : g.range(20, 200)); Z c = rnd_bits(g, g.chance(1, 3) ? 3 : (int)g.range(3, (long)k)); if (g.chance(1, 3)) { fmpz_one(c.v); fmpz_mul_2exp(c.v, c.v, k - 1); } if (g.chance(1, 2)) fmpz_neg(c.v, c.v);
                if (g.chance(1, 2)) { fmpz_mul_ui(c.v, c.v, 3); }
                for (int i = (int)g.range(0, 1); i < 3; i++) { Z a; fmpz_add_si(a.v, c.v, i - 1); ZP l; fmpz_poly_set_coeff_fmpz(l.v, 0, a.v); fmpz_one(a.v); fmpz_mul_2exp(a.v, a.v, k); if (g.chance(1, 2)) fmpz_add_ui(a.v, a.v, 1); fmpz_poly_set_coeff_fmpz(l.v, 1, a.v); fmpz_poly_mul(p.v, p.v, l.v); }
                break; }
            default: { kind += "M"; // x^d - 2 (a x - 1)^2 has two roots close to 1/a
                Z a = rnd_bits(g, (int)g.range(10, 200)); if (fmpz_is_zero(a.v)) fmpz_one(a.v); ZP q; fmpz_poly_set_coeff_si(q.v, 0, -1); fmpz_poly_set_coeff_fmpz(q.v, 1, a.v); fmpz_poly_mul(q.v, q.v, q.v); fmpz_poly_scalar_mul_si(q.v, q.v, -2);
                long d = g.range(3, 12); Z t; fmpz_poly_get_coeff_fmpz(t.v, q.v, d); fmpz_add_ui(t.v, t.v, 1); fmpz_poly_set_coeff_fmpz(q.v, d, t.v);
                if (g.chance(1, 3)) fmpz_poly_reverse(q.v, q.v, fmpz_poly_length(q.v));
                fmpz_poly_mul(p.v, p.v, q.v); break; }
            }
        }
        for (int i = 0; i < parts; i++) switch (g.below(8)) {
        case 0: kind += "Z"; mulin(g.range(-9, 9), 1); break;
        case 1: kind += "D"; mulin(g.range(-99, 99), 1L << g.below(7)); break;
        case 2: kind += "Q"; mulin(g.range(-99, 99), g.range(1, 30)); break;
        case 3: kind += "0"; mulin(0, 1); break;
        case 4: { kind += "C"; ZP q; fmpz_poly_set_coeff_si(q.v, 0, g.range(1, 50)); fmpz_poly_set_coeff_si(q.v, 2, g.range(1, 50)); if (g.chance(1, 2)) fmpz_poly_set_coeff_si(q.v, 1, g.range(-1, 1)); fmpz_poly_mul(p.v, p.v, q.v); break; }
        case 5: { kind += "H"; Z a = rnd_z(g, 120), b = rnd_z(g, 120); if (fmpz_is_zero(b.v)) fmpz_one(b.v); ZP l; fmpz_poly_set_coeff_fmpz(l.v, 0, a.v); fmpz_poly_set_coeff_fmpz(l.v, 1, b.v); fmpz_poly_mul(p.v, p.v, l.v); break; }
        case 6: { kind += "R"; long d = g.range(1, 9); ZP q; for (long j = 0; j <= d; j++) { Z a = rnd_bits(g, (int)g.range(1, 20)); if (g.chance(1, 2)) fmpz_neg(a.v, a.v); if (!g.chance(1, 4)) fmpz_poly_set_coeff_fmpz(q.v, j, a.v); } if (fmpz_poly_is_zero(q.v)) fmpz_poly_one(q.v); fmpz_poly_mul(p.v, p.v, q.v); break; }
        default: { std::string k; ZP q = gen_minpoly(g, k, 6); kind += "I"; fmpz_poly_mul(p.v, p.v, q.v); break; }
        }
        if (g.chance(1, 6)) { fmpz_poly_scalar_mul_si(p.v, p.v, g.range(2, 40)); kind += "*"; }
        if (g.chance(1, 3)) fmpz_poly_neg(p.v, p.v);
        if (g.chance(1, 6)) { p = scale2(p, g.range(1, 12)); kind += "s"; }   // everything close to zero
        if (fmpz_poly_is_zero(p.v) || fmpz_poly_degree(p.v) > maxdeg) continue;
        if (fmpz_poly_degree(p.v) > 0 && !fmpz_poly_is_squarefree(p.v)) continue;
        return p;
    }
}
static Q q_arf(const Arf& x) { Q q; arf_get_fmpq(q.v, x.v); return q; }
static void m_roots(Rng& g, long) {
    std::string kind; ZP p = gen_sqfree(g, kind), p0 = p;
    RefRoots R(p); long N = R.total(), n = fmpz_poly_length(p.v);
    step("polynomial " + str(p) + " with " + str(N) + " real roots"); event("polynomial");
    situation("roots|" + kind + "|" + str(N) + "|" + str((long)fmpz_sgn(p.v->coeffs + n - 1)));
    sample(str(p) + " has " + str(N) + " real roots");
    auto num = [&](const char* nm, slong got, slong want) { evaluated(); event(nm); if (got != want) fail(nm, std::string(nm) + " is " + str((long)got) + " instead of " + str((long)want) + " for " + str(p)); };
    if (n > 1) num("has_real_root", fmpz_poly_has_real_root(p.v), N > 0);
    num("num_real_roots", fmpz_poly_num_real_roots(p.v), N);
    num("num_real_roots_vca", fmpz_poly_num_real_roots_vca(p.v), N);
    { slong b = fmpz_poly_num_real_roots_upper_bound(p.v); evaluated(); event("num_real_roots_upper_bound"); if (b < N || b > n) fail("upper-bound", "num_real_roots_upper_bound is " + str((long)b) + " for " + str(p) + " with " + str(N) + " real roots"); }
    { // bound for the positive roots
        slong k = fmpz_poly_positive_root_upper_bound_2exp(p.v); evaluated(); event("positive_root_upper_bound");
        long above = 0, pos = R.open(q_si(0), q2exp(z_si(1).v, 4000));
        if (k == WORD_MIN) above = pos;
        else { Q b = q2exp(z_si(1).v, k); above = R.open(b, q2exp(z_si(1).v, std::max<slong>(k + 10, 4000))); }
        if (above) fail("positive-root-bound", "there are " + str(above) + " roots above the bound 2^" + str((long)k) + " of " + str(p));
    }
    // isolation
    fmpq* ex = _fmpq_vec_init(n); fmpz* c = _fmpz_vec_init(n); slong* kk = (slong*)calloc((size_t)n + 1, sizeof(slong)); slong ne = g.range(0, 3), ni = g.range(0, 3);
    fmpz_poly_isolate_real_roots(ex, &ne, c, kk, &ni, p.v); event("isolate");
    num("isolated-roots", ne + ni, N);
    for (slong i = 0; i < ne; i++) {
        Q x; fmpq_set(x.v, ex + i); evaluated(); event("exact-root");
        if (!fmpq_is_canonical(x.v)) fail("exact-root", "the exact root " + str(x) + " of " + str(p) + " is not canonical");
        if (!R.is_root(x)) fail("exact-root", str(x) + " is not a root of " + str(p));
        if (i && fmpq_cmp(ex + i - 1, ex + i) >= 0) fail("exact-root", "the exact roots of " + str(p) + " are not sorted");
    }
    for (slong i = 0; i < ni; i++) {
        Z c1; fmpz_add_ui(c1.v, c + i, 1); Q a = q2exp(c + i, kk[i]), b = q2exp(c1.v, kk[i]); evaluated(); event("isolating-interval");
        long m = R.open(a, b);
        if (m != 1) fail("isolation", "the interval (" + str(a) + ", " + str(b) + ") contains " + str(m) + " roots of " + str(p));
        if (i) { Z d1; fmpz_add_ui(d1.v, c + i - 1, 1); Q pb = q2exp(d1.v, kk[i - 1]); if (fmpq_cmp(pb.v, a.v) > 0) fail("isolation", "isolating intervals of " + str(p) + " are not sorted or overlap"); }
        for (slong j = 0; j < ne; j++) if (fmpq_cmp(a.v, ex + j) < 0 && fmpq_cmp(ex + j, b.v) < 0) fail("isolation", "an exact root is reported twice for " + str(p));
    }
    { slong e2, i2; fmpz_poly_isolate_real_roots(nullptr, &e2, nullptr, nullptr, &i2, p.v); evaluated(); if (e2 != ne || i2 != ni) fail("isolation", "counting and isolating differ for " + str(p)); }
    // refinement steps on isolating balls
    ZP der; fmpz_poly_derivative(der.v, p.v);
    for (slong i = 0; i < ni && i < 3; i++) {
        Arb a, r; arb_set_fmpz(a.v, c + i); arb_mul_2exp_si(a.v, a.v, 1); arb_add_si(a.v, a.v, 1, ARF_PREC_EXACT); mag_one(arb_radref(a.v)); arb_mul_2exp_si(a.v, a.v, kk[i] - 1);
        auto count = [&](const arb_t ball) { Arf l, u; arb_get_interval_arf(l.v, u.v, ball, ARF_PREC_EXACT); Q ql, qu; arf_get_fmpq(ql.v, l.v); arf_get_fmpq(qu.v, u.v); long m = R.open(ql, qu); if (R.is_root(ql)) m++; if (fmpq_cmp(ql.v, qu.v) != 0 && R.is_root(qu)) m++; return m; };
        for (int t = 0; t < 12; t++) {
            if (count(a.v) != 1) break;
            slong prec = g.chance(1, 3) ? g.range(2, 30) : g.range(30, 300); int ok; std::string nm;
            Arb in; arb_set(in.v, a.v);
            if (g.chance(1, 2)) { nm = "newton"; ok = fmpz_poly_newton_step_arb(r.v, p.v, der.v, a.v, prec); }
            else { nm = "bisection"; ok = fmpz_poly_bisection_step_arb(r.v, p.v, a.v, prec); }
            event(nm + (ok ? "-step" : "-refused")); evaluated();
            if (!arb_equal(in.v, a.v)) fail(nm, "a refinement step changed its input");
            if (!ok) continue;
            if (count(r.v) != 1) fail(nm, "after a " + nm + " step at precision " + str((long)prec) + " the ball [" + str_arb(r.v) + "] contains " + str(count(r.v)) + " roots, it was [" + str_arb(a.v) + "] for " + str(p));
            if (!arb_contains(a.v, r.v)) fail(nm, "a " + nm + " step left the ball for " + str(p));
            arb_swap(a.v, r.v);
        }
        // the same with endpoints instead of balls
        Z c1; fmpz_add_ui(c1.v, c + i, 1); Arf l, r2; arf_set_fmpz(l.v, c + i); arf_mul_2exp_si(l.v, l.v, kk[i]); arf_set_fmpz(r2.v, c1.v); arf_mul_2exp_si(r2.v, r2.v, kk[i]);
        int sl = sgn_at(p, q_arf(l)), sr = sgn_at(p, q_arf(r2));
        for (int t = 0; t < 8 && sl && sr; t++) {
            bool full = g.chance(1, 2); slong prec = full ? 20000 : g.range(2, 120); Arf ol = l, orr = r2;
            _fmpz_poly_bisection_step_arf(l.v, r2.v, p.v->coeffs, n, sl, sr, prec); event("bisection-endpoints"); evaluated();
            Q lo = q_arf(l), hi = q_arf(r2), o1 = q_arf(ol), o2 = q_arf(orr), mid; fmpq_add(mid.v, o1.v, o2.v); fmpq_div_2exp(mid.v, mid.v, 1);
            if (fmpq_cmp(lo.v, hi.v) >= 0 || fmpq_cmp(lo.v, o1.v) < 0 || fmpq_cmp(hi.v, o2.v) > 0) fail("bisection", "a bisection step at precision " + str((long)prec) + " turned (" + str(o1) + ", " + str(o2) + ") into (" + str(lo) + ", " + str(hi) + ") for " + str(p));
            if (sgn_at(p, lo) != sl || sgn_at(p, hi) != sr) fail("bisection", "a bisection step at precision " + str((long)prec) + " lost the root of " + str(p) + " in (" + str(o1) + ", " + str(o2) + ")");
            if (full && sgn_at(p, mid) && !(fmpq_equal(mid.v, lo.v) && fmpq_equal(o2.v, hi.v)) && !(fmpq_equal(mid.v, hi.v) && fmpq_equal(o1.v, lo.v))) fail("bisection", "a bisection step did not halve (" + str(o1) + ", " + str(o2) + ") for " + str(p));
        }
    }
    _fmpq_vec_clear(ex, n); _fmpz_vec_clear(c, n); free(kk);
    // roots in the unit interval (no root at its ends)
    if (n > 1 && sgn_at(p, q_si(0)) && sgn_at(p, q_si(1))) {
        long u = R.open(q_si(0), q_si(1));
        num("num_real_roots_0_1", fmpz_poly_num_real_roots_0_1(p.v), u);
        num("num_real_roots_0_1_vca", fmpz_poly_num_real_roots_0_1_vca(p.v), u);
        num("num_real_roots_0_1_sturm", fmpz_poly_num_real_roots_0_1_sturm(p.v), u);
        slong b = _fmpz_poly_descartes_bound_0_1(p.v->coeffs, n, n); evaluated(); event("descartes_bound_0_1");
        if (b < u || ((b - u) & 1)) fail("descartes", "descartes_bound_0_1 is " + str((long)b) + " with " + str(u) + " roots for " + str(p));
        slong bd = g.range(0, 3), b2 = _fmpz_poly_descartes_bound_0_1(p.v->coeffs, n, bd); evaluated();
        if (b2 != (b > bd ? WORD_MAX : b)) fail("descartes", "descartes_bound_0_1 with bound " + str((long)bd) + " is " + str((long)b2) + " instead of " + str((long)b) + " for " + str(p));
    }
    // affine substitution
    if (n > 1) {
        Q a = rnd_q(g, 40), b = rnd_q(g, 40); if (fmpq_cmp(a.v, b.v) > 0) fmpq_swap(a.v, b.v);
        if (fmpq_cmp(a.v, b.v) < 0) {
            ZP t = p; step("scale_0_1 " + str(a) + " " + str(b)); _fmpz_poly_scale_0_1_fmpq(t.v->coeffs, n, a.v, b.v); event("scale_0_1"); evaluated();
            QP l, s, q; fmpq_poly_set_coeff_fmpq(l.v, 0, a.v); Q w; fmpq_sub(w.v, b.v, a.v); fmpq_poly_set_coeff_fmpq(l.v, 1, w.v);
            fmpq_poly_set_fmpz_poly(q.v, p.v); fmpq_poly_compose(s.v, q.v, l.v);
            // equal up to a factor
            ZP sn; fmpq_poly_get_numerator(sn.v, s.v); Z ct; fmpz_poly_content(ct.v, sn.v); fmpz_poly_scalar_divexact_fmpz(sn.v, sn.v, ct.v); fmpz_poly_content(ct.v, t.v); ZP tn; fmpz_poly_scalar_divexact_fmpz(tn.v, t.v, ct.v);
            ZP tm; fmpz_poly_neg(tm.v, tn.v);
            if (!fmpz_poly_equal(sn.v, tn.v) && !fmpz_poly_equal(sn.v, tm.v)) fail("scale_0_1", "scale_0_1 to [" + str(a) + ", " + str(b) + "] of " + str(p) + " gives " + str(t));
        }
    }
    // square-free part
    if (n > 1) {
        ZP q = p, r, w; long e = g.range(1, 3); 
        fmpz_poly_factor_t fac; fmpz_poly_factor_init(fac); fmpz_poly_factor(fac, p.v);
        for (slong i = 0; i < fac->num; i++) if (g.chance(1, 2)) for (long k = 0; k < e; k++) fmpz_poly_mul(q.v, q.v, fac->p + i);
        fmpz_poly_one(w.v); for (slong i = 0; i < fac->num; i++) fmpz_poly_mul(w.v, w.v, fac->p + i);
        fmpz_poly_factor_clear(fac);
        fmpz_poly_squarefree_part(r.v, q.v); event("squarefree_part"); evaluated();
        ZP rp; fmpz_poly_primitive_part(rp.v, r.v); if (fmpz_sgn(w.v->coeffs + fmpz_poly_degree(w.v)) < 0) fmpz_poly_neg(w.v, w.v);
        if (!fmpz_poly_equal(rp.v, w.v) || fmpz_sgn(r.v->coeffs + fmpz_poly_degree(r.v)) < 0) fail("squarefree", "the squarefree part of " + str(q) + " is " + str(r));
        fmpz_poly_squarefree_part(q.v, q.v); evaluated(); if (!fmpz_poly_equal(q.v, r.v)) fail("squarefree", "the aliased squarefree part is " + str(q) + " instead of " + str(r));
        ZP cst; fmpz_poly_set_fmpz(cst.v, rnd_z(g, 80).v); bool z = fmpz_poly_is_zero(cst.v); fmpz_poly_squarefree_part(r.v, cst.v); evaluated();
        if (z ? !fmpz_poly_is_zero(r.v) : !fmpz_poly_is_one(r.v)) fail("squarefree", "the squarefree part of " + str(cst) + " is " + str(r));
    }
    // evaluation
    {
        QP q; fmpq_poly_set_fmpz_poly(q.v, p.v); Z den = z_si(g.range(1, 1000)); fmpq_poly_scalar_div_fmpz(q.v, q.v, den.v);
        Q x = rnd_q(g, 40), fx, gx; slong prec = g.range(2, 200); Arb a, r; arb_set_fmpq(a.v, x.v, g.range(2, 60)); if (g.chance(1, 3)) arb_add_error_2exp_si(a.v, g.range(-40, 2));
        fmpz_poly_evaluate_fmpq(fx.v, p.v, x.v); fmpq_poly_evaluate_fmpq(gx.v, q.v, x.v);
        fmpz_poly_evaluate_arb(r.v, p.v, a.v, prec); event("evaluate_arb"); evaluated(3);
        if (!arb_contains_fmpq(r.v, fx.v)) fail("evaluate", "evaluate_arb of " + str(p) + " at [" + str_arb(a.v) + "] is [" + str_arb(r.v) + "]");
        fmpq_poly_evaluate_arb(r.v, q.v, a.v, prec); if (!arb_contains_fmpq(r.v, gx.v)) fail("evaluate", "fmpq evaluate_arb of " + str(q) + " at [" + str_arb(a.v) + "] is [" + str_arb(r.v) + "]");
        Arb al; arb_set(al.v, a.v); if (g.chance(1, 2)) fmpz_poly_evaluate_arb(al.v, p.v, al.v, prec); else { fmpq_poly_evaluate_arb(al.v, q.v, al.v, prec); fx = gx; } 
        if (!arb_contains_fmpq(al.v, fx.v)) fail("evaluate", "aliased evaluate_arb is wrong for " + str(p));
        // exact evaluation at dyadic points
        Arf y, v; arf_set_si_2exp_si(y.v, g.range(-50, 50), g.range(-6, 6)); Q yq, vq, want; arf_get_fmpq(yq.v, y.v); Arf y2 = y; 
        fmpz_poly_evaluate_arf(v.v, p.v, y.v, ARF_PREC_EXACT); arf_get_fmpq(vq.v, v.v); fmpz_poly_evaluate_fmpq(want.v, p.v, yq.v); evaluated();
        if (!fmpq_equal(vq.v, want.v)) fail("evaluate", "evaluate_arf is wrong for " + str(p));
        fmpz_poly_evaluate_arf(y2.v, p.v, y2.v, ARF_PREC_EXACT); if (!arf_equal(y2.v, v.v)) fail("evaluate", "aliased evaluate_arf is wrong for " + str(p));
        { Arf yq2, v2; arf_set_si_2exp_si(yq2.v, g.range(-50, 50), g.range(-6, 6)); Q at = q_arf(yq2), w2; fmpq_poly_evaluate_fmpq(w2.v, q.v, at.v); slong pr = g.range(20, 300);
          if (g.chance(1, 2)) fmpq_poly_evaluate_arf(v2.v, q.v, yq2.v, pr); else { fmpq_poly_evaluate_arf(yq2.v, q.v, yq2.v, pr); v2 = yq2; }
          event("evaluate_arf-rational"); evaluated();
          // rounded once per operation: the error is at most a few units in the last place of |p|(|x|)
          ZP ab; fmpz_poly_set(ab.v, p.v); for (slong i = 0; i < n; i++) fmpz_abs(ab.v->coeffs + i, ab.v->coeffs + i); Q xa, bnd; fmpq_abs(xa.v, at.v); fmpz_poly_evaluate_fmpq(bnd.v, ab.v, xa.v); fmpq_div_fmpz(bnd.v, bnd.v, den.v);
          fmpq_mul_si(bnd.v, bnd.v, 8 * n + 8); fmpq_div_2exp(bnd.v, bnd.v, (ulong)pr); Q d = q_arf(v2); fmpq_sub(d.v, d.v, w2.v); fmpq_abs(d.v, d.v);
          if (fmpq_cmp(d.v, bnd.v) > 0) fail("evaluate", "evaluate_arf of " + str(q) + " at " + str(at) + " with " + str((long)pr) + " bits is off by " + str(d)); }
        Z one; fmpz_poly_evaluate_at_one(one.v, p.v->coeffs, n); Z w1; fmpz_poly_evaluate_fmpz(w1.v, p.v, z_si(1).v); evaluated(); if (!fmpz_equal(one.v, w1.v)) fail("evaluate", "evaluate_at_one is wrong for " + str(p));
        ZP ab; fmpz_poly_abs(ab.v, p.v); evaluated(); bool okabs = fmpz_poly_length(ab.v) == n; for (slong i = 0; okabs && i < n; i++) { Z t; fmpz_abs(t.v, p.v->coeffs + i); okabs = fmpz_equal(t.v, ab.v->coeffs + i); } if (!okabs) fail("abs", "abs of " + str(p) + " is " + str(ab));
        slong cond = 12345; Arb xx; arb_set_fmpq(xx.v, x.v, 60); int cr = g.chance(1, 2) ? _fmpz_poly_relative_condition_number_2exp(&cond, p.v->coeffs, n, xx.v, 64) : fmpz_poly_relative_condition_number_2exp(&cond, p.v, xx.v, 64); if (cr) fail("condition-number", "there is no condition number for " + str(p)); else {
            // 2^(cond-1) <= |p|(|x|) < 2^cond up to rounding
            Arb t, xa; arb_abs(xa.v, xx.v); fmpz_poly_evaluate_arb(t.v, ab.v, xa.v, 300); evaluated(); event("condition-number");
            Arb hi, lo; arb_one(hi.v); arb_mul_2exp_si(hi.v, hi.v, cond); arb_mul_2exp_si(lo.v, hi.v, -1); Arb eps; arb_set_d(eps.v, 1e-12);
            Arb th, tl; arb_mul(th.v, t.v, eps.v, 300); arb_sub(tl.v, t.v, th.v, 300); arb_add(th.v, t.v, th.v, 300);
            if (!arb_is_zero(t.v) && (arb_gt(tl.v, hi.v) || arb_lt(th.v, lo.v))) fail("condition-number", "the condition number of " + str(p) + " at " + str(x) + " is 2^" + str((long)cond));
        }
    }
    if (!fmpz_poly_equal(p.v, p0.v)) fail("operand-modified", "a root computation changed its polynomial");
    if (g.chance(1, 8)) {
        flint_rand_t st; flint_randinit(st); for (ulong k = g.below(50); k > 0; k--) n_randlimb(st);
        ZP q; fmpz_poly_randtest_irreducible(q.v, st, g.range(2, 10), (ulong)g.range(2, 40)); evaluated(); event("randtest_irreducible");
        if (fmpz_poly_degree(q.v) > 0 && !irreducible(q)) fail("randtest", "fmpz_poly_randtest_irreducible returned " + str(q));
        flint_randclear(st);
    }
}

// ------------------------------------------------------------------ parse
static std::string spaces(Rng& g) { return std::string(g.chance(1, 2) ? 0 : g.below(3), ' '); }
static const std::vector<std::string>& varnames() { static const std::vector<std::string> v = {"x", "a", "A", "_", "_1", "sqrt2", "x1", "alpha_beta", "e", "xx", "A9z", "inf", "a_name_of_more_than_sixteen_letters", std::string(270, 'v')}; return v; }
// a string which denotes the polynomial stored in `p`
static std::string gen_valid(Rng& g, const std::string& var, QP& p, bool integral, std::string& cls) {
    std::string s = g.chance(1, 4) ? spaces(g) : ""; fmpq_poly_zero(p.v);
    long n = g.chance(1, 150) ? g.range(20, 200) : g.range(1, g.chance(1, 4) ? 9 : 4); cls = "";
    for (long i = 0; i < n; i++) {
        int sign = 1; 
        if (i || g.chance(1, 3)) {
            long k = g.chance(1, 6) ? g.range(2, 4) : 1; if (i) s += spaces(g);
            for (long j = 0; j < k; j++) { bool m = g.chance(1, 2); s += m ? '-' : '+'; if (m) sign = -sign; s += spaces(g); }
            if (k > 1) cls += "S";
        }
        Q c; fmpq_one(c.v); long e = 0; bool havec = g.chance(2, 3), havex = !havec || g.chance(2, 3);
        if (havec) {
            Z a = g.chance(1, 150) ? rnd_bits(g, (int)g.range(1000, 20000)) : rnd_z(g, 200), b; fmpz_abs(a.v, a.v); fmpz_one(b.v);
            if (g.chance(1, 10)) s += "0", cls += "0";
            s += str(a);
            if (!integral && g.chance(1, 3)) { do { b = rnd_z(g, 100); fmpz_abs(b.v, b.v); } while (fmpz_is_zero(b.v)); Z gg; fmpz_gcd(gg.v, a.v, b.v); if (!fmpz_is_one(gg.v)) { cls += "u"; } s += "/" + str(b); cls += "/"; }
            fmpq_set_fmpz_frac(c.v, a.v, b.v);
        }
        if (havex) {
            if (havec) { s += spaces(g); if (g.chance(2, 3)) { s += "*" + spaces(g); cls += "*"; } else cls += "i"; }
            s += var; e = 1;
            if (g.chance(1, 2)) { e = g.chance(1, 10) ? g.chance(1, 20) ? g.range(300, 12000) : g.range(10, 300) : g.range(0, 9); s += spaces(g) + "^" + spaces(g) + (g.chance(1, 25) ? "0" : "") + str(e); cls += "^"; }
            s += (i + 1 < n) ? "" : (g.chance(1, 8) ? "  " : "");
        }
        if (sign < 0) fmpq_neg(c.v, c.v);
        Q o; fmpq_poly_get_coeff_fmpq(o.v, p.v, e); fmpq_add(o.v, o.v, c.v); fmpq_poly_set_coeff_fmpq(p.v, e, o.v);
    }
    if (cls.size() > 6) cls.resize(6);
    return s;
}
static std::string gen_invalid(Rng& g, const std::string& var, std::string& cls) {
    std::string v = var;
    static const std::vector<std::string> tpl = {
        "V^", "V^-1", "V^V", "1.5", "(V)", "V +", "V -", "+", "-", "2 3", "1//2", "1/", "1/ 2 *", "/2", "V V", "2*", "2**V", "V^2^2", "V^1.5", "Y", "2*Y", "V + Y", "V^2 + 3*Y^2", "V^ ", "3 4 V", "2*3*V", "V^2 3", "1 + 2/", "#", "V+#", "V^99999999999999999999999", "1/2/3", "V,", "[V]", "V=1", "\t1\v", "1\n\n", "V^2\n", "V*", "2^3", "^2", "V^+2", "1/0", "V + 1/0", "0/0*V"};
    const std::string& t = tpl[g.below(tpl.size())]; std::string s; cls = t;
    std::string other = var == "y" ? "z" : "y";
    for (char c : t) if (c == 'V') s += v; else if (c == 'Y') s += other; else s += c;
    return s;
}
// what a function writes to the standard output
template <typename F> static std::string printed(F&& what) {
    fflush(stdout); FILE* f = tmpfile(); int keep = dup(1); if (!f || keep < 0) abort(); dup2(fileno(f), 1);
    what(); fflush(stdout); dup2(keep, 1); close(keep);
    std::string s; rewind(f); for (int c; (c = fgetc(f)) != EOF;) s += (char)c; fclose(f); return s;
}
static void m_parse(Rng& g, long) {
    for (int k = 0; k < 6; k++) {
        std::string var = g.pick(varnames()), cls; QP want; bool integral = g.chance(1, 3);
        std::string s = gen_valid(g, var, want, integral, cls); step("parse '" + s + "' var " + var);
        // heap copies of the exact size, so that reads beyond the end are seen
        char* hs = strdup(s.c_str()); char* hv = strdup(var.c_str());
        QP got; fmpq_poly_set_coeff_si(got.v, g.range(0, 5), g.range(-3, 3)); if (g.chance(1, 2)) fmpq_poly_scalar_div_si(got.v, got.v, 7);
        int r = fmpq_poly_set_str_pretty(got.v, hs, hv); evaluated(); event("parse-valid"); situation("parse|" + cls + "|" + var);
        if (r) fail("parse", "rejects the valid string '" + s + "' in the variable " + var);
        if (!fmpq_poly_equal(got.v, want.v)) fail("parse", "'" + s + "' in the variable " + var + " is read as " + str(got) + " instead of " + str(want));
        if (!fmpq_poly_is_canonical(got.v)) fail("parse", "'" + s + "' is read as a polynomial that is not canonical");
        ZP z; fmpz_poly_set_coeff_si(z.v, g.range(0, 400), 5); r = fmpz_poly_set_str_pretty(z.v, hs, hv); evaluated(); event("parse-integer");
        bool isint = fmpz_is_one(fmpq_poly_denref(want.v)); ZP wz; fmpq_poly_get_numerator(wz.v, want.v);
        if ((r == 0) != isint) fail("parse", "fmpz_poly_set_str_pretty answers " + str((long)r) + " for '" + s + "'");
        if (isint && !fmpz_poly_equal(z.v, wz.v)) fail("parse", "'" + s + "' in the variable " + var + " is read as " + str(z) + " instead of " + str(want));
        // our own output is read back
        std::string out = take(fmpq_poly_get_str_pretty(want.v, hv)); QP back; evaluated(); event("parse-roundtrip");
        if (fmpq_poly_set_str_pretty(back.v, out.c_str(), hv) || !fmpq_poly_equal(back.v, want.v)) fail("parse", "the string '" + out + "' of a polynomial is not read back");
        if (k == 0) sample("'" + s + "' -> " + str(got));
        free(hs); free(hv);
    }
    for (int k = 0; k < 4; k++) {
        std::string var = g.pick(varnames()), cls, s = gen_invalid(g, var, cls); step("parse invalid '" + s + "' var " + var);
        char* hs = strdup(s.c_str()); char* hv = strdup(var.c_str());
        QP got; int r = fmpq_poly_set_str_pretty(got.v, hs, hv); evaluated(); event("parse-invalid"); situation("invalid|" + cls);
        if (r == 0) fail("parse-invalid", "accepts the malformed string '" + s + "' in the variable " + var + " as " + str(got));
        ZP z; r = fmpz_poly_set_str_pretty(z.v, hs, hv); evaluated(); if (r == 0) fail("parse-invalid", "fmpz_poly_set_str_pretty accepts the malformed string '" + s + "'");
        free(hs); free(hv);
    }
    { // bad variable names
        static const std::vector<std::string> bad = {"", "1", "1x", "x y", "x+", "-", "x-y", "x.", "*", " x"};
        std::string v = g.pick(bad); QP got; evaluated(); event("bad-variable"); if (fmpq_poly_set_str_pretty(got.v, "1", v.c_str()) == 0) fail("parse-invalid", "accepts the variable name '" + v + "'");
    }
    { // mutated strings: whatever the answer, it must be given safely
        std::string var = g.pick(varnames()), cls; QP want; std::string s = gen_valid(g, var, want, false, cls);
        static const std::string al = "0123456789+-*/^ xa_()." "\t\n\x7f\xe9";
        for (int m = (int)g.range(1, 4); m > 0; m--) { size_t i = g.below(s.size() + 1); char ch = al[g.below(al.size())]; switch (g.below(3)) { case 0: s.insert(i, 1, ch); break; case 1: if (i < s.size()) s.erase(i, 1); break; default: if (i < s.size()) s[i] = ch; } }
        // keep exponents small
        { std::string t; int run = 0; for (char ch : s) { run = isdigit((unsigned char)ch) ? run + 1 : 0; if (run <= 4) t += ch; } s = t; }
        bool big = false;
        if (!big) { char* hs = strdup(s.c_str()); QP got; step("parse mutated '" + s + "'"); int r = fmpq_poly_set_str_pretty(got.v, hs, var.c_str()); event(r ? "mutated-rejected" : "mutated-accepted"); evaluated();
            if (!r && !fmpq_poly_is_canonical(got.v)) fail("parse", "'" + s + "' is read as something not canonical");
            free(hs); }
    }
    { // printing elements
        CField K(gen_field(g, 6)); const RefField& f = K.ref(); renf* nf = K.nf; std::string c;
        for (int k = 0; k < 3; k++) {
            QP a = gen_elem(g, f, &c); if (g.chance(1, 6)) { Q s2; fmpq_one(s2.v); fmpq_mul_2exp(s2.v, s2.v, (ulong)g.range(1000, 1200)); if (g.chance(1, 2)) fmpq_inv(s2.v, s2.v); fmpq_poly_scalar_mul_fmpq(a.v, a.v, s2.v); }
            CElem A(nf); store(g, K, A, a); std::string var = g.pick(varnames());
            int flag = (int)g.range(1, 7); slong n = g.chance(1, 30) ? g.range(100, 700) : g.range(1, 40); step("get_str " + str(a) + " flag " + str((long)flag) + " n " + str((long)n) + " in " + K.spec.desc());
            std::string s = take(renf_elem_get_str_pretty(A.a, var.c_str(), nf, n, flag)); event("get_str:" + str((long)flag)); situation("str|" + str((long)flag) + valclass(a) + degclass(f.deg) + f.kind);
            if (g.chance(1, 8)) { std::string o = printed([&] { renf_elem_print_pretty(A.a, var.c_str(), nf, n, flag); }); evaluated(); event("print_pretty"); if (o != s) fail("print", "an element is printed as '" + o + "' instead of '" + s + "'"); }
            std::string alg, num; size_t at = s.find(" ~ ");
            bool hasnum = flag & (EANTIC_STR_D | EANTIC_STR_ARB), hasalg = flag & EANTIC_STR_ALG;
            if (hasalg && hasnum) { if (at == std::string::npos) fail("get_str", "no approximation in '" + s + "'"); alg = s.substr(0, at); num = s.substr(at + 3); } else if (hasalg) alg = s; else num = s;
            if (hasalg) { QP back; evaluated(); if (fmpq_poly_set_str_pretty(back.v, alg.c_str(), var.c_str()) || !fmpq_poly_equal(back.v, a.v)) fail("get_str", "'" + s + "' does not denote " + str(a) + " in the variable " + var); }
            if (hasnum && (flag & EANTIC_STR_D)) {
                evaluated(); double d = renf_elem_get_d(A.a, nf, ARF_RND_NEAR);
                if (std::isinf(d)) { if (num != (d > 0 ? "inf" : "-inf")) fail("get_str", "'" + s + "' for an infinite double"); }
                else { double e = strtod(num.c_str(), nullptr); if (!(std::fabs(e - d) <= 2e-7 * std::fabs(d) + 1e-320)) fail("get_str", "the approximation in '" + s + "' of " + str(a) + " is not close to the value in " + K.spec.desc()); }
            } else if (hasnum) {
                Arb b; evaluated(); if (arb_set_str(b.v, num.c_str(), 500 + 4 * n)) fail("get_str", "cannot read the ball in '" + s + "'");
                if (!f.contained(b.v, a)) fail("get_str", "the ball in '" + s + "' does not contain " + str(a) + " in " + K.spec.desc());
            }
        }
        slong n = g.chance(1, 20) ? g.range(100, 700) : g.range(1, 40); std::string s = take(renf_get_str(nf, "x", n)); evaluated(); event("field-str");
        std::string pre = "NumberField(" + take(fmpq_poly_get_str_pretty(f.pol.v, "x")) + ", ";
        if (s.compare(0, pre.size(), pre) || s.back() != ')') fail("get_str", "the field is printed as '" + s + "' in " + K.spec.desc());
        Arb b; if (arb_set_str(b.v, s.substr(pre.size(), s.size() - pre.size() - 1).c_str(), 500 + 4 * n)) fail("get_str", "cannot read the ball in '" + s + "'");
        long w; bool in = false; { Arb x; for (slong p = 64; p < 100000; p *= 2) { const Arb& rt = f.root(p); if (arb_contains(b.v, rt.v)) { in = true; break; } if (!arb_overlaps(b.v, rt.v)) break; } } (void)w;
        if (!in) fail("get_str", "the ball in '" + s + "' does not contain the generator in " + K.spec.desc());
        if (g.chance(1, 4)) { std::string o = printed([&] { renf_print(nf); }); evaluated(); event("renf_print");
            size_t comma = o.find(','); QP back; if (o.compare(0, 12, "NumberField(") || o.back() != ')' || comma == std::string::npos || fmpq_poly_set_str_pretty(back.v, o.substr(12, comma - 12).c_str(), "x") || !fmpq_poly_equal(back.v, f.pol.v)) fail("print", "the field is printed as '" + o + "' in " + K.spec.desc()); }
    }
}

// ------------------------------------------------------------------ indep
// the same computation in several copies of one field which differ only in
// precision, initial enclosure and what has been computed before
static void m_indep(Rng& g, long) {
    FieldSpec base = gen_field(g, 6); const RefField& f = *base.ref;
    uint64_t script = g.next(); std::vector<std::string> outs; std::string first_desc;
    static const std::vector<slong> precs = {4, 8, 16, 32, 53, 64, 96, 128, 333};
    for (int v = 0; v < 4; v++) {
        FieldSpec s = base;
        if (v) { s.prec = g.pick(precs); gen_ball(g, f, f.index, s.ball, s.ballkind); }
        step("variant " + s.desc());
        CField K(s); std::string hist = "none";
        if (v) switch (g.below(4)) {
        case 0: if (f.deg > 1) { renf_refine_embedding(K.nf, g.range(10, 1500)); hist = "refined"; } break;
        case 1: { Pool Q(K, 3); for (size_t i = 0; i < 3; i++) Q.fill(g, i); for (int k = 0; k < 10; k++) { random_op(g, Q); query(g, Q); Q.trim(g); } hist = "used"; break; }
        default: break;
        }
        // the script: identical random decisions in every variant
        Rng q(script); Pool P(K, 4); std::string out; for (size_t i = 0; i < 4; i++) P.fill(q, i);
        for (int k = 0; k < 12; k++) {
            OpRec o = random_op(q, P); P.trim(q);
            size_t i = q.below(4), j = q.below(4); std::string r;
            if (v && g.chance(1, 3)) { switch (g.below(4)) { case 3: giant_ball(g, P.a(i), K.nf); break; case 0: if (f.deg > 1) renf_refine_embedding(K.nf, g.range(10, 800)); break; case 1: renf_elem_set_evaluation(P.a(i), K.nf, g.range(2, 300)); break; default: { Arb t; renf_elem_get_arb(t.v, P.a(j), K.nf, g.range(2, 300)); } } }
            switch (q.below(8)) {
            case 0: r = "cmp" + str((long)isgn(renf_elem_cmp(P.a(i), P.a(j), K.nf))); break;
            case 1: r = "sgn" + str((long)isgn(renf_elem_sgn(P.a(i), K.nf))); break;
            case 2: { Z z; renf_elem_floor(z.v, P.a(i), K.nf); r = "floor" + str(z); break; }
            case 3: { Z z; renf_elem_ceil(z.v, P.a(i), K.nf); r = "ceil" + str(z); break; }
            case 4: { char b[64]; snprintf(b, sizeof b, "d%a", renf_elem_get_d(P.a(i), K.nf, ARF_RND_NEAR)); r = b; break; }
            case 5: if (!renf_elem_is_zero(P.a(j), K.nf)) { Z z; renf_elem_fdiv(z.v, P.a(i), P.a(j), K.nf); r = "fdiv" + str(z); } break;
            case 6: { Q t = rnd_q(q); r = "cmpq" + str((long)isgn(renf_elem_cmp_fmpq(P.a(i), t.v, K.nf))); break; }
            default: r = "str" + take(renf_elem_get_str_pretty(P.a(i), "x", K.nf, 10, EANTIC_STR_ALG)) + " " + take(renf_elem_get_str_pretty(P.a(i), "x", K.nf, 10, EANTIC_STR_ALG | EANTIC_STR_D)); break;
            }
            event("query"); out += o.name + ":" + str(read(P.a(o.dst), K.nf)) + ";" + r + "\n";
        }
        outs.push_back(out); event("variant:" + hist); evaluated(12);
        situation("indep|" + s.kind + degclass(f.deg) + precclass(s.prec) + s.ballkind + hist);
        if (v == 0) first_desc = s.desc();
        else if (outs[(size_t)v] != outs[0]) {
            size_t i = 0; while (i < outs[0].size() && i < outs[(size_t)v].size() && outs[0][i] == outs[(size_t)v][i]) i++; size_t b = outs[0].rfind('\n', i); b = b == std::string::npos ? 0 : b + 1;
            fail("history-dependence", "the same computation answers differently: '" + outs[0].substr(b, 200) + "' in " + first_desc + " but '" + outs[(size_t)v].substr(b, 200) + "' in " + s.desc() + " (" + hist + ")");
        }
        if (v == 3) sample(first_desc + " vs " + s.desc() + ": " + outs[0].substr(0, 120));
    }
}

// -------------------------------------------------------------------- mem
// Everything once more with the intention to exercise allocation: huge
// coefficients, shrinking and growing values in place, clearing at any point.
// The sanitizers are the oracle; additionally live memory is counted: repeating
// the same work must not need more and more memory.
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define VF_LIVE() ((long)__sanitizer_get_current_allocated_bytes())
#endif
#endif
#ifndef VF_LIVE
#define VF_LIVE() (-1L)
#endif
static void mem_work(Rng& g, long idx) {
    bool kt = ctx().keep_trail;
    FieldSpec s = gen_field(g, 7); s.prec = g.chance(1, 2) ? 64 : g.range(8, 200);
    step(s.desc());
    {
        CField K(s); renf* nf = K.nf;
        Pool P(K, 3); for (size_t i = 0; i < 3; i++) P.fill(g, i, 1500);
        for (int k = 0; k < 25; k++) {
            OpRec o = random_op(g, P); (void)o; P.trim(g, 12000);
            if (g.chance(1, 3)) query(g, P);
            if (g.chance(1, 4)) { size_t i = g.below(3); P.e[i].reset(new CElem(nf)); P.fill(g, i, (int)g.range(1, 1500)); event("reallocated"); }
            if (g.chance(1, 6)) { // an element that is set, moved around and cleared
                renf_elem_t t, u; renf_elem_init(t, nf); renf_elem_init(u, nf); renf_elem_set(t, P.a(0), nf); renf_elem_swap(t, u); if (g.chance(1, 2)) renf_elem_mul(u, u, u, nf); renf_elem_clear(t, nf); renf_elem_clear(u, nf); event("temporaries"); }
            evaluated();
        }
        { slong n = g.range(0, s.ref->deg > 8 ? 2 : 6); fmpz* c = _fmpz_vec_init(n); CElem R(nf); if (P.bits(P.r[0]) < (s.ref->deg > 8 ? 200 : 1500)) renf_elem_get_cfrac(c, R.a, P.a(0), n, nf); _fmpz_vec_clear(c, n); event("cfrac"); }
        for (int fl = 1; fl < 8; fl++) take(renf_elem_get_str_pretty(P.a(0), "x", nf, 10, fl));
        take(renf_get_str(nf, "generator", 20));
        renf_t cp; renf_init_set(cp, nf); if (s.ref->deg > 1) renf_refine_embedding(cp, g.range(10, 600)); renf_equal(cp, nf); renf_clear(cp); event("copied");
        flint_rand_t st; flint_randinit(st); renf_elem_randtest(P.a(1), st, 50, nf); 
        flint_randclear(st);
    }
    for (int k = 0; k < 4; k++) { Arb b = any_ball(g, *s.ref); QP pol = s.ref->pol; fmpq_poly_check_unique_real_root(pol.v, b.v, g.range(2, 100)); evaluated(); event("unique-check"); }
    if (s.ref->deg > 1) { ZP p = s.ref->zpol; renf* v = (renf*)malloc(sizeof(renf) * (size_t)(s.ref->nreal + 1)); slong n = renf_set_embeddings_fmpz_poly(v, p.v, s.ref->nreal, 64); for (slong i = 0; i < n; i++) renf_clear(v + i); free(v); event("set_embeddings"); }
    { std::string c; QP w; std::string var = "alpha"; std::string t = gen_valid(g, var, w, false, c); QP r; fmpq_poly_set_str_pretty(r.v, t.c_str(), var.c_str()); ZP z; fmpz_poly_set_str_pretty(z.v, t.c_str(), var.c_str()); t = gen_invalid(g, var, c); fmpq_poly_set_str_pretty(r.v, t.c_str(), var.c_str()); fmpz_poly_set_str_pretty(z.v, t.c_str(), var.c_str()); event("parse"); evaluated(); }
    m_roots(g, idx);
    ctx().keep_trail = kt;
}
static void m_mem(Rng& g, long idx) {
    uint64_t seed = g.next();
    situation("mem|" + str((long)(seed % 4096)));
    std::vector<long> live;
    auto saved = ctx().trail;
    for (int rep = 0; rep < 4; rep++) {
        Rng q(seed); 
        ctx().trail.clear(); ctx().trail.shrink_to_fit();
        mem_work(q, idx);
        auto last = std::move(ctx().trail); ctx().trail = {}; { decltype(last)().swap(last); }
        flint_cleanup();
        live.push_back(VF_LIVE());
    }
    evaluated(); event("conservation-checked");
    // identical work must return to the same amount of live memory
    if (live[3] > live[2] && live[2] > live[1] ) { long d1 = live[3] - live[2], d2 = live[2] - live[1]; if (d1 == d2) fail("memory-growth", "repeating the same work keeps " + str(d1) + " more bytes every time"); }
    if (idx < 3) sample("live bytes after repeating the same work: " + str(live[0]) + " " + str(live[1]) + " " + str(live[2]) + " " + str(live[3]));
}
