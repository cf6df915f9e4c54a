"""Monitor for the Python bindings: everything is compared with an independent
model, polynomials over Fraction modulo the minimal polynomial and an isolating
interval of the root, in pure Python.  Same command line and summary as vf.hpp."""
import gc, json, mmap, os, pickle, random, signal, struct, sys, time, types, warnings
from fractions import Fraction as F

ev, distinct, samples, trail = {}, set(), [], []
evals = 0
cur = -1
MODE = "python"


def event(k, n=1):
    ev[k] = ev.get(k, 0) + n


def fnv(s):
    h = 1469598103934665603
    for c in s.encode():
        h = ((h ^ c) * 1099511628211) & (2**64 - 1)
    return "%x" % h


def situation(s):
    distinct.add(fnv(s))


def step(s):
    trail.append(s)
    if os.environ.get("VF_VERBOSE"):
        print("VF-STEP|%d|%s" % (cur, s), file=sys.stderr, flush=True)


def fail(kind, msg):
    sys.stdout.flush()
    print("\nVF-FAIL|%s|case=%d|kind=%s|%s" % (MODE, cur, kind, str(msg).replace("\n", " ")))
    for t in trail[-40:]:
        print("VF-TRAIL|" + t)
    sys.stdout.flush()
    os._exit(77)


# a stand-in for gmpy2, which Sage's integers and rationals convert to
class mpz(int):
    pass


class mpq(F):
    pass


class LikeInteger:      # what a Sage Integer offers
    def __init__(self, n): self.n = n
    def __mpz__(self): return mpz(self.n)


class LikeRational:     # what a Sage Rational offers
    def __init__(self, q): self.q = q
    def __mpq__(self): return mpq(self.q)


with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import cppyy
    from pyeantic import eantic
    import realalg
    from pyeantic.realalg_conversion import realalg_nf_to_eantic, realalg_nf_elem_to_eantic
if "gmpy2" not in sys.modules:
    m = types.ModuleType("gmpy2")
    m.mpz, m.mpq = mpz, mpq
    sys.modules["gmpy2"] = m
# deprecated cross-field operations are announced on cerr
mpz_class, mpq_class = cppyy.gbl.mpz_class, cppyy.gbl.mpq_class
string = cppyy.gbl.std.string


# ------------------------------------------------------------------ reference
def trim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def padd(a, b):
    n = max(len(a), len(b))
    return trim([(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)])


def pscale(a, c):
    return trim([x * c for x in a])


def pmul(a, b):
    if not a or not b:
        return []
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return trim(r)


def pdivmod(a, b):
    a, q = list(a), [F(0)] * max(0, len(a) - len(b) + 1)
    while len(a) >= len(b):
        c = F(a[-1]) / b[-1]
        k = len(a) - len(b)
        q[k] = c
        for i, y in enumerate(b):
            a[i + k] -= c * y
        a = trim(a[:-1])
    return trim(q), trim(a)


def peval(p, x):
    r = F(0)
    for c in reversed(p):
        r = r * x + c
    return r


def sturm(p):
    s = [trim([F(c) for c in p]), trim([F(c) * i for i, c in enumerate(p)][1:])]
    while s[-1]:
        s.append(pscale(pdivmod(s[-2], s[-1])[1], -1))
    return s[:-1]


def var(s, x):
    v, last = 0, 0
    for p in s:
        e = peval(p, x)
        if e:
            t = 1 if e > 0 else -1
            if last and t != last:
                v += 1
            last = t
    return v


class Ref:
    def __init__(self, pol):
        self.pol = trim([F(c) for c in pol])
        self.deg = len(self.pol) - 1
        self.st = sturm(self.pol)

    def count(self, a, b):   # roots in (a, b]
        return var(self.st, a) - var(self.st, b)

    def isolate(self):
        B = 1 + max(abs(c / self.pol[-1]) for c in self.pol)
        todo, out = [(-B, B)], []
        while todo:
            a, b = todo.pop()
            n = self.count(a, b)
            if n == 1:
                out.append((a, b))
            elif n > 1:
                m = (a + b) / 2
                todo += [(a, m), (m, b)]
        return sorted(out)

    def refine(self, iv, w):
        a, b = iv
        while b - a > w:
            m = (a + b) / 2
            if self.count(a, m) == 1:
                b = m
            else:
                a = m
        return a, b


class Field:
    def __init__(self, r, ref, root, gen, emb, prec):
        self.ref, self.iv, self.gen, self.emb, self.prec = ref, root, gen, emb, prec
        self.minpoly = " + ".join("%s*%s^%d" % (c, gen, i) for i, c in enumerate(ref.pol) if c)

    def desc(self):
        return "renf(%r, %r, %r, %d)" % (self.minpoly, self.gen, self.emb, self.prec)

    def red(self, p): return pdivmod(p, self.ref.pol)[1]
    def mul(self, a, b): return self.red(pmul(a, b))

    def inv(self, a):   # extended gcd
        r0, r1, s0, s1 = self.ref.pol, a, [], [F(1)]
        while len(r1) > 1:
            q, r = pdivmod(r0, r1)
            r0, r1, s0, s1 = r1, r, s1, padd(s0, pscale(pmul(q, s1), -1))
        return self.red(pscale(s1, 1 / r1[0]))

    def bounds(self, p):
        lo = hi = F(0)
        a, b = self.iv
        for c in reversed(p):
            t = [lo * a, lo * b, hi * a, hi * b]
            lo, hi = min(t) + c, max(t) + c
        return lo, hi

    def sgn(self, p):
        if not p:
            return 0
        if len(p) == 1:
            return 1 if p[0] > 0 else -1
        while True:
            lo, hi = self.bounds(p)
            if lo > 0: return 1
            if hi < 0: return -1
            self.iv = self.ref.refine(self.iv, (self.iv[1] - self.iv[0]) / 2**20)

    def floor(self, p):
        if len(p) <= 1:
            q = p[0] if p else F(0)
            return q.numerator // q.denominator
        while True:
            lo, hi = self.bounds(p)
            a, b = lo.numerator // lo.denominator, hi.numerator // hi.denominator
            if a == b: return a
            self.iv = self.ref.refine(self.iv, (self.iv[1] - self.iv[0]) / 2**20)

    def dbl(self, p):
        if len(p) <= 1:
            return float(p[0]) if p else 0.0
        while True:
            lo, hi = self.bounds(p)
            if float(lo) == float(hi): return float(lo)
            self.iv = self.ref.refine(self.iv, (self.iv[1] - self.iv[0]) / 2**20)


def rnd_int(r, small=False):
    k = r.randrange(8)
    if k < 4: return r.randint(-20, 20)
    if k == 4: return r.choice([1, -1]) * (2**r.choice([15, 16, 30, 31]) - r.randint(0, 2) - 1)
    if small: return r.randint(-2**31, 2**31 - 1)
    if k == 5: return r.choice([1, -1]) * (2**r.choice([31, 32, 62, 63, 64]) + r.randint(-2, 2))
    if k == 6: return r.randint(-10**6, 10**6)
    return r.randint(-2**r.randint(20, 150), 2**r.randint(20, 150))


def rnd_frac(r):
    return F(rnd_int(r), r.randint(1, 60) if r.random() < .7 else abs(rnd_int(r)) or 1)


def decimals(q, k):
    n = (q * 10**k).__round__()
    s = "-" if n < 0 else ""
    n = abs(n)
    return F(n if s == "" else -n, 10**k), "%s%d.%0*d" % (s, n // 10**k, k, n % 10**k) if k else "%s%d" % (s, n)


def gen_field(r):
    while True:
        d = r.choice([1, 2, 2, 2, 3, 3, 4, 5]) if r.random() < .96 else r.randint(8, 12)
        p = r.choice([2, 3, 5, 7])
        if d == 1:
            pol = [rnd_int(r), r.randint(1, 30)]
        elif d > 2 and r.random() < .1:   # two roots very close to 1/a (or to a)
            a = r.randint(3, 40) if r.random() < .7 else r.randint(2, 9) * 10**r.randint(2, 14)
            pol = [-2, 4 * a, -2 * a * a] + [0] * (d - 3) + [1]
            if d == 3: pol[3] = 1
            if r.random() < .5: pol.reverse(); pol = [-c for c in pol]
        else:   # Eisenstein at p
            c0 = p * r.choice([x for x in range(-30, 31) if x % p])
            pol = [c0] + [p * r.randint(-6, 6) if r.random() < .6 else 0 for _ in range(d - 1)] + [r.choice([1, 1, 1, r.choice([x for x in range(1, 12) if x % p])])]
        ref = Ref(pol)
        roots = ref.isolate()
        if not roots:
            continue
        iv = r.choice(roots)
        if r.random() < .2 and d > 1:   # rational coefficients
            c = F(r.choice([1, 1, -1]), r.randint(1, 9))
            ref = Ref([x * c for x in pol])
        k = r.randint(0, 30)
        while True:
            iv2 = ref.refine(iv, F(1, 10**(k + 2)))
            c, s = decimals(sum(iv2) / 2, k)
            rad = F(r.randint(1, 9), 10**k) if k else F(1)
            rs = decimals(rad, k)[1]
            lo, hi = c - rad, c + rad
            if ref.count(lo, hi) == 1 and ref.count(lo - rad / 100, hi + rad / 100) == 1 and peval(ref.pol, lo) != 0 and lo < iv2[0] and iv2[1] < hi:
                break
            k += 3
        gen = r.choice(["a", "x", "alpha", "b", "y"])
        prec = r.choice([64, 64, 64, 128, 256, max(64, 4 * k)])
        need = 4 * k + int(max(abs(lo), abs(hi))).bit_length()
        if need > prec:
            prec = need + 16
        emb = r.choice(["%s +/- %s", "[%s +/- %s]"]) % (s, rs)
        return Field(r, ref, iv2, gen, emb, prec)


def gen_val(r, f):
    k = r.randrange(6)
    if k == 0: return trim([F(rnd_int(r))])
    if k == 1: return trim([rnd_frac(r)])
    if k == 2: return trim(f.red([F(0), F(1)]))
    return f.red([rnd_frac(r) if r.random() < .4 else F(r.randint(-9, 9)) for _ in range(f.ref.deg)])


# ------------------------------------------------------------------ driving
def read(x):
    num, den = [int(str(c)) for c in x.num_vector()], int(str(x.den()))
    return trim([F(c, den) for c in num])


def to_mpq(q):
    return mpq_class(string(str(q)))


def to_mpz(n):
    return mpz_class(string(str(n)))


def pstr(p, gen):
    if not p:
        return "0"
    return " + ".join(("%s*%s^%d" % (c, gen, i) if i else str(c)) for i, c in enumerate(p) if c).replace("+ -", "- ")


def check(x, f, K, want, what):
    global evals
    evals += 2
    got = read(x)
    if got != want:
        fail("wrong-value", "%s gives %s instead of %s in %s" % (what, pstr(got, f.gen), pstr(want, f.gen), f.desc()))
    if K is not None and x.parent() != K:
        fail("parent", "%s: result is in another field than %s" % (what, f.desc()))


def eq(a, b, kind, what):
    global evals
    evals += 1
    if a != b:
        fail(kind, "%s: %r instead of %r" % (what, a, b))


def construct(r, f, K, v):
    """an element with value v, made in one of the ways the bindings offer"""
    w = r.randrange(5)
    step("construct way %d %s" % (w, pstr(v, f.gen)))
    if w == 0:
        event("make:string"); return eantic.renf_elem(K, pstr(v, f.gen))
    if w == 1:
        event("make:list")
        q = v + [F(0)] * r.randint(0, f.ref.deg - len(v)) if len(v) <= f.ref.deg else v
        q = q or [F(0)]
        wrap = r.randrange(3)
        if wrap == 0: return eantic.renf_elem(K, [to_mpq(c) for c in q])
        if wrap == 1: return eantic.renf_elem(K, tuple(LikeRational(c) for c in q))
        return eantic.renf_elem(K, [int(c) if c.denominator == 1 and abs(c) < 2**31 else to_mpz(c) if c.denominator == 1 else to_mpq(c) for c in q])
    if len(v) <= 1:
        c = v[0] if v else F(0)
        if c.denominator == 1:
            k = r.randrange(3)
            event("make:int%d" % k)
            return eantic.renf_elem(K, int(c) if k == 0 else to_mpz(c) if k == 1 else LikeInteger(int(c)))
        k = r.randrange(2)
        event("make:rational%d" % k)
        return eantic.renf_elem(K, to_mpq(c) if k else LikeRational(c))
    event("make:horner")
    x, g = eantic.renf_elem(K), K.gen()
    for c in reversed(v):
        x = x * g + to_mpq(c)
    return x


def scalar(r):
    """(python object, value, kind, fits a C int)"""
    k = r.randrange(6)
    if k <= 1:
        n = rnd_int(r, True); return n, F(n), "int"
    if k == 2:
        n = rnd_int(r); return to_mpz(n), F(n), "mpz"
    if k == 3:
        q = rnd_frac(r); return to_mpq(q), q, "mpq"
    if k == 4:
        n = rnd_int(r); return LikeInteger(n), F(n), "Integer"
    q = rnd_frac(r); return LikeRational(q), q, "Rational"


CMP = [("<", lambda a, b: a < b, lambda s: s < 0), ("<=", lambda a, b: a <= b, lambda s: s <= 0), (">", lambda a, b: a > b, lambda s: s > 0),
       (">=", lambda a, b: a >= b, lambda s: s >= 0), ("==", lambda a, b: a == b, lambda s: s == 0), ("!=", lambda a, b: a != b, lambda s: s != 0)]


def case(r):
    global evals
    f = gen_field(r)
    step(f.desc())
    K = eantic.renf(f.minpoly, f.gen, f.emb, f.prec) if f.prec != 64 or r.random() < .5 else eantic.renf(f.minpoly, f.gen, f.emb)
    event("field:deg%d" % f.ref.deg)
    dk = str(min(f.ref.deg, 3))
    eq(K.degree(), f.ref.deg, "field", "degree of " + f.desc())
    eq(str(K.gen_name()), f.gen, "field", "generator name of " + f.desc())
    check(K.gen(), f, K, f.red([F(0), F(1)]), "generator")
    check(K.zero(), f, K, [], "zero")
    check(K.one(), f, K, [F(1)], "one")
    check(eantic.renf_elem(K), f, K, [], "default element")
    if len(samples) < 10:
        samples.append(f.desc())
    vals = [gen_val(r, f) for _ in range(4)]
    xs = [construct(r, f, K, v) for v in vals]
    step("made")
    for x, v in zip(xs, vals):
        check(x, f, K, v, "construction of " + pstr(v, f.gen))
    for _ in range(16):
        i, j = r.randrange(len(xs)), r.randrange(len(xs))
        x, v, y, w = xs[i], vals[i], xs[j], vals[j]
        op = r.randrange(14)
        n = "%s and %s" % (pstr(v, f.gen), pstr(w, f.gen))
        step("op %d on %s" % (op, n))
        res = None
        event("op:%d" % op)
        vc = "%d%d%s" % (min(len(v), 2), min(len(w), 2), dk)
        if op == 0:
            res, want = x + y, padd(v, w)
        elif op == 1:
            res, want = x - y, padd(v, pscale(w, -1))
        elif op == 2:
            res, want = x * y, f.mul(v, w)
        elif op == 3 and w:
            res, want = x / y, f.mul(v, f.inv(w))
        elif op == 4:
            res, want = -x, pscale(v, -1)
        elif op == 5:
            e = r.randint(-3, 6) if v else r.randint(0, 4)
            b, want = (v if e >= 0 else f.inv(v)), [F(1)]
            for _ in range(abs(e)):
                want = f.mul(want, b)
            res, n = x ** e, "%s ** %d" % (pstr(v, f.gen), e)
        elif op in (6, 7):
            s, q, kind = scalar(r)
            # cppyy does not look for reflected operators when a C++ number is on the left
            k = 2 * r.randrange(4) if kind in ("mpz", "mpq") else r.randrange(8)
            n = "%s with %s %s (%d)" % (pstr(v, f.gen), kind, q, k)
            Q = trim([q])
            situation("scalar|%s|%d|%s" % (kind, k, vc))
            event("scalar:" + kind)
            if k == 0: res, want = x + s, padd(v, Q)
            elif k == 1: res, want = s + x, padd(v, Q)
            elif k == 2: res, want = x - s, padd(v, pscale(Q, -1))
            elif k == 3: res, want = s - x, padd(Q, pscale(v, -1))
            elif k == 4: res, want = x * s, f.mul(v, Q)
            elif k == 5: res, want = s * x, f.mul(v, Q)
            elif k == 6 and q: res, want = x / s, pscale(v, 1 / q)
            elif k == 7 and v: res, want = s / x, f.mul(Q, f.inv(v))
            # the parent of the result of an operation of a scalar and a rational element may be the rational field
            if res is not None:
                check(res, f, K if len(v) > 1 else None, want, n)
                if len(want) > 1 or res.parent() == K:
                    xs[i], vals[i] = res, want
                res = None
        elif op == 8:
            s = f.sgn(padd(v, pscale(w, -1)))
            for name, g, t in CMP:
                eq(bool(g(x, y)), t(s), "comparison", "%s %s %s in %s" % (pstr(v, f.gen), name, pstr(w, f.gen), f.desc()))
            situation("cmp|%d|%s" % (s, vc))
            if s == 0:
                eq(hash(x), hash(y), "hash", "hash of equal elements %s" % n)
        elif op == 9:
            k = r.randrange(3)
            q = F(rnd_int(r, k == 0)) if k < 2 else rnd_frac(r)
            if r.random() < .3:
                q = F(f.floor(v)) + r.randint(-1, 1)
                if k == 0 and abs(q) >= 2**31: k = 1
            sc = int(q) if k == 0 else to_mpz(q) if k == 1 else to_mpq(q)
            if k == 1 and r.random() < .4: sc = int(q) if r.random() < .5 else LikeInteger(int(q))
            if k == 2 and r.random() < .3: sc = LikeRational(q)
            s = f.sgn(padd(v, [-q] if q else []))
            for name, g, t in CMP:
                eq(bool(g(x, sc)), t(s), "comparison", "%s %s %s in %s" % (pstr(v, f.gen), name, q, f.desc()))
                if k == 0:
                    eq(bool(g(sc, x)), t(-s), "comparison", "%s %s %s in %s" % (q, name, pstr(v, f.gen), f.desc()))
            situation("cmpq|%d|%d|%s" % (k, s, vc))
        elif op == 10:
            fl = f.floor(v)
            eq(int(str(x.floor())), fl, "floor", "floor of %s in %s" % (n, f.desc()))
            eq(int(str(x.ceil())), -f.floor(pscale(v, -1)), "ceil", "ceil of %s in %s" % (n, f.desc()))
            if w:
                eq(int(str(x.floordiv(y))), f.floor(f.mul(v, f.inv(w))), "floordiv", "floor division of %s in %s" % (n, f.desc()))
        elif op == 11:
            want = f.dbl(v)
            eq(float(x), want, "double", "conversion of %s in %s" % (n, f.desc()))
            eq(bool(x), bool(v), "bool", "truth value of %s" % n)
            eq(bool(x.is_rational()), len(v) <= 1, "rational", "is_rational of %s" % n)
            if len(v) <= 1:
                eq(F(str(eantic.cppyy.rational(x))), v[0] if v else F(0), "rational", "rational of %s" % n)
        elif op == 12:
            s = str(x)
            t = s[1:s.index("~")].strip() if s.startswith("(") else s
            eq(repr(x), s, "string", "repr and str of %s" % n)
            check(eantic.renf_elem(K, t), f, K, v, "string " + s)
        else:
            k = r.randrange(3)
            if k == 0:
                d = pickle.dumps(x)
                if r.random() < .5: gc.collect()
                y = pickle.loads(d)
                check(y, f, K, v, "pickling of " + n)
                eq(bool(y == x), True, "pickle", "restored element is equal")
            elif k == 1:
                L = pickle.loads(pickle.dumps(K))
                eq(bool(L == K), True, "pickle", "restored field is the field " + f.desc())
                L = pickle.loads(pickle.dumps(x.parent()))
                eq(bool(L == K), True, "pickle", "restored parent is the field " + f.desc())
            else:
                d = pickle.dumps([x, y, x])
                a, b, c = pickle.loads(d)
                check(a, f, K, v, "pickled list"); check(b, f, K, w, "pickled list"); check(c, f, K, v, "pickled list")
            situation("pickle|%d|%s" % (k, vc))
        if res is not None:
            check(res, f, K, want, "operation %d on %s" % (op, n))
            # operands are untouched
            check(x, f, K, v, "operand after operation %d on %s" % (op, n))
            if max([abs(c.numerator).bit_length() + c.denominator.bit_length() for c in want] or [0]) < 900:
                xs[i], vals[i] = res, want
        situation("op|%d|%s" % (op, vc))
    # values out of the range of the C++ types are refused or right, never wrong
    big = r.choice([1, -1]) * (2**r.choice([31, 32, 63, 64, 70, 100]) + r.randint(-1, 2))
    x, v = xs[0], vals[0]
    step("large %d" % big)
    for name, g, want in [("+", lambda: x + big, padd(v, [F(big)])), ("*", lambda: big * x, pscale(v, big)), ("construct", lambda: eantic.renf_elem(K, big), [F(big)])]:
        try:
            y = g()
        except (TypeError, ValueError, OverflowError):
            event("large:refused")
            continue
        event("large:accepted")
        check(y, f, None, want, "%s with %d" % (name, big))
    # without a field, numbers make elements of the rational field
    if r.random() < .7:
        k = r.randrange(4)
        sc, q, kind = scalar(r)
        if k == 0:
            q = F(r.choice([1, -1]) * (2**r.choice([31, 32, 53, 62, 63, 64, 70, 100]) + r.randint(-2, 2))); sc, kind = int(q), "large int"
        elif k == 1 and r.random() < .5:
            sc, kind = str(q), "string"
        step("renf_elem(%s %s)" % (kind, q))
        event("single:" + kind)
        y = eantic.renf_elem(sc)
        eq(bool(y.is_rational()), True, "single", "renf_elem(%s) is rational" % q)
        eq(F(str(eantic.cppyy.rational(y))), q, "single", "renf_elem(%s %s)" % (kind, q))
        eq(y.parent().degree(), 1, "single", "degree of the parent of renf_elem(%s)" % q)
        check(x + y, f, None, padd(v, trim([q])), "%s + renf_elem(%s)" % (pstr(v, f.gen), q))
        eq(hash(y) == hash(eantic.renf_elem(K, sc)), True, "hash", "hash of %s in the rational field and in %s" % (q, f.desc()))
        eq(bool(y == eantic.renf_elem(K, sc)), True, "comparison", "%s in the rational field and in %s" % (q, f.desc()))
    # elements of two fields: refused, unless one of them is rational; a refusal leaves no traces
    f2 = None
    for _ in range(4):
        h = gen_field(r)
        if h.ref.pol != f.ref.pol:
            f2 = h; break
    if f2 is not None:
        step("other field " + f2.desc())
        K2 = eantic.renf(f2.minpoly, f2.gen, f2.emb, f2.prec)
        eq(bool(K2 == K), False, "field", "%s is another field than %s" % (f2.desc(), f.desc()))
        for _ in range(3):
            v2 = gen_val(r, f2)
            if r.random() < .4: v2 = v2[:1] if v2[:1] != [0] else []
            y = construct(r, f2, K2, v2)
            i = r.randrange(len(xs)); x, v = xs[i], vals[i]
            if r.random() < .2: v = v2 if len(v2) <= 1 else v[:1] if v[:1] != [0] else []; x = construct(r, f, K, v)
            n = "%s in %s and %s in %s" % (pstr(v, f.gen), f.desc(), pstr(v2, f2.gen), f2.desc())
            step("fields " + n)
            if len(v2) <= 1 or len(v) <= 1:
                event("fields:rational")
                s = f.sgn(padd(v, pscale(v2, -1))) if len(v2) <= 1 else -f2.sgn(padd(v2, pscale(v, -1)))
                for name, g, t in CMP:
                    eq(bool(g(x, y)), t(s), "comparison", "%s of %s" % (name, n))
                    eq(bool(g(y, x)), t(-s), "comparison", "%s (swapped) of %s" % (name, n))
                if s == 0:
                    eq(hash(x), hash(y), "hash", "hash of " + n)
                fr, big = (f, K) if len(v2) <= 1 else (f2, K2)
                check(x + y, fr, None, padd(v, v2), "sum of " + n)
                check(y - x, fr, None, padd(v2, pscale(v, -1)), "difference of " + n)
                check(x * y, fr, None, fr.mul(v, v2), "product of " + n)
                check(eantic.renf_elem(big, y if big is K else x), fr, big, v2 if big is K else v, "conversion of " + n)
            else:
                event("fields:refused")
                for name, g in [(c, (lambda g=g: g(x, y))) for c, g, t in CMP] + [("+", lambda: x + y), ("*", lambda: x * y), ("-", lambda: y - x), ("/", lambda: x / y),
                                ("renf_elem", lambda: eantic.renf_elem(K2, x)), ("floordiv", lambda: x.floordiv(y))]:
                    if r.random() < .5: continue
                    evals += 1
                    try:
                        z = g()
                    except Exception:
                        continue
                    fail("refuse", "%s of %s is accepted: %s" % (name, n, z))
            check(x, f, K, v, "left operand"); check(y, f2, K2, v2, "right operand")
            # afterwards everything is as before
            j = r.randrange(len(xs))
            s = f.sgn(padd(v, pscale(vals[j], -1)))
            for name, g, t in CMP:
                eq(bool(g(x, xs[j])), t(s), "comparison", "after %s: %s %s %s" % (n, pstr(v, f.gen), name, pstr(vals[j], f.gen)))
            check(eantic.renf_elem(K, x), f, K, v, "copy of " + pstr(v, f.gen) + " after " + n)
            situation("fields|%d%d|%s|%d" % (min(len(v), 2), min(len(v2), 2), dk, min(f2.ref.deg, 3)))
        del K2, y
    # rubbish is refused with an exception
    one = r.choice([c for c in "abcxyz?!" if c != f.gen])
    for name, g in [("one character", lambda: eantic.renf_elem(K, one)), ("double", lambda: eantic.renf_elem(K, 1.5)), ("unknown symbol", lambda: eantic.renf_elem(K, "2*" + f.gen + "?")), ("bad polynomial", lambda: eantic.renf(f.gen + "^2 - ?", f.gen, f.emb)),
                    ("bad ball", lambda: eantic.renf(f.minpoly, f.gen, "1 +/- x")), ("float", lambda: xs[0] + 1.5), ("None", lambda: xs[0] * None),
                    ("list of strings", lambda: eantic.renf_elem(K, ["1", "2"]))]:
        if r.random() < .4:
            evals += 1
            event("refused:" + name)
            try:
                y = g()
            except Exception:
                # and leaves no traces
                d = r.randrange(10)
                check(eantic.renf_elem(K, str(d)), f, K, trim([F(d)]), "renf_elem(K, '%d') after %s was refused" % (d, name))
                check(eantic.renf_elem(K, f.gen), f, K, f.red([F(0), F(1)]), "renf_elem(K, '%s') after %s was refused" % (f.gen, name))
                check(eantic.renf_elem(K, xs[0]), f, K, vals[0], "copy of %s after %s was refused" % (pstr(vals[0], f.gen), name))
                continue
            fail("refuse", "%s is accepted: %s in %s" % (name, y, f.desc()))
    # elements outlive the name of the field
    y = xs[0] + 0
    w = vals[0]
    del K, xs, x
    if r.random() < .5: gc.collect()
    event("field-name-dropped")
    check(y * y, f, None, f.mul(w, w), "square after dropping the field")
    K2 = y.parent()
    eq(K2.degree(), f.ref.deg if len(w) > 1 or K2.degree() != 1 else 1, "field", "parent after dropping the field")
    del y
    gc.collect() if r.random() < .3 else None
    eq(K2.degree() in (f.ref.deg, 1), True, "field", "field kept alive by its reference")


def case_realalg(r):
    """conversion from realalg: the same root of the same polynomial, elements with the same coefficients"""
    global evals
    while True:
        f = gen_field(r)
        pol = f.ref.pol
        if f.ref.deg < 2 or any(c.denominator != 1 for c in pol):
            continue
        roots = f.ref.isolate()
        # realalg works with 15 decimal digits here
        ivs = [f.ref.refine(iv, F(1, 10**12)) for iv in roots]
        if any(ivs[i + 1][0] - ivs[i][1] < F(1, 10**9) for i in range(len(ivs) - 1)) or any(abs(a) > 10**6 or abs(a) < F(1, 10**4) for a, b in ivs):
            continue
        break
    idx = r.randrange(len(roots))
    coeffs = [int(c) for c in pol]
    step("realalg %s index %d" % (coeffs, idx))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            R = realalg.RealNumberField(coeffs, index=idx - len(roots) if r.random() < .5 else idx)
            lam = float(R.lmbda) if hasattr(R, "lmbda") else None
            iv = R.intervals(15)[1]
    except Exception as e:
        event("realalg-unavailable")
        return
    lo, hi = F(iv.lower, 10**iv.precision), F(iv.upper, 10**iv.precision)
    which = [i for i, (a, b) in enumerate(ivs) if b > lo - F(1, 10**11) and a < hi + F(1, 10**11)]
    if len(which) != 1:
        event("realalg-ambiguous")
        return
    f.iv = ivs[which[0]]
    name = r.choice(["a", "b", "t"])
    f.gen = name
    K = realalg_nf_to_eantic(R, name)
    event("realalg-field")
    eq(K.degree(), f.ref.deg, "field", "degree of converted field")
    if any(ivs[i + 1][0] - ivs[i][1] < F(1, 1000) for i in range(len(ivs) - 1)): event("realalg-close-roots")
    eq(abs(float(K.gen()) - float(f.iv[0])) < 2e-10 + 1e-14 * abs(float(f.iv[0])), True, "realalg", "converted field is embedded at %r instead of %r: %s" % (float(K.gen()), float(f.iv[0]), coeffs))
    eq([c * f.ref.pol[-1] for c in pdivmod([F(0)] * f.ref.deg + [F(1)], f.ref.pol)[1]], [c * f.ref.pol[-1] for c in pdivmod([F(0)] * f.ref.deg + [F(1)], f.ref.pol)[1]], "realalg", "sanity")
    g = K.gen()
    p = eantic.renf_elem(K)
    for c in reversed(coeffs):
        p = p * g + c
    check(p, f, K, [], "minimal polynomial at the generator of the converted field %s" % coeffs)
    for _ in range(4):
        v = trim([F(r.randint(-20, 20), r.choice([1, 1, 2, 3])) if r.random() < .7 else F(0) for _ in range(f.ref.deg)])
        try:
            e = R([c for c in v] or [F(0)])
            cs = trim([F(c) for c in e.coefficients])
        except Exception:
            event("realalg-unavailable")
            continue
        if cs != v:
            event("realalg-ambiguous")
            continue
        y = realalg_nf_elem_to_eantic(K, e)
        check(y, f, K, v, "conversion of %s" % (v,))
        event("realalg-element")
        situation("realalg|%d|%d" % (f.ref.deg, len(v)))
    n = r.randint(-10**20, 10**20)
    check(realalg_nf_elem_to_eantic(K, n), f, K, trim([F(n)]), "conversion of %d" % n)
    q = rnd_frac(r)
    check(realalg_nf_elem_to_eantic(K, q), f, K, trim([q]), "conversion of %s" % q)
    check(realalg_nf_elem_to_eantic(K, "%s^2 - 1" % name), f, K, f.red([F(-1), F(0), F(1)]), "conversion of a string")


SAGE = None


def sage():
    """pyeantic's interface for Sage, on top of a stand-in for Sage; None if it asks for more than that has"""
    global SAGE
    if SAGE is None:
        sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
        sys.dont_write_bytecode = True
        import sagestub
        s = sagestub.install(globals())
        try:
            import pyeantic, pyeantic.sage_conversion, pyeantic.real_embedded_number_field
            s.RENF, s.conv, s.limit = pyeantic.RealEmbeddedNumberField, pyeantic.sage_conversion, sagestub.StandInLimit
            SAGE = s
        except (ImportError, sagestub.StandInLimit) as e:
            SAGE = str(e)
    return SAGE


def case_sage(r):
    s = sage()
    if isinstance(s, str):
        event("sage-interface-not-loaded")
        return
    try:
        sage_case(r, s)
    except s.limit:
        event("sage-standin-limit")
    except ImportError as e:
        if "sage" not in str(e): raise
        event("sage-standin-limit")
    except TypeError as e:   # called with arguments that the stand-in does not know
        if "install.<locals>" not in str(e): raise
        event("sage-standin-limit")


def refuses(f, kind, what, kinds=(TypeError, ValueError, ArithmeticError)):
    global evals
    evals += 1
    try:
        x = f()
    except kinds:
        event("sage-refused")
        return
    fail(kind, "%s gives %r instead of an exception" % (what, x))


def sage_case(r, s):
    """embedded number fields of Sage (played by a stand-in) and back: same root, same values, unique parents"""
    global evals
    f = gen_field(r)
    d = f.ref.deg
    pol = s.Poly(f.gen, f.ref.pol)
    roots = s.AA._roots(f.ref.pol)
    which = [i for i, x in enumerate(roots) if x.iv[0] < f.iv[1] and f.iv[0] < x.iv[1] or x.iv == f.iv]
    if len(which) != 1:
        which = [i for i, x in enumerate(roots) if x.interval(F(1, 10**40))[1] > f.iv[0] and x.iv[0] < f.iv[1]]
    root = roots[which[0]]
    step("sage field %s, root %d of %d" % (pol, which[0], len(roots)))
    route = r.choice(["embedded", "embedding", "renf", "renf-reference"])
    # the printed root of an e-antic field has to tell the roots apart
    gap = min([roots[i + 1].interval(F(1, 10**30))[0] - roots[i].interval(F(1, 10**30))[1] for i in range(len(roots) - 1)] or [F(1)])
    big = max(max(abs(x.iv[0]), abs(x.iv[1])) for x in roots)
    close = gap < F(1, 10**12) * max(1, big)
    S = s.NumberField(pol, f.gen, embedding=root)
    E = eantic.renf(f.minpoly, f.gen, f.emb, f.prec)
    if route == "embedded": K = s.RENF(S)
    elif route == "embedding": K = s.RENF(s.NumberField(pol, f.gen).embeddings(s.AA)[which[0]])
    else:
        try:
            K = s.RENF(E if route == "renf" else E.get() if hasattr(E, "get") else E)
        except RuntimeError:   # the root as printed does not tell the roots apart
            if not close: raise
            event("sage-refused")
            K = s.RENF(S)
    event("sage-field:" + route)
    situation("sage|%s|%d|%d" % (route, d, len(roots)))
    eq(K is s.RENF(S), True, "sage-unique", "RealEmbeddedNumberField of %s from %s is not the one from the embedded field" % (f.desc(), route))
    if r.random() < .3:
        eq(K is s.RENF(K.renf), True, "sage-unique", "RealEmbeddedNumberField of its own e-antic field is another field: %s" % f.desc()) if not close else None
    if len(roots) > 1 and r.random() < .3:
        other = s.RENF(s.NumberField(pol, f.gen, embedding=roots[(which[0] + 1) % len(roots)]))
        eq(K is other, False, "sage-unique", "fields embedded at different roots are the same")
        eq(K.renf == other.renf, False, "sage-unique", "e-antic fields of different roots are the same")
    eq(K.renf == E, True, "sage-field", "e-antic field of %s (%s) is not the one made directly" % (f.desc(), route))
    eq(s.conv.sage_nf_to_eantic(S) == E, True, "sage-field", "sage_nf_to_eantic of %s is not the field made directly" % f.desc())
    eq(K.degree(), d, "sage-field", "degree")
    eq(int(K.characteristic()), 0, "sage-field", "characteristic")
    eq(K.is_field(), True, "sage-field", "is_field")
    N = K.number_field
    full = lambda v: v + [F(0)] * (d - len(v))
    def chk(x, v, what):
        check(x.renf_elem, f, E, v, what)
        eq(x.parent() is K, True, "sage-parent", what)
    chk(K.gen(), f.red([F(0), F(1)]), "gen()")
    chk(K.an_element(), N.an_element().c, "an_element()")
    vals = [gen_val(r, f) for _ in range(3)]
    if r.random() < .4: vals[1] = padd(vals[0], [F(r.choice([-1, 1]), 10**r.randint(8, 60))] if r.random() < .8 else [])   # a near tie
    xs = []
    for v in vals:
        k = r.randrange(4)
        if k == 0 and len(v) <= 1: x = K((v or [F(0)])[0] if r.random() < .5 or (v and v[0].denominator != 1) else int((v or [0])[0]))
        elif k == 1: x = K(pstr(v, f.gen).replace("^0", "^0"))
        elif k == 2: x = K(full(v))
        else: x = K(N(full(v)))
        chk(x, v, "element %s" % pstr(v, f.gen))
        check(s.conv.sage_nf_elem_to_eantic(S if r.random() < .5 else E, N(full(v))) if not close else s.conv.sage_nf_elem_to_eantic(S, N(full(v))), f, E, v, "sage_nf_elem_to_eantic")
        xs.append(x)
    for _ in range(4):
        i, j = r.randrange(3), r.randrange(3)
        x, y, v, w = xs[i], xs[j], vals[i], vals[j]
        if r.random() < .3:
            q = r.choice([F(rnd_int(r)), rnd_frac(r)])
            w, y = trim([q]), r.choice([int(q), s.Integer(int(q))]) if q.denominator == 1 else r.choice([q, s.QQ(q)])
        chk(x + y, padd(v, w), "+"); chk(x - y, padd(v, pscale(w, -1)), "-"); chk(x * y, f.mul(v, w), "*")
        chk(-x, pscale(v, -1), "neg")
        if w: chk(x / y, f.mul(v, f.inv(w)), "/")
        if isinstance(y, int): chk(y - x, padd(w, pscale(v, -1)), "r-")
        c = f.sgn(padd(v, pscale(w, -1)))
        for op, want in (("lt", c < 0), ("le", c <= 0), ("eq", c == 0), ("ne", c != 0), ("gt", c > 0), ("ge", c >= 0)):
            eq(bool(getattr(x, "__%s__" % op)(y)), want, "sage-order", "%s %s %s in %s" % (pstr(v, f.gen), op, pstr(w, f.gen), f.desc()))
        event("sage-op")
    x, v = xs[0], vals[0]
    n = N(x)
    eq(n.c, v, "sage-back", "number field element of %s" % pstr(v, f.gen))
    eq(n.p is N, True, "sage-back", "parent of the number field element")
    eq([c.q for c in x.vector()], v + [F(0)] * (d - len(v)), "sage-back", "vector() of %s" % pstr(v, f.gen))
    if len(v) <= 1:
        q = (v or [F(0)])[0]
        eq(s.QQ(x).q, q, "sage-rational", "QQ(%s)" % q)
        if q.denominator == 1: eq(int(s.ZZ(x)), int(q), "sage-integer", "ZZ(%s)" % q)
        else: refuses(lambda: s.ZZ(x), "sage-integer", "ZZ(%s)" % q)
    else:
        refuses(lambda: s.QQ(x), "sage-rational", "QQ(%s)" % pstr(v, f.gen))
        refuses(lambda: s.ZZ(x), "sage-integer", "ZZ(%s)" % pstr(v, f.gen))
    y = K(full(v))
    eq(hash(x), hash(y), "sage-hash", "hash of equal elements")
    eq(repr(x), repr(x.renf_elem), "sage-print", "repr")
    try:
        data = pickle.dumps([x, xs[1], K])
    except (pickle.PicklingError, AttributeError) as e:
        event("sage-standin-limit")
        return
    a, b, L = pickle.loads(data)
    eq(L is K, True, "sage-pickle", "unpickled field is another one")
    chk(a, v, "unpickled element"); chk(b, vals[1], "unpickled element")
    event("sage-pickle")
    if r.random() < .2:
        refuses(lambda: s.RENF(s.NumberField(pol, f.gen)), "sage-refused", "field without embedding")
        refuses(lambda: s.RENF("a^2 - 2"), "sage-refused", "a string")
        Q1 = s.RENF(s.QQ)
        eq(Q1.degree(), 1, "sage-rationals", "degree of QQ")
        q = rnd_frac(r)
        check(Q1(q).renf_elem, f, None, trim([q]), "rational in QQ")
        eq(s.RENF(Q1.renf) is Q1, True, "sage-rationals", "the e-antic field of QQ gives another field")


def main():
    global cur, MODE
    a = sys.argv[1:]
    MODE = a[0]
    o = dict(zip(a[1::2], a[2::2]))
    seed, frm, stride, count = int(o.get("--seed", 1)), int(o.get("--from", 0)), int(o.get("--stride", 1)), int(o.get("--count", 10))
    cpu, deadline = int(o.get("--cpu", 60)), int(o.get("--deadline", 0))
    st = None
    if "--state" in o:
        fd = os.open(o["--state"], os.O_RDWR | os.O_CREAT, 0o600)
        os.ftruncate(fd, 64)
        st = mmap.mmap(fd, 64)
    t0, done = time.time(), 0
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    for i in range(count):
        if deadline and time.time() - t0 > deadline:
            event("truncated-by-watchdog")
            break
        cur = frm + i * stride
        if st is not None:
            st[0:8] = struct.pack("q", cur)
        trail.clear()
        signal.setitimer(signal.ITIMER_PROF, cpu)
        r = random.Random("%d/%d/%s" % (seed, cur, MODE))
        try:
            k = r.random()
            case_sage(r) if MODE == "sage" else case_realalg(r) if k < .12 else case_sage(r) if k < .24 else case(r)
        except Exception as e:
            import traceback
            fail("exception", "unexpected %s: %s at %s" % (type(e).__name__, str(e)[:400], " <- ".join(x.strip().replace("\n", " ") for x in traceback.format_tb(e.__traceback__)[-5:])))
        done += 1
    signal.setitimer(signal.ITIMER_PROF, 0)
    if st is not None:
        st[0:8] = struct.pack("q", -2)
    if "--out" in o:
        json.dump({"mode": MODE, "cases": done, "evaluations": evals, "events": ev, "distinct": sorted(distinct), "samples": samples}, open(o["--out"], "w"))
    sys.stdout.flush()
    os._exit(0)


main()
