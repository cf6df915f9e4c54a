"""A stand-in for the part of SageMath (which is not installed) that pyeantic's Sage interface talks to: rationals,
univariate polynomials, real algebraic numbers, embedded number fields, real balls, parents and elements.  Everything
is exact (Fraction and isolating intervals).  Where the interface asks for something that is not here, StandInLimit is
raised and the execution is counted as not driven, never as wrong."""
import re, sys, types, weakref
from fractions import Fraction as F


class StandInLimit(AttributeError):
    pass


class Obj:
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise StandInLimit("stand-in for Sage has no %s.%s" % (type(self).__name__, k))


def install(ref):
    """`ref` is the module with the reference arithmetic (Ref, Field, trim, peval, ...)."""
    trim = ref["trim"]

    # ---------------------------------------------------------------- numbers
    class Integer(int):
        def parent(self): return ZZ
        def __truediv__(self, o): return Q_(F(int(self), int(o)))

    def Q_(x):
        q = F(x)
        return Quo(q)

    class Quo(Obj):   # an element of QQ
        def __init__(self, q): self.q = F(q)
        def parent(self): return QQ
        def numerator(self): return Integer(self.q.numerator)
        def denominator(self): return Integer(self.q.denominator)
        def __eq__(self, o): return self.q == frac(o)
        def __ne__(self, o): return not self == o
        def __hash__(self): return hash(self.q)
        def __repr__(self): return str(self.q)
        __str__ = __repr__
        def __add__(self, o): return Q_(self.q + frac(o))
        def __sub__(self, o): return Q_(self.q - frac(o))
        def __mul__(self, o): return Q_(self.q * frac(o))
        def __truediv__(self, o): return Q_(self.q / frac(o))
        def __neg__(self): return Q_(-self.q)
        def __bool__(self): return self.q != 0
        def is_zero(self): return self.q == 0
        def polynomial(self): return Poly("x", [self.q])

    def frac(x):
        if isinstance(x, Quo):
            return x.q
        if isinstance(x, (int, F)):
            return F(x)
        if isinstance(x, str):
            if not re.match(r"^-?\d+(/\d+)?$", x):
                raise TypeError("unable to convert %r to a rational" % x)
            return F(x)
        if hasattr(x, "_rational_"):
            return x._rational_().q
        if isinstance(x, NFElement):
            if len(trim(x.c)) > 1:
                raise TypeError("Unable to coerce %s to a rational" % x)
            return x.c[0] if x.c else F(0)
        raise TypeError("unable to convert %r to a rational" % (x,))

    class _QQ(Obj):
        def __call__(self, x): return Q_(frac(x))
        def __getitem__(self, name): return PolyRing(name)
        def zero(self): return Q_(0)
        def one(self): return Q_(1)
        def gen(self): return Q_(1)
        def degree(self): return 1
        def is_absolute(self): return True
        def variable_name(self): return "x"
        def polynomial(self): return Poly("x", [F(-1), F(1)])
        def __contains__(self, x):
            try: frac(x); return True
            except TypeError: return False
        def __repr__(self): return "Rational Field"

    class _ZZ(Obj):
        def __call__(self, x):
            if hasattr(x, "_integer_"):
                return Integer(int(frac(x._integer_())))
            q = frac(x)
            if q.denominator != 1:
                raise TypeError("no conversion of this rational to integer")
            return Integer(q.numerator)
        def __repr__(self): return "Integer Ring"

    QQ, ZZ = _QQ(), _ZZ()

    # ------------------------------------------------------------ polynomials
    class PolyRing(Obj):
        def __init__(self, name):
            if not re.match(r"^[A-Za-z]\w*$", name):
                raise ValueError("variable name %r is not alphanumeric" % name)
            self.name = name
        def gen(self): return Poly(self.name, [F(0), F(1)])
        def variable_name(self): return self.name
        def __call__(self, s):
            if isinstance(s, Poly): return Poly(self.name, s.c)
            if isinstance(s, (list, tuple)): return Poly(self.name, [frac(c) for c in s])
            if isinstance(s, (int, F, Quo)): return Poly(self.name, [frac(s)])
            t = s.replace(" ", "")
            if not t: raise TypeError("empty polynomial")
            c, pos = {}, 0
            pat = re.compile(r"([+-]?)(?:(\d+(?:/\d+)?)(?:\*|(?![\w])))?(?:(%s)(?:\^(\d+))?)?" % re.escape(self.name))
            while pos < len(t):
                m = pat.match(t, pos)
                if not m or m.end() == pos or not (m.group(2) or m.group(3)) or (pos and not m.group(1)):
                    raise TypeError("unable to parse %r" % s)
                k = (int(m.group(4)) if m.group(4) else 1) if m.group(3) else 0
                c[k] = c.get(k, F(0)) + F(m.group(2) or 1) * (-1 if m.group(1) == "-" else 1)
                pos = m.end()
            return Poly(self.name, [c.get(i, F(0)) for i in range(max(c) + 1)])

    class Poly(Obj):
        def __init__(self, name, c): self.name, self.c = name, trim([F(x) for x in c])
        def list(self): return [Q_(x) for x in self.c]
        def coefficients(self, sparse=True): return [Q_(x) for x in self.c if x or not sparse]
        def __iter__(self): return iter(self.list())
        def __getitem__(self, i): return Q_(self.c[i] if i < len(self.c) else 0)
        def degree(self): return len(self.c) - 1
        def variable_name(self): return self.name
        def change_variable_name(self, n): PolyRing(n); return Poly(n, self.c)
        def parent(self): return PolyRing(self.name)
        def __sub__(self, o): return Poly(self.name, ref["padd"](self.c, [-x for x in (o.c if isinstance(o, Poly) else [frac(o)])]))
        def __add__(self, o): return Poly(self.name, ref["padd"](self.c, o.c if isinstance(o, Poly) else [frac(o)]))
        def __eq__(self, o): return isinstance(o, Poly) and (self.name, self.c) == (o.name, o.c)
        def __hash__(self): return hash((self.name, tuple(self.c)))
        def __repr__(self):
            s = ""
            for i in range(len(self.c) - 1, -1, -1):
                x = self.c[i]
                if not x: continue
                m = "" if i == 0 else self.name if i == 1 else "%s^%d" % (self.name, i)
                a = abs(x)
                t = str(a) if not m else m if a == 1 else "%s*%s" % (a, m)
                s += (" - " if x < 0 else " + ") + t if s else ("-" if x < 0 else "") + t
            return s or "0"
        __str__ = __repr__
        def roots(self, ring=None, multiplicities=True):
            if ring is not AA: raise StandInLimit("roots in %r" % ring)
            l = AA._roots(self.c)
            return [(x, 1) for x in l] if multiplicities else l

    # ---------------------------------------------------- real algebraic numbers
    class AANumber(Obj):
        def __init__(self, r, i, iv): self.ref, self.i, self.iv = r, i, iv
        def key(self): return (tuple(c / self.ref.pol[-1] for c in self.ref.pol), self.i)
        def __eq__(self, o): return isinstance(o, AANumber) and self.key() == o.key()
        def __ne__(self, o): return not self == o
        def __hash__(self): return hash(self.key())
        def parent(self): return AA
        def interval(self, w):
            self.iv = self.ref.refine(self.iv, w)
            return self.iv
        def __repr__(self): return "%.15g?" % float(self.iv[0])

    class _AA(Obj):
        def _roots(self, c):
            r = ref["Ref"](c)
            return [AANumber(r, i, iv) for i, iv in enumerate(r.isolate())]
        def one(self): return self._roots([F(-1), F(1)])[0]
        def __call__(self, x): return x if isinstance(x, AANumber) else self._roots([-frac(x), F(1)])[0]
        def has_coerce_map_from(self, P): return P in (AA, QQ, ZZ) or isinstance(P, NumberField_) and P.emb is not None
        def coerce_map_from(self, P):
            if P is QQ: return NFMap(QQ, AA, None)
            if isinstance(P, NumberField_) and P.emb is not None: return NFMap(P, AA, P.emb)
            return None
        def __repr__(self): return "Algebraic Real Field"

    AA = _AA()

    class _RR(Obj):
        def has_coerce_map_from(self, P): return P in (AA, QQ, ZZ, self) or isinstance(P, NumberField_) and P.emb is not None
        def coerce_map_from(self, P): return NFMap(P, self, getattr(P, "emb", None)) if self.has_coerce_map_from(P) else None
        def __repr__(self): return "Real Field with 53 bits of precision"
    RR = _RR()

    class Ball(Obj):
        def __init__(self, lo, hi, prec): self.lo, self.hi, self.prec = lo, hi, prec
        def overlaps(self, o): return self.lo <= o.hi and o.lo <= self.hi
        def __repr__(self):
            if self.lo == self.hi and self.lo.denominator == 1: return "%d.0000" % self.lo
            # mid-point with the digits the precision allows, the radius is rounded up to two digits
            m, rad = (self.lo + self.hi) / 2, (self.hi - self.lo) / 2
            e = -400
            while abs(m) >= F(10)**e: e += 1 if abs(m) < F(10)**(e + 8) else 8
            k = max(1, int(self.prec * 0.30103) - 2) - e     # decimals
            n = (m * F(10)**k).__round__()
            rad += abs(F(n) / F(10)**k - m)
            x = -5000
            while rad * F(10)**-x >= 100: x += 1 if rad * F(10)**-x < 10**9 else 7
            r = -((-rad * F(10)**-x).__floor__()) if rad else 0
            return "[%se%d +/- %de%d]" % (n, -k, r, x)
        __str__ = __repr__

    class RealBallField(Obj):
        def __init__(self, prec=53): self.prec = prec
        def __call__(self, x):
            if isinstance(x, str):
                m = re.match(r"^\[?\s*([+-]?[\d.]+(?:e[+-]?\d+)?)?\s*(?:\+/-\s*([\d.]+(?:e[+-]?\d+)?))?\s*\]?$", x)
                if not m: raise ValueError("unable to parse %r as a ball" % x)
                c, r = F(m.group(1) or 0), F(m.group(2) or 0)
                r += abs(c) * F(1, 2**self.prec)    # the mid-point is rounded
                return Ball(c - r, c + r, self.prec)
            if isinstance(x, NFElement):
                iv = x.interval(self.prec)
                return Ball(iv[0], iv[1], self.prec)
            if isinstance(x, AANumber):
                w = F(1, 2**10)
                while True:
                    a, b = x.interval(w)
                    if b - a <= max(abs(a), abs(b)) / 2**self.prec or a == b == 0: break
                    if a <= 0 <= b and ref["peval"](x.ref.pol, F(0)) == 0: a = b = F(0); break
                    w /= 2**32
                return Ball(a, b, self.prec)
            return Ball(frac(x), frac(x), self.prec)
        def __repr__(self): return "Real ball field with %d bits of precision" % self.prec

    # ------------------------------------------------------------ number fields
    class Map(Obj):
        def domain(self): return self._dom
        def codomain(self): return self._cod

    class Morphism(Map):
        def __init__(self, hom): self._dom, self._cod = hom
        def __call__(self, x): return self._call_(x)

    class NFMap(Map):
        def __init__(self, dom, cod, emb): self._dom, self._cod, self.emb = dom, cod, emb
        def __call__(self, x):
            if self.emb is None: return AA(x)
            if isinstance(x, NFElement) and trim(x.c) == [F(0), F(1)]: return self.emb
            if isinstance(x, NFElement) and x.p.degree() == 1: return AA._roots([-c for c in (trim(x.c) or [F(0)])] + [F(1)])[0] if len(trim(x.c)) < 2 else self.emb
            raise StandInLimit("embedding of other elements")
        def __hash__(self): return hash((self._dom, self.emb))
        def __eq__(self, o): return isinstance(o, NFMap) and (self._dom, self.emb) == (o._dom, o.emb)

    fields = weakref.WeakValueDictionary()

    class NumberField_(Obj):
        def __init__(self, pol, name, emb): self.pol, self.name, self.emb = pol, name, emb
        def polynomial(self): return self.pol
        defining_polynomial = absolute_polynomial = polynomial
        def variable_name(self): return self.name
        def degree(self): return self.pol.degree()
        absolute_degree = degree
        def is_absolute(self): return True
        def gen_embedding(self): return self.emb
        def coerce_embedding(self): return None if self.emb is None else NFMap(self, AA, self.emb)
        def embeddings(self, P):
            if P is not AA: raise StandInLimit("embeddings into %r" % P)
            return [NFMap(self, AA, x) for x in AA._roots(self.pol.c)]
        def model(self):
            f = ref["Field"](None, ref["Ref"](self.pol.c), self.emb.iv if self.emb else None, self.name, "", 0)
            return f
        def gen(self, n=0): return NFElement(self, [F(0), F(1)])
        def zero(self): return NFElement(self, [])
        def one(self): return NFElement(self, [F(1)])
        def an_element(self): return self.gen()
        def random_element(self): return NFElement(self, [F(2), F(-1, 3)])
        def __call__(self, x):
            if isinstance(x, NFElement):
                if x.p is self: return x
                return NFElement(self, [frac(x)])
            if isinstance(x, (list, tuple)):
                if len(x) != self.degree(): raise TypeError("Length must be equal to the degree of this number field")
                return NFElement(self, [frac(c) for c in x])
            if isinstance(x, str): return NFElement(self, PolyRing(self.name)(x).c)
            if isinstance(x, Poly): return NFElement(self, x.c)
            P = x.parent() if hasattr(x, "parent") else None
            e = getattr(P, "_embedding_", None)
            if e is not None and e.codomain() is self: return e(x)
            return NFElement(self, [frac(x)])
        def __contains__(self, x):
            try: self(x); return True
            except TypeError: return False
        def coerce_map_from(self, P):
            e = getattr(P, "_embedding_", None)
            return e if e is not None and e.codomain() is self else None
        convert_map_from = coerce_map_from
        def __repr__(self): return "Number Field in %s with defining polynomial %s with %s = %r" % (self.name, self.pol.change_variable_name("x"), self.name, self.emb)
        def __reduce__(self): return (NumberField, (self.pol, self.name, None, True, self.emb))

    def NumberField(pol, name=None, names=None, check=True, embedding=None):
        if isinstance(embedding, (Quo, int, F)): embedding = AA(embedding)
        key = (pol.change_variable_name("x"), name or names, embedding)
        r = fields.get(key)
        if r is None:
            r = fields[key] = NumberField_(pol, name or names, embedding)
        return r

    class NFElement(Obj):
        def __init__(self, p, c):
            self.p = p
            self.c = ref["pdivmod"](trim([F(x) for x in c]), p.pol.c)[1]
        def parent(self): return self.p
        def polynomial(self, var="x"): return Poly(var, self.c)
        def list(self): return [Q_(x) for x in self.c] + [Q_(0)] * (self.p.degree() - len(self.c))
        def vector(self): return tuple(self.list())
        def __eq__(self, o):
            if not isinstance(o, NFElement):
                try: o = self.p(o)
                except TypeError: return False
            return self.p is o.p and self.c == o.c
        def __ne__(self, o): return not self == o
        def __hash__(self): return hash(tuple(self.c))
        def __repr__(self): return repr(Poly(self.p.name, self.c))
        def interval(self, prec):
            f = self.p.model()
            if self.p.emb is None: raise StandInLimit("no embedding")
            if len(self.c) <= 1:
                q = self.c[0] if self.c else F(0)
                return q, q
            while True:
                lo, hi = f.bounds(self.c)
                if hi - lo <= max(abs(lo), abs(hi)) / 2**prec: return lo, hi
                f.iv = f.ref.refine(f.iv, (f.iv[1] - f.iv[0]) / 2**20)
        def __reduce__(self): return (NFElement_, (self.p, self.c))

    def NFElement_(p, c): return NFElement(p, c)

    class NumberFields(Obj):
        def __contains__(self, x): return x is QQ or isinstance(x, NumberField_)

    class Fields(Obj):
        def __eq__(self, o): return isinstance(o, Fields)
        def __hash__(self): return 1

    # ------------------------------------------------------ parents and elements
    class ClasscallMeta(type):
        def __call__(cls, *a, **k):
            return cls.__classcall__(cls, *a, **k)

    unique = weakref.WeakValueDictionary()

    class UniqueRepresentation(metaclass=ClasscallMeta):
        @staticmethod
        def __classcall__(cls, *a, **k):
            key = (cls, a, tuple(sorted(k.items())))
            r = unique.get(key)
            if r is None:
                r = type.__call__(cls, *a, **k)
                r._reduction = (cls, a)
                unique[key] = r
            return r
        def __reduce__(self): return self._reduction
        def __eq__(self, o): return self is o
        def __hash__(self): return id(self)

    class CommutativeRing(Obj):
        def __init__(self, base, category=None): self._base = base
        def register_embedding(self, e): self._embedding_ = e
        def register_conversion(self, P): pass
        def register_coercion(self, P): self._coerces = P
        def _populate_coercion_lists_(self, *a, **k): raise StandInLimit("_populate_coercion_lists_")
        def __call__(self, x=0):
            if isinstance(x, FieldElement) and x.parent() is self: return x
            return self.Element(self, x)
        element_class = property(lambda self: self.Element)
        def convert_map_from(self, P): return ("conversion", P, self)
        coerce_map_from = convert_map_from
        def zero(self): return self(0)
        def one(self): return self(1)
        def __contains__(self, x):
            try: self(x); return True
            except TypeError: return False
        def __repr__(self): return self._repr_()

    class Element(Obj):
        def __init__(self, parent): self._parent = parent
        def parent(self): return self._parent
        def _set_parent(self, P): self._parent = P
        def __repr__(self): return self._repr_()

    def rich_to_bool(op, c):
        return [c < 0, c <= 0, c == 0, c != 0, c > 0, c >= 0][op]

    class FieldElement(Element):
        def _co(self, o):
            if isinstance(o, FieldElement):
                if o.parent() is not self.parent(): raise TypeError("unsupported operand parent(s)")
                return o
            if isinstance(o, (int, F, Quo)): return self.parent()(o)
            raise TypeError("unsupported operand parent(s)")
        def __add__(self, o): return self._add_(self._co(o))
        def __radd__(self, o): return self._co(o)._add_(self)
        def __sub__(self, o): return self._sub_(self._co(o))
        def __rsub__(self, o): return self._co(o)._sub_(self)
        def __mul__(self, o): return self._mul_(self._co(o))
        def __rmul__(self, o): return self._co(o)._mul_(self)
        def __truediv__(self, o): return self._div_(self._co(o))
        def __rtruediv__(self, o): return self._co(o)._div_(self)
        def __neg__(self): return self._neg_()
        def __lt__(self, o): return self._richcmp_(self._co(o), 0)
        def __le__(self, o): return self._richcmp_(self._co(o), 1)
        def __eq__(self, o): return self._richcmp_(self._co(o), 2)
        def __ne__(self, o): return self._richcmp_(self._co(o), 3)
        def __gt__(self, o): return self._richcmp_(self._co(o), 4)
        def __ge__(self, o): return self._richcmp_(self._co(o), 5)

    def mod(name, **k):
        m = types.ModuleType(name)
        m.__path__ = []
        for n, v in k.items():
            setattr(m, n, v)
            if isinstance(v, type) or isinstance(v, types.FunctionType):
                try: v.__module__, v.__qualname__ = name, n
                except Exception: pass
        sys.modules[name] = m
        if "." in name:
            setattr(sys.modules[name.rpartition(".")[0]], name.rpartition(".")[2], m)
        return m

    mod("sage")
    mod("sage.all", QQ=QQ, ZZ=ZZ, RR=RR, AA=AA, Fields=Fields, UniqueRepresentation=UniqueRepresentation, Morphism=Morphism, Hom=lambda a, b, c=None: (a, b),
        SetsWithPartialMaps=lambda: None, NumberField=NumberField, NumberFields=NumberFields, RealBallField=RealBallField, RBF=RealBallField(53), CommutativeRing=CommutativeRing,
        Integer=ZZ, Rational=QQ, Map=Map, NFElement_=NFElement_, AANumber=AANumber, Poly=Poly)
    mod("sage.structure")
    mod("sage.structure.element", FieldElement=FieldElement, Element=Element)
    mod("sage.structure.richcmp", rich_to_bool=rich_to_bool)
    mod("sage.categories")
    mod("sage.categories.map", Map=Map)
    mod("sage.misc")
    mod("sage.misc.cachefunc", weak_cached_function=lambda f: f, cached_function=lambda f: f, cached_method=lambda f: f)
    mod("gmpxxyy", mpq=lambda s: ref["mpq_class"](ref["string"](str(s))), mpz=lambda s: ref["mpz_class"](ref["string"](str(s))))
    return types.SimpleNamespace(**dict(locals()))
