"""Which monitors decide which property, on how many cases."""
import os

GEN = ("a case is one freshly drawn field (linear, quadratic, n-th root, cyclotomic-cosine, scaled, shifted, near-integer, Mignotte, random; any real root; "
       "any admissible precision and enclosure) with a sequence of operations on drawn operands; ")


def capi(mode, quick, thorough, **kw):
    d = dict(variant="asan", name="capi", sources=["capi.cpp"], mode=mode, quick=quick, thorough=thorough)
    d.update(kw)
    return d


def cxx(mode, quick, thorough, **kw):
    d = dict(variant="asan", name="cxx", sources=["cxx.cpp"], mode=mode, quick=quick, thorough=thorough)
    d.update(kw)
    return d


# delays are injected, and accesses of the uninstrumented FLINT made visible to the race detector, at these calls
WRAPPED = ["pthread_mutex_lock", "pthread_mutex_unlock", "renf_equal", "renf_init_set", "renf_clear", "renf_elem_set", "arb_overlaps", "arb_contains",
           "arb_lt", "arb_gt", "arb_set", "arb_neg", "arb_set_round", "arb_add", "arb_sub", "arb_mul", "arb_div", "nf_elem_add", "nf_elem_sub", "nf_elem_mul", "nf_elem_set"]


# and these, generated by tools/gen_flintwrap.py
WRAPPED += open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "flintwrap.txt")).read().split()


def conc(mode, quick, thorough, **kw):
    d = dict(variant="tsan", name="conc", sources=["conc.cpp", "flintwrap.cpp"], ld=["-Wl," + ",".join("--wrap=" + w for w in WRAPPED)], mode=mode, quick=quick, thorough=thorough, cpu=300)
    d.update(kw)
    return d


REF = ["the reference model (harness/ref.hpp) and FLINT/GMP/MPFR are trusted", "held on the executions observed; paths the workload never drives are not covered"]

PROPS = {
    "C01": dict(
        runs=[capi("arith", 60000, 4000000), capi("arith", 8000, 400000, variant="ndebug", label="arith-ndebug"), cxx("ops", 6000, 300000)],
        rule=GEN + "a situation is distinct by (operation, aliasing pattern, degree class, field family, precision class, shapes of the operands)",
        must_observe=["op:mul$", "op:div$", "op:inv", "op:pow", "op:fmpq_div", "op:fmpq_sub", "op:set_fmpq_poly", "pred:equal_ui"], assumptions=REF),
    "C02": dict(
        runs=[capi("encl", 50000, 3000000), cxx("ops", 3000, 300000)],
        rule=GEN + "after every operation and query each enclosure is compared with the exactly known value; distinct by (operation or query, aliasing, degree class, family, precision class, operand shape)",
        must_observe=["field-refined", "q:get_arb", "finite-result"], assumptions=REF),
    "C03": dict(
        runs=[capi("cmp", 50000, 3000000), cxx("ops", 6000, 300000)],
        rule=GEN + "comparisons of close, equal and far values; distinct by (function, degree class, closeness class, outcome)",
        must_observe=["cmp"], assumptions=REF),
    "C04": dict(
        runs=[capi("floor", 16000, 800000), cxx("ops", 6000, 300000)],
        rule=GEN + "floor/ceil/floor division/continued fraction of values near and far from integers; distinct by (function, degree class, value class)",
        must_observe=["floor", "ceil", "fdiv", "cfrac"], assumptions=REF),
    "C05": dict(
        runs=[capi("dbl", 40000, 2000000), cxx("ops", 4000, 300000)],
        rule=GEN + "conversion of ordinary, huge, tiny, midpoint and near-midpoint values in all rounding modes; distinct by (mode, value class, degree class)",
        must_observe=["."], assumptions=REF),
    "C06": dict(
        runs=[capi("field", 20000, 1000000), capi("field", 2000, 100000, variant="ndebug", label="field-ndebug"), cxx("parents", 2000, 100000)],
        rule=GEN + "construction of the field from polynomial and enclosure, all embeddings, factors of reducible polynomials, refinement to increasing precision; distinct by (function, degree, number of roots, precision class, kind of enclosure)",
        must_observe=["."], assumptions=REF),
    "C07": dict(
        runs=[capi("roots", 100000, 5000000)],
        rule="a case is one polynomial (random, products of given rational/irrational roots, clustered roots, sparse, with zero/dyadic roots) put through every counting, bounding, isolating and evaluating helper; distinct by (function, degree, root count, interval kind)",
        must_observe=["."], assumptions=REF),
    "C08": dict(
        runs=[capi("parse", 60000, 3000000), cxx("text", 16000, 800000)],
        rule="a case is a batch of strings, well-formed (generated from a known value with random spelling) or malformed (single mutations outside the language), parsed and compared, and values printed in every format and read back; distinct by (function, spelling feature, verdict)",
        must_observe=["."], assumptions=REF),
    "C09": dict(
        runs=[cxx("ops", 24000, 1200000), cxx("ops", 8000, 400000, env={"LIBEANTIC_STRICT_BINOP": "1"}, label="ops-strict"), cxx("ops", 2000, 100000, variant="ndebug", label="ops-ndebug")],
        rule="a case is a set of fields and elements put through a sequence of C++ operators with operands of all supported types, in the same, in different and in the rational field; distinct by (operator, types, fields, aliasing, shapes)",
        must_observe=["."], assumptions=REF),
    "C10": dict(
        runs=[cxx("parents", 16000, 800000), cxx("parents", 2000, 100000, variant="ndebug", label="parents-ndebug")],
        rule="a case makes and drops fields which differ in the spelling of the polynomial, the enclosure, the precision, the root or the name only, and compares identity, equality and reconstruction; distinct by (difference, order of events, family)",
        must_observe=["."], assumptions=REF),
    "C11": dict(
        runs=[cxx("life", 12000, 600000, leaks=1), cxx("ops", 4000, 200000, leaks=1, label="ops-leaks"), cxx("parents", 4000, 200000, leaks=1, label="parents-leaks"), cxx("text", 4000, 200000, leaks=1, label="text-leaks"),
              cxx("life", 32, 1600, variant="ndebug", valgrind=1, label="memcheck-life")],
        rule="a case is a random history of construction, copy, move, assignment, swap, container operations, failing calls and destruction over several fields with a shadow of every live value; distinct by (event, fields involved, aliasing)",
        must_observe=["life:", "memcheck-life:"], assumptions=REF),
    "C12": dict(
        runs=[conc("registry", 1500, 60000), conc("burst", 1500, 60000), conc("shared", 1500, 60000), conc("private", 2000, 60000), conc("handoff", 1500, 60000),
              conc("registry", 3000, 100000, variant="asan", leaks=1, label="registry-asan"), conc("burst", 3000, 100000, variant="asan", leaks=1, label="burst-asan"), conc("handoff", 1000, 50000, variant="asan", leaks=1, label="handoff-asan"),
              conc("shared", 1000, 50000, variant="asan", label="shared-asan"), conc("private", 1000, 50000, variant="asan", label="private-asan"),
              conc("registry", 6000, 200000, variant="plain", label="registry-plain"), conc("burst", 6000, 200000, variant="plain", label="burst-plain")],
        rule="a case is one concurrent run of 2 to 8 threads with injected delays; distinct by the observed order of the threads' steps (an interleaving)",
        must_observe=["registry:make", "registry:release", "burst:observed-handovers", "shared:make-shared", "private:own-field-refined", "handoff:received-from-other", "registry:injected-delays", "registry-plain:lock-acquisitions"],
        assumptions=["ThreadSanitizer sees the library and the harness; accesses inside FLINT are reported at the wrapped calls only", "interleavings are sampled, not enumerated"]),
    "C13": dict(
        runs=[dict(variant="asan", name="cer", sources=["cer.cpp"], flags=["-fno-sanitize=pointer-overflow"], mode="cereal", quick=20000, thorough=1000000, leaks=1)],
        rule="a case writes elements, fields and containers of both, of several related and unrelated fields, to one archive (JSON, XML, binary, portable binary) while the fields are alive, temporary or already gone when it is read back; or reads a document of an old release or a damaged one; distinct by (archive, item, life time, family, degree, shape)",
        must_observe=["archive:json", "archive:xml", "archive:binary", "archive:portable", "legacy:", "damaged:", "fields-gone", "fields-temporary"], assumptions=REF + ["rapidjson's own null pointer arithmetic is excluded from the undefined behaviour checks"]),
    "C14": dict(
        runs=[capi("mem", 4000, 200000, leaks=1), capi("arith", 6000, 200000, leaks=1), capi("field", 3000, 100000, leaks=1), capi("roots", 8000, 300000, leaks=1),
              capi("parse", 8000, 300000, leaks=1), capi("encl", 4000, 200000, leaks=1), capi("floor", 2000, 50000, leaks=1),
              cxx("ops", 2000, 100000, leaks=1), cxx("life", 2000, 100000, leaks=1), cxx("text", 2000, 100000, leaks=1), cxx("parents", 1000, 50000, leaks=1),
              capi("arith", 160, 6000, variant="ndebug", valgrind=1, label="memcheck-arith"), capi("encl", 80, 4000, variant="ndebug", valgrind=1, label="memcheck-encl"),
              capi("parse", 80, 4000, variant="ndebug", valgrind=1, label="memcheck-parse"), capi("roots", 160, 6000, variant="ndebug", valgrind=1, label="memcheck-roots"),
              capi("field", 40, 1500, variant="ndebug", valgrind=1, label="memcheck-field"), capi("mem", 24, 600, variant="ndebug", valgrind=1, label="memcheck-mem")],
        rule=GEN + "every library and harness access runs under AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer, a smaller sample of a release build under memcheck; distinct by the situations of the driving modes",
        must_observe=["mem:", "memcheck-arith:", "memcheck-roots:", "memcheck-mem:"], assumptions=["FLINT, GMP and MPFR are not instrumented (their heap accesses are seen by memcheck only)", "a clean run is not memory safety of paths not driven"]),
    "C16": dict(
        runs=[capi("indep", 24000, 1200000)],
        rule=GEN + "the same computation is run on twins that differ in working precision, refinement history, operand history or aliasing, and all answers compared; distinct by (operation, difference of the twins, degree class)",
        must_observe=["."], assumptions=REF),
    "C15": dict(
        runs=[cxx("hash", 24000, 1200000)],
        rule="a case makes equal values in different ways (construction, arithmetic, parsing, other precision, scalars, other fields) and compares hashes and containers; distinct by (way, way, field family, shape)",
        must_observe=["."], assumptions=REF),
    "C17": dict(
        runs=[dict(variant="python", name="pyb", python="pyb.py", mode="python", quick=2400, thorough=100000, cpu=120)],
        rule="a case is one field used from Python: construction from every accepted type, arithmetic, comparison, rounding, conversion, pickling, conversion from realalg and from (a stand-in for) SageMath and life time; compared with polynomials over Fraction modulo the minimal polynomial; distinct by (operation, operand types, shapes, degree)",
        must_observe=["python:realalg-element", "python:op:13", "python:scalar:Integer", "python:scalar:Rational", "python:field-name-dropped", "python:refused:"],
        assumptions=["cppyy and realalg are trusted", "Sage is not installed: sage_conversion and real_embedded_number_field are driven with harness/sagestub.py in the place of SageMath", "a stand-in for gmpy2 plays the part of Sage's integers and rationals"]),
}
