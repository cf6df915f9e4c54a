import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="libeantic/"
p("C01","Field arithmetic is exact",
 "Every arithmetic operation, assignment and exact predicate on elements of an embedded number field gives exactly the value the algebra of the field defines, for operands that are field elements, machine integers, big integers, rationals or (possibly unreduced) polynomials. This holds in every aliasing pattern of result and operands, in fields of every degree including degree one and two, and no operand other than the result is ever modified.",
 ["inputs","histories","configurations"],"all fields (any degree, any defining polynomial, any root, any precision), all operand values and types, all aliasing patterns, all sequences of operations",
 "The tests sample a few random fields of small height and check algebraic identities (such as a+b-b=a), which many wrong results satisfy; special representations for degree 1 and 2, unsigned and extreme machine integers and aliased operands are hit by chance or not at all.",
 [L+"src/renf_elem/",L+"e-antic/renf_elem.h",L+"srcxx/renf_elem_class.cpp"],
 [("exact part of each operation is delegated to the number field element, per type of operand",L+"src/renf_elem/*.c"),("linear, quadratic and generic representations",L+"src/renf_elem/fmpq_sub.c, "+L+"src/renf_elem/gen.c")])
p("C02","Enclosures always contain the true value",
 "At every observable moment the real ball kept with an element contains the exact real value of that element, and the ball kept with a field contains exactly the embedded root of its polynomial and no other root. An approximation requested with a given number of bits contains the exact value and has at least that relative accuracy, and it is exactly zero for zero.",
 ["inputs","histories","configurations"],"all fields, initial balls and precisions, all sequences of operations, queries and refinements, all elements",
 "A wrong enclosure only shows once a later comparison happens to depend on the missing digits; the tests compare answers on random elements whose balls are nearly always far wider than any error.",
 [L+"src/renf_elem/",L+"src/renf/refine_embedding.c",L+"src/renf_elem/set_evaluation.c",L+"src/renf_elem/get_arb.c",L+"src/fmpz_poly_extra/newton_step_arb.c",L+"src/fmpz_poly_extra/bisection_step_arb.c"],
 [("ball arithmetic next to the exact operation",L+"src/renf_elem/{add,sub,mul,div,inv,pow}*.c"),("evaluation of the defining polynomial at the root's ball",L+"src/renf_elem/set_evaluation.c"),("Newton and bisection refinement",L+"src/renf/refine_embedding.c")])
p("C03","Order, sign and equality are decided exactly",
 "Sign, comparison and equality of elements with elements, machine integers, big integers and rationals always answer exactly what the order of the real numbers says, however close the two values are and whatever their current approximations. The answers form one total order consistent with equality, and asking does not change any value.",
 ["inputs","histories","configurations"],"all pairs of values including equal ones, values differing by arbitrarily little, zero and rationals; all states of the enclosures; all fields",
 "Tests sample comparisons of random values, which are decided by the first few digits; the refinement loops, ties and rational candidates near the value are rarely reached.",
 [L+"src/renf_elem/cmp*.c",L+"src/renf_elem/sgn.c",L+"src/renf_elem/equal*.c",L+"srcxx/renf_elem_class.cpp"],
 [("filtered comparison: fast ball test, equality test, then refinement with doubled precision",L+"src/renf_elem/cmp.c, cmp_fmpq.c, cmp_fmpz.c, cmp_si.c, cmp_ui.c, sgn.c")])
p("C04","Floor, ceiling, floor division and continued fractions are exact",
 "The floor and ceiling of an element are the exact integers defined by its real value, also when that value is an integer, zero or arbitrarily close to an integer. Floor division gives the floor of the exact quotient, and the continued fraction expansion gives the exact partial quotients together with the exact remainder.",
 ["inputs","histories"],"all values, in particular integers, rationals, huge values and irrational values arbitrarily near an integer, in any field and any state of the enclosures",
 "Random test values are never within 2^-60 of an integer; whether the rounding loop stops with the right side is only visible there.",
 [L+"src/renf_elem/floor_ceil.c",L+"src/renf_elem/rounding_template.h",L+"src/renf_elem/fdiv.c",L+"src/renf_elem/get_cfrac.c",L+"srcxx/renf_elem_class.cpp"],
 [("rounding loop with increasing precision and rational shortcut",L+"src/renf_elem/rounding_template.h"),("expansion loop with quotient from the ball",L+"src/renf_elem/get_cfrac.c")])
p("C05","Conversion to double is correctly rounded",
 "Converting an element to a double gives the double nearest to its exact value, or the one the requested direction of rounding prescribes, including values at or near the midpoint of two doubles, subnormal results, overflow and zero; an irrational value beyond the largest double becomes infinite. It always terminates and does not change the value of the element.",
 ["inputs","configurations"],"all values, all rounding directions, all fields and precisions",
 "Double rounding and midpoint errors concern about one value in 2^50 of those a random test draws.",
 [L+"src/renf_elem/get_d.c",L+"srcxx/renf_elem_class.cpp"],
 [("loop until both ends of the ball round to the same double; rational case decided exactly",L+"src/renf_elem/get_d.c")])
p("C06","Fields are constructed with the right root and refine soundly",
 "Constructing a field from a polynomial and an enclosure succeeds exactly when the enclosure determines one real root, and then the generator is that root; asking for all real embeddings of a polynomial yields every real root exactly once in increasing order. Refining a field to a requested precision terminates, reaches that precision, never moves to another root, and leaves polynomial and degree untouched.",
 ["inputs","histories","configurations"],"all polynomials (clustered, huge and tiny roots, any degree), all enclosures and precisions, all sequences of refinements",
 "Tests construct fields with well separated roots of small polynomials at 64 bits; whether a wide, skewed, exact or extremely narrow enclosure is honoured is untested.",
 [L+"src/renf/",L+"src/fmpq_poly_extra/check_unique_real_root.c",L+"src/fmpz_poly_extra/isolate_real_roots.c",L+"srcxx/renf_class.cpp"],
 [("initialisation and uniqueness check",L+"src/renf/init.c, "+L+"src/fmpq_poly_extra/check_unique_real_root.c"),("refinement by Newton steps with bisection as fallback",L+"src/renf/refine_embedding.c"),("all embeddings from isolated roots of all factors",L+"src/renf/set_embeddings_fmpz_poly.c")])
p("C07","Root counting, isolation and polynomial helpers are correct",
 "For every squarefree integer polynomial, counting real roots (in total, or in the unit interval if its ends are no roots, by each available method) gives the exact number, isolating them returns disjoint intervals or exact points covering each real root exactly once, and root bounds really are bounds. Evaluation, rescaling, the squarefree part (with positive leading coefficient), Newton and bisection steps and condition numbers of polynomials give what their mathematical definition says.",
 ["inputs"],"all polynomials: repeated, clustered, rational, dyadic and zero roots, no roots, constants, sparse and large coefficients; all points and intervals of evaluation",
 "Tests draw polynomials with few simple roots and compare the methods with each other on them; repeated roots, roots at the ends of the interval and empty cases decide the correctness of sign counting.",
 [L+"src/fmpz_poly_extra/",L+"src/fmpq_poly_extra/",L+"e-antic/fmpz_poly_extra.h",L+"e-antic/fmpq_poly_extra.h"],
 [("Vincent-Collins-Akritas isolation and Descartes bounds",L+"src/fmpz_poly_extra/isolate_real_roots.c, descartes_bound*.c"),("Sturm sequences",L+"src/fmpz_poly_extra/num_real_roots_0_1_sturm.c")])
p("C08","Text is parsed and printed faithfully",
 "A string that spells a polynomial or element in the documented syntax is read as exactly the value it denotes, malformed strings and names are refused, and refusing or accepting never reads beyond the string. Printing an element or field in any format and reading the exact part back gives the same value, and printed numerical approximations are close to, respectively contain, the true value.",
 ["inputs","configurations"],"all strings and variable names; all values, formats, digits and streams",
 "The parser is driven by a handful of literal strings in the tests; round trips are tested on small polynomials only and malformed input hardly at all.",
 [L+"src/fmpq_poly_extra/set_str_pretty.c",L+"src/fmpz_poly_extra/set_str_pretty.c",L+"src/renf_elem/get_str_pretty.c",L+"src/renf/get_str.c",L+"srcxx/renf_elem_class.cpp"],
 [("hand written parser of polynomials",L+"src/fmpq_poly_extra/set_str_pretty.c"),("formatting with exact and approximate parts",L+"src/renf_elem/get_str_pretty.c"),("stream operators and string constructors",L+"srcxx/renf_elem_class.cpp, renf_class.cpp")])
p("C09","C++ operators agree with exact algebra for all types and fields",
 "Every C++ operator, comparison, constructor, assignment and conversion gives the exact result for every supported operand type at its full range, and places it in the field the documentation prescribes: the common field, or the larger field when one operand is rational. Combinations that have no meaning (different fields with two irrational operands, or any mixing in strict mode) throw the documented exception and leave the operands unchanged.",
 ["inputs","programs","configurations"],"all operators, all supported scalar types over their full range, all pairs of fields, strict and lenient mode",
 "The tests instantiate each operator with small positive values in one field; coercion, extreme integers, reversed operands and failure paths are mostly unvisited.",
 [L+"srcxx/renf_elem_class.cpp",L+"e-antic/renf_elem_class.hpp"],
 [("binary operators with coercion",L+"srcxx/renf_elem_class.cpp"),("conversions to integers, rationals, double, bool, string",L+"srcxx/renf_elem_class.cpp")])
p("C10","Equal fields are one object and fields can be reconstructed",
 "As long as any user of a field is left, making a field with the same polynomial, root and generator name, in any spelling, enclosure or precision, yields the identical object; fields differing in any of these are different objects and compare unequal. The construction data of a field always makes the same field again, also after every trace of the original is gone, and invalid data is refused with an exception.",
 ["inputs","histories","configurations"],"all interleavings of making, holding (by pointer or element), refining and dropping fields, all spellings of the same field, all pairs of nearby roots",
 "Tests make a field twice from the same strings; equality of embeddings after refinement, of wide enclosures, of close roots, and the life cycle of the registry are histories tests do not sample.",
 [L+"srcxx/renf_class.cpp",L+"src/renf/equal.c",L+"e-antic/renf_class.hpp"],
 [("factory of unique fields",L+"srcxx/renf_class.cpp"),("equality of embeddings",L+"src/renf/equal.c"),("construction strings",L+"srcxx/renf_class.cpp")])
p("C11","C++ object histories keep values and release everything",
 "Through any history of construction, copy, move, swap, assignment (also to itself and from other fields), container operations, failing calls and destruction, each live element keeps exactly its value and field, and moved-from objects can be assigned and destroyed. A field lives as long as an element or pointer uses it and everything is released exactly once when the last user goes, also when an operation threw.",
 ["histories","programs"],"all sequences of special member functions over several fields, in any order of destruction, with and without exceptions",
 "Tests exercise single copies and moves; double release, leaks on exceptional paths and fields outlived by their elements need multi-step histories and a leak oracle, which the tests do not have.",
 [L+"srcxx/renf_elem_class.cpp",L+"srcxx/renf_class.cpp",L+"e-antic/renf_elem_class.hpp"],
 [("reference counted parents",L+"srcxx/renf_class.cpp"),("copy, move and swap of elements",L+"srcxx/renf_elem_class.cpp")])
p("C12","Fields can be shared and made concurrently; immutable fields are read only",
 "Threads may make, hold and release fields concurrently, work with fields of their own, and pass elements on to other threads, without data race, deadlock, use of a released field or duplicate of a live field. A field declared immutable is never written to and may be used by many threads at once; operations that its precision decides give the right answer and others fail visibly, and mutable fields are unaffected.",
 ["schedules","histories"],"all schedules of threads making, sharing, handing over and releasing fields and elements; all moments of declaring a field immutable",
 "The tests are single threaded apart from a small benchmark-like case; a race shows in one schedule of very many.",
 [L+"srcxx/renf_class.cpp",L+"src/renf/set_immutable.c",L+"src/renf/refine_embedding.c",L+"src/renf/equal.c"],
 [("mutex around the table of fields and release of the last reference",L+"srcxx/renf_class.cpp"),("immutability flag checked before refining",L+"src/renf/set_immutable.c, refine_embedding.c")],
 state=[{"name":"table of live fields","meaning":"maps construction data to the unique live object"}])
p("C13","Serialization restores values and fields",
 "Writing elements, fields and containers of them to an archive of any format and reading it back yields equal values in the same field, whether the field is still alive, was temporary, or is gone, and objects of one field stay in one field after reading. Documents of the previous release are still read, and damaged documents lead to an exception, not to undefined behaviour or wrong values.",
 ["inputs","histories","configurations"],"all archives, element values, fields, life times and numbers of objects per archive",
 "The tests write one element at a time into one archive format; identity of fields inside an archive depends on addresses being reused and on the order of events.",
 [L+"e-antic/cereal.hpp",L+"srcxx/renf_class.cpp"],
 [("fields are written once per archive and referred to by number afterwards",L+"e-antic/cereal.hpp")])
p("C14","No memory error, undefined behaviour or leak on any valid use",
 "Every valid use of the C and C++ interface, and every refused or malformed input, runs without out-of-bounds or use-after-release access, use of uninitialised memory, integer overflow or other undefined behaviour, failed internal assertion or non-termination. Everything allocated is released when the objects are, so repeating the same work does not need more memory.",
 ["inputs","histories","configurations"],"all calls with valid arguments, all strings, all sizes of coefficients, all orders of initialisation and clearing",
 "Tests check answers, not memory: they run without sanitizers or leak detection and with small coefficients that never leave the machine word.",
 [L+"src/",L+"srcxx/"],
 [("manual initialisation and clearing of all temporaries",L+"src/**/*.c"),("string buffers",L+"src/renf_elem/get_str_pretty.c, "+L+"src/fmpq_poly_extra/set_str_pretty.c")])
p("C15","Hashing is consistent with equality",
 "Elements that compare equal have equal hashes, however they were computed, whatever the current precision of their approximation, and also when the equal values live in different fields; equal fields have equal hashes. The hash of a value never changes while the value does not, so hashed containers find every equal element.",
 ["inputs","histories"],"all pairs of equal values, all ways of computing them, all fields, all moments before and after refinement",
 "Tests hash a few values once; consistency is a statement about all pairs of equal values with different histories.",
 [L+"srcxx/renf_elem_class.cpp",L+"srcxx/renf_class.cpp"],
 [("hash of the exact value",L+"srcxx/renf_elem_class.cpp")])
p("C16","Answers do not depend on precision or history",
 "The same computation gives identical exact values, comparisons, roundings, doubles and exact strings whatever the precision and enclosure the field was made with, whatever was computed or refined before, and whatever the other elements of the field went through.",
 ["inputs","histories","configurations"],"all pairs of runs of one computation that differ in initial precision, enclosure, earlier computations and interspersed refinements",
 "It relates two executions; the tests run each computation once at one default precision.",
 [L+"src/renf/refine_embedding.c",L+"src/renf_elem/",L+"src/renf/init.c"],
 [("approximations shared through the field and cached in elements",L+"src/renf/refine_embedding.c, "+L+"src/renf_elem/set_evaluation.c")])
p("C17","Python bindings give exact results and keep objects alive",
 "From Python, constructing fields and elements from every accepted type, all operators and comparisons, rounding, conversion, printing and pickling give the same exact results as the mathematics, for integers and fractions of any size. Python variables keep the fields and elements they refer to alive and valid, conversion from other number field packages preserves value and embedding, and meaningless input raises a Python exception after which everything goes on as before.",
 ["inputs","histories","programs"],"all Python programs using fields, elements, big integers, fractions, pickles and converted fields, in any order of garbage collection",
 "The Python tests are a few doctests with small numbers and variables that stay alive.",
 ["pyeantic/src/pyeantic/cppyy_eantic.py","pyeantic/src/pyeantic/realalg_conversion.py",L+"e-antic/cppyy.hpp"],
 [("pythonization of classes and operators","pyeantic/src/pyeantic/cppyy_eantic.py"),("helpers for cppyy",L+"e-antic/cppyy.hpp"),("conversion of realalg numbers","pyeantic/src/pyeantic/realalg_conversion.py")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))

T={
"C01":"reference-model monitor (exact polynomial arithmetic mod the defining polynomial) over random histories, ASan+UBSan build",
"C02":"invariant monitor on every enclosure against independently isolated roots, ASan+UBSan build",
"C03":"reference-model monitor of all comparisons on near ties, ASan+UBSan build",
"C04":"reference-model monitor of roundings near integers, ASan+UBSan build",
"C05":"reference-model monitor of correct rounding at midpoints, ASan+UBSan build",
"C06":"monitor of construction and refinement against independently isolated roots, ASan+UBSan build",
"C07":"reference-model monitor of every polynomial helper on constructed root patterns, ASan+UBSan build",
"C08":"generated spellings with known value and mutations, round-trip monitor, ASan+UBSan build",
"C09":"shadow-value monitor of the C++ operators over all types and fields, ASan+UBSan build",
"C10":"shadow registry monitor over make/drop/refine histories, ASan+UBSan build",
"C11":"shadow-value monitor over object histories with AddressSanitizer, LeakSanitizer and memcheck",
"C12":"ThreadSanitizer and AddressSanitizer under stress with injected delays, plus monitors of identity and values",
"C13":"round-trip monitor over archives, life times and damage, ASan+UBSan+LeakSanitizer build",
"C14":"AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, memcheck and live-memory conservation monitor under hostile workloads",
"C15":"monitor of hash consistency over pairs of equal values, ASan+UBSan build",
"C16":"differential monitor of twin executions with different precision and history, ASan+UBSan build",
"C17":"reference-model monitor (Fraction polynomials) driving the Python bindings",
}
M={"version":1,"setup_cmd":"true","hooks":{"guard":"EANTIC_VERIF_HOOKS","enable":"lib/vbuild.py compiles every library source of /repo with -DEANTIC_VERIF_HOOKS; no hook had to be added to /repo (calls are intercepted at link time with --wrap instead), so the define currently has no effect","source_commits":[]},
"checks":[{"property":x["id"],"quick_cmd":"python3 check.py "+x["id"],"thorough_cmd":"python3 check.py "+x["id"]+" --tier thorough","technique":T[x["id"]],"level":"exploration",
 "level_note":"Held on the executions observed (see the evidence file for how many oracle decisions and distinct situations); paths the workload does not drive are not covered. Trusts FLINT/GMP/MPFR, the compilers' sanitizers and the reference model in harness/.","evidence_file":"evidence/%s.json"%x["id"]} for x in P],
"not_applicable":[],
"notes":"Every check compiles the library sources of /repo's working tree itself (instrumented) and never uses /repo's build products. See DESIGN.md."}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
for x in P: assert len(x["title"])<=80,x["title"]; 
