"""Write harness/flintwrap.cpp and harness/flintwrap.txt: interposers for FLINT's functions
(linked with --wrap) which report to ThreadSanitizer that the objects passed in are read
(const parameters) or written (others).  FLINT itself is not instrumented, so without these
a race on an fmpz, fmpq, arb, ... inside a FLINT call would go unseen.
Run by hand when FLINT changes; the results are committed."""
import os, re, subprocess
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
HEADERS = "fmpz fmpq fmpz_poly fmpq_poly mag arf arb nf nf_elem".split()
TYPES = set("fmpz_t fmpq_t mag_t arf_t arb_t fmpz_poly_t fmpq_poly_t nf_t nf_elem_t".split())
HAND = set("arb_overlaps arb_contains arb_lt arb_gt arb_set arb_neg arb_set_round arb_add arb_sub arb_mul arb_div nf_elem_add nf_elem_sub nf_elem_mul nf_elem_set".split())
src = "".join("#include <flint/%s.h>\n" % h for h in HEADERS)
text = subprocess.run(["gcc", "-E", "-P", "-x", "c", "-"], input=src, capture_output=True, text=True, check=True).stdout
nm = subprocess.run(["nm", "-D", "--defined-only", "/usr/lib/x86_64-linux-gnu/libflint.so"], capture_output=True, text=True, check=True).stdout
exported = {l.split()[-1].split("@")[0] for l in nm.splitlines() if " T " in l}
protos = re.findall(r"(?:^|[;}])\s*((?:extern\s+)?(?:const\s+)?[A-Za-z_]\w*(?:\s+\w+)*[\s\*]+)(\w+)\s*\(([^(){};]*)\)\s*(?=;)", text)
out, names = {}, []
for ret, name, args in protos:
    if name not in exported or name in HAND or name in out or not re.match(r"(fmpz|fmpq|mag|arf|arb|nf)_", name):
        continue
    if "..." in args or "[" in args or "FILE" in args or "mpfr" in args or "mpf_" in args or "flint_rand" in args:
        continue
    ret = ret.replace("extern", "").strip()
    if "static" in ret or "inline" in ret:
        continue
    ps, touches, ok = [], [], True
    for i, a in enumerate(x.strip() for x in args.split(",")):
        if a == "void":
            continue
        m = re.match(r"^(.*[\s\*])(\w+)$", a)
        t = (m.group(1) if m else a).strip()
        if not m or m.group(2) in TYPES or m.group(2) in ("int", "long", "slong", "ulong"):
            t = a
        base = t.replace("const", "").strip()
        if base in TYPES:
            touches.append(("RD" if "const" in t else "WR") + "(a%d);" % i)
        ps.append((t, "a%d" % i))
    if not touches:
        continue
    # report the reads first: an output may alias an input
    touches.sort()
    decl = ", ".join("%s %s" % p for p in ps)
    call = ", ".join(p[1] for p in ps)
    out[name] = "%s __real_%s(%s); %s __wrap_%s(%s) { %s return __real_%s(%s); }" % (ret, name, decl, ret, name, decl, " ".join(touches), name, call)
with open(os.path.join(H, "flintwrap.cpp"), "w") as f:
    f.write("// written by tools/gen_flintwrap.py\n")
    for h in HEADERS:
        f.write("#include <flint/%s.h>\n" % h)
    f.write("#if defined(__has_feature)\n#if __has_feature(thread_sanitizer)\n#define TRACED 1\n#endif\n#endif\n")
    f.write('extern "C" {\n#ifdef TRACED\nvoid __tsan_read8(void*);\nvoid __tsan_write8(void*);\n'
            "#define RD(x) __tsan_read8((void*)(x))\n#define WR(x) __tsan_write8((void*)(x))\n#else\n#define RD(x) (void)(x)\n#define WR(x) (void)(x)\n#endif\n")
    for n in sorted(out):
        f.write(out[n] + "\n")
    f.write("}\n")
with open(os.path.join(H, "flintwrap.txt"), "w") as f:
    f.write("\n".join(sorted(out)) + "\n")
print(len(out))
