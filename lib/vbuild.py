"""Build /repo's current working tree (library sources) in instrumented variants
and link harnesses against it.  Nothing is taken from /repo/_build: every object
is compiled from the working tree; objects are cached under /verif/build by the
hash of (compiler, flags, source text, every header of the library)."""
import glob, hashlib, os, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GUARD = "EANTIC_VERIF_HOOKS"

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    # name: (cc, cxx, flags, ldflags)
    "asan": ("clang", "clang++", ["-O1", "-g", "-UNDEBUG"] + SAN, SAN),
    "tsan": ("clang", "clang++", ["-O1", "-g", "-UNDEBUG", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "plain": ("gcc", "g++", ["-O2", "-g", "-UNDEBUG"], []),
    "ndebug": ("gcc", "g++", ["-O2", "-g", "-DNDEBUG"], []),
    "shared": ("gcc", "g++", ["-O2", "-g", "-UNDEBUG"], []),
}
LIBS = ["-lflint", "-lgmpxx", "-lgmp", "-lmpfr", "-lm", "-lpthread"]


class BuildError(Exception):
    pass


def gen_dir():
    g = os.path.join(BUILD, "gen")
    os.makedirs(g, exist_ok=True)
    src = open(os.path.join(REPO, "libeantic/e-antic/local.h.in")).read()
    src = src.replace("@libdir@", os.path.join(BUILD, "shared"))
    conf = '#define PACKAGE "libeantic"\n#define VERSION "2.0.2"\n#define HAVE_CXX14 1\n'
    for name, text in (("local.h", src), ("config.generated.h", conf)):
        p = os.path.join(g, name)
        if not os.path.exists(p) or open(p).read() != text:
            tmp = p + ".tmp%d" % os.getpid()
            open(tmp, "w").write(text)
            os.replace(tmp, p)
    return g


def _headers_digest():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/libeantic/e-antic/*") +
                   glob.glob(REPO + "/libeantic/src/**/*.h", recursive=True) +
                   glob.glob(REPO + "/libeantic/srcxx/**/*.h*", recursive=True) +
                   glob.glob(REPO + "/libeantic/upstream/patched/*.h"))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def _own_headers_digest():
    h = hashlib.sha256()
    for f in sorted(glob.glob(VERIF + "/harness/*.h*")):
        h.update(f.encode() + open(f, "rb").read())
    return h.hexdigest()


def _compile(cmd, key, src, out_dir, ext=".o"):
    os.makedirs(out_dir, exist_ok=True)
    h = hashlib.sha256((key + " ".join(cmd)).encode() + open(src, "rb").read()).hexdigest()[:24]
    out = os.path.join(out_dir, os.path.basename(src).replace(".", "_") + "-" + h + ext)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        p = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if p.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, p.stderr[-4000:]))
        os.replace(tmp, out)
    return out


def _map(jobs):
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        return list(ex.map(lambda j: _compile(*j), jobs))


def lib_sources():
    c = sorted(glob.glob(REPO + "/libeantic/src/**/*.c", recursive=True))
    cpp = sorted(glob.glob(REPO + "/libeantic/srcxx/**/*.cpp", recursive=True))
    if not c or not cpp:
        raise BuildError("no library sources found")
    return c, cpp


def includes(g):
    return ["-I" + g, "-I" + REPO + "/libeantic", "-I" + REPO + "/libeantic/e-antic",
            "-I" + REPO + "/libeantic/upstream"]


def _jobs(variant, sources, extra_flags=()):
    cc, cxx, fl, ld = VARIANTS[variant]
    inc = includes(gen_dir())
    libkey = _headers_digest()
    ownkey = libkey + _own_headers_digest()
    od = os.path.join(BUILD, variant)
    c, cpp = lib_sources()
    w = ["-w"]
    jobs = []
    for s in sources:
        s = os.path.join(VERIF, "harness", s)
        jobs.append(([cxx, "-std=c++17", "-I" + VERIF + "/harness"] + fl + w + ["-D" + GUARD] + list(extra_flags) + inc, ownkey, s, od))
    for s in cpp:
        jobs.append(([cxx, "-std=c++17"] + fl + w + ["-DBUILD_LIBEANTIC", "-D" + GUARD] + inc, libkey, s, od))
    for s in c:
        jobs.append(([cc, "-std=gnu17"] + fl + w + ["-DBUILD_LIBEANTIC", "-D" + GUARD] + inc, libkey + s, s, od))
    return jobs


def prepare(specs):
    """compile what several harnesses need at once, the long ones first"""
    seen, jobs = set(), []
    for variant, sources, flags in specs:
        for rank, j in enumerate(_jobs(variant, sources, flags)):
            k = (tuple(j[0]), j[2], j[3])
            if k not in seen:
                seen.add(k)
                jobs.append((rank, j))
    jobs.sort(key=lambda x: x[0])
    _map([j for _, j in jobs])


def harness(variant, sources, name, extra_flags=(), extra_ld=(), cxx_needed=True):
    """compile library + harness sources for variant; return path of executable"""
    cc, cxx, fl, ld = VARIANTS[variant]
    od = os.path.join(BUILD, variant)
    objs = _map(_jobs(variant, sources, extra_flags))
    h = hashlib.sha256(("\n".join(objs) + " ".join(extra_ld)).encode()).hexdigest()[:16]
    exe = os.path.join(od, "%s-%s" % (name, h))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        p = subprocess.run([cxx] + ld + objs + ["-o", tmp] + list(extra_ld) + LIBS, capture_output=True, text=True)
        if p.returncode:
            raise BuildError("linking %s failed:\n%s" % (name, p.stderr[-4000:]))
        os.replace(tmp, exe)
    return exe


def shared():
    """build libeantic.so and libeanticxx.so from the working tree; return dir"""
    cc, cxx, fl, ld = VARIANTS["shared"]
    g = gen_dir()
    inc = includes(g)
    libkey = _headers_digest()
    od = os.path.join(BUILD, "shared-obj")
    c, cpp = lib_sources()
    jobs = [([cxx, "-std=c++17", "-fPIC"] + fl + ["-w", "-DBUILD_LIBEANTIC"] + inc, libkey, s, od) for s in cpp]
    jobs += [([cc, "-std=gnu17", "-fPIC"] + fl + ["-w", "-DBUILD_LIBEANTIC"] + inc, libkey + s, s, od) for s in c]
    objs = _map(jobs)
    cppo, co = objs[:len(cpp)], objs[len(cpp):]
    out = os.path.join(BUILD, "shared")
    os.makedirs(out, exist_ok=True)
    h = hashlib.sha256("\n".join(objs).encode()).hexdigest()
    stamp = os.path.join(out, "stamp")
    if not (os.path.exists(stamp) and open(stamp).read() == h):
        for cmd in ([cc, "-shared", "-Wl,-soname,libeantic.so"] + co + ["-o", out + "/libeantic.so", "-lflint", "-lgmp"],
                    [cxx, "-shared", "-Wl,-soname,libeanticxx.so"] + cppo + ["-o", out + "/libeanticxx.so", "-L" + out, "-leantic", "-lflint", "-lgmpxx", "-lgmp"]):
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                raise BuildError("linking shared library failed:\n" + p.stderr[-4000:])
        open(stamp, "w").write(h)
    return out


if __name__ == "__main__":
    print(harness(sys.argv[1], sys.argv[3:], sys.argv[2], os.environ.get("FLAGS", "").split(), os.environ.get("LDX", "").split()))
