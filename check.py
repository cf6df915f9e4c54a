#!/usr/bin/env python3
"""Runner of the monitors.

  check.py PROPERTY            quick or thorough by VERIF_TIER / --tier
  check.py --replay FILE       run the failing execution of a replay file again

Exit 0: the property held on everything observed.  Exit 1 with a VIOLATION line:
broken.  Exit 2: the check itself failed (nothing observed, build error, ...)."""
import argparse, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vbuild
from registry import PROPS

V = vbuild.VERIF
NCPU = min(8, os.cpu_count() or 4)
SAN_EXIT = 99


class Inconclusive(Exception):
    pass


def env_for(run):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("LIBEANTIC") or k.startswith("VF_"):
            del e[k]
    leaks = 1 if run.get("leaks") else 0
    e["ASAN_OPTIONS"] = ("detect_leaks=%d:exitcode=%d:abort_on_error=0:halt_on_error=1:detect_stack_use_after_return=1:"
                         "hard_rss_limit_mb=6000:max_allocation_size_mb=4000:strict_init_order=1:check_initialization_order=1:"
                         "max_free_fill_size=65536:free_fill_byte=91" % (leaks, SAN_EXIT))
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=%d" % SAN_EXIT
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=%d:second_deadlock_stack=1:history_size=4" % SAN_EXIT
    e["LSAN_OPTIONS"] = "exitcode=%d" % SAN_EXIT
    e["LC_ALL"] = "C"
    if run.get("valgrind") or run.get("variant") == "tsan":
        e["VF_LIGHT"] = "1"   # fields whose refinement is slow are left to the other builds
    e.update(run.get("env", {}))
    return e


def command(exe, run, seed, frm, stride, count, out, state, tier, cpu, deadline):
    a = [exe, run["mode"], "--seed", str(seed), "--from", str(frm), "--stride", str(stride), "--count", str(count),
         "--out", out, "--state", state, "--cpu", str(cpu), "--tier", tier, "--deadline", str(deadline)]
    if run.get("valgrind"):
        a = ["valgrind", "-q", "--error-exitcode=%d" % SAN_EXIT, "--leak-check=no", "--num-callers=30", "--exit-on-first-error=yes"] + a
    return a


def read_state(p):
    try:
        return struct.unpack("q", open(p, "rb").read(8))[0]
    except Exception:
        return None


def tail(path, n=60000):
    try:
        b = re.sub(rb"Performing arithmetic on number field elements in different fields[^\n]*\n?", b"", open(path, "rb").read())
        return b[-n:].decode("utf8", "replace") if len(b) > n else b.decode("utf8", "replace")
    except Exception:
        return ""


def head(path, n=60000):
    try:
        return re.sub(rb"Performing arithmetic on number field elements in different fields[^\n]*\n?", b"", open(path, "rb").read())[:n].decode("utf8", "replace")
    except Exception:
        return ""


def classify(rc, text):
    """-> (verdict, kind, message); verdict in ok, fail, hang, error, lost"""
    m = re.search(r"VF-FAIL\|[^|]*\|case=(-?\d+)\|kind=([^|]*)\|(.*)", text)
    if rc == 0:
        return "ok", "", ""
    if rc == 78:
        m2 = re.search(r"VF-ERROR\|(.*)", text)
        return "error", "harness", m2.group(1) if m2 else "?"
    if rc == 79 or rc == -signal.SIGPROF:
        return "hang", "nontermination", m.group(3) if m else "?"
    if rc == 77:
        return "fail", m.group(2) if m else "?", m.group(3) if m else "?"
    if rc == -9 or rc == 124:
        return "lost", "killed", "killed"
    s = re.search(r"(SUMMARY: \w+Sanitizer: .*|runtime error: .*|ERROR: \w+Sanitizer.*|hard rss limit.*|==\d+== (?:Invalid|Conditional|Use of|Syscall|Source|Mismatched|Jump).*|Assertion.*failed.*|terminate called.*|.*what\(\):.*)", text)
    kind = "sanitizer" if rc == SAN_EXIT else "crash"
    if "hard rss limit" in text:
        kind = "memory-exhausted"
    return "fail", kind, "%s (exit %d)" % (s.group(1) if s else "process ended abnormally", rc)


class Shard:
    def __init__(self, exe, run, seed, k, stride, count, tmp, tier, frm=None, cpu=60, wall=1000, deadline=0):
        self.exe, self.run, self.seed, self.tier = exe, run, seed, tier
        self.frm = k if frm is None else frm
        self.stride, self.count = stride, count
        base = os.path.join(tmp, "%s.%s.%d.%d.%d" % (os.path.basename(exe), run["mode"], seed, self.frm, int(time.time() * 1e6)))
        self.out, self.state, self.log = base + ".json", base + ".st", base + ".log"
        self.cmd = command(exe, run, seed, self.frm, stride, count, self.out, self.state, tier, cpu * (30 if run.get("valgrind") else 1), deadline)
        self.wall = wall
        self.rc = None

    def set_deadline(self, d):
        i = self.cmd.index("--deadline")
        old = int(self.cmd[i + 1])
        self.cmd[i + 1] = str(min(old, d) if old else d)

    def start(self):
        self.f = open(self.log, "wb")
        self.t0 = time.time()
        self.p = subprocess.Popen(self.cmd, stdout=self.f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env_for(self.run), cwd=os.path.dirname(self.log), start_new_session=True)

    def poll(self):
        rc = self.p.poll()
        if rc is None and time.time() - self.t0 > self.wall:
            self.kill()
            rc = 124
        if rc is not None and self.rc is None:
            self.rc = rc
            self.f.close()
        return self.rc

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def verdict(self):
        t = head(self.log, 400000)
        v, k, m = classify(self.rc, t)
        if v == "ok" and not os.path.exists(self.out):
            return "error", "harness", "no summary"
        return v, k, m


def run_shards(shards, stop_on_fail=True, budget_end=None):
    pending, active = list(shards), []
    failed = False
    while pending or active:
        while pending and len(active) < NCPU and not failed:
            s = pending.pop(0)
            if budget_end:
                # what is left of the time is shared by what is left of the work; on an ordinary machine nothing is cut short
                waves = 1 + len(pending) // NCPU
                s.set_deadline(max(4, int((budget_end - time.time()) / waves)))
            s.start()
            active.append(s)
        if failed:
            pending = []
        for s in list(active):
            if s.poll() is not None:
                active.remove(s)
                if s.verdict()[0] == "fail" and stop_on_fail:
                    failed = True
        if failed and stop_on_fail:
            # let the others finish only briefly: the verdict is in
            for s in active:
                s.kill()
                s.rc = -9
                s.skipped = True
                s.f.close()
            active = []
        time.sleep(0.02)


def known_findings(prop):
    """lines 'finding: property=C01 match=<regex> | <what>' of known-findings.txt"""
    res = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) match=(.*?) \| (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed &= 0x7FFFFFFF
    P = PROPS[a.prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vf-", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        return check(a.prop, P, tier, seed, tmp, t0, a.scale)
    except vbuild.BuildError as e:
        print("CHECK-ERROR: " + str(e))
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)


def check(prop, P, tier, seed, tmp, t0, scale):
    shutil.rmtree(os.path.join(V, "evidence", prop + ".json"), ignore_errors=True)
    runs = [r for r in P["runs"] if r.get(tier)]
    wall = 650 if tier == "quick" else 6 * 3600
    exes = {}
    groups = {}
    vbuild.prepare([(r["variant"], r["sources"], r.get("flags", ())) for r in runs if not r.get("python")])
    for r in runs:
        if r.get("python"):
            continue
        key = (r["variant"], r["name"])
        if key not in exes:
            exes[key] = vbuild.harness(r["variant"], r["sources"], r["name"], r.get("flags", ()), r.get("ld", ()))
    build_s = time.time() - t0
    shards = []
    for r in runs:
        n = max(1, int(r[tier] * scale))
        if r.get("python"):
            exe = os.path.join(V, "harness", r["python"])
        else:
            exe = exes[(r["variant"], r["name"])]
        k = min(r.get("shards", NCPU), n)
        for i in range(k):
            cnt = (n - i + k - 1) // k
            shards.append(Shard(exe, r, seed, i, k, cnt, tmp, tier, cpu=r.get("cpu", 60 if tier == "quick" else 240), wall=wall, deadline=r.get("deadline", 400 if tier == "quick" else 5 * 3600)))
            if r.get("python"):
                pyenv(shards[-1])
    run_shards(shards, budget_end=t0 + (620 if tier == "quick" else 5.5 * 3600))
    failures, errors, notes = [], [], []
    for s in shards:
        if s.rc is None or getattr(s, "skipped", False):
            continue
        v, kind, msg = s.verdict()
        if v in ("hang", "lost") or (v == "fail" and kind == "memory-exhausted"):
            # inconclusive: once more, alone, with a larger budget; only a repeated failure counts
            case = read_state(s.state)
            if v == "lost" or case is None or case < 0:
                frm, cnt = s.frm, s.count
            else:
                frm, cnt = case, 1
            s2 = Shard(s.exe, s.run, seed, 0, s.stride, cnt, tmp, tier, frm=frm, cpu=150 if tier == "quick" else 500, wall=max(120, min(400, 860 - (time.time() - t0))) if tier == "quick" else wall)
            s2.cmd = s2.cmd[:1] and (["/opt/vp/venv/bin/python"] if s.run.get("python") else []) + s2.cmd
            run_shards([s2])
            v2, kind2, msg2 = s2.verdict()
            if v2 in ("hang", "fail"):
                failures.append((s2, kind2, msg2))
            elif v2 == "lost":
                errors.append("%s from case %s: killed twice (out of memory or wall clock)" % (s.run["mode"], frm))
            elif v2 == "error":
                errors.append(msg2)
            else:
                notes.append("%s case %s: %s once, fine when repeated" % (s.run["mode"], case, kind))
                if not os.path.exists(s.out):
                    s.out = s2.out
        elif v == "fail":
            failures.append((s, kind, msg))
        elif v == "error":
            errors.append(msg)
    # ---------------------------------------------------------------- merge
    evals = cases = 0
    events, distinct, samples = {}, set(), []
    perrun = {}
    for s in shards:
        if not os.path.exists(s.out):
            continue
        try:
            d = json.load(open(s.out))
        except ValueError:
            errors.append("unreadable summary")
            continue
        evals += d["evaluations"]
        cases += d["cases"]
        for k, n in d["events"].items():
            kk = s.run.get("label", s.run["mode"]) + ":" + k
            events[kk] = events.get(kk, 0) + n
        distinct.update(s.run["mode"] + x for x in d["distinct"])
        if len(samples) < 12:
            samples += d["samples"][:2]
        lab = "%s/%s" % (s.run.get("label", s.run["mode"]), s.run.get("variant", "python"))
        q = perrun.setdefault(lab, [0, 0, [0.0, -1]])
        q[0] += d["cases"]
        q[1] += d["evaluations"]
        q[2] = max(q[2], d.get("slowest", q[2]))
    known = known_findings(prop)
    vio, rest = [], []
    for s, kind, msg in failures:
        hit = [w for rx, w in known if rx.search(kind + " " + msg)]
        (rest if hit else vio).append((s, kind, msg, hit))
    for s, kind, msg, hit in rest:
        print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
    out = []
    for s, kind, msg, _ in vio[:5]:
        out.append(write_replay(prop, s, kind, msg, seed, tier))
    missing = []
    if not vio:
        for want in P.get("must_observe", []):
            if not any(re.search(want, k) for k in events):
                missing.append(want)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 1),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct), "rule": P["rule"], "samples": samples[:12],
            "cases": cases, "build_s": round(build_s, 1), "runs": {k: {"cases": v[0], "oracle_decisions": v[1], "slowest_case_cpu_s": v[2][0], "slowest_case": v[2][1]} for k, v in sorted(perrun.items())},
            "observed_events": dict(sorted(events.items())),
        },
        "assumptions": P.get("assumptions", []),
        "violations": [{"kind": k, "message": m[:2000], "replay": p} for (p, k, m) in out],
    }
    if notes:
        ev["coverage"]["inconclusive_then_fine"] = notes[:20]
    if errors:
        ev["coverage"]["check_errors"] = errors[:10]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmpf = os.path.join(V, "evidence", prop + ".json.tmp%d" % os.getpid())
    json.dump(ev, open(tmpf, "w"), indent=1)
    os.replace(tmpf, os.path.join(V, "evidence", prop + ".json"))
    for p, k, m in out:
        print("%s: [%s] %s" % (prop, k, m[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if vio:
        return 1
    if errors:
        for e in errors[:10]:
            print("CHECK-ERROR: " + e)
        return 2
    if evals == 0 or len(distinct) == 0 or missing:
        print("CHECK-ERROR: nothing observed for " + ", ".join(missing or ["the oracle"]))
        return 2
    print("%s held on %d executions, %d oracle decisions, %d distinct situations (%s, seed %d, %.0f s)" % (prop, cases, evals, len(distinct), tier, seed, time.time() - t0))
    return 0


def pyenv(s):
    so = vbuild.shared()
    g = vbuild.gen_dir()
    s.run = dict(s.run)
    s.run["env"] = dict(s.run.get("env", {}), EXTRA_CLING_ARGS="-Wno-macro-redefined -I%s/libeantic -I%s" % (vbuild.REPO, g), LD_LIBRARY_PATH=so,
                        PYTHONPATH=vbuild.REPO + "/pyeantic/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    s.cmd = ["/opt/vp/venv/bin/python"] + s.cmd


def write_replay(prop, s, kind, msg, seed, tier):
    d = os.path.join(V, "replays")
    os.makedirs(d, exist_ok=True)
    case = read_state(s.state)
    t = head(s.log, 400000)
    i = t.find("VF-FAIL")
    if i < 0:
        i = max(0, min([x for x in (t.find("ERROR:"), t.find("runtime error"), t.find("WARNING: ThreadSanitizer")) if x >= 0] or [len(t) - 12000]) - 200)
    path = os.path.join(d, "%s-%s-%d-%s.json" % (prop, s.run["mode"], seed, case))
    r = {k: v for k, v in s.run.items()}
    json.dump({"property": prop, "kind": kind, "message": msg, "run": r, "seed": seed, "tier": tier, "case": case, "from": s.frm, "stride": s.stride,
               "count": s.count, "log": t[i:i + 12000], "how": "python3 /verif/check.py --replay " + path}, open(path, "w"), indent=1)
    return path, kind, msg


def replay(path):
    d = json.load(open(path))
    r = d["run"]
    exe = os.path.join(V, "harness", r["python"]) if r.get("python") else vbuild.harness(r["variant"], r["sources"], r["name"], r.get("flags", ()), r.get("ld", ()))
    tmp = tempfile.mkdtemp(prefix="vf-")
    try:
        last = 0
        for whole in (False, True):
            if whole or d["case"] is None or d["case"] < 0:
                frm, stride, count = d["from"], d["stride"], d["count"]
            else:
                frm, stride, count = d["case"], d["stride"], 1
            s = Shard(exe, r, d["seed"], 0, stride, count, tmp, d["tier"], frm=frm, cpu=150)
            if r.get("python"):
                pyenv(s)
            run_shards([s])
            v, k, m = s.verdict()
            print("%s: %s [%s] %s" % ("whole shard" if whole else "single case", v, k, m))
            if v in ("fail", "hang"):
                print(tail(s.log))
                print("VIOLATION property=%s replay=%s" % (d["property"], path))
                return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
