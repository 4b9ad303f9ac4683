#!/usr/bin/env python3
"""Builds /repo's current sources with sanitizers, links one monitor harness, runs its
workload on all cores and turns what the monitors observed into a verdict.

usage: run_check.py <property> <quick|thorough> [--seed N] [--case N]
exit 0 held, 1 violated (VIOLATION line), 2 no verdict (build or harness failure)
"""
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NPROC = max(2, os.cpu_count() or 2)

FLAVOURS = {
    # address + undefined behaviour, libstdc++ assertions, the project's own asserts on
    "asan": dict(cc="gcc", cxx="g++", flags=[
        "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
        "-fsanitize=float-cast-overflow", "-fno-sanitize-recover=all",
        "-D_GLIBCXX_ASSERTIONS"]),
    # for valgrind memcheck (uninitialised values)
    "plain": dict(cc="gcc", cxx="g++", flags=["-O1", "-g", "-fno-omit-frame-pointer"]),
}

CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))


def die(msg):
    print("ERROR " + msg)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def walk(d):
    out = []
    for root, _, files in os.walk(d):
        out += [os.path.join(root, f) for f in files]
    return out


class Builder:
    def __init__(self):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        hdr = walk(os.path.join(REPO, "include"))
        hdr += [f for f in glob.glob(REPO + "/src/*.h*")]
        self.repo_hdr = digest(hdr)
        self.my_hdr = digest(glob.glob(VERIF + "/harness/*.h"))
        self.stub_hdr = digest(walk(VERIF + "/stubs/inc"))
        self.jobs = []

    def obj(self, src, flavour, extra=(), mine=False):
        fl = FLAVOURS[flavour]
        c = src.endswith(".c")
        # stubs/inc stands in for the headers of libraries that are not available here
        flags = list(fl["flags"]) + list(extra) + ["-I" + VERIF + "/stubs/inc",
                                                   "-I" + REPO + "/include", "-w"]
        if mine:
            flags += ["-I" + VERIF + "/harness"]
        cmd = [fl["cc"] if c else fl["cxx"]] + (["-std=gnu99"] if c else ["-std=c++17"]) + flags
        key = digest([src], " ".join(cmd) + self.repo_hdr + self.stub_hdr +
                     (self.my_hdr if mine else ""))
        out = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
        self.jobs.append((src, cmd, out))
        return out

    def run(self, optional=()):
        """Compiles what is missing; errors in `optional` objects are left to the linker."""
        todo, seen = [], set()
        for src, cmd, out in self.jobs:
            if out in seen:
                continue
            seen.add(out)
            if os.path.exists(out):
                os.utime(out)
            else:
                todo.append((src, cmd, out))
        # big files first
        todo.sort(key=lambda t: -os.path.getsize(t[0]))

        def one(t):
            src, cmd, out = t
            tmp = out + ".%d.tmp" % os.getpid()
            r = sh(cmd + ["-c", src, "-o", tmp])
            if r.returncode:
                if out in optional:
                    return None
                return "%s\n%s" % (" ".join(cmd + [src]), r.stdout)
            os.rename(tmp, out)
            return None

        with ThreadPoolExecutor(NPROC) as ex:
            for err in ex.map(one, todo):
                if err:
                    die("cannot compile:\n" + err[-6000:])
        self.jobs = []

    @staticmethod
    def prune():
        try:
            objs = [(os.stat(p).st_mtime, os.stat(p).st_size, p)
                    for p in glob.glob(BUILD + "/obj/*.o")]
            total = sum(o[1] for o in objs)
            for m, s, p in sorted(objs):
                if total < 1.5e9:
                    break
                if time.time() - m > 3600:
                    os.unlink(p)
                    total -= s
        except OSError:
            pass


# compiled for every check; the rest of /repo/src only where the link needs it
CORE = ["psdd_manager.cpp", "psdd_node.cpp", "psdd_parameter.cpp", "psdd_unique_table.cpp",
        "random_double_generator.cpp"]


def build(prop, cfg, flavour, workdir):
    """-> dict name -> executable"""
    fl = FLAVOURS[flavour]
    srcs = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/*.c"))
    if not srcs:
        die("no sources in " + REPO)
    first = [s for s in srcs if os.path.basename(s) in CORE + cfg.get("lib", [])]
    err = ""
    for attempt in ([first, srcs] if cfg.get("lib") != ["all"] else [srcs]):
        b = Builder()
        lib = [b.obj(s, flavour) for s in attempt]
        full = attempt is srcs
        stubs = [b.obj(s, flavour, mine=True) for s in sorted(glob.glob(VERIF + "/stubs/*.cpp"))
                 ] if full else []
        common = [b.obj(VERIF + "/harness/vh.cpp", flavour, mine=True)]
        main = [b.obj(os.path.join(VERIF, "harness", f), flavour, mine=True)
                for f in cfg["sources"]]
        tools = {t: b.obj(os.path.join(REPO, t + ".cpp"), flavour)
                 for t in cfg.get("tools", [])}
        b.run(optional=set(lib))
        ar = os.path.join(workdir, "libpsdd_%s_%d.a" % (flavour, full))
        r = sh(["ar", "rcs", ar] + [o for o in lib if os.path.exists(o)])
        if r.returncode:
            die("ar: " + r.stdout)
        exes = {}
        for name, objs in [("harness", main + common)] + [(t, [o]) for t, o in tools.items()]:
            exe = os.path.join(workdir, name + "_" + flavour)
            r = sh([fl["cxx"]] + fl["flags"] + ["-no-pie"] + objs + [ar] + stubs +
                   [ar, REPO + "/lib/linux/libsdd.a", "-lgmp", "-lgmpxx", "-lpthread",
                    "-o", exe])
            if r.returncode:
                err = "cannot link %s:\n%s" % (name, r.stdout[-6000:])
                break
            exes[name] = exe
        else:
            return exes
    die(err)


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:handle_abort=1:"
                    "detect_stack_use_after_return=0:max_malloc_fill_size=65536:"
                    "malloc_fill_byte=203:hard_rss_limit_mb=3000:allocator_may_return_null=0:"
                    "detect_container_overflow=1:strict_string_checks=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "LC_ALL": "C.UTF-8",
    "MALLOC_PERTURB_": "203",
}
# Half of the workers get freed memory back at once, as a program without sanitizers does: what is
# remembered by address (a stale cache, a dangling key) then meets a new object at the old address.
REUSE = ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"


def crash_key(log, rc):
    """A stable name for an abnormal end: kind + innermost frame in the code under test."""
    kind = None
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)", log)
    if m:
        kind = m.group(1) + ":" + m.group(2)
    m = re.search(r"runtime error: (.{0,60})", log)
    if m:
        kind = "UBSan:" + re.sub(r"-?\b\d[\w.+]*|-?\b(inf|nan)\b", "#", m.group(1)).strip()[:50]
    m = re.search(r"Assertion `(.{0,80})' failed", log)
    if m:
        kind = "assert:" + m.group(1)
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", log)
    if m:
        kind = "terminate:" + m.group(1)
    if kind is None:
        m = re.search(r"(Invalid (?:read|write|free)|uninitialised value)", log)
        kind = m.group(1) if m else "exit:%s" % rc
    fn = ""
    for m in re.finditer(r"^\s*#\d+ \S+ in (.+?) (/\S+?)(?::\d+)*$", log, re.M):
        if m.group(2).startswith(REPO + "/"):
            fn = re.sub(r"\(.*", "", m.group(1))
            break
    return ("crash/%s/%s" % (kind, fn)).replace(" ", "_")


def run_worker(exe, prop, seed, tier, w, n, start, workdir, cpu, only=None, wall=1e9,
               env=None, wrap=(), reuse=None):
    """One process; -> (status, progress case, log, records)"""
    tag = "%d_%d_%s" % (w, start, "x" if only is None else only)
    out = os.path.join(workdir, "out_" + tag)
    prog = os.path.join(workdir, "prog_" + tag)
    logf = os.path.join(workdir, "log_" + tag)
    scratch = os.path.join(workdir, "scratch_" + tag)
    os.makedirs(scratch, exist_ok=True)
    for p in (out, prog):
        if os.path.exists(p):
            os.unlink(p)
    cmd = list(wrap) + [exe, "--seed", str(seed), "--tier", tier, "--worker", str(w),
                        "--workers", str(n), "--start", str(start), "--out", out,
                        "--progress", prog, "--scratch", scratch, "--cpu", str(cpu)]
    if only is not None:
        cmd += ["--only", str(only)]
    e = dict(os.environ)
    e.update(SAN_ENV)
    if (w >> 1) % 2 == 1 if reuse is None else reuse:
        e["ASAN_OPTIONS"] += REUSE
    e.update(env or {})
    timed_out = False
    with open(logf, "wb") as lf, open(os.devnull) as dn:
        p = subprocess.Popen(cmd, stdin=dn, stdout=subprocess.DEVNULL, stderr=lf, env=e,
                             cwd=scratch, start_new_session=True)
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            timed_out = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            rc = p.wait()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    recs = []
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    case, hang = None, False
    if os.path.exists(prog):
        raw = open(prog, "rb").read()
        m = re.match(rb"\d+", raw)
        if m:
            case = int(m.group(0))
        hang = b"HANG" in raw
    with open(logf, "rb") as f:
        f.seek(0, 2)
        size = f.tell()
        f.seek(max(0, size - 200000))
        log = f.read().decode("utf-8", "replace")
    shutil.rmtree(scratch, ignore_errors=True)
    done = any(r.get("t") == "done" for r in recs)
    if done and rc == 0:
        status = "done"
    elif timed_out:
        status = "timeout"
    elif rc == 97 and hang:
        status = "hang"
    elif case is None or rc == 98:
        status = "broken"
    else:
        status = "crash"
    return status, case, rc, log, recs


def load_known(prop):
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def main():
    if len(sys.argv) < 3 or sys.argv[1] not in CHECKS:
        print(__doc__)
        sys.exit(2)
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    a = sys.argv[3:]
    while a:
        if a[0] == "--seed":
            seed = int(a[1])
        elif a[0] == "--case":
            only = int(a[1])
        a = a[2:]
    cfg = CHECKS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    workdir = tempfile.mkdtemp(prefix="%s_%s_" % (prop, tier), dir=BUILD)
    try:
        sys.exit(go(prop, tier, seed, only, cfg, workdir, t0))
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
        Builder.prune()


def go(prop, tier, seed, only, cfg, workdir, t0):
    exes = build(prop, cfg, "asan", workdir)
    tb = time.time() - t0
    env = {"VH_TOOL_" + k.upper(): v for k, v in exes.items() if k != "harness"}
    env["VH_REPO"] = REPO
    cpu = cfg.get("cpu", {"quick": 20, "thorough": 120}[tier])
    deadline = t0 + {"quick": 600, "thorough": 7200}[tier]
    plans = [("asan", exes["harness"], (), NPROC, env)]
    if cfg.get("valgrind") and only is None:
        pe = build(prop, cfg, "plain", workdir)
        penv = {"VH_TOOL_" + k.upper(): v for k, v in pe.items() if k != "harness"}
        penv["VH_REPO"] = REPO
        penv["VH_MEMCHECK"] = "1"
        plans.append(("memcheck", pe["harness"],
                      ("valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes",
                       "--track-origins=no", "--leak-check=no"), NPROC, penv))
        tb = time.time() - t0
    fails = []       # (key, msg, case)
    inconclusive = []
    counts, samples, hashes = {}, [], set()
    slowest = [0, -1, ""]
    evaluations = checks = 0
    rule = ""

    def worker(args):
        plan, w = args
        name, exe, wrap, n, penv = plan
        start, res, crashes = 0, [], 0
        while True:
            wall = max(20, deadline - time.time())
            r = run_worker(exe, prop, seed, tier, w, n, start, workdir,
                           cpu * (20 if wrap else 1), only, wall, penv, wrap)
            res.append((name,) + r)
            if only is not None and r[0] == "done" and not any(x["t"] == "fail" for x in r[4]):
                r = run_worker(exe, prop, seed, tier, w, n, start, workdir, cpu, only, wall, penv,
                               wrap, True)
                res.append((name,) + r)
            status, case = r[0], r[1]
            if time.time() > deadline:
                break
            if status == "crash":
                crashes += 1
                if crashes >= 2 or only is not None:
                    break
                start = case + 1
                continue
            break
        return plan, w, res

    for plan in plans:
        n = 1 if only is not None else plan[3]
        with ThreadPoolExecutor(n) as ex:
            results = list(ex.map(worker, [(plan, w) for w in range(n)]))
        for plan_, w, res in results:
            for name, status, case, rc, log, recs in res:
                for r in recs:
                    if r["t"] == "fail":
                        fails.append((r["key"], r["msg"], r["case"]))
                    elif r["t"] == "done":
                        evaluations += r["cases"]
                        checks += r["checks"]
                        slowest = max(slowest, r["slowest"] + [name])
                        rule = r["rule"]
                        for k, v in r["counts"].items():
                            counts[k] = counts.get(k, 0) + v
                        if len(samples) < 6:
                            samples += r["samples"]
                        hashes |= set(r["hashes"])
                if status == "crash":
                    fails.append((name + "/" + crash_key(log, rc), log[-6000:], case))
                elif status == "hang" and fails:
                    inconclusive.append("case %s: CPU budget exceeded" % case)
                elif status == "hang":
                    # once more, alone, with a larger budget, before calling it a hang
                    s2 = run_worker(plan_[1], prop, seed, tier, w, 1, 0, workdir, cpu * 2,
                                    case, 3000, plan_[4], plan_[2], (w >> 1) % 2 == 1)
                    if s2[0] == "hang":
                        fails.append(("hang", "no answer within %gs of CPU time" % (2 * cpu),
                                      case))
                    elif s2[0] == "crash":
                        fails.append((name + "/" + crash_key(s2[3], s2[2]), s2[3][-6000:], case))
                    else:
                        inconclusive.append("case %s: CPU budget exceeded once" % case)
                elif status == "timeout":
                    inconclusive.append("worker %d: wall clock budget (case %s)" % (w, case))
                elif status == "broken":
                    die("harness did not start (rc=%s)\n%s" % (rc, log[-3000:]))
        if fails:
            break

    known = load_known(prop)
    seen_known, new = {}, {}
    for key, msg, case in fails:
        if key in known:
            seen_known.setdefault(key, known[key])
        else:
            new.setdefault(key, (msg, case))
    wall_s = time.time() - t0
    if only is None:
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(hashes),
                "rule": rule,
                "samples": samples,
                "oracle_comparisons": checks,
                "monitor_events": counts,
                "inconclusive": inconclusive,
                "slowest_case": {"cpu_s": slowest[0], "case": slowest[1], "build": slowest[2]},
                "processes": sum(p[3] for p in plans),
                "instrumentation": [p[0] for p in plans],
                "build_s": round(tb, 1),
            },
            "assumptions": cfg.get("assumptions", []),
            "wall_s": round(wall_s, 1),
            "violations": len(new),
        }
        with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
            json.dump(ev, f, indent=1)
    for key, what in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if new:
        os.makedirs(VERIF + "/replay", exist_ok=True)
        for key, (msg, case) in new.items():
            safe = re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:80]
            path = VERIF + "/replay/%s-%s-%s-%s.json" % (prop, tier, case, safe)
            with open(path, "w") as f:
                json.dump({"property": prop, "key": key, "tier": tier, "seed": seed,
                           "case": case, "message": msg,
                           "replay": "cd /verif && VERIF_SEED=%d python3 run_check.py %s %s --case %s"
                                     % (seed, prop, tier, case)}, f, indent=1)
            print("case %s key %s" % (case, key))
            print("\n".join("  " + l for l in msg.strip().splitlines()[:25]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if only is None and (evaluations == 0 or checks == 0 or not hashes):
        die("the monitors observed nothing (evaluations=%d comparisons=%d distinct=%d)"
            % (evaluations, checks, len(hashes)))
    if inconclusive and evaluations == 0:
        die("inconclusive: " + "; ".join(inconclusive))
    print("%s %s: held on %d cases (%d distinct non-trivial, %d oracle comparisons) "
          "in %.1fs (build %.1fs, slowest case %d: %.1fs)"
          % (prop, tier, evaluations, len(hashes), checks, wall_s, tb, slowest[1], slowest[0]))
    return 0


if __name__ == "__main__":
    main()
