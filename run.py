#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's current working tree.

  run.py <ID> quick|thorough      exit 0 held / 1 violation / 2 check error
  run.py replay <ID> <file>       re-runs one recorded decision stream
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, VERIF)
from config import PROPS, MT_IDS  # noqa: E402

GXX_COMMON = ["-std=c++14", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-include",
              os.path.join(VERIF, "rt/vf_hook.h"), "-I" + os.path.join(VERIF, "rt"),
              "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "src/include")]
INCLUDES = []
BUILDS = {
    # primary monitored build
    "asan": dict(cxx="g++", flags=["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
                                   "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
                 inst=["-fsanitize-coverage=trace-pc,trace-cmp"], rt=["-DVF_ASAN"], rt_san=False),
    # coverage-guided workload
    "fuzz": dict(cxx="clang++", flags=["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr",
                                       "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
                                       "-ftrivial-auto-var-init=pattern"],
                 inst=["-fsanitize=fuzzer-no-link"], rt=["-DVF_FUZZ", "-DVF_ASAN"], rt_san=False,
                 link=["-fsanitize=fuzzer"]),
    # race detector
    "tsan": dict(cxx="g++", flags=["-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS", "-O0"], inst=[], rt=["-DVF_TSAN"], rt_san=True),
    # plain build for valgrind memcheck (uninitialised-value oracle)
    "plain": dict(cxx="g++", flags=["-D_GLIBCXX_ASSERTIONS", "-O0"], inst=[], rt=[], rt_san=False),
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:handle_sigfpe=1:handle_sigill=1:"
                    "allocator_may_return_null=0:max_allocation_size_mb=2048:hard_rss_limit_mb=3000:"
                    "max_malloc_fill_size=65536:malloc_fill_byte=190:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:detect_invalid_pointer_pairs=0:quarantine_size_mb=16",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
}


def cpu_if_asleep(pid):
    """CPU time of a process all of whose threads sleep and that has no child; None otherwise."""
    try:
        tot, tasks = 0, "/proc/%d/task" % pid
        for th in os.listdir(tasks):
            f = open("%s/%s/stat" % (tasks, th)).read().rsplit(")", 1)[1].split()
            if f[0] != "S" or open("%s/%s/children" % (tasks, th)).read().strip():
                return None
            tot += int(f[11]) + int(f[12])
        return tot
    except (OSError, IndexError, ValueError):
        return None


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def lib_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs[:] = [d for d in dirs if d != "include"]
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith((".cpp", ".cc"))]
    return sorted(out)


def build(kind, harnesses, work, only=None):
    if INCLUDES:
        try:
            return build_with(INCLUDES, kind, harnesses, work, only)
        except CheckError:  # the stand-in does not fit this tree: monitor without it
            shutil.rmtree(os.path.join(work, kind), ignore_errors=True)
    return build_with([], kind, harnesses, work, only)


def build_with(extra, kind, harnesses, work, only):
    """Compiles /repo's sources, the harnesses and the runtime; returns the binary."""
    b = BUILDS[kind]
    d = os.path.join(work, kind)
    os.makedirs(d, exist_ok=True)
    jobs, lib_objs, objs = [], [], []
    srcs = lib_sources()
    if only is not None:
        srcs = [s for s in srcs if os.path.basename(os.path.dirname(s)) in only]
    for h in harnesses:
        o = os.path.join(d, "h_%s.o" % h)
        objs.append(o)
        jobs.append([b["cxx"]] + GXX_COMMON + b["flags"] + b["inst"] + extra + ["-c", os.path.join(VERIF, "harness", h + ".cpp"), "-o", o])
    o = os.path.join(d, "rt.o")
    objs.append(o)
    jobs.append([b["cxx"]] + GXX_COMMON + (b["flags"] if b["rt_san"] else []) + b["rt"] + ["-c", os.path.join(VERIF, "rt/vf_main.cpp"), "-o", o])
    for s in srcs:
        o = os.path.join(d, "lib_%s_%s.o" % (os.path.basename(os.path.dirname(s)), os.path.basename(s)))
        lib_objs.append(o)
        if not os.path.exists(o):
            jobs.append([b["cxx"]] + GXX_COMMON + b["flags"] + b["inst"] + extra + ["-c", s, "-o", o])
    with cf.ThreadPoolExecutor(8) as ex:
        for cmd, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                raise CheckError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    a = os.path.join(d, "lib.a")
    if os.path.exists(a):
        os.remove(a)
    if lib_objs:
        r = sh(["ar", "rcs", a] + lib_objs)
        if r.returncode:
            raise CheckError("ar failed: " + r.stdout)
    exe = os.path.join(d, "prog")
    r = sh([b["cxx"]] + b["flags"] + b.get("link", []) + objs + ([a] if lib_objs else []) + ["-lpthread", "-o", exe])
    if r.returncode:
        if only is not None:  # needs more of the library than usual: take all of it
            return build_with(extra, kind, harnesses, work, None)
        raise CheckError("link failed: " + r.stdout[-3000:])
    return exe


def load_known(pid):
    keys = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                keys.append((m.group(2), m.group(3)))
    return keys


def crash_summary(log):
    for pat in (r"ERROR: AddressSanitizer: .*", r".*runtime error: .*", r"WARNING: ThreadSanitizer: .*",
                r"VF-HANG .*", r".*Assertion .* failed.*", r"terminate called.*", r"VF-SIGNAL .*"):
        m = re.search(pat, log)
        if m:
            extra = ""
            for fr in re.findall(r"#\d+ 0x[0-9a-f]+ (?:in )?(.*)", log)[:40]:
                if "/repo/src" in fr or REPO in fr:
                    extra = " at " + fr.strip()
                    break
            return (m.group(0) + extra)[:600]
    return log.strip()[-400:]


def race_sites(log):
    out = [fr.strip().split(" (")[0] for fr in re.findall(r"#\d+ (.*)", log) if REPO in fr or "/harness/" in fr]
    return " between: " + " | ".join(dict.fromkeys(out[:6]))


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.cfg = pid, tier, PROPS[pid]
        for h in self.cfg.get("include", []):  # headers force-included into library and harness
            INCLUDES.extend(["-include", os.path.join(VERIF, "rt", h)])
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        self.violations, self.notes, self.known_hits = [], [], {}
        self.stats = dict(evals=0, nontrivial=0, exits=0, leakchecks=0, maxsteps=0, counters={}, samples=[])
        self.sigs, self.pcs = set(), set()
        self.fuzz = None
        self.vg = None
        self.known = load_known(pid)
        kp = os.path.join(self.work, "known.txt")
        with open(kp, "w") as f:
            f.write("".join(k + "\n" for k, _ in self.known))
        self.env = dict(os.environ, **SAN_ENV)
        self.env.update(VF_KNOWN=kp, VERIF_TIER=tier)

    # -- helpers
    def popen(self, cmd, env, log):
        return subprocess.Popen(cmd, env=env, stdout=open(log, "wb"), stderr=subprocess.STDOUT, cwd=self.work,
                                start_new_session=True)

    def wait(self, procs, limit):
        """Waits for all of them. One that failed gives the others two minutes more; one whose threads all sleep,
        using next to no CPU time for a minute and waiting for no child, is blocked for good: it is told to name its case."""
        end, idle, grace, left = time.time() + limit, {}, None, list(procs)
        while left:
            try:
                left[0].wait(1)
            except subprocess.TimeoutExpired:
                pass
            left = [p for p in left if p.poll() is None]
            if grace is None and any(p.poll() not in (None, 0) for p in procs):
                grace = time.time() + 120
                end = min(end, grace)
            for p in left:
                c = cpu_if_asleep(p.pid)
                last, n = idle.get(p.pid, (None, 0))
                # up to 0.2 s in all is what the memory-limit thread of the sanitizer uses
                n, last = (n + 1, last) if None not in (c, last) and c - last <= 20 else (0, c)
                idle[p.pid] = (last, n)
                if n == 60:
                    p.blocked = True
                    os.kill(p.pid, signal.SIGUSR1)
                if n >= 75 or time.time() > end:
                    p.timed_out = time.time() > end
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
            left = [p for p in left if p.poll() is None]

    def save_replay(self, src, tag):
        rd = os.path.join(EVID, "replays")
        os.makedirs(rd, exist_ok=True)
        data = open(src, "rb").read() if src and os.path.exists(src) else b""
        name = "%s-%s-%s.bin" % (self.pid, tag, hashlib.sha1(data).hexdigest()[:10])
        dst = os.path.join(rd, name)
        with open(dst, "wb") as f:
            f.write(data)
        return dst

    def violation(self, msg, replay, log=""):
        if log:
            with open(replay + ".log", "w") as f:
                f.write(log[-20000:])
        self.violations.append((msg, replay))

    def replay(self, exe, path, tag, cpu=None, hid=None):
        env = dict(self.env, VF_OUT=self.work)
        if cpu:
            env["VF_CPU_LIMIT"] = str(cpu)
        log = os.path.join(self.work, "replay-%s.log" % tag)
        p = self.popen([exe, "replay", hid or self.cfg.get("harness", self.pid), path], env, log)
        self.wait([p], 400)
        return p, open(log, errors="replace").read()

    # -- stages
    def stage_workers(self, exe):
        c = self.cfg
        n, w = c["cases"][self.tier], c.get("workers", 8)
        hid = c.get("harness", self.pid)
        procs = []
        for i in range(w):
            out = os.path.join(self.work, "w%d" % i)
            os.makedirs(out)
            env = dict(self.env, VF_OUT=out)
            procs.append(self.popen([exe, "run", hid, str(self.seed), str(i), str(n // w)], env, os.path.join(out, "log")))
        self.wait(procs, 600 if self.tier == "quick" else 20000)
        errors = []
        for i, p in enumerate(procs):
            out = os.path.join(self.work, "w%d" % i)
            log = open(os.path.join(out, "log"), errors="replace").read()
            self.collect(out, i)
            rc = p.returncode
            if rc == 0:
                continue
            if getattr(p, "blocked", False) and rc != 77:
                self.violation(self.pid + ":hang: all threads of a worker sleep for good (deadlock)", self.save_replay(None, "w%d" % i), log)
                continue
            if getattr(p, "timed_out", False):
                errors.append("worker %d did not finish in time (inconclusive)" % i)
                continue
            m = re.search(r"VF-VIOLATION key=(.*?) file=(\S+) msg=(.*)", log)
            if m:
                rp = self.save_replay(m.group(2) if m.group(2) != "once" else None, "w%d" % i)
                self.violation("%s: %s" % (m.group(1), m.group(3)[:1500]), rp, log)
                continue
            m = re.search(r"VF-DUMP kind=(\S+) case=(\d+) file=(\S+)", log)
            if m and m.group(1) == "hang":
                if any(":hang:" in v for v, _ in self.violations):
                    continue  # one confirmed hang is enough
                # re-run once, with a larger CPU budget, before reporting
                p2, log2 = self.replay(exe, m.group(3), "h%d" % i, cpu=120)
                if p2.returncode == 77:
                    self.violation(self.pid + ":hang: operation does not terminate: " + crash_summary(log2), self.save_replay(m.group(3), "w%d" % i), log2)
                elif p2.returncode != 0:
                    self.violation(self.pid + ":crash: " + crash_summary(log2), self.save_replay(m.group(3), "w%d" % i), log2)
                else:
                    errors.append("watchdog fired once but not on re-run (inconclusive)")
                continue
            if m:
                self.violation(self.pid + (":race: " if "ThreadSanitizer" in log else ":crash: ") + crash_summary(log), self.save_replay(m.group(3), "w%d" % i), log)
                continue
            if re.search(r"AddressSanitizer|ThreadSanitizer|runtime error|VF-SIGNAL|terminate called|Assertion", log):
                self.violation(self.pid + ":crash: " + crash_summary(log), self.save_replay(None, "w%d" % i), log)
                continue
            errors.append("worker %d ended with %s:\n%s" % (i, rc, log[-2000:]))
        if errors and not self.violations:
            raise CheckError("; ".join(errors))

    def collect(self, out, i):
        p = os.path.join(out, "stats-w%d.json" % i)
        if not os.path.exists(p):
            return
        st = json.load(open(p))
        for k in ("evals", "nontrivial", "exits", "leakchecks"):
            self.stats[k] += st[k]
        self.stats["maxsteps"] = max(self.stats["maxsteps"], st["maxsteps"])
        for k, v in st["counters"].items():
            self.stats["counters"][k] = self.stats["counters"].get(k, 0) + v
        for k, v in st["known"].items():
            self.known_hits[k] = self.known_hits.get(k, 0) + v
        self.stats["samples"] += st["samples"][:3]
        for name, dst in (("sigs", self.sigs), ("pcs", self.pcs)):
            d = open(os.path.join(out, "%s-w%d.bin" % (name, i)), "rb").read()
            dst.update(struct.unpack("<%dQ" % (len(d) // 8), d))

    def stage_fuzz(self, exe, gexe):
        c = self.cfg
        runs = c["fuzz"][self.tier]
        nw = c.get("fuzz_workers", 4)
        hid = c.get("harness", self.pid)
        procs, dirs = [], []
        for i in range(nw):
            out = os.path.join(self.work, "f%d" % i)
            os.makedirs(os.path.join(out, "corpus"))
            dirs.append(out)
            rng = hashlib.sha256()
            # seed corpus: pseudo-random streams of several lengths
            for j, ln in enumerate((16, 64, 256, 1024)):
                with open(os.path.join(out, "corpus", "s%d" % j), "wb") as f:
                    buf = b""
                    k = 0
                    while len(buf) < ln:
                        buf += hashlib.sha256(b"%d/%d/%d/%d" % (self.seed, i, j, k)).digest()
                        k += 1
                    f.write(buf[:ln])
            env = dict(self.env, VF_OUT=out, VF_ID=hid)
            procs.append(self.popen([exe, "-runs=%d" % (runs // nw), "-seed=%d" % (self.seed * 100 + i + 1), "-max_len=%d" % c.get("fuzz_len", 2048),
                                     "-len_control=20", "-use_value_profile=1", "-timeout=60", "-rss_limit_mb=4000", "-print_final_stats=1",
                                     "-max_total_time=%d" % (60 if self.tier == "quick" else 1500),
                                     "-artifact_prefix=%s/" % out, os.path.join(out, "corpus")], env, os.path.join(out, "log")))
        self.wait(procs, 300 if self.tier == "quick" else 4000)
        tot, cov, feats, corp = 0, 0, 0, 0
        for i, (p, out) in enumerate(zip(procs, dirs)):
            log = open(os.path.join(out, "log"), errors="replace").read()
            m = re.search(r"stat::number_of_executed_units:\s+(\d+)", log)
            tot += int(m.group(1)) if m else 0
            ms = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", log)
            if ms:
                cov, feats, corp = max(cov, int(ms[-1][0])), max(feats, int(ms[-1][1])), corp + int(ms[-1][2])
            if p.returncode == 0:
                continue
            if getattr(p, "timed_out", False):
                self.notes.append("a fuzz worker was stopped by its wall-clock limit")
                continue
            arts = [f for f in os.listdir(out) if re.match(r"(crash|timeout|oom)-", f)]
            if not arts:
                self.notes.append("fuzz worker ended with %s without artifact: %s" % (p.returncode, log[-300:]))
                continue
            art = os.path.join(out, arts[0])
            # confirm in the primary build (fresh process)
            p2, log2 = self.replay(gexe, art, "f%d" % i, cpu=60)
            if p2.returncode == 0 and arts[0].startswith("crash"):
                # confirm in the clang build
                log3p = os.path.join(self.work, "fr%d.log" % i)
                p3 = self.popen([exe, art], dict(self.env, VF_OUT=out, VF_ID=hid), log3p)
                self.wait([p3], 300)
                log3 = open(log3p, errors="replace").read()
                if p3.returncode != 0 and "timeout" not in arts[0]:
                    m = re.search(r"VF-VIOLATION key=(.*?) file=(\S+) msg=(.*)", log3)
                    self.violation((m.group(1) + ": " + m.group(3)[:1500]) if m else self.pid + ":crash: " + crash_summary(log3), self.save_replay(art, "fuzz%d" % i), log3)
                else:
                    self.notes.append("fuzz artifact not reproducible, ignored: " + arts[0])
            elif p2.returncode == 0:
                self.notes.append("fuzz artifact not reproducible (resource limit), ignored: " + arts[0])
            else:
                m = re.search(r"VF-VIOLATION key=(.*?) file=(\S+) msg=(.*)", log2)
                self.violation((m.group(1) + ": " + m.group(3)[:1500]) if m else self.pid + (":hang: " if p2.returncode == 77 else ":crash: ") + crash_summary(log2), self.save_replay(art, "fuzz%d" % i), log2)
        self.fuzz = dict(executions=tot, edges=cov, features=feats, corpus=corp)

    def stage_valgrind(self, exe):
        c = self.cfg
        n = c["valgrind"][self.tier]
        if not n:
            return
        hid = c.get("harness", self.pid)
        procs = []
        for i in range(8):
            out = os.path.join(self.work, "v%d" % i)
            os.makedirs(out)
            env = dict(self.env, VF_OUT=out, VF_CPU_LIMIT="900")
            procs.append(self.popen(["valgrind", "--error-exitcode=99", "--leak-check=no", "--exit-on-first-error=yes", "-q", exe, "run", hid,
                                     str(self.seed + 777), str(i + 1), str(max(1, n // 8))], env, os.path.join(out, "log")))
        self.wait(procs, 3000)
        done = 0
        for i, p in enumerate(procs):
            out = os.path.join(self.work, "v%d" % i)
            log = open(os.path.join(out, "log"), errors="replace").read()
            sp = os.path.join(out, "stats-w%d.json" % (i + 1))
            if os.path.exists(sp):
                done += json.load(open(sp))["evals"]
            if p.returncode == 0:
                continue
            if getattr(p, "timed_out", False):
                self.notes.append("a valgrind worker was stopped by its wall-clock limit")
            elif "Conditional jump" in log or "Use of uninit" in log or "Invalid read" in log or "Invalid write" in log or "Invalid free" in log:
                self.violation(self.pid + ":memcheck: " + " | ".join(log.splitlines()[:6])[:900], self.save_replay(None, "vg%d" % i), log)
            elif "VF-VIOLATION" in log:
                m = re.search(r"VF-VIOLATION key=(.*?) file=(\S+) msg=(.*)", log)
                self.violation(m.group(1) + ": " + m.group(3)[:900], self.save_replay(m.group(2), "vg%d" % i), log)
            else:
                self.notes.append("valgrind worker ended with %s: %s" % (p.returncode, log[-300:]))
        self.vg = dict(executions=done)

    def stage_mt(self, exe):
        c = self.cfg
        rounds = c["rounds"][self.tier]
        for rep in range(c["repeats"][self.tier]):
            out = os.path.join(self.work, "mt%d" % rep)
            os.makedirs(out)
            env = dict(self.env, VF_OUT=out)
            log = os.path.join(out, "log")
            p = self.popen([exe, "mt", str(self.seed * 31 + rep), str(rounds), "8"] + MT_IDS, env, log)
            self.wait([p], 800 if self.tier == "quick" else 6000)
            self.collect(out, 0)
            if p.returncode == 0:
                continue
            lg = open(log, errors="replace").read()
            if getattr(p, "blocked", False):
                self.violation("C29:hang: all threads of the multi-threaded run sleep for good (deadlock)", self.save_replay(None, "mt%d" % rep), lg)
                return
            if getattr(p, "timed_out", False):
                raise CheckError("multi-threaded run timed out (inconclusive)")
            m = re.search(r"VF-VIOLATION key=(.*?) file=(\S+) msg=(.*)", lg)
            if "ThreadSanitizer" in lg:
                rp = self.save_replay(None, "tsan%d" % rep)
                self.violation("C29:race: " + crash_summary(lg) + race_sites(lg), rp, lg)
            elif m:
                # does the same case fail without concurrency?
                hid = m.group(1).split(":")[1]
                if hid in MT_IDS:
                    p2, _ = self.replay(exe, m.group(2), "mt%d" % rep, hid=hid)
                    if p2.returncode != 0:
                        self.notes.append("case fails single-threaded too: not an interference, left to " + hid)
                        continue
                self.violation(m.group(1) + ": " + m.group(3)[:1500], self.save_replay(m.group(2), "mt%d" % rep), lg)
            elif re.search(r"VF-SIGNAL|VF-DUMP", lg):
                self.violation("C29:crash: " + crash_summary(lg), self.save_replay(None, "mt%d" % rep), lg)
            else:
                raise CheckError("multi-threaded run ended with %s: %s" % (p.returncode, lg[-1500:]))
            return

    def evidence(self):
        s = self.stats
        c = dict(evaluations=s["evals"] + (self.fuzz or {}).get("executions", 0) + (self.vg or {}).get("executions", 0),
                 distinct_nontrivial=len(self.sigs), rule=self.cfg["rule"], samples=s["samples"][:12],
                 generated_cases=s["evals"], nontrivial_cases=s["nontrivial"], events=s["counters"],
                 program_points_reached=len(self.pcs), longest_case_steps=s["maxsteps"],
                 hooked_exits_observed=s["exits"], leak_oracle_evaluations=s["leakchecks"])
        if self.fuzz:
            c["coverage_guided"] = self.fuzz
        if self.vg:
            c["memcheck"] = self.vg
        if self.notes:
            c["notes"] = self.notes
        if self.violations:
            c["violation_messages"] = [m for m, _ in self.violations]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration", coverage=c,
                  assumptions=self.cfg.get("assumptions", []) + [
                      "held on the executions counted here, not proved for all",
                      "exit() is observed through a force-included macro; sanitizer and libstdc++ runtimes are trusted"],
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def main(self):
        try:
            c = self.cfg
            if c.get("kind") == "mt":
                self.stage_mt(build("tsan", sorted(set(PROPS[i].get("file", i) for i in MT_IDS)), self.work))
            elif c.get("kind") == "shared":
                self.stage_workers(build("tsan", [self.pid], self.work, c.get("libs")))
            else:
                hf = [c.get("file", self.pid)]
                only = c.get("libs")
                with cf.ThreadPoolExecutor(3) as ex:
                    fg = ex.submit(build, "asan", hf, self.work, only)
                    want_fuzz = c.get("fuzz", {}).get(self.tier, 0) and shutil.which("clang++")
                    ff = ex.submit(build, "fuzz", hf, self.work, only) if want_fuzz else None
                    want_vg = c.get("valgrind", {}).get(self.tier, 0) and shutil.which("valgrind")
                    fv = ex.submit(build, "plain", hf, self.work, only) if want_vg else None
                    exe = fg.result()
                    fexe = None
                    if ff:
                        try:
                            fexe = ff.result()
                        except CheckError as e:
                            self.notes.append("clang build not available, coverage-guided workload skipped: " + str(e)[-400:])
                    vexe = fv.result() if fv else None
                self.stage_workers(exe)
                if fexe and not self.violations:
                    self.stage_fuzz(fexe, exe)
                if vexe and not self.violations:
                    self.stage_valgrind(vexe)
            if not self.violations:
                if self.stats["evals"] == 0 or len(self.sigs) < 2:
                    raise CheckError("nothing was observed")
            self.evidence()
        finally:
            if not os.environ.get("VF_KEEP"):
                shutil.rmtree(self.work, ignore_errors=True)
            else:
                print("work kept in", self.work)
        for k, text in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        for n in self.notes:
            print("note:", n)
        s = self.stats
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, fuzz %s, %d program points, %.1fs" % (
            self.pid, self.tier, self.seed, s["evals"], len(self.sigs), (self.fuzz or {}).get("executions", 0), len(self.pcs), time.time() - self.t0))
        for msg, rp in self.violations[:8]:
            print("  " + msg.replace("\n", " "))
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0][1]))
            return 1
        return 0


def main():
    if len(sys.argv) == 4 and sys.argv[1] == "replay":
        pid = sys.argv[2]
        r = Run(pid, "quick")
        try:
            exe = build("asan", [r.cfg.get("file", pid)], r.work, r.cfg.get("libs"))
            p, log = r.replay(exe, os.path.abspath(sys.argv[3]), "r")
            print(log)
            return p.returncode
        finally:
            shutil.rmtree(r.work, ignore_errors=True)
    pid, tier = sys.argv[1], sys.argv[2]
    return Run(pid, tier).main()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR:", e)
        sys.exit(2)
