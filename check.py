#!/usr/bin/env python3
"""Deterministic simulation of ssp: build the simulator from /repo's working tree and search seeds.

  check.py run PROPERTY          decide one property (VERIF_SEED, VERIF_TIER from the environment)
  check.py replay FILE [-v]      run a replay file again
  check.py build                 compile everything once (setup_cmd)

Exit codes: 0 the property held on everything explored, 1 violation (with a line
VIOLATION property=<id> replay=<path>), 2 the check could not decide.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SSP_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
CORES = min(8, os.cpu_count() or 1)
NCFG = 18
CXX = "clang++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
LINK = "-Wl," + ",".join("--wrap=" + f for f in ("fopen", "fclose", "pthread_mutex_lock", "__cxa_guard_acquire",
                                                "__cxa_guard_release", "__cxa_guard_abort"))
# preemption points for C13: every basic block and memory access of the library
# no vptr checks: they leave by way of a cache whose state depends on addresses, which would make the steps do so
STEPS = ["-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-sanitize=vptr"]
# counts basic blocks, for C14
WORK = ["-fsanitize-coverage=edge,trace-pc-guard", "-fno-sanitize=vptr"]
CORE = ["core", "exec", "gen", "props", "main", "model"]

# operations compiled into the simulator: 1 rows, 2 chains, 4 iteration, 8 header, 16 converter/splitter, 32 moves
OPS = {"C01": 15, "C02": 15, "C05": 15, "C19": 15, "C17": 13, "C09": 43, "C18": 16,
       "C03": 47, "C06": 47, "C07": 47, "C08": 47, "C10": 47, "C11": 47, "C12": 47, "C14": 47,
       "C04": 63, "C13": 63, "C15": 63, "C16": 63}
# runs per worker (8 workers) in the quick tier; about 15 s on the machine this was made on
RUNS = {"C01": 26000, "C02": 7000, "C03": 36000, "C04": 32000, "C05": 22000, "C06": 10000, "C07": 26000, "C08": 22000,
        "C09": 22000, "C10": 24000, "C11": 14000, "C12": 16000, "C13": 4000, "C14": 24000, "C15": 28000, "C16": 20000,
        "C17": 16000, "C18": 24000, "C19": 3600}
QUICK_S, THOROUGH_S = 30, 600

# how the plan of a property may be shrunk: tasks are variants of each other (same), or independent (free)
TASKS_FREE = {"C13"}

# option sets compiled in (see sim/configs.def); plans only use those there are
C16_CFGS = [0, 1, 3, 6, 7, 8, 9, 10, 11, 13, 14, 15, 17]
NOFAST_CFGS = [0, 5, 10, 14]
# properties also decided for the other half of the platform switches: get_line without getline, no fast_float
PORTABLE = ("C01", "C02", "C03", "C04", "C07", "C15", "C19")
PORT_CFGS = [0, 4, 10, 13]

ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:symbolize=0",
           UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C")


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- build
def tree_hash(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def sim_sources():
    return [os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith((".hpp", ".cpp", ".def"))]


def repo_headers():
    return glob.glob(os.path.join(REPO, "include", "ss", "**", "*"), recursive=True)


def compile_all(jobs):
    """jobs: (output, command). Compiled in parallel, skipped if the output exists."""
    def one(job):
        out, cmd = job
        if os.path.exists(out):
            return None
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(cmd + ["-o", tmp], cwd=SIM, capture_output=True, text=True)
        if r.returncode:
            return r.stderr[-3000:] or "compiler ended with %d" % r.returncode
        os.replace(tmp, out)
        return None
    with cf.ThreadPoolExecutor(CORES) as ex:
        for e in ex.map(one, jobs):
            if e:
                raise Undecided("the simulator does not compile:\n" + e)


def prune():
    """keep the cache small"""
    dirs = [d for d in glob.glob(os.path.join(BUILD, "o-*")) if os.path.isdir(d)]
    dirs.sort(key=os.path.getmtime, reverse=True)
    for d in dirs[10:]:
        shutil.rmtree(d, ignore_errors=True)


def build(ops, variant="modular", cfgs=range(NCFG)):
    """variant: committed, generated (single headers), or modular with +nofast, +portable, +steps, +work. Returns the path of the simulator."""
    os.makedirs(BUILD, exist_ok=True)
    prune()
    core_dir = os.path.join(BUILD, "o-core-" + tree_hash(sim_sources(), (CXX,)))
    os.makedirs(core_dir, exist_ok=True)
    jobs, objs = [], []
    base = [CXX, "-std=c++17", "-I" + SIM]
    # the harness itself needs no instrumentation; the seam replaces malloc and must not have any
    for f in CORE + ["seam"]:
        o = os.path.join(core_dir, f + ".o")
        objs.append(o)
        jobs.append((o, base + ["-O1", "-g1"] + (["-DSIM_ASAN=1"] if f == "seam" else []) + ["-c", f + ".cpp"]))
    headers = [p for p in repo_headers() if os.path.isfile(p)]
    flags = base + SAN + ["-O0", "-g1", "-DSIM_OPS=%d" % ops]
    if variant in ("committed", "generated"):
        src = os.path.join(REPO, "ssp.hpp") if variant == "committed" else generated_header()
        headers = [src]
        flags += ['-DSIM_SINGLE_HEADER="%s"' % src]
    else:
        flags += ["-I" + os.path.join(REPO, "include")]
        if "nofast" in variant:
            flags += ["-DSSP_DISABLE_FAST_FLOAT"]
        if "portable" in variant:
            flags += ["-DSIM_PORTABLE"]
        if "steps" in variant:
            flags += STEPS
        elif "work" in variant:
            flags += WORK
    d = os.path.join(BUILD, "o-" + tree_hash(headers + sim_sources(), (flags, variant, list(cfgs))))
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    os.utime(core_dir)
    cfg_jobs = []
    for i in cfgs:
        o = os.path.join(d, "cfg%d.o" % i)
        objs.append(o)
        cfg_jobs.append((o, flags + ["-DCFG_ID=%d" % i, "-c", "cfg_tu.cpp"]))
    compile_all(list(reversed(cfg_jobs)) + jobs)  # the big ones first
    exe = os.path.join(d, "sim")
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX] + SAN + objs + [LINK, "-lpthread", "-o", tmp],
                           capture_output=True, text=True)
        if r.returncode:
            raise Undecided("the simulator does not link:\n" + r.stderr[-3000:])
        os.replace(tmp, exe)
    return exe


def generated_header():
    """what the generator script makes of the current tree; it runs on a copy"""
    import tempfile
    t = tempfile.mkdtemp(prefix="ssp-gen-")
    try:
        shutil.copytree(os.path.join(REPO, "include"), os.path.join(t, "include"))
        shutil.copytree(os.path.join(REPO, "script"), os.path.join(t, "script"))
        r = subprocess.run([sys.executable, "script/single_header_generator.py"], cwd=t, capture_output=True, text=True)
        if r.returncode:
            raise Undecided("the single header generator fails:\n" + r.stderr[-2000:])
        text = r.stdout
    finally:
        shutil.rmtree(t, ignore_errors=True)
    out = os.path.join(BUILD, "generated-%s.hpp" % hashlib.sha256(text.encode()).hexdigest()[:16])
    with open(out, "w") as f:
        f.write(text)
    return out


# ---------------------------------------------------------------- running
def proc(cmd, timeout):
    """returns (rc, text); rc 'hang' after the timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "hang", ""


def crash_kind(rc, text):
    for line in text.splitlines():
        if "AddressSanitizer:" in line:
            w = line.split("AddressSanitizer:", 1)[1].split()
            kind = w[0] if w else "error"
            if kind in ("requested", "allocator", "failed", "calloc", "out"):
                kind = "allocation-size"
            return "memory-error(%s)" % kind
        if "runtime error:" in line:
            what = line.split("runtime error:", 1)[1].strip()
            return "undefined-behaviour(%s)" % " ".join(w for w in what.split()[:4] if not w.startswith("0x"))
    if rc == "hang" or rc in (-signal.SIGVTALRM, -signal.SIGALRM):
        return "hang"
    if isinstance(rc, int) and rc < 0:
        return "killed(%s)" % signal.Signals(-rc).name
    return "abnormal-end(%s)" % rc


def verdict(rc, text):
    """of one replayed plan: '' holds, else the violation"""
    if rc == 0:
        return ""
    if rc == 1 and "BROKEN " in text:
        return text[text.rindex("BROKEN ") + 7:].strip()
    if rc == 2:
        return "invalid-plan"
    return crash_kind(rc, text) + ": the process ended while the plan was running"


def tag(v):
    return v.split(":", 1)[0]


def show_history(sim, plan_file):
    rc, text = proc([sim, "--replay", plan_file, "-v"], 60)
    return text


class Judge:
    """decides one plan text on freshly started processes"""
    def __init__(self, sims, prop):
        self.sims, self.prop = sims, prop
        self.tmp = os.path.join(BUILD, "try-%s-%d.plan" % (prop, os.getpid()))
        self.count = 0

    def __call__(self, text):
        self.count += 1
        with open(self.tmp, "w") as f:
            f.write(text)
        if self.prop != "C16":
            return verdict(*proc([self.sims[0][1], "--replay", self.tmp], 60))
        res = []
        for name, sim, _ in self.sims:
            rc, out = proc([sim, "--replay", self.tmp, "-h"], 60)
            v = verdict(rc, out)
            h = next((l for l in out.splitlines() if l.startswith("HASH ")), None)
            res.append((name, v if v else h))
        a = res[0]
        for b in res[1:]:
            if a[1] != b[1]:
                def kind(x):
                    return "history" if (x or "").startswith("HASH") else tag(x or "")
                return "headers-differ: the history with the %s headers (%s) is not the one with the %s header (%s)" % (
                    a[0], kind(a[1]), b[0], kind(b[1]))
        if a[1] and not a[1].startswith("HASH"):
            return a[1]
        return ""

    def close(self):
        if os.path.exists(self.tmp):
            os.remove(self.tmp)


# ---------------------------------------------------------------- minimising
class PlanText:
    """a plan as data: head lines, tasks, sched"""
    def __init__(self, text):
        self.head, self.tasks, self.sched = [], [], []
        cur = None
        for l in text.splitlines():
            l = l.split("   #")[0]
            if l.startswith("#") or not l.strip():
                continue
            w = l.split(" ")
            if w[0] == "task":
                cur = {"lines": [], "faults": [], "ops": [], "data": "", "chunks": []}
                self.tasks.append(cur)
            elif w[0] == "endtask":
                cur = None
            elif w[0] == "sched":
                self.sched = [int(x) for x in w[1:] if x]
            elif cur is None:
                self.head.append(l)
            elif w[0] == "fault":
                cur["faults"].append([int(x) for x in w[1:6]])
            elif w[0] == "op":
                cur["ops"].append(w[1:])
            elif w[0] == "data":
                cur["data"] = "" if w[1] == "-" else w[1]
            elif w[0] == "chunks":
                cur["chunks"] = [int(x) for x in w[1:] if x]
            else:
                cur["lines"].append(l)

    def copy(self):
        p = PlanText("")
        p.head = list(self.head)
        p.sched = list(self.sched)
        p.tasks = [{"lines": list(t["lines"]), "faults": [list(f) for f in t["faults"]], "ops": [list(o) for o in t["ops"]],
                    "data": t["data"], "chunks": list(t["chunks"])} for t in self.tasks]
        return p

    def text(self):
        r = list(self.head)
        for t in self.tasks:
            r.append("task")
            r += t["lines"]
            r.append("data " + (t["data"] or "-"))
            r.append("chunks " + " ".join(map(str, t["chunks"])))
            r += ["fault " + " ".join(map(str, f)) for f in t["faults"]]
            r += ["op " + " ".join(o) for o in t["ops"]]
            r.append("endtask")
        r.append("sched" + "".join(" %d" % x for x in self.sched))
        return "\n".join(r) + "\n"


def drop_op(t, i):
    del t["ops"][i]
    kept = []
    for f in t["faults"]:
        if f[0] >= 4:  # located by operation
            if f[1] == i:
                continue
            if f[1] > i:
                f[1] -= 1
        kept.append(f)
    t["faults"] = kept


def minimise(text, judge, want, seconds):
    best = PlanText(text)
    end = time.time() + seconds

    def good(p):
        if time.time() > end:
            return False
        v = judge(p.text())
        return bool(v) and tag(v) == want

    def same(key):
        return len(best.tasks) > 1 and all(t[key] == best.tasks[0][key] for t in best.tasks)

    def attempt(f):
        nonlocal best
        p = best.copy()
        if f(p) is False:
            return False
        if good(p):
            best = p
            return True
        return False

    if not good(best):
        return best.text()
    changed = True
    while changed and time.time() < end:
        changed = False
        # tasks
        if any(("prop " + x) in best.head for x in TASKS_FREE):
            i = len(best.tasks) - 1
            while i >= 0 and len(best.tasks) > 1:
                def f(p, i=i):
                    del p.tasks[i]
                    p.sched = []
                changed |= attempt(f)
                i -= 1
        # operations, from the end, in halves first
        for ti in range(len(best.tasks)):
            together = same("ops")
            if together and ti:
                break
            size = max(1, len(best.tasks[ti]["ops"]) // 2)
            while size >= 1:
                i = len(best.tasks[ti]["ops"]) - size
                while i >= 0:
                    def f(p, i=i, size=size):
                        for t in (p.tasks if together else [p.tasks[ti]]):
                            for _ in range(size):
                                if i < len(t["ops"]):
                                    drop_op(t, i)
                    if len(best.tasks[ti]["ops"]) >= i + size:
                        changed |= attempt(f)
                    i -= size
                size //= 2
        # faults, chunks
        for ti in range(len(best.tasks)):
            for i in reversed(range(len(best.tasks[ti]["faults"]))):
                def f(p, i=i):
                    row = p.tasks[ti]["faults"][i]
                    n = 0
                    for t in p.tasks:
                        if row in t["faults"] and (t is p.tasks[ti] or same("ops")):
                            t["faults"].remove(row)
                            n += 1
                    return n > 0
                changed |= attempt(f)
            if best.tasks[ti]["chunks"]:
                def f(p):
                    p.tasks[ti]["chunks"] = []
                changed |= attempt(f)
        # data
        for ti in range(len(best.tasks)):
            together = same("data")
            if together and ti:
                break
            n = len(best.tasks[ti]["data"]) // 2
            size = max(1, n // 2)
            while size >= 1 and time.time() < end:
                i = len(best.tasks[ti]["data"]) // 2 - size
                while i >= 0 and time.time() < end:
                    def f(p, i=i, size=size):
                        for t in (p.tasks if together else [p.tasks[ti]]):
                            t["data"] = t["data"][:2 * i] + t["data"][2 * (i + size):]
                    changed |= attempt(f)
                    i -= size
                size //= 2
        # strings of operations
        for ti in range(len(best.tasks)):
            for i in range(len(best.tasks[ti]["ops"])):
                w = best.tasks[ti]["ops"][i]
                for k in (3, 4):
                    if k >= len(w) or w[k] == "-" or int(w[0]) < 13:
                        continue
                    size = max(1, len(w[k]) // 4)
                    while size >= 1 and time.time() < end:
                        j = len(best.tasks[ti]["ops"][i][k]) // 2 - size
                        while j >= 0:
                            def f(p, j=j, size=size):
                                s = p.tasks[ti]["ops"][i][k]
                                if s == "-":
                                    return False
                                p.tasks[ti]["ops"][i][k] = (s[:2 * j] + s[2 * (j + size):]) or "-"
                            changed |= attempt(f)
                            j -= size
                        size //= 2
        # schedule: take the default choice
        if len(best.sched) > 2:
            size = max(1, len(best.sched) // 2)
            while size >= 1 and time.time() < end:
                i = (len(best.sched) - size) // 2 * 2
                while i >= 0 and time.time() < end:
                    def f(p, i=i, size=size):
                        del p.sched[i:i + max(2, size // 2 * 2)]
                    if len(best.sched) > 2:
                        changed |= attempt(f)
                    i -= max(2, size // 2 * 2)
                size //= 2
    return best.text()


# ---------------------------------------------------------------- known findings
def known_findings():
    """open findings: id -> list of (key, what). A line is
    open: property=<id> key=<text every message of this finding starts with> | <what fails>"""
    r = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("open: property="):
                rest = l[len("open: property="):].strip()
                prop, rest = rest.split(" ", 1)
                key, what = rest[len("key="):].split(" | ", 1)
                r.setdefault(prop, []).append((key, what))
    return r


# ---------------------------------------------------------------- one check
def run_workers(sim, prop, base, runs, secs, out, hashes=False):
    procs = []
    for w in range(CORES):
        o = "%s.%d" % (out, w)
        for ext in ("seed", "plan", "msg", "json", "hashes", "sample"):
            if os.path.exists(o + "." + ext):
                os.remove(o + "." + ext)
        log = open(o + ".log", "wb")
        cmd = [sim, "--worker", prop, str(base), str(w), str(CORES), str(runs), str(secs), o] + (["hashes"] if hashes else [])
        procs.append((w, o, log, subprocess.Popen(cmd, stdout=log, stderr=log, env=ENV, start_new_session=True)))
    res = []
    end = time.time() + secs + 180
    for w, o, log, p in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "hang"
        log.close()
        res.append((w, o, rc))
    return res


def failing_plans(sim, prop, base, results):
    """the plans of the failing seeds"""
    fails, twice = [], None
    for w, o, rc in results:
        if rc == 0:
            continue
        text = open(o + ".log", "rb").read().decode("utf-8", "replace")
        if rc == 3:
            twice = text.strip()[-200:]
            continue
        seed, active = struct.unpack("QQ", open(o + ".seed", "rb").read(16))
        if rc == 1 and os.path.exists(o + ".plan"):
            fails.append((seed, base, open(o + ".plan").read(), open(o + ".msg").read()))
        else:
            if not active:
                raise Undecided("a worker ended with %s outside of a run:\n%s" % (rc, text[-2000:]))
            prc, plan = proc([sim, "--plan", prop, str(seed)], 60)
            if prc != 0:
                raise Undecided("cannot make the plan of seed %d" % seed)
            fails.append((seed, base, plan, crash_kind(rc, text) + ": the process ended while the plan was running"))
    if twice and not fails:
        raise Undecided("one seed gave two different executions (%s)" % twice)
    return fails


def with_earlier(sim, prop, seed, base, judge):
    """a plan which fails only after other plans were run in the same process: find the ones it needs"""
    w = (seed - base * 1000000007) % CORES
    k = (seed - base * 1000000007 - w) // CORES
    n = 1
    while True:
        n = min(n, k)
        rc, text = proc([sim, "--plan", prop, str(seed - n * CORES), str(n + 1), str(CORES)], 120)
        plans = ["simplan" + x for x in text.split("simplan")[1:]]
        v = judge("".join(plans)) if plans else ""
        if v:
            break
        if n >= min(k, 2000):
            return "", ""
        n *= 4
    end = time.time() + 60
    step = max(1, len(plans) // 2)
    while step and time.time() < end:
        i = 0
        while i < len(plans) - 1 and time.time() < end:
            cut = plans[:i] + plans[min(i + step, len(plans) - 1):]
            if len(cut) < len(plans) and tag(judge("".join(cut))) == tag(v):
                plans = cut
            else:
                i += step
        step //= 2
    return "".join(plans), judge("".join(plans))


def report(prop, sims, seed, base, plan, msg, known):
    judge = Judge(sims, prop)
    try:
        v = judge(plan)
        if v:
            small = minimise(plan, judge, tag(v), 60)
        else:
            plan, v = with_earlier(sims[0][1], prop, seed, base, judge)
            small = plan
            if not v:
                raise Undecided("seed %d failed (%s) but its plan does not fail when replayed" % (seed, msg[:300]))
        v1, v2 = judge(small), judge(small)
        if not v1 or v1 != v2:
            small = plan
            v1, v2 = judge(small), judge(small)
            if not v1 or v1 != v2:
                raise Undecided("the replay of seed %d is not repeatable: %s / %s" % (seed, v1[:200], v2[:200]))
    finally:
        judge.close()
    for key, what in known:
        if v1.startswith(key):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
            return False
    d = os.path.join(BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.plan" % (prop, seed))
    with open(path, "w") as f:
        f.write("".join("# " + l + "\n" for l in ("seed %d" % seed + "\n" + v1).splitlines()) + small)
    print(v1)
    print(show_history(sims[0][1], path)[:6000])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return True


RULES = {
    "C01": "a run reads one generated data set with a generated call history and no failure; every step is compared with the model; non-trivial: at least one row was read successfully",
    "C02": "the same data and history under five deliveries (buffer, file, three chunkings / stdio buffers / stalls); non-trivial: at least one row was read",
    "C03": "a run injects a read, open or close failure at a generated offset; non-trivial: the failure fired or a row was read before it",
    "C04": "a run injects allocation failures or stale errno values at generated points; non-trivial: an allocation failed or errno was left set",
}
DEFAULT_RULE = "plans (data, options, error mode, call history, delivery, faults, schedule) are generated from the seed; non-trivial: the behaviour the property is about occurred in the run; distinct by the hash of the observed history"
REAL = ["ss::parser, ss::converter, ss::splitter, extraction, restrictions and setup (headers of the working tree, ASan+UBSan)",
        "glibc stdio (getline, fclose, setvbuf buffering) on a cookie stream", "malloc/free of the sanitizer runtime behind the counting seam",
        "fast_float"]
STUB = ["fopen: opens the simulated source instead of a file", "read/close system calls: answered from the plan",
        "clock: simulated milliseconds of stalls", "thread scheduler: one task runs at a time, the plan chooses which"]


def simulators(prop):
    """(name, simulator, share of the runs): one after another; for C16 the histories are compared"""
    ops = OPS[prop]
    if prop == "C16":
        sims = [("modular", build(ops, "modular", C16_CFGS), 1), ("committed single", build(ops, "committed", C16_CFGS), 1)]
        with open(generated_header(), "rb") as f, open(os.path.join(REPO, "ssp.hpp"), "rb") as g:
            if f.read() != g.read():
                sims.append(("generated single", build(ops, "generated", C16_CFGS), 1))
        return sims
    if prop == "C13":
        return [("modular, preempted anywhere", build(ops, "modular+steps"), 1),
                ("modular, preempted anywhere, without fast_float", build(ops, "modular+steps+nofast", NOFAST_CFGS), 0.3)]
    if prop == "C14":
        return [("modular, steps counted", build(ops, "modular+work"), 1)]
    sims = [("modular", build(ops), 1)]
    if prop in PORTABLE:
        sims.append(("modular, portable line reading, without fast_float",
                     build(ops, "modular+nofast+portable", PORT_CFGS), 0.33))
    return sims


def run(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    quick = tier != "thorough"
    secs = QUICK_S if quick else THOROUGH_S
    runs = RUNS[prop] if quick else RUNS[prop] * 200
    sims = simulators(prop)
    t_build = time.time() - t0
    out = os.path.join(BUILD, "w-%s-%d" % (prop, os.getpid()))
    t1 = time.time()
    reached = {}
    stats, faults, hashes, samples, fails, per_seed = {}, {}, set(), [], [], []
    fail_sims = sims
    for phase, (name, sim, share) in enumerate(sims):
        base = seed + (0 if prop == "C16" else 1000 * phase)
        res = run_workers(sim, prop, base, int(runs * share), secs, out, hashes=prop == "C16")
        table = {}
        for w, o, rc in res:
            if os.path.exists(o + ".json"):
                j = json.load(open(o + ".json"))
                for k, v in j.items():
                    if k in ("faults", "reached"):
                        into = faults if k == "faults" else reached
                        for a, b in v.items():
                            into[a] = into.get(a, 0) + b
                    elif k == "max_work":
                        stats[k] = max(stats.get(k, 0), v)
                    elif k != "last":
                        stats[k] = stats.get(k, 0) + v
            if os.path.exists(o + ".hashes"):
                raw = open(o + ".hashes", "rb").read()
                hs = struct.unpack("%dQ" % (len(raw) // 8), raw)
                hashes.update(hs)
                for i, h in enumerate(hs):
                    table[base * 1000000007 + w + i * CORES] = h
            if os.path.exists(o + ".sample") and len(samples) < 2:
                samples.append(open(o + ".sample").read()[:3000])
        per_seed.append(table)
        f = failing_plans(sim, prop, base, res)
        if f:
            fails += f
            if prop != "C16":
                fail_sims = [(name, sim, 1)]
        for ext in ("seed", "plan", "msg", "json", "hashes", "sample", "log"):
            for w in range(CORES):
                p = "%s.%d.%s" % (out, w, ext)
                if os.path.exists(p):
                    os.remove(p)
        if fails:
            break
    compared = 0
    if prop == "C16" and not fails:
        for other in per_seed[1:]:
            both = sorted(set(per_seed[0]) & set(other))
            compared += len(both)
            for s in both:
                if per_seed[0][s] != other[s]:
                    rc, plan = proc([sims[0][1], "--plan", prop, str(s)], 60)
                    fails.append((s, seed, plan, "headers-differ"))
                    break
    t_run = time.time() - t1
    known = known_findings().get(prop, [])
    violations = 0
    fails.sort(key=lambda f: f[0])
    if fails:
        undecided = None
        for s, b, plan, msg in fails:
            try:
                if report(prop, fail_sims, s, b, plan, msg, known):
                    violations = 1
                    break
            except Undecided as e:
                undecided = e
        if undecided and not violations:
            raise undecided
    else:
        for key, what in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    n = stats.get("runs", 0)
    cov = {
        "evaluations": n,
        "distinct_nontrivial": min(len(hashes), n) if prop != "C16" else min(len(hashes), stats.get("nontrivial", 0)),
        "rule": RULES.get(prop, DEFAULT_RULE),
        "samples": samples or ["(no sample: stopped early)"],
        "exhaustive": False,
        "seeds": "seed k of worker w is VERIF_SEED*1000000007 + w + 8*k",
        "runs_per_hour": int(n / max(t_run, 0.01) * 3600),
        "seeds_per_hour": int(n / max(t_run, 0.01) * 3600),
        "search_s": round(t_run, 2),
        "build_s": round(t_build, 2),
        "parser_executions": stats.get("executions", 0),
        "operations": stats.get("ops", 0),
        "nontrivial_runs": stats.get("nontrivial", 0),
        "simulated_time_ms": stats.get("sim_ms", 0),
        "simulated_reads": stats.get("reads", 0),
        "scheduler_yield_points": stats.get("yield_points", 0),
        "scheduler_switches": stats.get("switches", 0),
        "preemptions_inside_the_library": stats.get("preemptions", 0),
        "most_steps_per_byte_of_one_call": stats.get("max_work", 0),
        "phases": [x[0] for x in sims],
        "faults_injected": faults,
        "situations_reached": {k: v for k, v in reached.items() if v},
        "events": {k: stats.get(k, 0) for k in ("events_ok", "events_error", "events_oom", "events_user")},
        "determinism_rechecks": stats.get("rechecked", 0),
        "rescheduled": stats.get("rescheduled", 0),
        "distinct_measure": "hash of the complete observed history (statuses, values, error texts, callbacks, eof, line, position)",
        "real_components": REAL,
        "stub_components": STUB,
    }
    if prop == "C16":
        cov["header_pairs_compared"] = compared
        cov["headers"] = [x[0] for x in sims]
    ev = {"property": prop, "tier": "quick" if quick else "thorough", "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["the reference model in sim/model.cpp states the intended behaviour", "glibc stdio semantics on this platform",
                          "18 option sets x 3 error modes stand for all option sets"],
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d runs (%d distinct non-trivial histories), %d parser executions, %d operations, %.1f s build, %.1f s search, faults %s"
          % (prop, n, cov["distinct_nontrivial"], stats.get("executions", 0), stats.get("ops", 0), t_build, t_run, faults))
    return 1 if violations else 0


def replay(path, verbose):
    head = open(path).read()
    prop = next(l.split()[1] for l in head.splitlines() if l.startswith("prop "))
    sims = simulators(prop)
    if verbose:
        for n, s, _ in sims:
            print("==== %s headers" % n)
            print(show_history(s, path))
    judges = [Judge(sims, prop)] if prop == "C16" else [Judge([x], prop) for x in sims]
    vs = []
    for j in judges:
        v = j("".join(l + "\n" for l in head.splitlines() if not l.startswith("#")))
        j.close()
        print("(%s) %s" % (j.sims[0][0], v or "holds"))
        vs.append(v)
    # a build for only some option sets cannot run every plan
    known = [v for v in vs if v != "invalid-plan"]
    return 2 if not known else 1 if any(known) else 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["run"] and len(a) == 2 and a[1] in RUNS:
            return run(a[1])
        if a[:1] == ["replay"] and len(a) >= 2:
            return replay(a[1], "-v" in a)
        if a == ["build"]:
            build(63)
            return 0
    except Undecided as e:
        print("UNDECIDED: %s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
