#!/usr/bin/env python3
"""Decides one property by deterministic simulation of the current tree of /repo.

    run.py C05                       the registered check (VERIF_SEED, VERIF_TIER)
    run.py C05 --replay FILE         replays one recorded scenario
    run.py C05 --determinism N       runs N seeds twice, in several processes, and compares histories
    run.py --build-only [C05 ...]    only builds

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself is in error.
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, COMMON_REAL, COMMON_STUB  # noqa: E402

BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, ".build"))
JOBS = max(2, os.cpu_count() or 8)
CXX = "g++-13" if shutil.which("g++-13") else "g++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=enum", "-fno-sanitize-recover=undefined"]
WRAPS = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_once", "__cxa_guard_acquire",
         "__cxa_guard_release", "__cxa_guard_abort", "strtod", "atof",
         "localeconv", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "syscall",
         "sched_yield"]
CORE = ["core", "seams", "child", "hl", "gen", "main"]


class Broken(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------ build

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


_content = {}


def content(path):
    if path not in _content:
        try:
            with open(path, "rb") as f:
                _content[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _content[path] = "missing"
    return _content[path]


def parse_deps(path):
    with open(path) as f:
        t = f.read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [x.replace("\\ ", " ") for x in re.findall(r"(?:\\ |\S)+", t)]


def object_valid(obj, cmd):
    """An object is reused only if its command and the contents of everything it was made of match."""
    try:
        with open(obj + ".key") as f:
            key = f.read()
        deps = parse_deps(obj + ".d")
    except OSError:
        return False
    return os.path.exists(obj) and key == sha(" ".join(cmd), *[d + "=" + content(d) for d in deps])


def compile_one(obj, cmd, post=None):
    if object_valid(obj, cmd):
        return None
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return "%s\n%s" % (" ".join(cmd), p.stdout[-4000:])
    if post:
        q = subprocess.run(post, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if q.returncode != 0:
            return "%s\n%s" % (" ".join(post), q.stdout[-4000:])
    deps = parse_deps(obj + ".d")
    with open(obj + ".key", "w") as f:
        f.write(sha(" ".join(cmd), *[d + "=" + content(d) for d in deps]))
    return None


def library_sources():
    with open(os.path.join(REPO, "CMakeLists.txt")) as f:
        t = f.read()
    m = re.search(r"set\(LIBRARY_SOURCES(.*?)\)", t, re.S)
    src = re.findall(r"[\w./-]+\.cpp", m.group(1)) if m else []
    if not src:
        for dp, dn, fn in os.walk(os.path.join(REPO, "src/main/cpp")):
            dn.sort()
            src += [os.path.relpath(os.path.join(dp, f), REPO) for f in sorted(fn)
                    if f.endswith(".cpp") and f != "main.cpp"]
    return src


def build(variant, units, opts, hook=True):
    """Builds the simulator with the library of the current tree; returns the binary."""
    key = variant + ("" if hook else "-nohook")
    bdir = os.path.join(BUILD, key)
    os.makedirs(bdir, exist_ok=True)
    race = variant == "race"
    fast = variant.startswith("fast")  # follows slow runs to their end, sees nothing but the clock
    san = [] if race or fast else SAN
    base = [CXX, "-std=c++23", "-g1", "-O2" if fast else "-O1"] + san + \
           ["-D_GLIBCXX_ASSERTIONS", "-I" + REPO + "/include"]
    if fast:
        base.append("-DSIM_FAST")
    if not variant.endswith("debug") or variant == "ndebug":
        base.append("-DNDEBUG")
    cover = ["-fsanitize-coverage=trace-pc"] + (["-fsanitize=thread"] if race else [])
    redirect = [x for f in ("memcpy", "memmove", "memset", "memcmp", "strlen")
                for x in ("--redefine-sym", "%s=race_%s" % (f, f))] if race else []
    if not hook:
        base.append("-DSIM_NO_ASSERT_HOOK")
    jobs = []
    libobjs, simobjs = [], []
    for s in library_sources():
        o = os.path.join(bdir, "lib_" + s.replace("/", "_") + ".o")
        jobs.append((o, base + cover + ["-MMD", "-MF", o + ".d", "-c", os.path.join(REPO, s), "-o", o],
                     ["objcopy"] + redirect + [o] if race else None))
        libobjs.append(o)
    if opts.get("cli"):
        o = os.path.join(bdir, "cli_main.o")
        jobs.append((o, base + cover + ["-MMD", "-MF", o + ".d", "-c",
                                        os.path.join(REPO, "src/main/cpp/main.cpp"), "-o", o],
                     ["objcopy", "--redefine-sym", "main=ulight_cli_main"] + redirect + [o]))
        libobjs.append(o)
    for u in CORE + (["race"] if race else []) + units:
        o = os.path.join(bdir, "sim_" + u + ".o")
        jobs.append((o, base + ["-I" + HERE + "/sim", "-MMD", "-MF", o + ".d", "-c",
                                os.path.join(HERE, "sim", u + ".cpp"), "-o", o], None))
        simobjs.append(o)
    # long ones first
    jobs.sort(key=lambda j: -os.path.getsize(j[1][-3]) if os.path.exists(j[1][-3]) else 0)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
    if errs:
        if hook:
            log("build with the assertion hook failed, trying without:\n" + errs[0])
            return build(variant, units, opts, hook=False)
        raise Broken("build failed:\n" + "\n".join(errs[:3]))
    wraps = WRAPS + opts.get("wraps", []) + (["malloc", "calloc", "realloc", "posix_memalign"] if race else [])
    exe = os.path.join(bdir, "sim-" + "-".join(units))
    cmd = [CXX, "-no-pie"] + san[:1] + libobjs + simobjs + ["-o", exe, "-lpthread"] + \
          ["-Wl,--wrap=" + w for w in wraps]
    key = sha(" ".join(cmd), *[content_now(o) for o in libobjs + simobjs])
    try:
        if open(exe + ".key").read() == key and os.path.exists(exe):
            return exe
    except OSError:
        pass
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("link failed:\n" + p.stdout[-4000:])
    with open(exe + ".key", "w") as f:
        f.write(key)
    return exe


def content_now(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


# --------------------------------------------------------------------------------------- processes

def classify(err, rc):
    m = re.search(r"ERROR: AddressSanitizer: (\S+)(.*)", err)
    detail = ""
    frames = re.findall(r"#\d+ \S+ in (.*?) (/\S+?:\d+)", err)
    frames = [f for f in frames if "/repo/" in f[1] or REPO in f[1]][:3]
    if frames:
        detail = " at " + " < ".join("%s %s" % (f[0][:80], f[1]) for f in frames)
    f = re.search(r"SIM-FATAL (.*?) :: (.*)", err)
    if f:
        return f.group(1), f.group(2) + detail
    if m:
        if m.group(1) == "ABRT" and "Assertion '" in err:
            a = re.search(r"Assertion '(.*?)' failed", err)
            return "crash:glibcxx-assertion", (a.group(1) if a else "") + detail
        return "crash:" + m.group(1), m.group(2).strip()[:200] + detail
    m = re.search(r"runtime error: (.*)", err)
    if m:
        s = re.sub(r"\d+", "#", m.group(1))[:41]
        return "crash:ubsan:" + s, m.group(1)[:200] + detail
    if "Assertion '" in err:
        return "crash:glibcxx-assertion", err[-300:]
    if "terminate called" in err:
        return "crash:terminate", err[-300:]
    if rc in (96, 95):
        return "infrastructure", err[-300:]
    return "crash:unknown", "exit %s %s" % (rc, err[-300:])


CRASH_MIN = {"crash:glibcxx-assertion"}


def env():
    e = dict(os.environ)
    e.pop("ASAN_OPTIONS", None)
    e.pop("UBSAN_OPTIONS", None)
    e["LC_ALL"] = "C"
    e["MALLOC_PERTURB_"] = "0"
    return e


def cpu_ticks(root):
    """Processor time used so far by a process of ours and its descendants."""
    kids, total = {}, 0
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    a = f.read().rsplit(")", 1)[1].split()
                kids.setdefault(int(a[1]), []).append((int(d), int(a[11]) + int(a[12])))
            except (OSError, IndexError, ValueError):
                pass
    todo = [root]
    flat = {pid: t for l in kids.values() for pid, t in l}
    while todo:
        pid = todo.pop()
        total += flat.get(pid, 0)
        todo += [k for k, _ in kids.get(pid, [])]
    return total


def is_stuck(p):
    """Does a process that gives no answer wait for something, rather than compute?"""
    before = cpu_ticks(p.pid)
    time.sleep(3)
    return p.poll() is None and cpu_ticks(p.pid) - before < 0.05 * 3 * os.sysconf("SC_CLK_TCK")


GIVEN_UP = 93  # the simulator was not willing to follow the run to the end, which its step limit allowed
SLOW = -998
live = set()


def run_cmd(cmd, timeout):
    with tempfile.TemporaryFile() as err, tempfile.TemporaryFile() as out:
        p = subprocess.Popen(cmd, stdout=out, stderr=err, env=env())
        live.add(p)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            stuck = is_stuck(p)
            p.kill()
            p.wait()
            if not stuck:
                return SLOW, "", ""
            return -999, "", "SIM-FATAL stuck :: waits, and gave no answer within %d s of real time" % timeout
        except BaseException:
            p.kill()
            p.wait()
            raise
        finally:
            live.discard(p)
        out.seek(0)
        err.seek(0)
        return rc, out.read().decode("utf-8", "replace"), err.read().decode("utf-8", "replace")


def replay(exe, path, timeout=120, times=2, patience=None):
    """Returns (class, detail, hash) of one fresh process; class is None if the property held."""
    rc, out, err = run_cmd([exe, "replay", "file=" + path, "times=%d" % times] +
                           ([] if patience is None else ["patience=%d" % patience]), timeout)
    if rc in (GIVEN_UP, SLOW):
        return None, "given up: too slow to decide", ""
    res = [json.loads(l[7:]) for l in out.splitlines() if l.startswith("REPLAY ")]
    if rc == 0 and len(res) == times:
        if any(r != res[0] for r in res):
            return "nondeterministic", "two replays in one process differ", ""
        r = res[0]
        return (None if r["ok"] else r["cls"]), r["detail"], r["hash"]
    cls, detail = classify(err, rc)
    return cls, detail, ""


def read_cur(path):
    try:
        with open(path, "rb") as f:
            n = int.from_bytes(f.read(8), "little")
            return f.read(n)
    except OSError:
        return b""


class Search:
    """All workers of one variant."""

    def __init__(self, prop, exe, variant, seed, tier, tmp, conf, workers):
        self.prop, self.exe, self.variant, self.seed = prop, exe, variant, seed
        self.tmp, self.conf, self.tier, self.n = tmp, conf, tier, workers
        self.dict = os.path.join(tmp, "dict")

    def start(self, w, start=0, cap=None):
        cap = self.conf["cap"][self.tier] if cap is None else cap
        out = os.path.join(self.tmp, "%s.%d" % (self.variant, w))
        cmd = [self.exe, "worker", "prop=" + self.prop, "seed=%d" % self.seed, "worker=%d" % w,
               "runs=%d" % self.conf["runs"][self.tier], "start=%d" % start,
               "cap=%d" % cap, "out=" + out, "cur=" + out + ".cur",
               "corpus=" + os.path.join(HERE, "corpus"), "dict=" + self.dict,
               "cold=%d" % (0 if self.conf.get("mixed") and w % 4 else 1)]
        if os.environ.get("SIM_PATIENCE"):
            cmd.append("patience=" + os.environ["SIM_PATIENCE"])
        if self.conf.get("dump"):
            cmd.append("dump-hashes=1")
        err = open(out + ".err", "wb")
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env(), cwd=self.tmp)
        err.close()
        return {"p": p, "out": out, "w": w, "t": time.time(), "cmd": cmd}


def load_known(prop):
    """known_findings.jsonl: {"property","class","match","what","replay"} or fixed entries."""
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                k = json.loads(l[9:])
                if k["property"] == prop:
                    res.append(k)
    return res


def scenario_matches(k, path, cls):
    """A listed finding is one specific scenario: same class and same minimised scenario."""
    if k["class"] != cls:
        return False
    try:
        a = [l for l in open(os.path.join(HERE, k["replay"]), errors="replace") if not l.startswith("scenario")]
        b = [l for l in open(path, errors="replace") if not l.startswith("scenario")]
    except OSError:
        return False
    return a == b


def gate_history(exe, raw, cls0, cmd):
    """A violation that needs the earlier runs of its worker: repeats them, and drops all that are not needed."""
    hist = raw + ".history"
    run_cmd([c for c in cmd if not c.startswith(("out=", "cur="))] +
            ["out=" + raw + ".h", "cur=" + raw + ".hcur", "history=" + hist], 900)
    try:
        with open(hist, errors="surrogateescape") as f:
            runs = re.split(r"(?m)^(?=scenario )", f.read())[1:]
    except OSError:
        return None

    def fails(rs):
        with open(hist, "w", errors="surrogateescape") as f:
            f.write("".join(rs))
        return replay(exe, hist, timeout=300, times=1)
    base = fails(runs)
    if base[0] is None or base[0] in ("infrastructure", "nondeterministic"):
        return None
    deadline = time.time() + 90
    k = 1
    while k < len(runs) and time.time() < deadline:  # a short end of the history usually does
        c = fails(runs[-1 - k:])
        if c[0] == base[0]:
            runs = runs[-1 - k:]
            break
        k *= 2
    block = max(1, len(runs) // 2)
    while time.time() < deadline:
        i = 0
        while i < len(runs) - 1 and time.time() < deadline:
            cand = runs[:i] + runs[min(i + block, len(runs) - 1):]
            if fails(cand)[0] == base[0]:
                runs = cand
            else:
                i += block
        if block == 1:
            break
        block //= 2
    a, b = fails(runs), fails(runs)
    if a[0] != base[0] or a != b:
        return None
    return hist, a[0], a[1] + " (needs the %d runs before it in the same process)" % (len(runs) - 1)


def gate_and_minimise(prop, exe, raw, cls0, conf, cmd):
    """Confirms a violation in fresh processes and minimises it. Returns (path, cls, detail)."""
    times = 2
    a = replay(exe, raw)
    if a[0] == "nondeterministic":  # the library remembers something: only the first run of a process counts
        times = 1
        a = replay(exe, raw, times=1)
    b = replay(exe, raw, times=times)
    if a[0] is None or a[0] != b[0] or a[2] != b[2] or a[0] in ("nondeterministic", "infrastructure"):
        h = gate_history(exe, raw, cls0, cmd)
        if h:
            return h
        raise Broken("a reported violation (%s) does not replay: %r %r (%s)" % (cls0, a, b, raw))
    best, cls, detail = raw, a[0], a[1]
    mini = raw + ".min"
    rc, out, err = run_cmd([exe, "minimise", "file=" + raw, "out=" + mini,
                            "budget=%d" % conf.get("min_budget", 25)], 240)
    if rc == 0 and "MINIMISE ok" in out and os.path.exists(mini):
        a = replay(exe, mini, times=times)
        b = replay(exe, mini, times=times)
        if a[0] == b[0] and a[2] == b[2] and a[0] == cls:
            best, detail = mini, a[1]
    return best, cls, detail


fast_build = threading.Lock()


def follow(variant, exe, raw, conf, tier):
    """Follows a run the search gave up on to its end, in two processes; a class only if they agree."""
    try:
        with fast_build:
            exe = build("fast-debug" if variant == "debug" else "fast", conf["units"], conf.get("opts", {}))
    except Broken as e:
        log("no fast build, the slow run is followed without: " + str(e)[:500])
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.map(lambda _: replay(exe, raw, conf["cap"][tier] + 300, 1, 0), range(2))
    if a == b and a[0] not in ("infrastructure", "nondeterministic"):
        return a[0], a[1]
    return None, ""


def keep_replay(prop, v, path):
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    body = open(path, "rb").read()
    name = os.path.join(rdir, "%s-%s-%s.scn" % (prop, v, hashlib.sha256(body).hexdigest()[:10]))
    with open(name, "wb") as f:
        f.write(body)
    return name


def sim_check(prop, conf, seed, tier, args):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="sim-%s-" % prop, dir=scratch_dir())
    os.environ["SIM_SCRATCH"] = tmp
    try:
        subprocess.run([sys.executable, os.path.join(HERE, "tools/corpus.py"), "dict",
                        os.path.join(tmp, "dict")], check=True)
        with open(os.path.join(HERE, "corpus/dict.txt")) as f, open(os.path.join(tmp, "dict"), "a") as o:
            o.write(f.read())
        variants = conf["variants"]
        exes = {v: build(v, conf["units"], conf.get("opts", {})) for v in variants}
        tb = time.time() - t0
        known = load_known(prop)
        with cf.ThreadPoolExecutor(4) as ex:
            again = list(ex.map(lambda k: replay(exes[k.get("variant", variants[0])],
                                                 os.path.join(HERE, k["replay"]))[0], known))
        known_hit = [k for k, c in zip(known, again) if c == k["class"]]
        # search
        workers = []
        nw = args.workers or JOBS
        per = {v: max(1, nw // len(variants) + (i < nw % len(variants))) for i, v in enumerate(variants)}
        searches = {v: Search(prop, exes[v], v, seed, tier, tmp, conf, per[v]) for v in variants}
        for v in variants:
            for w in range(per[v]):
                x = searches[v].start(w + 100 * variants.index(v))
                x["v"] = v
                workers.append(x)
        began = time.time()
        hard = began + conf["cap"][tier] * 2 + 120
        results, raws, given_up, slow = [], [], 0, []
        pool = cf.ThreadPoolExecutor(4)
        pending = list(workers)
        while pending:
            time.sleep(0.05)
            for x in list(pending):
                rc = x["p"].poll()
                if rc is None:
                    if time.time() > hard:
                        rc = -999 if is_stuck(x["p"]) else SLOW
                        x["p"].kill()
                        x["p"].wait()
                    else:
                        continue
                pending.remove(x)
                if rc == 0:
                    r = json.load(open(x["out"]))
                    r["w"], r["variant"] = x["w"], x["v"]
                    results.append(r)
                    if r["violation"]:
                        cmd = [c for c in x["cmd"] if not c.startswith(("runs=", "cap="))] + \
                            ["runs=%d" % (r["violation"]["run"] + 1), "cap=600"]
                        raws.append((x["v"], x["out"] + ".violation", r["violation"]["cls"], cmd))
                elif rc == GIVEN_UP:
                    # Within its step limit, but more than the simulator follows in a search: a few of these are
                    # followed to the end meanwhile; the worker goes on behind it.
                    given_up += 1
                    index = int(open(x["out"] + ".skip").read())
                    if len(slow) < 2:
                        raw = os.path.join(tmp, "slow%d" % len(slow))
                        with open(raw, "wb") as f:
                            f.write(read_cur(x["out"] + ".cur"))
                        slow.append((x["v"], raw, pool.submit(follow, x["v"], exes[x["v"]], raw, conf, tier)))
                    left = began + conf["cap"][tier] - time.time()
                    if left > 1:
                        y = searches[x["v"]].start(x["w"], index + 1, left)
                        y["v"] = x["v"]
                        pending.append(y)
                        workers.append(y)
                elif rc == SLOW:
                    given_up += 1
                else:
                    err = open(x["out"] + ".err", errors="replace").read()
                    cls, detail = classify(err, rc)
                    if rc == -999:
                        cls, detail = "stuck", "a run waits and does not end in real time"
                    if cls == "infrastructure":
                        raise Broken("worker failed: " + detail)
                    raw = x["out"] + ".violation"
                    with open(raw, "wb") as f:
                        f.write(read_cur(x["out"] + ".cur"))
                    raws.append((x["v"], raw, cls, [c for c in x["cmd"] if not c.startswith("cap=")] + ["cap=600"]))
            if raws and not args.collect:
                # one is enough: stop the others
                deadline = time.time() + 0.5
                while time.time() < deadline and any(x["p"].poll() is None for x in pending):
                    time.sleep(0.05)
                for x in pending:
                    x["p"].kill()
                    x["p"].wait()
                break
        reported = []
        unlisted = 0
        if raws:
            slow = []
        for v, raw, f in slow:
            cls, detail = f.result()
            if cls:
                unlisted += 1
                reported.append((keep_replay(prop, v, raw), cls, detail + " (a slow run, not minimised)"))
                break
        for v, raw, cls0, cmd in raws[: 64 if args.collect else 3]:
            path, cls, detail = gate_and_minimise(prop, exes[v], raw, cls0, conf, cmd)
            if any(scenario_matches(k, path, cls) for k in known):
                continue
            unlisted += 1
            reported.append((keep_replay(prop, v, path), cls, detail))
            if not args.collect:
                break
        wall = time.time() - t0
        evidence(prop, conf, seed, tier, results, raws, unlisted, wall, tb, variants, per, known_hit, given_up)
        for k in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        for name, cls, detail in reported:
            print("  [%s] %s" % (cls, detail[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, name))
        if reported:
            return 1
        runs = sum(r["runs"] for r in results)
        print("%s held: %d simulated runs, %d workers, %.0f s (build %.0f s)"
              % (prop, runs, nw, wall, tb) + (" (%d runs given up as too slow)" % given_up if given_up else ""))
        return 0
    finally:
        for p in list(live):
            p.kill()
        for x in locals().get("workers", []):
            if x["p"].poll() is None:
                x["p"].kill()
                x["p"].wait()
        if not args.keep:
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            log("kept " + tmp)


def scratch_dir():
    d = os.path.join(BUILD, "tmp")
    os.makedirs(d, exist_ok=True)
    return d


def evidence(prop, conf, seed, tier, results, raws, unlisted, wall, tb, variants, per, known_hit, given_up):
    stats = {}
    for r in results:
        for k, n in r["stats"].items():
            stats[k] = stats.get(k, 0) + n
    runs = sum(r["runs"] for r in results)
    search_wall = max([r["wall"] for r in results] + [0.001])
    faults = {k: n for k, n in sorted(stats.items()) if ":" not in k}
    probes = {k: n for k, n in sorted(stats.items()) if ":" in k}
    samples = []
    for r in sorted(results, key=lambda r: r["w"]):
        samples += r["samples"]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sum(r["histories"] for r in results),
        "rule": conf["rule"],
        "samples": samples[:6] or ["(all workers stopped at a violation)"],
        "simulated_runs_per_hour": int(runs / search_wall * 3600),
        "seeds_per_hour": int(runs / search_wall * 3600),
        "master_seed": seed,
        "workers": sum(per.values()),
        "build_variants": variants,
        "simulated_time_steps": sum(r["steps"] for r in results),
        "simulated_time_unit": "executed basic blocks of the code under test (its only clock)",
        "fault_kinds_injected": faults,
        "probes": probes,
        "runs_with_source_damage": sum(r["runs_with_faults"] for r in results),
        "runs_given_up_as_too_slow": given_up,
        "distinct_states_measure": "distinct event histories (hash over every callback, status and fault of a run); "
                                   "coverage points are hashed pairs of consecutive basic blocks, per worker maximum",
        "coverage_points_max": max([r["coverage_points"] for r in results] + [0]),
        "inputs_kept_for_new_coverage": sum(r["pool"] for r in results),
        "real_components": COMMON_REAL + conf.get("real", []),
        "stubbed_components": COMMON_STUB + conf.get("stub", []),
        "build_s": round(tb, 1),
        "known_findings": [k["what"] for k in known_hit],
    }
    write_evidence(prop, tier, seed, cov, wall, unlisted, conf)


def write_evidence(prop, tier, seed, cov, wall, violations, conf):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    e = {"property": prop, "tier": tier, "seed": seed, "level": conf["level"], "coverage": cov,
         "assumptions": conf.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
    p = os.path.join(d, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


# ------------------------------------------------------------------------------------ determinism

def determinism(prop, conf, n, args):
    """Many seeds, each twice, in different processes and at different worker counts."""
    import copy
    conf = copy.deepcopy(conf)
    conf["dump"] = True
    runs = 60
    conf["runs"] = {"quick": runs}
    conf["cap"] = {"quick": 600}
    bad = total = 0
    tmp = tempfile.mkdtemp(prefix="det-", dir=scratch_dir())
    os.environ["SIM_SCRATCH"] = tmp
    try:
        subprocess.run([sys.executable, os.path.join(HERE, "tools/corpus.py"), "dict", os.path.join(tmp, "dict")],
                       check=True)
        for v in conf["variants"]:
            exe = build(v, conf["units"], conf.get("opts", {}))

            def one(seed, tag):
                d = os.path.join(tmp, "%d-%s" % (seed, tag))
                os.makedirs(d)
                shutil.copy(os.path.join(tmp, "dict"), d)
                s = Search(prop, exe, v, seed, "quick", d, conf, 1)
                x = s.start(seed % 7)
                x["p"].wait()
                h = open(x["out"] + ".hashes").read() if os.path.exists(x["out"] + ".hashes") else "none"
                shutil.rmtree(d)
                return h
            with cf.ThreadPoolExecutor(JOBS) as ex:
                a = list(ex.map(lambda s: one(s, "a"), range(n)))
            with cf.ThreadPoolExecutor(3) as ex:
                b = list(ex.map(lambda s: one(s, "b"), range(n)))
            for s in range(n):
                total += 1
                if a[s] != b[s] or a[s] == "none" or not a[s]:
                    bad += 1
                    log("seed %d differs" % s)
        print("%s: %d seeds x %d runs twice, %d differ" % (prop, total, runs, bad))
        return 2 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="*")
    ap.add_argument("--replay")
    ap.add_argument("--log", action="store_true")
    ap.add_argument("--variant")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--collect", action="store_true", help="report every worker's violation")
    ap.add_argument("--determinism", type=int, default=0)
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--cap", type=int, default=0)
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        if args.build_only:
            for p in args.prop or sorted(CHECKS):
                if CHECKS[p].get("kind") != "js":
                    for v in CHECKS[p]["variants"]:
                        log(build(v, CHECKS[p]["units"], CHECKS[p].get("opts", {})))
            return 0
        prop = args.prop[0]
        conf = CHECKS[prop]
        if args.runs:
            conf["runs"][tier] = args.runs
        if args.cap:
            conf["cap"][tier] = args.cap
        if conf.get("kind") == "js":
            import jscheck
            return jscheck.check(prop, conf, seed, tier, args, write_evidence, load_known, Broken)
        if args.variant:
            conf["variants"] = [args.variant]
        if args.determinism:
            return determinism(prop, conf, args.determinism, args)
        if args.replay:
            rc = 0
            for v in conf["variants"]:
                exe = build(v, conf["units"], conf.get("opts", {}))
                if args.log:
                    print(run_cmd([exe, "replay", "file=" + args.replay, "log=1"], 200)[1])
                c = replay(exe, args.replay, timeout=1800, patience=0)
                print(v, c)
                if c[0]:
                    rc = 1
                    print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return rc
        return sim_check(prop, conf, seed, tier, args)
    except Broken as e:
        log("CHECK ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    sys.exit(main())
