"""C17, C18 and C23: simulations of the JavaScript code, with the real library in a process of its own."""
import hashlib
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))


def tools():
    import run
    return sys.modules.get("__main__") if hasattr(sys.modules.get("__main__"), "compile_one") else run


def build(R, Broken):
    """Returns (server binary, layout file)."""
    bdir = os.path.join(R.BUILD, "plain")
    os.makedirs(bdir, exist_ok=True)
    base = [R.CXX, "-std=c++23", "-g1", "-O1", "-DNDEBUG", "-I" + R.REPO + "/include"]
    jobs, objs = [], []
    for s in R.library_sources() + [os.path.join(HERE, "js/server.cpp")]:
        o = os.path.join(bdir, "lib_" + s.strip("/").replace("/", "_") + ".o")
        jobs.append((o, base + ["-MMD", "-MF", o + ".d", "-c", os.path.join(R.REPO, s), "-o", o], None))
        objs.append(o)
    jobs.sort(key=lambda j: -os.path.getsize(j[1][-3]) if os.path.exists(j[1][-3]) else 0)
    with cf.ThreadPoolExecutor(R.JOBS) as ex:
        errs = [e for e in ex.map(lambda j: R.compile_one(*j), jobs) if e]
    if errs:
        raise Broken("build failed:\n" + "\n".join(errs[:3]))
    exe = os.path.join(bdir, "server")
    p = subprocess.run([R.CXX] + objs + ["-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken("link failed:\n" + p.stdout[-3000:])
    # the memory layout of the module: the header, compiled for its target
    stub = os.path.join(bdir, "stub")
    os.makedirs(stub, exist_ok=True)
    for h in ("stdlib.h", "stdbool.h", "stdint.h"):
        with open(os.path.join(stub, h), "w") as f:
            f.write("#include <stddef.h>\n" if h == "stdlib.h" else "#include_next <%s>\n" % h)
    clang = shutil.which("clang++") or shutil.which("clang++-18") or "clang++"
    res = subprocess.run([clang, "-print-resource-dir"], stdout=subprocess.PIPE, text=True).stdout.strip()
    p = subprocess.run([clang, "--target=wasm32", "-ffreestanding", "-nostdinc", "-isystem", res + "/include",
                        "-I" + stub, "-std=c++20", "-w", "-I" + R.REPO + "/include", "-S", "-emit-llvm", "-o", "-",
                        os.path.join(HERE, "js/layout.cpp")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    lay = {m.group(1): int(m.group(2)) for m in
           re.finditer(r"@(\w+) = (?:hidden |dso_local )*constant i32 (-?\d+)", p.stdout)}
    if p.returncode or len(lay) < 40:
        raise Broken("the layout for wasm32 cannot be determined:\n" + p.stderr[-3000:])
    path = os.path.join(bdir, "layout.json")
    with open(path + ".%d" % os.getpid(), "w") as f:
        json.dump(lay, f)
    os.replace(path + ".%d" % os.getpid(), path)
    return exe, path


class Proc:
    """One node process and its library process."""
    ids = itertools.count()

    def __init__(self, R, exe, layout, tmp, prop, **kw):
        n = next(Proc.ids)
        to = os.path.join(tmp, "to%d" % n)
        fr = os.path.join(tmp, "from%d" % n)
        os.mkfifo(to)
        os.mkfifo(fr)
        a = dict(prop=prop, layout=layout, to=to, repo=R.REPO, corpus=os.path.join(HERE, "corpus"), **kw)
        a["from"] = fr
        self.server = subprocess.Popen(["sh", "-c", 'exec "$0" <"$1" >"$2"', exe, to, fr], stderr=subprocess.DEVNULL)
        self.err = open(os.path.join(tmp, "err%d" % n), "w+")
        env = {k: v for k, v in os.environ.items() if not k.startswith("NODE_")}
        self.node = subprocess.Popen(["node", "--no-warnings", "--experimental-vm-modules", "--max-old-space-size=2000",
                                      os.path.join(HERE, "js/main.mjs"), json.dumps(a)],
                                     stdout=subprocess.PIPE, stderr=self.err, text=True, env=env, cwd=tmp)

    def finish(self, timeout):
        try:
            out = self.node.communicate(timeout=timeout)[0]
            rc = self.node.returncode
        except subprocess.TimeoutExpired:
            self.node.kill()
            out, rc = self.node.communicate()[0], -999
        self.kill()
        self.err.seek(0)
        return rc, out, self.err.read()[-3000:]

    def kill(self):
        for p in (self.node, self.server):
            if p.poll() is None:
                p.kill()
            p.wait()


def check(prop, conf, seed, tier, args, write_evidence, load_known, Broken):
    R = tools()
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="sim-%s-" % prop, dir=R.scratch_dir())
    procs = []

    def start(**kw):
        p = Proc(R, exe, layout, tmp, prop, **kw)
        procs.append(p)
        return p

    def replay(path, log=False):
        rc, out, err = start(mode="replay", file=path, log=log).finish(30)
        m = re.search(r"^REPLAY (.*)$", out, re.M)
        if rc != 0 or not m:
            if rc == -999:
                return ("hang", "the scripts do not return", "", "")
            return ("infrastructure", err, "", out)
        a, b = json.loads(m.group(1))
        if a != b:
            return ("nondeterministic", "two replays differ: %r %r" % (a, b), "", out)
        return (a["cls"], a["detail"], a["hash"], out)
    try:
        exe, layout = build(R, Broken)
        tb = time.time() - t0
        if args.replay:
            c = replay(os.path.abspath(args.replay), args.log)
            print(c[3] if args.log else c[:3])
            if c[0]:
                print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1 if c[0] else 0
        if args.determinism:
            bad = 0
            for s in range(args.determinism):
                hs = []
                for tag in "ab":
                    out = os.path.join(tmp, "det%d%s" % (s, tag))
                    start(mode="worker", seed=s, worker=s % 7, runs=60, cap=600, out=out, hashes=True).finish(700)
                    hs.append(json.load(open(out))["hashes"])
                bad += hs[0] != hs[1] or not hs[0]
            print("%s: %d seeds x 60 runs twice, %d differ" % (prop, args.determinism, bad))
            return 2 if bad else 0
        known = load_known(prop)
        known_hit = [k for k in known if replay(os.path.join(HERE, k["replay"]))[0] == k["class"]]
        n = args.workers or R.JOBS
        # a node process for a few hundred runs: contexts that were used are not entirely freed
        end = time.time() + conf["cap"][tier]

        def work(w):
            res, first = [], 0
            while time.time() < end - 0.2 and first < conf["runs"][tier]:
                path = os.path.join(tmp, "out%d.%d" % (w, first))
                p = start(mode="worker", seed=seed, worker=w, first=first, some=conf.get("some", 10**9),
                          runs=conf["runs"][tier], cap=end - time.time(), out=path)
                rc, out, err = p.finish(end - time.time() + 60)
                procs.remove(p)
                if rc == -999 and os.path.exists(path + ".current"):
                    res.append({"runs": 1, "histories": 0, "stats": {}, "samples": [], "wall": 0,
                                "violation": {"cls": "hang", "raw": path + ".current"}})
                    break
                if rc != 0 or not os.path.exists(path):
                    raise Broken("a worker failed: " + err)
                r = json.load(open(path))
                res.append(r)
                if r["violation"]:
                    r["violation"]["raw"] = path + ".violation"
                    break
                first += r["runs"]
            return res
        ts = time.time()
        with cf.ThreadPoolExecutor(n) as ex:
            results = [r for rs in ex.map(work, range(n)) for r in rs]
        sw = time.time() - ts
        raws = [(r["violation"]["raw"], r["violation"]["cls"]) for r in results if r["violation"]]
        reported = []
        for raw, cls0 in raws[: 8 if args.collect else 1]:
            a, b = replay(raw), replay(raw)
            if a[0] is None or a[:3] != b[:3] or a[0] in ("nondeterministic", "infrastructure"):
                raise Broken("a reported violation (%s) does not replay: %r %r" % (cls0, a[:3], b[:3]))
            best, cls, detail = raw, a[0], a[1]
            out = None
            if cls != "hang":
                rc, out, err = start(mode="minimise", file=raw, out=raw + ".min", budget=20).finish(60)
            if "MINIMISE ok" in (out or ""):
                a, b = replay(raw + ".min"), replay(raw + ".min")
                if a[0] == cls and a[:3] == b[:3]:
                    best, detail = raw + ".min", a[1]
            body = open(best, "rb").read()

            def same(k):
                try:
                    x, y = json.load(open(os.path.join(HERE, k["replay"]))), json.loads(body)
                except (OSError, ValueError):
                    return False
                return k["class"] == cls and x["ops"] == y["ops"]
            if any(same(k) for k in known):
                continue
            rdir = os.path.join(HERE, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            name = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha256(body).hexdigest()[:10]))
            with open(name, "wb") as f:
                f.write(body)
            reported.append((name, cls, detail))
        wall = time.time() - t0
        stats = {}
        for r in results:
            for k, v in r["stats"].items():
                stats[k] = stats.get(k, 0) + v
        runs = sum(r["runs"] for r in results)
        cov = {
            "evaluations": runs,
            "distinct_nontrivial": sum(r["histories"] for r in results),
            "rule": conf["rule"],
            "samples": [s for r in results for s in r["samples"]][:6],
            "simulated_runs_per_hour": int(runs / sw * 3600),
            "seeds_per_hour": int(runs / sw * 3600),
            "master_seed": seed,
            "workers": n,
            "simulated_time_steps": stats.get("events", stats.get("calls", runs)),
            "simulated_time_unit": "events handled by the page (C18), calls on the binding (C17) or steps of a history (C23)",
            "fault_kinds_injected": {k: v for k, v in sorted(stats.items()) if ":" not in k and k not in ("events", "calls")},
            "probes": {k: v for k, v in sorted(stats.items()) if ":" in k},
            "distinct_states_measure": "distinct event histories (hash over every call, allocation, flush, storage "
                                       "write and result), per node process",
            "real_components": conf["real"],
            "stubbed_components": conf["stub"],
            "build_s": round(tb, 1),
            "known_findings": [k["what"] for k in known_hit],
        }
        write_evidence(prop, tier, seed, cov, wall, len(reported), conf)
        for k in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        for name, cls, detail in reported:
            print("  [%s] %s" % (cls, detail[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, name))
        if reported:
            return 1
        print("%s held: %d simulated runs, %d workers, %.0f s (build %.0f s)" % (prop, runs, n, wall, tb))
        return 0
    finally:
        for p in procs:
            p.kill()
        if not args.keep:
            shutil.rmtree(tmp, ignore_errors=True)
