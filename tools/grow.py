#!/usr/bin/env python3
"""grow.py SECONDS: lets the coverage-guided generator of C05 run and keeps, per language, the small texts that reach
something new, as corpus/<id>.grown (committed; the checks only read them)."""
import os, subprocess, sys, tempfile, shutil, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run
BUDGET = 40000


def main(seconds):
    exe = subprocess.run([sys.executable, HERE + "/run.py", "C05", "--build-only"], text=True,
                         stdout=subprocess.PIPE, check=True, stderr=subprocess.STDOUT).stdout.split()[0]
    tmp = tempfile.mkdtemp(prefix="grow-")
    try:
        d = os.path.join(tmp, "dict")
        subprocess.run([sys.executable, HERE + "/tools/corpus.py", "dict", d], check=True)
        open(d, "a").write(open(HERE + "/corpus/dict.txt").read())
        seed = int(time.time())
        ps = [subprocess.Popen([exe, "worker", "prop=C05", "seed=%d" % (seed + w), "worker=%d" % w, "runs=999999999",
                                "start=0", "cap=%d" % seconds, "out=%s/o%d" % (tmp, w), "corpus=" + HERE + "/corpus",
                                "dict=" + d, "cold=1", "save-pool=%s/pool%d" % (tmp, w)], env=run.env(), cwd=tmp)
              for w in range(8)]
        for p in ps:
            p.wait()
        jobs = []
        for l in range(1, 26):
            read = lambda f: open(f, "rb").read() if os.path.exists(f) else b""
            base = read(HERE + "/corpus/%d.pack" % l) + read(HERE + "/corpus/%d.snip" % l)
            new = read(HERE + "/corpus/%d.grown" % l) + b"".join(read("%s/pool%d.%d.pack" % (tmp, w, l)) for w in range(8))
            open("%s/base%d" % (tmp, l), "wb").write(base)
            open("%s/in%d" % (tmp, l), "wb").write(new)
            jobs.append(subprocess.Popen([exe, "distill", "lang=%d" % l, "base=%s/base%d" % (tmp, l), "in=%s/in%d" % (tmp, l),
                                          "out=%s/corpus/%d.grown" % (HERE, l), "budget=%d" % BUDGET], env=run.env(), cwd=tmp))
        for j in jobs:
            j.wait()
    finally:
        shutil.rmtree(tmp)


main(int(sys.argv[1]))
