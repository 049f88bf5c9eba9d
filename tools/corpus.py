#!/usr/bin/env python3
"""Builds the generator's inputs.

corpus.py packs OUTDIR    one pack per language from the documents below /repo/test/highlight
corpus.py snips OUTDIR   one pack per language from the constructs in tools/snip
corpus.py dict OUTFILE    words and lengths found in the current sources of /repo
"""
import os, re, sys

REPO = os.environ.get("SIM_REPO", "/repo")
LANGS = dict(bash=8, c=6, cowel=1, cpp=2, css=5, diff=9, ebnf=17, html=4, java=24, js=7, json=10,
             jsonc=11, kotlin=19, latex=15, llvm=22, lua=3, markdown=23, nasm=16, python=18, rust=21,
             tex=14, txt=13, typescript=20, xml=12, yaml=25)
# source files whose literals belong to a language
SRC = {"bash": [8], "cowel": [1], "cpp": [2, 6], "css": [5], "diff": [9], "ebnf": [17], "html": [4],
       "java": [24], "js": [7, 20], "json": [10, 11], "kotlin": [19], "llvm": [22], "lua": [3],
       "markdown": [23], "nasm": [16], "python": [18], "rust": [21], "tex": [14, 15], "xml": [12],
       "yaml": [25]}
# other documents of the repository
EXTRA = {2: [("src/main/cpp/parse_utils.cpp", 6000), ("include/ulight/impl/buffer.hpp", 6000)],
         6: [("include/ulight/ulight.h", 9000)],
         4: [("www/live_edit.html", 6000), ("www/index.html", 6000)],
         5: [("www/css/live_edit.css", 6000), ("www/css/main.css", 4000)],
         7: [("www/js/ulight.js", 9000), ("www/js/live_edit_core.js", 4000)],
         23: [("README.md", 8000)],
         10: [("themes/ulight.json", 4000)],
         25: [(".github/workflows/cmake-multi-platform.yml", 3000)]}


def esc(b):
    out = []
    for c in b:
        ch = chr(c)
        if 0x21 <= c < 0x7f and ch not in '"\\':
            out.append(ch)
        else:
            out.append("\\x%02x" % c)
    return '"' + "".join(out) + '"'


def packs(outdir):
    os.makedirs(outdir, exist_ok=True)
    base = os.path.join(REPO, "test/highlight")
    for name, lid in LANGS.items():
        d = os.path.join(base, name)
        docs = []
        for root, dirs, files in os.walk(d):
            dirs.sort()
            fs = set(files)
            for f in sorted(files):
                if f + ".html" in fs:
                    docs.append(open(os.path.join(root, f), "rb").read())
        for pat, n in EXTRA.get(lid, ()):
            p = os.path.join(REPO, pat)
            if os.path.exists(p):
                docs.append(open(p, "rb").read()[:n])
        with open(os.path.join(outdir, "%d.pack" % lid), "wb") as o:
            for b in docs:
                b = b[:60000]
                o.write(b"%d\n" % len(b) + b)


def snips(outdir):
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "snip")
    for name, lid in LANGS.items():
        parts = open(os.path.join(here, name + ".txt"), "rb").read().split(b"\n%%\n")
        parts[-1] = parts[-1].rstrip(b"\n")
        with open(os.path.join(outdir, "%d.snip" % lid), "wb") as o:
            for b in parts:
                o.write(b"%d\n" % len(b) + b)


LIT = re.compile(r'(?:u8|u|U|L)?"((?:[^"\\\n]|\\.)*)"|(?:u8|u|U|L)?\'((?:[^\'\\\n]|\\.)+)\'')
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", '"': '"', "'": "'", "v": "\v", "f": "\f",
       "a": "\a", "b": "\b", "?": "?"}


def unescape(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] != "\\":
            out.append(s[i])
            i += 1
            continue
        c = s[i + 1] if i + 1 < len(s) else "\\"
        if c in "xuU":
            m = re.match(r"[0-9a-fA-F]{1,8}", s[i + 2:])
            if m:
                v = int(m.group(0)[:{"x": 2, "u": 4, "U": 8}[c]], 16)
                out.append(chr(v) if v < 0x110000 and not 0xD800 <= v < 0xE000 else "?")
                i += 2 + min(len(m.group(0)), {"x": 2, "u": 4, "U": 8}[c])
                continue
        out.append(ESC.get(c, c))
        i += 2
    return "".join(out).encode("utf-8", "replace")


def strip_comments(t):
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    return re.sub(r"(?m)(?<![:\"'])//(?![^\n\"]*\"[^\n\"]*$).*$", " ", t)


def words(outfile):
    res = {}
    lens = set([1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 511, 512, 1023, 1024])
    roots = ["src/main/cpp", "include/ulight"]
    for root in roots:
        for dp, dn, fn in os.walk(os.path.join(REPO, root)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith((".cpp", ".hpp", ".h")):
                    continue
                p = os.path.join(dp, f)
                raw = open(p, encoding="utf-8", errors="replace").read()
                t = strip_comments(raw)
                stem = f.rsplit(".", 1)[0]
                ids = SRC.get(stem, [0]) if "/lang" in dp else [0]
                ws = set()
                for m in LIT.finditer(t):
                    s = m.group(1) if m.group(1) is not None else m.group(2)
                    if not s:
                        continue
                    w = unescape(s)
                    if 0 < len(w) <= 40 and not (ids == [0] and b" " in w and len(w) > 8):
                        ws.add(w)
                # X-macro keyword lists such as F(name, "text") are covered by the strings above;
                # bare identifiers in macros F(KEYWORD) too:
                for m in re.finditer(r"\bF\(\s*([A-Za-z_]\w*)", t):
                    ws.add(m.group(1).encode())
                for m in re.finditer(r"(?<![\w.])(\d[\d']*)(?![\w.])", LIT.sub(" ", t)):
                    v = int(m.group(1).replace("'", ""), 0) if not re.match(r"0\d", m.group(1)) else 0
                    if 1 < v <= 9000 and "chars" not in f:
                        lens.add(v)
                for m in re.finditer(r"(\d+)\s*<<\s*(\d+)", t):
                    v = int(m.group(1)) << int(m.group(2)) if int(m.group(2)) < 16 else 0
                    if 1 < v <= 20000:
                        lens.add(v)
                for i in ids:
                    res.setdefault(i, set()).update(ws)
    with open(outfile, "w") as o:
        for v in sorted(lens):
            o.write("len %d\n" % v)
        for i in sorted(res):
            for w in sorted(res[i]):
                o.write("%d %s\n" % (i, esc(w)))


if __name__ == "__main__":
    {"packs": packs, "dict": words, "snips": snips}[sys.argv[1]](sys.argv[2])
