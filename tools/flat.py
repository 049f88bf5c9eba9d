#!/usr/bin/env python3
"""flat.py: finds texts that do not nest when they are repeated: parts of the corpus and the handcrafted ones below.
corpus/<id>.flat (committed; the checks only read it) holds those that need little stack at 400 KB on the current tree."""
import hashlib, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run
CPP, LUA, HTML, CSS, COWEL, C, JS, BASH, DIFF, JSON, JSONC, XML, TXT, TEX, LATEX, NASM, EBNF, PY, KT, TS, RUST, LLVM, MD, JAVA, YAML = (
    2, 3, 4, 5, 1, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25)
c_like = ["f(x);\n", "int x = 1;\n", "// c\n", "/* c */", "\"s\";", "'c';", "a+b;", "{}", "{ f(); }\n", "x\n", "1 ", ";", "\n", " ", "if (a) { b(); }\n"]
js = c_like + ["`a${b}c`;\n", "/r/;\n", "<p>a</p>;\n", "x = { a: 1 };\n", "x = [1];\n", "function f(a) { return a; }\n", ("x = [", "1,", "1];"),
               ("x = {", "a: 1,", "b: 2};"), ("`", "a${b}", "`"), ("x = <p>", "<b>c</b>", "</p>;"), ("x = <p>", "{a}", "</p>;"),
               ("x = <p ", "a='b' ", "/>;"), ("/*", "*a", "*/"), ("`", "\\n", "`"), ("f(", "a,", "b)"), "a => b;\n", "x = a ? b : c;\n"]
json = [("[", "1,", "1]"), ("[", "\"a\",\n", "0]"), ("{", "\"k\": 1,", "\"k\": 1}"), ("[", "{},", "0]"), ("[", "[1],", "0]"),
        ("[", "{\"a\": [1]},", "0]"), ("\"", "\\n", "\""), ("", " ", "1"), ("", "\n", "1"), ("[", "true,", "null]")]
jsonc = json + [("", "// c\n", "1"), ("[", "1, // c\n", "1]"), ("", "/* c */", "1"), ("[", "/* c */ 1,", "1]")]
tex = ["\\a{b}\n", "\\a[b]{c} ", "% c\n", "$x$\n", "text\n", "\\begin{a}b\\end{a}\n", "\\\\", "{a}", "[a]", "\n"]
HAND = {
    COWEL: ["\\a{b}\n", "\\a(b){c}\n", "\\a(x = y){c}\n", "text\n", "\\: c\n", "\\* c *\\", "\\a\n", "\\&#x41;", "\\,", "\n", ("\\a{", "\\b ", "}"), ("\\a(", "b,", "c)"), ("\\a{", "\\b{c}", "}")],
    CPP: c_like + ["#define A b\n", "R\"(a)\";\n", "\"a\\n\";\n", "a\\\n", "auto x = 1'000u;\n", "[[a]] int b;\n"],
    C: c_like + ["#define A b\n", "\"a\\n\";\n", "a\\\n", "int a[] = { 1 };\n", ("int a[] = {", "1,", "1};"), ("/*", "*a", "*/")],
    LUA: ["-- c\n", "--[[ c ]]\n", "x = 1\n", "f(\"a\")\n", "[[s]] ", "x = { 1 }\n", "\n", "'a'", "function f() return a end\n", ("x = {", "1,", "1}")],
    HTML: ["<p>a</p>\n", "<br>", "<br/>", "a\n", "&amp;", "<!-- c -->\n", "<a b=c d='e' f=\"g\">h</a>", "<script>a</script>", "<style>a{}</style>", "<", "\n", ("<a ", "b ", ">"), ("<a ", "b=c ", ">"), ("<script>", "a;\n", "</script>"), ("<style>", "a{}\n", "</style>"), ("<!--", "-", "-->"), "<title>a</title>", "<textarea>a</textarea>", "<![CDATA[a]]>"],
    CSS: ["a{b:c}\n", "/* c */", "@a;\n", "@media (a) { b { c: d } }\n", "a, ", "a:hover { b: c !important; }\n", "#a .b{}", "a { b: url(c); }\n", "--a: b;\n", "\n", ("a{", "b:c;", "}"), ("a { b: f(", "1,", "2)}")],
    JS: js, TS: js + ["let x: A<B> = 1;\n", "interface A { b: c }\n"], JSON: json, JSONC: jsonc,
    BASH: ["echo a\n", "echo $(a)\n", "echo \"$x ${y}\"\n", "# c\n", "if a; then b; fi\n", "a | b\n", "a; ", "a && ", "`a`\n", "echo 'a'\n", "x=1\n", "a <<E\nb\nE\n", "(a)\n", "{ a; }\n", "case a in b) c;; esac\n", "\n", ("\"", "$(a)", "\""), ("\"", "${a}", "\""), ("echo ", "a ", ""), "echo $((1+2))\n", "f() { a; }\n"],
    DIFF: ["+a\n", "-a\n", " a\n", "@@ -1 +1 @@\n", "diff a b\n", "--- a\n+++ b\n", "\n", "! a\n"],
    XML: ["<a>b</a>\n", "<a/>", "<!-- c -->", "&amp;", "<![CDATA[a]]>", "<?a b?>", "<a b='c'/>", "a\n", "\n", ("<a ", "b='c' ", "/>")],
    TXT: ["a\n", "\n", " "], TEX: tex, LATEX: tex,
    NASM: ["mov eax, 1\n", "; c\n", "a: db 'b', 1\n", "%define a b\n", "\n", "a equ 1\n", "section .text\n", "a ", ("db ", "1,", "1")],
    EBNF: ["a = b;\n", "a ::= \"b\" | c\n", "(* c *)", "a = {b}, [c], (d);\n", "\n", "'a' "],
    PY: ["x = 1\n", "# c\n", "f\"{a}\"\n", "'a'\n", "'''a'''\n", "def f(a):\n    return a\n", "f(a)\n", "[1]\n", "{'a': 1}\n", "@a\n", "\n", "r'\\a'\n", "x\\\n", ("x = [", "1,", "1]"), ("f\"", "{a}", "\""), ("'", "\\n", "'")],
    KT: c_like + ["val x = \"a${b}c\"\n", "\"\"\"a\"\"\"\n", "fun f(a: B) = c\n", "'a'\n", ("\"", "${a}", "\""), ("\"", "$a ", "\""), ("\"\"\"", "${a}", "\"\"\""), ("listOf(", "1,", "1)")],
    RUST: c_like + ["let x = 1u8;\n", "r#\"a\"#;\n", "fn f<'a>(x: &'a B) {}\n", "/// c\n", "#[a]\n", "'a'", "/* a */", "vec![1];\n", ("/*", " a ", "*/")],
    LLVM: ["%1 = add i32 %a, 1\n", "; c\n", "define void @f() {\n ret void\n}\n", "@a = global i32 0\n", "\n", "!0 = !{}\n"],
    MD: ["a\n", "# a\n", "- a\n", "* a\n", "1. a\n", "> a\n", "\n", "`a` ", "*a* ", "**a** ", "[a](b) ", "![a](b) ", "| a | b |\n", "```\na\n```\n", "    a\n", "---\n", "<p>a</p>\n", "~~a~~ ", "- [ ] a\n", "\\a", "&amp;", "<http://a.b>\n", "[a]: b\n", "a\n===\n", "a  \n", "- a\n\n", "- a\n  b\n", "_a_ ", "[a]\n"],
    JAVA: c_like + ["@A\n", "\"\"\"\na\"\"\";\n", "/** c */\n", "class A { int b; }\n", "'a'"],
    YAML: ["- a\n", "a: 1\n", "# c\n", "---\n", "- a: b\n", "- - a\n", "a:\n  - b\n", "a: |\n  b\n", "a: [1]\n", "a: {b: c}\n", "? a\n: b\n", "- 'a'\n", "- \"a\"\n", "- &a b\n", "- !!a b\n", "...\n", "\n", "- \n", "-\n", "- a:\n    b\n",
           ("[", "1,", "1]"), ("{", "a: 1,", "b: 2}"), ("a: |\n", "  b\n", ""), ("a: >\n", "  b\n\n", ""), ("a:\n", "  - b\n", ""), ("a:\n", "  b: c\n", ""), ("'", "a ", "'"), ("\"", "\\n", "\""), ("\"", "a\n  ", "\""), ("- ", "a ", "\n"), ("a: ", "b ", "\n"), ("", "a\n", ": b")],
}


def pack(path):
    b, p, out = open(path, "rb").read() if os.path.exists(path) else b"", 0, []
    while p < len(b):
        e = b.index(b"\n", p)
        n = int(b[p:e])
        out.append(b[e + 1:e + 1 + n])
        p = e + 1 + n
    return out


def main(most):
    exe = subprocess.run([sys.executable, HERE + "/run.py", "C05", "--build-only"], text=True,
                         stdout=subprocess.PIPE, check=True, stderr=subprocess.STDOUT).stdout.split()[0]
    tmp = tempfile.mkdtemp(prefix="flat-")

    def one(l):
        hand = [b"\0".join(x.encode() for x in (h if isinstance(h, tuple) else ("", h, ""))) for h in HAND.get(l, [])]
        parts = set()
        for d in pack(HERE + "/corpus/%d.pack" % l) + pack(HERE + "/corpus/%d.snip" % l) + pack(HERE + "/corpus/%d.grown" % l):
            for u in [d] + [x + b"\n" for x in d.split(b"\n")]:
                if 0 < len(u) <= 100 and b"\0" not in u:
                    try:
                        u.decode()
                    except UnicodeDecodeError:
                        continue
                    parts.add(b"\0" + u + b"\0")
        parts = sorted(parts, key=lambda x: hashlib.sha256(x).digest())[:most]
        for tag, c in (("hand", hand), ("parts", parts)):
            open("%s/%s%d" % (tmp, tag, l), "wb").write(b"".join(b"%d\n%s" % (len(x), x) for x in c))
        out = ""
        for tag, loud in (("hand", "1"), ("parts", "0")):
            out += subprocess.run([exe, "flatten", "lang=%d" % l, "most=%d" % (most if loud == "0" else 9999), "in=%s/%s%d" % (tmp, tag, l),
                                   "out=%s/%s%d.out" % (tmp, tag, l), "loud=" + loud], env=run.env(), cwd=tmp, text=True, stdout=subprocess.PIPE).stdout
        open(HERE + "/corpus/%d.flat" % l, "wb").write(b"".join(open("%s/%s%d.out" % (tmp, t, l), "rb").read() for t in ("hand", "parts")))
        return out
    try:
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
            for o in ex.map(one, LANGS or range(1, 26)):
                print(o, end="", flush=True)
    finally:
        shutil.rmtree(tmp)


LANGS = [int(x) for x in sys.argv[2:]]
main(int(sys.argv[1]) if len(sys.argv) > 1 else 60)
