#!/usr/bin/env python3
"""Mutation survey (development tool, not a registered check).

  mutate.py stage1 OUT.json [per-file-limit] [file ...]   mutants of /repo's C files that compile and pass its tests
  mutate.py stage2 OUT.json RESULT.json                   run the checks that concern each survivor; list those missed

Works in scratch copies under /tmp/mut.
"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VERIF_REPO", "/repo")
BASE = "/tmp/mut"
ENV = dict(os.environ, PATH="/opt/cryptokit-deps/usr/bin:/usr/local/bin:/usr/bin:/bin", OCAMLPATH="/opt/cryptokit-deps/usr/lib/ocaml",
           CAML_LD_LIBRARY_PATH="/opt/cryptokit-deps/usr/lib/ocaml/stublibs", CC="gcc", DUNE_CACHE="disabled")
CHECKS = {
 "aesni.c": ["C01", "C24", "C22"], "rijndael-alg-fst.c": ["C01", "C24", "C22"], "blowfish.c": ["C01", "C22"], "d3des.c": ["C01", "C22"],
 "arcfour.c": ["C03", "C29"], "chacha20.c": ["C03", "C18", "C09"], "blake2.c": ["C07", "C06", "C08"], "blake3.c": ["C07", "C06", "C08"],
 "blake3_impl.h": ["C07", "C08"], "blake3_dispatch.c": ["C07"], "blake3_portable.c": ["C07", "C08"], "ghash.c": ["C09", "C24"], "pclmul.c": ["C09", "C24"],
 "keccak.c": ["C07", "C06"], "poly1305-donna-32.h": ["C09"], "poly1305-donna-64.h": ["C09"], "poly1305-donna.c": ["C09"],
 "ripemd160.c": ["C07", "C06"], "sha1.c": ["C07", "C06"], "sha256.c": ["C07", "C06"], "sha512.c": ["C07", "C06"], "siphash.c": ["C08", "C06"],
 "stubs-aes.c": ["C01", "C24", "C22", "C20", "C23"], "stubs-arcfour.c": ["C03", "C29", "C20"], "stubs-blake2.c": ["C07", "C08", "C20", "C23"],
 "stubs-blake3.c": ["C07", "C08", "C20", "C23"], "stubs-blowfish.c": ["C01", "C20", "C23"], "stubs-chacha20.c": ["C03", "C18", "C20", "C23"],
 "stubs-des.c": ["C01", "C20", "C23"], "stubs-ghash.c": ["C09", "C20", "C23"], "stubs-md5.c": ["C07", "C20", "C23"], "stubs-misc.c": ["C27", "C13"],
 "stubs-poly1305.c": ["C09", "C20", "C23"], "stubs-ripemd160.c": ["C07", "C20", "C23"], "stubs-rng.c": ["C19", "C22"],
 "stubs-sha1.c": ["C07", "C20", "C23"], "stubs-sha256.c": ["C07", "C20", "C23"], "stubs-sha3.c": ["C07", "C20", "C23"],
 "stubs-sha512.c": ["C07", "C20", "C23"], "stubs-siphash.c": ["C08", "C20", "C23"], "stubs-zlib.c": ["C17", "C22", "C23"],
}


def code_mask(text):
    """positions that are code (not comments, strings, preprocessor lines)"""
    m = bytearray(b"\1" * len(text))
    for r in (r"/\*.*?\*/", r"//[^\n]*", r'"(?:\\.|[^"\\\n])*"', r"(?m)^[ \t]*#(?!define)[^\n]*"):
        for x in re.finditer(r, text, re.S if "/\\*" in r else 0):
            for i in range(*x.span()):
                m[i] = 0
    return m


def mutants(text):
    mask = code_mask(text)
    out = []
    def add(a, b, new, what):
        if all(mask[a:b]):
            out.append((a, b, new, what))
    lines_with_table = set()
    pos = 0
    for ln in text.split("\n"):
        if len(re.findall(r"0x[0-9a-fA-F]{2,}", ln)) >= 3 or len(re.findall(r"\b\d+\b", ln)) >= 8:
            lines_with_table.update(range(pos, pos + len(ln) + 1))
        pos += len(ln) + 1
    for x in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)([uUlL]*)\b", text):
        v = int(x.group(1), 16 if x.group(1).startswith("0x") else 10)
        tab = x.start() in lines_with_table
        for d in (1, -1):
            if v + d >= 0 and (not tab or d == 1):
                fmt = (hex(v + d) if x.group(1).startswith("0x") else str(v + d)) + x.group(2)
                add(x.start(), x.end(), fmt, "tab" if tab else "const")
    for pat, reps in ((r"(?<![<>=!-])<(?![<=])", ["<="]), (r"<=(?!=)", ["<"]), (r"(?<![<>=!-])>(?![>=])", [">="]), (r"(?<!>)>=", [">"]),
                      (r"(?<![=!<>])==", ["!="]), (r"!=", ["=="]), (r"(?<!\+)\+(?![+=])", ["-"]), (r"(?<!-)-(?![-=>])", ["+"]),
                      (r"<<(?!=)", [">>"]), (r"(?<!>)>>(?!=)", ["<<"]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
                      (r"(?<!&)&(?![&=])(?= )", ["|"]), (r"(?<!\|)\|(?![|=])", ["&"]), (r"\^(?!=)", ["|"]),
                      (r"\+=", ["-=", "="]), (r"-=", ["+=", "="]), (r"\^=", ["=", "|="]), (r"\+\+", ["--"]), (r"\|=", ["="]), (r"&=", ["="])):
        for x in re.finditer(pat, text):
            for r in reps:
                add(x.start(), x.end(), r, "op")
    for x in re.finditer(r"(?m)^[ \t]+[A-Za-z_*(+-][^;{}\n]*;[ \t]*$", text):
        s = x.group(0).strip()
        if re.match(r"(return|break|continue|CAMLparam|CAMLlocal|CAMLreturn|static|extern|goto|typedef|unsigned|u32|u64|uint|int |long|size_t|value|struct|const|mlsize)", s):
            continue
        out.append((x.start(), x.end(), " ;", "del"))
    for x in re.finditer(r"\b(if|while) \(", text):
        d, i = 1, x.end()
        while d and i < len(text):
            d += {"(": 1, ")": -1}.get(text[i], 0); i += 1
        add(x.end() - 1, i, "(0)", "cond0")
        if x.group(1) == "if":
            add(x.end() - 1, i, "(1)", "cond1")
    return out


def mutants2(text):
    """narrowed types, dropped roots, shortened lengths, confused sizes"""
    mask = code_mask(text)
    out = []
    def add(a, b, new, what):
        if all(mask[a:b]):
            out.append((a, b, new, what))
    for pat, reps in ((r"\bsize_t\b", ["unsigned int", "unsigned char"]), (r"\bunsigned long\b", ["unsigned int", "unsigned short"]), (r"\buint64_t\b|\bu64\b", ["uint32_t"]),
                      (r"(?<!unsigned )\blong\b(?! long)", ["int", "short"]), (r"\bintnat\b", ["int"]), (r"\bu32\b|\buint32_t\b", ["unsigned short", "int"]),
                      (r"\bint\b", ["unsigned char", "signed char"]), (r"\bunsigned char\b|\buint8_t\b", ["signed char"]),
                      (r"\bLong_val\b", ["Int_val", "(short) Long_val", "(unsigned char) Long_val"]), (r"\bInt_val\b", ["(signed char) Int_val"]), (r"\bByte_u\b", ["Byte"]),
                      (r"\bstatic\b(?! inline| const| void| struct custom)", []), (r"CAMLreturn\b", []),
                      (r"\bunsigned int\b", ["unsigned short"]), (r"\bstatic inline\b", [])):
        for x in re.finditer(pat, text):
            for r in reps:
                add(x.start(), x.end(), r, "type")
    # roots: CAMLparam2(a, b) without its last argument
    for x in re.finditer(r"CAMLparam([12345])\(([^)]*)\)", text):
        n = int(x.group(1)); a = [y.strip() for y in x.group(2).split(",")]
        for k in range(n):
            b = a[:k] + a[k+1:]
            add(x.start(), x.end(), "CAMLparam%d(%s)" % (n - 1, ", ".join(b)), "root")
    # lengths of copies and wipes
    for x in re.finditer(r"\b(memcpy|memset|memmove)\(([^;]*)\);", text):
        args = x.group(2)
        d = 0; last = 0
        for i, ch in enumerate(args):
            d += {"(": 1, ")": -1, "[": 1, "]": -1}.get(ch, 0)
            if ch == "," and d == 0: last = i
        a, b = x.start(2) + last + 1, x.end(2)
        e = text[a:b].strip()
        for r in (" (%s) / 2" % e, " (%s) - 1" % e, " (%s) / 8 * 8" % e, " (%s) > 64 ? 64 : (%s)" % (e, e)):
            add(a, b, r, "copy")
    # one iteration less, or bounded loops
    for x in re.finditer(r"\bfor \(([^;]*);([^;]*);([^)]*)\)", text):
        c = x.group(2).strip()
        if c:
            m = re.match(r"(\w+)\s*(<|>)\s*([\w>.\[\]() *+-]+)$", c)
            if m and m.group(2) == "<": add(x.start(2), x.end(2), " %s < (%s) - 1" % (m.group(1), m.group(3)), "loop")
            if m and m.group(2) == "<": add(x.start(2), x.end(2), " %s < (%s) / 2" % (m.group(1), m.group(3)), "loop")
    # state not written back
    for x in re.finditer(r"(?m)^[ \t]+(\w+)->(\w+)(\[\w+\])? (=|\+=) ([^;]*);", text):
        add(x.start(4), x.end(4), "|=" if x.group(4) == "=" else "=", "store")
        add(x.start(5), x.end(5), "(%s) & 0xFF" % x.group(5), "store")
    # sizeof of the pointer
    for x in re.finditer(r"sizeof\(struct (\w+)\)", text):
        add(x.start(), x.end(), "sizeof(void *)", "sizeof")
        add(x.start(), x.end(), "(sizeof(struct %s) - 8)" % x.group(1), "sizeof")
    return out


def baseline(d):
    subprocess.run(["dune", "build", "--root", ".", "--profile", "release", "./test/test.exe"], cwd=d, env=ENV, check=True, capture_output=True)


def prep(n):
    d = "%s/r%d" % (BASE, n)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(BASE, exist_ok=True)
    shutil.copytree(SRC, d, ignore=shutil.ignore_patterns(".git", "_build"))
    baseline(d)
    return d


def stage1(out, limit, files):
    rnd = random.Random(7)
    jobs = []
    for f in files:
        text = open(os.path.join(SRC, "src", f)).read()
        ms = (mutants2 if os.environ.get('MUT2') else mutants)(text)
        tabs = [m for m in ms if m[3] == "tab"]
        rest = [m for m in ms if m[3] != "tab"]
        rnd.shuffle(tabs); rnd.shuffle(rest)
        jobs += [(f,) + m for m in rest[:limit] + tabs[:limit // 4]]
    rnd.shuffle(jobs)
    print(len(jobs), "mutants")
    n = int(os.environ.get("JOBS", "8"))
    dirs = [prep(i) for i in range(n)]
    free = list(dirs); lock = threading.Lock()
    surv = []; stats = dict(nobuild=0, killed=0, survived=0)

    def one(j):
        with lock:
            d = free.pop()
        try:
            f, a, b, new, what = j
            p = os.path.join(d, "src", f)
            text = open(os.path.join(SRC, "src", f)).read()
            open(p, "w").write(text[:a] + new + text[b:])
            try:
                r = subprocess.run(["dune", "build", "--root", ".", "--profile", "release", "./test/test.exe"], cwd=d, env=ENV, capture_output=True, timeout=120)
                if r.returncode:
                    res = "nobuild"
                else:
                    try:
                        r = subprocess.run([d + "/_build/default/test/test.exe"], cwd=d + "/_build/default/test", capture_output=True, timeout=60, stdin=subprocess.DEVNULL)
                        o = r.stdout + r.stderr
                        res = "survived" if r.returncode == 0 and b"All tests successful" in o else "killed"
                    except subprocess.TimeoutExpired:
                        res = "killed"
            except subprocess.TimeoutExpired:
                res = "nobuild"
            open(p, "w").write(text)
            with lock:
                stats[res] += 1
                if res == "survived":
                    ln = text.count("\n", 0, a) + 1
                    surv.append(dict(file=f, a=a, b=b, new=new, what=what, line=ln, text=text.split("\n")[ln - 1].strip(), old=text[a:b]))
                if sum(stats.values()) % 100 == 0:
                    print(stats, flush=True)
                    json.dump(surv, open(out, "w"), indent=1)
        finally:
            with lock:
                free.append(d)
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(one, jobs))
    surv.sort(key=lambda s: (s["file"], s["a"]))
    json.dump(surv, open(out, "w"), indent=1)
    print(stats)


def objects(srcdir, f):
    """object code of the stubs that use f, in several configurations"""
    import hashlib, glob
    base = ["gcc", "-O2", "-fno-strict-aliasing", "-fwrapv", "-c", "-w", "-I", ENV["OCAMLPATH"], "-I", subprocess.run(["ocamlfind", "ocamlc", "-where"], env=ENV, capture_output=True, text=True).stdout.strip() or "/usr/lib/ocaml",
            "-DCAML_NAME_SPACE", "-DEXPORT=static", "-DBLAKE3_NO_SSE2", "-DBLAKE3_NO_SSE41", "-DBLAKE3_NO_AVX2", "-DBLAKE3_NO_AVX512", "-DBLAKE3_USE_NEON=0", "-DHAVE_GETENTROPY", "-DHAVE_ZLIB"]
    res = []
    def includes(x, seen=()):
        t = open(x).read()
        r = {os.path.basename(x)}
        for y in re.findall(r'#include "([^"]+)"', t):
            q = os.path.join(srcdir, y)
            if os.path.exists(q) and y not in seen:
                r |= includes(q, seen + (y,))
        return r
    for st in sorted(glob.glob(srcdir + "/stubs-*.c")):
        if f not in includes(st):
            continue
        for fl in ([], ["-maes", "-mpclmul"], ["-U__SIZEOF_INT128__"]):
            o = "%s/x%d.o" % (BASE, os.getpid())
            r = subprocess.run(base + fl + ["-I", srcdir, os.path.basename(st), "-o", o], cwd=srcdir, capture_output=True)
            if r.returncode:
                res.append(("fail", r.stderr[-300:]))
            else:
                res.append(hashlib.sha256(open(o, "rb").read()).hexdigest())
    return res


def stage2(inp, out):
    surv = json.load(open(inp))
    try:
        done = json.load(open(out))
    except OSError:
        done = []
    key = lambda s: (s["file"], s["a"], s["b"], s["new"])
    seen = {key(s) for s in done}
    base = {}
    d = BASE + "/s2"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(BASE, exist_ok=True)
    shutil.copytree(SRC, d, ignore=shutil.ignore_patterns("_build"))
    random.Random(5).shuffle(surv)
    for s in surv:
        if key(s) in seen or s["file"] in os.environ.get("SKIPFILES", "").split(","):
            continue
        p = os.path.join(d, "src", s["file"])
        text = open(os.path.join(SRC, "src", s["file"])).read()
        open(p, "w").write(text[:s["a"]] + s["new"] + text[s["b"]:])
        s["caught"] = None; s["rcs"] = []
        if s["file"] not in base:
            base[s["file"]] = objects(os.path.join(SRC, "src"), s["file"])
        if objects(d + "/src", s["file"]) == base[s["file"]]:
            s["caught"] = "same object code"
            open(p, "w").write(text)
            done.append(s)
            continue
        cs = list(CHECKS[s["file"]])
        if s["what"] in ("copy", "sizeof", "type", "loop"): cs += ["C22"]
        if s["file"].startswith("stubs-"): cs += ["C32", "C24"]
        if s["what"] == "root": cs = ["C23"]
        if s["what"] == "sizeof": cs = ["C20", "C22", "C32"]
        cs = list(dict.fromkeys(cs))
        for c in cs:
            e = dict(os.environ, VERIF_REPO=d, VERIF_WORK=BASE + "/work", VERIF_EVIDENCE=BASE + "/evid", VERIF_SEED="1", VERIF_SCALE=os.environ.get("SCALE", "0.12"), VERIF_SKIP="exhaust3,exhaust4,hugepiece,huge,hugereq,huge29,huge32,bigpiece,blake3_long")
            r = subprocess.run([sys.executable, HERE + "/run.py", c, "quick"], capture_output=True, env=e)
            s["rcs"].append((c, r.returncode))
            if r.returncode == 1 and b"VIOLATION" in r.stdout:
                s["caught"] = c
                break
        open(p, "w").write(text)
        done.append(s)
        json.dump(done, open(out, "w"), indent=1)
        print(s["caught"] or "MISSED", s["file"], s["line"], s["what"], repr(s["old"][:40]), "->", s["new"], "|", s["text"][:90], s["rcs"] if not s["caught"] else "", flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "stage1":
        stage1(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 60, sys.argv[4:] or sorted(CHECKS))
    else:
        stage2(sys.argv[2], sys.argv[3])
