#!/usr/bin/env python3
"""Regenerates /verif/seeded from the table in seeded_defs.py (authoring aid only;
no registered check reads it)."""
import os, subprocess, sys, json, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
OUT = os.path.join(os.path.dirname(HERE), "seeded")

DEMO_SH = r'''#!/bin/bash
# Exits 0 if the behaviour is right, nonzero otherwise.  Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/d"
cp -r "$repo/src" "$w/src" && cp "$repo/dune-project" "$repo/cryptokit.opam" "$w/" || exit 2
cp "$here"/demo.ml "$w/d/" || exit 2
@EXTRA@
cat > "$w/d/dune" <<'E'
@DUNE@
E
cd "$w" || exit 2
timeout 200 dune build --root . --profile release ./d/@EXE@ > build.log 2>&1 || { cat build.log; exit 2; }
@ENV@ timeout 90 ./_build/default/d/@EXE@
rc=$?
cd /
exit $rc
'''
DUNE = '(executable (name demo) (libraries cryptokit unix) (ocamlopt_flags (:standard -O3 -unboxed-types))\n (flags (:standard -w -a -alert --all)))'
DUNE = '(executable (name demo) (libraries cryptokit unix)@EXT@ (flags (:standard -w -a -alert --all)))'
PRELUDE = '''open Cryptokit
let check c msg = if not c then (prerr_endline ("FAIL: " ^ msg); exit 1)
let hex s = transform_string (Hexa.encode ()) s
let pat n seed = String.init n (fun i -> Char.chr ((i * 131 + (i lsr 8) * 57 + seed * 29 + 7) land 255))
'''

def main():
    import seeded_defs, seeded_defs2, seeded_defs3
    only = set(sys.argv[1:])
    for b in seeded_defs.BUGS:
        if only and b["id"] not in only: continue
        # only changes to C sources are eligible for /verif/seeded; those to OCaml
        # sources are kept beside it, in the same format
        ml = any(f.endswith(".ml") or f.endswith(".mli") for f, _, _ in b["edits"])
        d = os.path.join(OUT + ("_ml" if ml else ""), b["id"])
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix="mks.")
        try:
            subprocess.run(["git", "-C", "/repo", "worktree", "list"], check=True, stdout=subprocess.DEVNULL)
            subprocess.run("git -C /repo archive HEAD src | tar -x -C %s" % t, shell=True, check=True)
            subprocess.run("cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x" % t, shell=True, check=True)
            for f, old, new in b["edits"]:
                p = os.path.join(t, "src", f)
                s = open(p, encoding="utf-8", newline="").read()
                n = s.count(old)
                if n != 1: sys.exit("%s: %s: pattern occurs %d times: %r" % (b["id"], f, n, old))
                open(p, "w", encoding="utf-8", newline="").write(s.replace(old, new))
            diff = subprocess.run(["git", "-C", t, "diff"], check=True, capture_output=True).stdout
            open(os.path.join(d, "patch.diff"), "wb").write(diff)
        finally:
            shutil.rmtree(t)
        dune = DUNE.replace("@EXT@", b.get("dune", ""))
        dune = b.get("fulldune", dune)
        sh = DEMO_SH.replace("@EXTRA@", b.get("extra", "")).replace("@DUNE@", dune) \
            .replace("@ENV@", b.get("env", "")).replace("@EXE@", b.get("exe", "demo.exe"))
        open(os.path.join(d, "demo.sh"), "w").write(b.get("sh", sh))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if "sh" not in b or b.get("demo"):
            open(os.path.join(d, "demo.ml"), "w").write(PRELUDE + b["demo"])
        for fn, txt in b.get("files", {}).items():
            open(os.path.join(d, fn), "w").write(txt)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(b["id"])
main()
