#!/usr/bin/env python3
"""Runner of the checks.

  run.py <property> [quick|thorough]   run one check (tier defaults to $VERIF_TIER)
  run.py replay <file>                 re-run one replay file
  run.py setup                         build the harness once
  run.py all [quick|thorough]          run every check in turn

Every run copies the library sources of /repo's working tree next to the
harness into _work/<variant>, builds them, and runs the generated cases in
several processes.
"""
import fcntl, glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(HERE, "_work"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
DEPS = "/opt/cryptokit-deps"
sys.path.insert(0, os.path.join(HERE, "tools"))
import checks as CK

ENV = dict(os.environ)
ENV.update(PATH="%s/usr/bin:/usr/local/bin:/usr/bin:/bin" % DEPS, LANG="C.UTF-8", LC_ALL="C.UTF-8",
           OCAMLPATH=DEPS + "/usr/lib/ocaml", CAML_LD_LIBRARY_PATH=DEPS + "/usr/lib/ocaml/stublibs",
           CC="gcc", DUNE_CACHE="disabled", HOME=os.environ.get("HOME", "/root"))
for v in ("DUNE_WORKSPACE", "DUNE_PROFILE", "DUNE_BUILD_DIR", "OCAMLPARAM", "OCAMLRUNPARAM"):
    ENV.pop(v, None)
NPROC = max(1, min(8, os.cpu_count() or 1))
SCALE = float(os.environ.get("VERIF_SCALE", "1"))     # development only (tools/mutate.py)

# name -> (configure values, extra C flags, bytecode?, link flags)
VARIANTS = {
    "hw":     (("Auto", "Auto"), "", False, ""),
    "sw":     (("Auto", "This false"), "", False, ""),
    "byte":   (("Auto", "Auto"), "", True, ""),
    "p32":    (("Auto", "This false"), "-U__SIZEOF_INT128__", False, ""),
    "nocpu":  (("Auto", "Auto"), "-include %s/tools/nocpu.h" % HERE, False, ""),
    "nozlib": (("This false", "Auto"), "", False, ""),
    "san":    (("Auto", "This false"), "-fsanitize=address,bounds,null,alignment,object-size -fno-sanitize-recover=bounds,null,object-size -fno-sanitize=alignment -O1 -g", False, "-ccopt -fsanitize=address,undefined "),
    "sanhw":  (("Auto", "Auto"), "-fsanitize=address,bounds,null,object-size -fno-sanitize-recover=bounds,null,object-size -O1 -g", False, "-ccopt -fsanitize=address,undefined "),
}


def write_if_changed(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def sync_tree(src, dst, skip=()):
    seen = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("_build", ".git")]
        rel = os.path.relpath(root, src)
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r in skip:
                continue
            seen.add(r)
            with open(os.path.join(root, f), "rb") as fh:
                write_if_changed(os.path.join(dst, r), fh.read())
    for root, dirs, files in os.walk(dst):
        rel = os.path.relpath(root, dst)
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r not in seen and r not in skip:
                os.remove(os.path.join(root, f))


class BuildError(Exception):
    pass


def start_build(variant):
    """copy sources and start dune; returns (process, log, exe, lock)"""
    (zlib, hw), cflags, byte, link = VARIANTS[variant]
    ws = os.path.join(WORK, variant)
    os.makedirs(ws, exist_ok=True)
    lock = open(ws + ".lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    sync_tree(os.path.join(REPO, "src"), os.path.join(ws, "src"), skip=("config/config_vars.ml",))
    for f in ("dune-project", "cryptokit.opam"):
        with open(os.path.join(REPO, f), "rb") as fh:
            write_if_changed(os.path.join(ws, f), fh.read())
    cfg = "type 'a value = This of 'a | Auto\nlet enable_zlib = %s\nlet enable_hardware_support = %s\n" % (zlib, hw)
    write_if_changed(os.path.join(ws, "src/config/config_vars.ml"), cfg.encode())
    sync_tree(os.path.join(HERE, "harness"), os.path.join(ws, "harness"), skip=("dune",))
    with open(os.path.join(HERE, "harness/dune")) as fh:
        d = fh.read()
    if byte:
        d = d.replace("(modes exe)", "(modes byte_complete)")
    if link:
        d = d.replace("(link_flags (", "(link_flags (" + link)
    write_if_changed(os.path.join(ws, "harness/dune"), d.encode())
    env = dict(ENV)
    if cflags:
        bind = os.path.join(ws, "_cc")
        os.makedirs(bind, exist_ok=True)
        for name in ("x86_64-linux-gnu-gcc", "gcc", "cc"):
            p = os.path.join(bind, name)
            real = shutil.which(name, path="/usr/local/bin:/usr/bin:/bin")
            if real:
                s = '#!/bin/sh\nexec %s "$@" %s\n' % (real, cflags)
                if not os.path.exists(p) or open(p).read() != s:
                    with open(p, "w") as fh:
                        fh.write(s)
                    os.chmod(p, 0o755)
        env["PATH"] = bind + ":" + env["PATH"]
        env["ASAN_OPTIONS"] = "detect_leaks=0"
    target = "harness/main.bc.exe" if byte else "harness/main.exe"
    log = tempfile.TemporaryFile()
    p = subprocess.Popen(["dune", "build", "--root", ".", "--profile", "release", "./" + target],
                         cwd=ws, env=env, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    return p, log, os.path.join(ws, "_build/default", target), lock


def build(variants):
    started = [(v, start_build(v)) for v in sorted(variants)]
    exes, bad = {}, None
    for v, (p, log, exe, lock) in started:
        rc = p.wait()
        if rc != 0:
            log.seek(0)
            bad = "build of variant %s failed:\n%s" % (v, log.read().decode(errors="replace")[-6000:])
        exes[v] = exe
        lock.close()
    if bad:
        raise BuildError(bad)
    return exes


def run_env(variant):
    env = dict(ENV)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_segv=0:allocator_may_return_null=1:detect_odr_violation=0:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "abort_on_error=1:print_stacktrace=0"
    return env


def fixed_inputs_ok():
    pass


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = CK.CHECKS[prop]
    plan = cfg["plan"][tier]                 # list of (variant, scale)
    peers = cfg.get("peers", {}).get(tier, [])
    exes = build(set([v for v, _ in plan] + list(peers)))
    t_build = time.time() - t0
    run_dir = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=WORK)
    deadline = CK.DEADLINE[tier]
    jobs = []
    for variant, scale in plan:
        for sh in range(NPROC):
            jobs.append((variant, scale, sh))
    running, failed, inconclusive, results, unstable = [], None, [], [], []
    try:
        while jobs or running:
            while jobs and len(running) < NPROC and failed is None:
                variant, scale, sh = jobs.pop(0)
                tag = "%s-%d" % (variant, sh)
                out = os.path.join(run_dir, tag + ".json")
                rp = os.path.join(run_dir, tag + ".replay")
                logf = open(os.path.join(run_dir, tag + ".log"), "w+")
                left = deadline - (time.time() - t0)
                args = [exes[variant], "run", "--prop", prop, "--tier", tier, "--seed", str(seed), "--shard", str(sh),
                        "--shards", str(NPROC), "--out", out, "--replay-out", rp, "--variant", variant,
                        "--scale", str(scale * SCALE), "--deadline", "%.0f" % max(left, 5)]
                if peers:
                    args += ["--peers", ",".join("%s=%s" % (p, exes[p]) for p in peers)]
                env = run_env(variant)
                env["TMPDIR"] = run_dir
                p = subprocess.Popen(args, cwd=run_dir, env=env, stdout=logf, stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL, start_new_session=True)
                running.append((p, tag, out, rp, logf))
            if not running:
                break
            time.sleep(0.02)
            still = []
            for r in running:
                p, tag, out, rp, logf = r
                rc = p.poll()
                if rc is None:
                    still.append(r)
                    continue
                logf.seek(0)
                text = logf.read()
                logf.close()
                if rc == 0:
                    results.append((tag, out))
                elif rc == 1 and os.path.exists(rp):
                    if failed is None:
                        failed = (tag, rp, text)
                elif rc == 3:
                    inconclusive.append(text.strip()[-500:])
                    # a wrong result that does not repeat on demand, but turns up in
                    # several independent processes, is a violation all the same
                    if os.path.exists(rp):
                        unstable.append((tag, rp, text))
                        if len(unstable) >= 3 and failed is None:
                            failed = unstable[0]
                    results.append((tag, out))
                else:
                    if failed is None:
                        raise BuildError("harness process %s ended with %s:\n%s" % (tag, rc, text[-3000:]))
            running = still
            if failed is not None:
                break
    finally:
        for p, *_ in running:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    # ---- evidence ----
    evals, hashes, subs, samples = 0, set(), {}, []
    for tag, out in results:
        if not os.path.exists(out):
            continue
        with open(out) as fh:
            d = json.load(fh)
        variant = tag.rsplit("-", 1)[0]
        for s in d["subs"]:
            e = subs.setdefault(variant + "/" + s["name"], dict(evaluations=0, nontrivial=0, labels={}))
            e["evaluations"] += s["evaluations"]
            e["nontrivial"] += s["nontrivial"]
            evals += s["evaluations"]
            for k, n in s["labels"].items():
                e["labels"][k] = e["labels"].get(k, 0) + n
            if not any(x.startswith("%s: %s#" % (variant, s["name"])) for x in samples):
                samples += ["%s: %s" % (variant, x[:700]) for x in s["samples"][:1]]
        hf = out + ".hashes"
        if os.path.exists(hf):
            with open(hf, "rb") as fh:
                b = fh.read()
            for (h,) in struct.iter_unpack("<q", b):
                hashes.add((variant, h))
    os.makedirs(EVID, exist_ok=True)
    cov = dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=cfg["rule"], samples=samples[:40],
               sub_checks=subs, variants=[v for v, _ in plan] + list(peers), build_s=round(t_build, 2))
    if inconclusive:
        cov["not_reproduced"] = inconclusive
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=0 if failed is None else 1)
    rc = 0
    if failed is not None:
        tag, rp, text = failed
        rdir = os.path.join(EVID, "replays")
        os.makedirs(rdir, exist_ok=True)
        dst = os.path.join(rdir, "%s-%s-seed%d.txt" % (prop, tier, seed))
        shutil.copy(rp, dst)
        ev["coverage"]["replay"] = dst
        print(text.strip())
        print("VIOLATION property=%s replay=%s" % (prop, dst))
        rc = 1
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    shutil.rmtree(run_dir, ignore_errors=True)
    if rc == 0:
        for m in inconclusive:
            print(m)
        print("OK property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (prop, tier, evals, len(hashes), time.time() - t0))
    return rc


def replay(path):
    kv = {}
    with open(path) as fh:
        for l in fh:
            k, _, v = l.rstrip("\n").partition(" ")
            kv[k] = v
    prop, tier = kv["property"], kv["tier"]
    peers = CK.CHECKS[prop].get("peers", {}).get(tier, [])
    exes = build(set([kv["variant"]] + list(peers)))
    args = [exes[kv["variant"]], "replay", os.path.abspath(path), "--variant", kv["variant"], "--scale", kv.get("scale", "1.0")]
    if peers:
        args += ["--peers", ",".join("%s=%s" % (p, exes[p]) for p in peers)]
    tmp = tempfile.mkdtemp(prefix="replay-", dir=WORK)
    try:
        return subprocess.call(args, env=dict(run_env(kv["variant"]), TMPDIR=tmp), cwd=WORK)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    os.makedirs(WORK, exist_ok=True)
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == "setup":
            build(["hw", "sw"])
            print("setup ok")
            return 0
        if a[0] == "replay":
            return replay(a[1])
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        if a[0] == "all":
            bad = 0
            for p in sorted(CK.CHECKS):
                bad |= check(p, tier)
            return bad
        return check(a[0], tier)
    except BuildError as e:
        print("ERROR:", e)
        return 2


sys.exit(main())
