#!/usr/bin/env python3
"""Build and run one check.

  check.py setup                  build everything
  check.py ID [--tier T]          run the check of a property (VERIF_SEED, VERIF_TIER)
  check.py replay FILE            run one saved case again

Exit codes: 0 held, 1 violated (with a VIOLATION line), 2 no answer.
"""
import concurrent.futures, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
PROBE = os.path.join(VERIF, "probe")
PROBE_NO_STD = os.path.join(VERIF, "probe_no_std")
PROPERTIES = ["C%02d" % i for i in range(1, 24)]
STABLE = "stable-x86_64-unknown-linux-gnu"

# name -> (toolchain, profile, features)
CONFIGS = {
    "default": ("stable", "release", "std,wyrng"),
    "default-unoptimised-checked": ("stable", "plain", "std,wyrng"),
    "fastrand": ("stable", "release", "std,fastrand"),
    "oorandom": ("stable", "release", "std,oorandom"),
    "all-generators": ("stable", "release", "std,wyrng,fastrand,oorandom"),
    "alloc": ("stable", "release", "alloc"),
    "alloc-unoptimised-checked": ("stable", "plain", "alloc,wyrng"),
    "alloc-oorandom": ("stable", "release", "alloc,oorandom"),
    "nothing": ("stable", "release", ""),
    "only-wyrng": ("stable", "release", "wyrng"),
    "anticipate": ("nightly", "release", "std,wyrng,anticipate"),
    "anticipate-alloc-unoptimised-checked": ("nightly", "plain", "alloc,anticipate"),
}
# Only compiled, in a program without the standard library.
NO_STD = {
    "no-std": ("stable", "release", ""),
    "no-std-generators": ("stable", "plain", "wyrng,oorandom"),
    "no-std-alloc": ("stable", "plain", "alloc,wyrng"),
    "no-std-alloc-oorandom": ("stable", "release", "alloc,oorandom"),
    "no-std-alloc-anticipate": ("nightly", "release", "alloc,anticipate"),
}


def env_for(toolchain="stable"):
    e = dict(os.environ)
    e["PATH"] = e.get("PATH", "/usr/bin:/bin") + ":/root/.cargo/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTUP_TOOLCHAIN", None)
    if toolchain == "stable":
        e["RUSTUP_TOOLCHAIN"] = STABLE
    else:
        e["RUSTUP_TOOLCHAIN"] = "nightly"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def source_hash():
    h = hashlib.sha256()
    files = ["Cargo.toml", "Cargo.lock", "build.rs"]
    for d, _, names in os.walk(os.path.join(REPO, "src")):
        files += [os.path.relpath(os.path.join(d, n), REPO) for n in names]
    for f in sorted(files):
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            h.update(f.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def cargo(args, cwd, toolchain="stable", timeout=1500):
    return subprocess.run(["cargo"] + args, cwd=cwd, env=env_for(toolchain), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def fresh(target, toolchain, cwd):
    """Forget the compiled tested crate if it was compiled from other sources."""
    stamp = os.path.join(target, "sources")
    now = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now and os.path.isdir(target):
        r = cargo(["clean", "--offline", "-p", "graph_safe_compare", "--target-dir", target], cwd, toolchain)
        if r.returncode != 0:
            shutil.rmtree(target, ignore_errors=True)
    os.makedirs(target, exist_ok=True)
    return stamp, now


def binary(pid):
    return os.path.join(HARNESS, "target", "bin", pid)


def build_harness(pid):
    """The harness with only this property."""
    target = os.path.join(HARNESS, "target")
    stamp, now = fresh(target, "stable", HARNESS)
    r = cargo(["build", "--release", "--offline", "--quiet", "--no-default-features", "--features", pid], HARNESS)
    if r.returncode != 0:
        print(r.stdout[-6000:], file=sys.stderr)
        print("check.py: the harness does not build", file=sys.stderr)
        sys.exit(2)
    os.makedirs(os.path.dirname(binary(pid)), exist_ok=True)
    if os.path.exists(binary(pid)):
        os.remove(binary(pid))
    shutil.copy2(os.path.join(target, "release", "gsc_verif"), binary(pid))
    open(stamp, "w").write(now)


def build_probe(name):
    """None, or what went wrong as ("broken" or "unavailable", text)."""
    toolchain, profile, features = CONFIGS.get(name) or NO_STD[name]
    crate = PROBE if name in CONFIGS else PROBE_NO_STD
    target = os.path.join(crate, "target", "build", name)
    out = os.path.join(crate, "target", "bin", name)
    stamp, now = fresh(target, toolchain, crate)
    if os.path.exists(out):
        os.remove(out)
    r = cargo(["build", "--offline", "--quiet", "--profile", profile, "--features", features, "--target-dir", target], crate, toolchain)
    if r.returncode != 0:
        broken = any(m in r.stdout for m in ("could not compile `graph_safe_compare`", "(which `graph_safe_compare` depends on)",
                                             "no global memory allocator found"))
        return ("broken" if broken else "unavailable", r.stdout)
    if name in NO_STD:
        open(stamp, "w").write(now)
        return None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    shutil.copy2(os.path.join(target, profile, "gsc_probe"), out)
    open(stamp, "w").write(now)
    return None


def build_probes():
    os.makedirs(os.path.join(PROBE, "target", "bin"), exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        names = list(CONFIGS) + list(NO_STD)
        return {n: r for n, r in zip(names, ex.map(build_probe, names)) if r}


def errors_of(text):
    """The compiler's messages, without its warnings."""
    parts = text.split("\n\n")
    return "\n\n".join(p for p in parts if p.lstrip().startswith("error"))[:6000]


def save_replay(pid, body):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(body)
    path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha256(text.encode()).hexdigest()[:16]))
    open(path, "w").write(text)
    return path


def violation(pid, path, why):
    print("%s: %s" % (pid, why))
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)


def write_evidence(pid, tier, seed, coverage, wall, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
               "wall_s": wall, "violations": violations}, open(os.path.join(d, pid + ".json"), "w"))


STUCK = 3  # a case seems to never end
STUCK_ALONE_S = 60  # alone, a case takes at most a few seconds
CRASHES = {-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGTRAP, -signal.SIGFPE}


def run_binary(pid, args, timeout):
    try:
        return subprocess.run([binary(pid)] + args, timeout=timeout, env=env_for()).returncode
    except subprocess.TimeoutExpired:
        print("check.py: no answer within %d s" % timeout, file=sys.stderr)
        return None


def replay_file(path):
    """1 violated, 0 held, 2 no answer."""
    body = json.load(open(path))
    pid = body["property"]
    if body.get("section") == "build":
        r = build_probe(body["config"])
        if r and r[0] == "broken":
            violation(pid, path, "configuration %s does not compile:\n%s" % (body["config"], errors_of(r[1])))
            return 1
        print("%s: configuration %s compiles" % (pid, body["config"])) if not r else print(r[1][-3000:])
        return 2 if r else 0
    if pid == "C21":
        build_probes()
    build_harness(pid)
    rc = run_binary(pid, ["replay", path], STUCK_ALONE_S if body.get("stuck") else 600)
    if rc is None and body.get("stuck"):
        violation(pid, path, "the comparison does not end within %d s" % STUCK_ALONE_S)
        return 1
    if rc in CRASHES:
        violation(pid, path, "the process crashes (signal %d)" % -rc)
        return 1
    return rc if rc in (0, 1) else 2


def locate(pid, tier, seed, timeout):
    """Run again with a journal of the cases in work; find one that crashes, or never ends, on its own."""
    tmp = tempfile.mkdtemp(prefix="gsc-journal-")
    try:
        rc = run_binary(pid, ["run", pid, "--tier", tier, "--seed", str(seed), "--root", VERIF, "--journal", tmp], timeout)
        if rc not in CRASHES and rc != STUCK:
            return None
        for f in sorted(os.listdir(tmp)):
            p = os.path.join(tmp, f)
            try:
                body = json.load(open(p))
            except ValueError:
                continue
            outcomes = set()
            for _ in range(2):
                r = run_binary(pid, ["replay", p], STUCK_ALONE_S)
                outcomes.add("crashes" if r in CRASHES else "stuck" if r is None else "ends")
            if outcomes == {"crashes"}:
                body["message"] = "the process crashes (signal)"
                return save_replay(pid, body)
            if outcomes == {"stuck"}:
                body["message"] = "the comparison does not end within %d s" % STUCK_ALONE_S
                body["stuck"] = True
                return save_replay(pid, body)
        return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(pid, tier, seed):
    start = time.time()
    limit = 840 if tier == "quick" else 4 * 3600
    if pid == "C21":
        problems = build_probes()
        broken = {n: r for n, r in problems.items() if r[0] == "broken"}
        if broken and "default" not in problems:
            n = sorted(broken)[0]
            why = "configuration %s does not compile:\n%s" % (n, errors_of(broken[n][1]))
            path = save_replay(pid, {"property": pid, "section": "build", "config": n, "message": why})
            write_evidence(pid, tier, seed, {"evaluations": len(CONFIGS) + len(NO_STD), "distinct_nontrivial": len(CONFIGS) + len(NO_STD),
                                             "rule": "compilation of each configuration; non-trivial: all",
                                             "samples": [{"configuration": n, "features": (CONFIGS.get(n) or NO_STD[n])[2], "error": errors_of(broken[n][1])[:2000]}]},
                           time.time() - start, 1)
            violation(pid, path, why)
            return 1
        if "default" in problems:
            print(problems["default"][1][-4000:], file=sys.stderr)
            return 2
        for n, r in problems.items():
            print("C21: note: configuration %s is left out, it cannot be built here: %s" % (n, errors_of(r[1])[:500]))
    build_harness(pid)
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    rc = run_binary(pid, ["run", pid, "--tier", tier, "--seed", str(seed), "--root", VERIF], max(60, limit - (time.time() - start)))
    if rc in (0, 1):
        return rc
    if rc in CRASHES or rc == STUCK:
        left = max(60, limit - (time.time() - start))
        path = locate(pid, tier, seed, left)
        if path:
            body = json.load(open(path))
            write_evidence(pid, tier, seed, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the case that crashes the process or never ends",
                                             "samples": [body if len(json.dumps(body)) < 20000 else {"replay": path}]}, time.time() - start, 1)
            violation(pid, path, body["message"])
            return 1
        print("check.py: the process crashed or got stuck (%d) but no case does so on its own" % rc, file=sys.stderr)
        return 2
    print("check.py: unexpected end of the check: %r" % rc, file=sys.stderr)
    return 2


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        for pid in PROPERTIES:
            build_harness(pid)
        problems = build_probes()
        for n, r in problems.items():
            print("note: configuration %s: %s" % (n, errors_of(r[1])[:500]))
        return 0
    if a[0] == "replay":
        return replay_file(os.path.abspath(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return check(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
