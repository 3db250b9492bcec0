#!/usr/bin/env python3
"""Builds and runs the explorer of one property against /repo's working tree.

usage: check.py ID [--thorough] [--setup]

Exit 0: the property held on everything explored; exit 1 with a line
"VIOLATION property=<id> replay=<path>" otherwise; exit 2: no answer (build failure etc.).
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
CFG = json.load(open(os.path.join(VERIF, "tools", "checks.json")))
JOBS = os.cpu_count() or 4


def no_aslr():
    """Runs explorers without address randomisation where that is possible, for reproducibility."""
    try:
        if subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL).returncode == 0:
            return ["setarch", "-R"]
    except OSError:
        pass
    return []


NOASLR = no_aslr()

FLAGS = ["-std=c++20", "-include", "cstdint", "-I" + REPO + "/src", "-I" + HARN,
         "-DSOURCE_PATH_SIZE=%d" % (len(REPO) + 1), "-g1", "-w", "-pthread"]
VARIANTS = {
    # hook on, libstdc++ assertions on
    "fast": ["-O2", "-DLOG_SURGEON_VERIF", "-D_GLIBCXX_ASSERTIONS"],
    "san": ["-O1", "-DLOG_SURGEON_VERIF", "-D_GLIBCXX_ASSERTIONS",
            "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
            "-fno-sanitize=vptr"],
    # hook off: the code exactly as shipped
    "plain": ["-O2", "-D_GLIBCXX_ASSERTIONS"],
}


def lib_sources():
    return sorted(glob.glob(REPO + "/src/log_surgeon/**/*.cpp", recursive=True))


def tree_hash(variant, harness):
    h = hashlib.sha256()
    h.update(repr((FLAGS, VARIANTS[variant], harness)).encode())
    files = sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + sorted(glob.glob(HARN + "/*.hpp"))
    if harness:
        files.append(os.path.join(HARN, harness + ".cpp"))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def build(variant, harness):
    """Returns the path of the harness binary, built from the current tree."""
    tag = tree_hash(variant, harness)
    libtag = tree_hash(variant, None)
    d = os.path.join(BUILD, variant + "-" + libtag)
    exe = os.path.join(BUILD, "%s-%s-%s" % (harness, variant, tag))
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    flags = FLAGS + VARIANTS[variant]
    jobs = []
    objs = []
    for s in lib_sources() + [os.path.join(HARN, harness + ".cpp")]:
        mine = s.startswith(HARN)
        o = exe + ".o" if mine else os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        objs.append(o)
        if mine or not os.path.exists(o):
            # explorers look into objects of the library where that saves rebuilding them
            jobs.append((["g++"] + flags + (["-fno-access-control"] if mine else []) + ["-c", s, "-o", o + ".tmp"], o))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        def one(j):
            run(j[0])
            os.replace(j[0][-1], j[1])
        list(ex.map(one, jobs))
    run(["g++"] + flags + objs + ["-o", exe + ".tmp", "-lfmt"])
    os.replace(exe + ".tmp", exe)
    os.unlink(exe + ".o")
    return exe


def known_keys(pid):
    keys = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                keys.append((m.group(2), m.group(3)))
    return keys


def run_shards(exe, part, tmp, thorough, known, replays, budget):
    n = part.get("shards", JOBS)
    procs = []
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:handle_abort=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["TMPDIR"] = tmp
    def one(i):
        cmd = NOASLR + [exe] if part.get("noaslr", True) else [exe]
        cmd += ["--shard", str(i), "--nshards", str(n), "--out", tmp, "--replays", replays,
                "--budget", str(budget), "--tier-opt", part.get("opt", "")]
        if thorough:
            cmd.append("--thorough")
        for k, _ in known:
            cmd += ["--known", k]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                               timeout=budget + 400, cwd=tmp)
            return p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1")
        except subprocess.TimeoutExpired as e:
            return -99, (e.stdout or b"").decode("latin-1"), "timeout"
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(one, range(n))), n


def main():
    a = sys.argv[1:]
    if "--setup" in a:
        os.makedirs(BUILD, exist_ok=True)
        return 0
    pid = a[0]
    thorough = "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough"
    t0 = time.time()
    cfg = CFG[pid]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replays = os.path.join(BUILD, "replays")
    os.makedirs(replays, exist_ok=True)
    known = known_keys(pid)
    agg = {"evaluations": 0, "distinct_nontrivial": 0, "states": 0, "transitions": 0, "traces": 0}
    extra, samples, bounds, exhaustive = {}, [], [], True
    fails, hits, errors = [], set(), []
    parts = [p for p in cfg["parts"] if thorough or not p.get("thorough_only")]
    for pi, part in enumerate(parts):
        try:
            exe = build(part["variant"], part["harness"])
        except RuntimeError as e:
            print("cannot build the explorer:\n%s" % e)
            return 2
        tmp = os.path.join(BUILD, "run-%s-%d-%d" % (pid, os.getpid(), pi))
        os.makedirs(tmp)
        left = (780 if thorough else 400) - (time.time() - t0)
        res, n = run_shards(exe, part, tmp, thorough, known, replays, max(30, left))
        for i, (rc, out, err) in enumerate(res):
            f = re.findall(r"^FAIL (\S+) :: (.*)$", out, re.M)
            fails += [(exe, p, w, rc) for p, w in f]
            hits |= set(re.findall(r"^KNOWN (\S+)$", out, re.M))
            ev = os.path.join(tmp, "shard%d.json" % i)
            if os.path.exists(ev):
                e = json.load(open(ev, encoding="latin-1"))
                for k in agg:
                    agg[k] += e[k]
                for k, v in e["extra"].items():
                    extra[k] = max(extra.get(k, 0), v) if k.startswith("max_") else extra.get(k, 0) + v
                samples += e["samples"][:2]
                for b in e["bounds"]:
                    if b not in bounds:
                        bounds.append(b)
                exhaustive &= e["exhaustive"]
            elif not f:
                errors.append("shard %d of %s ended with %s: %s" % (i, part["harness"], rc, err[-1500:]))
                exhaustive = False
            if f and err.strip():
                sys.stderr.write(err[-3000:])
        shutil.rmtree(tmp, ignore_errors=True)
        if fails:
            break
    confirmed = []
    for exe, path, why, rc in fails[:8]:
        p = subprocess.run(NOASLR + [exe, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        ok = p.returncode != 0
        confirmed.append((ok, path, why))
        if ok:
            break
    wall = time.time() - t0
    cov = {
        "states": agg["states"], "transitions": agg["transitions"],
        "traces_validated_against_impl": agg["traces"],
        "distinct_nontrivial": agg["distinct_nontrivial"],
        "rule": cfg["rule"], "samples": samples[:8] or ["(no case completed)"],
        "bounds": bounds, "exhaustive": bool(exhaustive and not fails),
    }
    if agg["evaluations"] != agg["traces"]:
        cov["executions"] = agg["evaluations"]
    cov.update({k: v for k, v in extra.items()})
    ev = {"property": pid, "tier": "thorough" if thorough else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": cfg.get("level", "model_checking"),
          "coverage": cov, "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2),
          "violations": len([c for c in confirmed if c[0]])}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k, d in known:
        print("KNOWN-FINDING: property=%s %s%s" % (pid, d, "" if k in hits else " (not reached in this tier)"))
    print("%s %s: %d executions, %d states, %d transitions, %d traces against the reference, %.0f s%s" % (
        pid, ev["tier"], agg["evaluations"], agg["states"], agg["transitions"], agg["traces"], wall,
        "" if exhaustive else " (stopped before the bound)"))
    if fails:
        good = [c for c in confirmed if c[0]] or confirmed
        for ok, path, why in good[:1]:
            print("  " + why)
            if not ok:
                print("  (the case failed in the exploration, after the cases before it in its shard; "
                      "alone, on fresh objects, it does not)")
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("\n".join(errors))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
