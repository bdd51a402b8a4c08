#!/usr/bin/env python3
"""Runs the laws of one property against /repo's working tree.

  check.py P01                 tier from VERIF_TIER (default quick)
  check.py P01 --replay FILE   re-runs a saved failing case
  check.py --build [P01 ...]   only builds (setup_cmd)
Exit: 0 held, 1 violated, anything else is an error of the check.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shlex, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ALEPH_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "g++"
FLAGS = ["-std=c++14", "-O1", "-g1", "-w", "-pipe", "-include", "functional", "-fsanitize=address", "-fno-omit-frame-pointer",
         "-D_GLIBCXX_ASSERTIONS", "-I" + VERIF + "/harness", "-I" + VERIF + "/config", "-I" + REPO + "/include", "-I" + REPO]
WORKERS = max(2, min(8, os.cpu_count() or 4))


def sources(prop):
    return sorted(glob.glob(os.path.join(VERIF, "laws", prop + "_*.cc")))


def scripts(prop):
    return sorted(glob.glob(os.path.join(VERIF, "laws", prop + "_*.py")))


def digest(cmd, dep_file):
    h = hashlib.sha256("\0".join(cmd).encode())
    with open(dep_file) as f:
        deps = f.read().replace("\\\n", " ").split(":", 1)[1].split()
    for d in sorted(set(deps)):
        d = os.path.normpath(d)
        if d.startswith((REPO + "/", VERIF + "/")):
            h.update(d.encode())
            with open(d, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def compile_one(name, cmd):
    """Runs cmd (which writes build/name and build/name.d) unless nothing it depends on has changed."""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, name)
    dep, key = target + ".d", target + ".key"
    with open(target + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            with open(key) as f:
                if os.path.exists(target) and f.read() == digest(cmd, dep):
                    return name, 0.0, None
        except (OSError, IndexError):
            pass
        t = time.time()
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            return name, time.time() - t, r.stdout[-6000:]
        with open(key, "w") as f:
            f.write(digest(cmd, dep))
        return name, time.time() - t, None


def extra_flags(src):
    with open(src) as f:
        m = re.match(r"//\s*flags:(.*)", f.readline())
    return shlex.split(m.group(1)) if m else []


def tools(src):
    """Programs of the repository that a law runs: second line '// tools: a b c'."""
    with open(src) as f:
        f.readline()
        m = re.match(r"//\s*tools:(.*)", f.readline())
    return m.group(1).split() if m else []


def jobs(prop):
    out = []
    for src in sources(prop):
        name = os.path.basename(src)[:-3]
        ex = extra_flags(src)
        libs = [x for x in ex if x.startswith(("-l", "-Wl,", "/"))]
        comp = [x for x in ex if x not in libs]
        target = os.path.join(BUILD, name)
        out.append((name, [CXX] + FLAGS + comp + ["-MMD", "-MF", target + ".d", src, os.path.join(BUILD, "pbt.o"), "-o", target] + libs))
        for t in tools(src):
            target = os.path.join(BUILD, "tool_" + t)
            out.append(("tool_" + t, [CXX] + FLAGS + comp + ["-MMD", "-MF", target + ".d", REPO + "/src/tools/" + t + ".cc", os.path.join(BUILD, "redirect.o"), "-o", target] + libs))
    for src in scripts(prop):
        r = subprocess.run([sys.executable, src, "--jobs", BUILD, REPO, VERIF], stdout=subprocess.PIPE, text=True)
        if r.returncode == 0 and r.stdout.strip():
            for name, cmd in json.loads(r.stdout):
                out.append((name, cmd))
    return out


def build(props):
    target = os.path.join(BUILD, "pbt.o")
    name, t, err = compile_one("pbt.o", [CXX] + FLAGS + ["-MMD", "-MF", target + ".d", "-c", VERIF + "/harness/pbt.cc", "-o", target])
    errors = [(name, err)] if err else []
    target = os.path.join(BUILD, "redirect.o")
    name, t, err = compile_one("redirect.o", [CXX] + [x for x in FLAGS if not x.startswith("-fsanitize")] + ["-MMD", "-MF", target + ".d", "-c", VERIF + "/harness/redirect.cc", "-o", target])
    if err:
        errors.append((name, err))
    if errors:
        return errors
    todo, seen = [], set()
    for p in props:
        for n, c in jobs(p):
            if n not in seen:
                seen.add(n)
                todo.append((n, c))
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        for name, t, err in ex.map(lambda j: compile_one(*j), todo):
            if t:
                print("built %s in %.1f s" % (name, t), flush=True)
            if err:
                errors.append((name, err))
    return errors


def known_findings(prop):
    """Active findings of a property: {id: text}; 'fixed:' lines are history only."""
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: id=(\S+) property=(\S+) (.*)", line)
            if m and m.group(2) == prop:
                out[m.group(1)] = m.group(3).strip()
    return out


def main():
    args = sys.argv[1:]
    all_props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    if args[:1] == ["--build"]:
        props = args[1:] or all_props
        errors = build(props)
        for n, e in errors:
            print("BUILD FAILED %s\n%s" % (n, e))
        return 3 if errors else 0

    prop = args[0]
    opts = dict(zip(args[1::2], args[2::2]))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = opts.get("--tier", tier)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    known = known_findings(prop)
    evidence_file = os.path.join(VERIF, "evidence", prop + ".json")

    errors = build([prop])
    if errors:
        for n, e in errors:
            print("BUILD FAILED %s\n%s" % (n, e))
        return 3
    if not sources(prop) and not scripts(prop):
        print("no laws for " + prop)
        return 3

    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=77:malloc_context_size=8:color=never"
    env["OMP_NUM_THREADS"] = env.get("OMP_NUM_THREADS", "2")
    env["LC_ALL"] = "C.UTF-8"
    env["ALEPH_TOOLS"] = BUILD
    base = tempfile.mkdtemp(prefix="aleph-verif-")
    laws, violations, problems = [], [], []
    try:
        runs = [([os.path.join(BUILD, os.path.basename(s)[:-3])], os.path.basename(s)[:-3]) for s in sources(prop)]
        runs += [([sys.executable, s], os.path.basename(s)) for s in scripts(prop)]
        for cmd, name in runs:
            d = os.path.join(base, name)
            os.makedirs(d)
            out = os.path.join(d, "out.json")
            cmd = cmd + ["--tier", tier, "--seed", str(seed), "--workers", str(WORKERS), "--out", out, "--base", d, "--known", ",".join(known) or ","]
            for o in ("--law", "--scale", "--wall"):
                if o in opts:
                    cmd += [o, opts[o]]
            if "--replay" in opts:
                first = open(opts["--replay"]).readline().split()
                if first[:2] == ["executable", name]:
                    return subprocess.run(cmd + ["--replay", os.path.abspath(opts["--replay"])], env=env).returncode
                continue
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            try:
                res = json.load(open(out))
            except (OSError, ValueError) as e:
                problems.append("%s: no result (exit %s, %s)\n%s" % (name, r.returncode, e, r.stdout[-3000:]))
                continue
            if res.get("infrastructure"):
                problems.append("%s: %s" % (name, res["infrastructure"]))
            for l in res["laws"]:
                l["executable"] = name
                laws.append(l)
                f = l.get("failure")
                if f and f["status"] == "confirmed":
                    violations.append(l)
                elif f:
                    problems.append("%s/%s: failure %s: %s" % (name, l["law"], f["status"], f["message"]))
    finally:
        shutil.rmtree(base, ignore_errors=True)

    replay_dir = os.path.join(VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    lines = []
    for l in violations:
        f = l["failure"]
        path = os.path.join(replay_dir, "%s_%s.txt" % (prop, l["law"]))
        with open(path, "w") as o:
            o.write("executable %s\nproperty %s\nlaw %s\nseed %d\nindex %d\nmessage %s\ninput %s\n%schoices %s\n" % (
                l["executable"], prop, l["law"], seed, f["index"], json.dumps(f["message"]), json.dumps(f["input"]),
                "".join("before %s\n" % " ".join(map(str, b)) for b in f.get("before", [])),
                " ".join(map(str, f["choices"]))))
        print("law %s failed: %s\n  input: %s" % (l["law"], f["message"], f["input"]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))

    observed = {}
    for l in laws:
        for k, v in l.get("known", {}).items():
            observed.setdefault(k, [0, v["sample"]])[0] += v["count"]
    for k, text in known.items():
        n, sample = observed.get(k, (0, ""))
        print("KNOWN-FINDING: property=%s %s [%s; observed %d times in this run%s]" % (prop, text, k, n, "; e.g. " + sample[:200] if sample else ""))

    coverage = {
        "evaluations": sum(l["evaluations"] for l in laws),
        "distinct_nontrivial": sum(l["distinct_nontrivial"] for l in laws),
        "rule": "Per law: " + " || ".join("%s: %s" % (l["law"], l["rule"]) for l in laws),
        "samples": [{"law": l["law"], "input": s} for l in laws for s in l["samples"][:2]],
        "discarded": sum(l["discarded"] for l in laws),
        "laws": [{k: l[k] for k in ("law", "executable", "evaluations", "discarded", "nontrivial", "distinct_nontrivial", "labels", "known")} for l in laws],
    }
    os.makedirs(os.path.dirname(evidence_file), exist_ok=True)
    with open(evidence_file, "w") as f:
        json.dump({"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
                   "coverage": coverage, "wall_s": round(time.time() - start, 2), "violations": len(violations),
                   "assumptions": ["the reference model in /verif/harness is correct", "g++ " + "with AddressSanitizer, asserts on",
                                   "known findings: " + (", ".join(known) or "none")]}, f, indent=1)
    for l in laws:
        print("%-34s %7d cases, %6d distinct non-trivial, %d discarded %s" % (l["law"], l["evaluations"], l["distinct_nontrivial"], l["discarded"], "FAILED" if l.get("failure") else ""))
    for p in problems:
        print("PROBLEM " + p)
    print("%s %s seed=%d: %d violations, %.1f s" % (prop, tier, seed, len(violations), time.time() - start))
    for l in lines:
        print(l)
    if violations:
        return 1
    if problems:
        return 4
    # a law that ran but never produced a non-trivial case decides nothing
    for l in laws:
        if l["distinct_nontrivial"] == 0:
            print("PROBLEM law %s had no non-trivial case" % l["law"])
            return 5
    return 0


if __name__ == "__main__":
    sys.exit(main())
