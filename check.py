#!/usr/bin/env python3
"""Decides one property:  python3 check.py P01 [--tier quick|thorough] [--replay FILE]

Builds the harnesses of the property together with the library sources of the repository's current working tree, runs
generated cases on all cores, confirms and shrinks any failure, rewrites evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check itself could not run.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
sys.path.insert(0, ROOT)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------------------------------- building
COMMON = ["-std=c++17", "-g", "-DNDEBUG", "-pthread", "-w", "-fno-omit-frame-pointer"]
KINDS = {
    "native": dict(cxx="g++", lib=["-O1"], rt=["-O1"], link=[]),
    "opt": dict(cxx="g++", lib=["-O2"], rt=["-O1"], link=[]),
    "sched": dict(cxx="g++", lib=["-O1", "-fsanitize=thread", "-DUSE_SCHED"], rt=["-O1", "-fno-threadsafe-statics"], link=["-ldl"], sched=True),
    "asan": dict(cxx="g++", lib=["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], rt=["-O1"],
                 link=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="g++", lib=["-O1", "-fsanitize=thread"], rt=["-O1"], link=["-fsanitize=thread"]),
    "fuzz": dict(cxx="clang++", lib=["-O1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=undefined"],
                 rt=["-O1", "-DPBT_LIBFUZZER", "-fsanitize=address"], link=["-fsanitize=fuzzer,address,undefined"]),
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def gen_definitions(defs):
    """The header the repository's CMake generates from its build options."""
    body = "#pragma once\n"
    defs = list(defs)
    body += "#define G3LOG_DEBUG %s\n" % ("DBUG" if "CHANGE_G3LOG_DEBUG_TO_DBUG" in defs else "DEBUG")
    for d in defs:
        body += "#define %s\n" % d
    d = os.path.join(BUILD, "gen-" + sha(body), "g3log")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "generated_definitions.hpp")
    if not os.path.exists(p) or read(p).decode() != body:
        with open(p + ".%d" % os.getpid(), "w") as f:
            f.write(body)
        os.replace(p + ".%d" % os.getpid(), p)
    return os.path.dirname(d)


_tree_hash = None


def header_hash():
    """Hash of every header the compiled files can include (repository and framework)."""
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for base in (os.path.join(REPO, "src"), os.path.join(ROOT, "lib"), os.path.join(ROOT, "harness")):
            for dp, dn, fn in sorted(os.walk(base)):
                for f in sorted(fn):
                    if not f.endswith(".cpp"):
                        p = os.path.join(dp, f)
                        h.update(p.encode() + b"\0" + read(p) + b"\0")
        _tree_hash = h.hexdigest()
    return _tree_hash


class BuildError(Exception):
    pass


def run_cmd(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])


def compile_one(job):
    cxx, flags, src, obj = job
    if not os.path.exists(obj):
        tmp = obj + ".%d.%s.o" % (os.getpid(), sha(src))
        try:
            run_cmd([cxx] + flags + ["-c", src, "-o", tmp])
        except BuildError:
            if "/harness/" not in src:
                raise
            # uncommon uses of the interface (reference results ...) may no longer compile: without them
            run_cmd([cxx] + flags + ["-DPBT_REDUCED", "-c", src, "-o", tmp])
            log("note: %s compiles only without its uncommon uses of the interface" % os.path.basename(src))
        os.replace(tmp, obj)
    return obj


def lib_sources():
    return sorted(p for p in glob.glob(os.path.join(REPO, "src", "*.cpp")) if "windows" not in os.path.basename(p))


def plan_binary(kind, gen, src, defs):
    """-> (list of compile jobs, link command, binary path)"""
    k = KINDS[kind]
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + gen_definitions(gen), "-I" + os.path.join(ROOT, "lib"), "-I" + os.path.join(ROOT, "harness")]
    hh = header_hash()
    os.makedirs(BUILD, exist_ok=True)
    jobs, objs = [], []

    def add(s, flags):
        fl = COMMON + flags + inc
        o = os.path.join(BUILD, sha(k["cxx"], fl, s, read(s), hh) + ".o")
        jobs.append((k["cxx"], fl, s, o))
        objs.append(o)

    hdefs = ["-D" + d for d in defs]
    for s in lib_sources():
        add(s, k["lib"])
    add(os.path.join(ROOT, "harness", src), k["lib"] + hdefs)
    add(os.path.join(ROOT, "lib", "pbt.cpp"), k["rt"])
    if k.get("sched"):
        add(os.path.join(ROOT, "lib", "sched.cpp"), k["rt"])
    binp = os.path.join(BUILD, src.replace(".cpp", "") + "-" + kind + "-" + sha(k["link"], *objs))
    link = [k["cxx"]] + objs + ["-o", binp + ".%d" % os.getpid(), "-pthread", "-rdynamic"] + k["link"]
    return jobs, link, binp


def build_all(engines):
    plans = {}
    jobs = {}
    for e in engines:
        if e.get("python"):
            continue
        key = (e["kind"], tuple(e.get("gen", ())), e["src"], tuple(e.get("defs", ())))
        if key not in plans:
            plans[key] = plan_binary(*key)
            for j in plans[key][0]:
                jobs[j[3]] = j
        e["bin"] = plans[key][2]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        # longest first: harnesses
        list(ex.map(compile_one, sorted(jobs.values(), key=lambda j: "/harness/" not in j[2])))

        def link(p):
            _, l, b = p
            if not os.path.exists(b):
                run_cmd(l)
                os.replace(b + ".%d" % os.getpid(), b)
        list(ex.map(link, plans.values()))


# -------------------------------------------------------------------------------------------------------------- running
ENV = dict(os.environ)
ENV.update({
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1:suppressions=" + os.path.join(ROOT, "lib", "tsan.supp"),
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=67:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:allow_user_segv_handler=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=67",
    "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8",
})
ENV.pop("TZ", None)


def engine_cmd(e, tier, seed, shard, outdir, scratch):
    t = e["thorough"] if tier == "thorough" else e["quick"]
    out = os.path.join(outdir, "%s-%d.json" % (e["name"], shard))
    cmd = [e["bin"], "--seed", str(seed), "--shard", str(shard + 1000 * e["idx"]), "--cases", str(t["cases"]), "--time", str(t["time"]),
           "--out", out, "--fail-file", out + ".fail", "--scratch", os.path.join(scratch, "%s-%d" % (e["name"], shard))]
    if e["kind"] in ("sched",):
        cmd += ["--deterministic", "--no-aslr"]
    if e.get("deterministic"):
        cmd += ["--deterministic"]
    if e["kind"] == "tsan":
        cmd += ["--no-aslr"]
    if "batch" in e:
        cmd += ["--batch", str(e["batch"])]
    if "confirm" in e:
        cmd += ["--confirm", str(e["confirm"])]
    if tier == "thorough":
        cmd += ["--thorough"]
    cmd += ["--shrink-time", str(e.get("shrink", 40))]
    return cmd, out, t["time"]


def run_engines(pid, engines, tier, seed, scratch):
    outdir = os.path.join(scratch, "out")
    os.makedirs(outdir, exist_ok=True)
    queue = []
    for e in engines:
        n = e.get("shards", 8)
        for s in range(n):
            queue.append((e, s))
    running, results, violation = [], [], None
    errors = []
    while queue or running:
        while queue and len(running) < JOBS and violation is None:
            e, s = queue.pop(0)
            cmd, out, tcap = engine_cmd(e, tier, seed, s, outdir, scratch)
            p = subprocess.Popen(cmd, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=scratch)
            running.append((p, e, s, out, time.time(), tcap + e.get("shrink", 40) + 240))
        if violation is not None:
            queue = []
        time.sleep(0.02)
        still = []
        for item in running:
            p, e, s, out, t0, cap = item
            rc = p.poll()
            if rc is None:
                if violation is not None and time.time() - violation > 5:
                    p.terminate()
                    try:
                        p.wait(5)
                    except subprocess.TimeoutExpired:
                        p.kill()
                        p.wait()
                    continue
                if time.time() - t0 > cap:
                    p.terminate()
                    p.wait()
                    errors.append("%s shard %d ran over its cap" % (e["name"], s))
                    continue
                still.append(item)
                continue
            err = p.stderr.read().decode(errors="replace")
            try:
                r = json.load(open(out))
                r["engine"], r["shard"], r["out"] = e["name"], s, out
                results.append(r)
                if r["violated"] and violation is None:
                    violation = time.time()
            except Exception:
                if rc not in (3, -15):
                    errors.append("%s shard %d: exit %s %s" % (e["name"], s, rc, err[-800:]))
        running = still
    return results, errors


def union_hashes(results):
    tot = set()
    per = {}
    for r in results:
        p = r["out"] + ".hashes"
        if os.path.exists(p):
            b = read(p)
            hs = struct.unpack("<%dQ" % (len(b) // 8), b)
            eng = r["engine"]
            tot.update((eng, h) for h in hs)
    return len(tot)


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def write_replay(pid, e, r, seed):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    data = read(r["out"] + ".fail") if os.path.exists(r["out"] + ".fail") else b""
    path = os.path.join(d, "%s-%s-%s.json" % (pid, r["engine"], sha(data, r["msg"])[:8]))
    with open(path, "w") as f:
        json.dump({"property": pid, "engine": r["engine"], "seed": seed, "kind": r["kind"], "message": r["msg"], "case": r["desc"],
                   "choices_hex": data.hex(), "how": "python3 check.py %s --replay %s" % (pid, path)}, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build everything the quick checks use")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--engine", help="only this engine (debugging)")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    from checks import CHECKS
    if a.setup:
        try:
            build_all([dict(e) for c in CHECKS.values() for e in c["engines"] if e.get("quick")])
        except BuildError as ex:
            log("build failed:\n" + str(ex))
            return 2
        return 0
    spec = CHECKS[a.property]
    engines = [dict(e) for e in spec["engines"] if not a.engine or e["name"] == a.engine]
    if tier == "quick":
        engines = [e for e in engines if e.get("quick")]
    for i, e in enumerate(engines):
        e["idx"] = i
        e.setdefault("thorough", e.get("quick"))
        for t in ("quick", "thorough"):
            if e.get(t):
                e[t] = dict(e[t], cases=max(1, int(e[t]["cases"] * a.scale)))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.property, dir="/tmp")
    os.chmod(scratch, 0o755)
    children_ok = True
    try:
        try:
            build_all(engines)
        except BuildError as ex:
            log("build failed:\n" + str(ex))
            return 2
        tb = time.time() - t0
        if a.replay:
            rp = json.load(open(a.replay))
            e = [x for x in engines if x["name"] == rp["engine"]][0]
            if e.get("python"):
                return e["python"](None, a, spec, e, scratch, replay=rp)
            f = os.path.join(scratch, "r.bin")
            open(f, "wb").write(bytes.fromhex(rp["choices_hex"]))
            cmd = [e["bin"], "--replay", f] + (["--no-aslr"] if e["kind"] in ("sched", "tsan") else [])
            return subprocess.run(cmd, env=ENV, cwd=scratch).returncode
        results, errors = run_engines(a.property, [e for e in engines if not e.get("python")], tier, a.seed, scratch)
        for e in engines:
            if e.get("python") and not any(r["violated"] for r in results):
                r = e["python"](tier, a, spec, e, scratch)
                r["engine"] = e["name"]
                results.append(r)
        bad = [r for r in results if r["violated"]]
        lines, rc = [], 0
        # listed genuine defects: reproduce each one, so that the line is only printed while it is still there
        for k in known_findings():
            if k["property"] == a.property and k.get("status") == "open":
                prog = [e for e in engines if e["name"] == k["engine"]]
                still = True
                if prog:
                    f = os.path.join(scratch, "k.bin")
                    open(f, "wb").write(bytes.fromhex(k.get("choices_hex", "")))
                    env = dict(ENV, PBT_KNOWN=k["id"])
                    still = any(subprocess.run([prog[0]["bin"], "--replay", f], env=env, cwd=scratch, stdout=subprocess.DEVNULL,
                                               stderr=subprocess.DEVNULL, timeout=200).returncode == 1 for _ in range(2))
                if still:
                    log("KNOWN-FINDING: property=%s %s" % (a.property, k["what"]))
                else:
                    log("note: known finding %s did not reproduce on this tree" % k["id"])
        for r in bad[:1]:
            e = [x for x in engines if x["name"] == r["engine"]][0]
            path = r.get("replay") or write_replay(a.property, e, r, a.seed)
            log("engine %s: %s (confirmed by %d replays)" % (r["engine"], r["kind"], r["confirmed"]))
            log(r["msg"][:3000])
            log("case:\n" + r["desc"][:3000])
            log("VIOLATION property=%s replay=%s" % (a.property, path))
            rc = 1
        labels = {}
        for r in results:
            for k, v in r.get("labels", {}).items():
                kk = r["engine"] + ": " + k
                labels[kk] = labels.get(kk, 0) + v
        samples, seen = [], {}
        for r in results:
            for s in r["samples"]:
                if seen.get(r["engine"], 0) < 3:
                    seen[r["engine"]] = seen.get(r["engine"], 0) + 1
                    samples.append(r["engine"] + ": " + s)
        per = {}
        for r in results:
            p = per.setdefault(r["engine"], {"evaluations": 0, "nontrivial": 0, "inconclusive": 0, "unreproduced": 0})
            p["evaluations"] += r["cases"]
            p["nontrivial"] += r["nontrivial"]
            p["inconclusive"] += r.get("inconclusive", 0)
            p["unreproduced"] += r.get("crash_unconfirmed", 0) + r.get("fail_unconfirmed", 0)
        rules = []
        for r in results:
            if r.get("rule") and r["rule"] not in rules:
                rules.append(r["rule"])
        distinct = union_hashes([r for r in results if "out" in r]) + sum(r["distinct"] for r in results if "out" not in r)
        ev = {
            "property": a.property, "tier": tier, "seed": a.seed, "level": spec["level"],
            "coverage": {
                "evaluations": sum(r["cases"] for r in results),
                "distinct_nontrivial": distinct,
                "rule": " || ".join(rules),
                "samples": samples or ["(none)"],
                "engines": per, "labels": labels,
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "violations": len(bad),
        }
        un = [r["engine"] + ": " + r["unconfirmed"][:400] for r in results if r.get("unconfirmed")]
        if un:
            ev["coverage"]["unreproduced_observations"] = un[:5]
        if errors:
            ev["coverage"]["errors"] = errors
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", a.property + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%s %s: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s%s" % (
            a.property, tier, ev["coverage"]["evaluations"], distinct, tb, time.time() - t0, "" if not errors else "  ERRORS: %s" % errors))
        if rc == 0 and errors:
            for x in errors:
                log("engine error: " + x)
            return 2
        for x in un:
            log("note (not an alarm, did not reproduce): " + x[:300].replace("\n", " | "))
        return rc
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", scratch], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
