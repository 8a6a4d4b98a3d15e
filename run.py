#!/usr/bin/env python3
"""Check driver.  run.py <PROPERTY> [--tier quick|thorough] [--seed N]
                  run.py --replay <replay.json>
Builds the library from /repo's working tree with instrumentation, builds the
property's monitors, runs them in shards and turns what they observed into a
verdict: exit 0 (held), exit 1 + VIOLATION line, exit 2 (inconclusive/error).
"""
import argparse, array, concurrent.futures as cf, hashlib, json, os, re, shutil
import signal, subprocess, sys, time, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SCN_REPO", "/repo")
H = os.path.join(HERE, "harness")
NCPU = os.cpu_count() or 8
DEFS = ["-std=c++17", "-DSCN_DISABLE_FAST_FLOAT=1", "-DSCN_REGEX_BACKEND=0"]
INC = ["-I" + REPO + "/include", "-I" + H]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
FLAVORS = {
    # name: (compiler, common flags)
    "asan":  ("clang++", ["-O0", "-gline-tables-only"] + SAN),
    "asan1": ("clang++", ["-O1", "-gline-tables-only"] + SAN),
    "tsan":  ("clang++", ["-O0", "-gline-tables-only", "-fsanitize=thread"]),
    "tsan1": ("clang++", ["-O1", "-gline-tables-only", "-fsanitize=thread"]),
    "plain": ("clang++", ["-O0"]),
    "plain1": ("clang++", ["-O1"]),
    "vg":    ("g++", ["-O0", "-g1", "-gdwarf-4"]),
    "gcc":   ("g++", ["-O1", "-g1"]),
    "cov":   ("clang++", ["-O0", "-gline-tables-only", "-fsanitize-coverage=inline-8bit-counters"] + SAN),
    "cov1":  ("clang++", ["-O1", "-gline-tables-only", "-fsanitize-coverage=inline-8bit-counters"] + SAN),
    "boost":  ("clang++", ["-O0", "-gline-tables-only"] + SAN),
    "boost1": ("clang++", ["-O1", "-gline-tables-only"] + SAN),
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:handle_abort=0:allocator_may_return_null=0:"
                    "detect_stack_use_after_return=0:hard_rss_limit_mb=6000:symbolize=1:"
                    "strict_string_checks=0:malloc_context_size=8:quarantine_size_mb=16",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4:second_deadlock_stack=1",
    "LC_ALL": "C",
})
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


class HarnessError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for d in ("include", "src"):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, d))):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def compile_one(cmd, out):
    tmp = "%s.%d.tmp" % (out, os.getpid())
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return r.stdout
    os.rename(tmp, out)
    return None


def build(jobs, tier):
    """jobs: list of job dicts -> {job name: binary path}"""
    th = tree_hash()
    headers = sorted(glob.glob(H + "/*.h"))
    hh = file_hash(headers)
    bdir = os.path.join(HERE, "build")
    os.makedirs(bdir, exist_ok=True)
    # drop stale build trees (other source states) to bound disk use
    keep = th[:12]
    for d in glob.glob(bdir + "/t-*"):
        if not d.endswith(keep):
            shutil.rmtree(d, ignore_errors=True)
    tdir = os.path.join(bdir, "t-" + keep)
    os.makedirs(tdir, exist_ok=True)
    tasks = {}
    links = []
    for j in jobs:
        fl = j["flavor_thorough"] if tier == "thorough" and "flavor_thorough" in j else j.get("flavor", "asan")
        cc, flags = FLAVORS[fl]
        defs, libs = DEFS, ["-lpthread"]
        if fl.startswith("boost"):
            defs = [d for d in DEFS if "REGEX_BACKEND" not in d] + ["-DSCN_REGEX_BACKEND=1", "-DSCN_REGEX_BOOST_USE_ICU=1"]
            libs = ["-lboost_regex", "-licui18n", "-licuuc", "-licudata"] + libs
        hflags = flags
        objs = []
        lib = os.path.join(tdir, "impl-%s.o" % fl)
        tasks[lib] = [cc] + defs + INC + ["-I" + REPO + "/src"] + flags + ["-c", REPO + "/src/scn/impl.cpp"]
        objs.append(lib)
        for s in ["common.cpp"] + j["src"]:
            p = os.path.join(H, s)
            xh = hashlib.sha256((file_hash([p]) + hh + " ".join(hflags) + " ".join(j.get("cxxflags", []))).encode()).hexdigest()[:12]
            o = os.path.join(tdir, "%s-%s-%s.o" % (s.replace(".cpp", ""), fl, xh))
            tasks[o] = [cc] + defs + INC + hflags + j.get("cxxflags", []) + ["-c", p]
            objs.append(o)
        xh = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:12]
        exe = os.path.join(tdir, "%s-%s-%s" % (j["name"], fl, xh))
        links.append((j["name"], exe, [cc] + flags + objs + libs))
    todo = {o: c for o, c in tasks.items() if not os.path.exists(o)}
    # the library first: it is the longest
    order = sorted(todo, key=lambda o: (0 if "/impl-" in o else 1, o))
    errs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for o, e in zip(order, ex.map(lambda o: compile_one(todo[o], o), order)):
            if e:
                errs.append((o, e))
    if errs:
        raise HarnessError("build failed: %s\n%s" % (errs[0][0], errs[0][1][-4000:]))
    bins = {}
    for name, exe, cmd in links:
        if not os.path.exists(exe):
            e = compile_one(cmd, exe)
            if e:
                raise HarnessError("link failed: %s\n%s" % (exe, e[-4000:]))
        bins[name] = exe
    return bins


def crash_summary(rc, log):
    m = re.search(r"SUMMARY: (\w+): ([\w-]+) ?(.*)", log)
    if m:
        tail = re.sub(r"0x[0-9a-f]+", "", m.group(3))
        tail = re.sub(r"\(.*?\+?\)", "", tail)
        fn = re.search(r" in (.+)$", tail)
        where = re.search(r"([\w.]+\.(?:h|cpp|hpp))(?::\d+)*", tail)
        return "%s:%s:%s" % (m.group(1), m.group(2), (fn.group(1) if fn else where.group(1) if where else "")[:120])
    m = re.search(r"(\w[\w./]*):(\d+): (.*?): Assertion `(.*?)' failed", log)
    if m:
        fn = re.sub(r"\[.*", "", m.group(3))
        return "assert:%s" % (m.group(4)[:120],)
    m = re.search(r"==\d+== ((?:Conditional jump|Use of uninit|Invalid |Syscall param|Source and dest|Mismatched|.*points to uninit).*)\n==\d+==\s+(?:at|by) 0x\w+: (.*)", log)
    if m:
        return "memcheck:%s:%s" % (m.group(1)[:60], re.sub(r"\(.*", "", m.group(2))[:100])
    m = re.search(r"runtime error: (.*)", log)
    if m:
        return "ubsan:" + m.group(1)[:120]
    m = re.search(r"terminate called.*", log)
    if m:
        return "terminate"
    return "signal:%d" % (-rc if rc < 0 else rc)


def run_once(exe, args, out, prog, log, timeout, env):
    for f in (out,):
        if os.path.exists(f):
            os.unlink(f)
    with open(log, "wb") as lf:
        p = subprocess.Popen(env.get("MON_WRAP", "").split() + [exe] + args + ["--out", out, "--progress", prog], stdout=lf, stderr=lf,
                             stdin=subprocess.DEVNULL, env=env, start_new_session=True, cwd=os.path.dirname(out))
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
    recs = []
    if os.path.exists(out):
        with open(out, errors="replace") as fh:
            for line in fh:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
    with open(log, "rb") as fh:
        fh.seek(0, 2)
        n = fh.tell()
        fh.seek(max(0, n - 200000))
        text = fh.read().decode("latin-1")
    idx = 0
    if os.path.exists(prog):
        b = open(prog, "rb").read(8)
        if len(b) == 8:
            idx = int.from_bytes(b, "little")
    return rc, recs, text, idx


def run_shard(job, exe, seed, shard, nshards, total, tier, work):
    """Returns dict(records, violations, errors)."""
    per = total // nshards + (1 if shard < total % nshards else 0)
    base = ["--seed", str(seed), "--shard", str(shard)] + (["--thorough"] if tier == "thorough" else [])
    for k, v in job.get("args", {}).items():
        base += ["--" + k, str(v)]
    d = os.path.join(work, "%s-%d" % (job["name"], shard))
    os.makedirs(d, exist_ok=True)
    env = dict(ENV)
    env.update(job.get("env", {}))
    out, prog, log, hs = d + "/out.jsonl", d + "/prog", d + "/log.txt", d + "/hashes"
    res = dict(summaries=[], viols=[], errors=[], hashes=hs, inconclusive=[], notes=[])
    frm, restarts = 0, 0
    limit = 3000 if tier == "thorough" else 780
    started = time.time()
    while frm < per:
        tmo = max(20, limit - (time.time() - started))
        args = base + ["--from", str(frm), "--count", str(per - frm), "--hashes", hs + ".%d" % restarts]
        rc, recs, text, idx = run_once(exe, args, out, prog, log, tmo, env)
        summ = [r for r in recs if "summary" in r]
        res["summaries"] += summ
        for r in recs:
            if "v" in r:
                r["shard"] = shard
                res["viols"].append(r)
        if "WARNING: ThreadSanitizer" in text:
            for blk in text.split("==================")[0:]:
                if "WARNING: ThreadSanitizer" in blk:
                    m = re.search(r"SUMMARY: ThreadSanitizer: ([\w -]+?) (\S+) in (.*)", blk)
                    key = "tsan:%s:%s" % (m.group(1), m.group(3)[:100]) if m else "tsan"
                    res["viols"].append(dict(v=1, key=key, detail=blk[:1500], index=frm, shard=shard, whole=True))
        if summ and rc in (0, 66):
            break
        if rc == "timeout":
            res["inconclusive"].append("shard %d ran out of time" % shard)
            break
        if rc in (3,) or idx == 0xffffffffffffffff or idx < frm or idx >= per:
            res["errors"].append("shard %d: exit %s idx %d\n%s" % (shard, rc, idx, text[-1500:]))
            break
        # died inside case idx: reproduce it alone (hangs: confirm once)
        one = base + ["--from", str(idx), "--count", "1", "--verbose"]
        rc2, recs2, text2, _ = run_once(exe, one, d + "/one.jsonl", d + "/prog1", d + "/one.log", 400, env)
        hang = rc in (-signal.SIGALRM, -signal.SIGPROF)
        hang2 = rc2 in (-signal.SIGALRM, -signal.SIGPROF, "timeout")
        if rc == -signal.SIGKILL:
            res["inconclusive"].append("shard %d killed (memory?) at case %d" % (shard, idx))
        elif hang:
            if hang2:
                res["viols"].append(dict(v=1, key="hang", detail="case does not terminate (confirmed by a second run): " + text2[-800:],
                                         index=idx, shard=shard))
                # decided; further cases that hang would only use up the time
                res["truncated"] = True
                break
            elif rc2 == 0:
                # slow machine: the repeated run of the case alone decides it
                res["notes"].append("shard %d: case %d exceeded the watchdog once and finished when repeated" % (shard, idx))
                for r in recs2:
                    if "v" in r:
                        r["shard"] = shard
                        res["viols"].append(r)
            else:
                res["inconclusive"].append("shard %d: case %d exceeded the watchdog and failed differently when repeated" % (shard, idx))
        else:
            t = text2 if rc2 not in (0, "timeout") else text
            note = "" if rc2 != 0 else " (not reproduced in isolation)"
            desc = "\n".join(l for l in t.splitlines() if l.startswith("  case "))[-600:]
            res["viols"].append(dict(v=1, key="crash:" + crash_summary(rc2 if rc2 not in (0, "timeout") else rc, t),
                                     detail="process died%s\n%s\n%s" % (note, desc, t[-1200:]), index=idx, shard=shard))
        frm = idx + 1
        restarts += 1
        if restarts > 6:
            res["truncated"] = True
            break
    return res


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--job")
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        c = CHECKS[r["property"]]
        jobs = [j for j in c["jobs"] if j["name"] == r["job"]]
        exe = build(jobs, r["tier"])[r["job"]]
        work = os.path.join(HERE, "build", "replay-%d" % os.getpid())
        os.makedirs(work)
        args = ["--seed", str(r["seed"]), "--shard", str(r["shard"]), "--from", str(r["from"]), "--count", str(r["count"]), "--verbose"]
        if r["tier"] == "thorough":
            args.append("--thorough")
        for k, v in jobs[0].get("args", {}).items():
            args += ["--" + k, str(v)]
        env = dict(ENV)
        env.update(jobs[0].get("env", {}))
        rc, recs, text, _ = run_once(exe, args, work + "/o", work + "/p", work + "/l", 900, env)
        sys.stdout.write(text)
        shutil.rmtree(work, ignore_errors=True)
        bad = [x for x in recs if "v" in x] or rc != 0
        print("reproduced" if bad else "not reproduced")
        return 1 if bad else 0

    prop = a.prop
    c = CHECKS[prop]
    t0 = time.time()
    work = os.path.join(HERE, "build", "work-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rc = 2
    try:
        rc = run_check(prop, c, a, work, t0)
    except HarnessError as e:
        print("ERROR property=%s %s" % (prop, e))
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def run_check(prop, c, a, work, t0):
    jobs = [j for j in c["jobs"] if a.tier in j.get("tiers", ("quick", "thorough"))]
    if a.job:
        jobs = [j for j in jobs if j["name"] == a.job]
    bins = build(jobs, a.tier)
    tb = time.time()
    print("build %.1fs" % (tb - t0))
    work_items = []
    for j in jobs:
        total = int(j["cases"][0 if a.tier == "quick" else 1] * a.scale)
        n = min(j.get("shards", NCPU), max(1, total))
        for s in range(n):
            work_items.append((j, s, n, total))
    results = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = [(w, ex.submit(run_shard, w[0], bins[w[0]["name"]], a.seed, w[1], w[2], w[3], a.tier, work)) for w in work_items]
        for w, f in futs:
            results.append((w, f.result()))
    ev, obs, samples, rules, errors, inconc = 0, {}, [], [], [], []
    viols = []
    hashes = set()
    for (j, s, n, total), r in results:
        errors += r["errors"]
        inconc += r["inconclusive"]
        for x in r["notes"]:
            print("note: " + x)
        for sm in r["summaries"]:
            ev += sm["evaluations"]
            for k, v in sm["obs"].items():
                obs[k] = obs.get(k, 0) + v
            if len(samples) < 12:
                samples += sm["samples"][:2]
            if sm["rule"] not in rules:
                rules.append(sm["rule"])
        for hf in glob.glob(r["hashes"] + ".*"):
            arr = array.array("Q")
            with open(hf, "rb") as fh:
                arr.frombytes(fh.read())
            hashes.update(arr)
        for v in r["viols"]:
            v["job"] = j["name"]
            v["nshards"] = n
            v["total"] = total
            viols.append(v)
    known = [k for k in load_known() if k["property"] == prop]
    fresh, hit = [], {}
    for v in viols:
        text = v["key"] + "\n" + v["detail"]
        m = None
        for k in known:
            if re.search(k["match"], text, re.S):
                m = k
                break
        if m:
            hit.setdefault(m["what"], 0)
            hit[m["what"]] += 1
        else:
            fresh.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s (observed %d times in this run)" % (prop, k["what"], hit.get(k["what"], 0)))
    missing = []
    for name, need in c.get("need", {}).items():
        if obs.get(name, 0) < need * (1 if a.scale >= 1 else a.scale):
            missing.append("%s: %d < %d" % (name, obs.get(name, 0), need))
    wall = time.time() - t0
    evd = dict(property=prop, tier=a.tier, seed=a.seed, level="exploration", wall_s=round(wall, 2), violations=len(fresh),
               coverage=dict(evaluations=ev, distinct_nontrivial=len(hashes), rule=" | ".join(rules), samples=samples or ["none"],
                             observed=obs, known_findings_observed=hit, shards=len(results),
                             inconclusive=inconc, build_s=round(tb - t0, 1)),
               assumptions=c.get("assumptions", []))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    print("property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (prop, a.tier, a.seed, ev, len(hashes), wall))
    print("observed: " + ", ".join("%s=%d" % kv for kv in sorted(obs.items())[:60]))
    for i in inconc:
        print("inconclusive: " + i)
    if fresh:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in fresh:
            if v["key"] in seen or len(seen) > 12:
                continue
            seen.add(v["key"])
            hk = hashlib.sha256((v["key"] + v["detail"]).encode()).hexdigest()[:10]
            rp = os.path.join(rd, "%s-%s.json" % (prop, hk))
            whole = v.get("whole")
            per = v["total"] // v["nshards"] + (1 if v["shard"] < v["total"] % v["nshards"] else 0)
            json.dump(dict(property=prop, job=v["job"], tier=a.tier, seed=a.seed, shard=v["shard"],
                           **{"from": 0 if whole else v["index"]}, count=per if whole else 1, key=v["key"], detail=v["detail"]),
                      open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  key: %s" % v["key"])
            print("  " + v["detail"].replace("\n", "\n  ")[:1500])
        return 1
    if errors:
        print("ERROR property=%s harness failure: %s" % (prop, errors[0]))
        return 2
    if missing:
        print("ERROR property=%s inconclusive: too little observed: %s" % (prop, "; ".join(missing)))
        return 2
    if ev == 0 or inconc:
        print("ERROR property=%s inconclusive" % prop)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
