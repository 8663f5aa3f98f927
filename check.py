#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay FILE] [--only SUB] [--configs a,b] [--cases N] [--budget S]

Builds the library from /repo's working tree, builds the property driver, searches generated cases in
parallel shards, merges the counters into evidence/<id>.json and reports VIOLATION lines.
Exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; 2: the check itself failed."""
import argparse, array, concurrent.futures as cf, fcntl, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(HERE, "build") if REPO == "/repo" else os.path.join("/tmp/vp_build_" + hashlib.md5(REPO.encode()).hexdigest()[:8])
sys.path.insert(0, HERE)
from checks import CHECKS, CONFIGS, COMMON_ASSUMPTIONS  # noqa: E402

ENV = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", CCACHE_DISABLE="1")
for k in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "ASAN_OPTIONS", "UBSAN_OPTIONS"):
    ENV.pop(k, None)
SAN = "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -fwrapv -fno-strict-aliasing"


class BuildError(Exception):
    pass


def sh(cmd, log, cwd=None):
    with open(log, "a") as f:
        f.write("$ %s\n" % " ".join(cmd)); f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=ENV, cwd=cwd)
    if r.returncode != 0:
        tail = open(log, errors="replace").read()[-3000:]
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), tail))


def build_lib(cfg):
    c = CONFIGS[cfg]
    d = os.path.join(BUILD, cfg)
    os.makedirs(d, exist_ok=True)
    log = os.path.join(d, "build.log")
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        open(log, "w").close()
        b = os.path.join(d, "cmake")
        sh(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DDEBUG_BUILD=OFF",
            "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
            "-DCMAKE_CXX_FLAGS=" + SAN + " " + c.get("flags", ""), "-DCMAKE_C_FLAGS=" + SAN] + c["cmake"], log)
        sh(["ninja", "-C", b, "mli"], log)
    return os.path.join(b, "bin", "libmli.a")


def build_driver_obj(pid, cfg):
    c = CONFIGS[cfg]
    d = os.path.join(BUILD, cfg)
    os.makedirs(d, exist_ok=True)
    log = os.path.join(d, pid + ".log")
    open(log, "w").close()
    objs = []
    inc = ["-I" + os.path.join(REPO, x) for x in ("include", "include/internal", "include/api", "lib/src/private")]
    inc += ["-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "props")]
    defs = ["-D" + x for x in c["defs"]] + ['-DVP_CONFIG="%s"' % cfg]
    for src in ["engine/pbt.cc"] + CHECKS[pid]["src"]:
        o = os.path.join(d, pid + "_" + os.path.basename(src) + ".o")
        sh(["g++", "-std=c++17"] + SAN.split() + defs + inc + ["-c", os.path.join(HERE, src), "-o", o], log)
        objs.append(o)
    return objs


def build(pid, cfgs):
    with cf.ThreadPoolExecutor(16) as ex:
        libs = {c: ex.submit(build_lib, c) for c in cfgs}
        objs = {c: ex.submit(build_driver_obj, pid, c) for c in cfgs}
        res = {}
        for c in cfgs:
            lib, ob = libs[c].result(), objs[c].result()
            exe = os.path.join(BUILD, c, pid + ".drv")
            sh(["g++", "-fsanitize=address", "-o", exe] + ob + [lib], os.path.join(BUILD, c, pid + ".log"))
            res[c] = exe
    return res


def known_findings(pid):
    """lines: 'finding: property=C01 kind=<sub/kind> :: description'"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                kind, desc = l.split(" kind=", 1)[1].split(" :: ", 1)
                out.append((kind, desc))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="only check that the tools needed are present")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("--configs")
    ap.add_argument("--cases", type=int); ap.add_argument("--budget", type=float)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.selftest:
        missing = [t for t in ("cmake", "ninja", "gcc", "g++") if not shutil.which(t)]
        print("missing tools: %s" % missing if missing else "tools present")
        return 1 if missing else 0
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid, spec = a.pid, CHECKS[a.pid]
    plan = spec["configs"]
    if a.configs:
        plan = {c: plan.get(c, 2) for c in a.configs.split(",")}
    if a.replay:
        cfg = [l.split()[1] for l in open(a.replay) if l.startswith("config ")][0]
        plan = {cfg: 1}
    try:
        exes = build(pid, list(plan))
    except BuildError as e:
        print("ERROR: build failed\n%s" % e)
        return 2
    out = os.path.join(BUILD, "out_" + pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    if a.replay:
        cmd = [exes[cfg], "--replay", a.replay, "--out", os.path.join(out, "r")] + (["--only", a.only] if a.only else [])
        return subprocess.run(cmd, env=ENV).returncode
    tier = spec[a.tier]
    cases = a.cases or tier["cases"]
    budget = a.budget or tier["budget"]
    known = known_findings(pid)
    procs = []
    shard = 0
    for c, n in plan.items():
        for _ in range(n):
            o = os.path.join(out, "%s_%d" % (c, shard))
            cmd = [exes[c], "--seed", str(seed), "--shard", str(shard), "--cases", str(cases), "--budget", str(budget), "--out", o]
            for k, _d in known:
                cmd += ["--known", k]
            if a.only:
                cmd += ["--only", a.only]
            procs.append((c, o, subprocess.Popen(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
            shard += 1
    tb = time.time() - t0
    violations, infra, stats, seen = [], [], [], set()
    for c, o, p in procs:
        txt, _ = p.communicate()
        if p.returncode == 1 and txt.startswith("FAIL"):
            violations.append((c, o, txt))
        elif p.returncode != 0:
            infra.append("%s rc=%s %s" % (c, p.returncode, txt[-1500:]))
        if os.path.exists(o + ".stat"):
            stats.append(json.load(open(o + ".stat")))
            if os.path.exists(o + ".hash"):
                h = array.array("Q"); h.frombytes(open(o + ".hash", "rb").read())
                seen.update((x ^ (shard_cfg(c) << 1)) for x in h)
    ev = merge(pid, a.tier, seed, spec, stats, len(seen), plan, violations, time.time() - t0, tb)
    if not a.only and not a.configs:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k, d in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    cov = ev["coverage"]
    print("%s %s: %d evaluations, %d distinct non-trivial, %.1fs (%.1fs build)" % (pid, a.tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, tb))
    if a.verbose:
        for s in cov["classes"]:
            print("  ", json.dumps(s))
    if violations:
        rd = os.path.join(HERE, "replay")
        os.makedirs(rd, exist_ok=True)
        done = set()
        for c, o, txt in violations:
            kind = txt.split("\n")[0].split(" confirmed=")[0]
            if kind in done:
                continue
            done.add(kind)
            rp = os.path.join(rd, "%s_%s.replay" % (pid, os.path.basename(o)))
            shutil.copy(o + ".replay", rp)
            print(txt.strip()[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if infra:
        print("ERROR: " + "\n".join(infra))
        return 2
    if not stats or cov["evaluations"] == 0:
        print("ERROR: no evaluations")
        return 2
    shutil.rmtree(out, ignore_errors=True)
    return 0


def shard_cfg(c):
    return int(hashlib.md5(c.encode()).hexdigest()[:12], 16)


def merge(pid, tier, seed, spec, stats, distinct, plan, violations, wall, tb):
    subs, rule, samples, complete = {}, "", [], 0
    for st in stats:
        rule = st["rule"] or rule
        complete += 0 if st["timeout"] else 1
        for s in st["subs"]:
            if not s["evaluations"] and not s["discards"]:
                continue
            d = subs.setdefault(s["name"], dict(name=s["name"], evaluations=0, nontrivial=0, discards=0, library_calls=0, labels={}))
            d["evaluations"] += s["evaluations"]; d["nontrivial"] += s["nontrivial"]; d["discards"] += s["discards"]
            d["library_calls"] += s["inner"]
            for k, v in s["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + v
            for x in s["samples"][:1]:
                if sum(1 for y in samples if y["sub"] == s["name"]) < 2:
                    samples.append(dict(sub=s["name"], config=st["config"], case=x))
    total = sum(d["evaluations"] for d in subs.values())
    return dict(property=pid, tier=tier, seed=seed, level="exploration",
                coverage=dict(evaluations=total, distinct_nontrivial=distinct,
                              rule="Cases are drawn from a seeded choice tape (structured generators). " + rule,
                              samples=samples, configurations=plan, classes=list(subs.values()),
                              shards=len(stats), shards_completed=complete, build_s=round(tb, 1)),
                assumptions=COMMON_ASSUMPTIONS + spec.get("assumptions", []),
                wall_s=round(wall, 1), violations=len(violations))


if __name__ == "__main__":
    sys.exit(main())
