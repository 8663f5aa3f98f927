#!/usr/bin/env python3
"""development helper: systematic small changes of /repo's sources, to measure what the checks notice.
mutate.py SPEC OUT [workers] [cases]     SPEC lines: <file glob> <max mutants> <check,check,...>
Works in copies under /tmp/mut; the result OUT is one JSON line per mutant."""
import sys, os, re, json, glob, random, subprocess, shutil, multiprocessing as mp, time, hashlib
V = "/verif"; sys.path.insert(0, V)
from checks import CHECKS, CONFIGS
SAN = "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -fwrapv -fno-strict-aliasing"
SRC = os.environ.get("MUT_SRC", "/repo")
CFG = os.environ.get("MUT_CFG", "up")
SKIP = re.compile(r'^\s*(//|\*|/\*|#|MLI_ASSERT|MLI_PRINTF|assert|static_assert|return status|template|using|namespace|class|struct|MLI_CHECK|DEPRECATED|NOT_IMPL|printf|public:|private:|protected:|extern)|__attribute__|DBG|MLI_PRINTF|MLI_ASSERT|\bassert\(|MLI_DEPRECATED|typedef|Xvec|vNx|_Pragma')
SWAPS = [("height","width"),("row","column"),("row","clmn"),("begin","end"),("left","right"),("top","bottom"),("first","last"),("Height","Width"),
         ("beg","end"),("_h","_w"),("MIN","MAX"),("true","false"),("in_zp","out_zp"),("src","dst"),("in","out"),("min","max"),("[0]","[1]"),("ih","iw"),("idx","cnt")]
def mutants(text):
    res = []
    comment = False
    lines = text.split("\n")
    for n, l in enumerate(lines):
        if "/*" in l and "*/" not in l: comment = True
        if comment:
            if "*/" in l: comment = False
            continue
        if SKIP.search(l) or not l.strip() or l.strip() in "{}": continue
        code = l.split("//")[0]
        def put(a, b, new, kind):
            res.append((n, code[:a] + new + code[b:], kind))
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', code):
            v = int(m[1])
            put(m.start(), m.end(), str(v + 1), "const+1")
            if v > 0: put(m.start(), m.end(), str(v - 1), "const-1")
        for pat, reps in ((r'(?<![<\-=])<(?![<=])(?=\s)', ["<="]), (r'(?<![>\-])>(?![>=])(?=\s)', [">="]), (r'<=', ["<"]), (r'>=', [">"]), (r'==', ["!="]), (r'!=', ["=="]),
                          (r'&&', ["||"]), (r'\|\|', ["&&"]), (r'(?<=\s)\+(?=\s)', ["-"]), (r'(?<=\s)-(?=\s)', ["+"]), (r'(?<=[\w)\]] )\*(?= )', ["+"]), (r'(?<=\s)/(?=\s)', ["*"]),
                          (r'(?<=\s)%(?=\s)', ["/"]), (r'(?<=\s)>>(?=\s)', ["<<"]), (r'(?<=\s)<<(?=\s)', [">>"]), (r'\+=', ["-=", "="]), (r'-=', ["+="]), (r'\*=', ["="]), (r'(?<=\()!(?=\w)', [""])):
            for m in re.finditer(pat, code):
                for r in reps: put(m.start(), m.end(), r, "op " + pat[-8:])
        for a, b in SWAPS:
            for x, y in ((a, b), (b, a)):
                for m in re.finditer(re.escape(x), code):
                    if x in ("in", "out", "min", "max", "_h", "_w", "ih", "iw") and (m.end() < len(code) and code[m.end()].isalnum() or m.start() and code[m.start()-1].isalnum()): continue
                    put(m.start(), m.end(), y, "swap %s/%s" % (x, y))
        if re.match(r'^\s*[\w\[\]\.\->\(\)\*]+(\s*[\+\-\*/|&]?=\s|\+\+|--|\().*;\s*$', code) and not re.match(r'^\s*(return|const|int|uint|auto|mli_|for|if|while|Tensor|break)', code):
            res.append((n, ";", "delete"))
        m = re.match(r'^(\s*(?:\}\s*else\s*)?if\s*\()(.*)(\)\s*\{?\s*)$', code)
        if m:
            res.append((n, m[1] + "false && (" + m[2] + ")" + m[3], "if false")); res.append((n, m[1] + "true || (" + m[2] + ")" + m[3], "if true"))
    return [(n, s, k) for n, s, k in res if s != lines[n]]
def run(cmd, timeout=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -99, "timeout"
def inc(repo): return ["-I%s/%s" % (repo, x) for x in ("include", "include/internal", "include/api", "lib/src/private")] + ["-I%s/engine" % V, "-I%s/props" % V]
def objs(pid, repo, d):
    os.makedirs(d, exist_ok=True)
    out = []
    for src in ["engine/pbt.cc"] + CHECKS[pid]["src"]:
        o = "%s/%s_%s.o" % (d, pid, os.path.basename(src))
        if not os.path.exists(o):
            rc, t = run(["g++", "-std=c++17"] + SAN.split() + ["-D" + x for x in CONFIGS[CFG]["defs"]] + ['-DVP_CONFIG="%s"' % CFG] + inc(repo) + ["-c", V + "/" + src, "-o", o])
            if rc: return None, t
        out.append(o)
    return out, ""
def setup(w):
    r = "/tmp/mut/w%d" % w
    shutil.rmtree(r, ignore_errors=True); os.makedirs(r)
    subprocess.check_call("git -C %s archive HEAD | tar x -C %s" % (SRC, r), shell=True)
    rc, t = run(["cmake", "-S", r, "-B", r + "/_b", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DDEBUG_BUILD=OFF", "-DCMAKE_CXX_FLAGS=" + SAN + " " + CONFIGS[CFG].get("flags", ""), "-DCMAKE_C_FLAGS=" + SAN] + CONFIGS[CFG]["cmake"])
    rc, t = run(["ninja", "-j", "2", "-C", r + "/_b", "mli"])
    assert rc == 0, t
def worker(w, q, res, cases):
    r = "/tmp/mut/w%d" % w
    setup(w)
    while True:
        job = q.get()
        if job is None: break
        fn, line, new, kind, checks = job
        p = os.path.join(r, fn)
        orig = open(p).read()
        ls = orig.split("\n"); old = ls[line]; ls[line] = new
        open(p, "w").write("\n".join(ls))
        st = {"file": fn, "line": line + 1, "old": old.strip(), "new": new.strip(), "kind": kind}
        try:
            rc, t = run(["ninja", "-j", "2", "-C", r + "/_b", "mli"], 300)
            if rc: st["result"] = "nobuild"; continue
            st["result"] = "SURVIVED"
            for c in checks:
                od = "/tmp/mut/obj_" + CFG
                o, t = objs(c, SRC, od) if not fn.startswith("include") else objs(c, r, shutil.rmtree(r + "/_o", ignore_errors=True) or r + "/_o")
                if o is None: st["result"] = "nobuild"; break
                exe = r + "/drv"
                rc, t = run(["g++", "-fsanitize=address", "-o", exe] + o + [r + "/_b/bin/libmli.a"])
                if rc: st["result"] = "nolink"; break
                rc, t = run([exe, "--seed", "7", "--shard", str(w), "--cases", str(cases), "--budget", "25", "--out", r + "/out"], 90)
                if rc == -99: st["result"] = "timeout " + c; break
                if rc != 0:
                    st["result"] = "killed " + c; break
        finally:
            open(p, "w").write(orig)
            res.put(st)
def main():
    spec, out = sys.argv[1:3]; W = int(sys.argv[3]) if len(sys.argv) > 3 else 8; cases = int(sys.argv[4]) if len(sys.argv) > 4 else 6000
    rnd = random.Random(int(os.environ.get("MUT_SEED", "1")))
    jobs = []; need = set()
    for l in open(spec):
        if not l.strip() or l[0] == "#": continue
        pat, mx, ch = l.split()
        for f in sorted(glob.glob(SRC + "/" + pat)):
            if re.search(r'_(dsp|vdsp)\.', f): continue
            ms = mutants(open(f, errors="replace").read())
            rnd.shuffle(ms)
            for n, s, k in ms[:int(mx)]: jobs.append((os.path.relpath(f, SRC), n, s, k, ch.split(",")))
            need |= set(ch.split(","))
    if "--list" in sys.argv: print(len(jobs)); return
    with mp.Pool(8) as p: 
        for pid, (o, t) in zip(sorted(need), p.starmap(objs, [(c, SRC, "/tmp/mut/obj_" + CFG) for c in sorted(need)])): assert o, (pid, t)
    rnd.shuffle(jobs)
    q = mp.Queue(); res = mp.Queue()
    for j in jobs: q.put(j)
    for _ in range(W): q.put(None)
    ps = [mp.Process(target=worker, args=(w, q, res, cases)) for w in range(W)]
    [p.start() for p in ps]
    t0 = time.time(); cnt = {}
    with open(out, "w") as f:
        for i in range(len(jobs)):
            s = res.get(); f.write(json.dumps(s) + "\n"); f.flush()
            k = s["result"].split()[0]; cnt[k] = cnt.get(k, 0) + 1
            if i % 20 == 0: print(i, len(jobs), cnt, int(time.time() - t0), flush=True)
    [p.join() for p in ps]
    print("done", cnt)
main()
