#!/usr/bin/env python3
"""Runs the checks against altered copies of the repository (development aid,
not a registered check): campaign.py WORKDIR MUTANTS.py [ids...]

MUTANTS.py defines MUTANTS, a list of (id, [properties], file, [(old, new[, nth])...]).
Each mutant is applied to a copy of /repo under WORKDIR, optionally put through the
stable tests, and the listed properties' checks (or all, with --all) are run."""
import json, os, re, shutil, subprocess, sys, threading, queue, time

args = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = [a for a in sys.argv[1:] if a.startswith("--")]
WORK, MUT, IDS = args[0], args[1], args[2:]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NW = int(next((o.split("=")[1] for o in opts if o.startswith("--workers=")), "2"))
ALL = "--all" in opts
TESTS = "--tests" in opts
JOB = next((o.split("=")[1] for o in opts if o.startswith("--name=")), "")
ns = {}
exec(open(MUT).read(), ns)
muts = [m for m in ns["MUTANTS"] if not IDS or m[0] in IDS]
q = queue.Queue()
for m in muts:
    q.put(m)
lock = threading.Lock()
out = open(WORK + "/results%s.jsonl" % JOB, "a")


def apply(repo, m):
    edits = m[3]
    by = {}
    for e in edits:
        f = m[2]
        if len(e) == 4:
            f, e = e[3], e[:3]
        by.setdefault(f, []).append(e)
    for f, es in by.items():
        p = repo + "/" + f
        t = open(p).read()
        for e in es:
            nth = e[2] if len(e) > 2 else None
            n = t.count(e[0])
            if n == 0 or (n > 1 and nth is None):
                raise SystemExit("%s: %d matches of %r" % (m[0], n, e[0]))
            pos = -1
            for _ in range((nth or 0) + 1):
                pos = t.find(e[0], pos + 1)
            t = t[:pos] + e[1] + t[pos + len(e[0]):]
        open(p, "w").write(t)


def worker(k):
    base = "%s/w%d" % (WORK, k)
    repo, ver = base + "/repo", base + "/verif"
    os.makedirs(base, exist_ok=True)
    subprocess.run("rsync -a --delete --exclude _build --exclude .git /repo/ %s/ && rsync -a --delete --exclude .git --exclude seeded --exclude build --exclude evidence %s/ %s/" % (repo, VERIF, ver), shell=True, check=True)
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        subprocess.run("rsync -a --no-times --checksum --delete --exclude _build --exclude .git /repo/ %s/" % repo, shell=True, check=True)
        apply(repo, m)
        res = {"id": m[0], "props": m[1], "caught": [], "missed": [], "other": []}
        if TESTS:
            ok = True
            for v in ("openssl", "boringssl"):
                b = "%s/b-%s" % (base, v)
                p = subprocess.run("cmake -S /opt/vp/cmake -B %s -G Ninja -DREPO=%s -DVARIANT=%s -DCMAKE_BUILD_TYPE=RelWithDebInfo '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g' '-DCMAKE_CXX_FLAGS=-Wno-error -Wno-deprecated-declarations' -Wno-dev && ninja -C %s && ctest --test-dir %s -j4 --timeout 120" % (b, repo, v, b, b), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    ok = False
                    f = re.findall(r"^.*(?:\*\*\*Failed|error:).*$", p.stdout, re.M)
                    res["tests"] = f[:4]
            res["stable"] = ok
        t0 = time.time()
        props = ["C%02d" % i for i in range(1, 35)] if ALL else m[1]
        for pr in props:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1")
            p = subprocess.run([sys.executable, ver + "/run.py", "--property", pr, "--tier", "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            key = "caught" if p.returncode == 1 and "VIOLATION property=" + pr in p.stdout else "missed" if p.returncode == 0 else "other"
            res[key].append(pr)
            if key != "missed":
                res.setdefault("why", {})[pr] = p.stdout.strip().split("\n")[0][:300]
            shutil.rmtree(ver + "/evidence/replay", ignore_errors=True)
            if key != "missed" and "--first" in opts:
                break
        res["s"] = round(time.time() - t0)
        with lock:
            print(json.dumps(res), flush=True)
            out.write(json.dumps(res) + "\n")
            out.flush()


ts = [threading.Thread(target=worker, args=(k,)) for k in range(NW)]
[t.start() for t in ts]
[t.join() for t in ts]
