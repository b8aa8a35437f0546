#!/usr/bin/env python3
"""Builds /repo's current tree with sanitizers and runtime monitors, runs the
workloads that decide a property, judges them, and writes evidence.

  run.py --property C01 --tier quick|thorough     one check
  run.py --setup                                   prebuild (setup_cmd)
  run.py --selftest                                validate oracles and upb stand-in
"""
import argparse, concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
NPROC = os.cpu_count() or 4

sys.path.insert(0, VERIF)
from checks import CHECKS, HARNESSES, ROUNDS  # noqa: E402

COMMON = ["-std=c++14", "-g1", "-O1", "-fno-omit-frame-pointer", "-Wno-deprecated-declarations",
          "-pthread", "-I" + REPO, "-I" + VERIF + "/shim", "-I" + VERIF + "/harness",
          "-I" + VERIF + "/oracle"]
UBSAN_OFF = "-fno-sanitize=nonnull-attribute,vptr,function,enum"
SANS = {
    # Variables that were never set hold a pattern instead of whatever suits the optimiser.
    "asan": ["-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined", UBSAN_OFF, "-fno-sanitize-recover=all"],
    # As released: optimised, assertions compiled out.
    "rel": ["-O2", "-DNDEBUG", "-fsanitize=address,undefined", UBSAN_OFF, "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    # Run under Valgrind's memcheck; not optimised, so that no use of an unset variable is folded away.
    "mem": ["-D_GLIBCXX_ASSERTIONS", "-O0"],
    # Every branch and every byte copied or allocated is counted (h_work.cc).
    "work": ["-fsanitize-coverage=trace-pc-guard", "-fno-builtin"],
    "taint": ["-D_GLIBCXX_ASSERTIONS"],  # the same, with secrets and contents marked
    # Coverage-guided workloads run without ASan, for speed; what they found is then replayed under ASan.
    "fuzz": ["-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-fsanitize=fuzzer-no-link,undefined", UBSAN_OFF, "-fno-sanitize-recover=all"],
}
def fuzzer_lib():
    """libFuzzer without its main."""
    r = subprocess.run(["clang++", "-print-resource-dir"], stdout=subprocess.PIPE, text=True).stdout.strip()
    for pat in ("/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a", "/lib/*/libclang_rt.fuzzer_no_main*.a"):
        for f in sorted(glob.glob(r + pat)):
            if "i386" not in f:
                return ["-Wl,-u,LLVMFuzzerRunDriver", f]
    return []


SAN_LINK = dict(SANS, work=[], fuzz=["-fsanitize=undefined"] + fuzzer_lib())
LIBS = {
    "ossl": {"cflags": ["-DHLEN=int"], "ldflags": ["-lssl", "-lcrypto"]},
    "bssl": {"cflags": ["-DHLEN=size_t", "-isystem", "/usr/include/android"],
             "ldflags": ["-L/usr/lib/x86_64-linux-gnu/android", "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/android",
                         "-lssl", "-lcrypto"]},
}
ABSL = ["-labsl_status", "-labsl_statusor", "-labsl_cord", "-labsl_synchronization", "-labsl_strings", "-labsl_str_format_internal",
        "-labsl_bad_variant_access", "-labsl_bad_optional_access", "-labsl_throw_delegate", "-labsl_time",
        "-labsl_raw_logging_internal", "-labsl_base", "-labsl_hash", "-labsl_city", "-labsl_low_level_hash",
        "-labsl_raw_hash_set", "-labsl_int128", "-labsl_cord_internal"]
WRAP_SSL = ["EVP_CIPHER_CTX_new", "EVP_CIPHER_CTX_ctrl", "EVP_EncryptFinal_ex", "EVP_DecryptFinal_ex",
            "EVP_CipherFinal_ex", "EVP_DecryptUpdate", "HMAC_CTX_new", "HMAC_Init_ex", "HMAC_Update",
            "HMAC_Final", "EVP_EncryptInit_ex", "EVP_DecryptInit_ex", "EVP_CipherInit_ex",
            "EVP_EncryptUpdate", "EVP_CipherUpdate"]
WRAP_BSSL = ["EVP_AEAD_CTX_new", "EVP_AEAD_CTX_seal", "EVP_AEAD_CTX_open"]
WRAP_MU = ["_ZN4absl7debian35Mutex" + x for x in ("4LockEv", "6UnlockEv", "7TryLockEv", "10ReaderLockEv", "12ReaderUnlockEv",
                                                  "13ReaderTryLockEv", "D1Ev")]


class HarnessError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(str(len(p)).encode() + b":" + p)
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_digest(patterns):
    h = []
    for pat in patterns:
        for f in sorted(glob.glob(pat, recursive=True)):
            if os.path.isfile(f):
                h.append(f + ":" + sha(read(f)))
    return sha("\n".join(h))


def repo_sources():
    """Every library source of the current tree, by role."""
    srcs = [f for f in glob.glob(REPO + "/src/**/*.cc", recursive=True) + glob.glob(REPO + "/src/**/*.c", recursive=True)]
    out = []
    for f in sorted(srcs):
        rel = os.path.relpath(f, REPO)
        if re.search(r"_test\.cc$|_test_util\.cc$|/test_util/|/testing/|_fuzzer\.cc$", rel):
            continue
        out.append(rel)
    return out


def all_absl():
    """Every Abseil library there is, for code that came to use more of it."""
    names = {re.sub(r"^lib|\.(so|a)$", "", os.path.basename(f)) for pat in ("so", "a")
             for f in glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*." + pat)}
    return ["-Wl,--as-needed"] + ["-l" + n for n in sorted(names)]


IR_OPS = re.compile(r"^(%\S+ = )?(icmp|and|or|xor|urem|srem|udiv|sdiv|add|sub|mul|shl|lshr|ashr|store|select|(tail )?call|invoke|phi|ret|switch|i\d+ -?\d+, label)\b")


def code_constants(ir):
    """The numbers and short texts that functions of the repository compute with or compare against."""
    files, subs, strs = {}, {}, {}
    for m in re.finditer(r'^(!\d+) = !DIFile\(filename: "([^"]*)", directory: "([^"]*)"', ir, re.M):
        files[m.group(1)] = m.group(2) if m.group(2).startswith("/") else m.group(3) + "/" + m.group(2)
    for m in re.finditer(r"^(!\d+) = distinct !DISubprogram\([^\n]*?file: (!\d+)", ir, re.M):
        subs[m.group(1)] = files.get(m.group(2), "")
    for m in re.finditer(r'^@([.\w]+) = [^\n]*constant \[\d+ x i8\] c"([^"]*)"', ir, re.M):
        strs[m.group(1)] = re.sub(r"\\([0-9A-Fa-f]{2})", lambda h: chr(int(h.group(1), 16)), m.group(2)).rstrip("\0")
    nums, texts, inside = set(), set(), False
    for line in ir.split("\n"):
        if line.startswith("define "):
            m = re.search(r"!dbg (!\d+)", line)
            inside = bool(m) and subs.get(m.group(1), "").startswith(REPO + "/")
        elif line.startswith("}"):
            inside = False
        elif inside:
            text = line.strip()
            if "__assert_fail" in text:
                continue
            for s in re.findall(r"@(\.str[.\w]*)", text):
                if 0 < len(strs.get(s, "")) <= 40 and " " not in strs[s]:
                    texts.add(strs[s])
            if "getelementptr" in text or "@llvm." in text or not IR_OPS.search(text):
                continue
            text = re.sub(r"(align|!dbg !|!srcloc !|#|%|x i|dereferenceable\()\s*\d+", "", text)
            for n in re.findall(r"(?<![\w.%!@#$-])-?\d+(?![\w.$])", text):
                nums.add(int(n) & (1 << 64) - 1)
    return nums, texts


class Builder:
    def __init__(self):
        os.makedirs(BUILD + "/obj", exist_ok=True)
        os.makedirs(BUILD + "/bin", exist_ok=True)
        self.repo_headers = tree_digest([REPO + "/src/**/*.h", REPO + "/include/**/*", REPO + "/src/**/*.inc"])
        self.shim_headers = tree_digest([VERIF + "/shim/**/*"])
        self.harn_headers = tree_digest([VERIF + "/harness/*.h", VERIF + "/oracle/*.h"])
        self.pool = concurrent.futures.ThreadPoolExecutor(NPROC)
        self.futures = {}

    def obj(self, src, flags, compiler="clang++"):
        """Compiles src (cached by content); returns a future of (path or None, log)."""
        key = sha(read(src), src, " ".join(flags), compiler, self.repo_headers, self.shim_headers,
                  self.harn_headers if src.startswith(VERIF) else "")
        if key not in self.futures:
            self.futures[key] = self.pool.submit(self._compile, src, flags, compiler, key)
        return self.futures[key]

    def _compile(self, src, flags, compiler, key):
        out = "%s/obj/%s.o" % (BUILD, key)
        if os.path.exists(out):
            return out, ""
        tmp = "%s.%d.tmp" % (out, os.getpid())
        for std in ([], ["-std=c++17"] if compiler.endswith("++") else []):
            cmd = [compiler] + flags + std + ["-c", src, "-o", tmp]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0:
                break
        if p.returncode != 0:
            return None, "$ " + " ".join(cmd) + "\n" + p.stdout
        os.replace(tmp, out)
        return out, ""

    def constants(self):
        """A file of the constants in the current tree's code; the workloads try them (and their neighbours)
        as sizes, counts and texts.  It steers what is generated, never what is judged."""
        futs = []
        for rel in repo_sources():
            src = REPO + "/" + rel
            if not rel.endswith(".cc"):
                continue
            for lib in ("ossl", "bssl") if b"BORINGSSL" in read(src) or "boringssl" in rel else ("ossl",):
                flags = [f for f in COMMON if f != "-O1"] + LIBS[lib]["cflags"] + ["-O0"]
                key = sha(read(src), src, " ".join(flags), self.repo_headers, self.shim_headers, read(__file__))
                futs.append(self.pool.submit(self._constants, src, flags, key))
        nums, texts = set(), set()
        for f in futs:
            n, s = f.result()
            nums |= set(n)
            texts |= set(s)
        out = "".join("n %d\n" % n for n in sorted(nums)) + "".join("s %s\n" % s.encode("latin-1").hex() for s in sorted(texts))
        path = "%s/obj/consts-%s.txt" % (BUILD, sha(out))
        if not os.path.exists(path):
            with open(path + ".%d" % os.getpid(), "w") as f:
                f.write(out)
            os.replace(path + ".%d" % os.getpid(), path)
        return path

    def _constants(self, src, flags, key):
        out = "%s/obj/%s.consts" % (BUILD, key)
        if os.path.exists(out):
            with open(out) as f:
                return json.load(f)
        for std in ([], ["-std=c++17"]):
            p = subprocess.run(["clang++"] + flags + std + ["-S", "-emit-llvm", "-o", "-", src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            if p.returncode == 0:
                break
        got = [[], []]
        if p.returncode == 0:
            n, s = code_constants(p.stdout.decode("latin-1"))
            got = [sorted(n), sorted(s)]
        with open(out + ".%d" % os.getpid(), "w") as f:
            json.dump(got, f)
        os.replace(out + ".%d" % os.getpid(), out)
        return got

    def harness(self, name, lib, san):
        """Builds harness binary `name` against library variant; returns a future-like thunk."""
        h = HARNESSES[name]
        cflags = COMMON + LIBS[lib]["cflags"] + SANS[san] + h.get("cflags", [])
        cflags_c = [f for f in cflags if not f.startswith("-std=")]
        wanted = h.get("repo", ".*")
        excl = h.get("exclude", "fake_access_token_manager")
        repo = []
        for rel in repo_sources():
            if excl and re.search(excl, rel):
                continue
            src = REPO + "/" + rel
            if rel.endswith(".c"):
                repo.append((rel, self.obj(src, cflags_c, "clang")))
            else:
                repo.append((rel, self.obj(src, cflags)))
        if san == "fuzz":  # only the code under test guides the exploration
            cflags = [f for f in cflags if "fuzzer" not in f] + ["-fsanitize=undefined", UBSAN_OFF]
        if san == "mem":
            cflags = [f for f in cflags if f != "-O0"]
        own = [self.obj(VERIF + "/" + s, cflags) for s in h["srcs"]]
        own.append(self.obj(VERIF + "/harness/vh.cc", cflags))
        own.append(self.obj(VERIF + "/shim/upb.cc", cflags))
        own.append(self.obj(VERIF + "/oracle/ref.cc", ["-std=c++14", "-O2", "-g1", "-I" + VERIF + "/oracle"]))
        wraps = list(h.get("wraps", [])) + (h.get("wraps_bssl", []) if lib == "bssl" else [])
        if h.get("wrap_ssl", True):
            own.append(self.obj(VERIF + "/harness/wrap_ssl.cc", cflags))
            wraps += WRAP_SSL + (WRAP_BSSL if lib == "bssl" else [])
        if h.get("wrap_mu", False):
            own.append(self.obj(VERIF + "/harness/wrap_mu.cc", cflags))
            wraps += WRAP_MU

        def link():
            objs, logs = [], []
            for f in own:
                o, log = f.result()
                if o is None:
                    raise HarnessError("harness source does not compile:\n" + log[:4000])
                objs.append(o)
            members = []
            for rel, f in repo:
                o, log = f.result()
                if o is None:
                    logs.append(log)
                else:
                    members.append(o)
            flags = (["-Wl,--wrap=" + w for w in wraps] + SAN_LINK[san] + ["-pthread"])
            key = sha(" ".join(objs + members + flags), lib, san)
            binary = "%s/bin/%s-%s-%s-%s" % (BUILD, name, lib, san, key[:16])
            if os.path.exists(binary):
                return binary
            ar = binary + ".a"
            if os.path.exists(ar):
                os.unlink(ar)
            subprocess.run(["ar", "rcs", ar] + members, check=True)
            tmp = "%s.%d.tmp" % (binary, os.getpid())
            for absl in (ABSL, all_absl()):
                cmd = ["clang++"] + flags + objs + [ar] + LIBS[lib]["ldflags"] + absl + h.get("ldflags", []) + ["-o", tmp]
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode == 0:
                    break
            os.unlink(ar)
            if p.returncode != 0:
                raise HarnessError("link of %s failed:\n%s\n%s" % (name, p.stdout[-6000:], "\n".join(logs)[-6000:]))
            os.replace(tmp, binary)
            return binary
        return link


# Coverage-guided workloads: most executions, most seconds.
FUZZ = {"quick": (200000, 25), "thorough": (1 << 30, 900)}
ASAN = "exitcode=86:detect_leaks=%d:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:max_allocation_size_mb=4096"


MEMCHECK = ["valgrind", "-q", "--error-exitcode=86", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--track-origins=no", "--leak-check=no",
            "--fair-sched=try", "--suppressions=%s/memcheck.supp" % VERIF]
# The SSL library's own use of secrets is its business.
TAINT = MEMCHECK[:-1] + ["--suppressions=%s/taint.supp" % VERIF]


def run_binary(cmd, env, timeout, log):
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True, cwd=BUILD)
        try:
            return p.wait(timeout=timeout), False
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            return -9, True


def tail(path, n=12000):
    try:
        data = read(path).decode("utf-8", "replace")
    except OSError:
        return ""
    return data if len(data) <= n else data[:n // 2] + "\n...\n" + data[-n // 2:]


def crash_summary(text, rc):
    for pat in (r"(Assertion [^\n]*failed[^\n]*)", r"SUMMARY: (\w+Sanitizer: [^\n]*)", r"runtime error: ([^\n]*)",
                r"(terminate called[^\n]*)", r"(ERROR: libFuzzer: [^\n]*)", r"==\d+== ((?:Conditional jump|Use of uninit|Invalid|Syscall param|Jump to|Process terminating|Mismatched|Source and dest)[^\n]*)"):
        m = re.search(pat, text)
        if m:
            return m.group(1).strip()
    return "exit code %d" % rc


def run_job(binary, prop, job, tier, seed, work, consts):
    """Runs one workload; returns a dict with its report."""
    name = job["name"]
    out = "%s/%s.json" % (work, name)
    progress = "%s/%s.progress" % (work, name)
    log = "%s/%s.log" % (work, name)
    cmd = [binary, "--property=" + job.get("as", prop), "--tier=" + tier, "--seed=%d" % seed, "--out=" + out, "--consts=" + consts,
           "--progress=" + progress, "--rounds=%d" % ROUNDS.get(prop, {}).get(tier, 1)] + job.get("args", [])
    if job["san"] == "fuzz":
        runs, secs = FUZZ[tier]
        corpus = "%s/%s.corpus" % (work, name)
        os.makedirs(corpus, exist_ok=True)
        cmd += ["--fuzz=%d" % (job.get("runs", {}).get(tier, runs)), "--fuzz-s=%d" % secs, "--corpus=" + corpus]
    prefix = {"mem": MEMCHECK, "taint": TAINT}.get(job["san"], [])
    cmd = prefix + cmd
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)
    env["ASAN_OPTIONS"] = ASAN % (1 if job.get("leaks", True) else 0)
    env["UBSAN_OPTIONS"] = "exitcode=86:print_stacktrace=1:halt_on_error=1"
    env["LSAN_OPTIONS"] = "exitcode=86"
    env["TSAN_OPTIONS"] = "exitcode=86:halt_on_error=0:second_deadlock_stack=1:suppressions=%s/tsan.supp:history_size=4" % VERIF
    env["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
    if not env["ASAN_SYMBOLIZER_PATH"]:
        env.pop("ASAN_SYMBOLIZER_PATH")
    env.update(job.get("env", {}))
    timeout = job.get("timeout", 300 if tier == "quick" else 3000)
    rep = {"job": name, "binary": os.path.basename(binary), "cmd": cmd, "violations": []}
    t0 = time.time()
    if job["san"] in ("asan", "rel", "tsan", "fuzz", "mem", "taint"):
        for extra in ([], ["setarch", "-R"]):
            rc, _ = run_binary(extra + prefix + [binary, "--canary"], env, 60, log)
            if rc == 86:
                break
        else:
            raise HarnessError("%s: the sanitizer did not report a planted error (exit %d)\n%s" % (name, rc, tail(log)))
        rep["sanitizer_selftest"] = "reported"
    for attempt in (1, 2):
        for f in (out, progress):
            if os.path.exists(f):
                os.unlink(f)
        rc, hung = run_binary(cmd, env, timeout, log)
        text = tail(log)
        if re.search(r"LeakSanitizer has encountered a fatal error", text):
            env["ASAN_OPTIONS"] = ASAN % 0
            rep["leak_check"] = "unavailable"
            continue
        if re.search(r"ThreadSanitizer: unexpected memory mapping", text):
            cmd = ["setarch", "-R"] + cmd
            continue
        if not hung:
            break
    rep["wall_s"] = round(time.time() - t0, 2)
    rep["rc"] = rc
    if os.path.exists(out):
        with open(out) as f:
            data = json.load(f)
        for k in ("evaluations", "distinct_nontrivial", "rule", "counts", "samples"):
            rep[k] = data.get(k)
        # Under memcheck, only what it reports is a violation (and what "keys" names).
        mine = [v for v in data["violations"] if job["san"] not in ("mem", "taint") or v["key"] in job.get("keys", ())]
        rep["violations"] += mine
        for v in data["violations"]:
            if v not in mine:
                print("note: %s of another property: %s (%s)" % (name, v["key"], v.get("case", "")[:120]))
        if not rep["violations"] and (not data["evaluations"] or not data["distinct_nontrivial"]):
            raise HarnessError("%s: nothing was observed" % name)
    last = ""
    if os.path.exists(progress):
        last = read(progress).split(b"\0")[0].decode("utf-8", "replace")
    if job["san"] in ("mem", "taint") and (hung or rc not in (0, 86, 3, 139, -11)):
        rep["unfinished"] = "hung" if hung else "exit %d" % rc
    elif hung:
        rep["violations"].append({"key": "hang", "case": last, "msg": "no result within %d s, twice" % timeout})
    elif rc == 3:
        raise HarnessError("%s: harness environment error\n%s" % (name, text))
    elif rc == -9:
        raise HarnessError("%s: killed (out of memory?)\n%s" % (name, text))
    elif rc not in (0, 1) or (rc == 1 and not rep["violations"]):
        rep["violations"].append({"key": "crash:" + re.sub(r"0x[0-9a-f]+|\d{5,}", "#", crash_summary(text, rc)),
                                  "case": last, "msg": crash_summary(text, rc), "log": text})
    elif rc == 0 and not os.path.exists(out):
        raise HarnessError("%s: no report written\n%s" % (name, text))
    return rep


def known_findings():
    """Lines 'known: property=<id> key=<key> case=<regex> <what>'; 'fixed:' lines suppress nothing."""
    out = []
    path = VERIF + "/KNOWN_FINDINGS.txt"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) case=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def jobs_for(prop, tier):
    return [j for j in CHECKS[prop]["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]


def check(prop, tier, seed):
    t0 = time.time()
    c = CHECKS[prop]
    b = Builder()
    jobs = jobs_for(prop, tier)
    with open(BUILD + "/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        thunks = {}
        for j in jobs:
            k = (j["harness"], j["lib"], j["san"])
            if k not in thunks:
                thunks[k] = b.harness(*k)
        bins = {k: t() for k, t in thunks.items()}
        consts = b.constants()
    t_build = time.time() - t0
    work = "%s/work/%s-%d" % (BUILD, prop, os.getpid())
    os.makedirs(work, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(run_job, bins[(j["harness"], j["lib"], j["san"])], prop, j, tier, seed, work, consts) for j in jobs]
        reps = [f.result() for f in futs]
    shutil.rmtree(work, ignore_errors=True)

    known = known_findings()
    new, listed = [], {}
    for r in reps:
        for v in r["violations"]:
            hit = None
            for kp, kk, kc, kw in known:
                if kp == prop and kk == v["key"] and re.search(kc, v["case"] + " | " + v["msg"]):
                    hit = (kp, kk, kc, kw)
            if hit:
                listed[hit] = listed.get(hit, 0) + 1
            else:
                new.append(dict(v, job=r["job"], cmd=r["cmd"]))
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": c["level"],
        "coverage": {
            "evaluations": sum(r.get("evaluations") or 0 for r in reps),
            # The same workload on several builds counts once.
            "distinct_nontrivial": sum(max(r.get("distinct_nontrivial") or 0 for r in reps if r.get("rule") == rule) for rule in {r.get("rule") for r in reps}),
            "rule": "; ".join(sorted({r.get("rule") for r in reps if r.get("rule")})),
            "samples": [{"job": r["job"], "case": s} for r in reps for s in (r.get("samples") or [])][:12],
            "observed": {r["job"]: dict(r.get("counts") or {}, evaluations=r.get("evaluations"),
                                        distinct=r.get("distinct_nontrivial"), wall_s=r["wall_s"],
                                        sanitizer_selftest=r.get("sanitizer_selftest", "none")) for r in reps},
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(t_build, 2),
        "violations": len(new),
    }
    with open("%s/%s.json" % (EVID, prop), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for (kp, _, _, kw), n in sorted(listed.items()):
        print("KNOWN-FINDING: property=%s %s" % (kp, kw))
    if new:
        os.makedirs(EVID + "/replay", exist_ok=True)
        path = "%s/replay/%s-%s.json" % (EVID, prop, tier)
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "violations": new,
                       "how": "rerun: VERIF_SEED=%d python3 run.py --property %s --tier %s (the workload is "
                              "deterministic in the seed; 'case' names the failing input)" % (seed, prop, tier)},
                      f, indent=1)
        for v in new[:5]:
            print("  [%s] %s: case <%s>: %s" % (v["job"], v["key"], v["case"], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs (build %.1fs)" % (
        prop, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"], t_build))
    return 0


def setup():
    b = Builder()
    thunks = {}
    for p, c in CHECKS.items():
        for j in c["jobs"]:
            if "quick" in j.get("tiers", ("quick", "thorough")):
                k = (j["harness"], j["lib"], j["san"])
                if k not in thunks:
                    thunks[k] = b.harness(*k)
    for k, t in thunks.items():
        print("built", os.path.basename(t()))
    b.constants()


def prune():
    """Keeps the build cache small: drops what has not been used for a day, when large."""
    files = glob.glob(BUILD + "/obj/*") + glob.glob(BUILD + "/bin/*")
    if sum(os.path.getsize(f) for f in files) > 3 << 30:
        for f in files:
            if time.time() - os.path.getmtime(f) > 7200:
                os.unlink(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    try:
        if a.setup:
            prune()
            setup()
            return 0
        if a.selftest:
            import selftest
            return selftest.main(Builder, REPO, VERIF)
        return check(a.property, a.tier, seed)
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
