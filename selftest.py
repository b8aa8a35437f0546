"""Validates the machinery itself: the upb stand-in (by running the project's
own tests against it, including the ones the baseline build has to leave out)
and the reference oracles (published vectors)."""
import glob, os, re, subprocess, sys


def main(Builder, REPO, VERIF):
    import run
    b = Builder()
    lib, san = os.environ.get("SELFTEST_LIB", "ossl"), os.environ.get("SELFTEST_SAN", "asan")
    cflags = run.COMMON + run.LIBS[lib]["cflags"] + run.SANS[san]
    cfl_c = [f for f in cflags if not f.startswith("-std=")]
    rel = run.repo_sources()
    objs = {r: b.obj(REPO + "/" + r, cfl_c if r.endswith(".c") else cflags, "clang" if r.endswith(".c") else "clang++") for r in rel}
    util = {os.path.relpath(f, REPO): b.obj(f, cflags) for f in glob.glob(REPO + "/src/**/*_test_util.cc", recursive=True)}
    shim = b.obj(VERIF + "/shim/upb.cc", cflags)
    tests = sorted(glob.glob(REPO + "/src/**/*_test.cc", recursive=True))
    tobjs = {t: b.obj(t, cflags) for t in tests}
    main_src = run.BUILD + "/gtest_main.cc"
    with open(main_src, "w") as f:
        f.write('#include "gtest/gtest.h"\nint main(int c,char**v){testing::InitGoogleTest(&c,v);return RUN_ALL_TESTS();}\n')
    gm = b.obj(main_src, cflags)
    total = passed = 0
    bad = 0
    for t in tests:
        o, log = tobjs[t].result()
        if o is None:
            print("COMPILE FAIL", t, log[-3000:]); bad = 1; continue
        members = []
        for r, f in list(objs.items()) + list(util.items()):
            p, log = f.result()
            if p is None:
                print("COMPILE FAIL", r, log[-3000:]); bad = 1; continue
            fake = "fake_access_token_manager" in r
            single = "single_token_access_token_manager" in r
            if single and "single_token" not in t: continue
            if fake and "single_token" in t: continue
            members.append(p)
        exe = run.BUILD + "/selftest_bin"
        cmd = ["clang++"] + run.SANS[san] + ["-pthread", o, gm.result()[0]] + members + [shim.result()[0]] + ["-lgmock", "-lgtest"] + run.LIBS[lib]["ldflags"] + run.ABSL + ["-o", exe]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print("LINK FAIL", t, p.stdout[-3000:]); bad = 1; continue
        env = dict(os.environ, S2A_ACCESS_TOKEN="s2a_access_token_from_env_variable", ASAN_OPTIONS="detect_leaks=1")
        p = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=run.BUILD)
        m = re.search(r"\[  PASSED  \] (\d+) test", p.stdout)
        n = re.search(r"\[==========\] (\d+) tests? from .* ran", p.stdout)
        k, tot = int(m.group(1)) if m else 0, int(n.group(1)) if n else 0
        total += tot; passed += k
        print("%-70s rc=%d passed %d/%d" % (os.path.relpath(t, REPO), p.returncode, k, tot))
        if p.returncode:
            bad = 1
            print(p.stdout[-2500:])
    print("tests passed: %d/%d" % (passed, total))
    return bad
