#!/usr/bin/env python3
"""Development tool (no check uses it): confirm and try planted changes.

  seedtool.py confirm ID   in a scratch copy of /repo: builds, stable tests pass, demo fails with / passes without the patch
  seedtool.py try ID [PROP] apply to /repo, run the property's quick check, undo
"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seed_repo"
def run(cmd, cwd, timeout=1200, env=None, quiet=True):
    return subprocess.run(cmd, cwd=cwd, text=True, timeout=timeout, env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, shell=isinstance(cmd, str))
def env():
    e = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             PROPTEST_RNG_SEED="1", PROPTEST_DISABLE_FAILURE_PERSISTENCE="true")
    e.pop("UPDATE_EXPECT", None)
    return e
def scratch():
    if not os.path.exists(SCR):
        subprocess.check_call(["cp", "-a", "/repo", SCR])
    else:
        subprocess.check_call("git checkout -q -- . && git clean -qfd -e target", cwd=SCR, shell=True)
        subprocess.check_call("git fetch -q /repo HEAD && git checkout -q FETCH_HEAD", cwd=SCR, shell=True)
def tests():
    log = "/tmp/seed_test.log"
    with open(log, "w") as f:
        subprocess.run("timeout 840 cargo test --workspace --exclude analytic-engine --no-fail-fast --offline -- --test-threads 8",
                       cwd=SCR, shell=True, env=env(), stdout=f, stderr=subprocess.STDOUT)
    out = "/tmp/seed_test.json"
    subprocess.check_call(["python3", "/opt/vp/results.py", out, "cargo:" + log], stdout=subprocess.DEVNULL)
    r = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return sorted(set(base) - set(r["passed"]))
def confirm(i):
    d = os.path.join(ROOT, "seeded", i)
    scratch()
    a = run(["git", "apply", os.path.join(d, "patch.diff")], SCR)
    if a.returncode:
        print(i, "patch does not apply", a.stdout); return False
    miss = tests()
    if miss:
        print(i, "TESTS FAIL:", miss[:8]); ok = False
    else:
        ok = True
    tmp = "/tmp/seed_demo"
    shutil.rmtree(tmp, ignore_errors=True); shutil.copytree(d, tmp)
    for f in os.listdir(tmp):
        if f == "meta.json" or f.endswith((".diff", ".patch")): os.remove(os.path.join(tmp, f))
    r = run(["bash", tmp + "/demo.sh"], SCR, 300, env())
    print(i, "demo with patch rc", r.returncode, r.stdout[-300:].strip().replace("\n", " | "))
    subprocess.check_call("git checkout -q -- .", cwd=SCR, shell=True)
    r2 = run(["bash", tmp + "/demo.sh"], SCR, 300, env())
    print(i, "demo without rc", r2.returncode, (r2.stdout[-600:] if r2.returncode else ""))
    ok = ok and r.returncode != 0 and r2.returncode == 0
    shutil.rmtree(tmp, ignore_errors=True)
    print(i, "CONFIRMED" if ok else "NOT CONFIRMED")
    return ok
def tryit(i, prop=None):
    d = os.path.join(ROOT, "seeded", i)
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    assert run("git status --porcelain", "/repo").stdout.strip() == "", "/repo not clean"
    a = run(["git", "apply", os.path.join(d, "patch.diff")], "/repo")
    if a.returncode:
        print(i, "patch does not apply", a.stdout); return
    try:
        r = run(["python3", "bin/check.py", prop, "quick"], ROOT, 1800, dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally:
        subprocess.check_call("git checkout -q -- .", cwd="/repo", shell=True)
    print(i, prop, "CAUGHT" if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout else f"MISSED rc={r.returncode}",
          r.stdout[-500:].strip().replace("\n", " | "), flush=True)
for i in sys.argv[2].split(","):
    if sys.argv[1] == "confirm": confirm(i)
    else: tryit(i, sys.argv[3] if len(sys.argv) > 3 else None)
