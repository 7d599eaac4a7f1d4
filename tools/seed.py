#!/usr/bin/env python3
"""seed.py ID...: confirm a planted bug (/verif/seeded/ID): patch applies, builds, the stable tests pass, the demo
distinguishes; then run the check of its property against it. Works on a copy of /repo mounted over /repo in a
mount namespace of its own, so the real working tree is never touched."""
import json, os, subprocess, sys, shutil, tempfile
if not os.environ.get("SEED_NS"):
    w = f"/tmp/seedrepo.{os.getpid()}"; subprocess.run(["cp", "-a", "/repo", w], check=True)
    os.environ["SEED_NS"] = "1"; r = subprocess.run(["unshare", "-m", "bash", "-c", f'mount --bind {w} /repo && cd /verif && exec python3 tools/seed.py "$@"', "x"] + sys.argv[1:])
    shutil.rmtree(w); sys.exit(r.returncode)
S = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def demo(d):
    t = tempfile.mkdtemp(); shutil.copytree(d, t + "/x", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = sh(f"bash {t}/x/demo.sh", cwd="/repo"); shutil.rmtree(t); return r
args = [a for a in sys.argv[1:] if not a.startswith("-")]
for i in args or sorted(os.listdir(S)):
    d = os.path.join(S, i)
    if not os.path.isdir(d): continue
    prop = json.load(open(d + "/meta.json"))["property"]; out = [i, prop]
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
    try:
        if "--nodemo" not in sys.argv:
            if sh("bash /opt/vp/build.sh").returncode: out.append("CLEAN-BUILD-FAILS")
            r = demo(d); out.append("demo-clean:" + ("ok" if r.returncode == 0 else "FAIL " + r.stdout[-800:]))
        r = sh(f"git -C /repo apply {d}/patch.diff")
        if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); continue
        if "--nodemo" not in sys.argv:
            r = sh("bash /opt/vp/build.sh")
            if r.returncode: print(i, "BUILD FAILS", r.stdout[-1500:]); continue
            sh("bash /opt/vp/test.sh /tmp/seed_t.json"); t = json.load(open("/tmp/seed_t.json"))
            miss = stable - set(t["passed"]); out.append("tests:" + ("ok" if not miss else f"{len(miss)} FAIL {sorted(miss)[:4]}"))
            r = demo(d); out.append("demo-bug:" + ("fails(good)" if r.returncode else "PASSES(bad)"))
        if "--nocheck" not in sys.argv:
            r = sh(f"VERIF_KEEP=1 python3 run.py {prop} quick", cwd="/verif")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
            out.append(f"check: rc={r.returncode} " + ("CAUGHT" if r.returncode == 1 and v else "MISSED " + r.stdout[-300:]))
            out.append(" // ".join(l.strip() for l in r.stdout.splitlines()[-5:-1])[:300])
    finally:
        sh("git -C /repo checkout -- . && git -C /repo clean -fdq -e _build")
    print(" | ".join(out), flush=True)
if "--nodemo" not in sys.argv: sh("bash /opt/vp/build.sh")
