#!/usr/bin/env python3
"""run.py ID [quick|thorough]: build the library from /repo's working tree in the needed configurations, build the
check of property ID against it, explore exhaustively, write evidence/ID.json.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; 2: error of the check itself."""
import concurrent.futures as cf, fcntl, hashlib, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
COMMON = "-fwrapv -fno-strict-aliasing -fno-delete-null-pointer-checks -g1"
# configuration -> (library cmake options, library flags, harness defines)
LIBS = {
    "up":    ("-DROUND_MODE=UP -DFULL_ACCU=OFF", "-O2", ""),
    "conv":  ("-DROUND_MODE=CONVERGENT -DFULL_ACCU=OFF", "-O2", "-DCFG_CONVERGENT"),
    "full":  ("-DROUND_MODE=UP -DFULL_ACCU=ON -DAVEPOOL_16BIT_MUL=ON", "-O2", "-DCFG_FULLACCU -DCFG_AVE16"),
    "cfull": ("-DROUND_MODE=CONVERGENT -DFULL_ACCU=ON", "-O2", "-DCFG_CONVERGENT -DCFG_FULLACCU"),
    "ret":   ("-DROUND_MODE=UP -DFULL_ACCU=OFF -DMLI_DEBUG_MODE=DBG_MODE_RET_CODES", "-O1", "-DCFG_RET"),
    "dbg":   ("-DROUND_MODE=UP -DFULL_ACCU=OFF -DMLI_DEBUG_MODE=DBG_MODE_FULL", "-O1", "-DCFG_DBG"),
    "asrt":  ("-DROUND_MODE=UP -DFULL_ACCU=OFF -DMLI_DEBUG_MODE=DBG_MODE_ASSERT", "-O1", "-DCFG_RET"),
    "debug": ("-DROUND_MODE=UP -DFULL_ACCU=OFF -DMLI_DEBUG_MODE=DBG_MODE_DEBUG", "-O1", "-DCFG_RET"),
    "mon":   ("-DROUND_MODE=UP -DFULL_ACCU=OFF", "-O1 -fsanitize=thread -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove", "-DCFG_MON"),
}
# property -> source, configurations
CHECKS = json.load(open(os.path.join(V, "checks.json")))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_hash():
    h = hashlib.sha256()
    for top in ("CMakeLists.txt", "cmake", "include", "lib", "make"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            if os.path.islink(f) and not os.path.exists(f): continue
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh: h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]

def build_lib(cfg, th):
    opts, flags, _ = LIBS[cfg]
    key = hashlib.sha256((th + opts + flags + COMMON).encode()).hexdigest()[:16]
    out = os.path.join(B, "lib", cfg + "-" + key)
    lib = os.path.join(out, "bin", "libmli.a")
    if os.path.exists(os.path.join(out, "ok")): return lib
    os.makedirs(os.path.join(B, "lib"), exist_ok=True)
    for d in os.listdir(os.path.join(B, "lib")):      # keep only the newest build of each configuration
        if d.startswith(cfg + "-") and d != cfg + "-" + key and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(os.path.join(B, "lib", d), ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    r = sh(f'cmake -S {REPO} -B {out} -G Ninja -DCMAKE_BUILD_TYPE=None -DCMAKE_CXX_COMPILER=g++ -DCMAKE_C_COMPILER=gcc '
           f'"-DCMAKE_CXX_FLAGS={flags} {COMMON}" "-DCMAKE_C_FLAGS={flags} {COMMON}" {opts} && ninja -C {out} mli')
    if r.returncode or not os.path.exists(lib):
        print(r.stdout[-6000:]); print(f"error: library configuration {cfg} does not build"); sys.exit(2)
    open(os.path.join(out, "ok"), "w").close()
    return lib

def build_bin(prop, cfg, src, lib, extra, rt):
    bd = os.path.join(B, "bin"); os.makedirs(bd, exist_ok=True)
    exe = os.path.join(bd, f"{prop}-{cfg}")
    inc = f"-I{V}/mc -I{REPO}/include -I{REPO}/include/api -I{REPO}/include/internal -I{REPO}/lib/src/private -I{REPO}/examples/auxiliary"
    mode = LIBS[cfg][2]
    r = sh(f"g++ -std=c++17 -O2 -g1 {COMMON} -w {inc} {mode} {extra} -o {exe} {V}/mc/{src} {rt} {lib} -lm" + (" -Wl,--wrap=memcpy,--wrap=memset,--wrap=memmove" if cfg.split("+")[0] == "mon" else ""))
    if r.returncode:
        print("\n".join([l for l in r.stdout.splitlines() if 'error' in l or 'undefined' in l][:8])); print(f"error: check {src} does not build for {cfg}"); sys.exit(2)
    return exe

def build_mod(prop, cfg, src, lib):
    # one build configuration as a shared object which exports nothing but its entry point, so that several live in one process
    bd = os.path.join(B, "bin"); os.makedirs(bd, exist_ok=True)
    so = os.path.join(bd, f"{prop}-mod-{cfg}.so"); ver = os.path.join(V, "mc", "mod.ver")
    inc = f"-I{V}/mc -I{REPO}/include -I{REPO}/include/api -I{REPO}/include/internal -I{REPO}/lib/src/private"
    r = sh(f"g++ -std=c++17 -O2 -g1 -fPIC -shared {COMMON} -w {inc} -o {so} {V}/mc/{src} {lib} -lm -Wl,--version-script={ver} -Wl,-Bsymbolic")
    if r.returncode:
        print("\n".join([l for l in r.stdout.splitlines() if 'error' in l or 'undefined' in l or 'relocation' in l][:8])); print(f"error: module {src} does not build for {cfg}"); sys.exit(2)

def known_for(prop):
    f = os.path.join(V, "known_findings.txt"); res = {}
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: property=" + prop + " "):
                rest = l.split(" ", 2)[2]; key, _, desc = rest.partition(" :: ")
                res[key.strip()] = desc.strip()
    return res

def main():
    prop = sys.argv[1]
    if prop == "setup":                     # warm the library builds; checks rebuild whatever is missing or stale
        os.makedirs(B, exist_ok=True)
        lock = open(os.path.join(B, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
        th = tree_hash(); need = sorted({x.split("+")[0] for c in CHECKS.values() for x in (c["cfgs"]["quick"] if isinstance(c["cfgs"], dict) else c["cfgs"]) + c.get("mods", [])})
        with cf.ThreadPoolExecutor(3) as ex: list(ex.map(lambda c: build_lib(c, th), need))
        print("built", " ".join(need)); return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[prop]; t0 = time.time()
    cfgs = c["cfgs"].get(tier, c["cfgs"]["quick"]) if isinstance(c["cfgs"], dict) else c["cfgs"]
    if len(sys.argv) > 3 and sys.argv[3].startswith("cfg="): cfgs = sys.argv[3][4:].split(",")
    extra_args = sys.argv[4:]
    os.makedirs(B, exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    th = tree_hash()
    libcfgs = list(dict.fromkeys(x for cfg in cfgs for x in cfg.split("+")))
    def compile_cfg(cfg):
        lib = build_lib(cfg.split("+")[0], th)
        return build_bin(prop, cfg, c["src"], lib, c.get("defs", "") + (f' -DMODS=\\"{B}/bin/{prop}-mod-\\"' if c.get("mods") else ""), " ".join(os.path.join(V, "mc", x) for x in c.get("rt", []) if cfg == "mon"))
    with cf.ThreadPoolExecutor(4) as ex:
        mods = list(ex.map(lambda m: build_mod(prop, m, c["modsrc"], build_lib(m, th)), c.get("mods", [])))
        exes = dict(zip(cfgs, ex.map(compile_cfg, cfgs)))
    fcntl.flock(lock, fcntl.LOCK_UN)
    tb = time.time() - t0
    known = known_for(prop)
    out = os.path.join(B, "run"); os.makedirs(out, exist_ok=True)
    kf = os.path.join(out, f"{prop}.{os.getpid()}.known")
    with open(kf, "w") as f: f.write("".join(k + "\n" for k in known))
    budget = (840 if tier == "quick" else 1e9) - tb
    if os.environ.get("VERIF_BUDGET"): budget = float(os.environ["VERIF_BUDGET"]) - tb
    res = []; bad = None; hits = []
    workers = os.environ.get("VERIF_WORKERS", "8")
    for i, cfg in enumerate(cfgs):
        left = budget - (time.time() - t0 - tb)
        dl = max(10, left / (len(cfgs) - i) if i < len(cfgs) - 1 else left)
        if tier == "thorough": dl = min(dl, float(os.environ.get("VERIF_THOROUGH_CFG_S", "7200")))
        of = os.path.join(out, f"{prop}.{os.getpid()}.{cfg}.json")
        cmd = [exes[cfg], "--out", of, "--cfg", cfg, "--known", kf, "--workers", workers, "--deadline", str(dl)] + (["--thorough"] if tier == "thorough" else []) + extra_args
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode not in (0, 1):
            print(r.stdout[-4000:]); print(f"error: explorer exited with {r.returncode}"); sys.exit(2)
        d = json.load(open(of)); os.unlink(of); res.append(d)
        for k in d["known"]:
            if k not in hits: hits.append(k)
        if r.returncode == 1:
            rd = os.path.join(V, "replays"); os.makedirs(rd, exist_ok=True)
            bad = os.path.join(rd, f"{prop}-{cfg}.txt")
            shutil.move(of + ".violation", bad)
            print(r.stdout[-3000:])
            break
    os.unlink(kf)
    cov = {
        "states": sum(d["states"] for d in res), "transitions": sum(d["transitions"] for d in res),
        "traces_validated_against_impl": sum(d["traces"] for d in res),
        "distinct_observed_outcomes": sum(d["distinct_outcomes"] for d in res),
        "choice_tree_leaves": sum(d["leaves"] for d in res), "cases_executed": sum(d["cases"] for d in res),
        "exhaustive": not any(d["capped"] for d in res) and bad is None,
        "configurations": {d["cfg"]: {k: d[k] for k in ("states", "transitions", "traces", "cases", "wall", "capped", "spaces")} for d in res},
        "samples": res[0]["samples"][:12] if res else [],
        "what_is_a_state": "one fully specified call or call history of the real library (all parameters, inputs and the observed outputs, deduplicated by hash); a transition is one call into the library; a trace is one complete case whose every observation was compared with the reference model",
        "build_s": round(tb, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": c.get("assumptions", []) + ["library built from the working tree with gcc for the host (reference code path), as the repository's own tests do"],
          "wall_s": round(time.time() - t0, 1), "violations": 1 if bad else 0}
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in hits: print(f"KNOWN-FINDING: property={prop} {known.get(k, k)}")
    if bad:
        print(f"VIOLATION property={prop} replay={bad}")
        sys.exit(1)
    print(f"{prop} {tier}: held; states={cov['states']} transitions={cov['transitions']} traces={cov['traces_validated_against_impl']} outcomes={cov['distinct_observed_outcomes']} exhaustive={cov['exhaustive']} wall={ev['wall_s']}s (build {tb:.1f}s)")
    sys.exit(0)
main()
