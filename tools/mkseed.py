#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, edits=[(file, old, new[, count])], needs, breaks, demo (C++ main source)."""
import json, os, shutil, subprocess, sys
for spec in sys.argv[1:]:
    ns = {}; exec(open(spec).read(), ns)
    d = f"/verif/seeded/{ns['id']}"; os.makedirs(d, exist_ok=True)
    R = f"/tmp/mkseed.{os.getpid()}"; shutil.rmtree(R, ignore_errors=True)
    subprocess.run(f"git clone -q /repo {R}", shell=True, check=True)
    for e in ns["edits"]:
        p = R + "/" + e[0]; s = open(p).read(); n = s.count(e[1]); want = e[3] if len(e) > 3 else 1
        assert n == want, (e[0], e[1], n)
        open(p, "w").write(s.replace(e[1], e[2]))
    diff = subprocess.run(f"git -C {R} diff", shell=True, capture_output=True, text=True).stdout
    shutil.rmtree(R, ignore_errors=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.copy("/verif/tools/demo/demo.h", d); shutil.copy("/verif/tools/demo/" + ns.get("script", "demo.sh"), d + "/demo.sh")
    open(d + "/demo.cc", "w").write('#include "demo.h"\n' + ns["demo"])
    print(ns["id"])
