#!/usr/bin/env python3
"""addcheck.py ID SRC CFG,CFG[/CFG,CFG] [defs] : register a check (quick configurations / thorough configurations)."""
import json, sys
p = "/verif/checks.json"; c = json.load(open(p)); i, s, g = sys.argv[1:4]; q, _, t = g.partition("/")
e = c.get(i, {}); e.update(src=s, cfgs={"quick": q.split(","), "thorough": (t or q).split(",")})
if len(sys.argv) > 4: e["defs"] = sys.argv[4]
c[i] = e; json.dump(dict(sorted(c.items())), open(p, "w"), indent=1)
