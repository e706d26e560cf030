#!/usr/bin/env python3
import json, sys
for p in sys.argv[1:]:
    d = json.load(open(f"/verif/evidence/{p}.json"))
    for c, r in d["coverage"]["configurations"].items():
        print(p, c, r["wall_s"], {k: (v["cases"], v["cpu_s"]) for k, v in r["families"].items()})
