#!/usr/bin/env python3
"""dbg.py REPLAY.json [n]: print the last events of a rejected trace and the specification's state there."""
import sys, json, os, tempfile, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.common import *
d = json.load(open(sys.argv[1]))["data"]
n = int(sys.argv[2]) if len(sys.argv) > 2 else 6
at = d["stuck_at"]
for i in range(max(0, at - n), at):
    print(i + 1, json.dumps({k: v for k, v in d["trace"]["ev"][i].items() if k in ("op", "k", "e", "r") or v not in ("", 0, False, [])})[:500])
w = tempfile.mkdtemp()
t = dict(d["trace"]); t["ev"] = t["ev"][:at - 1]
json.dump(t, open(w + "/traces.ndjson", "w"))
src = open(os.path.join(SPEC, d["module"] + ".tla")).read()
src = src.replace('PrintT(<<"ACC", tr>>)', 'PrintT(<<"STATE", st\'>>)')
if "Posix" in d["module"]: src = src.replace("STATE\", st'", "STATE\", Brief(st')")
open(w + "/" + d["module"] + ".tla", "w").write(src)
r = tlc(d["module"], d["module"] + ".cfg" if os.path.exists(os.path.join("/verif/spec", d["module"] + ".cfg")) else "Trace.cfg", w, workers=1)
i = r.out.find('<<"STATE"')
o = r.out[i:] if i >= 0 else (r.out[r.out.find('"STATE"'):] if '"STATE"' in r.out else r.out[-1500:])
o = re.sub(r"\s+", " ", o).replace("<< <<", "\n  << <<").replace(">>, <<", ">>,\n  <<").replace(" ofd", "\n ofd").replace(" proc", "\n proc")
print(o.split("Model checking")[0][:6000])
