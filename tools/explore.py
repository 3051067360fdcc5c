#!/usr/bin/env python3
"""explore.py <property> [num]: development aid; groups all disagreements of one property."""
import sys, os, json, collections, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt, props
pid = sys.argv[1]; num = int(sys.argv[2]) if len(sys.argv) > 2 else 200; seed = int(sys.argv[3]) if len(sys.argv) > 3 else 5
only = sys.argv[4] if len(sys.argv) > 4 else None
work = os.path.join(vt.BUILD, "work", "x-" + pid); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
drv = vt.build()
from concurrent.futures import ThreadPoolExecutor
ex = ThreadPoolExecutor(8); fs = []
for ti, t in enumerate(props.PROPS[pid]):
    if t["kind"] != "replay" or (only and t["module"] != only): continue
    if t["mode"] == "sim":
        for j in range(4):
            fs.append(ex.submit(vt.run_tlc, t["module"], work, "t%d_%d" % (ti, j), t["consts"], "sim", seed * 7919 + j, t.get("inv", ("Emit",)), max(1, num // 4), t["depth"], 1, 3000, t.get("extra", ""), None, "2g", t.get("next", "Next"), t.get("init", "Init")))
    else:
        c = dict(t["consts"]); c.update(t.get("quick", {}))
        fs.append(ex.submit(vt.run_tlc, t["module"], work, "t%d" % ti, c, "bfs", 1, t.get("inv", ("Emit",)), 0, 0, 1, 3000, t.get("extra", ""), None, "6g", t.get("next", "Next"), t.get("init", "Init")))
behs = []
for f in fs:
    r = f.result(); b = list(vt.load_behaviours(r["out"])); print(r["name"], r["states"], "states", len(b), "behaviours", "%.1fs" % r["wall"]); behs += b
bad, ncmp, res = vt.replay(drv, behs, work)
for t in props.PROPS[pid]:
    if t["kind"] == "trace":
        recs = t["collect"](); rej, st = vt.check_traces(t["module"], [r[1] for r in recs], work); print(t["module"], st)
        for k, why in rej:
            at = recs[k][0]; print("REJECTED", why, vt.script_of(behs[at[0]])[max(0,at[1]-8):at[1]+1]); print(json.dumps(recs[k][1])[:3000])
grp = collections.OrderedDict()
import re
for i, s, d in sorted(bad, key=lambda z: z[1]):
    k = re.sub(r"[-\d.e+]+", "#", d)[:150]
    grp.setdefault(k, []).append((i, s, d))
ops = collections.Counter(st["op"] for b in behs for st in b)
print(dict(ops)); print("comparisons", ncmp, "bad", len(bad))
for k, v in sorted(grp.items(), key=lambda kv: -len(kv[1]))[:20]:
    i, s, d = v[0]
    print("==== %d x %s" % (len(v), d))
    sc = vt.script_of(behs[i])
    print("\n".join("   " + x[:300] for x in sc[:2] + (["..."] if s > 8 else []) + sc[max(2, s - 5):s + 1]))
