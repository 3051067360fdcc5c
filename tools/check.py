#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current working tree."""
import sys, os, json, time, shutil, argparse, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt
from vt import log, ModelError
import props
from concurrent.futures import ThreadPoolExecutor


def known(pid):
    p = os.path.join(vt.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k["property"] == pid and k["status"] == "known"]


def is_known(kf, beh, step, desc):
    for k in kf:
        m = k["match"]
        if beh[step]["op"] == m["op"] and all(t in desc for t in m.get("desc", [])):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    work = os.path.join(vt.BUILD, "work", "%s-%s" % (pid, a.tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    evf = os.path.join(vt.VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evf), exist_ok=True)
    try:
        rc = run(a, pid, work, evf, t0)
    except ModelError as e:
        log("CHECK-ERROR property=%s %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    if not a.keep:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def explore(a, tasks, work, seed, first, driver_f, ex):
    """one round: run TLC on every task, replay what it emits. BFS tasks are exhaustive and run in the first round only."""
    futs = []
    for ti, t in enumerate(tasks):
        if t["kind"] != "replay":
            continue
        if t["mode"] == "sim":
            num = max(1, int(t["num"]["quick"] * a.scale))
            parts = min(t.get("split", 4), max(1, num // 20))
            for j in range(parts):
                futs.append((ti, ex.submit(vt.run_tlc, t["module"], work, "t%d_%d" % (ti, j), t["consts"], "sim", seed * 1000003 + ti * 997 + j * 31 + 7,
                                           t.get("inv", ("Emit",)), (num + parts - 1) // parts, t["depth"], 1, 850, t.get("extra", ""), None, "2g", t.get("next", "Next"), t.get("init", "Init"))))
        elif first and (not t.get("tier") or a.tier in t["tier"]):
            c = dict(t["consts"])
            c.update(t.get(a.tier, {}))
            futs.append((ti, ex.submit(vt.run_tlc, t["module"], work, "t%d" % ti, c, "bfs", seed, t.get("inv", ("Emit",)),
                                       0, 0, t.get("workers", 1), 850 if a.tier == "quick" else 14000, t.get("extra", ""), None, t.get("heap", "3g"), t.get("next", "Next"), t.get("init", "Init"))))
    driver = driver_f.result()
    tlc = [(ti, f.result()) for ti, f in futs]
    for behs in batches(tlc, tasks):
        for t in tasks:
            if t["kind"] == "trace":
                del t["collect"]()[:]
        bad, ncmp, _ = vt.replay(driver, behs, work)
        # trace validation tasks
        extra_viol, extra_cov = [], {}
        for ti, t in enumerate(tasks):
            if t["kind"] == "trace":      # recorded executions must be behaviours of a trace specification
                recs = t["collect"]()
                rej, st = vt.check_traces(t["module"], [r[1] for r in recs], work)
                for k, why in rej:
                    at = recs[k][0]
                    extra_viol.append(("recorded execution is not a behaviour of %s (%s)" % (t["module"], why),
                                       dict(trace=recs[k][1], behaviour=vt.script_of(behs[at[0]]), step=at[1])))
                extra_cov["traces_checked_by_tlc"] = extra_cov.get("traces_checked_by_tlc", 0) + st["traces"]
                extra_cov["states"] = extra_cov.get("states", 0) + st.get("trace_states", 0)
            if t["kind"] == "python" and first:
                v, cov = t["fn"](driver, work, a)
                extra_viol += v
                for k, x in cov.items():
                    extra_cov[k] = extra_cov.get(k, 0) + x if isinstance(x, (int, float)) else x
        yield driver, tlc, behs, bad, ncmp, extra_viol, extra_cov
        tlc, first = [], False


def batches(tlc, tasks, size=12000):
    """the emitted behaviours, in pieces that fit in memory"""
    cur = []
    for ti, r in tlc:
        some = False
        for b in vt.load_behaviours(r["out"]):
            some = True
            cur.append(b)
            if len(cur) >= size:
                yield cur
                cur = []
        if not some and not tasks[ti].get("no_emit"):
            raise ModelError("no behaviours from %s" % r["name"])
        os.path.exists(r["out"]) and os.remove(r["out"])
    if cur:
        yield cur


def run(a, pid, work, evf, t0):
    tasks = props.PROPS[pid]
    rp = os.path.join(vt.BUILD, "replay")
    os.makedirs(rp, exist_ok=True)
    ex = ThreadPoolExecutor(max_workers=vt.NCPU)
    fb = ex.submit(vt.build)
    sims = [t for t in tasks if t["kind"] == "replay" and t["mode"] == "sim"]
    rounds = 1 if a.tier == "quick" or not sims else max(1, max(t["num"]["thorough"] // t["num"]["quick"] for t in sims))
    budget = float(os.environ.get("VERIF_BUDGET_S", "3000"))
    tot = None
    def rounds_():
        for rnd in range(rounds):
            for z in explore(a, tasks, work, a.seed + 7919 * rnd, rnd == 0, fb, ex):
                yield (rnd,) + z

    for rnd, driver, tlc, behs, bad, ncmp, xv, xc in rounds_():
        r = report(a, pid, rp, driver, work, behs, bad, xv, tot["nviol"] if tot else 0, tot["seen"] if tot else set())
        ops = {}
        for b in behs:
            for st in b:
                ops[st["op"]] = ops.get(st["op"], 0) + 1
        if tot is None:
            tot = dict(nviol=0, seen=r[1], ops={}, distinct=set(), n=0, ncmp=0, states=0, trans=0, runs=[], xc={},
                       samples=[" ; ".join(vt.script_of(b))[:1500] for b in behs[:1] + behs[len(behs) // 2:len(behs) // 2 + 1]])
        tot["nviol"] = r[0]
        for k, v in ops.items():
            tot["ops"][k] = tot["ops"].get(k, 0) + v
        tot["distinct"] |= {hash(json.dumps(vt.script_of(b))) for b in behs}
        tot["n"] += len(behs)
        tot["ncmp"] += ncmp
        tot["states"] += sum(z["states"] for _, z in tlc)
        tot["trans"] += sum(z["transitions"] for _, z in tlc)
        tot["runs"] += [dict(module=z["module"], mode=z["mode"], states=z["states"], wall_s=round(z["wall"], 2)) for _, z in tlc]
        for k, v in xc.items():
            tot["xc"][k] = tot["xc"].get(k, 0) + v if isinstance(v, (int, float)) else v
        if tot["nviol"] or time.time() - t0 > budget:
            break
    cov = dict(states=tot["states"], transitions=tot["trans"], traces_validated_against_impl=tot["n"], distinct_behaviours=len(tot["distinct"]),
               comparisons=tot["ncmp"], steps_replayed=sum(tot["ops"].values()), calls=tot["ops"], rounds=rnd + 1,
               exhaustive=bool(tasks) and all(t["kind"] != "replay" or t["mode"] == "bfs" for t in tasks), tlc_runs=tot["runs"][:12], samples=tot["samples"])
    for k, v in tot["xc"].items():
        cov[k] = cov[k] + v if k in ("states", "transitions", "traces_validated_against_impl", "comparisons") else v
    nviol = tot["nviol"]
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=["TLC evaluates the specification correctly", "gcc, AddressSanitizer and reference BLAS/LAPACK are correct",
                           "behaviours outside the stated bounds of the specification are not explored"])
    with open(evf, "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d behaviours (%d steps, %d comparisons, %d specification states) in %.1f s: %s" %
        (pid, a.tier, cov["traces_validated_against_impl"], cov["steps_replayed"], cov["comparisons"], cov["states"], time.time() - t0,
         "held" if nviol == 0 else "%d violation(s)" % nviol))
    return 1 if nviol else 0


def report(a, pid, rp, driver, work, behs, bad, extra_viol, nviol, seen):
    kf = known(pid)
    bad.sort(key=lambda z: len(json.dumps(behs[z[0]])))
    tried = 0
    for i, step, desc in bad:
        k = is_known(kf, behs[i], step, desc)
        if k:
            if k["what"] not in seen:
                seen.add(k["what"])
                log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            continue
        if nviol >= 3 or tried >= 8:
            continue
        tried += 1
        c = vt.confirm(driver, behs[i], work)
        if c is None:      # only within its process history: re-run the whole prefix of its chunk
            nch = max(1, min(vt.NCPU, len(behs)))
            chunk = [(str(j), behs[j]) for j in range(i % nch, i + 1, nch)]
            res = vt.run_driver(driver, chunk, work, "again")
            d, _ = vt.judge(behs[i], res[str(i)])
            if d is None:
                log("note: a disagreement did not repeat and is not reported: %s" % desc)
                continue
            c = d
        nviol += 1
        path = os.path.join(rp, "%s-%d.json" % (pid, nviol))
        with open(path, "w") as f:
            json.dump(dict(property=pid, step=c[0], what=c[1], script=vt.script_of(behs[i]), behaviour=behs[i]), f, indent=1)
        log("  step %d of the behaviour: %s" % (c[0], c[1]))
        log("VIOLATION property=%s replay=%s" % (pid, path))
    for j, (desc, data) in enumerate(extra_viol):
        if nviol >= 6:
            break
        k = [z for z in kf if all(t in desc for t in z["match"].get("desc", ["\0"]))]
        if k:
            if k[0]["what"] not in seen:
                seen.add(k[0]["what"])
                log("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
            continue
        nviol += 1
        path = os.path.join(rp, "%s-x%d.json" % (pid, nviol))
        with open(path, "w") as f:
            json.dump(dict(property=pid, what=desc, data=data), f, indent=1, default=str)
        log("  " + desc)
        log("VIOLATION property=%s replay=%s" % (pid, path))
    return nviol, seen


if __name__ == "__main__":
    main()
