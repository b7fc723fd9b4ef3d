#!/usr/bin/env python3
"""check.py PROPERTY: decides one property; see MANIFEST.json."""
import argparse, concurrent.futures, json, os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, props
from vlib import VERIF, CheckError


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def match(pattern, x):
    """pattern is a (partial) value of x"""
    if isinstance(pattern, dict):
        return isinstance(x, dict) and all(k in x and match(v, x[k]) for k, v in pattern.items())
    if isinstance(pattern, list):
        return isinstance(x, list) and len(x) == len(pattern) and all(match(a, b) for a, b in zip(pattern, x))
    return pattern == x


def judge_known(case, obs, findings, hit):
    """vlib.judge, but a step of a known finding may behave exactly as the specification says that it (wrongly) does:
    such steps have the field "alt" next to "exp"."""
    alts = [k for k in findings if k.get("alt")]
    while True:
        r = vlib.judge(case, obs)
        if not r or not alts or r[0] >= len(obs):
            return r
        s = case["steps"][r[0]]
        k = next((k for k in alts if "alt" in s and match(k["match"].get("step", {}), s)), None)
        if k is None or vlib.diff(s["alt"], obs[r[0]], s["op"]):
            return r
        hit[k["id"]] = k
        case = dict(case, steps=[dict(t, exp=t["alt"]) if i == r[0] else t for i, t in enumerate(case["steps"])])


def judge_traces(run, cases, obs, scratch, label):
    """Recorded executions (an observation of a case) are checked against the specification run["trace"]; a verdict for each"""
    res, rec = [], []
    for c, o in zip(cases, obs):
        r = None
        for i, s in enumerate(c["steps"]):
            x = o[i] if o is not None and i < len(o) else {"crash": "not executed"}
            if "events" not in x:
                r = (i, "crash (%s)" % x["crash"] if "crash" in x else "unexpected observation %s" % vlib.short(x))
                break
        if r is None:
            rec.append(len(res))
        res.append(r)
    if rec:
        d = tempfile.mkdtemp(dir=scratch)
        path = os.path.join(d, "traces")
        with open(path, "w") as f:
            for i in rec:
                f.write(json.dumps(obs[i][0]) + "\n")
        acc, _ = vlib.run_tlc(run["trace"], {"TraceFile": path}, ["Emit"], d, "trace-" + label)
        acc = set(a["accepted"] for a in acc)
        for k, i in enumerate(rec):
            if k + 1 not in acc:
                res[i] = (0, "the recorded execution is not a behaviour of %s" % run["trace"])
    return res


CHUNK = 2500        # seeds of a TLC run: its queue of states is kept in memory
BUDGET = 5400       # s; of the thorough tier, after which no further part of the seeds is begun


def chunks(runs):
    """Splits the runs over many seeds; the parts of different runs alternate."""
    parts = []
    for k, run in enumerate(runs):
        c = run.get("constants", {})
        lo, hi = c.get("SeedLo", 0), c.get("SeedHi", 0)
        n = -(-(hi - lo + 1) // CHUNK)
        for i in range(n):
            r = run if n == 1 else dict(run, constants=dict(c, SeedLo=lo + (hi - lo + 1) * i // n, SeedHi=lo + (hi - lo + 1) * (i + 1) // n - 1))
            parts.append((i, k, r))
    return [(i, r) for i, k, r in sorted(parts, key=lambda p: p[:2])]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay", help="re-run a recorded case")
    ap.add_argument("--only", help="only the run with this label")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(vlib.BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="run-%s-" % a.property, dir=vlib.BUILD)
    try:
        return run(a, seed, t0, scratch)
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, seed, t0, scratch):
    prop = props.PROPS[a.property]
    if a.replay:
        rec = json.load(open(a.replay))
        binary = vlib.build_harness(rec["harness"], scratch, rec.get("defs", ()))
        for _ in range(20 if rec.get("trace") else 1):     # (threads of the system: a violation may need several attempts)
            obs = vlib.replay(binary, [rec["case"]], scratch, "r", rec.get("env"))[0]
            r = judge_traces(rec, [rec["case"]], [obs], scratch, "r")[0] if rec.get("trace") else judge_known(rec["case"], obs, known_findings(a.property), {})
            if r:
                break
        print(json.dumps({"obs": obs, "verdict": r}, indent=1))
        if r:
            print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
            return 1
        return 0
    findings = known_findings(a.property)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "steps_compared": 0, "samples": [], "models": []}
    violations, known_hit = [], {}
    pool = concurrent.futures.ThreadPoolExecutor(1)      # the harness is compiled while TLC runs
    for part, run in chunks(prop["runs"](a.tier, seed)):
        if a.only and run["label"] != a.only:
            continue
        if part > 0 and time.time() - t0 > BUDGET:
            cov["models"].append({"label": run["label"], "not_explored": str(run.get("constants"))})
            continue
        if "custom" in run:
            viol = run["custom"](a.tier, seed, scratch, cov)
            violations += viol
            continue
        build = pool.submit(vlib.build_harness, run["harness"], scratch, run.get("defs", ()))
        cases, stats = vlib.run_tlc(run["module"], run["constants"], run["invariants"], scratch, run["label"],
                                    timeout=run.get("timeout", 700 if a.tier == "quick" else 7200),
                                    properties=run.get("properties", ()), spec=run.get("spec", "Spec"))
        if run.get("expect_cases", True) and not cases:
            raise CheckError("no behaviours generated by %s" % run["label"])
        cov["states"] += stats["states"]
        cov["transitions"] += stats["transitions"]
        cov["models"].append({"label": run["label"], "module": run["module"], "constants": str(run["constants"]),
                              "invariants": list(run["invariants"]), "behaviours": len(cases), **stats})
        if not cases:
            continue
        for c in cases:      # steps which another property decides
            for st in c["steps"]:
                if st["op"] in run.get("drop", ()):
                    st.pop("exp", None)
        try:
            binary = build.result()
        except CheckError:
            if "fallback" not in run:
                raise
            # the stand-in of a library does not fit to the code any more
            run = dict(run, defs=run["fallback"])
            cov["models"][-1]["fallback"] = run["fallback"]
            binary = vlib.build_harness(run["harness"], scratch, run["defs"])
        obs = vlib.replay(binary, cases, scratch, run["label"], run.get("env"), run.get("case_timeout", 60))
        if run.get("trace"):
            verdicts = judge_traces(run, cases, obs, scratch, run["label"])
            cov["traces_validated_against_impl"] += len(cases)
            cov["steps_compared"] += sum(len(o[0]["events"]) for o in obs if o and "events" in o[0])
            for c, o, r in zip(cases, obs, verdicts):
                if r and len(violations) < 5:
                    if "crash" in r[1]:      # believed only if it repeats
                        o2 = vlib.replay(binary, cases, scratch, "confirm", run.get("env"), run.get("case_timeout", 60))
                        if not any(x is None or "crash" in x[0] for x in o2):
                            continue
                    violations.append({"run": run["label"], "harness": run["harness"], "defs": list(run.get("defs", ())), "trace": run["trace"],
                                       "env": run.get("env"), "step": r[0], "message": r[1], "case": c, "obs": o})
            continue
        ops = {}
        for c, o in zip(cases, obs):
            for s in c["steps"]:
                ops[s["op"]] = ops.get(s["op"], 0) + 1
            r = judge_known(c, o, findings, known_hit)
            cov["traces_validated_against_impl"] += 1
            cov["steps_compared"] += len(c["steps"])
            if not r:
                continue
            k = next((k for k in findings if not k.get("alt") and match(k["match"].get("step", {}), c["steps"][r[0]])
                      and k["match"].get("message", "") in r[1]
                      and match(k["match"].get("case", {}), c)), None)
            if k is not None:
                known_hit[k["id"]] = k
                continue
            if len(violations) < 5:
                # believed only if it repeats in a process of its own
                o2 = vlib.replay(binary, [c], scratch, "confirm", run.get("env"), run.get("case_timeout", 60))[0]
                r2 = judge_known(c, o2, findings, {})
                # state may leak between the cases of a process: confirm with the whole batch, too
                if not r2:
                    o3 = vlib.replay(binary, cases, scratch, "confirm", run.get("env"), run.get("case_timeout", 60))[cases.index(c)]
                    r2 = judge_known(c, o3, findings, {})
                if r2:
                    violations.append({"run": run["label"], "harness": run["harness"], "defs": list(run.get("defs", ())),
                                       "env": run.get("env"), "step": r2[0], "message": r2[1], "case": c, "obs": o2})
        cov["models"][-1]["steps"] = ops
        need = set(run.get("must_cover", ()))
        if need - set(ops):
            raise CheckError("vacuous run %s: never reached %s" % (run["label"], sorted(need - set(ops))))
        if len(cov["samples"]) < 2:
            cov["samples"].append(json.loads(json.dumps(cases[len(cases) // 2]))
                                  if len(json.dumps(cases[len(cases) // 2])) < 20000 else str(cases[len(cases) // 2])[:20000])
    wall = round(time.time() - t0, 1)
    ev = {"property": a.property, "tier": a.tier, "seed": seed, "level": prop["level"], "coverage": cov,
          "assumptions": prop.get("assumptions", []), "wall_s": wall, "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (a.property, k["what"]))
    if violations:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(violations):
            p = os.path.join(d, "%s-%d.json" % (a.property, i))
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            print("  %s step %s: %s" % (v["run"], v.get("step"), v["message"]))
            if i == 0:
                first = p
        print("VIOLATION property=%s replay=%s" % (a.property, first))
        return 1
    print("OK property=%s tier=%s states=%d behaviours=%d steps=%d wall=%.1fs" %
          (a.property, a.tier, cov["states"], cov["traces_validated_against_impl"], cov["steps_compared"], wall))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
