#!/usr/bin/env python3
"""run.py <property> [quick|thorough]   one check
   run.py all [quick|thorough]          every check, a summary"""
import importlib, json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B
import props
import runner

KNOWN = os.path.join(VERIF, "known_findings.json")
LEVEL = {p["property"]: p["level"] for p in
         json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]} if os.path.exists(
    os.path.join(VERIF, "MANIFEST.json")) else {}


def run(pid, tier, seed):
    t0 = time.time()
    spec = props.P[pid]
    try:
        bins = B.build("asan", spec.get("bins") or [spec["bin"]])
    except RuntimeError as e:
        # one retry: the tree may have been touched while it was read
        bins = B.build("asan", spec.get("bins") or [spec["bin"]])
    n = spec["cases"][0 if tier == "quick" else 1]
    scale = os.environ.get("VERIF_SCALE")
    if scale:
        n = max(8, int(n * float(scale)))
    if spec["kind"] == "harness":
        fills = [0x00, 0xBE] if spec["fills"] else None
        res = runner.run_cases(bins[spec["bin"]], pid, seed, n, fills=fills,
                               deadline=spec.get("deadline"), wall=700 if tier == "quick" else 6 * 3600,
                               shards=spec.get("shards", 8))
    else:
        mod = importlib.import_module(spec["module"])
        res = mod.run(pid, bins, seed, n, tier)
    for x in spec.get("also", []):
        mod = importlib.import_module(x)
        r2 = mod.run(pid, bins, seed, n, tier)
        res.findings += r2.findings
        res.evaluations += r2.evaluations
        res.cases += r2.cases
        res.nontrivial |= r2.nontrivial
        res.counters.update(r2.counters)
        res.samples += r2.samples
        res.notes += r2.notes
    known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid and k["status"] == "known"] \
        if os.path.exists(KNOWN) else []
    new = []
    for f in res.findings:
        if not any(k["key"] == f.key for k in known):
            new.append(f)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    cov = {
        "evaluations": res.evaluations,
        "distinct_nontrivial": len(res.nontrivial),
        "rule": spec["rule"],
        "samples": res.samples[:6] or ["-"],
        "cases": res.cases,
        "observed": res.counters,
        "distinct_observed": res.distinct,
    }
    if res.notes:
        cov["notes"] = res.notes[:20]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": LEVEL.get(pid, "exploration"),
        "coverage": cov,
        "assumptions": spec.get("assumptions", [
            "the sanitizer runtime and the harness's reference model are right",
            "executions not generated by this seed and tier were not observed"]),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for f in new:
        if f.key in seen:
            continue
        seen.add(f.key)
        print(f"  [{pid}] {f.key}: {f.text[:600]}")
    if new:
        print(f"VIOLATION property={pid} replay={os.path.relpath(new[0].replay, VERIF) if new[0].replay else '-'}")
        return 1
    low = {k: (res.counters.get(k, 0), v) for k, v in spec["floors"].items()
           if res.counters.get(k, 0) < (v if not scale else 1)}
    if low:
        print(f"[{pid}] the monitors saw too little: {low} {res.notes[:3]}")
        return 2
    print(f"[{pid}] held: {res.cases} cases, {res.evaluations} evaluations, {len(res.nontrivial)} distinct "
          f"non-trivial, {ev['wall_s']} s")
    return 0


def main():
    what = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if what == "all":
        bad = {}
        for pid in sorted(props.P):
            try:
                rc = run(pid, tier, seed)
            except Exception as e:
                traceback.print_exc()
                rc = 2
            if rc:
                bad[pid] = rc
            sys.stdout.flush()
        print("all quiet" if not bad else f"not quiet: {bad}")
        return 1 if bad else 0
    try:
        return run(what, tier, seed)
    except RuntimeError as e:
        print(f"[{what}] error of the check: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
