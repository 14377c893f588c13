"""python -m mc.main <id> [--replay FILE]: run the check of one property."""
import argparse
import importlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", help="only this harness (debugging; writes no evidence)")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    from . import boot, engine  # noqa: F401

    mod = importlib.import_module(f"mc.props.{a.id.lower()}")
    harnesses = mod.harnesses(a.tier)

    if a.replay:
        r = json.load(open(a.replay))
        prog = harnesses.get(r["harness"]) or mod.harnesses("thorough")[r["harness"]]
        cx, err = engine.run_once(prog, r["choices"], r["tier"])
        print("choices: " + " ; ".join(cx.labels))
        if err and err != "prune":
            print(err[1])
            print(err[2])
            print(f"VIOLATION property={a.id} replay={a.replay}")
            sys.exit(1)
        print("not reproduced")
        sys.exit(0)

    if a.only:
        harnesses = {k: v for k, v in harnesses.items() if a.only in k}
    budget = 600 if a.tier == "quick" else 6 * 3600
    runner = getattr(mod, "run", None)
    if runner:
        res = runner(harnesses, a.tier, budget, seed)
    else:
        res = engine.run(harnesses, a.tier, budget, seed=seed, stop_on_violation=not a.keep_going)
    wall = time.time() - t0

    violations, total = [], engine.Stats()
    per = {}
    for n, st in res.items():
        per[n] = dict(executions=st.executions, pruned=st.pruned, states=len(st.states), transitions=st.transitions,
                      comparisons=st.comparisons, distinct_outcomes=len(st.outcomes), exhaustive=not st.capped and not st.violations)
        for v in st.violations:
            violations.append((n, v))
        total.executions += st.executions
        total.transitions += st.transitions
        total.comparisons += st.comparisons
        total.states |= {(n, s) for s in st.states}
        total.capped |= st.capped
    samples = [f"{n}: {s}" for n, st in res.items() for s in st.samples[:2]][:24]
    coverage = dict(
        states=len(total.states), transitions=total.transitions, traces_validated_against_impl=total.executions,
        samples=samples or ["(none)"], exhaustive=not total.capped and not violations, comparisons=total.comparisons,
        harnesses=per, bounds=getattr(mod, "BOUNDS", {}).get(a.tier, ""),
        rule="every execution is one complete choice sequence run on the real code in /repo in lock-step with the "
             "reference model; states are distinct canonical model states reached, transitions are operations executed "
             "on the real code",
    )
    ev = dict(property=a.id, tier=a.tier, seed=seed, level="model_checking", coverage=coverage,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(violations))
    if not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{a.id}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for n, p in per.items():
        print(f"{a.id} {n}: " + " ".join(f"{k}={v}" for k, v in p.items()))
    print(f"{a.id} tier={a.tier} executions={total.executions} states={len(total.states)} transitions={total.transitions} "
          f"comparisons={total.comparisons} exhaustive={coverage['exhaustive']} wall={wall:.1f}s")

    # Known findings: defects of the unchanged tree that are recorded instead of repaired.
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == a.id]
    for k in known:
        hit = mod.known_finding(k["key"])  # Re-demonstrates the recorded failure on the real code.
        if hit:
            print(f"KNOWN-FINDING: property={a.id} {k['what']}")

    if violations and a.keep_going:
        seen = {}
        for n, v in violations:
            seen.setdefault(v["message"][:70], []).append((n, v))
        for k, vs in sorted(seen.items(), key=lambda kv: -len(kv[1])):
            print(f"-- {len(vs)}x {vs[0][1]['message'][:200]}   [{vs[0][0]}: {' ; '.join(vs[0][1]['labels'])}]")
    if violations:
        violations.sort(key=lambda nv: len(nv[1]["labels"]))
        n, v = violations[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{a.id}.json")
        with open(path, "w") as f:
            json.dump(dict(property=a.id, harness=n, tier=a.tier, **v), f, indent=1)
        print(f"harness {n}: " + " ; ".join(v["labels"]))
        print(v["message"])
        if v["traceback"]:
            print(v["traceback"])
        print(f"replay with: cd {VERIF} && ./check {a.id} --replay {path}")
        print(f"VIOLATION property={a.id} replay={path}")
        sys.stdout.flush()
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
