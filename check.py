#!/opt/venv/bin/python
"""
check.py P01 [--replay FILE] [--runs N] [--seed N] [--jobs N] [--hashes i,j,...]

Decides one property by deterministic simulation: see DESIGN.md.
Exit 0: held in all runs. Exit 1: a line "VIOLATION property=<id> replay=<path>".
"""

import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
from collections import Counter

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

if os.environ.get("PYTHONHASHSEED") is None:
    # Hash randomisation is part of what the simulator decides
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])

from sim import core  # noqa: E402


def known_findings(pid):
    out = []
    path = os.path.join(HERE, "known_findings.json")
    if os.path.exists(path):
        for k in json.load(open(path))["findings"]:
            if k["property"] == pid:
                out.append(k)
    return out


def matches(k, viol):
    return k["kind"] == viol[0] and k.get("contains", "") in viol[1]


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--jobs", type=int, default=min(os.cpu_count() or 8, 8))
    ap.add_argument("--hashes")
    ap.add_argument("--one", type=int, help="show one run")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--zygote", type=int)
    a = ap.parse_args()
    if a.selftest or not (a.prop or a.zygote):
        # Nothing to build: only show that what the checks need is there
        import fontTools  # noqa: F401
        import ufoLib2  # noqa: F401

        print("ready")
        return 0
    if a.zygote is not None:
        from sim import zygote

        zygote.serve(a.zygote)
        return 0
    t0 = core.wall()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        core.load_library()
    except core.HarnessError:
        raise
    except BaseException as x:  # noqa: B036
        # The library can't even be imported
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{a.prop}-import.json")
        json.dump({"property": a.prop, "import": repr(x)}, open(path, "w"))
        print(f"The library can't be imported: {x!r}")
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    prop = importlib.import_module(f"sim.props.{a.prop.lower()}")
    core.STEPS.install()
    root = tempfile.mkdtemp(prefix="vfbsim")
    try:
        if hasattr(prop, "prepare"):
            prop.prepare(root)
        if a.replay:
            return replay(prop, a, root)
        if a.hashes:
            for i in a.hashes.split(","):
                scn = core.scenario(prop, seed, int(i), tier)
                print(i, core.isolated(prop, scn, root=root)["hash"])
            return 0
        if a.one is not None:
            scn = core.scenario(prop, seed, a.one, tier)
            print(json.dumps(scn)[:4000])
            res = core.isolated(prop, scn, keep=True, root=root)
            print("\n".join(res.pop("events"))[:6000])
            print(json.dumps({k: v for k, v in res.items() if k not in ("marks",)}, indent=1)[:4000])
            return 0
        return check(prop, a, tier, seed, root, t0)
    finally:
        if hasattr(prop, "cleanup"):
            prop.cleanup()
        shutil.rmtree(root, ignore_errors=True)


def replay(prop, a, root) -> int:
    doc = json.load(open(a.replay))
    if "import" in doc:
        print("The library can be imported.")
        return 0
    res = core.isolated(prop, doc["scenario"], keep=True, root=root)
    print("\n".join(res["events"]))
    if res["error"]:
        print(res["error"])
        return 2
    if res["viol"]:
        print(f"{res['viol'][0]}: {res['viol'][1]}")
        same = res["viol"][0] == doc["violation"][0]
        print("reproduced" if same else f"a different violation than {doc['violation'][0]}")
        print(f"VIOLATION property={prop.ID} replay={a.replay}")
        return 1
    print("no violation")
    return 0


def check(prop, a, tier, seed, root, t0) -> int:
    count = a.runs or prop.RUNS[tier]
    results = core.run_all(
        prop, seed, tier, count, root, a.jobs, budget=500 if tier == "quick" else 820
    )
    t_runs = core.wall() - t0
    errors = [r for r in results if r.get("error")]
    bad = [r for r in results if r["viol"]]
    known = known_findings(prop.ID)
    hit = Counter()
    new = []
    for r in bad:
        k = next((k for k in known if matches(k, r["viol"])), None)
        if k is None:
            new.append(r)
        else:
            hit[k["what"]] += 1
    for k in known:
        print(f"KNOWN-FINDING: property={prop.ID} {k['what']} (seen {hit[k['what']]} times)")

    det = determinism(prop, a, results, seed)
    write_evidence(prop, tier, seed, count, results, new, t_runs, t0, det, a)
    if new:
        report(prop, tier, seed, new, root)
        return 1
    if errors:
        for r in errors[:2]:
            print(f"HARNESS-ERROR run {r['i']}: {r['error']}")
        return 2
    print(
        f"{prop.ID}: held in {len(results)} runs "
        f"({sum(r['steps'] for r in results)} steps, {core.wall() - t0:.1f} s)"
    )
    return 0


def report(prop, tier, seed, new, root):
    """Reproduce, minimise and write the replay file."""
    kinds = {}
    for r in new:
        kinds.setdefault(r["viol"][0], r)
    print(f"{len(new)} runs violate {prop.ID}: " + "; ".join(kinds)[:1500])
    # A hang takes long to minimise: prefer another kind of violation
    first = next((r for r in new if r["viol"][0] != "hang"), new[0])
    scn = core.scenario(prop, seed, first["i"], tier)
    kind = first["viol"][0]
    again = core.isolated(prop, scn, root=root)
    reproduced = again["viol"] is not None and again["viol"][0] == kind
    tries = 0
    if reproduced:
        limit = float(os.environ.get("VFBSIM_SHRINK", "25"))
        scn, tries = core.minimise(prop, scn, kind, limit=limit, root=root)
    res = core.isolated(prop, scn, keep=True, root=root)
    viol = res["viol"] or first["viol"]
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop.ID}-{seed}-{first['i']}.json")
    json.dump(
        {
            "property": prop.ID, "seed": seed, "run": first["i"], "tier": tier,
            "violation": viol, "reproduced": reproduced, "minimisation_runs": tries,
            "scenario": scn, "trace": res["events"],
            "how": f"/opt/venv/bin/python {HERE}/check.py {prop.ID} --replay {path}",
        },
        open(path, "w"), indent=1,
    )
    print(f"run {first['i']} of seed {seed}: {viol[0]}: {viol[1]}")
    print(f"VIOLATION property={prop.ID} replay={path}")


def determinism(prop, a, results, seed):
    """Repeat some runs in a fresh process with another hash seed and compare the logs."""
    ok = [r for r in results if not r["viol"] and not r.get("error")]
    if not ok:
        return None
    k = getattr(prop, "REPEAT", 8)
    pick = ok[:: max(len(ok) // k, 1)][:k]
    env = dict(os.environ, PYTHONHASHSEED=str(1000 + seed))
    try:
        p = subprocess.run(
            [sys.executable, os.path.abspath(__file__), prop.ID, "--seed", str(seed),
             "--hashes", ",".join(str(r["i"]) for r in pick)],
            env=env, capture_output=True, text=True, timeout=120,
        )
    except subprocess.TimeoutExpired:
        return {"repeated": 0, "identical": 0}
    got = dict(line.split() for line in p.stdout.splitlines() if len(line.split()) == 2)
    same = sum(1 for r in pick if got.get(str(r["i"])) == r["hash"])
    if same != len(pick):
        print(
            "note: event logs differ under another hash seed in runs "
            + ",".join(str(r["i"]) for r in pick if got.get(str(r["i"])) != r["hash"])
        )
    return {"repeated": len(pick), "identical": same}


def write_evidence(prop, tier, seed, count, results, new, t_runs, t0, det, a):
    if a.no_evidence:
        return
    faults, probes, marks = Counter(), Counter(), set()
    for r in results:
        faults.update(r["faults"])
        probes.update(r["probes"])
        marks.update(r["marks"])
    nontrivial = {r["hash"] for r in results if r["n"] > 1}
    samples = []
    for r in results[:2]:
        scn = core.scenario(prop, seed, r["i"], tier)
        s = json.dumps(scn)
        samples.append({"run": r["i"], "scenario": scn if len(s) < 3000 else s[:3000] + "..."})
    ev = {
        "property": prop.ID, "tier": tier, "seed": seed, "level": prop.LEVEL,
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.RULE + " Each run is one scenario drawn from (seed, property, run "
            "index). Non-trivial: more than one recorded event; distinct: by the hash of "
            "the whole event log.",
            "samples": samples,
            "runs_planned": count,
            "runs_per_hour": round(len(results) / max(t_runs, 0.001) * 3600),
            "seeds_per_hour": round(3600 / max(core.wall() - t0, 0.001), 1),
            "simulated_seconds": round(sum(r["sim"] for r in results), 1),
            "library_steps_executed": sum(r["steps"] for r in results),
            "events_recorded": sum(r["n"] for r in results),
            "faults_fired": dict(sorted(faults.items())),
            "conditions_reached": dict(sorted(probes.items())),
            "distinct_states": len(marks),
            "distinct_states_measure": prop.STATES,
            "determinism": det,
            "real_components": prop.REAL,
            "stub_components": prop.STUB,
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(core.wall() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: B036
        import traceback

        traceback.print_exc()
        print("HARNESS-ERROR")
        code = 2
    sys.stdout.flush()
    sys.exit(code)
