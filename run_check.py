"""Decide one property:  python run_check.py C07  [--replay FILE]

1. The verifier symbolically executes the functions of /repo's current source under their
   contracts and discharges every obligation (prove.py, engine/, specs/).
2. Concurrently, the same contracts are evaluated on the real code on generated inputs
   (rt/): bounded; it supplies the replayed input when an obligation fails, stands in for
   functions outside the verifier's reach and cross-checks the assumed dependency contracts.

Exit 0: every obligation discharged (or labelled bounded) and no failing input.
Exit 1: VIOLATION line; the replay file names the input, or the failed obligation."""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
os.chdir(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

TRUSTED = [
    "the verifier itself: engine/ (symbolic executor, term simplifier, instantiation) and z3",
    "the assumed contracts of the dependencies (jax, jax.numpy, equinox, numpy, sklearn, jaxopt) in engine/model.py and engine/loops.py",
    "the extraction of engine/loader.py: annotations, overload stubs and docstrings are dropped; decorators jax.jit / eqx.filter_jit are identities",
    "machine arithmetic is treated as exact real / integer arithmetic (IEEE infinities and NaN are modelled, rounding is not)",
]


def rt_start(prop, seed, shards, budget, tier):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    ps = []
    for i in range(shards):
        ps.append(
            subprocess.Popen(
                [PY, "-m", "rt.common", prop, "--seed", str(seed), "--shard", str(i), "--shards", str(shards), "--budget", str(budget), "--tier", tier],
                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=HERE,
            )
        )
    return ps


def rt_collect(ps, deadline):
    fails, stats, samples, fatal, lost = [], {}, [], None, 0
    outs = [None] * len(ps)

    def rd(i):
        buf = []
        for line in ps[i].stdout:
            buf.append(line)
        outs[i] = buf

    ts = [threading.Thread(target=rd, args=(i,), daemon=True) for i in range(len(ps))]
    for t in ts:
        t.start()
    for t in ts:
        t.join(max(0.1, deadline - time.time()))
    for i, p in enumerate(ps):
        if p.poll() is None:
            p.kill()
    for t in ts:
        t.join(5)
    for o in outs:
        done = False
        for line in o or []:
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if "fail" in d:
                fails.append(d["fail"])
            if "fatal" in d:
                fatal = d["fatal"]
            if "stats" in d:
                done = True
                samples += d["samples"]
                for k, v in d["stats"].items():
                    s = stats.setdefault(k, dict(run=0, skipped=0))
                    s["run"] += v["run"]
                    s["skipped"] += v["skipped"]
        lost += not done
    return fails, stats, samples, fatal, lost


DEADLINE = [float("inf")]  # the quick check always answers within its time


def replay_case(path, timeout=400):
    timeout = max(20, min(timeout, DEADLINE[0] - time.time()))
    with open(path) as f:
        c = json.load(f)
    try:
        r = subprocess.run([PY, "-m", "rt.common", c["property"], "--case", path], capture_output=True, text=True, cwd=HERE, timeout=timeout, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    except subprocess.TimeoutExpired:
        return "timeout"
    for line in r.stdout.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if "result" in d:
            return d["result"]
        if "fatal" in d:
            return d["fatal"]
    return "crash: " + r.stderr[-300:]


def known(prop):
    out = []
    with open(os.path.join(HERE, "known_findings.jsonl")) as f:
        for line in f:
            if line.strip():
                d = json.loads(line)
                if d["property"] == prop and d["status"] == "finding":
                    out.append(d)
    return out


def write_replay(prop, tag, d):
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    h = hashlib.sha1(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(HERE, "out", f"{prop}-{tag}-{h}.json")
    with open(path, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return path


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        with open(args[1]) as f:
            d = json.load(f)
        if "kind" not in d:
            print(json.dumps(d, indent=1)[:4000])
            return 1
        r = replay_case(args[1])
        print("held" if r in (None, "skip") else f"violated: {r}")
        return 0 if r in (None, "skip") else 1
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    if tier == "quick":
        DEADLINE[0] = t0 + 780
    budget = dict(quick=45, thorough=300)[tier]
    shards = 6
    prove_budget = dict(quick=330, thorough=560)[tier]
    ps = rt_start(prop, seed, shards, budget, tier)
    import prove

    results = prove.run(prop, tier, jobs=6, budget=prove_budget) if os.path.exists(f"specs/{prop.lower()}.py") else []
    fails, stats, samples, fatal, lost = rt_collect(ps, max(time.time() + 20, t0 + budget + 150))

    base = {}
    if os.path.exists("baseline.json"):
        with open("baseline.json") as f:
            base = json.load(f).get(prop, {})
    not_ok = [r for r in results if r["status"] != "ok"]
    regress = [r for r in not_ok if base.get(r["name"]) == "ok"]
    failed = [r for r in results if r["status"] == "failed"]
    extended = 0
    confirmed = []

    def confirm(fs):
        for f in fs[:6]:
            if time.time() + 60 > DEADLINE[0]:
                break
            d = dict(property=prop, kind=f["kind"], params=f["params"], detail=f["detail"], obligations_failed=[dict(name=r["name"], results=[x for x in r["results"] if not x["ok"]][:4]) for r in failed][:6], how_to_replay=f"{PY} run_check.py --replay <this file>")
            path = write_replay(prop, f["kind"].replace(" ", "_").replace("/", "_"), d)
            r = replay_case(path)
            if r not in (None, "skip", "timeout"):
                confirmed.append((path, f, r))
                if len(confirmed) >= 3:
                    break

    confirm(fails)
    retried = []
    if not confirmed and regress and len(regress) <= 8 and time.time() + 450 < DEADLINE[0]:
        # once more on an idle machine with longer solver limits: a time limit is no verdict
        retried = [r["name"] for r in regress]
        second = {r["name"]: r for r in prove.run(prop, tier, jobs=4, budget=160, names=set(retried), scale=3.0)}
        better = {k: r for k, r in second.items() if r["status"] in ("ok", "failed")}
        results = [better.get(r["name"], r) for r in results]
        not_ok = [r for r in results if r["status"] != "ok"]
        regress = [r for r in not_ok if base.get(r["name"]) == "ok"]
        failed = [r for r in results if r["status"] == "failed"]
    if not confirmed and regress and time.time() + 250 < DEADLINE[0]:
        # search further for an input on which the rejected obligation shows
        extended = dict(quick=90, thorough=150)[tier]
        ps = rt_start(prop, seed + 1000, 7, extended, tier)
        f2, s2, _, _, _ = rt_collect(ps, time.time() + extended + 90)
        for k, v in s2.items():
            s = stats.setdefault(k, dict(run=0, skipped=0))
            s["run"] += v["run"]
            s["skipped"] += v["skipped"]
        confirm(f2)

    lines, code = [], 0
    for d in known(prop):
        path = write_replay(prop, "known", dict(property=prop, kind=d["kind"], params=d["params"]))
        r = replay_case(path)
        if r not in (None, "skip"):
            lines.append(f"KNOWN-FINDING: property={prop} {d['what']}")
        else:
            lines.append(f"note: known finding {d['id']} no longer reproduces on this tree")
    if fatal:
        path = write_replay(prop, "import", dict(property=prop, detail=fatal))
        lines.append(f"VIOLATION property={prop} replay={path}")
        code = 1
    for path, f, r in confirmed:
        lines.append(f"VIOLATION property={prop} replay={path}")
        lines.append(f"  {f['kind']}: {r[:300]}")
        code = 1
    if not confirmed and not fatal:
        for r in failed:
            bad = [x for x in r["results"] if not x["ok"]]
            path = write_replay(prop, "obligation", dict(property=prop, obligation=r["name"], functions=r["functions"], verifier_output=bad, searched=stats))
            lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
            code = 1

    n_obl = sum(len(r["results"]) for r in results)
    n_ok = sum(sum(1 for x in r["results"] if x["ok"]) for r in results)
    proved = sorted({f for r in results if r["status"] == "ok" for f in r["functions"]})
    bounded = [dict(obligation=r["name"], functions=r["functions"], why=r["why"], stand_in="run-time contract on generated inputs (bounded)") for r in not_ok]
    backends = {}
    for r in results:
        for x in r["results"]:
            backends[x["how"]] = backends.get(x["how"], 0) + 1
    runs = sum(v["run"] for v in stats.values())
    used = sorted({u for r in results for u in r["used"]})
    labels = sorted({u for r in results for u in r["labels"]})
    spec_assume = []
    try:
        spec_assume = list(getattr(importlib.import_module(f"specs.{prop.lower()}"), "ASSUMPTIONS", []))
    except Exception:  # noqa: BLE001
        pass
    ev = dict(
        property=prop, tier=tier, seed=seed, level="proof",
        coverage=dict(
            obligations=n_obl, discharged=n_ok, checker_cmd=f"cd /verif && {PY} prove.py {prop}", trusted_base=TRUSTED,
            obligation_groups=[dict(name=r["name"], status=r["status"], obligations=len(r["results"]), wall_s=r["wall"], z3_s=r["z3_s"], z3_calls=r["z3_calls"], why=r["why"]) for r in sorted(results, key=lambda r: r["name"])],
            functions_under_contract=proved, back_ends=backends, solver_s=round(sum(r["z3_s"] for r in results), 2),
            dependency_contracts_used=used, fact_labels=labels, bounded=bounded,
            bounded_stand_in=dict(evaluations=runs, per_kind=stats, sizes="see the generators in rt/%s.py" % prop.lower(), shards_without_answer=lost, extended_search_s=extended, groups_tried_again=retried),
            samples=samples[:8],
        ),
        assumptions=["dependency contracts: " + ", ".join(used)] * bool(used) + spec_assume,
        wall_s=round(time.time() - t0, 1), violations=sum(l.startswith("VIOLATION") for l in lines),
    )
    os.makedirs("evidence", exist_ok=True)
    with open(f"evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} [{tier}] obligations {n_ok}/{n_obl} in {len(results)} groups ({len(not_ok)} not discharged), run-time contracts {runs} cases, {ev['wall_s']} s")
    for r in not_ok:
        print(f"  not discharged: {r['name']}: {r['status']} {r['why'][:160]}")
    for l in lines:
        print(l)
    if code == 0 and n_ok == 0 and runs == 0:
        print("nothing was decided")
        return 3
    return code


if __name__ == "__main__":
    sys.exit(main())
