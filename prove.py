"""Run obligations of a property in worker processes: prove.run(prop, tier) -> list of results."""
from __future__ import annotations

import importlib
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)


def _worker(prop, conn, scale=1.0):
    sys.setrecursionlimit(20000)
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import threading

    threading.stack_size(512 << 20)

    def main():
        try:
            importlib.import_module(f"specs.{prop.lower()}")
            from specs import base

            from engine import prover

            prover.SCALE[0] = scale
            env = base.Env()
        except Exception as e:  # noqa: BLE001
            conn.send(("init-failed", f"{type(e).__name__}: {e}"[:500]))
            return
        conn.send(("ready", env.L.functions and len(env.L.functions)))
        while True:
            k = conn.recv()
            if k is None:
                return
            conn.send(("result", base.run_one(env, base.REG[prop][k])))

    t = threading.Thread(target=main)
    t.start()
    t.join()


def listing(prop, tier):
    importlib.import_module(f"specs.{prop.lower()}")
    from specs import base

    return [(k, o) for k, o in enumerate(base.REG.get(prop, [])) if o["tier"] == "quick" or tier == "thorough"]


def run(prop, tier, jobs=7, budget=600, only=None, names=None, scale=1.0):
    todo = listing(prop, tier)
    if names is not None:
        todo = [t for t in todo if t[1]["name"] in names]
    if only:
        todo = [t for t in todo if only in t[1]["name"]]
    todo.sort(key=lambda t: -t[1]["timeout"])
    ctx = mp.get_context("fork")
    out = []
    t_end = time.time() + budget
    workers = []

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(prop, b, scale), daemon=True)
        p.start()
        b.close()
        return dict(p=p, c=a, job=None, t=time.time(), ready=False)

    def lim(o, why):
        return dict(prop=prop, name=o["name"], status="limit", why=why, results=[], functions=o["functions"], z3_s=0.0, z3_calls=0, wall=0.0, used=[], labels=[])

    n = min(jobs, max(1, len(todo)))
    workers = [spawn() for _ in range(n)]
    pending = list(todo)
    init_failed = None
    while pending or any(w["job"] is not None for w in workers):
        progress = False
        for i, w in enumerate(workers):
            if w["c"].poll(0):
                progress = True
                try:
                    kind, val = w["c"].recv()
                except EOFError:
                    if w["job"] is not None:
                        out.append(lim(w["job"][1], "the verifier process ended"))
                    if not w["ready"] and w["job"] is None:
                        init_failed = init_failed or "worker died"
                    w["p"].kill()
                    workers[i] = spawn()
                    continue
                if kind == "ready":
                    w["ready"] = True
                elif kind == "init-failed":
                    init_failed = val
                else:
                    out.append(val)
                    w["job"] = None
            if w["ready"] and w["job"] is None and pending and time.time() < t_end:
                w["job"] = pending.pop(0)
                w["t"] = time.time()
                w["c"].send(w["job"][0])
                progress = True
            elif w["job"] is not None and (time.time() - w["t"] > scale * w["job"][1]["timeout"] or time.time() > t_end):
                out.append(lim(w["job"][1], f"time limit ({w['job'][1]['timeout']} s)"))
                w["p"].kill()
                workers[i] = spawn()
                progress = True
        if init_failed:
            for w in workers:
                if w["job"] is not None:
                    pending.append(w["job"])
            out += [lim(o, f"the sources could not be loaded: {init_failed}") for _, o in pending]
            pending = []
            break
        if pending and time.time() > t_end and not any(w["job"] for w in workers):
            out += [lim(o, "time budget of the check") for _, o in pending]
            pending = []
        if not progress:
            time.sleep(0.02)
    for w in workers:
        w["p"].kill()
    return out


if __name__ == "__main__":
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    t0 = time.time()
    for r in sorted(run(prop, os.environ.get("VERIF_TIER", "thorough"), only=only), key=lambda r: r["name"]):
        bad = [x for x in r["results"] if not x["ok"]]
        print(f"{r['status']:7} {r['name'][:60]:60} {len(r['results']):3} obl {r['wall']:6}s z3 {r['z3_s']}s {r['why'][:300]}")
        for x in bad[:6]:
            print("      FAIL", x["label"], "|", x["how"], "|", x["detail"][:200].replace("\n", " "), "|", x["goal"][:300])
    print("total %.1fs" % (time.time() - t0))
