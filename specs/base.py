"""Obligation registry: each obligation symbolically executes real functions of /repo
under a precondition and has the verifier prove the contract's postconditions."""
from __future__ import annotations

import time

from engine import loader, loops, model as M, prover as P, sym as S, tensor as Z, terms as T
from engine.prover import CTX
from engine.terms import VerifierLimit

REG: dict[str, list] = {}


def ob(prop, name, functions, tier="quick", timeout=240):
    def deco(fn):
        REG.setdefault(prop, []).append(dict(prop=prop, name=name, fn=fn, functions=functions, tier=tier, timeout=timeout))
        return fn

    return deco


class Env:
    """What an obligation may use."""

    def __init__(self):
        self.L = loader.Loader()
        self.patches = []
        self.results = []
        self.vacuous = []

    def begin(self):
        CTX.reset()
        T.KNOWN_NONNEG.clear()
        loops.LOOPS.clear()
        loops.INVARIANTS.clear()
        loops.LOOP_CONTRACTS.clear()
        loader.CONTRACTS.clear()
        P.PHASES[0] = P.LINEAR_FIRST
        loader._depth.clear()
        M.CHOICES.clear()
        M.ARGS.clear()
        M.SOFTMAX.clear()
        M.USED.clear()
        self.results = []
        self.vacuous = []
        for mod, name, old in reversed(self.patches):
            setattr(mod, name, old)
        self.patches.clear()

    def callee(self, mod, name, stub):
        """Callers are checked against `stub`, the contract of the function, instead of its body."""
        if not hasattr(mod, name):
            raise VerifierLimit(f"{name} is no longer a function of {mod.__name__}")
        self.patches.append((mod, name, getattr(mod, name)))
        setattr(mod, name, stub)

    def load(self, name):
        return self.L.load(name)

    def assume(self, b, label="precondition"):
        CTX.assume(b, label)

    def prove(self, label, goal, ms=None, extra=()):
        t0 = time.time()
        o = P.prove(goal, **({} if ms is None else dict(ms=ms)), extra=extra)
        self.results.append(dict(label=label, ok=bool(o), how=o.how, detail=str(o.detail)[:1500], s=round(time.time() - t0, 3), goal=repr(goal)[:600] if not o else ""))
        return bool(o)

    def either(self, label, goals, ms=None):
        """At least one of the goals is proved."""
        t0 = time.time()
        last = None
        for g in goals:
            last = P.prove(g, **({} if ms is None else dict(ms=ms)))
            if last:
                break
        self.results.append(dict(label=label, ok=bool(last), how=last.how, detail=str(last.detail)[:1500], s=round(time.time() - t0, 3), goal="" if last else repr(goals[0])[:600]))
        return bool(last)

    def same(self, label, a, b, ms=None):
        """Two arrays agree in shape and everywhere."""
        a, b = Z.as_st(a), Z.as_st(b)
        if a.ndim != b.ndim:
            self.fail(label, f"rank {a.ndim} instead of {b.ndim}")
            return False
        for p, q in zip(a.dims, b.dims):
            if not Z.same_dim(p, q) and not P.prove(T.eq(p, q), ms=3000):
                self.fail(label, f"shape {a.dims} instead of {b.dims}"[:300])
                return False
        vs = [T.index_var(d, "e") for d in a.dims]
        return self.prove(label, same_value(a.get(*vs), b.get(*vs)), ms=ms)

    def fail(self, label, why):
        self.results.append(dict(label=label, ok=False, how="evaluation", detail=why, s=0.0, goal=""))

    def hold(self, label, cond, why=""):
        """A fact decided by evaluation (shapes, identities of containers, exceptions)."""
        self.results.append(dict(label=label, ok=bool(cond), how="evaluation", detail=why if not cond else "", s=0.0, goal=""))

    def raises(self, label, exc, fn):
        try:
            fn()
        except VerifierLimit:
            raise
        except exc:
            self.hold(label, True)
        except Exception as e:  # noqa: BLE001
            self.fail(label, f"{type(e).__name__} instead of {exc}: {e}"[:300])
        else:
            self.fail(label, f"no {exc} raised")

    def paths(self, fn):
        return Z.run_paths(fn)

    def check_vacuity(self, label="preconditions"):
        """The assumptions must not be contradictory."""
        o = P.prove(T.FALSE, ms=400)
        if o:
            self.vacuous.append(label)


def same_value(a, b):
    """Equality that treats NaN as equal to NaN."""
    from engine.terms import X

    if isinstance(a, X) or isinstance(b, X):
        x, y = T.asx(Z.to_num(a)), T.asx(Z.to_num(b))
        if x.v is y.v and x.pinf is y.pinf and x.ninf is y.ninf and x.nan is y.nan:
            return T.TRUE
        return T.band(
            T.iff(x.nan, y.nan),
            T.bor(x.nan, Z.xeq(x, y)),
        )
    return Z.xeq(a, b)


def run_one(env, o):
    """Execute one obligation; returns a dict."""
    t0 = time.time()
    env.begin()
    z0, c0 = P.Stat.z3_time, P.Stat.z3_calls
    status, why = "ok", ""
    try:
        o["fn"](env)
        if not env.results:
            status, why = "limit", "no obligation generated"
    except VerifierLimit as e:
        status, why = "limit", f"outside the verifier's reach: {e}"[:400]
    except RecursionError:
        status, why = "limit", "recursion depth of the verifier"
    except MemoryError:
        status, why = "limit", "memory of the verifier"
    except Exception as e:  # noqa: BLE001
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        status, why = "error", (f"{type(e).__name__}: {e} at " + " <- ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-4:]))[:500]
    if status == "ok" and any(not r["ok"] for r in env.results):
        status = "failed"
    if env.vacuous and status == "ok":
        status, why = "limit", "contradictory preconditions: " + ",".join(env.vacuous)
    return dict(
        prop=o["prop"], name=o["name"], status=status, why=why, results=env.results, functions=o["functions"],
        z3_s=round(P.Stat.z3_time - z0, 3), z3_calls=P.Stat.z3_calls - c0, wall=round(time.time() - t0, 2),
        used=sorted(M.USED), labels=sorted({l for _, l in CTX.facts}),
    )
