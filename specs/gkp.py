"""The loop of greedy kernel points under contract (C01, C02, C17)."""
import inspect

from engine import loops, model as M, sym as S, tensor as Z, terms as T
from engine.prover import CTX

from .greedy import Setup, lemma, xval

FUNCTIONS = [f"coreax.solvers.coresubset.{f}" for f in ("GreedyKernelPoints.reduce", "GreedyKernelPoints.refine", "_setup_batch_solver", "_update_candidate_coresets_and_coreset_indices")]


def find(leaves):
    ix = [k for k, x in enumerate(leaves) if x.dtype.kind == "i" and x.ndim == 1]
    cand = [k for k, x in enumerate(leaves) if x.dtype.kind == "i" and x.ndim == 2]
    eye = [k for k, x in enumerate(leaves) if x.dtype.kind == "f" and x.ndim == 2]
    if len(ix) != 1 or len(cand) != 1 or len(eye) != 1 or len(leaves) != 3:
        return None
    return ix[0], cand[0], eye[0]


def batches(s, mod):
    """Contract of sample_batch_indices: every row consists of distinct indices below max_index."""
    made = []

    def stub(random_key, max_index, batch_size, num_batches):
        k = len(made)
        nb, bs, mx = Z.dim(num_batches), Z.dim(batch_size), Z.dim(max_index)
        a = S.array(f"batch{k}", nb, bs, dtype=Z.I32)
        T.declare_fn(f"batchinv{k}", "I")
        t, r, q, v = T.index_var(nb, "t"), T.index_var(bs, "r"), T.index_var(bs, "q"), T.index_var(mx, "v")
        CTX.assume(T.forall([t, r], T.band(T.ge0(a.get(t, r)), T.lt(a.get(t, r), mx))), "contract of sample_batch_indices: valid")
        CTX.assume(T.forall([t, r, q], T.bor(T.eq(r, q), T.bnot(T.eq(a.get(t, r), a.get(t, q))))), "contract of sample_batch_indices: distinct")
        if Z.same_dim(bs, mx):
            iv = T.app(f"batchinv{k}", t, v)
            CTX.assume(T.forall([t, v], T.band(T.ge0(iv), T.lt(iv, bs), T.eq(a.get(t, iv), v))), "pigeonhole principle: a full batch of distinct indices holds every index")
        made.append(a)
        return a

    s.E.callee(mod, "sample_batch_indices", stub)
    return made


def losses(s, mod):
    """Contract of _greedy_kernel_points_loss used here: a finite number for every candidate."""
    made = []

    sig = inspect.signature(mod._greedy_kernel_points_loss)

    def stub(*a, **k):
        args = sig.bind(*a, **k).arguments
        cand = args["candidate_coresets"]
        loss = S.array(f"loss{len(made)}", cand.dims[0])
        made.append((loss, args))
        return loss

    s.E.callee(mod, "_greedy_kernel_points_loss", stub)
    return made


def contract(s, unique, full, made, after=None, ident=False):
    n, m = s.n.n, s.mm

    def inv(b, t, st):
        c, cand = (lambda j: st[b[0]].get(j)), st[b[1]]
        j, i = T.index_var(m, "j"), T.index_var(m, "i")
        r = T.index_var(cand.dims[0], "r")
        batch = made[0]
        rb = T.lt(r, batch.dims[1])
        out = [
            ("every index is valid or a placeholder", T.forall([j], T.band(T.le(T.num(-1), c(j)), T.lt(c(j), n)))),
            ("no placeholder is left in the steps done", T.forall([j], T.bor(T.le(t, j), T.ge0(c(j))))),
            ("the candidates extend the current coreset", T.forall([r, j], T.bor(T.eq(j, t), T.eq(cand.get(r, j), c(j))))),
            ("the candidates differ in the point under consideration", T.forall([r, j], T.bor(T.bnot(T.eq(j, t)), T.bnot(rb), T.eq(cand.get(r, j), batch.get(j, r))))),
        ]
        if not full:
            out.append(("the last candidate keeps the present point", T.forall([r, j], T.bor(T.bnot(T.eq(j, t)), rb, T.bor(T.lt(cand.get(r, j), T.ZERO), T.band(T.ge0(cand.get(r, j)), T.lt(cand.get(r, j), n)))))))
        if ident:
            I = st[b[2]]
            on = T.band(T.eq(i, j), T.bor(T.lt(i, t), T.ge0(c(i))))
            out.append(("the identity covers the points of the coreset", T.forall([i, j], T.eq(Z.to_num(I.get(i, j)), T.ind(on)))))
        if unique and full:
            out.append(("the points are distinct", T.forall([j, i], T.bor(T.eq(i, j), T.bnot(T.eq(c(i), c(j))), T.lt(c(j), T.ZERO)))))
        return out

    def before(b, t, pre):
        if not (unique and full):
            return
        f, j = T.fresh("free", "I"), T.index_var(m, "j")
        CTX.assume(T.band(T.ge0(f), T.lt(f, n)), "pigeonhole principle")
        CTX.assume(T.forall([j], T.bor(T.eq(j, t), T.bnot(T.eq(pre[b[0]].get(j), f)))), "pigeonhole principle")
        s.row = T.app("batchinv0", t, f)
        s.free = f
        CTX.assume(T.band(T.ge0(s.row), T.lt(s.row, n), T.eq(made[0].get(t, s.row), f)), "instance of the contract of sample_batch_indices")

    def step(b, t, pre, post):
        c = lambda j: pre[b[0]].get(j)  # noqa: E731
        V = Z.to_num(post[b[0]].get(t))
        j = T.index_var(m, "j")
        a = M.ARGS[-1] if M.ARGS else None
        if a is None or a["nan_aware"] or a["is_max"]:
            raise T.VerifierLimit("the candidate is not selected by argmin")
        r = a["r"]
        q = T.index_var(a["hi"], "q")
        at = lambda v: T.asx(a["at"](v))  # noqa: E731
        lemma(s.E, "the loss of every candidate is a number", T.forall([q], T.band(T.bnot(at(q).nan), T.bnot(at(q).ninf))))
        CTX.assume(T.band(T.ge0(r), T.lt(r, a["hi"])), "instance of the contract of argmin")
        w = s.row if unique and full else T.ZERO
        lemma(s.E, "the selected candidate is at least as good as an available one", T.bor(at(w).pinf, T.bnot(at(r).pinf)))
        if unique and full:
            lemma(s.E, "some candidate is available", T.bnot(at(w).pinf))
            lemma(s.E, "the selected candidate is available", T.bnot(at(r).pinf))
        lemma(s.E, "the first candidate is no better than the one selected", T.bor(T.bnot(at(r).pinf), T.eq(r, T.ZERO)))
        if after:
            after(b, t, pre, post, a)
        lemma(s.E, "the point selected is valid", T.band(T.ge0(V), T.lt(V, n)))
        if unique and full:
            lemma(s.E, "the point selected is none of the others", T.forall([j], T.bor(T.eq(j, t), T.bnot(T.eq(c(j), V)))))

    return loops.LoopContract(s.E, lambda k, trip, init: find(init), inv, before, step, None, None)


def run(E, unique, start, post, full=True, after=None, box=None, ident=False):
    s = Setup(E, sup=True)
    made, loss = batches(s, s.sm), losses(s, s.sm)
    s.losses, s.batches = loss, made
    if box is not None:
        box["s"] = s
    cons = contract(s, unique, full, made, after, ident)
    s.lam = S.real("lam", sign="0+")
    L, cb = S.nat("L"), S.nat("cb")
    if start == "refine":
        E.assume(T.le(L.n, s.mm))
    if not full:
        E.assume(T.lt(cb.n, s.n.n))

    def go():
        made.clear()
        loops.LOOP_CONTRACTS[:] = [cons]
        sol = s.sm.GreedyKernelPoints(coreset_size=s.m, random_key=S.key(), feature_kernel=s.k, unique=unique, regularisation_parameter=s.lam, candidate_batch_size=None if full else cb)
        r, st = sol.refine(s.coresubset(L)) if start == "refine" else sol.reduce(s.data)
        loops.LOOP_CONTRACTS.clear()
        post(s, r, st)

    E.paths(go)
    if not cons.used:
        raise T.VerifierLimit("the selection loop was not recognised")
    E.check_vacuity()
