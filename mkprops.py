"""Generates properties.jsonl (kept as a script so the wording is reviewable)."""
import json

P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=a,
        )
    )


CS = "coreax/solvers/coresubset.py"
p(
    "C01",
    "Coresubset solvers return the requested number of valid indices into the data",
    "Every fixed-size coresubset solver (random sampling, kernel herding, Stein thinning, randomly pivoted Cholesky, greedy kernel points, kernel thinning, Compress++) that is given a data set with at least as many points as requested returns exactly the requested number of indices, and every one of them lies between 0 and the number of data points minus one. "
    "The points of the result are exactly the rows of the original data (together with their paired supervision) found at those indices, and the original data held by the result is the input unchanged. "
    "Asking for more points than the data set holds raises a ValueError.",
    ["inputs", "configurations"],
    "all data sets with finite entries and all sizes n, d; all coreset sizes m <= n (with at least m positively weighted points for solvers that respect weights, and for greedy kernel points a single supervision column and a candidate batch that covers the data, for Stein thinning a finite Stein kernel and, when regularised, a well-defined density estimate); all kernels with finite values; unique or not; all block sizes, random keys and solver options",
    "the tests run a handful of fixed data sets; an index that goes out of range, a row/index mismatch or a wrong length can need a particular n, m, weight pattern or key",
    [CS, "coreax/coreset.py", "coreax/data.py"],
    [
        ("greedy selection loop shared by herding and Stein thinning", f"{CS}:_greedy_kernel_selection"),
        ("pivot loop", f"{CS}:RPCholesky.reduce"),
        ("candidate batches and greedy loop", f"{CS}:GreedyKernelPoints.refine"),
        ("index-to-point mapping", "coreax/coreset.py:Coresubset.points"),
    ],
)
p(
    "C02",
    "Solvers asked for unique points never select the same point twice",
    "When uniqueness is requested (or is inherent, as in kernel thinning and Compress++), the indices returned by random sampling, kernel herding, Stein thinning, randomly pivoted Cholesky, greedy kernel points, kernel thinning and Compress++ are pairwise distinct. "
    "This holds when a coreset is built from scratch and when a coreset with distinct indices is refined.",
    ["inputs", "configurations", "histories"],
    "all data sets (including duplicated rows and tied criterion values), weights, sizes m <= number of selectable points, kernels, keys, and any distinct starting coreset for refinement (no larger than the requested size); kernels and, for Stein thinning, Stein kernels and density estimates with finite values",
    "duplicates only appear for particular ties, repeated rows or refinement histories, which a sampled test will not visit",
    [CS],
    [
        ("persistent and temporary exclusion of chosen points", f"{CS}:_greedy_kernel_selection"),
        ("residual of chosen pivots forced to zero", f"{CS}:RPCholesky.reduce"),
        ("infinite loss for chosen candidates", f"{CS}:_update_candidate_coresets_and_coreset_indices"),
    ],
)
p(
    "C03",
    "Zero-weighted (padding) points are never selected by padding-invariant solvers",
    "Kernel herding and Stein thinning never put a data point of zero weight into the coreset while enough positively weighted points exist, whatever the position and coordinates of the zero-weighted points. "
    "For kernel herding, appending zero-weighted rows to a data set leaves the selected coreset unchanged.",
    ["inputs", "configurations"],
    "all data sets with non-negative weights having at least as many positive weights as the coreset size; all kernels (for Stein thinning: Stein kernels and density estimates) with finite values; unique or not; reduce and refine; all block sizes",
    "a zero-weighted point is only chosen when its criterion value happens to beat every real point",
    [CS, "coreax/kernels/util.py", "coreax/data.py"],
    [
        ("masking of zero-weighted rows", f"{CS}:_greedy_kernel_selection"),
        ("weighted means ignore padding", "coreax/kernels/util.py:_block_data_convert"),
    ],
)
p(
    "C04",
    "Map-reduce returns correct original indices through every level of its tree",
    "Applied to a base solver that returns valid (distinct) subsets of the partition it is given and never selects zero-weighted points, map-reduce returns exactly the coreset size of the base solver, with every index valid in (and distinct over) the original data set, and the returned points are exactly the original rows, supervision included, at those indices. "
    "Every partition handed to the base solver consists of original rows paired with their own weights and supervision plus zero-weighted padding, and no original row is lost or duplicated by the partitioning. "
    "A data set no larger than the leaf size gives exactly the result of the base solver.",
    ["inputs", "configurations", "histories"],
    "all data-set sizes, leaf sizes larger than the coreset size (a size above half the leaf size is a known finding: no termination), tree types and base solvers for which every partition holds enough positively weighted points; any recursion depth",
    "index bookkeeping errors only show beyond one level of recursion or when padding is present",
    ["coreax/solvers/composite.py", "coreax/util.py"],
    [
        ("index composition across levels", "coreax/solvers/composite.py:MapReduce.reduce"),
        ("padded partitioning", "coreax/solvers/composite.py:_jit_tree"),
    ],
)
p(
    "C05",
    "Data containers keep points, supervision and weights paired",
    "Constructing a data container keeps every entry, gives one weight per row (ones by default, a scalar broadcast to all rows), turns one-dimensional input into a single column, and rejects supervision whose number of rows differs from the data. "
    "Indexing or slicing applies the same selection to points, supervision and weights, so each row keeps its own supervision and weight; zero-padding keeps the existing rows and adds rows whose data, supervision and weight are all zero. "
    "Normalising divides the weights by their sum, leaves everything else unchanged and, when zeros are preserved, maps an all-zero weight vector to zeros.",
    ["inputs"],
    "all shapes, dtypes, weights and index expressions",
    "pairing faults show only for particular shapes, index kinds or weight patterns",
    ["coreax/data.py", "coreax/util.py", "coreax/coreset.py"],
    [
        ("construction and broadcasting", "coreax/data.py:Data.__init__"),
        ("joint indexing", "coreax/data.py:Data.__getitem__"),
        ("normalisation", "coreax/data.py:Data.normalize"),
        ("padding", "coreax/util.py:tree_zero_pad_leading_axis"),
    ],
)
p(
    "C06",
    "Blocked kernel means equal the exact weighted mean for any block size",
    "The kernel mean of two weighted data sets equals the mean of the full kernel matrix under the normalised weights: over both data sets when no axis is given, over the first data set for axis 0 and over the second for axis 1, and the Gramian row mean is the axis-0 mean of a data set against itself. "
    "The result does not depend on the block size (a number, a pair, or none; larger than the data or not dividing it) or on the unroll setting, and plain arrays count as uniformly weighted.",
    ["inputs", "configurations"],
    "all kernels (symmetric; for asymmetric ones the axis-None and axis-1 cases), all data sizes n, m, d, all non-negative weights with positive sum, all block sizes and unroll values",
    "blocking errors show only when the block size does not divide the data, differs between operands or is combined with non-uniform weights",
    ["coreax/kernels/base.py", "coreax/kernels/util.py", "coreax/data.py", "coreax/util.py"],
    [
        ("nested blocked accumulation", "coreax/kernels/base.py:ScalarValuedKernel.compute_mean"),
        ("normalise, pad and block", "coreax/kernels/util.py:_block_data_convert"),
    ],
)
p(
    "C07",
    "Kernels compute their documented closed forms, symmetrically and pairwise",
    "Each kernel (linear, polynomial, exponential, Laplacian, squared exponential, PCIMQ, rational quadratic, Matern, periodic, locally periodic, Poisson) evaluates to the closed form given in its documentation for every pair of vectors and every admissible parameter value, and is symmetric in its two arguments. "
    "For collections of points, entry (i, j) of the kernel matrix, of each gradient array and of the divergence matrix is the elementwise value at row i of the first and row j of the second collection. "
    "Parameters outside the documented range (such as non-positive length or output scales) are rejected when the kernel is constructed.",
    ["inputs", "configurations"],
    "all vectors of any dimension and all admissible hyper-parameters; all row counts n, m",
    "a wrong exponent, scale or index order can vanish at default parameters, at unit length scale or in one dimension",
    ["coreax/kernels/scalar_valued.py", "coreax/kernels/base.py", "coreax/util.py"],
    [
        ("elementwise formulas", "coreax/kernels/scalar_valued.py"),
        ("pairwise evaluation", "coreax/util.py:pairwise"),
        ("parameter checks", "coreax/kernels/scalar_valued.py:__check_init__"),
    ],
)
p(
    "C08",
    "Kernel gradients and divergences are the exact derivatives of the kernel",
    "For every kernel with analytic derivatives, the gradient with respect to the first argument, the gradient with respect to the second argument and the divergence (the trace of the mixed second derivative) equal the true derivatives of that kernel's own value wherever the kernel is differentiable. "
    "The same holds for sums, products and integer powers of kernels, including a product of a kernel with itself and powers one and two.",
    ["inputs", "configurations"],
    "all pairs of vectors at which the kernel is differentiable (for the Poisson kernel in one dimension, its documented domain), any dimension, all admissible hyper-parameters, all compositions",
    "an error in a derivative term can vanish at default parameters or in low dimension and only biases downstream Stein quantities",
    ["coreax/kernels/scalar_valued.py", "coreax/kernels/base.py"],
    [
        ("analytic derivatives", "coreax/kernels/scalar_valued.py:divergence_x_grad_y_elementwise"),
        ("product and chain rules", "coreax/kernels/base.py:ProductKernel"),
        ("automatic fall-back", "coreax/kernels/base.py:ScalarValuedKernel.divergence_x_grad_y_elementwise"),
    ],
)
p(
    "C09",
    "Kernel arithmetic builds the sum, product or power it denotes",
    "Adding or multiplying kernels, or a kernel and a non-negative number on either side, and raising a kernel to a positive integer power gives a kernel whose value at every pair of points is the sum, product or power of the values of the operands. "
    "Negative constants, operands that are neither kernels nor numbers, and powers that are not positive integers are rejected.",
    ["inputs", "configurations"],
    "all operand kernels (equal or different), nesting of compositions, numbers, powers and points",
    "operator mix-ups can be hidden when both operands are equal or constants are one",
    ["coreax/kernels/base.py"],
    [
        ("operator overloads", "coreax/kernels/base.py:ScalarValuedKernel.__add__"),
        ("composite kernels", "coreax/kernels/base.py:AdditiveKernel"),
    ],
)
p(
    "C10",
    "Discrepancy metrics equal their documented formula, non-negative and symmetric",
    "The maximum mean discrepancy, joint maximum mean discrepancy, average maximum conditional mean discrepancy and (unregularised and uncorrected) kernel Stein discrepancy of two data sets equal the square root of their documented (weighted, where the metric is weighted) quadratic expression in kernel values, for every block size, with negative rounding clipped to zero. "
    "They are never negative and never NaN on finite data, the maximum mean and joint maximum mean discrepancies are symmetric in their two data sets and are zero when a data set is compared with itself, and a coreset's metric compares the original data with the coreset's weighted points.",
    ["inputs", "configurations"],
    "all data sets, weights with positive sum, kernels, block sizes and unroll values",
    "dropped weights, swapped operands or a wrong cross term are invisible for uniform weights or equal sizes",
    ["coreax/metrics.py", "coreax/kernels/base.py", "coreax/coreset.py"],
    [
        ("metrics", "coreax/metrics.py:MMD.compute"),
        ("joint and conditional metrics", "coreax/metrics.py:JMMD.compute"),
        ("Stein discrepancy", "coreax/metrics.py:KSD.compute"),
    ],
)
p(
    "C11",
    "Weight optimisers return weights solving the documented problem",
    "The Bayesian quadrature optimiser returns weights w solving (K + eps I) w = z, where K is the kernel matrix of the coreset points and z their mean kernel value over the full data set. "
    "The discrepancy optimiser returns non-negative weights that sum to one and is given exactly that quadratic problem; solving for the weights of a coreset replaces only its weights, one per coreset point in order, and leaves its points, indices and original data unchanged.",
    ["inputs", "configurations"],
    "all data sets, coresets, kernels, regularisations and block sizes for which the linear system is non-singular",
    "a transposed cross matrix or wrong regularisation only shows for unequal sizes or ill-conditioned kernels",
    ["coreax/weights.py", "coreax/coreset.py"],
    [
        ("kernel system", "coreax/weights.py:_prepare_kernel_system"),
        ("quadratic programme", "coreax/weights.py:solve_qp"),
        ("weight replacement", "coreax/coreset.py:Coresubset.solve_weights"),
    ],
)
RC = "coreax/solvers/recombination.py"
p(
    "C12",
    "Recombination preserves mass and weighted moments with non-negative weights",
    "Caratheodory and tree recombination return indices of the data with non-negative weights that sum to one and reproduce the weighted mean, under the normalised input weights, of the data (or of the test functions applied to it). "
    "No zero-weighted input point receives positive weight, and when the push-forward has r independent components including the constant at most r entries of the result have positive weight. "
    "The modes differ only in how zero-weighted slots are presented: explicit returns only positive-weight points, implicit pads to the number of input points and the default pads to at most the number of moments plus one.",
    ["inputs", "configurations"],
    "all data sets, non-negative weights with positive sum (zeros included), test functions, reduction factors, ranks (including co-linear and repeated points) and modes",
    "rank deficiency, zero weights and padding interact; tests sample a few sizes",
    [RC],
    [
        ("null-space elimination loop", f"{RC}:CaratheodoryRecombination.reduce"),
        ("zero-weight handling", f"{RC}:_co_linearize"),
        ("centroid tree", f"{RC}:TreeRecombination.reduce"),
        ("presentation modes", f"{RC}:_coresubset_nodes"),
    ],
)
p(
    "C13",
    "Regularised least-squares solvers solve the stated regularised system",
    "The minimal-norm solver returns the least-squares solution of (A + |r| I') x = b for the given array A, regularisation r, identity-like matrix I' and target b. "
    "The randomised solver applies to b the inverse assembled from its approximate eigenpairs, inverting only eigenvalues at or above rcond times the largest and treating the rest as zero, with the documented default and special values of rcond. "
    "Solving a stack gives, for each element, exactly the solution of that element.",
    ["inputs", "configurations"],
    "all arrays, targets, identities, regularisation values of either sign, rcond values and stack sizes",
    "negative regularisation, partial identities and threshold cases are rarely sampled",
    ["coreax/least_squares.py"],
    [
        ("solvers", "coreax/least_squares.py:MinimalEuclideanNormSolver.solve"),
        ("thresholded inversion", "coreax/least_squares.py:_eigendecomposition_invert"),
    ],
)
p(
    "C14",
    "Kernel halving partitions the data and its recursion tracks original indices",
    "Halving splits a data set into two halves such that, of each consecutive pair of points, one goes to the first half and the other to the second, so the halves are disjoint and together cover the (even-length) data. "
    "The recursive splitting yields disjoint candidate coresets of the requested size whose indices refer to the original data set at every depth, and the candidate chosen before refinement is the one with the smallest maximum mean discrepancy to the data among all candidates and the random baseline. "
    "Compress++ composes the indices of its nested halvings so that its result also indexes the original data.",
    ["inputs", "configurations", "histories"],
    "all data sets, random keys, kernels, deltas, coreset sizes and recursion depths",
    "index composition faults appear only at depth two or more or for particular random swaps",
    [CS],
    [
        ("halving loop", f"{CS}:KernelThinning.kt_half"),
        ("recursion", f"{CS}:KernelThinning.kt_half_recursive"),
        ("choice", f"{CS}:KernelThinning.kt_choose"),
        ("nested compression", f"{CS}:CompressPlusPlus.reduce"),
    ],
)
p(
    "C15",
    "Reusing a returned solver state never changes the result",
    "Calling a solver again on the same data with the state it returned (kernel herding, randomly pivoted Cholesky, greedy kernel points) gives the same coreset and the same state as calling it without a state, and the cached quantity equals the documented one (Gramian row mean, Gramian diagonal, padded feature Gramian). "
    "Solving never modifies its inputs and is deterministic for a fixed configuration and key.",
    ["inputs", "histories"],
    "all data sets, configurations and sequences of calls that pass states on",
    "requires comparing whole call histories; a stale or overwritten cache is silent",
    [CS],
    [
        ("cached row mean", f"{CS}:KernelHerding.refine"),
        ("cached diagonal", f"{CS}:RPCholesky.reduce"),
        ("cached Gramian", f"{CS}:GreedyKernelPoints.refine"),
    ],
)
p(
    "C16",
    "Stein kernels and scores follow their definitions",
    "The Stein kernel of a base kernel k and score s evaluates to div k + grad_x k . s(y) + grad_y k . s(x) + k s(x) . s(y) at every pair of points. "
    "The score returned by kernel density matching is, at every query point and for single points as for batches, the gradient of the logarithm of the kernel density estimate of the data it was fitted to. "
    "Converting a kernel to a Stein kernel keeps an existing Stein kernel and its score unless a score matcher is supplied, and otherwise wraps the given kernel with the matched (or, by default, kernel-density) score of the given data.",
    ["inputs", "configurations"],
    "all base kernels, score functions, data sets and query points",
    "swapped scores or gradients cancel on symmetric inputs",
    ["coreax/kernels/scalar_valued.py", "coreax/score_matching.py"],
    [
        ("Stein kernel", "coreax/kernels/scalar_valued.py:SteinKernel"),
        ("density score", "coreax/score_matching.py:KernelDensityMatching.match"),
        ("conversion", "coreax/score_matching.py:convert_stein_kernel"),
    ],
)
p(
    "C17",
    "Greedy solvers pick the best available point for their criterion at every step",
    "At each step kernel herding (deterministic mode) selects, among the positively weighted and (if unique) not yet chosen points, one that maximises the Gramian row mean minus the sum of the kernel values to the points chosen so far divided by the size of the coreset after the step. "
    "Stein thinning (unregularised, with a Stein kernel) selects one that minimises the kernel diagonal plus twice the sum of the kernel values to the points chosen so far, and greedy kernel points selects the candidate with the smallest regularised least-squares loss. "
    "Randomly pivoted Cholesky draws each pivot with probability proportional to the residual diagonal of the kernel matrix given the pivots so far.",
    ["inputs", "configurations", "histories"],
    "all data sets, weights, kernels with finite values, coreset sizes and histories of previous choices (up to ties)",
    "one wrong sign, count or stale penalty changes later choices only, on data the tests do not contain",
    [CS],
    [
        ("greedy loop", f"{CS}:_greedy_kernel_selection"),
        ("herding criterion", f"{CS}:KernelHerding.refine"),
        ("Stein criterion", f"{CS}:SteinThinning.refine"),
        ("residual update", f"{CS}:RPCholesky.reduce"),
        ("loss", f"{CS}:_greedy_kernel_points_loss"),
    ],
)
p(
    "C18",
    "Approximate kernels regress only the row mean, from valid subsets of the data",
    "An approximate kernel has exactly the values, gradients and divergences of its base kernel. "
    "Its approximate Gramian row mean has one entry per data point and is the least-squares regression, on features that are kernel values between the data and anchor points of the data, of the base kernel's mean (over the data for the Monte Carlo and ANNchor kernels, over the training points themselves for the Nystrom kernel) at distinct in-range training points. The anchors of the Monte Carlo (one fewer than the number of kernel points) and Nystrom kernels are distinct, ANNchor starts from the first point and adds the point whose largest feature is smallest, and asking these two for more anchors, or any of the three for more training points, than there are data raises a ValueError.",
    ["inputs", "configurations"],
    "all base kernels, data sets, keys and numbers of kernel and training points",
    "sampling without replacement and feature/target alignment are only visible statistically in tests",
    ["coreax/approximation.py"],
    [
        ("delegation", "coreax/approximation.py:ApproximateKernel"),
        ("regression", "coreax/approximation.py:_random_least_squares"),
        ("anchors", "coreax/approximation.py:ANNchorApproximateKernel.gramian_row_mean"),
    ],
)

if __name__ == "__main__":
    with open("/verif/properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
