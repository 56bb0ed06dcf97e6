"""M17: pictorial structure models encode their graphs faithfully."""
from copy import deepcopy

import numpy as np

from menpo.feature import gradient, ndfeature, no_op
from menpo.shape import (DirectedGraph, PointCloud, PointDirectedGraph,
                         PointTree, Tree, UndirectedGraph)

from . import gen
from .core import Skip
from .m22_building import gpa
from .zoo import diverged

ID = "M17"
RULE = ("pictorial structures trained over drawn graphs (chains, stars, "
        "trees, complete, empty and minimum spanning ones, per scale), patch "
        "sizes, channels, component counts and precisions; their precision "
        "matrices, means, trees and shape models recomputed from the training "
        "images; every update and cost of both Gauss-Newton algorithms "
        "recomputed from the reported parameters; fits of images with a "
        "texture at every landmark; distinct when graphs, options, scales or "
        "algorithms differ")
ASSUMPTIONS = ["covariances with numerically equal eigenvalues where the "
               "components are cut decide nothing",
               "menpo's image gradient, resizing and patch extraction are "
               "trusted, and the shape model holds (M04)",
               "directed graphs carry each edge in one direction"]


@ndfeature
def double(px):
    return 2. * px + .5


@ndfeature
def two(px):
    return np.concatenate([px, px * px])


def centre(px):
    return px - px.mean(axis=(-1, -2), keepdims=True)


FEATURES = [no_op, double, two]
NORMS = [no_op, no_op, centre]


# ----------------------------------------------------------------- graphs
def draw_edges(rng, n, kind):
    if kind == "chain":
        return [(i, i + 1) for i in range(n - 1)]
    if kind == "star":
        return [(0, i) for i in range(1, n)]
    if kind == "complete":
        return [(i, j) for i in range(n) for j in range(i + 1, n)]
    if kind == "cycle":
        return [(i, (i + 1) % n) for i in range(n)]
    if kind == "empty":
        return []
    if kind == "random":
        e = [(i, j) for i in range(n) for j in range(i + 1, n)
             if rng.rand() < .35]
        return e or [(0, 1)]
    if kind == "tree":
        p = rng.permutation(n)
        p = np.r_[0, p[p != 0]]
        return [(int(p[rng.randint(i)]), int(p[i])) for i in range(1, n)]
    raise ValueError(kind)


def undirected(edges, n):
    if not edges:
        return UndirectedGraph(np.zeros((n, n)))
    return UndirectedGraph.init_from_edges(np.array(edges), n)


def draw_deformation(rng, n):
    """A graph over which shapes deform, and the edges it has."""
    kind = ["tree", "chain", "star", "dchain", "drandom", "dempty",
            "rooted"][rng.randint(7)]
    if kind.startswith("d"):
        e = draw_edges(rng, n, kind[1:])
        e = [(b, a) if rng.rand() < .5 else (a, b) for a, b in e]
        if not e:
            return kind, DirectedGraph(np.zeros((n, n))), e
        return kind, DirectedGraph.init_from_edges(np.array(e), n), e
    e = draw_edges(rng, n, "tree" if kind == "rooted" else kind)
    root = 0
    if kind == "rooted":
        # the same tree with its vertices renamed, so that the root is another
        perm = rng.permutation(n)
        e = [(int(perm[a]), int(perm[b])) for a, b in e]
        root = int(perm[0])
    try:
        return kind, Tree.init_from_edges(np.array(e), n, root), e
    except ValueError:
        # menpo's validity check refuses some trees
        return draw_deformation(rng, n)


# ---------------------------------------------------------------- oracles
def inverse(C, k):
    """The inverse covariance, over the k leading directions if asked."""
    if k is None:
        if np.linalg.cond(C) > 1e9:
            raise Skip()
        return np.linalg.inv(C)
    v, U = np.linalg.eigh(C)
    v, U = v[::-1], U[:, ::-1]
    k = min(k, len(v))
    if v[k - 1] < 1e-9 * v[0] or (k < len(v) and v[k] > .999 * v[k - 1]):
        raise Skip()
    return (U[:, :k] / v[:k]).dot(U[:, :k].T)


def field(X, edges, n, mode, k=None):
    """The precision matrix of a Gaussian Markov random field."""
    d = X.shape[1] // n
    Q = np.zeros((n * d, n * d))
    sl = [slice(i * d, (i + 1) * d) for i in range(n)]
    if not edges:
        for i in range(n):
            Q[sl[i], sl[i]] = inverse(np.cov(X[:, sl[i]].T), k)
    for a, b in edges:
        if mode == "concatenation":
            P = inverse(np.cov(np.c_[X[:, sl[a]], X[:, sl[b]]].T), k)
            aa, bb, ab = P[:d, :d], P[d:, d:], P[:d, d:]
        else:
            aa = inverse(np.cov((X[:, sl[a]] - X[:, sl[b]]).T), k)
            bb, ab = aa, -aa
        Q[sl[a], sl[a]] += aa
        Q[sl[b], sl[b]] += bb
        Q[sl[a], sl[b]] += ab
        Q[sl[b], sl[a]] += ab.T
    return Q


def dense(Q):
    return np.asarray(Q.todense() if hasattr(Q, "todense") else Q,
                      dtype=float)


def images_at(ims, ref, feature, scale):
    out = []
    for im in ims:
        im = feature(im.rescale_to_pointcloud(ref, group="PTS"))
        out.append(im if scale == 1 else im.rescale(scale))
    return out


def patches_at(im, shape, patch_shape, norm):
    p = im.extract_patches(shape, patch_shape=patch_shape,
                           as_single_array=True)
    return np.asarray(norm(p))


# ------------------------------------------------------------------ worlds
def draw(c, n_images=(9, 15), n_points=(5, 9)):
    rng = c.rng
    n = int(rng.randint(*n_points))
    m = int(rng.randint(*n_images))
    ch = int(rng.choice([1, 1, 2]))
    _, _, ims = gen.dataset(rng, n=m, n_points=n, shape=(90, 80), channels=ch,
                            h=44., w=36., noise=.02, mode_std=.05,
                            angle=.1 if rng.rand() < .5 else .5)
    k = int(rng.choice([1, 2, 2]))
    scales = (1.,) if k == 1 else (float(rng.choice([.5, .7])), 1.)
    per = rng.rand() < .4 and k > 1

    def draws(f):
        return [f() for _ in range(k)] if per else [f()] * k

    agr = draws(lambda: ["chain", "star", "complete", "empty", "tree",
                         "cycle", "random"][rng.randint(7)])
    aed = [draw_edges(rng, n, g) for g in (agr if per else agr[:1])]
    if not per:
        aed = aed * k
    dgr = draws(lambda: draw_deformation(rng, n))
    pat = draws(lambda: tuple(int(x) for x in rng.randint(2, 6, 2)))
    feats = draws(lambda: FEATURES[rng.randint(3)])
    norms = draws(lambda: NORMS[rng.randint(3)])
    napp = draws(lambda: int(rng.randint(1, 5)))
    if rng.rand() < .15:
        # plain inverses need more images than pixels
        pat = [(1, 2)] * k
        feats, norms, napp = [no_op] * k, [no_op] * k, [None] * k
    mst = rng.rand() < .25

    def give(values):
        return list(values) if per else values[0]

    kw = dict(
        appearance_graph=give([undirected(e, n) for e in aed]),
        deformation_graph=None if mst else give([g[1] for g in dgr]),
        holistic_features=give(feats), patch_shape=give(pat),
        patch_normalisation=give(norms), n_appearance_components=give(napp),
        scales=scales, use_procrustes=bool(rng.rand() < .6),
        precision_dtype=[np.float32, np.float64][rng.randint(2)],
        diagonal=None if rng.rand() < .4 else int(rng.randint(40, 56)))
    if kw["n_appearance_components"] == [None] * k:
        kw["n_appearance_components"] = None
    if rng.rand() < .3:
        kw["max_shape_components"] = int(rng.randint(1, 4))
    c.note(images=m, points=n, channels=ch, scales=scales, appearance=agr,
           deformation="mst" if mst else [g[0] for g in dgr], patch=pat,
           components=napp, procrustes=kw["use_procrustes"],
           dtype=kw["precision_dtype"].__name__, per_scale=per,
           features=[f.__name__ for f in feats],
           norms=[f.__name__ for f in norms])
    c.seen(m, n, scales, tuple(agr), mst or tuple(g[0] for g in dgr),
           tuple(pat), tuple(napp), kw["use_procrustes"])
    return ims, n, scales, aed, (None if mst else dgr), pat, feats, norms, \
        napp, kw


def train(ims, **kw):
    from menpofit.aps import GenerativeAPS
    return diverged(GenerativeAPS, ims, group="PTS", **kw)


# ------------------------------------------------------------------- cases
def case_fields(c):
    (ims, n, scales, aed, dgr, pat, feats, norms, napp,
     kw) = draw(c)
    aps = train(ims, **kw)
    ref = aps.reference_shape
    c.check(aps.n_scales == len(scales) == len(aps.appearance_models) ==
            len(aps.deformation_models) == len(aps.shape_models),
            "fields/one-model-per-scale")
    tol = 2e-4 if kw["precision_dtype"] is np.float32 else 1e-5
    for j, s in enumerate(scales):
        at = images_at(ims, ref, feats[j], s)
        lms = [im.landmarks["PTS"].points for im in at]
        X = np.array([patches_at(im, im.landmarks["PTS"], pat[j],
                                 norms[j]).ravel() for im in at])
        am, dm = aps.appearance_models[j], aps.deformation_models[j]
        c.close(am.mean().as_vector(), X.mean(0), "fields/appearance/mean",
                rtol=1e-8, atol=1e-10)
        try:
            Q = field(X, aed[j], n, "concatenation", napp[j])
            got = dense(am.precision)
            c.close(got, Q, "fields/appearance/precision", "scale %d" % j,
                    rtol=tol, atol=tol * np.abs(Q).max())
            c.check(am.precision.dtype == kw["precision_dtype"],
                    "fields/appearance/dtype", str(am.precision.dtype))
            blocks(c, got, aed[j], n, "appearance")
            v = c.rng.randn(5, len(Q))
            e = np.einsum("ij,jk,ik->i", v, got, v)
            c.check((e > -tol * np.abs(got).max() * len(Q)).all(),
                    "fields/appearance/negative", str(e))
            c.event("appearance fields")
        except Skip:
            c.event("degenerate appearance covariances")
        # deformations
        edges = dgr[j][2] if dgr is not None else [
            tuple(int(v) for v in e) for e in aps.deformation_graph[j].edges]
        shapes = gpa(lms) if kw["use_procrustes"] else lms
        S = np.array([x.ravel() for x in shapes])
        try:
            Q = field(S, edges, n, "subtraction")
        except Skip:
            c.event("degenerate shape covariances")
            continue
        got = dense(dm.precision)
        c.close(got, Q, "fields/deformation/precision", "scale %d" % j,
                rtol=1e-5, atol=1e-7 * np.abs(Q).max())
        c.check(np.asarray(dm.precision).dtype == np.float64,
                "fields/deformation/dtype")
        blocks(c, got, edges, n, "deformation")
        m = S.mean(0)
        c.close(dm.mean().as_vector(), m, "fields/deformation/mean",
                rtol=1e-7, atol=1e-8 * np.abs(m).max())
        top = np.abs(got).max()
        for k in range(4):
            d = c.rng.randn(n, 2)
            cost = dm.mahalanobis_distance(
                PointCloud(m.reshape(-1, 2) + d), square_root=False)
            cost = float(np.asarray(cost).ravel()[0])
            ref_cost = d.ravel().dot(Q).dot(d.ravel())
            c.check(cost > -1e-9 * top, "fields/deformation/negative",
                    "%r" % cost)
            c.close(cost, ref_cost, "fields/deformation/cost",
                    rtol=1e-5, atol=1e-7 * top)
            if edges:
                # only relative positions cost anything
                moved = m.reshape(-1, 2) + d + 7 * c.rng.randn(2)
                again = float(np.asarray(dm.mahalanobis_distance(
                    PointCloud(moved), square_root=False)).ravel()[0])
                c.close(again, cost, "fields/deformation/translation",
                        rtol=1e-6, atol=1e-6 * top)
        zero = float(np.asarray(dm.mahalanobis_distance(
            PointCloud(m.reshape(-1, 2)), square_root=False)).ravel()[0])
        c.check(abs(zero) < 1e-9 * top, "fields/deformation/mean-costs",
                "%r" % zero)
        c.event("deformation fields")


def blocks(c, Q, edges, n, name):
    d = len(Q) // n
    on = np.eye(n, dtype=bool)
    for a, b in edges:
        on[a, b] = on[b, a] = True
    if edges:
        for i in range(n):
            on[i, i] = any(i in e for e in edges)
    B = np.abs(Q.reshape(n, d, n, d)).max(axis=(1, 3)) > 0
    c.check(not (B & ~on).any(), "fields/%s/blocks" % name,
            "blocks without an edge: %s" % np.argwhere(B & ~on)[:4].tolist())
    c.check(not (on & ~B).any(), "fields/%s/blocks" % name,
            "edges without a block: %s" % np.argwhere(on & ~B)[:4].tolist())
    c.check(np.abs(Q - Q.T).max() <= 1e-4 * np.abs(Q).max(),
            "fields/%s/symmetric" % name)


def weights_of(lms):
    """How badly the relative position of each pair of points is predicted."""
    n = len(lms[0])
    W = np.zeros((n, n))
    X = np.array(lms)
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            D = X[:, i] - X[:, j]
            C = np.cov(D.T)
            e = D - D.mean(0)
            W[i, j] = .5 * np.einsum("ij,jk,ik->", e, np.linalg.inv(C), e) + \
                len(X) * (.5 * np.log(np.linalg.det(C)) + np.log(2 * np.pi))
    return W


def least_tree(W):
    """The weight of a minimum spanning tree (Prim)."""
    n = len(W)
    inside, total, used = [0], 0., []
    while len(inside) < n:
        best = min((W[i, j], i, j) for i in inside for j in range(n)
                   if j not in inside)
        total += best[0]
        used.append(frozenset(best[1:]))
        inside.append(best[2])
    return total, used


def case_tree(c):
    rng = c.rng
    (ims, n, scales, aed, _, pat, feats, norms, napp, kw) = draw(c)
    given = None
    if len(scales) > 1 and rng.rand() < .4:
        # only one of the scales asks for the spanning tree
        given = int(rng.randint(2))
        kind, g, e = draw_deformation(rng, n)
        kw["deformation_graph"] = [None, None]
        kw["deformation_graph"][given] = g
    else:
        kw["deformation_graph"] = None
    batch = None
    if rng.rand() < .3:
        batch = len(ims) // 2 + 2
        kw["can_be_incremented"] = True
        if len(ims) - batch < 2:
            batch = None
    asked = None if given is None else list(kw["deformation_graph"])
    c.note(given=given, batch=batch)
    if batch:
        kw["batch_size"] = batch
        if kw["diagonal"] is None:
            kw["diagonal"] = 50
    aps = train(ims, **kw)
    if asked is not None:
        c.check(kw["deformation_graph"] == asked, "tree/argument-changed")
    lms = [im.rescale_to_pointcloud(aps.reference_shape, group="PTS")
           .landmarks["PTS"].points for im in ims[:batch]]
    if min(np.linalg.eigvalsh(np.cov((np.array(lms)[:, i] -
                                     np.array(lms)[:, j]).T))[0]
           for i in range(n) for j in range(i)) < 1e-8:
        raise Skip()
    W = weights_of(lms)
    total, used = least_tree(W)
    for j in range(len(scales)):
        t = aps.deformation_graph[j]
        if given == j:
            c.check(t is g or (t.adjacency_matrix != g.adjacency_matrix).nnz
                    == 0, "tree/given-replaced")
            continue
        if not c.check(isinstance(t, Tree), "tree/type", type(t).__name__):
            return
        c.check(t.root_vertex == 0, "tree/root", str(t.root_vertex))
        e = np.asarray(t.edges)
        c.check(len(e) == n - 1 and t.n_vertices == n, "tree/spanning")
        # every vertex but the root has one parent and reaches the root
        parent = {int(b): int(a) for a, b in e}
        ok = len(parent) == n - 1 and 0 not in parent
        for v in range(n):
            steps = 0
            while ok and v != 0 and steps <= n:
                v, steps = parent.get(v, 0), steps + 1
            ok = ok and steps <= n
        c.check(ok, "tree/spanning", "edges %s" % e.tolist())
        got = sum(W[a, b] for a, b in e)
        c.close(got, total, "tree/minimal", "edges %s, not %s" % (
            e.tolist(), sorted(tuple(sorted(u)) for u in used)),
            rtol=1e-9, atol=1e-6)
    c.event("trees")


def case_shape(c):
    """Shape models over a graph."""
    rng = c.rng
    (ims, n, scales, aed, _, pat, feats, norms, napp, kw) = draw(
        c, n_images=(10, 16))
    kinds = ["chain", "star", "complete", "tree", "cycle", "empty"]
    edges = [draw_edges(rng, n, kinds[rng.randint(6)]) for _ in scales]
    use = [True] * len(scales)
    if len(scales) > 1 and rng.rand() < .3:
        use[rng.randint(2)] = False
    kw["shape_graph"] = [undirected(e, n) if u else None
                         for e, u in zip(edges, use)]
    kw.pop("max_shape_components", None)
    ask = None
    if rng.rand() < .6:
        ask = int(rng.randint(1, 2 * n - 4))
        kw["max_shape_components"] = ask
    c.note(shape_edges=edges, use=use, ask=ask)
    aps = train(ims, **kw)
    for j, s in enumerate(scales):
        if not use[j]:
            continue
        at = images_at(ims, aps.reference_shape, feats[j], s)
        S = np.array([x.ravel() for x in
                      gpa([im.landmarks["PTS"].points for im in at])])
        Q = field(S, edges[j], n, "concatenation")
        v, U = np.linalg.eigh(Q)
        var = 1. / v              # ascending precision: descending variance
        m = S.mean(0)
        sm = aps.shape_models[j].model
        c.close(sm.mean().as_vector(), m, "shape/mean", rtol=1e-6,
                atol=1e-8 * np.abs(m).max())
        k = sm.n_components
        if ask is not None:
            c.check(k <= ask, "shape/components", "%d of %d" % (k, ask))
            k0 = ask
        else:
            k0 = len(v)
        if k0 < len(v) and var[k0 - 1] < 1.02 * var[k0]:
            raise Skip()
        x = m.reshape(-1, 2)
        one, zero = np.ones(n), np.zeros(n)
        sim = np.stack([x.ravel(), np.c_[-x[:, 1], x[:, 0]].ravel(),
                        np.c_[one, zero].ravel(), np.c_[zero, one].ravel()])
        q1 = np.linalg.qr(np.vstack([sim, sm.components]).T)[0]
        span = q1.dot(q1.T)
        # what the k0 leading directions add to the similarities
        qs = np.linalg.qr(sim.T)[0]
        R = U[:, :k0] - qs.dot(qs.T.dot(U[:, :k0]))
        rank = int((np.linalg.svd(R, compute_uv=False) > 1e-6).sum())
        c.check(k == min(rank, 2 * n - 4), "shape/rank",
                "%d components, the graph spans %d" % (k, rank))
        if k == rank:
            r = R - span.dot(R)
            c.check(np.abs(r).max() < 1e-4, "shape/directions",
                    "residual %.2g" % np.abs(r).max())
        c.close(np.asarray(sm.eigenvalues), var[:k], "shape/variance",
                rtol=1e-4, atol=1e-9 * var[0])
        c.event("shape fields")


# ------------------------------------------------------------- algorithms
def shape_jacobian(sm):
    """Derivatives of the shape at the mean, by differences of its shapes
    (exact: they are linear in every single parameter)."""
    sm = deepcopy(sm)
    sm.set_target(sm.model.mean())
    p0 = sm.as_vector().copy()
    cols = []
    for k in range(len(p0)):
        out = []
        for h in (.5, -.5):
            p = p0.copy()
            p[k] += h
            sm._from_vector_inplace(p)
            out.append(sm.target.points.ravel())
        cols.append(out[0] - out[1])
    return np.array(cols).T


def patch_gradient(a):
    """n x offsets x channels x h x w -> two such arrays."""
    out = np.empty((2,) + a.shape)
    flat = a.reshape((-1,) + a.shape[-2:])
    for k, x in enumerate(flat):
        g = gradient(np.ascontiguousarray(x[None]))
        out[0].reshape(flat.shape)[k] = g[0]
        out[1].reshape(flat.shape)[k] = g[1]
    return out


def steepest(a, D):
    """Derivative of the patches wrt the parameters through the points."""
    g = patch_gradient(a)
    n, P = a.shape[0], D.shape[1]
    J = np.einsum("dnabhw,ndp->nabhwp", g.reshape((2,) + a.shape),
                  D.reshape(n, 2, P))
    return J.reshape(-1, P)


def draw_sampling(rng, patch):
    t = rng.randint(4)
    if t < 2:
        return None, np.ones(patch, dtype=bool)
    if t == 2:
        k = int(rng.randint(2, 4))
        m = np.zeros(patch, dtype=bool)
        m.flat[::k] = True
        return k, m
    m = rng.rand(*patch) < .6
    m.flat[0] = True
    return m, m


def case_step(c):
    from menpofit.aps import GaussNewtonAPSFitter, Forward, Inverse
    rng = c.rng
    (ims, n, scales, aed, dgr, pat, feats, norms, napp, kw) = draw(
        c, n_images=(9, 13))
    pat = [tuple(max(3, v) for v in p) for p in pat]
    kw["patch_shape"] = pat
    if kw["n_appearance_components"] is None:
        napp = [3] * len(scales)
        kw["n_appearance_components"] = 3
    test, ims = ims[-1], ims[:-1]
    aps = train(ims, **kw)
    cls = [Forward, Inverse][c.index % 2]
    w = [float(10. ** rng.uniform(-2, 3)) for _ in scales]
    draws = [draw_sampling(rng, p) for p in pat]
    sampling = [d[0] for d in draws]
    if len(set(pat)) == 1 and len(scales) == 1:
        sampling = sampling[0]
    fkw = {"sampling": sampling}
    if rng.rand() < .5:
        fkw["n_shape"] = int(rng.randint(1, 3))
    fitter = diverged(GaussNewtonAPSFitter, aps, gn_algorithm_cls=cls,
                      weight=w if len(w) > 1 else w[0], **fkw)
    j = int(rng.randint(len(scales)))
    alg = fitter.algorithms[j]
    im = images_at([test], aps.reference_shape, feats[j], scales[j])[0]
    init = gen.perturb(rng, im.landmarks["PTS"], shift=1. * scales[j])
    px, pts = im.pixels.copy(), init.points.copy()
    iters = int(rng.randint(1, 4))
    c.note(algorithm=cls.__name__, weight=w, scale=j, iters=iters,
           sampling=[None if d[0] is None else int(d[1].sum())
                     for d in draws], n_shape=fkw.get("n_shape"))
    c.seen("step", cls.__name__, len(scales), j, pat[j], fkw.get("n_shape"),
           kw["use_procrustes"], draws[j][1].sum())
    r = diverged(alg.run, im, init, gt_shape=im.landmarks["PTS"],
                 max_iters=iters, return_costs=True)
    c.check(np.array_equal(px, im.pixels) and
            np.array_equal(pts, init.points), "step/mutates")
    P = [np.asarray(p) for p in r.shape_parameters]
    shapes = r.shapes[-len(P):]
    sm = deepcopy(aps.shape_models[j])
    sm.set_target(init)
    c.close(P[0], sm.as_vector(), "step/start", rtol=1e-9, atol=1e-9)
    D = shape_jacobian(aps.shape_models[j])
    mask = np.tile(draws[j][1].ravel(),
                   int(np.prod(aps.appearance_models[j].mean().pixels
                               .shape[:3])))
    Qa = dense(aps.appearance_models[j].precision)[np.ix_(mask, mask)]
    Qd = dense(aps.deformation_models[j].precision)
    abar = aps.appearance_models[j].mean().pixels
    dbar = aps.deformation_models[j].mean_vector
    Hs = w[j] * D.T.dot(Qd).dot(D)
    J0 = steepest(abar, D)[mask]
    patches, errors = [], []
    for p, s in zip(P, shapes):
        sm._from_vector_inplace(p)
        c.close(s.points, sm.target.points, "step/shape", rtol=1e-8,
                atol=1e-8)
        a = patches_at(im, s, pat[j], norms[j])
        patches.append(a)
        errors.append((a - abar).ravel()[mask])
    # the costs it reports
    ac = np.array([e.dot(Qa).dot(e) for e in errors])
    dc = np.array([w[j] * (s.as_vector() - dbar).dot(Qd).dot(
        s.as_vector() - dbar) for s in shapes])
    tol = 1e-6
    c.close(np.ravel(r.appearance_costs), ac, "step/appearance-cost",
            rtol=1e-5, atol=tol * np.abs(ac).max())
    big = w[j] * np.abs(Qd).max() * max(
        (s.as_vector() - dbar).dot(s.as_vector() - dbar) for s in shapes)
    c.close(np.ravel(r.deformation_costs), dc, "step/deformation-cost",
            rtol=1e-5, atol=1e-9 * big)
    c.close(np.ravel(r.costs), ac + dc, "step/cost", rtol=1e-5,
            atol=tol * np.abs(ac).max() + 1e-9 * big)
    # the updates it makes
    for i in range(len(P) - 1):
        J = J0 if cls is Inverse else steepest(patches[i], D)[mask]
        H = J.T.dot(Qa).dot(J) + Hs
        cond = np.linalg.cond(H)
        # blocks that repeat are summed in the precision of the matrix
        if cond > (1e4 if kw["precision_dtype"] is np.float32 else 1e9):
            raise Skip()
        p = P[i].copy()
        if kw["use_procrustes"]:
            p[:4] = 0
        dp = np.linalg.solve(H, J.T.dot(Qa).dot(errors[i]) + Hs.dot(p))
        c.close(P[i + 1] - P[i], -dp, "step/update",
                "iteration %d" % i, rtol=1e-4 + 2e-7 * min(cond, 1e4),
                atol=(1e-5 + 2e-7 * min(cond, 1e4)) * np.abs(dp).max() + 1e-8)
        c.event("steps/%s" % cls.__name__)


def case_view(c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import menpo.visualize as mv
    rng = c.rng
    (ims, n, scales, aed, _, pat, feats, norms, napp, kw) = draw(c)
    kind, g, edges = draw_deformation(rng, n)
    if not edges:
        raise Skip()
    kw["deformation_graph"] = g
    aps = train(ims, **kw)
    j = int(rng.randint(len(scales)))
    calls = []
    real = mv.plot_gaussian_ellipses

    def spy(covariances, means, **k):
        calls.append((covariances, means, k))
        return real(covariances, means, **k)
    mv.plot_gaussian_ellipses = spy
    try:
        n_std = int(rng.randint(1, 4))
        aps.view_deformation_model(scale_index=j, n_std=n_std)
    finally:
        mv.plot_gaussian_ellipses = real
        plt.close("all")
    c.note(view=kind, scale=j)
    c.seen("view", kind, len(scales), j)
    if not c.check(len(calls) == 1, "view/ellipses"):
        return
    cov, means, k = calls[0]
    at = images_at(ims, aps.reference_shape, feats[j], scales[j])
    lms = [im.landmarks["PTS"].points for im in at]
    S = np.array(gpa(lms) if kw["use_procrustes"] else lms)
    mean = aps.shape_models[j].model.mean().points
    c.check(len(cov) == len(means) == len(edges), "view/ellipses")
    c.check(k.get("n_std") == n_std, "view/n_std")
    left = {tuple(e) for e in edges}
    for C, m in zip(cov, means):
        hit = [e for e in left if np.allclose(mean[e[1]], m)]
        if not c.check(hit, "view/means", "no edge ends there"):
            return
        E = [np.cov((S[:, a] - S[:, b]).T) for a, b in hit]
        if max(np.linalg.cond(x) for x in E) > 1e7:
            continue
        err = [np.abs(np.asarray(C) - x).max() / np.abs(x).max() for x in E]
        best = int(np.argmin(err))
        c.check(err[best] < 1e-4, "view/covariance", "edge %s: %.3g off" % (
            hit[best], err[best]))
        left.discard(hit[best])
    # instances as graphs
    got = aps.instance(scale_index=j, as_graph=True)
    want = PointTree if isinstance(g, Tree) else PointDirectedGraph
    c.check(type(got) is want, "view/instance-type", type(got).__name__)
    c.check((got.adjacency_matrix != g.adjacency_matrix).nnz == 0,
            "view/instance-graph")
    if want is PointTree:
        c.check(got.root_vertex == g.root_vertex, "view/instance-root")
    c.close(got.points, mean, "view/instance-mean", rtol=1e-9, atol=1e-9)
    c.event("views")


def one_fit(c, rng, cls):
    """Median error after fits with one model over that before."""
    from menpofit.aps import GaussNewtonAPSFitter, GenerativeAPS
    n = int(rng.randint(6, 10))
    _, ims = gen.stamped_dataset(rng, n=14, n_points=n, shape=(120, 110),
                                 h=64., w=56., sigma=7., grain=3.5,
                                 channels=int(rng.choice([1, 2])))
    tests, ims = ims[:4], ims[4:]
    g = ["chain", "star", "tree"][rng.randint(3)]
    scales = [(1.,), (.5, 1.)][rng.randint(2)]
    procrustes = bool(rng.rand() < .7)
    weight = float(rng.choice([.3, 1., 3.]))
    c.seen("fit", n, g, scales, cls.__name__, procrustes, weight)
    aps = diverged(
        GenerativeAPS, ims, group="PTS", scales=scales, patch_shape=(13, 13),
        appearance_graph=undirected(draw_edges(rng, n, g), n),
        n_appearance_components=int(rng.randint(5, 9)),
        use_procrustes=procrustes, max_shape_components=int(rng.randint(3, 6)))
    fitter = diverged(GaussNewtonAPSFitter, aps, gn_algorithm_cls=cls,
                      weight=weight)
    out = []
    for im in tests + ims[:2]:
        gt = im.landmarks["PTS"]
        s = gen.perturb(rng, gt, scale=.02, angle=.03, shift=2.)
        r = diverged(fitter.fit_from_shape, im, s, gt_shape=gt, max_iters=30)
        out.append([np.abs(x.points - gt.points).mean() for x in
                    (r.initial_shape, r.final_shape)])
    c.event("fits")
    out = np.median(out, axis=0)
    return out[1] / out[0]


def case_fit(c):
    from menpofit.aps import Forward, Inverse
    cls = [Forward, Inverse][c.index % 2]
    # few images may leave a model that cannot follow: most do
    ratios = [one_fit(c, c.rng, cls) for _ in range(4)]
    c.note(algorithm=cls.__name__, ratios=np.round(ratios, 2).tolist())
    c.check(sum(r < .9 for r in ratios) >= 2, "fit/recovery/%s" % cls.__name__,
            "errors after over before: %s" % np.round(ratios, 2))


CASES = {"fields": (case_fields, 120, 2000), "tree": (case_tree, 60, 1000),
         "shape": (case_shape, 60, 1000), "step": (case_step, 100, 1600),
         "view": (case_view, 24, 300), "fit": (case_fit, 8, 80)}
REQUIRED = {"appearance fields": 60, "deformation fields": 60, "trees": 20,
            "shape fields": 20, "steps/Forward": 20, "steps/Inverse": 20,
            "views": 8, "fits": 16}
