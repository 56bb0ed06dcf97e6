"""M01: parameter Jacobians of transforms and shape models are derivatives."""
import numpy as np

from . import gen
from .core import Skip

ID = "M01"
RULE = ("random transforms / shape models (2D and 3D affine, similarity, "
        "alignment variants, PDMs without/with a global transform, "
        "orthonormalised PDMs, model driven PWA/TPS warps, linear dense "
        "warps) in random poses including large rotations, scales and random "
        "truncations, evaluated at random points; a case counts as distinct "
        "when its (class, dims, #points, #params, pose) differ")
ASSUMPTIONS = ["central differences in double precision are taken as the "
               "derivative (relative tolerance 2e-5)"]


def fd(fun, v, eps=1e-5):
    """(n_points, n_params, n_dims) central differences of fun(v)."""
    v = np.array(v, dtype=float)
    out = []
    for k in range(v.size):
        h = eps * max(1.0, abs(v[k]))
        a, b = v.copy(), v.copy()
        a[k] += h
        b[k] -= h
        out.append((fun(a) - fun(b)) / (2 * h))
    return np.stack(out, axis=1)


def homogeneous(c):
    from menpofit.transform import (DifferentiableAffine,
                                    DifferentiableSimilarity,
                                    DifferentiableAlignmentAffine,
                                    DifferentiableAlignmentSimilarity)
    rng = c.rng
    which = ["affine", "similarity", "align_affine",
             "align_similarity"][c.index % 4]
    dims = 3 if (which in ("affine", "align_affine") and rng.rand() < .4) else 2
    n = rng.randint(1, 12)
    pts = rng.randn(n, dims) * rng.choice([1, 10, 100])
    src = rng.randn(dims + 4, dims) * 20
    if which == "affine":
        h = np.eye(dims + 1)
        h[:dims, :] += rng.randn(dims, dims + 1) * rng.choice([.3, 3])
        t = DifferentiableAffine(h)
    elif which == "similarity":
        th, s = rng.uniform(-np.pi, np.pi), rng.uniform(.2, 4)
        h = np.eye(3)
        h[:2, :2] = s * gen.rot(th)
        h[:2, 2] = rng.randn(2) * 10
        t = DifferentiableSimilarity(h)
    elif which == "align_affine":
        a = np.eye(dims) + rng.randn(dims, dims)
        t = DifferentiableAlignmentAffine(
            gen.quiet_pc(src), gen.quiet_pc(src.dot(a) + rng.randn(*src.shape)))
    else:
        tgt = rng.uniform(.3, 3) * src.dot(
            gen.rot(rng.uniform(-np.pi, np.pi)).T) + rng.randn(*src.shape)
        t = DifferentiableAlignmentSimilarity(gen.quiet_pc(src),
                                              gen.quiet_pc(tgt))
    c.note(cls=type(t).__name__, dims=dims, h=t.h_matrix, n_points=n)
    v0 = t.as_vector()
    asked = pts.copy()
    jac = t.d_dp(pts)
    c.check(np.array_equal(asked, pts), "d_dp-mutates-points/" + which,
            "evaluating the Jacobian changed the points")
    ref = fd(lambda v: t.from_vector(v).apply(pts), v0, 1e-4)
    c.close(jac, ref, "d_dp/" + type(t).__name__, "d_dp vs finite differences",
            rtol=2e-5, atol=1e-6)
    c.check(np.array_equal(t.as_vector(), v0), "d_dp-mutates/" + which,
            "evaluating the Jacobian changed the transform")
    c.raises(ValueError, lambda: t.d_dp(rng.randn(4, 5 - dims)),
             "d_dp-dims/" + which, "points of the wrong dimensionality")
    c.event("homogeneous_jacobians")
    c.seen(which, dims, n, v0)


def _model(c, cls, n_points=None, size=(60., 48.)):
    rng = c.rng
    n_points = n_points or rng.randint(5, 16)
    fam = gen.ShapeFamily(rng, n_points, size[0], size[1],
                          mode_std=rng.choice([.02, .06]))
    shapes = [fam.sample(rng, angle=.3) for _ in range(rng.randint(6, 12))]
    k = rng.choice([None, 1, 2, 3, 4])
    k = None if k is None else int(k)
    return fam, shapes, k


def _pose(rng, fam, amount=1.0):
    return fam.sample(rng, scale=(.3, 3.), angle=np.pi, shift=40., amount=amount)


def _mean_only(model, weights):
    return model.model.mean()


def pdm_models(c):
    from menpofit.modelinstance import PDM, GlobalPDM, OrthoPDM
    from menpofit.transform import (DifferentiableAlignmentSimilarity,
                                    DifferentiableAlignmentAffine)
    rng = c.rng
    which = ["PDM", "GlobalPDM-sim", "GlobalPDM-aff", "OrthoPDM"][c.index % 4]
    fam, shapes, k = _model(c, which)
    if which == "PDM":
        m = PDM(shapes, max_n_components=k)
        ng = 0
    elif which == "OrthoPDM":
        m = OrthoPDM(shapes, max_n_components=k)
        ng = 4
    else:
        g = (DifferentiableAlignmentSimilarity if which.endswith("sim")
             else DifferentiableAlignmentAffine)
        m = GlobalPDM(shapes, g, max_n_components=k)
        ng = m.n_global_parameters
    if rng.rand() < .5 and m.n_active_components > 1:
        m.n_active_components = int(rng.randint(1, m.n_active_components + 1))
    m.set_target(_pose(rng, fam))
    v = np.array(m.as_vector(), dtype=float)
    jac = np.array(m.d_dp(rng.randn(3, 2)))
    c.note(cls=which, n_points=fam.n, n_active=m.n_active_components, p=v)
    if not c.check(jac.shape == (fam.n, v.size, 2), "pdm-shape/" + which,
                   "d_dp has shape {}".format(jac.shape)):
        return

    def target(p):
        return m.from_vector(p).target.points

    # exact for the shape weights in every state
    full = fd(target, v, 1e-5)
    c.close(jac[:, ng:], full[:, ng:], "pdm-shape-columns/" + which,
            "d target / d shape weights", rtol=2e-5, atol=1e-6)
    if ng:
        # the global columns are documented to be evaluated at the mean shape
        v0 = v.copy()
        v0[ng:] = 0
        at_mean = fd(target, v0, 1e-5)
        c.close(jac[:, :ng], at_mean[:, :ng], "pdm-global-columns/" + which,
                "d target / d global parameters at the mean shape", rtol=2e-5,
                atol=1e-6)
        c.event("global_poses")
    c.check(np.array_equal(m.as_vector(), v), "pdm-d_dp-mutates/" + which,
            "evaluating the Jacobian changed the model")
    c.event("pdm_jacobians")
    c.seen(which, fam.n, m.n_active_components, v)


def similarity_instance(c):
    from menpofit.modelinstance import (GlobalSimilarityModel,
                                        similarity_2d_instance_model)
    rng = c.rng
    fam, shapes, _ = _model(c, "sim")
    if c.index % 2:
        m = GlobalSimilarityModel(shapes)
        m.set_target(_pose(rng, fam))
        v = np.array(m.as_vector())
        jac = m.d_dp(None)
        ref = fd(lambda p: m.from_vector(p).target.points, v)
        c.close(jac, ref, "d_dp/GlobalSimilarityModel", "d_dp", rtol=2e-5,
                atol=1e-6)
        t = m.target.points
        a = m.transform.apply(m.mean).points
        c.close(t, a, "sim-model-target/GlobalSimilarityModel",
                "target is the transformed mean")
        c.check(m.n_weights == 4 and m.n_dims == 2 and m.n_parameters == 4 and
                np.array_equal(m.weights, v), "sim-model-weights")
    else:
        s = _pose(rng, fam)
        m = similarity_2d_instance_model(s)
        w = rng.randn(4) * [.5, .5, 10, 10]
        inst = m.instance(w).points
        exp = (1 + w[0]) * s.points + w[1] * np.stack(
            [-s.points[:, 1], s.points[:, 0]], 1) + w[2:]
        c.close(inst, exp, "similarity-instance-model",
                "instance is (1+a, b, ty, tx) applied to the shape")
    c.event("similarity_models")
    c.note(kind=type(m).__name__, n_points=fam.n)
    c.seen(type(m).__name__, s.points[0] if not c.index % 2 else v)


def model_driven(c):
    from menpofit.modelinstance import PDM, GlobalPDM, OrthoPDM
    from menpofit.transform import (DifferentiablePiecewiseAffine,
                                    DifferentiableThinPlateSplines,
                                    DifferentiableAlignmentSimilarity,
                                    OrthoMDTransform)
    from menpofit.transform.modeldriven import (ModelDrivenTransform,
                                                GlobalMDTransform)
    rng = c.rng
    warp = [DifferentiablePiecewiseAffine,
            DifferentiableThinPlateSplines][c.index % 2]
    which = ["MD", "GlobalMD", "OrthoMD"][(c.index // 2) % 3]
    small = rng.rand() < .3 and warp is DifferentiableThinPlateSplines
    fam, shapes, k = _model(c, which, size=(6., 5.) if small else (60., 48.))
    if which == "MD":
        m = PDM(shapes, max_n_components=k)
        cls, ng = ModelDrivenTransform, 0
    elif which == "GlobalMD":
        m = GlobalPDM(shapes, DifferentiableAlignmentSimilarity,
                      max_n_components=k)
        cls, ng = GlobalMDTransform, 4
    else:
        m = OrthoPDM(shapes, max_n_components=k)
        cls, ng = OrthoMDTransform, 4
    # a reference frame of its own, as the fitters use
    source = gen.quiet_pc(m.model.mean().points * rng.uniform(.5, 2) +
                          rng.randn(2) * (3 if small else 30))
    t = cls(m, warp, source=source)
    # points strictly inside triangles of the source
    tl = _delaunay(source)
    n = rng.randint(3, 12)
    bary = rng.dirichlet([2, 2, 2], n)
    tri = tl[rng.randint(0, len(tl), n)]
    pts = np.einsum("nk,nkd->nd", bary, source.points[tri])
    # a history of states and evaluation points: cached terms must follow
    for step in range(3):
        if step == 1:
            t.set_target(_pose(rng, fam))
        elif step == 2:
            p2 = np.array(t.as_vector())
            t._from_vector_inplace(p2 + rng.randn(p2.size) *
                                   np.maximum(np.abs(p2), 1) * .1)
            bary = rng.dirichlet([2, 2, 2], n)
            pts = np.einsum("nk,nkd->nd", bary, source.points[tri])
        v = np.array(t.as_vector(), dtype=float)
        asked = pts.copy()
        jac = np.array(t.d_dp(pts))
        c.check(np.array_equal(asked, pts) and
                np.array_equal(np.array(t.as_vector()), v), "md-mutates",
                "evaluating the Jacobian changed its inputs")
        again = np.array(t.d_dp(pts))
        c.check(np.array_equal(jac, again), "md-repeat",
                "asking twice gives another answer")

        def warped(p):
            return t.from_vector(p).apply(pts)

        name = which + "/" + warp.__name__
        ref = fd(warped, v, 1e-5)
        c.close(jac[:, ng:], ref[:, ng:], "md-shape-columns/" + name,
                "d warped points / d shape weights (step %d)" % step,
                rtol=5e-5, atol=2e-6)
        if ng:
            v0 = v.copy()
            v0[ng:] = 0
            ref0 = fd(warped, v0, 1e-5)
            c.close(jac[:, :ng], ref0[:, :ng], "md-global-columns/" + name,
                    "d warped points / d global parameters (step %d)" % step,
                    rtol=5e-5, atol=2e-6)
        c.event("md_jacobians")
        c.seen(name, fam.n, m.n_active_components, v)
    c.note(cls=which, warp=warp.__name__, n_points=fam.n, n_params=t.n_parameters)
    # evaluation points modified in place by the caller must not be served a
    # stale answer
    fresh = cls(m, warp, source=source)
    before = pts.copy()
    t.d_dp(pts)
    bary = rng.dirichlet([2, 2, 2], n)
    moved = np.einsum("nk,nkd->nd", bary, source.points[tri])
    if small:
        pts[...] = moved
    else:
        # menpo's piecewise affine keeps a reference to the last points it
        # was applied to, so there only new arrays are a fair workload
        pts = moved
    if not np.array_equal(before, pts):
        c.close(t.d_dp(pts), fresh.d_dp(pts), "md-stale-points",
                "Jacobian after the caller moved the evaluation points",
                rtol=1e-8)
        c.event("moved_points")


def _delaunay(pc):
    from menpo.shape import TriMesh
    return np.array(TriMesh(pc.points.copy()).trilist)


def coincident(c):
    """Landmarks which coincide share what one landmark at their place does:
    moving them together moves the spline like moving that one."""
    from menpofit.transform import DifferentiableThinPlateSplines as TPS
    rng = c.rng
    n = rng.randint(4, 9)
    p = gen.spread_points(rng, n, 60., 60.)
    if rng.rand() < .5:
        p = np.round(p, 1)
    k = rng.randint(1, 3)
    twins = rng.permutation(n)[:k]
    order = rng.permutation(n + k)
    both = np.vstack([p, p[twins]])[order]
    where = np.r_[np.arange(n), twins][order]
    x = rng.uniform(0, 60, (rng.randint(1, 9), 2))
    one, two = gen.quiet_pc(p), gen.quiet_pc(both)
    ref = TPS(one, one).d_dl(x)
    got = TPS(two, two).d_dl(x)
    joint = np.zeros_like(ref)
    for j, w in enumerate(where):
        joint[:, w] += got[:, j]
    c.close(joint, ref, "d_dl/coincident", "%d of %d landmarks doubled" % (
        k, n), rtol=0, atol=1e-6)
    c.event("coincident")
    c.seen(n, k, p)


def linear_dense(c):
    from menpofit.modelinstance import OrthoPDM
    from menpofit.transform import LinearOrthoMDTransform
    rng = c.rng
    n, d = rng.randint(5, 10), rng.randint(5, 30)
    fam = gen.ShapeFamily(rng, n + d)
    shapes = [fam.sample(rng) for _ in range(8)]
    m = OrthoPDM(shapes, max_n_components=int(rng.randint(1, 5)))
    sparse = gen.quiet_pc(m.model.mean().points[:n])
    t = LinearOrthoMDTransform(m.model, sparse)
    q = gen.perturb(rng, _pose(rng, fam, 1.0))
    t.set_target(gen.quiet_pc(q.points[:n]))
    v = np.array(t.as_vector(), dtype=float)
    jac = np.array(t.d_dp(None))
    ng = t.n_global_parameters

    def dense(p):
        return t.from_vector(p)._apply(None)

    c.close(t._apply(None), t.dense_target.points, "linear-apply",
            "the warp returns the dense target")
    ref = fd(dense, v)
    c.close(jac[:, ng:], ref[:, ng:], "linear-shape-columns",
            "d dense points / d shape weights", rtol=2e-5, atol=1e-6)
    v0 = v.copy()
    v0[ng:] = 0
    ref = fd(dense, v0)
    c.close(jac[:, :ng], ref[:, :ng], "linear-global-columns",
            "d dense points / d global parameters", rtol=2e-5, atol=1e-6)
    c.event("linear_jacobians")
    c.note(n_sparse=n, n_dense=d, n_params=v.size)
    c.seen(n, d, v)


CASES = {
    "homogeneous": (homogeneous, 960, 1600),
    "pdm": (pdm_models, 960, 1600),
    "similarity": (similarity_instance, 240, 400),
    "model_driven": (model_driven, 720, 1200),
    "linear_dense": (linear_dense, 240, 400),
    "coincident": (coincident, 300, 2000),
}
REQUIRED = {"homogeneous_jacobians": 50, "pdm_jacobians": 50,
            "global_poses": 30, "md_jacobians": 50, "linear_jacobians": 10,
            "similarity_models": 10, "coincident": 200}
