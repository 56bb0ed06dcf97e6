"""M03: warps follow their targets and compose as transforms do."""
import numpy as np

from . import gen
from .core import Skip
from .m01_param_jacobians import fd, _model, _pose, _delaunay

ID = "M03"
RULE = ("random affine/similarity transforms and alignments composed with "
        "random increments; random model driven warps (plain, global and "
        "orthonormal shape models x piecewise affine and thin plate spline "
        "warps, dense linear warps) driven through random sequences of "
        "set_target / parameter writes / compositions / copies, the warp "
        "invariants being checked after every step; distinct when class, "
        "size and state differ")
ASSUMPTIONS = ["the composition of a model driven warp is defined as the least "
               "squares projection on the tangent space of the warp with the "
               "pose columns taken at the mean shape, as documented",
               "piecewise affine warps declare the identity as their spatial "
               "derivative, so theirs is checked with that derivative"]


def homogeneous(c):
    from menpofit.transform import (DifferentiableAffine,
                                    DifferentiableSimilarity,
                                    DifferentiableAlignmentAffine,
                                    DifferentiableAlignmentSimilarity)
    rng = c.rng
    which = ["affine", "similarity", "align_affine",
             "align_similarity"][c.index % 4]
    dims = 3 if (c.index % 4 in (0, 2) and rng.rand() < .3) else 2
    src = rng.randn(dims + 5, dims) * rng.choice([1, 40])

    def sim():
        h = np.eye(3)
        h[:2, :2] = rng.uniform(.3, 3) * gen.rot(rng.uniform(-np.pi, np.pi))
        h[:2, 2] = rng.randn(2) * 10
        return h

    def aff():
        h = np.eye(dims + 1)
        h[:dims] += rng.randn(dims, dims + 1) * .5
        return h
    if which == "affine":
        t, d = DifferentiableAffine(aff()), DifferentiableAffine(aff())
    elif which == "similarity":
        t, d = DifferentiableSimilarity(sim()), DifferentiableSimilarity(sim())
    elif which == "align_affine":
        t = DifferentiableAlignmentAffine(
            gen.quiet_pc(src), gen.quiet_pc(DifferentiableAffine(aff()).apply(src)))
        d = DifferentiableAffine(aff())
    else:
        t = DifferentiableAlignmentSimilarity(
            gen.quiet_pc(src), gen.quiet_pc(DifferentiableSimilarity(sim()).apply(src)))
        d = DifferentiableSimilarity(sim())
    if abs(np.linalg.det(t.h_matrix)) < .05 or abs(np.linalg.det(d.h_matrix)) < .05:
        raise Skip()
    c.note(cls=type(t).__name__, dims=dims, h=t.h_matrix, delta=d.as_vector())
    x = rng.randn(6, dims) * 10
    v0 = t.as_vector()
    h0 = t.h_matrix.copy()
    t2 = t.copy()
    t2.compose_after_from_vector_inplace(d.as_vector())
    want = t.apply(d.apply(x))
    sc = np.abs(want).max() + 1
    c.close(t2.apply(x), want, "compose-after/" + which, "t after d",
            rtol=1e-9, scale=sc)
    c.check(np.array_equal(t.h_matrix, h0), "compose-aliases/" + which,
            "composing a copy changed the original")
    if which.startswith("align"):
        c.close(t2.target.points, t2.apply(src), "compose-target/" + which,
                "alignment target after a composition", rtol=1e-9)
    # zero increment
    t3 = t.copy()
    t3.compose_after_from_vector_inplace(np.zeros_like(v0))
    c.close(t3.h_matrix, h0, "compose-zero/" + which, rtol=1e-10)
    # parameters of the inverse
    inv = t.pseudoinverse_vector(v0)
    t4 = t.from_vector(inv)
    c.close(t4.apply(t.apply(x)), x, "inverse-vector/" + which,
            "parameters of the inverse", rtol=1e-7, atol=1e-6)
    t5 = t2.copy()
    t5.compose_after_from_vector_inplace(t.pseudoinverse_vector(d.as_vector()))
    c.close(t5.apply(x), t.apply(x), "compose-inverse/" + which,
            "increment then its inverse", rtol=1e-7, atol=1e-6)
    # read / write
    c.close(t.from_vector(v0).h_matrix, h0, "round-trip/" + which, rtol=1e-10)
    if which.startswith("align"):
        tgt = t.apply(src) + rng.randn(*src.shape)
        t.set_target(gen.quiet_pc(tgt))
        ref = type(t)(gen.quiet_pc(src), gen.quiet_pc(tgt))
        c.close(t.h_matrix, ref.h_matrix, "realign/" + which, rtol=1e-7)
    c.event("exact_compositions")
    c.seen(which, dims, v0, d.as_vector())


def _make(c, warp_small=None):
    from menpofit.modelinstance import PDM, GlobalPDM, OrthoPDM
    from menpofit.transform import (DifferentiablePiecewiseAffine,
                                    DifferentiableThinPlateSplines,
                                    DifferentiableAlignmentSimilarity,
                                    DifferentiableAlignmentAffine,
                                    OrthoMDTransform)
    from menpofit.transform.modeldriven import (ModelDrivenTransform,
                                                GlobalMDTransform)
    rng = c.rng
    warp = [DifferentiablePiecewiseAffine,
            DifferentiableThinPlateSplines][c.index % 2]
    which = ["MD", "GlobalMD", "OrthoMD", "GlobalMDaff"][(c.index // 2) % 4]
    small = warp is DifferentiableThinPlateSplines
    fam, shapes, k = _model(c, which, size=(6., 5.) if small else (60., 48.))
    if which == "MD":
        m, cls, ng = PDM(shapes, max_n_components=k), ModelDrivenTransform, 0
    elif which.startswith("Global"):
        g = (DifferentiableAlignmentAffine if which.endswith("aff")
             else DifferentiableAlignmentSimilarity)
        m = GlobalPDM(shapes, g, max_n_components=k)
        cls, ng = GlobalMDTransform, m.n_global_parameters
    else:
        m = OrthoPDM(shapes, max_n_components=k)
        cls, ng = OrthoMDTransform, 4
    mean = m.model.mean().points
    if small or rng.rand() < .5:
        source = gen.quiet_pc(mean)
    else:
        source = gen.quiet_pc(mean * rng.uniform(.5, 2) + rng.randn(2) * 30)
    default = rng.rand() < .3
    t = cls(m, warp) if default else cls(m, warp, source=source)
    if default:
        source = gen.quiet_pc(mean)
    if small and np.linalg.svd(t.transform.l)[1].min() < 2e-3:
        raise Skip()
    return fam, t, m, source, ng, which, warp, small


def _consistent(c, t, source, name, step):
    """The invariants every model driven warp keeps."""
    tgt = t.target.points
    size = np.abs(tgt).max() + 1
    c.close(t.apply(source.points), tgt, "warp-hits-target/" + name,
            "source landmarks -> target after " + step, rtol=1e-6, scale=size)
    c.close(t.pdm.target.points, tgt, "model-target/" + name, step, rtol=1e-12)
    v = np.array(t.as_vector(), dtype=float)
    inst = t.pdm.from_vector(v).target.points
    c.close(inst, tgt, "target-is-instance/" + name, "after " + step,
            rtol=1e-7, scale=size)
    back = t.from_vector(v)
    c.close(back.target.points, tgt, "read-write/" + name, "after " + step,
            rtol=1e-7, scale=size)
    c.close(np.array(back.as_vector(), dtype=float), v,
            "read-write-params/" + name, "after " + step, rtol=1e-10)
    c.event("warp_states")


def histories(c):
    rng = c.rng
    fam, t, m, source, ng, which, warp, small = _make(c)
    name = which + "/" + warp.__name__
    tl = _delaunay(source)
    bary = rng.dirichlet([2, 2, 2], 5)
    pts = np.einsum("nk,nkd->nd", bary, source.points[tl[rng.randint(0, len(tl), 5)]])
    ops = []
    _consistent(c, t, source, name, "construction")
    for _ in range(6):
        op = ["target", "write", "compose", "derive", "copy",
              "zero"][rng.randint(6)]
        ops.append(op)
        if op == "target":
            tgt = _pose(rng, fam)
            given = tgt.points.copy()
            t.set_target(tgt)
            c.check(np.array_equal(given, tgt.points), "target-mutated/" + name,
                    "set_target changed the caller's shape")
            first = t.target.points.copy()
            # the projection is idempotent where the projection is linear
            if which in ("MD", "OrthoMD"):
                t.set_target(gen.quiet_pc(first))
                c.close(t.target.points, first, "projection/" + name,
                        "setting the reported target again", rtol=1e-6)
        elif op == "write":
            v = np.array(t.as_vector(), dtype=float)
            v = v + rng.randn(v.size) * np.maximum(np.abs(v), .5) * .1
            mine = v.copy()
            t._from_vector_inplace(v)
            c.close(np.array(t.as_vector()), mine, "write-params/" + name,
                    rtol=1e-12)
            state = t.target.points.copy()
            v *= 3.             # the caller's vector is the caller's
            c.close(np.array(t.as_vector()), mine, "vector-aliased/" + name,
                    "parameters after the caller changed the vector it passed",
                    rtol=1e-12)
            c.check(np.array_equal(state, t.target.points),
                    "vector-aliased-target/" + name)
        elif op == "compose":
            if t.n_parameters > 2 * fam.n:
                continue        # the tangent space is not a basis
            v = np.array(t.as_vector(), dtype=float)
            d = rng.randn(v.size) * (.02 if small else .5)
            if ng:
                d[:ng] *= [.02, .02, 1, 1] if ng == 4 else [.02] * 4 + [1, 1]
            mine = d.copy()
            t.compose_after_from_vector_inplace(d)
            c.check(np.array_equal(d, mine), "increment-mutated/" + name)
        elif op == "derive":
            t.d_dp(pts)
            # the pseudoinverse negates the parameters, of a copy
            v = np.array(t.as_vector(), dtype=float)
            old = t.target.points.copy()
            c.close(t.pseudoinverse_vector(v), -v, "pseudoinverse/" + name)
            # (OrthoMDTransform declines to build it)
            if which != "OrthoMD":
                u = t.pseudoinverse()
                c.check(type(u) is type(t) and not t.has_true_inverse,
                        "pseudoinverse-type/" + name)
                c.close(np.array(u.as_vector(), dtype=float), -v,
                        "pseudoinverse/" + name, rtol=1e-10)
                c.check(np.array_equal(old, t.target.points) and np.array_equal(
                    v, np.array(t.as_vector(), dtype=float)),
                    "pseudoinverse-mutates/" + name)
                if np.abs(u.target.points).max() < 1e5 and \
                        np.ptp(u.target.points, 0).min() > 1e-3:
                    _consistent(c, u, source, name, "pseudoinverse")
        elif op == "zero":
            if t.n_parameters > 2 * fam.n:
                continue
            v = np.array(t.as_vector(), dtype=float)
            before = t.target.points.copy()
            t.compose_after_from_vector_inplace(np.zeros(v.size))
            c.close(np.array(t.as_vector(), dtype=float), v,
                    "compose-zero/" + name, rtol=1e-9)
            c.close(t.target.points, before, "compose-zero-target/" + name,
                    rtol=1e-9)
        else:
            old = t.target.points.copy()
            vec = np.array(t.as_vector())
            u = t.copy()
            u.set_target(_pose(rng, fam))
            c.check(np.array_equal(t.target.points, old) and
                    np.array_equal(np.array(t.as_vector()), vec),
                    "copy-aliases/" + name, "moving a copy moved the original")
            _consistent(c, u, source, name, "copy+target")
        if np.abs(t.target.points).max() > 1e5:
            raise Skip()
        _consistent(c, t, source, name, "/".join(ops[-3:]))
    c.note(cls=which, warp=warp.__name__, n_points=fam.n, ops=ops,
           n_params=t.n_parameters)
    c.seen(name, fam.n, m.n_active_components, ops)


def first_order(c):
    rng = c.rng
    fam, t, m, source, ng, which, warp, small = _make(c)
    name = which + "/" + warp.__name__
    mean = m.model.mean().points
    if small and not np.allclose(source.points, mean):
        raise Skip()
    t.set_target(_pose(rng, fam))
    v = np.array(t.as_vector(), dtype=float)

    # the tangent space, measured: pose columns at the mean shape, shape
    # columns in the current pose; increments: shape columns in the rest pose
    def target(p):
        return m.from_vector(p).target.points
    v0 = v.copy()
    v0[ng:] = 0
    A = np.concatenate([fd(target, v0)[:, :ng], fd(target, v)[:, ng:]], 1)
    if v.size > 2 * fam.n or np.linalg.cond(A.swapaxes(1, 2).reshape(-1, v.size) /
                      np.linalg.norm(A, axis=(0, 2))) > 1e3:
        raise Skip()
    comps = np.array(m.model.components).reshape(
        m.n_active_components, -1, 2).swapaxes(0, 1)
    B = np.concatenate([A[:, :ng], comps], 1)
    if warp.__name__.endswith("PiecewiseAffine"):
        dx = np.tile(np.eye(2), (fam.n, 1, 1))
    else:
        dx = np.stack([(t.apply(mean + e) - t.apply(mean - e)) / 2e-6
                       for e in (np.array([1e-6, 0]), np.array([0, 1e-6]))], 2)
    delta = rng.randn(v.size)
    moved = np.einsum("idj,ipj,p->id", dx, B, delta)
    step = np.linalg.lstsq(A.swapaxes(1, 2).reshape(-1, v.size),
                           moved.ravel(), rcond=None)[0]
    J = np.array(t.Jp())
    c.close(J.dot(delta), step, "Jp/" + name, "Jp . increment", rtol=2e-3,
            scale=np.abs(step).max())
    u = t.copy()
    u.compose_after_from_vector_inplace(delta)
    c.close(np.array(u.as_vector()) - v, step, "compose/" + name,
            "parameters after composing", rtol=2e-3, scale=np.abs(step).max())
    c.event("tangent_projections")
    # an increment followed by its reported inverse: the error is second order
    errs = []
    sz = np.linalg.norm(v) + 1
    for e in (1e-3, 1e-4):
        u = t.copy()
        d = delta * e * (1 if small else 10)
        u.compose_after_from_vector_inplace(d)
        inv = np.array(u.pseudoinverse_vector(d))
        u.compose_after_from_vector_inplace(inv)
        errs.append(np.linalg.norm(np.array(u.as_vector()) - v))
    c.check(errs[1] <= .05 * errs[0] + 1e-9 * sz, "compose-inverse/" + name,
            "increment then inverse leaves %g, then %g at a tenth" % tuple(errs))
    c.check(np.array_equal(t.pseudoinverse_vector(delta), -delta),
            "inverse-vector/" + name, "inverse increment is not the negative")
    # in the rest pose of an unwarped model composition is addition
    if np.allclose(source.points, mean) and ng != 0:
        t.set_target(gen.quiet_pc(mean))
        r = np.array(t.as_vector(), dtype=float)
        t.compose_after_from_vector_inplace(delta * 1e-3)
        c.close(np.array(t.as_vector()) - r, delta * 1e-3, "compose-at-rest/" + name,
                "", rtol=2e-2)
    # observable: with no shape weights, the composed map is the composition
    if not warp.__name__.endswith("PiecewiseAffine"):
        t._from_vector_inplace(v0)
        rest = m.from_vector(v0)
        rest.set_target(gen.quiet_pc(mean))
        pr = np.array(rest.as_vector(), dtype=float)
        pr[ng:] = 0
        res = []
        for e in (1e-3, 1e-4):
            d = delta * e
            u = t.copy()
            u.compose_after_from_vector_inplace(d)
            inner = m.from_vector(pr + d).target.points   # mean under increment
            want = t.apply(inner)
            res.append(np.abs(u.target.points - want).max())
        if which != "MD":
            size = np.abs(want).max()
            c.check(res[1] <= .05 * res[0] + 1e-8 * size, "composition/" + name,
                    "composed target is off by %g, %g at a tenth" % tuple(res))
            c.event("observed_compositions")
    c.note(cls=which, warp=warp.__name__, n_points=fam.n, n_params=v.size)
    c.seen(name, fam.n, v)


def linear_dense(c):
    from menpofit.modelinstance import OrthoPDM
    from menpofit.transform import LinearOrthoMDTransform
    rng = c.rng
    n, d = rng.randint(5, 10), rng.randint(5, 30)
    fam = gen.ShapeFamily(rng, n + d)
    shapes = [fam.sample(rng) for _ in range(8)]
    m = OrthoPDM(shapes, max_n_components=int(rng.randint(1, 4)))
    sparse = gen.quiet_pc(m.model.mean().points[:n])
    t = LinearOrthoMDTransform(m.model, sparse)
    k = t.n_active_components
    # a dense shape the model expresses, seen through its landmarks only
    v = np.array(t.as_vector(), dtype=float)
    v[:4] *= rng.uniform(.5, 2)
    v[2:4] += rng.randn(2) * 20
    v[4:] = rng.randn(k) * np.sqrt(np.maximum(np.array(m.model.eigenvalues[:k]), 1e-9))
    full = t.from_vector(v)
    t.set_target(gen.quiet_pc(full.target.points[:n]))
    size = np.abs(full.target.points).max()
    c.close(t.target.points, full.target.points, "linear-densify",
            "dense shape recovered from its landmarks", rtol=1e-5, scale=size)
    c.close(t.sparse_target.points, full.target.points[:n], "linear-sparse",
            "", rtol=1e-5, scale=size)
    c.close(t.dense_target.points, full.target.points[n:], "linear-dense", "",
            rtol=1e-5, scale=size)
    c.check(t.n_landmarks == n and t.dense_target.n_points == d, "linear-counts")
    # an arbitrary target is projected, once
    q = gen.quiet_pc(full.target.points[:n] + rng.randn(n, 2))
    t.set_target(q)
    first = t.target.points.copy()
    W = np.vstack([np.array(t.similarity_model.components),
                   np.array(t.model.components)])
    coef = np.linalg.lstsq(W[:, :2 * n].T, q.points.ravel(), rcond=None)[0]
    dense = OrthoPDM(m.model)
    dense.set_target(gen.quiet_pc(coef.dot(W).reshape(-1, 2)))
    c.close(first, dense.target.points, "linear-projection",
            "least squares over the landmarks, then the shape model",
            rtol=1e-5, scale=size)
    t.set_target(gen.quiet_pc(first))
    c.close(t.target.points, first, "linear-full-target", rtol=1e-5, scale=size)
    c.close(t.apply(rng.randn(d, 2)), first[n:], "linear-apply", rtol=1e-5,
            scale=size)
    c.event("linear_states")
    c.note(n_sparse=n, n_dense=d, n_params=v.size)
    c.seen(n, d, v)


CASES = {"homogeneous": (homogeneous, 1200, 3000),
         "histories": (histories, 1440, 3000),
         "first_order": (first_order, 1440, 3000),
         "linear_dense": (linear_dense, 360, 600)}
REQUIRED = {"exact_compositions": 100, "warp_states": 500,
            "tangent_projections": 80, "observed_compositions": 20,
            "linear_states": 20}
