"""M02: spatial and landmark derivatives of warps."""
import numpy as np

from . import gen
from .core import Skip
from .m01_param_jacobians import _delaunay

ID = "M02"
RULE = ("random affine/similarity transforms (2D, 3D, alignments), radial "
        "kernels, piecewise affine warps (including irregular meshes and "
        "explicit triangulations) and thin plate splines, evaluated at random "
        "interior, edge, vertex and exterior points; distinct when class, "
        "size and landmarks differ")
ASSUMPTIONS = ["central differences in double precision are taken as the "
               "derivative"]


def fd_x(fun, pts, eps=1e-5):
    """(n, d_in, d_out): derivative of output wrt each input coordinate."""
    out = []
    for k in range(pts.shape[1]):
        a, b = pts.copy(), pts.copy()
        a[:, k] += eps
        b[:, k] -= eps
        out.append((fun(a) - fun(b)) / (2 * eps))
    return np.stack(out, axis=1)


def homogeneous(c):
    from menpofit.transform import (DifferentiableAffine,
                                    DifferentiableSimilarity,
                                    DifferentiableAlignmentAffine,
                                    DifferentiableAlignmentSimilarity)
    rng = c.rng
    which = ["affine", "similarity", "align_affine",
             "align_similarity"][c.index % 4]
    dims = 3 if rng.rand() < .4 else 2
    n = rng.randint(1, 10)
    pts = rng.randn(n, dims) * rng.choice([1, 30])
    src = rng.randn(dims + 4, dims) * 20
    r = np.linalg.qr(rng.randn(dims, dims))[0]
    if np.linalg.det(r) < 0:
        r[0] *= -1
    if which == "affine":
        h = np.eye(dims + 1)
        h[:dims] += rng.randn(dims, dims + 1) * rng.choice([.3, 3])
        t = DifferentiableAffine(h)
    elif which == "similarity":
        h = np.eye(dims + 1)
        h[:dims, :dims] = rng.uniform(.2, 4) * r
        h[:dims, -1] = rng.randn(dims) * 10
        t = DifferentiableSimilarity(h)
    elif which == "align_affine":
        t = DifferentiableAlignmentAffine(
            gen.quiet_pc(src), gen.quiet_pc(
                src.dot(np.eye(dims) + rng.randn(dims, dims)) + rng.randn(*src.shape)))
    else:
        t = DifferentiableAlignmentSimilarity(
            gen.quiet_pc(src), gen.quiet_pc(
                rng.uniform(.3, 3) * src.dot(r.T) + rng.randn(*src.shape)))
    if which.startswith("align") and rng.rand() < .5:
        t = t.as_non_alignment()
        c.check(hasattr(t, "d_dx") and hasattr(t, "d_dp"), "non-alignment",
                "as_non_alignment is not differentiable")
    c.note(cls=type(t).__name__, dims=dims, h=t.h_matrix)
    ref = fd_x(t.apply, pts, 1e-3)           # linear: exact at any step
    got = np.array(t.d_dx(pts))
    before = pts.copy()
    # reported as (n, d_out, d_in) or broadcast over points
    c.check(got.shape in ((1, dims, dims), (n, dims, dims)), "d_dx-shape",
            "shape {}".format(got.shape))
    c.close(np.broadcast_to(got, (n, dims, dims)), ref.swapaxes(1, 2),
            "d_dx/" + which, "d_dx", rtol=1e-6, atol=1e-7)
    # the answer belongs to the current state
    if not type(t).__name__.endswith("Similarity") or dims == 2:
        v = t.as_vector()
        t2 = t.from_vector(v * rng.uniform(.5, 1.5, v.size))
        c.close(np.broadcast_to(t2.d_dx(pts), (n, dims, dims)),
                fd_x(t2.apply, pts, 1e-3).swapaxes(1, 2),
                "d_dx-updated/" + which, "d_dx after an update", rtol=1e-6,
                atol=1e-7)
        c.close(np.broadcast_to(t.d_dx(pts), (n, dims, dims)),
                ref.swapaxes(1, 2), "d_dx-original/" + which,
                "d_dx of the original after a copy changed", rtol=1e-6,
                atol=1e-7)
    c.check(np.array_equal(pts, before), "d_dx-mutates")
    c.event("affine_spatial")
    c.seen(which, dims, n, t.h_matrix)


def kernels(c):
    from menpofit.transform import rbf
    rng = c.rng
    cls = [rbf.DifferentiableR2LogRRBF, rbf.DifferentiableR2LogR2RBF][c.index % 2]
    n, m = rng.randint(1, 10), rng.randint(1, 12)
    s = rng.choice([.3, 1, 20])
    cen = rng.randn(n, 2) * s
    pts = rng.randn(m, 2) * s
    k = cls(cen)
    d = np.linalg.norm(pts[:, None] - cen[None], axis=2)
    if d.min() < 1e-2 * s:
        raise Skip()
    got = np.array(k.d_dl(pts))
    c.note(cls=cls.__name__, n_centres=n, n_points=m)
    # value: the kernel the name says
    val = d ** 2 * (np.log(d) if c.index % 2 == 0 else np.log(d ** 2))
    c.close(k.apply(pts), val, "rbf-value/" + cls.__name__, rtol=1e-9)
    ref = fd_x(k.apply, pts, 1e-5 * s)          # (m, 2, n)
    if c.check(got.shape == (m, n, 2), "rbf-shape/" + cls.__name__,
               "shape {}".format(got.shape)):
        c.close(got, ref.swapaxes(1, 2), "rbf-d/" + cls.__name__, "d_dl",
                rtol=1e-5, atol=1e-6 * s)
    # smooth through its own centre, where the derivative vanishes
    at = np.array(k.d_dl(cen))
    c.check(np.all(np.isfinite(at)) and
            np.allclose(at[np.arange(n), np.arange(n)], 0),
            "rbf-centre/" + cls.__name__, "derivative at a centre")
    c.event("kernel_derivatives")
    c.seen(cls.__name__, n, m, cen)


def pwa(c):
    from menpo.shape import TriMesh
    from menpofit.transform import DifferentiablePiecewiseAffine
    rng = c.rng
    n = rng.randint(3, 16)
    src = gen.spread_points(rng, n, 60, 50)
    tl = _delaunay(gen.quiet_pc(src))
    tl = np.array([np.roll(t, rng.randint(3)) for t in tl])   # any vertex order
    order = rng.permutation(len(tl))
    tl = tl[order]
    area = np.array([abs(np.linalg.det(np.c_[src[t[1]] - src[t[0]],
                                             src[t[2]] - src[t[0]]])) for t in tl])
    explicit = bool(c.index % 2)
    source = TriMesh(src, trilist=tl) if explicit else gen.quiet_pc(src)
    tgt = src + rng.randn(n, 2) * 3 + rng.randn(2) * 50
    t = DifferentiablePiecewiseAffine(source, gen.quiet_pc(tgt))
    tl = np.array(t.trilist)
    area = np.array([abs(np.linalg.det(np.c_[src[q[1]] - src[q[0]],
                                             src[q[2]] - src[q[0]]])) for q in tl])
    ok = np.where(area > 5)[0]
    if len(ok) == 0:
        raise Skip()
    m = rng.randint(1, 15)
    tri = ok[rng.randint(0, len(ok), m)]
    b = rng.dirichlet([1.5] * 3, m)
    if np.min(b) < 1e-6:
        raise Skip()
    pts = np.einsum("nk,nkd->nd", b, src[tl[tri]])
    before = pts.copy()
    jac = np.array(t.d_dl(pts))
    c.note(n_landmarks=n, n_points=m, explicit=explicit)
    if not c.check(jac.shape == (m, n, 2), "pwa-shape",
                   "shape {}".format(jac.shape)):
        return
    want = np.zeros((m, n))
    for i in range(m):
        want[i, tl[tri[i]]] += b[i]
    c.close(jac[..., 0], want, "pwa-barycentric", "weights (rows)", rtol=0,
            atol=1e-7)
    c.close(jac[..., 1], want, "pwa-barycentric", "weights (columns)", rtol=0,
            atol=1e-7)
    c.check(jac.min() > -1e-8 and np.allclose(jac.sum(1), 1, atol=1e-7),
            "pwa-partition", "weights do not form a partition of unity")
    # derivative of the warp with respect to each target landmark
    k = rng.randint(n)
    d = np.zeros((n, 2))
    d[k] = rng.randn(2)
    plus = DifferentiablePiecewiseAffine(source, gen.quiet_pc(tgt + d))
    num = plus.apply(pts) - t.apply(pts)
    c.close(jac[:, k] * d[k], num, "pwa-landmark", "moving landmark %d" % k,
            atol=1e-7)
    # the derivative does not depend on the target
    t.set_target(gen.quiet_pc(tgt + rng.randn(n, 2)))
    c.close(t.d_dl(pts), jac, "pwa-target-independent", "", atol=1e-9)
    # by convention the identity
    dx = np.array(t.d_dx(src))
    c.check(dx.shape[1:] == (2, 2) and np.allclose(dx, np.eye(2)), "pwa-d_dx",
            "d_dx is not the identity")
    c.check(np.array_equal(pts, before), "pwa-mutates")
    # landmarks themselves: each one only depends on itself
    lm = np.array(t.d_dl(src))
    c.close(lm[..., 0], np.eye(n), "pwa-vertices", "at the landmarks",
            rtol=0, atol=1e-7)
    c.event("pwa_derivatives")
    c.seen(n, m, explicit, src)


def tps(c):
    from menpofit.transform import DifferentiableThinPlateSplines
    from menpofit.transform.rbf import DifferentiableR2LogRRBF
    rng = c.rng
    n = rng.randint(4, 14)
    # from the unit square to frames of hundreds of pixels, off the origin
    size = float([1., 6., 50., 120., 400.][rng.randint(5)])
    unit = size / 6
    src = gen.spread_points(rng, n, size, size * .9) + rng.uniform(
        -1, 1, 2) * size
    tgt = (src * rng.uniform(.5, 2) + rng.randn(n, 2) * .4 * unit +
           rng.randn(2) * 5 * unit)
    custom = c.index % 3 == 2
    kernel = DifferentiableR2LogRRBF(src.copy()) if custom else None
    t = DifferentiableThinPlateSplines(gen.quiet_pc(src), gen.quiet_pc(tgt),
                                       kernel=kernel)
    m = rng.randint(1, 10)
    lo, hi = src.min(0), src.max(0)
    pts = lo + rng.uniform(-.15, 1.15, (m, 2)) * (hi - lo)
    if np.linalg.norm(pts[:, None] - src[None], axis=2).min() < 2e-3 * size:
        raise Skip()
    before = pts.copy()
    c.note(n_landmarks=n, n_points=m, kernel=type(t.kernel).__name__)
    got = np.array(t.d_dx(pts))
    ref = fd_x(t.apply, pts, 1e-5 * unit)        # (m, in, out)
    if c.check(got.shape == (m, 2, 2), "tps-shape", "shape {}".format(got.shape)):
        c.close(got, ref.swapaxes(1, 2), "tps-d_dx", "d_dx", rtol=2e-5,
                atol=1e-6)
    jac = np.array(t.d_dl(pts))
    if c.check(jac.shape == (m, n, 2), "tps-dl-shape"):
        ref = np.zeros((m, n, 2))
        for k in range(n):
            d = np.zeros((n, 2))
            d[k] = 1
            plus = DifferentiableThinPlateSplines(
                gen.quiet_pc(src), gen.quiet_pc(tgt + d), kernel=kernel)
            ref[:, k] = plus.apply(pts) - t.apply(pts)
        c.close(jac, ref, "tps-d_dl", "moving each landmark", rtol=1e-5,
                atol=1e-6)
    at = np.array(t.d_dx(src))
    c.close(at, fd_x(t.apply, src, 1e-6 * unit).swapaxes(1, 2), "tps-d_dx-landmarks",
            "d_dx at the landmarks", rtol=2e-4, atol=1e-4)
    # follows the target
    t.set_target(gen.quiet_pc(tgt + rng.randn(n, 2) * .3 * unit))
    c.close(np.array(t.d_dx(pts)), fd_x(t.apply, pts, 1e-5 * unit).swapaxes(1, 2),
            "tps-d_dx-updated", "after a new target", rtol=2e-5, atol=1e-6)
    # the spline interpolates its landmarks and reproduces affine warps
    c.close(t.apply(src), t.target.points, "tps-interpolates",
            "the source landmarks", rtol=1e-7, atol=1e-6 * unit)
    A, b = np.eye(2) + rng.uniform(-.4, .4, (2, 2)), rng.randn(2) * size
    flat = DifferentiableThinPlateSplines(
        gen.quiet_pc(src), gen.quiet_pc(src.dot(A.T) + b), kernel=kernel)
    c.close(flat.apply(pts), pts.dot(A.T) + b, "tps-affine",
            "an affine warp", rtol=1e-7, atol=1e-6 * unit)
    c.check(np.array_equal(pts, before), "tps-mutates")
    c.event("tps_derivatives")
    c.seen(n, m, src)


CASES = {"homogeneous": (homogeneous, 1200, 3000), "kernels": (kernels, 900, 2500),
         "pwa": (pwa, 1200, 3000), "tps": (tps, 900, 2500)}
REQUIRED = {"affine_spatial": 100, "kernel_derivatives": 50,
            "pwa_derivatives": 80, "tps_derivatives": 50}
