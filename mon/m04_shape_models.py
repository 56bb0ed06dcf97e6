"""M04: shape models are orthonormal parameterisations of shapes."""
import numpy as np

from . import gen
from .core import Skip
from .m01_param_jacobians import _pose

ID = "M04"
RULE = ("shape models of every class trained on random shape families with "
        "random truncations, driven through random sequences of set_target / "
        "parameter writes / truncation / increments / copies; after every "
        "step the target is recomputed in numpy from the reported mean, "
        "components, weights and global transform; distinct when class, "
        "size, truncation and operation sequence differ")
ASSUMPTIONS = ["menpo's PCA is trusted for the decomposition itself; the "
               "generalised Procrustes alignment of the training shapes is "
               "the library's own"]

CLS = ["PDM", "GlobalPDM-sim", "GlobalPDM-aff", "OrthoPDM", "OrthoPDM"]


def make(rng, which, shapes, k):
    from menpofit.modelinstance import PDM, GlobalPDM, OrthoPDM
    from menpofit.transform import (DifferentiableAlignmentSimilarity,
                                    DifferentiableAlignmentAffine)
    if which == "PDM":
        return PDM(shapes, max_n_components=k)
    if which == "OrthoPDM":
        return OrthoPDM(shapes, max_n_components=k)
    g = (DifferentiableAlignmentSimilarity if which.endswith("sim")
         else DifferentiableAlignmentAffine)
    return GlobalPDM(shapes, g, max_n_components=k)


def Q_of(mean, x):
    """The part of x which similarities of the mean explain."""
    q = sim_basis(mean)
    return q.dot(q.T.dot(x)) if q.shape[0] == x.size else q.T.dot(q.dot(x))


def sim_basis(mean):
    """Orthonormal basis of all similarities of the mean."""
    a = np.stack([mean.ravel(),
                  np.stack([-mean[:, 1], mean[:, 0]], 1).ravel(),
                  np.tile([1., 0.], len(mean)), np.tile([0., 1.], len(mean))])
    q, r = np.linalg.qr(a.T)
    return q.T


def procrustes(src, tgt):
    """Least squares similarity src -> tgt (linear in a, b, t): 3x3 matrix."""
    B = np.zeros((2 * len(src), 4))
    B[0::2, 0], B[1::2, 0] = src[:, 0], src[:, 1]
    B[0::2, 1], B[1::2, 1] = -src[:, 1], src[:, 0]
    B[0::2, 2] = 1
    B[1::2, 3] = 1
    a, b, t0, t1 = np.linalg.lstsq(B, tgt.ravel(), rcond=None)[0]
    return np.array([[a, -b, t0], [b, a, t1], [0, 0, 1.]])


def happly(h, p):
    return p.dot(h[:2, :2].T) + h[:2, 2]


def invariants(c, m, which, step):
    mean = np.array(m.model.mean().points)
    comps = np.array(m.model.components)
    w = np.array(m.weights, dtype=float)
    v = np.array(m.as_vector(), dtype=float)
    tgt = m.target.points
    size = np.abs(tgt).max() + 1
    k = m.n_active_components
    ng = 0 if which == "PDM" else (6 if which.endswith("aff") else 4)
    c.check(m.n_weights == k and
            comps.shape[0] == k == w.size and v.size == ng + k and
            m.n_parameters == v.size, "counts/" + which,
            "{} active, {} weights, {} parameters after {}".format(
                k, w.size, v.size, step))
    if comps.shape[0] != w.size:
        return
    inst = mean + w.dot(comps).reshape(-1, 2)
    if which == "PDM":
        want = inst
        c.close(v, w, "vector/" + which, step)
    else:
        g = np.array(m.global_parameters, dtype=float)
        c.check(g.size == ng == m.n_global_parameters, "global-count/" + which)
        c.close(v, np.r_[g, w], "vector/" + which, "after " + step)
        if which == "OrthoPDM":
            S = np.array(m.similarity_model.components)
            posed = mean + g.dot(S).reshape(-1, 2)
            # the similarity basis is linear: instance = mean + weights . basis
            c.close(m.similarity_model.instance(g).points, posed,
                    "similarity-instance/" + which, "after " + step, rtol=1e-7)
            h = procrustes(mean, posed)
            sim = m.similarity_model
            n0 = sim.n_components
            c.check(n0 == 4, "similarity-count")
            c.close(sim.project(gen.quiet_pc(posed)), g,
                    "similarity-project", "after " + step, rtol=1e-6,
                    atol=1e-6 * size)
            shape = tgt.ravel()
            part = Q_of(mean, shape - mean.ravel())
            c.close(sim.reconstruct(gen.quiet_pc(tgt)).points.ravel(),
                    mean.ravel() + part, "similarity-reconstruct",
                    "after " + step, rtol=1e-6, scale=size)
            c.close(sim.project_out(gen.quiet_pc(tgt)).points.ravel(),
                    shape - mean.ravel() - part, "similarity-project-out",
                    "after " + step, rtol=1e-6, scale=size)
            j = len(step) % 4
            e = np.zeros(4)
            e[j] = 1.
            c.close(sim.component(j).points, mean + e.dot(S).reshape(-1, 2),
                    "similarity-component", "after " + step, rtol=1e-6,
                    scale=size)
        elif ng == 4:
            h = np.array([[1 + g[0], -g[1], g[2]], [g[1], 1 + g[0], g[3]],
                          [0, 0, 1.]])
        else:
            h = np.array([[1 + g[0], g[2], g[4]], [g[1], 1 + g[3], g[5]],
                          [0, 0, 1.]])
        want = happly(h, inst)
    c.close(tgt, want, "target/" + which, "target is the instance after " + step,
            rtol=1e-6, scale=size)
    # orthonormality
    c.close(comps.dot(comps.T), np.eye(k), "components-orthonormal/" + which,
            "after " + step, rtol=0, atol=1e-7)
    if which == "OrthoPDM":
        S = np.array(m.similarity_model.components)
        W = np.vstack([S, comps])
        c.close(W.dot(W.T), np.eye(4 + k), "basis-orthonormal", "after " + step,
                rtol=0, atol=1e-7)
        Q = sim_basis(mean)
        c.close(S.T.dot(S), Q.T.dot(Q), "similarity-span", "after " + step,
                rtol=0, atol=1e-7)
    c.event("states_checked")


def written(c, m, which, v, step):
    """Writes v, everything must read back."""
    u = m.from_vector(v)
    c.close(np.array(u.as_vector(), dtype=float), v, "round-trip/" + which, step,
            rtol=1e-9)
    invariants(c, u, which, step)
    return u


def creep(c, rng, m, which, step):
    """However small a change of a parameter is, it reads back and shows, also
    when it is written into the model itself rather than a copy."""
    u = m.copy() if rng.rand() < .5 else m
    v = np.array(u.as_vector(), dtype=float)
    i = int(rng.randint(v.size))
    d = 10. ** rng.uniform(-9, 0) * max(abs(v[i]), 1e-3) * [-1, 1][rng.randint(2)]
    before = u.target.points.copy()
    v[i] += d
    u._from_vector_inplace(v.copy())
    c.close(np.array(u.as_vector(), dtype=float), v, "small-step/" + which,
            "%s: a step of %g in parameter %d" % (step, d, i), rtol=1e-14,
            atol=abs(d) * 1e-3)
    w = v.copy()
    w[i] -= d
    fresh = m.from_vector(v)
    c.close(u.target.points - before, fresh.target.points -
            m.from_vector(w).target.points, "small-step-target/" + which,
            step, rtol=1e-3, atol=1e-9 * (np.abs(before).max() + 1))
    c.event("small steps")


def set_target(c, rng, m, which, fam, step):
    tgt = _pose(rng, fam)
    if which == "OrthoPDM" or which == "PDM":
        tgt = gen.perturb(rng, tgt, noise=float(rng.choice([0, 2])))
    given = tgt.points.copy()
    before = m.copy()
    m.set_target(tgt)
    c.check(np.array_equal(tgt.points, given), "target-mutated/" + which)
    invariants(c, m, which, step)
    out = m.target.points.copy()
    size = np.abs(out).max() + 1
    mean = np.array(m.model.mean().points)
    comps = np.array(m.model.components)
    # the projection does not depend on the state before it
    fresh = before.from_vector(np.array(before.as_vector()) * 0.5)
    fresh.set_target(gen.quiet_pc(given))
    c.close(fresh.target.points, out, "projection-history/" + which, step,
            rtol=1e-6, scale=size)
    res = (given - out).ravel()
    if which == "PDM":
        c.check(np.abs(comps.dot(res)).max() < 1e-6 * size * 10,
                "nearest/" + which, "residual not orthogonal to the components")
    elif which == "OrthoPDM":
        h = procrustes(mean, given)
        sc = np.sqrt(abs(np.linalg.det(h[:2, :2])))
        R = h[:2, :2] / sc
        rc = np.einsum("ij,knj->kni", R, comps.reshape(len(comps), -1, 2))
        dots = np.r_[rc.reshape(len(comps), -1).dot(res), sim_basis(mean).dot(res)]
        c.check(np.abs(dots).max() < 1e-6 * size * 10, "nearest/" + which,
                "residual has a component %g inside the model" % np.abs(dots).max())
        c.event("nearest_checked")
    if which in ("PDM", "OrthoPDM"):
        m.set_target(gen.quiet_pc(out))
        c.close(m.target.points, out, "idempotent/" + which, step, rtol=1e-6,
                scale=size)
    # a target the model can express
    v = np.array(m.as_vector(), dtype=float)
    k = m.n_active_components
    v[-k:] = rng.randn(k) * np.sqrt(np.maximum(m.model.eigenvalues[:k], 1e-8))
    if which.startswith("Global"):
        v[-k:] = 0
    expr = m.from_vector(v)
    want = expr.target.points.copy()
    m.set_target(gen.quiet_pc(want))
    c.close(m.target.points, want, "expressible/" + which, step, rtol=1e-6,
            scale=np.abs(want).max())
    if which != "GlobalPDM-sim" or True:
        c.close(np.array(m.as_vector(), dtype=float), v,
                "expressible-params/" + which, step, rtol=1e-5,
                atol=1e-5 * size)
    invariants(c, m, which, step)
    c.event("projections")


def histories(c):
    from menpofit.builder import align_shapes
    rng = c.rng
    which = CLS[c.index % len(CLS)]
    n_points = rng.randint(4, 16)
    fam = gen.ShapeFamily(rng, n_points, 60., 48.,
                          mode_std=float(rng.choice([.02, .06])),
                          kind=["points", "trimesh", "graph"][rng.randint(3)])
    shapes = [fam.sample(rng, angle=.3) for _ in range(rng.randint(6, 12))]
    kept = [s.points.copy() for s in shapes]
    k = [None, 1, 2, 3, 4][rng.randint(5)]
    m = make(rng, which, shapes, k)
    c.check(all(np.array_equal(a, s.points) for a, s in zip(kept, shapes)),
            "training-mutated/" + which, "training shapes changed")
    if k is not None:
        c.check(m.n_active_components <= k and (
            which == "OrthoPDM" or m.n_active_components == k),
            "max-components/" + which, "%d kept of %d requested" %
            (m.n_active_components, k))
    # the model of the aligned shapes
    al = np.stack([s.points.ravel() for s in align_shapes(shapes)])
    mu = al.mean(0)
    c.close(m.model.mean().points.ravel(), mu, "mean/" + which,
            "mean of the aligned shapes", rtol=1e-7)
    if which != "OrthoPDM":
        U, s, Vt = np.linalg.svd(al - mu, full_matrices=False)
        ev = s ** 2 / (len(al) - 1)
        kk = m.n_active_components
        c.close(m.model.eigenvalues[:kk], ev[:kk], "eigenvalues/" + which,
                rtol=1e-6)
        gap = np.all(np.abs(np.diff(ev[:kk + 1])) > 1e-3 * ev[0])
        if gap and kk < len(ev):
            P = np.array(m.model.components)
            c.close(P.T.dot(P), Vt[:kk].T.dot(Vt[:kk]), "subspace/" + which,
                    rtol=0, atol=1e-5)
    c.close(m.target.points.ravel(), mu, "initial-target/" + which,
            "a new model shows its mean", rtol=1e-6, scale=np.abs(mu).max())
    c.check(type(m.target) is type(shapes[0]), "target-class/" + which,
            "target is a %s" % type(m.target).__name__)
    invariants(c, m, which, "construction")
    ops = []
    for _ in range(5):
        op = ["target", "write", "truncate", "copy", "increment", "creep"][
            rng.randint(6)]
        if op == "increment" and rng.rand() < .5:
            op = "target"
        ops.append(op)
        step = "/".join(ops)
        if op == "target":
            set_target(c, rng, m, which, fam, step)
        elif op == "write":
            v = np.array(m.as_vector(), dtype=float)
            v = v + rng.randn(v.size) * np.maximum(np.abs(v), .5) * .2
            m = written(c, m, which, v, step)
        elif op == "creep":
            creep(c, rng, m, which, step)
        elif op == "truncate":
            n = int(rng.randint(1, m.model.n_components + 1))
            tgt = m.target.points.copy()
            m.n_active_components = n
            c.check(m.n_active_components == n, "truncate/" + which,
                    "asked for %d, got %d" % (n, m.n_active_components))
            invariants(c, m, which, step)
            if which in ("PDM", "OrthoPDM"):
                again = m.copy()
                again.set_target(gen.quiet_pc(tgt))
                c.close(again.target.points, m.target.points,
                        "truncate-target/" + which, step, rtol=1e-6,
                        scale=np.abs(tgt).max())
            c.event("truncations")
        elif op == "copy":
            old, vec = m.target.points.copy(), np.array(m.as_vector())
            u = m.copy()
            u.set_target(_pose(rng, fam))
            if u.model.n_components > 1:
                u.n_active_components = 1
            c.check(np.array_equal(m.target.points, old) and
                    np.array_equal(np.array(m.as_vector()), vec),
                    "copy-aliases/" + which, "moving a copy moved the original")
            invariants(c, u, which, step)
        else:
            new = [fam.sample(rng, angle=.3) for _ in range(rng.randint(3, 6))]
            kept = [s.points.copy() for s in new]
            lim = [None, 2][rng.randint(2)]
            m.increment(new, max_n_components=lim)
            c.check(all(np.array_equal(a, s.points) for a, s in zip(kept, new)),
                    "increment-mutated/" + which)
            invariants(c, m, which, step)
            c.event("increments")
    c.note(cls=which, n_points=n_points, ops=ops, kept=m.n_active_components)
    c.seen(which, n_points, k, ops)


def variance(c):
    """Fractional component requests keep the smallest sufficient number."""
    rng = c.rng
    which = CLS[c.index % 4]
    fam = gen.ShapeFamily(rng, rng.randint(6, 14), 60., 48.)
    shapes = [fam.sample(rng) for _ in range(8)]
    m = make(rng, which, shapes, None)
    ev = np.array(m.model.eigenvalues)
    tot = ev.sum()
    r = float(rng.uniform(.3, .98))
    cum = np.cumsum(ev) / tot
    if np.min(np.abs(cum - r)) < 1e-3:
        raise Skip()
    k = int(np.sum(cum < r)) + 1
    m.n_active_components = r
    c.check(m.n_active_components == k, "variance-ratio/" + which,
            "ratio %.3f kept %d, expected %d" % (r, m.n_active_components, k))
    invariants(c, m, which, "ratio")
    m2 = make(rng, which, shapes, r)
    if which != "OrthoPDM":
        c.check(m2.n_active_components == k, "trim-ratio/" + which)
    invariants(c, m2, which, "trim")
    c.note(cls=which, ratio=r, kept=k)
    c.event("ratios")
    c.seen(which, fam.n, round(r, 3))


CASES = {"histories": (histories, 1800, 4000), "variance": (variance, 360, 600)}
REQUIRED = {"states_checked": 500, "projections": 80, "nearest_checked": 30,
            "truncations": 40, "increments": 15, "ratios": 30,
            "small steps": 200}
