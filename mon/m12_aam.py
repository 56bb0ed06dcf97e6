"""M12: active appearance model fitting minimises the reported residual."""
from copy import deepcopy

import numpy as np

from menpo.image import Image
from menpo.shape import PointCloud

from . import gen, zoo
from .m11_lk import Texture
from .core import Skip

ID = "M12"
RULE = ("images rendered analytically as combinations of textures under drawn "
        "affine warps; appearance models of every kind trained on some and "
        "fitted to others by every algorithm, with maximum likelihood and a "
        "posteriori inference and sampled pixels; every cost, reconstruction, "
        "warped image and update recomputed from the reported parameters; "
        "distinct when model, algorithm, inference, sampling, channels, "
        "scales or components differ")
ASSUMPTIONS = ["the model driven transforms and their derivatives hold "
               "(properties M01 to M04)", "menpo's PCA, warping, patch "
               "extraction and image gradient are trusted",
               "displacements of up to 2 pixels lie in the basins of "
               "attraction of textures with wavelengths above 16 pixels",
               "recovery is judged against the accuracy of the sampling: "
               "a fraction of a pixel of the coarsest representation"]


def world(rng, n, channels=None, stretch=.08, turn=.2, modes=2, grow=.08,
          size=None,
          weights=.35, shape=None, k=None):
    """Images of one textured object, each under an affine warp of its own."""
    channels = channels or int(rng.choice([1, 1, 2]))
    h, w = size or (int(rng.randint(44, 60)), int(rng.randint(44, 60)))
    k = k or int(rng.randint(6, 10))
    s0 = gen.spread_points(rng, k, h, w)
    s0 = s0 - s0.mean(0)
    tex = [Texture(rng, channels, n=9) for _ in range(modes + 1)]
    H, W = shape or (int(rng.randint(104, 124)), int(rng.randint(104, 124)))
    grid = np.stack(np.meshgrid(np.arange(H), np.arange(W), indexing="ij"),
                    -1).astype(float)
    images = []
    for _ in range(n):
        A = (1 + rng.uniform(-grow, grow)) * gen.rot(rng.uniform(-turn, turn))
        A = A.dot(np.eye(2) + rng.uniform(-stretch, stretch, (2, 2)))
        t = np.array([H, W]) / 2. + rng.uniform(-4, 4, 2)
        x = (grid - t).dot(np.linalg.inv(A).T)
        px = tex[0](x)
        for m in tex[1:]:
            px = px + weights * rng.randn() * (m(x) - .5)
        im = Image(px)
        im.landmarks["PTS"] = PointCloud(s0.dot(A.T) + t)
        images.append(im)
    return images


def far(a, b):
    return float(np.abs(a.points - b.points).max())


def start(rng, gt, amount):
    x0 = gen.perturb(rng, gt, scale=.02, angle=.02, shift=1.)
    d = x0.points - gt.points
    return PointCloud(gt.points + d * (amount / np.abs(d).max()))


def train(rng, kind, ims, scales, diagonal=None, n_app=None, n_shape=None,
          **kw):
    import menpofit.aam as aam
    kw = dict(dict(group="PTS", scales=scales, diagonal=diagonal,
                   max_shape_components=n_shape,
                   max_appearance_components=n_app), **kw)
    if kind in ("MaskedAAM", "LinearMaskedAAM"):
        kw.setdefault("patch_shape", (13, 13))
    if kind == "PatchAAM":
        kw.setdefault("patch_shape", (15, 15))
    return getattr(aam, kind)(ims, **kw)


KINDS = ["HolisticAAM", "PatchAAM", "LinearAAM", "MaskedAAM",
         "LinearMaskedAAM"]


def case_recover(c):
    import menpofit.aam as aam
    rng = c.rng
    kind = KINDS[c.index % 5]
    alg = zoo.AAM_ALGS[(c.index // 5) % 10]
    scales = [(1.,), (.5, 1.), (.7, 1.)][rng.randint(3)]
    diagonal = [None, None, 60, 80][rng.randint(4)]
    # (patches are not warped: they vary with the rotation of the object)
    fixed = alg == "ProjectOutInverseCompositional"
    opts = dict(weights=.1) if fixed else {}
    if kind == "PatchAAM":
        opts.update(turn=.02, stretch=.025, grow=.02)
    ims = world(rng, 13, **opts)
    # the last images are fitted; the models keep what explains the others
    model = train(rng, kind, ims[:10], scales, diagonal, n_app=6, n_shape=4)
    f = aam.LucasKanadeAAMFitter(model, lk_algorithm_cls=getattr(aam, alg))
    unit = max(1., 1. / (np.linalg.norm(model.reference_shape.range()) /
                         np.linalg.norm(ims[0].landmarks["PTS"].range()) *
                         scales[-1]))
    worst = []
    for im in ims[10:]:
        gt = im.landmarks["PTS"]
        x0 = start(rng, gt, rng.uniform(1.5, 2.5))
        r = f.fit_from_shape(im, x0, gt_shape=gt, return_costs=True,
                             max_iters=[40] * len(scales))
        e = np.sqrt(((r.final_shape.points - gt.points) ** 2).sum(1)).mean()
        e0 = np.sqrt(((x0.points - gt.points) ** 2).sum(1)).mean()
        worst.append((e / unit, e0 / unit))
    c.note(kind=kind, alg=alg, scales=scales, diagonal=diagonal,
           errors=worst, channels=ims[0].n_channels)
    c.seen(kind, alg, len(scales), diagonal, ims[0].n_channels)
    # (patches are extracted at whole pixels)
    tol = .9 if kind == "PatchAAM" else .15
    med = float((np.min if fixed else np.median)([w[0] for w in worst]))
    c.check(med < tol, "recover/%s/%s" % (kind, alg),
            "error %.3f pixels, from %s" % (
                med, ["%.2f" % w[1] for w in worst]))
    words = "".join(w for w in str(f.algorithms[0]).split() if w[0].isupper())
    c.check(words.replace("-", "").replace("Algorithm", "") == alg,
            "named", "%s calls itself %s" % (alg, f.algorithms[0]))
    c.event("recoveries", len(worst))


def view(alg, kind, image, p, patch_shape):
    """The warped image of parameters p, as a vector of its sampled pixels."""
    t = deepcopy(alg.transform)
    t._from_vector_inplace(np.array(p))
    if kind == "PatchAAM":
        px = image.extract_patches(t.target, patch_shape=patch_shape,
                                   as_single_array=True)
        return t, Image(px, copy=False)
    return t, image.warp_to_mask(alg.template.mask, t, warp_landmarks=False)


def slope(kind, im):
    """d (sampled pixel) / d (row, column): 2 x pixels."""
    from menpo.feature import gradient
    if kind == "PatchAAM":
        px = im.pixels
        g = np.stack(np.gradient(px, axis=(-2, -1)))
        return g.reshape(2, -1)
    g = gradient(im).set_boundary_pixels()
    return g.as_vector().reshape(2, -1)


def spread(kind, im, per_point, patch_shape=None):
    """Repeat what belongs to points over the pixels of the vector."""
    if kind == "PatchAAM":
        n, o, ch = im.pixels.shape[:3]
        k = o * ch * patch_shape[0] * patch_shape[1]
        return np.repeat(per_point, k, axis=0)
    return np.tile(per_point, (im.n_channels,) + (1,) * (per_point.ndim - 1))


def draw_sampling(rng, kind, template, patch_shape):
    """(what is asked, which entries of the vector it selects)"""
    v = template.as_vector()
    mode = rng.randint(4)
    if mode < 2:
        return None, np.ones(v.size, dtype=bool)
    n = (int(np.prod(patch_shape)) if kind == "PatchAAM"
         else template.n_true_pixels())
    if mode == 2:
        step = int(rng.randint(2, 5))
        one = np.zeros(n, dtype=bool)
        one[::step] = True
        return step, np.tile(one, v.size // n)
    one = rng.rand(n) < .6
    want = np.tile(one, v.size // n)
    return (one.reshape(patch_shape) if kind == "PatchAAM" else one), want


def case_trace(c):
    """Costs, reconstructions, warped images and updates are recomputed."""
    import menpofit.aam as aam
    rng = c.rng
    kind = KINDS[c.index % 5]
    name = zoo.AAM_ALGS[(c.index // 5) % 10]
    use_map = bool(rng.rand() < .4)
    ims = world(rng, 9)
    ps = (11, 9)
    kw = dict(patch_shape=ps) if kind in ("MaskedAAM", "LinearMaskedAAM",
                                          "PatchAAM") else {}
    model = train(rng, kind, ims[:8], (1.,), [None, 60][rng.randint(2)],
                  n_app=int(rng.randint(2, 7)), n_shape=int(rng.randint(2, 4)),
                  **kw)
    probe = aam.LucasKanadeAAMFitter(model)
    asked, sel = draw_sampling(rng, kind, probe.algorithms[0].template, ps)
    some = {}
    if rng.rand() < .35:
        some = dict(n_shape=int(rng.randint(1, 3)),
                    n_appearance=int(rng.randint(1, 4)))
    f = aam.LucasKanadeAAMFitter(
        model, lk_algorithm_cls=getattr(aam, name), sampling=asked, **some)
    alg = f.algorithms[0]
    im = ims[-1]
    gt = im.landmarks["PTS"]
    x0 = start(rng, gt, rng.uniform(.5, 2.))
    still = deepcopy(alg.transform)
    # fit on the image as it is, in the coordinates of the model
    k = int(rng.randint(1, 6))
    r = alg.run(im, x0, gt_shape=gt, max_iters=k, return_costs=True,
                map_inference=use_map)
    c.note(kind=kind, alg=name, map=use_map, sampling=type(asked).__name__,
           channels=im.n_channels, iterations=k, active=some)
    c.seen(kind, name, use_map, type(asked).__name__, im.n_channels,
           tuple(some.values()))
    if some:
        c.event("fits with some of the components")
    am, sm = model.appearance_models[0], alg.interface.shape_model
    pl, cl, costs = r.shape_parameters, r.appearance_parameters, r.costs
    project = name.startswith("ProjectOut")
    if not c.check(len(pl) == len(costs) == r.n_iters + 1 ==
                   len(r.shapes) - 1 and
                   (cl is None) == project and
                   (project or len(cl) == len(pl)), "trace/count"):
        return
    A = am.components.T[sel]
    mean = am.mean()
    a0 = mean.as_vector()[sel]
    nv = am.noise_variance() / (sm.noise_variance() or 1)
    Lp = np.hstack((np.zeros(4), nv / sm.eigenvalues))
    La = nv / am.eigenvalues

    def out(x):
        return x - A.dot(np.linalg.lstsq(A, x, rcond=None)[0])

    images = []
    for i, p in enumerate(pl):
        t, w = view(alg, kind, im, p, ps)
        images.append(w)
        points = (t.sparse_target if kind.startswith("Linear")
                  else t.target).points
        c.close(points, r.shapes[i + 1].points, "trace/shape",
                "shape %d is not of its parameters" % i, atol=1e-7)
        e = w.as_vector()[sel] - a0
        if project or name.startswith("Wiberg"):
            want = e.dot(out(e))
        else:
            d = e - A.dot(cl[i])
            want = d.dot(d)
        c.close(costs[i], want, "cost/%s" % name, "iteration %d of %s" % (
            i, kind), rtol=1e-6, atol=1e-10)
        c.event("costs recomputed")
    # what the fitter shows of the fit
    if not project:
        rec = f.appearance_reconstructions(cl, [r.n_iters])
        c.check(len(rec) == len(cl), "reconstructions/count")
        for q, x in zip(cl, rec):
            # (patch based models give the array of the patches)
            c.close(x.ravel() if isinstance(x, np.ndarray) else x.as_vector(),
                    mean.as_vector() + am.components.T.dot(q),
                    "reconstructions", "appearance of parameters", atol=1e-8)
    shown = f.warped_images(im, r.shapes[1:])
    c.check(len(shown) == len(r.shapes) - 1, "warped_images/count")
    for w, s in zip(shown, images):
        px = w if isinstance(w, np.ndarray) else w.pixels
        if not kind.startswith("Linear"):
            c.close(px, s.pixels, "warped_images", "of a fitted shape",
                    atol=1e-6)
    # the first appearance parameters are the projection of the first image
    if not project:
        c.close(cl[0], np.linalg.lstsq(
            A, images[0].as_vector()[sel] - a0, rcond=None)[0],
            "appearance/start", "initial parameters", rtol=1e-6, atol=1e-8)
    # every update is the Gauss-Newton step of its linearised problem
    dW = np.array(still.d_dp(None if kind == "PatchAAM" else
                          alg.template.mask.true_indices()))
    Jprev = 0.
    for i in range(len(pl) - 1):
        if project:
            a, ci = mean, None
        else:
            ci = cl[i]
            a = mean.copy()
            a._from_vector_inplace(mean.as_vector() + am.components.T.dot(ci))
        src = images[i] if "Forward" in name else a
        g = slope(kind, src)
        D = spread(kind, src, dW, ps)                # pixels, params, dims
        J = np.einsum("dn,npd->np", g, D)[sel]
        e0 = images[i].as_vector()[sel] - a0
        p = np.array(pl[i])
        n = p.size
        if name.startswith("Simultaneous"):
            e = e0 - A.dot(ci)
            S = np.hstack((J, -A))
            lam, q = np.hstack((Lp, La)), np.hstack((p, ci))
        elif name.startswith("Alternating"):
            e = e0 - A.dot(ci) + Jprev
            if use_map:
                dc = np.linalg.solve(A.T.dot(A) + np.diag(La),
                                     A.T.dot(e) - La * ci)
            else:
                dc = np.linalg.lstsq(A, e, rcond=None)[0]
            c.close(cl[i + 1], ci + dc, "appearance/%s" % name,
                    "iteration %d" % i, rtol=1e-5, atol=1e-7)
            e = e0 - A.dot(ci) - A.dot(dc)
            S, lam, q = J, Lp, p
        elif name.startswith("ModifiedAlternating"):
            e = e0 - A.dot(ci)
            S, lam, q = J, Lp, p
        else:
            e, S, lam, q = out(e0), out(J), Lp, p
        if not use_map:
            lam = 0. * lam
        dq = -np.linalg.solve(S.T.dot(S) + np.diag(lam),
                              S.T.dot(e) + lam * q)
        if np.linalg.cond(S.T.dot(S) + np.diag(lam)) > 1e9:
            raise Skip()
        # composition to the first order, as for these transforms (M03)
        c.close(pl[i + 1], p + dq[:n], "step/%s" % name, "iteration %d of %s%s"
                % (i, kind, " (map)" if use_map else ""), rtol=1e-4,
                atol=1e-6 * max(1., np.abs(dq).max()))
        if name.startswith("Simultaneous"):
            c.close(cl[i + 1], ci + dq[n:], "appearance/%s" % name,
                    "iteration %d" % i, rtol=1e-4, atol=1e-6)
        Jprev = J.dot(dq[:n]) if name.startswith("Alternating") else 0.
        e1 = images[i + 1].as_vector()[sel] - a0
        if name.startswith("ModifiedAlternating"):
            c.close(cl[i + 1], np.linalg.lstsq(A, e1, rcond=None)[0],
                    "appearance/%s" % name, "iteration %d" % i, rtol=1e-5,
                    atol=1e-7)
        if name.startswith("Wiberg"):
            c.close(cl[i + 1], ci + np.linalg.lstsq(
                A, e1 - A.dot(ci) + J.dot(dq), rcond=None)[0],
                "appearance/%s" % name, "iteration %d" % i, rtol=1e-5,
                atol=1e-7)
        c.event("updates recomputed")

CASES = {"recover": (case_recover, 143, 600), "trace": (case_trace, 286, 1500)}
REQUIRED = {"recoveries": 100, "costs recomputed": 200,
            "updates recomputed": 150,
            "fits with some of the components": 40}
