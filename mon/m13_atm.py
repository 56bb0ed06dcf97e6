"""M13: active template model fitting aligns the template."""
from copy import deepcopy

import numpy as np

from menpo.image import Image
from menpo.shape import PointCloud

from . import gen, zoo
from .m12_aam import (world, far, start, view, slope, spread, draw_sampling)
from .core import Skip

ID = "M13"
RULE = ("one textured object rendered analytically under drawn affine warps; "
        "template models of every kind built from one rendering and the "
        "shapes of the others, and fitted to those by every algorithm, with "
        "and without a posteriori inference and sampling; the templates "
        "compared with independent warps, and every cost and update "
        "recomputed from the reported parameters; distinct when model, "
        "algorithm, inference, sampling, channels, scales or sizes differ")
ASSUMPTIONS = ["the model driven transforms and their derivatives hold "
               "(properties M01 to M04)", "menpo's PCA, warping, patch "
               "extraction and image gradient are trusted",
               "displacements of up to 2 pixels lie in the basins of "
               "attraction of textures with wavelengths above 16 pixels"]

KINDS = ["HolisticATM", "PatchATM", "LinearATM", "MaskedATM",
         "LinearMaskedATM"]
ALGS = ["ForwardCompositional", "InverseCompositional"]


def train(kind, template, shapes, scales, diagonal=None, n_shape=None, **kw):
    import menpofit.atm as atm
    kw = dict(dict(group="PTS", scales=scales, diagonal=diagonal,
                   max_shape_components=n_shape), **kw)
    if kind in ("MaskedATM", "LinearMaskedATM"):
        kw.setdefault("patch_shape", (13, 13))
    if kind == "PatchATM":
        kw.setdefault("patch_shape", (15, 15))
    return getattr(atm, kind)(template, shapes, **kw)


def case_recover(c):
    import menpofit.atm as atm
    rng = c.rng
    kind = KINDS[c.index % 5]
    alg = ALGS[(c.index // 5) % 2]
    scales = [(1.,), (.5, 1.), (.7, 1.)][rng.randint(3)]
    diagonal = [None, None, 60, 80][rng.randint(4)]
    opts = {}
    if kind == "PatchATM":
        opts = dict(turn=.02, stretch=.025, grow=.02)
    ims = world(rng, 11, modes=0, **opts)
    shapes = [i.landmarks["PTS"] for i in ims[:8]]
    model = train(kind, ims[0], shapes, scales, diagonal, n_shape=4)
    f = atm.LucasKanadeATMFitter(model, lk_algorithm_cls=getattr(atm, alg))
    unit = max(1., 1. / (np.linalg.norm(model.reference_shape.range()) /
                         np.linalg.norm(ims[0].landmarks["PTS"].range()) *
                         scales[-1]))
    worst = []
    for im in ims[8:]:
        gt = im.landmarks["PTS"]
        x0 = start(rng, gt, rng.uniform(1.5, 2.5))
        r = f.fit_from_shape(im, x0, gt_shape=gt, return_costs=True,
                             max_iters=[40] * len(scales))
        e = np.sqrt(((r.final_shape.points - gt.points) ** 2).sum(1)).mean()
        e0 = np.sqrt(((x0.points - gt.points) ** 2).sum(1)).mean()
        worst.append((e / unit, e0 / unit))
    c.note(kind=kind, alg=alg, scales=scales, diagonal=diagonal,
           errors=worst, channels=ims[0].n_channels)
    c.seen(kind, alg, len(scales), diagonal, ims[0].n_channels)
    tol = .9 if kind == "PatchATM" else .2
    med = float(np.median([w[0] for w in worst]))
    c.check(med < tol, "recover/%s/%s" % (kind, alg),
            "error %.3f pixels, from %s" % (
                med, ["%.2f" % w[1] for w in worst]))
    c.event("recoveries", len(worst))


def case_template(c):
    """The templates of the scales are the template image, warped."""
    from menpofit.transform import (DifferentiablePiecewiseAffine,
                                    DifferentiableThinPlateSplines)
    from menpo.transform.piecewiseaffine import TriangleContainmentError
    rng = c.rng
    kind = KINDS[c.index % 5]
    ims = world(rng, 6, modes=0)
    shapes = [i.landmarks["PTS"] for i in ims]
    scales = [(1.,), (.5, 1.), (.6, .8, 1.)][rng.randint(3)]
    diagonal = [None, 45., 70.][rng.randint(3)]
    kw = {}
    if kind in ("HolisticATM", "LinearATM"):
        kw["transform"] = [DifferentiablePiecewiseAffine,
                           DifferentiableThinPlateSplines][rng.randint(2)]
    if kind in ("PatchATM", "MaskedATM", "LinearMaskedATM"):
        kw["patch_shape"] = [tuple(int(2 * v + 1) for v in
                                   rng.randint(3, 8, 2)) for _ in scales]
    gain = [float(rng.uniform(.5, 2)) for _ in scales]
    kw["holistic_features"] = [feature(g) for g in gain]
    template = ims[0]
    try:
        model = train(kind, template, shapes, scales, diagonal, **kw)
    except TriangleContainmentError as e:
        if not zoo.on_border(e):
            raise
        # a pixel on the very border of the frame: refused, with a reason
        raise Skip()
    c.note(kind=kind, scales=scales, diagonal=diagonal,
           channels=template.n_channels, options=list(kw))
    c.seen(kind, scales, diagonal, template.n_channels, len(kw))
    if not c.check(len(model.warped_templates) == len(scales) ==
                   len(model.shape_models), "template/scales"):
        return
    ref = model.reference_shape.points
    want = diagonal or np.linalg.norm(
        np.mean([s.points for s in shapes], 0).ptp(0))
    c.close(np.linalg.norm(ref.ptp(0)), want, "template/diagonal",
            "the size of the reference shape", rtol=1e-6)
    s = template.landmarks["PTS"].points
    size = np.linalg.norm(ref - ref.mean(0)) / np.linalg.norm(s - s.mean(0))
    for j, t in enumerate(model.warped_templates):
        # what the template would be: the texture sampled where the frame's
        # pixels come from
        if kind == "PatchATM":
            ps = kw["patch_shape"][j]
            c.check(t.pixels.shape == (len(s), 1, template.n_channels) + ps,
                    "template/patch_shape", str(t.pixels.shape))
            grid = np.stack(np.meshgrid(
                np.arange(ps[0]) - ps[0] // 2, np.arange(ps[1]) - ps[1] // 2,
                indexing="ij"), -1).reshape(-1, 2) / (size * scales[j])
            for k in range(len(s)):
                # (whole pixels, so either side of the truth is allowed)
                got = t.pixels[k, 0].reshape(template.n_channels, -1)
                best = np.inf
                for d in OFFSETS:
                    x = s[k] + grid + d / (size * scales[j])
                    v = template.sample(PointCloud(x), order=1,
                                        mode="nearest") * gain[j]
                    best = min(best, np.abs(v - got).mean())
                # (much smaller images: what is around the object is less so)
                tol = .06 if size * scales[j] > .3 else .2
                c.check(best < tol * gain[j], "template/patches",
                        "patch %d of scale %d is %.3f off" % (k, j, best))
            c.event("templates")
            continue
        lm = t.landmarks["source"].points
        got = np.linalg.norm(lm - lm.mean(0)) / np.linalg.norm(
            ref - ref.mean(0))
        c.close(got, scales[j], "template/size", "the frame of scale %d" % j,
                rtol=.02)
        # every pixel of the frame is mapped by the affine warp between them
        X = np.c_[lm, np.ones(len(lm))]
        M = np.linalg.lstsq(X, s, rcond=None)[0]
        res = np.abs(X.dot(M) - s).max()
        if kind != "HolisticATM" and res > .6:
            raise Skip()
        idx = t.mask.true_indices()
        # all are affine views of one object up to the mean's rounding
        x = np.c_[idx, np.ones(len(idx))].dot(M)
        v = template.sample(PointCloud(x), order=1, mode="nearest") * gain[j]
        got = t.as_vector().reshape(template.n_channels, -1)
        inside = ((x > 2) & (x < np.array(template.shape) - 3)).all(1)
        if inside.sum() < 30:
            raise Skip()
        v, got = v[:, inside], got[:, inside]
        q = np.abs(v - got).mean()
        c.check(q < .025 * gain[j], "template/pixels",
                "scale %d: %.4f off" % (j, q))
        c.event("templates")


OFFSETS = [np.array([a, b]) for a in (-.5, 0, .5) for b in (-.5, 0, .5)]


def feature(gain):
    def scaled(image):
        out = image.copy()
        out.pixels = out.pixels * gain
        return out
    return scaled


def case_trace(c):
    """Costs, shapes and updates are recomputed from the parameters."""
    import menpofit.atm as atm
    rng = c.rng
    kind = KINDS[c.index % 5]
    name = ALGS[(c.index // 5) % 2]
    use_map = bool(rng.rand() < .4)
    ims = world(rng, 8, modes=int(rng.randint(0, 2)))
    ps = (11, 9)
    kw = dict(patch_shape=ps) if kind in ("MaskedATM", "LinearMaskedATM",
                                          "PatchATM") else {}
    model = train(kind, ims[0], [i.landmarks["PTS"] for i in ims[:7]], (1.,),
                  [None, 60][rng.randint(2)], n_shape=int(rng.randint(2, 4)),
                  **kw)
    probe = atm.LucasKanadeATMFitter(model)
    patch = "PatchAAM" if kind == "PatchATM" else kind
    asked, sel = draw_sampling(rng, patch, probe.algorithms[0].template, ps)
    some = {}
    if rng.rand() < .35:
        some = dict(n_shape=int(rng.randint(1, 3)))
    f = atm.LucasKanadeATMFitter(
        model, lk_algorithm_cls=getattr(atm, name), sampling=asked, **some)
    alg = f.algorithms[0]
    still = deepcopy(alg.transform)
    im = ims[-1]
    gt = im.landmarks["PTS"]
    x0 = start(rng, gt, rng.uniform(.5, 2.))
    k = int(rng.randint(1, 6))
    r = alg.run(im, x0, gt_shape=gt, max_iters=k, return_costs=True,
                map_inference=use_map)
    c.note(kind=kind, alg=name, map=use_map, sampling=type(asked).__name__,
           channels=im.n_channels, iterations=k, active=some)
    c.seen(kind, name, use_map, type(asked).__name__, im.n_channels,
           tuple(some.values()))
    sm = alg.interface.shape_model
    pl, costs = r.shape_parameters, r.costs
    if not c.check(len(pl) == len(costs) == r.n_iters + 1 ==
                   len(r.shapes) - 1, "trace/count"):
        return
    template = model.warped_templates[0]
    t0 = template.as_vector()[sel]
    lam = np.hstack((np.zeros(4), 1. / (sm.noise_variance() or 1) /
                     sm.eigenvalues)) * use_map
    images = []
    for i, p in enumerate(pl):
        t, w = view(alg, patch, im, p, ps)
        images.append(w)
        points = (t.sparse_target if kind.startswith("Linear")
                  else t.target).points
        c.close(points, r.shapes[i + 1].points, "trace/shape",
                "shape %d is not of its parameters" % i, atol=1e-7)
        e = w.as_vector()[sel] - t0
        c.close(costs[i], e.dot(e), "cost/%s" % name, "iteration %d of %s" % (
            i, kind), rtol=1e-6, atol=1e-10)
        c.event("costs recomputed")
    shown = f.warped_images(im, r.shapes[1:])
    c.check(len(shown) == len(r.shapes) - 1, "warped_images/count")
    for w, s in zip(shown, images):
        px = w if isinstance(w, np.ndarray) else w.pixels
        if not kind.startswith("Linear"):
            c.close(px, s.pixels, "warped_images", "of a fitted shape",
                    atol=1e-6)
    dW = np.array(still.d_dp(None if kind == "PatchATM" else
                             alg.template.mask.true_indices()))
    for i in range(len(pl) - 1):
        src = images[i] if "Forward" in name else template
        D = spread(patch, src, dW, ps)
        J = np.einsum("dn,npd->np", slope(patch, src), D)[sel]
        e = images[i].as_vector()[sel] - t0
        p = np.array(pl[i])
        H = J.T.dot(J) + np.diag(lam)
        if np.linalg.cond(H) > 1e9:
            raise Skip()
        dp = -np.linalg.solve(H, J.T.dot(e) + lam * p)
        c.close(pl[i + 1], p + dp, "step/%s" % name, "iteration %d of %s%s" % (
            i, kind, " (map)" if use_map else ""), rtol=1e-4,
            atol=1e-6 * max(1., np.abs(dp).max()))
        c.event("updates recomputed")


CASES = {"recover": (case_recover, 150, 400),
         "template": (case_template, 250, 800),
         "trace": (case_trace, 400, 1200)}
REQUIRED = {"recoveries": 60, "templates": 60, "costs recomputed": 150,
            "updates recomputed": 100}
