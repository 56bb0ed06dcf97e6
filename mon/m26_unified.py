"""M26: unified holistic and local fitting combines both its parts."""
from copy import deepcopy

import numpy as np
from scipy.ndimage import gaussian_filter

from menpo.feature import ndfeature, no_op
from menpo.shape import PointCloud

from . import gen
from .core import Skip
from .m12_aam import draw_sampling, far, slope, spread, start, view, world
from .m19_options import singular
from .zoo import diverged

ID = "M26"
RULE = ("unified models of textured objects over drawn scales, features, "
        "smoothing, warps, patch sizes and component counts compared with an "
        "appearance model and a local model trained separately; every cost, "
        "appearance and update of both algorithms recomputed from the "
        "reported parameters, with and without prior; fits of unseen images "
        "from random displacements; distinct when options, scales, algorithm, "
        "prior or sampling differ")
ASSUMPTIONS = ["the separately trained models hold (M14, M22), and so do "
               "the model driven transforms (M01 to M04)",
               "displacements of up to 3.5 pixels lie in the basins of "
               "attraction of the textures drawn",
               "the best of three fits must come within 0.7 pixels of "
               "what the shape model can express, the median within 1.2"]


@ndfeature
def double(px):
    return 2. * px + .25


@ndfeature
def two(px):
    return np.concatenate([px, px * px])


def smoothed(sigma, f):
    """What the unified model sees: smoothed pixels, then features."""
    def feature(image):
        out = image.copy()
        out.pixels = gaussian_filter(image.pixels, (0, sigma, sigma),
                                     mode="constant")
        return f(out)
    return feature


def transforms(rng):
    from menpofit.transform import (DifferentiablePiecewiseAffine,
                                    DifferentiableThinPlateSplines)
    return [DifferentiablePiecewiseAffine,
            DifferentiableThinPlateSplines][rng.randint(2)]


def odd(rng, lo, hi):
    return tuple(int(x) for x in rng.randint(lo, hi, 2))


@singular
def case_parts(c):
    from menpofit.aam import HolisticAAM
    from menpofit.clm import CLM
    from menpofit.unified_aam_clm import UnifiedAAMCLM
    rng = c.rng
    ims = world(rng, int(rng.randint(6, 10)))
    n_scales = int(rng.choice([1, 2, 2, 3]))
    scales = {1: (1.,), 2: (.5, 1.), 3: (.4, .7, 1.)}[n_scales]
    per = rng.rand() < .4 and n_scales > 1

    def draws(f):
        return [f() for _ in scales] if per else f()
    feats = draws(lambda: [no_op, double, two][rng.randint(3)])
    patch = draws(lambda: odd(rng, 7, 12))
    context = draws(lambda: odd(rng, 14, 22))
    sigma = None if rng.rand() < .5 else float(rng.uniform(.5, 2.5))
    common = dict(group="PTS", scales=scales,
                  diagonal=None if rng.rand() < .5 else int(
                      rng.randint(45, 80)),
                  max_shape_components=draws(lambda: int(rng.randint(2, 5))))
    if rng.rand() < .3:
        ref = ims[0].landmarks["PTS"].copy()
        ref.points[...] *= rng.uniform(.7, 1.1)
        common["reference_shape"] = ref
    warp = dict(transform=transforms(rng),
                max_appearance_components=draws(
                    lambda: int(rng.randint(2, 5))))
    local = dict(patch_shape=patch, context_shape=context,
                 cosine_mask=bool(rng.rand() < .6),
                 patch_normalisation=[no_op, norm][rng.randint(2)])
    if rng.rand() < .2:
        local["sample_offsets"] = np.array([[0, 0], [1, -2]])
    plain = np.array([i.pixels.copy() for i in ims])
    c.note(scales=scales, features=str(feats), patch=patch, context=context,
           sigma=sigma, warp=warp["transform"].__name__,
           diagonal=common["diagonal"], offsets="sample_offsets" in local)
    c.seen("parts", scales, per, sigma is None, warp["transform"].__name__,
           str(patch), common["diagonal"], "sample_offsets" in local,
           local["cosine_mask"])
    uni = diverged(UnifiedAAMCLM, [i.copy() for i in ims], holistic_features=
                   feats, sigma=sigma, **dict(dict(common, **warp), **local))
    if sigma is not None:
        fs = {f: smoothed(sigma, f) for f in (no_op, double, two)}
        feats = [fs[f] for f in feats] if per else fs[feats]
    aam = diverged(HolisticAAM, [i.copy() for i in ims], holistic_features=
                   feats, **dict(common, **warp))
    clm = diverged(CLM, [i.copy() for i in ims], holistic_features=feats,
                   **dict(common, **local))
    c.check(uni.n_scales == len(scales) and tuple(uni.scales) == scales,
            "parts/scales")
    c.close(uni.reference_shape.points, aam.reference_shape.points,
            "parts/reference", rtol=1e-9)
    probe = ims[int(rng.randint(len(ims)))]
    for j, s in enumerate(scales):
        for name, other in (("appearance", aam.appearance_models),
                            ("shape", aam.shape_models),
                            ("local-shape", clm.shape_models)):
            a = (uni.appearance_models if name == "appearance"
                 else uni.shape_models)[j]
            b = other[j]
            if name != "appearance":
                c.check(type(a) is type(b), "parts/%s/type" % name)
                a, b = a.model, b.model
            if not c.check(a.n_components == b.n_components,
                           "parts/%s/components" % name, "%d, not %d" % (
                               a.n_components, b.n_components)):
                return
            c.close(a.mean().as_vector(), b.mean().as_vector(),
                    "parts/%s/mean" % name, "scale %d" % j, rtol=1e-8,
                    atol=1e-9)
            c.close(a.eigenvalues, b.eigenvalues, "parts/%s/variance" % name,
                    "scale %d" % j, rtol=1e-6)
            # (components have arbitrary signs)
            v = b.eigenvalues
            if len(v) > 1 and (v[1:] > .99 * v[:-1]).any():
                continue
            d = np.abs(np.einsum("ij,ij->i", a.components, b.components))
            c.close(d, np.ones(len(v)), "parts/%s/directions" % name,
                    "scale %d" % j, rtol=1e-5)
            c.close(a.noise_variance(), b.noise_variance(),
                    "parts/%s/noise" % name, rtol=1e-6,
                    atol=1e-12 * v[0])
        e, g = uni.expert_ensembles[j], clm.expert_ensembles[j]
        c.check(type(e) is type(g) and e.n_experts == g.n_experts and
                tuple(e.search_shape) == tuple(g.search_shape),
                "parts/experts/kind")
        f = feats[j] if per else feats
        im = f(probe.rescale_to_pointcloud(uni.reference_shape, group="PTS"))
        if s != 1:
            im = im.rescale(s)
        c.close(e.predict_response(im, im.landmarks["PTS"]),
                g.predict_response(im, im.landmarks["PTS"]),
                "parts/experts/response", "scale %d" % j, rtol=1e-7,
                atol=1e-10)
        c.event("scales compared")
    c.check(all(np.array_equal(i.pixels, p) for i, p in zip(ims, plain)),
            "parts/mutates")


def jittered(rng, *a, **k):
    """Worlds whose landmarks also move on their own: the noise of shapes."""
    ims = world(rng, *a, **k)
    for im in ims:
        im.landmarks["PTS"].points[...] += .25 * rng.randn(
            *im.landmarks["PTS"].points.shape)
    return ims


def norm(px):
    m = px.mean(axis=(-2, -1), keepdims=True)
    s = px.std(axis=(-2, -1), keepdims=True)
    return (px - m) / (s + 1e-3)


def kernel_mean(ens, im, shape, patch, cov):
    """Where the mean shift over each landmark's response map goes."""
    p = ens.predict_probability(im, shape)
    n, h, w = len(shape.points), patch[0], patch[1]
    p = np.array(p).reshape(n, h, w)
    gy, gx = np.mgrid[:h, :w]
    gy, gx = gy - h // 2, gx - w // 2
    k = np.exp(-(gy ** 2 + gx ** 2) / (2. * cov))
    out = np.zeros((n, 2))
    for i in range(n):
        wt = p[i] * k
        out[i] = (wt * gy).sum() / wt.sum(), (wt * gx).sum() / wt.sum()
    return out


@singular
def case_step(c):
    import menpofit.unified_aam_clm as u
    rng = c.rng
    name = ["AlternatingRegularisedLandmarkMeanShift",
            "ProjectOutRegularisedLandmarkMeanShift"][c.index % 2]
    ims = jittered(rng, 9)
    patch = odd(rng, 7, 13)
    cov = [2, 1, .5, 8][rng.randint(4)]
    model = diverged(
        u.UnifiedAAMCLM, ims[:8], group="PTS", scales=(1.,),
        patch_shape=patch, context_shape=(24, 22),
        diagonal=[None, 60][rng.randint(2)], transform=transforms(rng),
        max_shape_components=int(rng.randint(2, 5)),
        max_appearance_components=int(rng.randint(2, 6)),
        response_covariance=cov)
    probe = u.UnifiedAAMCLMFitter(model)
    asked, sel = draw_sampling(rng, "HolisticAAM",
                               probe.algorithms[0].interface.template, None)
    active = {}
    if rng.rand() < .4:
        active = dict(n_shape=int(rng.randint(1, 3)),
                      n_appearance=int(rng.randint(1, 3)))
    f = diverged(u.UnifiedAAMCLMFitter, model,
                 algorithm_cls=getattr(u, name), sampling=asked, **active)
    alg = f.algorithms[0]
    im = ims[-1]
    gt = im.landmarks["PTS"]
    x0 = start(rng, gt, rng.uniform(.5, 2.))
    still = deepcopy(alg.transform)
    prior = bool(rng.rand() < .5)
    a = float(rng.uniform(.05, .95))
    k = int(rng.randint(1, 5))
    kw = dict(prior=prior, a=a)
    if rng.rand() < .2:
        kw, prior, a = {}, False, .5
    r = diverged(alg.run, im, x0, gt_shape=gt, max_iters=k,
                 return_costs=True, **kw)
    c.note(alg=name, prior=prior, a=a, sampling=type(asked).__name__,
           iterations=k, channels=im.n_channels, patch=patch, **active)
    c.seen("step", name, prior, type(asked).__name__, im.n_channels, patch,
           len(active), cov)
    am, sm = model.appearance_models[0], model.shape_models[0]
    pl, cl, costs = r.shape_parameters, r.appearance_parameters, r.costs
    project = name.startswith("ProjectOut")
    if not c.check(len(pl) == len(costs) == r.n_iters + 1 ==
                   len(r.shapes) - 1 and (cl is None) == project and
                   (project or len(cl) == len(pl)), "step/count"):
        return
    A = am.components.T[sel]
    mean = am.mean()
    a0 = mean.as_vector()[sel]
    s2, r2 = am.noise_variance(), sm.model.noise_variance()
    if not (s2 > 0 and r2 > 0):
        raise Skip()
    lam = np.hstack((np.zeros(4), 1. / sm.model.eigenvalues))
    Jc = np.array(still.pdm.d_dp(None))          # points, params, dims
    Jc = np.swapaxes(Jc, 1, 2).reshape(-1, len(lam))
    Hc = Jc.T.dot(Jc) / r2
    dW = np.array(still.d_dp(alg.interface.template.mask.true_indices()))
    views, local = [], []
    for i, p in enumerate(pl):
        t, w = view(alg, "HolisticAAM", im, p, None)
        c.close(t.target.points, r.shapes[i + 1].points, "step/shape",
                "shape %d is not of its parameters" % i, atol=1e-7)
        views.append(w)
        local.append(kernel_mean(model.expert_ensembles[0], im, t.target,
                                 patch, cov / r2).ravel())
        e = w.as_vector()[sel] - a0
        if not project:
            want = np.linalg.lstsq(A, e, rcond=None)[0]
            c.close(cl[i], want, "step/appearance", "iteration %d" % i,
                    rtol=1e-6, atol=1e-8)
            e = e - A.dot(want)
        c.close(costs[i], a * e.dot(e) + local[i].dot(local[i]),
                "step/cost/%s" % name, "iteration %d" % i, rtol=1e-6,
                atol=1e-9)
        c.event("costs recomputed")
    for i in range(len(pl) - 1):
        app = mean
        e = a0 - views[i].as_vector()[sel]
        if not project:
            app = mean.copy()
            app._from_vector_inplace(mean.as_vector() +
                                     am.components.T.dot(cl[i]))
            e = e + A.dot(cl[i])
        J = np.einsum("dn,npd->np", slope("HolisticAAM", app),
                      spread("HolisticAAM", app, dW))[sel]
        if project:
            J = J - A.dot(np.linalg.lstsq(A, J, rcond=None)[0])
        Ha, ba = J.T.dot(J) / s2, J.T.dot(e) / s2
        bc = Jc.T.dot(local[i]) / r2
        p = np.array(pl[i])
        # the local and the holistic part, each by its noise; project out
        # computes one Hessian for every weighting
        h = Ha + Hc if project else a * Ha + (1 - a) * Hc
        b = ba + bc if project and not prior else a * ba + (1 - a) * bc
        if prior:
            h, b = h + np.diag(lam), b - lam * p
        if np.linalg.cond(h) > 1e9:
            raise Skip()
        dp = np.linalg.solve(h, b)
        c.close(pl[i + 1], p + dp, "step/update/%s" % name,
                "iteration %d%s" % (i, " (prior)" if prior else ""),
                rtol=1e-5, atol=1e-6 * max(1., np.abs(dp).max()))
        c.event("updates/" + name)
    # what the fitter shows
    if not project:
        rec = f.appearance_reconstructions(cl, [r.n_iters])
        c.check(len(rec) == len(cl), "step/reconstructions")
        for q, x in zip(cl, rec):
            c.close(x.as_vector(), mean.as_vector() + am.components.T.dot(q),
                    "step/reconstructions", atol=1e-8)
    shown = f.warped_images(im, r.shapes[1:])
    c.check(len(shown) == len(views), "step/warped_images/count")
    for w, s in zip(shown, views):
        c.close(w.pixels, s.pixels, "step/warped_images", atol=1e-6)


@singular
def case_fit(c):
    import menpofit.unified_aam_clm as u
    rng = c.rng
    name = ["AlternatingRegularisedLandmarkMeanShift",
            "ProjectOutRegularisedLandmarkMeanShift"][c.index % 2]
    scales = [(1.,), (.5, 1.), (.5, .7, 1.)][rng.randint(3)]
    _, ims = gen.stamped_dataset(rng, 13, int(rng.randint(8, 13)),
                                 channels=int(rng.choice([1, 1, 2])),
                                 sigma=8., grain=2.5)
    prior = bool(rng.rand() < .5)
    a = float(rng.choice([.3, .5, .7]))
    model = diverged(u.UnifiedAAMCLM, ims[:10], group="PTS", scales=scales,
                     patch_shape=(15, 15), context_shape=(30, 30),
                     transform=transforms(rng), max_shape_components=3,
                     max_appearance_components=6,
                     response_covariance=1,
                     patch_normalisation=norm,
                     diagonal=[None, 80][rng.randint(2)])
    f = diverged(u.UnifiedAAMCLMFitter, model,
                 algorithm_cls=getattr(u, name))
    iters = [int(rng.randint(15, 30)) for _ in scales]
    log = []
    for im in ims[10:]:
        gt = im.landmarks["PTS"]
        x0 = start(rng, gt, rng.uniform(2., 3.5))
        keep = x0.points.copy()
        r = diverged(f.fit_from_shape, im, x0, gt_shape=gt, max_iters=iters,
                     return_costs=True, prior=prior, a=a)
        c.check(np.array_equal(keep, x0.points), "fit/mutates")
        e = [np.sqrt(((s.points - gt.points) ** 2).sum(1)).mean()
             for s in (x0, r.final_shape)]
        sm = deepcopy(model.shape_models[-1])
        sm.set_target(gt)
        e[1] -= np.sqrt(((sm.target.points - gt.points) ** 2).sum(1)).mean()
        log.append((e[0], e[1]))
        report(c, f, model, im, r, iters, name)
        c.event("fits/" + name)
    c.note(alg=name, scales=scales, prior=prior, a=a,
           errors=np.round(log, 2).tolist())
    c.seen("fit", name, scales, prior, a, ims[0].n_channels)
    e = [b for _, b in log]
    c.check(min(e) < .7 and np.median(e) < 1.2, "fit/recovery/%s" % name, "errors %s" % np.round(log, 2))


def report(c, f, model, im, r, iters, name):
    """One entry per iteration and scale, shapes of the model, appearances
    of the appearance model."""
    n = r.n_iters_per_scale
    c.check(len(n) == len(model.scales) and
            all(x <= y for x, y in zip(n, iters)), "report/iterations",
            "%r of %r" % (n, iters))
    c.check(r.n_iters == sum(n), "report/iterations")
    # the initial shape, and each scale's reconstruction and iterations
    c.check(len(r.shapes) == 1 + sum(k + 1 for k in n), "report/shapes",
            "%d shapes, iterations %r" % (len(r.shapes), n))
    c.check(len(r.costs) == sum(k + 1 for k in n), "report/costs")
    pars = r.shape_parameters
    c.check(len(pars) == sum(k + 1 for k in n), "report/parameters")
    if name.startswith("Alternating"):
        q = r.appearance_parameters
        c.check(len(q) == sum(k + 1 for k in n), "report/appearances")
        rec = f.appearance_reconstructions(q, n)
        c.check(len(rec) == len(q), "report/reconstructions")
        i = 0
        for j, k in enumerate(n):
            am = model.appearance_models[j]
            for _ in range(k + 1):
                x = rec[i].as_vector()
                m = am.mean().as_vector()
                ok = x.shape == m.shape
                c.check(ok, "report/reconstructions", "scale %d" % j)
                if ok:
                    d = x - m
                    c.close(d, am.components.T.dot(am.components.dot(d)),
                            "report/reconstructions", "off the model",
                            atol=1e-7)
                    c.close(am.components.dot(d), q[i],
                            "report/reconstructions", "of other parameters",
                            atol=1e-7, rtol=1e-6)
                i += 1
    # shapes are instances of the model (a similarity maps scales to pixels)
    s = r.shapes[1:]
    i = 0
    for j, k in enumerate(n):
        sm = deepcopy(model.shape_models[j])
        for _ in range(k + 1):
            sm.set_target(PointCloud(s[i].points))
            # (the sizes of rescaled images are rounded)
            c.check(far(sm.target, s[i]) < .1, "report/not-an-instance",
                    "%.3g px off" % far(sm.target, s[i]))
            i += 1
    c.event("reports")


CASES = {"parts": (case_parts, 80, 800), "step": (case_step, 120, 1500),
         "fit": (case_fit, 48, 500)}
REQUIRED = {"scales compared": 40, "costs recomputed": 80,
            "updates/AlternatingRegularisedLandmarkMeanShift": 20,
            "updates/ProjectOutRegularisedLandmarkMeanShift": 20,
            "reports": 40,
            "fits/AlternatingRegularisedLandmarkMeanShift": 20,
            "fits/ProjectOutRegularisedLandmarkMeanShift": 20}
