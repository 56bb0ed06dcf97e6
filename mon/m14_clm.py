"""M14: constrained local models find landmarks by their local experts."""
import numpy as np

from menpo.image import Image
from menpo.shape import PointCloud

from . import gen
from .core import Skip

ID = "M14"
RULE = ("experts of random patch and context sizes (every parity, non square), "
        "channels, normalisations and filter types trained on images with a "
        "distinctive texture at every landmark and queried at known offsets; "
        "single steps of both algorithms against the step recomputed from the "
        "observed responses; fits from random small displacements; distinct "
        "when sizes, channels, options and offsets differ")
ASSUMPTIONS = ["responses peak at the landmark on average over landmarks and "
               "images; a single peak may be displaced by noise",
               "two of three fits must end within 1.2 px (plus what the shape model cannot "
               "express) of the landmarks from starts up to 3 px away"]


def norm_fn(rng):
    from menpo.feature import no_op
    from menpofit.clm.expert.ensemble import channel_normalize_norm
    return [no_op, channel_normalize_norm][rng.randint(2)]


def stamped(rng, n, channels, n_points):
    """Images with the same texture pasted at integer landmarks."""
    from scipy.ndimage import gaussian_filter
    r = 30
    tex = gaussian_filter(rng.randn(n_points, channels, 2 * r + 1, 2 * r + 1),
                          (0, 0, 1.2, 1.2))
    tex *= np.exp(rng.uniform(-1, 1, channels))[None, :, None, None]
    ims, shapes = [], []
    for _ in range(n):
        px = .05 * gaussian_filter(rng.randn(channels, 100, 100 * n_points),
                                  (0, 1, 1))
        pts = []
        for k in range(n_points):
            l = np.array([rng.randint(40, 60), 100 * k + rng.randint(40, 60)])
            px[:, l[0] - r:l[0] + r + 1, l[1] - r:l[1] + r + 1] += tex[k]
            pts.append(l)
        ims.append(Image(px))
        shapes.append(PointCloud(np.array(pts, dtype=float)))
    return ims, shapes


def draw_expert(c, rng, n_train=6):
    from menpofit.clm import (CorrelationFilterExpertEnsemble,
                              IncrementalCorrelationFilterThinWrapper)
    from menpofit.math import mosse, imosse
    ph, pw = rng.randint(13, 24, 2)
    if rng.rand() < .5:
        pw = ph
    ch, cw = ph + rng.randint(4, 18), pw + rng.randint(4, 18)
    channels = rng.randint(1, 3)
    n_points = rng.randint(4, 7)
    ims, shapes = stamped(rng, n_train + 1, channels, n_points)
    kw = dict(patch_shape=(ph, pw), context_shape=(ch, cw),
              patch_normalisation=norm_fn(rng),
              cosine_mask=bool(rng.rand() < .7))
    wrapper = "mccf"
    if channels == 1 and rng.rand() < .4:
        kw["icf_cls"] = lambda: IncrementalCorrelationFilterThinWrapper(
            cf_callable=mosse, icf_callable=imosse)
        wrapper = "mosse"
    cov = int(rng.choice([2, 3, 5]))
    kw["response_covariance"] = cov
    c.note(patch=(ph, pw), context=(ch, cw), channels=channels,
           points=n_points, cosine=kw["cosine_mask"], filter=wrapper)
    e = CorrelationFilterExpertEnsemble(ims[:n_train], shapes[:n_train], **kw)
    return e, ims, shapes, (ph, pw), channels, n_points, kw


def case_peak(c):
    rng = c.rng
    e, ims, shapes, (ph, pw), channels, n, kw = draw_expert(c, rng)
    c.check(tuple(e.search_shape) == (ph, pw), "expert/search-shape")
    c.check(e.n_experts == n, "expert/count")
    hit, miss = 0, []
    for j, (im, s) in enumerate(list(zip(ims, shapes))[-4:]):
        off = np.array([rng.randint(-(ph // 5), ph // 5 + 1),
                        rng.randint(-(pw // 5), pw // 5 + 1)])
        if j == 0:
            off[:] = 0
        px, pts = im.pixels.copy(), s.points.copy()
        q = PointCloud(s.points + off)
        r = e.predict_response(im, q)
        c.check(np.array_equal(px, im.pixels) and
                np.array_equal(q.points, pts + off), "expert/mutates")
        if not c.check(r.shape == (n, 1, ph, pw), "expert/response-shape",
                       lambda: str(r.shape)):
            return
        for k in range(n):
            i, j = np.unravel_index(np.argmax(r[k, 0]), (ph, pw))
            # the response at index i is that of the pixel at i - ph // 2
            where = np.array([i - ph // 2, j - pw // 2])
            miss.append(where + off)
            hit += 1
        p = e.predict_probability(im, q)
        c.check(p.shape == r.shape, "expert/probability-shape")
        c.check(np.all(p >= 0), "expert/probability-negative")
        c.close(p.sum((-2, -1)), np.ones((n, 1)), "expert/probability-sum",
                rtol=1e-9)
        c.check(np.array_equal(p.reshape(n, -1).argmax(1),
                               r.reshape(n, -1).argmax(1)),
                "expert/probability-order")
        # the experts of a subset of the landmarks do not depend on others
        r2 = e.predict_response(im, q)
        c.check(np.array_equal(r, r2), "expert/repeat")
        off2 = rng.randint(-3, 4, (n, 2))
        rk = e.predict_response(im, PointCloud(q.points + off2))
        for k in range(n):
            if np.all(off2[k] == 0):
                c.close(rk[k], r[k], "expert/independent")
    # single displaced peaks are noise, most of them on one side are not.
    # Patches of even size have their response cut one pixel short on the far
    # side, which biases the peak towards the near side by a tenth of a pixel
    miss = np.array(miss)
    near = np.abs(miss).max(1) <= 1
    c.check(near.mean() >= .5, "expert/peaks-lost",
            lambda: "%d of %d peaks within a pixel: %s" % (
                near.sum(), len(near), miss.tolist()))
    if near.any():
        mean = miss[near].mean(0)
        c.check(mean.max() <= .85 and mean.min() >= -.9 or
                not kw["cosine_mask"],
                "expert/peaks-shifted",
                lambda: "mean displacement of %d peaks %s" % (len(miss), mean))
    c.event("peaks", hit)
    c.seen("peak", ph, pw, kw["context_shape"], channels, n, kw["cosine_mask"])


def case_response(c):
    """Responses are the filters of the training patches applied to the
    patches at the landmarks."""
    from scipy import signal
    from menpofit.math import mccf
    from menpofit.clm.expert.ensemble import (generate_gaussian_response,
                                              generate_cosine_mask)
    from menpofit.clm import CorrelationFilterExpertEnsemble
    rng = c.rng
    ph, pw = rng.randint(7, 14, 2)
    ch, cw = ph + rng.randint(3, 9), pw + rng.randint(3, 9)
    channels, n = rng.randint(1, 3), rng.randint(1, 3)
    ims, shapes = stamped(rng, 4, channels, n)
    for s in shapes:
        s.points += rng.uniform(-.4, .4, s.points.shape)
    norm = norm_fn(rng)
    cosine = bool(rng.randint(2))
    offsets = None
    if rng.rand() < .3:
        offsets = np.array([[0, 0], [2, -1]])
    cov = float(rng.uniform(1.5, 5))
    e = CorrelationFilterExpertEnsemble(
        ims[:3], shapes[:3], patch_shape=(ph, pw), context_shape=(ch, cw),
        response_covariance=cov, patch_normalisation=norm, cosine_mask=cosine,
        sample_offsets=offsets)
    c.note(patch=(ph, pw), context=(ch, cw), channels=channels,
           offsets=offsets is not None)
    # desired response: a Gaussian centred on the landmark's pixel
    g = generate_gaussian_response((ph, pw), cov)
    yy, xx = np.mgrid[:ph, :pw]
    want = np.exp(-((yy - ph // 2) ** 2 + (xx - pw // 2) ** 2) / (2 * cov)) \
        / (2 * np.pi * cov)
    c.close(g, want, "expert/gaussian", rtol=1e-9)
    m = generate_cosine_mask((ch, cw))
    c.close(m, np.outer(np.hanning(ch), np.hanning(cw)), "expert/cosine")

    def patch(im, pt, shape):
        p = im.extract_patches(PointCloud([pt]), patch_shape=shape,
                               sample_offsets=offsets, as_single_array=True)
        return norm(p.reshape((-1,) + shape))
    im, s = ims[3], shapes[3]
    r = e.predict_response(im, s)
    spatial, frequency = e.spatial_filter_images, e.frequency_filter_images
    c.check(len(spatial) == len(frequency) == n, "expert/filter-images")
    bt, bl = (ph + 1) // 2 - ph // 4, (pw + 1) // 2 - pw // 4
    for k in range(n):
        X = np.array([patch(i, t.points[k], (ch, cw)) * (m if cosine else 1)
                      for i, t in zip(ims[:3], shapes[:3])])
        f = mccf(X, g[None])[0]
        x = patch(im, s.points[k], (ph, pw))
        full = sum(signal.convolve2d(a, b, "full") for a, b in zip(x, f))
        same = full[ph // 2:ph // 2 + ph, pw // 2:pw // 2 + pw]
        # the filters as they are shown: those the patches correlate with
        shown = f[:, ::-1, ::-1]
        c.close(spatial[k].pixels, shown, "expert/spatial-filter",
                rtol=1e-6, atol=1e-9 * np.abs(f).max())
        c.close(frequency[k].pixels, np.abs(np.fft.fftshift(
            np.fft.fft2(shown, axes=(1, 2)), axes=(1, 2))),
            "expert/frequency-filter", rtol=1e-6,
            atol=1e-8 * np.abs(f).sum())
        c.close(r[k, 0, bt:ph - bt, bl:pw - bl], same[bt:ph - bt, bl:pw - bl],
                "expert/response-values", rtol=1e-6)
    c.check(e.n_sample_offsets == (1 if offsets is None else 2),
            "expert/sample-offsets")
    c.event("responses")
    c.seen("response", ph, pw, ch, cw, channels, n, cosine,
           offsets is not None)


def case_probability(c):
    from menpofit.clm.expert.base import probability_map
    rng = c.rng
    n, k = rng.randint(1, 5), rng.randint(1, 3)
    h, w = rng.randint(2, 9, 2)
    x = rng.randn(n, k, h, w) * np.exp(rng.uniform(-3, 3)) + rng.uniform(-5, 5)
    flat = rng.rand(n, k) < .3
    x[flat] = rng.uniform(-2, 2)
    keep = x.copy()
    p = probability_map(x)
    c.note(shape=x.shape, flat=int(flat.sum()))
    c.check(np.array_equal(x, keep), "probability/mutates")
    c.check(p.shape == x.shape and np.all(p >= 0), "probability/negative")
    c.close(p.sum((-2, -1)), np.ones((n, k)), "probability/sum", rtol=1e-9)
    c.close(p[flat], np.full(p[flat].shape, 1. / (h * w)),
            "probability/uniform")
    q = x - x.min((-2, -1), keepdims=True)
    s = q.sum((-2, -1), keepdims=True)
    c.close(p[~flat], (q / np.where(s > 0, s, 1))[~flat],
            "probability/proportional")
    im = Image(rng.rand(2, h, w))
    px = im.pixels.copy()
    out = probability_map(im)
    c.check(np.array_equal(px, im.pixels), "probability/mutates-image")
    c.close(out.pixels.sum((1, 2)), np.ones(2), "probability/image-sum")
    c.event("maps", n * k)
    c.seen("prob", n, k, h, w, int(flat.sum()))


def train(rng, c, scales=None, n_train=7, channels=None):
    from menpofit.clm import CLM
    from menpofit.clm.expert.ensemble import channel_normalize_norm
    channels = channels or rng.randint(1, 3)
    n_points = rng.randint(7, 11)
    fam, ims = gen.stamped_dataset(rng, n_train + 1, n_points,
                                   channels=channels)
    p = int(rng.randint(13, 21))
    q = int(rng.randint(13, 21)) if rng.rand() < .5 else p
    scales = scales or [(1.,), (.5, 1.), (.6, .8, 1.)][rng.randint(3)]
    k = int(rng.randint(2, 6))
    clm = CLM(ims[:n_train], group="PTS", scales=scales, patch_shape=(p, q),
              context_shape=(2 * p + rng.randint(0, 2), 2 * q),
              max_shape_components=k,
              patch_normalisation=channel_normalize_norm)
    c.note(points=n_points, patch=(p, q), scales=scales, channels=channels,
           components=k)
    return clm, ims, p, scales


def mean_dist(a, b):
    return np.sqrt(((a.points - b.points) ** 2).sum(1)).mean()


def case_fit(c):
    from menpofit.clm import (GradientDescentCLMFitter, ActiveShapeModel,
                              RegularisedLandmarkMeanShift)
    rng = c.rng
    clm, ims, p, scales = train(rng, c)
    alg = [ActiveShapeModel, RegularisedLandmarkMeanShift][rng.randint(2)]
    f = GradientDescentCLMFitter(clm, gd_algorithm_cls=alg)
    c.note(algorithm=alg.__name__)
    bad, worse, log = 0, 0, []
    for i in rng.choice(len(ims) - 1, 3, False):
        gt = ims[i].landmarks["PTS"]
        s0 = gen.perturb(rng, gt, scale=.02, angle=.03, shift=2.)
        e0 = mean_dist(s0, gt)
        r = f.fit_from_shape(ims[i], s0, gt_shape=gt, max_iters=40)
        sm = clm.shape_models[-1].copy()
        # express gt / final in the last scale's frame up to similarity: the
        # models span similarities, so compare after undoing the reference map
        fin = r.final_shape

        def expressed(shape):
            sm.set_target(shape)
            return mean_dist(sm.target, shape)
        miss = expressed(gt)
        e1 = mean_dist(fin, gt)
        bad += e1 > 1.2 + 1.2 * miss
        worse += e0 > 1.5 + miss and e1 >= e0
        log.append("%.2f->%.2f (model misses %.2f)" % (e0, e1, miss))
        # PDMs with a similarity basis are closed under similarities
        # (up to the rounding of the sizes of rescaled images)
        c.check(expressed(fin) <= .02,
                "fit/%s/not-an-instance" % alg.__name__,
                lambda: "misses by %.3g" % expressed(fin))
        for s in r.shapes[-1 - r.n_iters_per_scale[-1]:]:
            c.check(expressed(s) <= .02,
                    "fit/%s/iterate-not-an-instance" % alg.__name__,
                    lambda: "misses by %.3g" % expressed(s))
        c.event("fits/" + alg.__name__)
    # a single fit may lock on to noise
    c.check(bad < 2, "fit/%s/does-not-reach" % alg.__name__,
            lambda: "; ".join(log))
    c.check(worse < 2, "fit/%s/moves-away" % alg.__name__,
            lambda: "; ".join(log))
    c.seen("fit", alg.__name__, p, scales, clm.shape_models[0].n_parameters)


def case_step(c):
    """One iteration of each algorithm against the step recomputed from the
    responses the experts give."""
    from menpofit.clm import (ActiveShapeModel, RegularisedLandmarkMeanShift)
    from functools import partial
    rng = c.rng
    clm, ims, p, scales = train(rng, c, scales=(1.,), channels=1)
    sm = clm.shape_models[-1]
    if rng.rand() < .5:
        sm.n_active_components = min(3, sm.model.n_active_components)
    ens = clm.expert_ensembles[-1]
    which = rng.randint(2)
    mapinf = bool(rng.randint(2))
    cov = float(rng.uniform(3, 20))
    narrow = rng.rand() < .5
    if which == 0:
        # a narrow kernel turns the search into the plain maximum
        cov = .02 if narrow else cov
        alg = ActiveShapeModel(ens, sm, gaussian_covariance=cov)
    else:
        alg = RegularisedLandmarkMeanShift(ens, sm, kernel_covariance=cov)
    name = type(alg).__name__
    n_it = int(rng.randint(1, 4))
    c.note(algorithm=name, map_inference=mapinf, cov=cov, iterations=n_it)
    im = ims[rng.randint(len(ims))]
    # work at the scale the model was trained at
    from menpofit.builder import rescale_images_to_reference_shape
    im = rescale_images_to_reference_shape([im], "PTS", clm.reference_shape)[0]
    gt = im.landmarks["PTS"]
    s0 = gen.perturb(rng, gt, scale=.02, angle=.03, shift=2.)
    res = alg.run(im, s0, max_iters=n_it, map_inference=mapinf)
    # initial shape, its reconstruction, the steps
    c.check(3 <= len(res.shapes) <= 2 + n_it and
            len(res.shapes) == 1 + len(res.shape_parameters),
            "step/%s/iterations" % name)
    c.check(np.array_equal(res.shapes[0].points, s0.points),
            "step/%s/initial" % name)
    sm2 = sm.copy()
    sm2.set_target(s0)
    c.close(res.shapes[1].points, sm2.target.points, "step/%s/start" % name,
            rtol=1e-8)
    c.close(res.shape_parameters[0], sm2.as_vector(), "step/%s/start" % name,
            rtol=1e-8)
    # the model's basis at its mean, read off instances
    p0 = sm2.as_vector().copy()
    base = sm2.from_vector(np.zeros_like(p0)).target.points.ravel()
    B = np.array([sm2.from_vector(e).target.points.ravel() - base
                  for e in np.eye(len(p0))]).T
    for it in range(len(res.shape_parameters) - 1):
        x, p0 = res.shapes[it + 1].points, np.array(res.shape_parameters[it])
        resp = ens.predict_response(im, PointCloud(x))
        n, _, h, w = resp.shape
        y = np.zeros((n, 2))
        gy, gx = np.mgrid[:h, :w]
        gy, gx = gy - h // 2, gx - w // 2
        for k in range(n):
            r = resp[k, 0] - resp[k, 0].min()
            if which == 0:
                i = np.argmax(r)
                srt = np.sort(r.ravel())
                if srt[-1] - srt[-2] < 1e-9 * srt[-1]:
                    raise Skip()
                # the smooth peak, over a search window that is symmetric up
                # to the last row and column of patches of even sizes
                iy, ix = gy.ravel()[i], gx.ravel()[i]
                wt = np.exp(-((gy + iy) ** 2 + (gx + ix) ** 2) / (2 * cov))
                y[k] = -(wt * gy).sum() / wt.sum(), -(wt * gx).sum() / wt.sum()
                t = np.exp(-((gy - iy) ** 2 + (gx - ix) ** 2) / (2 * cov))
                t = np.array([(t * gy).sum(), (t * gx).sum()]) / t.sum()
                c.check(np.abs(y[k] - t).max() < 1, "step/%s/window" % name)
                continue
            else:
                wt = r * np.exp(-(gy ** 2 + gx ** 2) / (2 * cov))
            wt = wt / wt.sum()
            y[k] = (wt * gy).sum(), (wt * gx).sum()
        e = y.ravel()
        if mapinf:
            lam = np.concatenate([np.zeros(4), sm.model.noise_variance() /
                                  sm.model.eigenvalues])
            # argmin |B dp - e|^2 + sum lam (p + dp)^2
            dp = np.linalg.solve(B.T.dot(B) + np.diag(lam),
                                 B.T.dot(e) - lam * p0)
        else:
            dp = np.linalg.lstsq(B, e, rcond=None)[0]
        want = sm2.from_vector(p0 + dp).target.points.ravel()
        c.close(res.shapes[it + 2].points.ravel(), want,
                "step/%s/%s" % (name, "map" if mapinf else "ml"),
                rtol=1e-6, atol=1e-5)
        c.close(res.shape_parameters[it + 1], p0 + dp,
                "step/%s/parameters" % name, rtol=1e-6, atol=1e-5)
    c.event("steps/" + name)
    c.seen("step", name, mapinf, p, len(p0), n_it, narrow)


CASES = {"peak": (case_peak, 150, 1000), "response": (case_response, 150, 1000),
         "probability": (case_probability, 200, 1500),
         "step": (case_step, 150, 800), "fit": (case_fit, 150, 800)}
REQUIRED = {"peaks": 100, "responses": 30, "maps": 50,
            "steps/ActiveShapeModel": 10,
            "steps/RegularisedLandmarkMeanShift": 10,
            "fits/ActiveShapeModel": 20,
            "fits/RegularisedLandmarkMeanShift": 20}
