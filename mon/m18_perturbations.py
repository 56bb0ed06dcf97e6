"""M18: perturbations have the requested distribution and alignment."""
import numpy as np

from menpo.image import Image
from menpo.shape import PointCloud, bounding_box

from . import gen

ID = "M18"
RULE = ("noisy alignments sampled thousands of times per requested kind and "
        "size of noise, for sources anywhere relative to their targets; single "
        "draws replayed from their random state; alignments to boxes with "
        "every transform; perturbation generators over groups, counts and "
        "custom functions; distinct when noise, poses and options differ")
ASSUMPTIONS = ["uniform noise of percentage p scales by 1 +- p/2, rotates by "
               "+-180p degrees and shifts each axis by +-p of the target's "
               "range, about the target's centre; Gaussian noise has a third "
               "of those as its standard deviations",
               "Kolmogorov-Smirnov limit sqrt(n) D < 3.6 (false alarm "
               "probability below 1e-10)"]


def procrustes(s, t, rotation):
    cs, ct = s.mean(0), t.mean(0)
    a, b = s - cs, t - ct
    k = np.linalg.norm(b) / np.linalg.norm(a)
    R = np.eye(2)
    if rotation:
        num = np.sum(a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0])
        den = np.sum(a * b)
        R = gen.rot(np.arctan2(num, den))
    return lambda p: k * (p - cs).dot(R.T) + ct


def pair(rng, kind):
    n = int(rng.choice([4, 7, 20]))
    a = gen.spread_points(rng, n, rng.uniform(10, 100), rng.uniform(10, 100))
    a = a + rng.uniform(-500, 500, 2)
    b = (a - a.mean(0)).dot(gen.rot(rng.uniform(-2, 2)).T) * rng.uniform(.2, 5)
    b = b + rng.randn(n, 2) * np.ptp(b, axis=0) * .05 + rng.uniform(-500, 500, 2)
    if kind == "box":
        b = PointCloud(b).bounding_box().points
    return a, b


def ks(x, cdf):
    x = np.sort(x)
    n = len(x)
    f = cdf(x)
    d = max(np.max(np.arange(1, n + 1) / n - f), np.max(f - np.arange(n) / n))
    return d * np.sqrt(n)


def cdfs(noise_type):
    from scipy.stats import norm
    if noise_type == "gaussian":
        return lambda x: norm.cdf(x * 3.)
    return lambda x: np.clip((x + 1) / 2., 0, 1)


def case_distribution(c):
    import menpofit.fitter as F
    rng = c.rng
    n = 2500 if not c.thorough else 6000
    noise_type = ["uniform", "gaussian"][c.index % 2]
    how = ["shape", "box", "transform"][rng.randint(3)]
    rotation = bool(rng.rand() < .5)
    src, tgt = pair(rng, "box" if how == "box" else "shape")
    if rng.rand() < .4:
        v = float(rng.uniform(.02, .12) if rng.rand() < .7 else
                  rng.uniform(1.05, 1.4 if noise_type == "uniform" else 1.2))
        pct, p3 = (v if rng.rand() < .6 else [v]), [v] * 3
    else:
        p3 = [float(x) for x in rng.uniform(.02, .2, 3)]
        pct = list(p3)
    kw = dict(noise_type=noise_type, noise_percentage=pct,
              allow_alignment_rotation=rotation)
    if noise_type == "uniform" and rng.rand() < .5:
        kw.pop("noise_type")
    if not rotation and rng.rand() < .5:
        kw.pop("allow_alignment_rotation")
    c.note(how=how, **{k: str(v) for k, v in kw.items()})
    c.seen(how, noise_type, rotation, *p3)
    S, T = PointCloud(src), PointCloud(tgt)
    if how == "box":
        al = procrustes(PointCloud(src).bounding_box().points, tgt, rotation)
        B = T.bounding_box()
        draw = lambda: F.noisy_shape_from_bounding_box(S, B, **kw).points
        centre, rng_t = tgt.mean(0), np.ptp(tgt, axis=0)
    else:
        al = procrustes(src, tgt, rotation)
        centre, rng_t = tgt.mean(0), np.ptp(tgt, axis=0)
        if how == "shape":
            draw = lambda: F.noisy_shape_from_shape(S, T, **kw).points
        else:
            draw = lambda: F.noisy_alignment_similarity_transform(
                S, T, **kw).apply(src)
    base = al(src)
    z0 = (base - base.mean(0))
    # base centre relative to the centre of the target (boxes: not zero)
    off = base.mean(0) - centre
    out = np.empty((n, 4))
    den = np.sum(z0 ** 2)
    worst = 0
    for i in range(n):
        q = draw()
        m = q.mean(0)
        a = np.sum(z0 * (q - m)) / den
        b = np.sum(z0[:, 0] * (q - m)[:, 1] - z0[:, 1] * (q - m)[:, 0]) / den
        M = np.array([[a, -b], [b, a]])
        worst = max(worst, np.abs(z0.dot(M.T) + m - q).max())
        t = m - M.dot(off) - centre
        out[i] = [np.hypot(a, b) - 1, np.arctan2(b, a), t[0], t[1]]
    c.check(worst < 1e-6 * max(1, np.abs(base).max()), "not-a-similarity",
            "off by %g" % worst)
    unit = np.array([p3[0] * .5, np.deg2rad(180 * p3[1]), p3[2] * rng_t[0],
                     p3[2] * rng_t[1]])
    x = out / unit
    names = ["scale", "rotation", "translation-0", "translation-1"]
    for k in range(4):
        if p3[1] > .3 and k == 1:
            continue
        d = ks(x[:, k], cdfs(noise_type))
        c.check(d < 3.6, "distribution/%s/%s" % (names[k], noise_type),
                "sqrt(n) D = %.2f, mean %.3f, std %.3f, extremes %.3f %.3f (%s)"
                % (d, x[:, k].mean(), x[:, k].std(), x[:, k].min(),
                   x[:, k].max(), kw))
        if noise_type == "uniform":
            c.check(np.abs(x[:, k]).max() <= 1 + 1e-6,
                    "distribution/%s/range" % names[k],
                    str(np.abs(x[:, k]).max()))
        c.event("distribution tested")
    r = np.corrcoef(x.T) - np.eye(4)
    c.check(np.abs(r).max() * np.sqrt(n) < 6.8, "distribution/dependent",
            str(np.round(r, 2)))
    # successive draws differ
    r1 = [np.corrcoef(x[1:, k], x[:-1, k])[0, 1] for k in range(4)]
    c.check(np.abs(r1).max() * np.sqrt(n) < 6.8, "distribution/serial", str(r1))
    c.event("samples", n)


def case_single(c):
    """One call: replay, no noise, arguments, bad arguments."""
    import menpofit.fitter as F
    rng = c.rng
    how = ["shape", "box"][rng.randint(2)]
    rotation = bool(rng.rand() < .5)
    src, tgt = pair(rng, how)
    S = PointCloud(src)
    T = PointCloud(tgt) if how == "shape" else PointCloud(tgt).bounding_box()
    f = F.noisy_shape_from_shape if how == "shape" else \
        F.noisy_shape_from_bounding_box
    noise = ["uniform", "gaussian"][rng.randint(2)]
    pct = [float(x) for x in rng.uniform(0, .3, 3)]
    c.note(how=how, noise=noise, pct=pct)
    c.seen(how, noise, rotation, *pct)
    al = procrustes(src if how == "shape" else
                    PointCloud(src).bounding_box().points, tgt, rotation)
    zero = f(S, T, noise_type="".join(list(noise)),
             noise_percentage=[0., .0, 0], allow_alignment_rotation=rotation)
    c.close(zero.points, al(src), "no-noise", rtol=1e-9, atol=1e-7)
    c.close(f(S, T, noise_percentage=0., noise_type=noise,
              allow_alignment_rotation=rotation).points, al(src), "no-noise",
            rtol=1e-9, atol=1e-7)
    c.event("no noise")
    # only one of the three kinds of noise
    k = rng.randint(3)
    one = [0., 0., 0.]
    one[k] = .15
    q = f(S, T, noise_type=noise, noise_percentage=one,
          allow_alignment_rotation=rotation).points
    b = al(src)
    ctr = tgt.mean(0)
    if k == 0:      # scaling about the target's centre
        u = b - ctr
        s = np.sum(u * (q - ctr)) / np.sum(u * u)
        c.close(q, ctr + s * u, "only-scale", atol=1e-7)
        c.check(abs(s - 1) > 1e-9, "noise-missing/scale")
    elif k == 1:
        c.close(np.linalg.norm(q - ctr, axis=1), np.linalg.norm(b - ctr, axis=1),
                "only-rotation", atol=1e-7)
        c.check(np.abs(q - b).max() > 1e-9, "noise-missing/rotation")
    else:
        c.close(q - b, np.tile((q - b).mean(0), (len(b), 1)),
                "only-translation", atol=1e-7)
        d = (q - b).mean(0)
        c.check(np.all(np.abs(d) > 1e-12) and d[0] != d[1],
                "noise-missing/translation")
    seed = int(rng.randint(2 ** 31))
    lst = list(pct)
    np.random.seed(seed)
    a = f(S, T, noise, lst, rotation)
    b2 = f(S, T, noise, lst, rotation)
    np.random.seed(seed)
    a2 = f(S, T, noise, lst, rotation)
    c.check(np.array_equal(a.points, a2.points), "replay")
    c.check(not np.array_equal(a.points, b2.points), "fresh-noise")
    c.check(np.array_equal(S.points, src) and np.array_equal(
        T.points, tgt if how == "shape" else PointCloud(tgt).bounding_box().points)
        and lst == pct, "arguments-changed")
    c.raises(ValueError, lambda: f(S, T, noise_type="poisson"), "unknown-noise")
    c.event("single")


def case_target(c):
    """Alignment to a target with noise on its points."""
    from menpo.transform import AlignmentAffine, AlignmentSimilarity
    import menpofit.fitter as F
    rng = c.rng
    src, tgt = pair(rng, "shape")
    S, T = PointCloud(src), PointCloud(tgt)
    cls = [AlignmentAffine, AlignmentSimilarity][rng.randint(2)]
    std = float(rng.uniform(.01, .2))
    c.seen(cls.__name__, std)
    t0 = F.noisy_target_alignment_transform(S, T, alignment_transform_cls=cls,
                                            noise_std=0.)
    c.close(t0.apply(src), cls(S, T).apply(src), "target/no-noise", rtol=1e-9)
    xs, given = [], []

    def record(source, target, **kwargs):
        given.append((source.points.copy(), target.points.copy(), kwargs))
        return cls(source, target)
    for _ in range(300):
        t = F.noisy_target_alignment_transform(
            S, T, alignment_transform_cls=record, noise_std=std, option=3)
        c.check(isinstance(t, cls), "target/class")
        xs.append((given[-1][1] - tgt) / (std * np.ptp(tgt, axis=0)))
        c.check(np.array_equal(given[-1][0], src) and
                given[-1][2] == {"option": 3}, "target/arguments")
    c.close(t.apply(src), cls(S, PointCloud(given[-1][1])).apply(src),
            "target/alignment", rtol=1e-9)
    x = np.array(xs)
    from scipy.stats import norm
    c.check(ks(x.ravel(), norm.cdf) < 3.6, "target/distribution",
            "std %g" % x.std())
    for d in (0, 1):
        c.check(ks(x[:, :, d].ravel(), norm.cdf) < 3.6, "target/distribution")
    if x.shape[1] > 1:
        r = np.corrcoef(x[:, :, 0].T)
        c.check(np.abs(r - np.eye(len(r))).max() * np.sqrt(300) < 7.5,
                "target/independence")
    c.check(np.array_equal(T.points, tgt) and np.array_equal(S.points, src),
            "arguments-changed")
    c.event("noisy target")


def case_align(c):
    from menpo.transform import (AlignmentAffine, AlignmentSimilarity,
                                 AlignmentUniformScale, AlignmentTranslation)
    import menpofit.fitter as F
    rng = c.rng
    src, _ = pair(rng, "shape")
    S = PointCloud(src)
    h, w = rng.uniform(5, 200, 2)
    o = rng.uniform(-300, 300, 2)
    box = bounding_box(o, o + [h, w])
    ang = 0.
    tilted = rng.rand() < .4
    if tilted:
        ang = rng.uniform(-.7, .7)
        p = (box.points - box.centre()).dot(gen.rot(ang).T) + box.centre()
        box = box.from_vector(p.ravel())
    k = rng.randint(4)
    c.note(box=box.points, angle=ang, cls=k)
    c.seen(k, tilted, round(float(h), 6), len(src))
    sb = S.bounding_box().points
    ctr = box.points.mean(0)
    own = lambda q: 0.5 * (q.min(0) + q.max(0))
    bsnap = box.points.copy()
    if k == 0:
        q = F.align_shape_with_bounding_box(S, box)
        want = procrustes(sb, box.points, True)(src)
    elif k == 1:
        rot = bool(rng.rand() < .5)
        q = F.align_shape_with_bounding_box(
            S, box, alignment_transform_cls=AlignmentSimilarity, rotation=rot)
        want = procrustes(sb, box.points, rot)(src)
    elif k == 2:
        q = F.align_shape_with_bounding_box(S, box, AlignmentAffine)
        A = np.linalg.lstsq(np.c_[sb, np.ones(4)], box.points, rcond=None)[0]
        want = np.c_[src, np.ones(len(src))].dot(A)
    else:
        q = F.align_shape_with_bounding_box(
            S, box, alignment_transform_cls=AlignmentTranslation)
        want = src - sb.mean(0) + ctr
    c.close(q.points, want, "align/definition", rtol=1e-8, atol=1e-7)
    if not tilted:
        c.close(own(q.points), ctr, "align/centre", rtol=1e-8, atol=1e-7)
        e = np.ptp(q.points, axis=0)
        if k in (0, 1):
            c.close(np.hypot(*e), np.hypot(h, w), "align/size", rtol=1e-8)
        elif k == 2:
            c.close(e, [h, w], "align/size", rtol=1e-8)
        else:
            c.close(e, np.ptp(src, axis=0), "align/size", rtol=1e-8)
    c.check(np.array_equal(box.points, bsnap) and np.array_equal(S.points, src),
            "arguments-changed")
    c.event("aligned")


def case_generator(c):
    import menpofit.fitter as F
    rng = c.rng
    n_im = int(rng.randint(1, 5))
    groups = [None, "det_*", "det_1", "*_0"][rng.randint(4)]
    n_p = int(rng.choice([1, 2, 3, 5, 12, 37, 111], p=[
        .18, .18, .18, .18, .18, .05, .05]))
    ims, gts, boxes = [], [], []
    for i in range(n_im):
        im = Image(np.zeros((1, int(rng.randint(80, 140)),
                             int(rng.randint(80, 140)))))
        g = gen.spread_points(rng, 8, 40, 30) + rng.uniform(10, 40, 2)
        im.landmarks["PTS"] = PointCloud(g)
        bs = []
        # a detector does not find the same number everywhere
        for j in range(3 + (int(rng.randint(3)) if groups == "det_*" and
                            rng.rand() < .5 else 0)):
            o = g.min(0) + rng.uniform(-8, 8, 2)
            b = bounding_box(o, o + np.ptp(g, axis=0) * rng.uniform(.8, 1.2))
            if rng.rand() < .15:      # partly beyond the image
                b = b.from_vector((b.points - b.points.min(0) -
                                   rng.uniform(1, 9, 2)).ravel())
            if rng.rand() < .3:       # what counts is where the points reach
                im.landmarks["det_%d" % j] = PointCloud(np.vstack([
                    b.points, b.points.mean(0) + rng.randn(3, 2)])[
                        rng.permutation(7)])
            else:
                im.landmarks["det_%d" % j] = b
            bs.append(b.points.copy())
        other = bounding_box([1., 1.], [30., 30.])
        im.landmarks["other_0"] = other
        ims.append(im)
        gts.append(g)
        boxes.append({None: [PointCloud(g).bounding_box().points], "det_*": bs,
                      "det_1": [bs[1]], "*_0": [bs[0], other.points]}[groups])
    snaps = [gen.snapshot_image(im) for im in ims]
    calls = []

    def perturb(shape, bb):
        q = F.noisy_shape_from_bounding_box(shape, bb, noise_percentage=.1)
        if np.random.rand() < .2:          # leaves the image
            q = PointCloud(q.points + [200., -150.])
        calls.append((shape.points.copy(), bb.points.copy(), q))
        return q
    seed = int(rng.randint(2 ** 31))
    c.note(images=n_im, groups=groups, perturbations=n_p)
    c.seen(n_im, str(groups), n_p, seed)
    np.random.seed(seed)
    fn = F.generate_perturbations_from_gt(ims, n_p, perturb, gt_group="PTS",
                                          bb_group_glob=groups)
    c.check(len(calls) == sum(map(len, boxes)) * n_p, "generator/calls",
            "%d calls" % len(calls))
    k = 0
    for im, g, bs, sn in zip(ims, gts, boxes, snaps):
        got = fn(im)
        per_image = len(bs) * (n_p + (groups is not None))
        c.check(len(got) == per_image, "generator/count",
                "%d boxes instead of %d" % (len(got), per_image))
        lim = np.array(im.shape) - 1
        want = []
        for b in bs:
            mine = calls[k:k + n_p]
            k += n_p
            for s_, b_, q in mine:
                c.close(s_, PointCloud(g).bounding_box().points,
                        "generator/shape-argument")
                c.close(b_, b, "generator/box-argument")
                want.append(np.clip(q.bounding_box().points, 0, lim))
            if groups is not None:
                want.append(np.clip(b, 0, lim))
        key = lambda a: tuple(np.round(a, 6).ravel())
        A = sorted(key(b.points) for b in got)
        B = sorted(key(b) for b in want)
        # menpo bounds images at the last pixel
        ok = len(A) == len(B) and np.allclose(A, B, atol=1e-5)
        c.check(ok, "generator/boxes", lambda: "%s\n%s" % (A[:3], B[:3]))
        # everything that was there is still there
        now = gen.snapshot_image(im)
        c.check(np.array_equal(now[1], sn[1]) and all(
            l in now[4] and np.array_equal(now[4][l][1], sn[4][l][1])
            for l in sn[4]), "generator/image-changed")
        c.event("generated", len(got))
    # replay
    first = [[b.points.copy() for b in fn(im)] for im in ims]
    for im in ims:
        for name in list(im.landmarks):
            if name.startswith("__gen"):
                del im.landmarks[name]
    np.random.seed(seed)
    fn = F.generate_perturbations_from_gt(ims, n_p, perturb, gt_group="PTS",
                                          bb_group_glob=groups)
    for im, f in zip(ims, first):
        c.check(all(np.array_equal(a, b.points) for a, b in zip(f, fn(im))),
                "generator/replay")
    c.raises(ValueError, lambda: F.generate_perturbations_from_gt(
        ims, 1, perturb, gt_group="PTS", bb_group_glob="nothing*"),
        "generator/no-box")


def case_fit_box(c):
    """fit_from_bb starts from the reference shape aligned to the box."""
    from . import zoo
    rng = c.rng
    names = ["ATM/HolisticATM/InverseCompositional",
             "CLM/CLM/ActiveShapeModel", "SDM/SupervisedDescentFitter/"
             "NonParametricNewton", "LK/InverseCompositional/SSD",
             "AAM/PatchAAM/WibergInverseCompositional"]
    spec = zoo.build(rng, names[c.index % len(names)], n_points=8)
    c.note(name=spec.name)
    c.seen(spec.name, c.index)
    t = spec.tests[0]
    bb = t.landmarks["PTS"].bounding_box()
    p = bb.points * rng.uniform(.95, 1.05) + rng.uniform(-2, 2, 2)
    how = ["near", "outside", "tilted"][rng.randint(3)]
    if how == "outside":         # part of the box lies beyond the image
        e = np.ptp(p, axis=0) * rng.uniform(.05, .25, 2)
        lo = rng.rand(2) < .5
        p = p - p.min(0) - e if lo.all() else \
            p - p.max(0) + np.array(t.shape) - 1 + e
    elif how == "tilted":
        p = (p - p.mean(0)).dot(gen.rot(rng.uniform(-.5, .5)).T) + p.mean(0)
    bb = bb.from_vector(p.ravel())
    # so may the ground truth
    gt = None
    if rng.rand() < .5:
        gt = PointCloud(t.landmarks["PTS"].points + rng.uniform(-60, 60, 2))
    c.note(box=how, gt=gt is not None)
    c.event("box " + how)
    res = zoo.diverged(spec.fitter.fit_from_bb, t, bb, gt_shape=gt)
    if gt is not None:
        c.close(res.gt_shape.points, gt.points, "fit-from-box/gt")
        c.event("ground truth anywhere")
    ref = spec.fitter.reference_shape
    s0 = procrustes(ref.bounding_box().points, bb.points, True)(ref.points)
    res2 = zoo.diverged(spec.fitter.fit_from_shape, t,
                        PointCloud(s0) if spec.family == "LK" else
                        ref.from_vector(s0.ravel()))
    # the fits agree because they start from the same shape
    if hasattr(res, "initial_shape") and res.initial_shape is not None:
        c.close(res.initial_shape.points, res2.initial_shape.points,
                "fit-from-box/initial", rtol=1e-6, atol=1e-5)
        c.close(res.initial_shape.points, s0, "fit-from-box/initial",
                rtol=1e-6, atol=2. if spec.family != "SDM" and
                not spec.family == "LK" else 1e-5)
        c.event("box fit")


CASES = {"distribution": (case_distribution, 46, 120),
         "single": (case_single, 343, 3000), "target": (case_target, 46, 200),
         "align": (case_align, 429, 4000),
         "generator": (case_generator, 171, 1000),
         "fit_box": (case_fit_box, 46, 240)}
REQUIRED = {"distribution tested": 50, "samples": 30000, "aligned": 100,
            "generated": 200, "no noise": 100, "noisy target": 10,
            "box fit": 20, "box outside": 5, "box tilted": 5,
            "ground truth anywhere": 8}
