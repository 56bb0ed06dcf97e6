"""M06: every scale of a fit works in the coordinates of the image given."""
import numpy as np

from menpo.feature import ndfeature, no_op
from menpo.image import Image, MaskedImage
from menpo.shape import PointCloud

from . import gen, zoo
from .core import Skip

ID = "M06"
RULE = ("probe algorithms driven through the public multi-scale fitters on "
        "images whose pixels encode their own coordinates, over scales, "
        "diagonals, features that keep or halve the resolution and sharing of "
        "features between scales; trained fitters of every family with the "
        "calls of their per-scale algorithms recorded; distinct when scales, "
        "features, reference and image sizes differ")
ASSUMPTIONS = ["features that subsample by s displace content by at most s "
               "pixels, because menpo maps landmarks by the ratio of sizes",
               "bilinear sampling of a coordinate ramp is exact away from the "
               "border of the image",
               "fits whose linear system became singular decide nothing"]


@ndfeature
def halve(pixels):
    return pixels[:, ::2, ::2].copy()


@ndfeature
def swap(pixels):
    return pixels[::-1].copy()


@ndfeature
def third(pixels):
    return pixels[:, ::3, ::3].copy()


def ident(image):
    return no_op(image)


FEATURES = {"no_op": (no_op, 1, False), "ident": (ident, 1, False),
            "swap": (swap, 1, True), "halve": (halve, 2, False),
            "third": (third, 3, False)}


def coordinate_image(h, w, masked):
    px = np.mgrid[:h, :w].astype(float)
    return MaskedImage(px) if masked else Image(px)


def read(image, points, swapped):
    v = image.sample(PointCloud(points), order=1, mode="nearest").T
    return v[:, ::-1] if swapped else v


class Probe(object):
    """Stands for an algorithm: walks by known displacements."""

    def __init__(self, walk, log, scale_id, parametric):
        self.walk, self.log = walk, log
        self.scale_id, self.parametric = scale_id, parametric

    def run(self, image, initial_shape, gt_shape=None, max_iters=20,
            return_costs=False, **kwargs):
        from menpofit.result import (NonParametricIterativeResult,
                                     ParametricIterativeResult)
        shapes, s = [], initial_shape
        for d in self.walk[:max_iters + int(self.parametric)]:
            s = s.copy()
            s.points = s.points + d
            shapes.append(s)
        self.log.append((self.scale_id, image, initial_shape, gt_shape,
                         max_iters, list(shapes), dict(kwargs)))
        if self.parametric:
            return ParametricIterativeResult(
                shapes=shapes, shape_parameters=[np.zeros(1)] * len(shapes),
                initial_shape=initial_shape, image=image, gt_shape=gt_shape)
        return NonParametricIterativeResult(
            shapes=shapes, initial_shape=initial_shape, image=image,
            gt_shape=gt_shape)


def case_probe(c):
    from menpofit.fitter import (MultiScaleNonParametricFitter,
                                 MultiScaleParametricFitter,
                                 align_shape_with_bounding_box)
    rng = c.rng
    n = rng.randint(1, 5)
    scales = list(np.round(rng.uniform(.3, 1.3, n), 2))
    if rng.rand() < .6:
        scales = sorted(scales)
    for i in range(n):
        if rng.rand() < .25:
            scales[i] = [1., 1, scales[max(i - 1, 0)]][rng.randint(3)]
    names = list(FEATURES)
    pick = [names[rng.randint(len(names))] for _ in range(n)]
    for i in range(1, n):
        if rng.rand() < .5:
            pick[i] = pick[i - 1]
    feats = [FEATURES[k][0] for k in pick]
    h, w = rng.randint(110, 190, 2)
    im = coordinate_image(h, w, rng.rand() < .3)
    k = rng.randint(4, 12)
    # (well inside the image, so that no sample touches the border)
    s0 = PointCloud(np.array([[h, w]]) * rng.uniform(.3, .7, (k, 2)))
    size = rng.uniform(.6, 1.6)
    ref = PointCloud(gen.spread_points(rng, k, 60, 50))
    ref.points *= size * s0.norm() / ref.norm()
    gt = gen.perturb(rng, s0, shift=4., noise=1.) if rng.rand() < .6 else None
    parametric = bool(rng.randint(2))
    log = []
    unit0 = s0.norm() / ref.norm()
    algs = [Probe(rng.uniform(-1.2, 1.2, (6, k, 2)) * scales[i] /
                  (unit0 * FEATURES[pick[i]][1]), log, i, parametric)
            for i in range(n)]
    cls = MultiScaleParametricFitter if parametric else \
        MultiScaleNonParametricFitter
    f = cls(scales, ref, feats, algs)
    c.note(scales=scales, features=pick, image=(h, w), size=size,
           parametric=parametric, gt=gt is not None)
    iters = [int(rng.randint(1, 5)) for _ in range(n)]
    call = dict(max_iters=list(iters), gt_shape=gt, marker=rng.rand())
    if rng.rand() < .25:
        bb = s0.bounding_box()
        r = f.fit_from_bb(im, bb, **call)
        s0 = align_shape_with_bounding_box(ref, bb)
    else:
        r = f.fit_from_shape(im, s0, **call)
    c.check([e[0] for e in log] == list(range(n)), "probe/order",
            lambda: str([e[0] for e in log]))
    if len(log) != n:
        return
    size = s0.norm() / ref.norm()
    got = [s0.points]
    for i in range(n):
        _, image, start, g, it, shapes, kw = log[i]
        _, step, swapped = FEATURES[pick[i]]
        c.check(it == iters[i], "probe/budget")
        c.check(kw == {"marker": call["marker"]}, "probe/options")
        unit = size / scales[i]        # original pixels per pixel here
        exact = step == 1
        tol = 1e-6 * (h + w) if exact else 1.5 * step * size + .02 * step
        if exact:
            # the image is as large as asked for
            want = np.array([h, w]) / unit
            c.check(np.all(np.abs(np.array(image.shape) - want) <=
                           2 + .02 * want),
                    "probe/image-size", lambda: "%s not %s" % (
                        image.shape, want))
        else:
            want = np.array([h, w]) / unit / step
            c.check(np.all(np.abs(np.array(image.shape) - want) <=
                           2.5 + .02 * want),
                    "probe/image-size", lambda: "%s not %s" % (
                        image.shape, want))
        content = read(image, start.points, swapped)
        if i == 0:
            c.close(content, s0.points, "probe/initial-content", rtol=0,
                    atol=tol)
            c.close(start.points * unit * step, s0.points,
                    "probe/initial-scale", rtol=0,
                    atol=4 * unit * step + 2)
        else:
            p = log[i - 1]
            prev = read(p[1], p[5][-1].points, FEATURES[pick[i - 1]][2])
            t2 = tol if FEATURES[pick[i - 1]][1] == 1 else \
                tol + 1.5 * FEATURES[pick[i - 1]][1] * size
            c.close(content, prev, "probe/handover", rtol=0, atol=t2)
        if gt is None:
            c.check(g is None, "probe/gt")
        else:
            c.close(read(image, g.points, swapped), gt.points, "probe/gt",
                    rtol=0, atol=tol)
        new = [read(image, s.points, swapped) for s in shapes]
        got += new
        # the reported shapes of this scale, in image coordinates
        lo = len(got) - len(new)
        c.check(len(r.shapes) >= lo + len(new), "probe/shapes-missing")
        for q, s in zip(new, r.shapes[lo:lo + len(new)]):
            c.close(s.points, q, "probe/reported-shapes", rtol=0, atol=tol)
        c.event("scales")
        c.event("iterates", len(shapes))
    c.check(len(r.shapes) == len(got), "probe/number-of-shapes",
            lambda: "%d, not %d" % (len(r.shapes), len(got)))
    tol0 = 1e-6 * (h + w) if FEATURES[pick[0]][1] == 1 else 1e-6 * (h + w)
    c.close(r.initial_shape.points, s0.points, "probe/reported-initial",
            rtol=0, atol=tol0)
    c.close(r.final_shape.points, r.shapes[-1].points, "probe/reported-final")
    if gt is None:
        c.check(r.gt_shape is None, "probe/reported-gt")
    else:
        c.close(r.gt_shape.points, gt.points, "probe/reported-gt")
    c.check(np.array_equal(r.image.pixels, im.pixels), "probe/reported-image")
    c.seen("probe", n, scales, pick, parametric, gt is not None)


def affine(src, dst):
    X = np.hstack([src, np.ones((len(src), 1))])
    A, res, rank, sv = np.linalg.lstsq(X, dst, rcond=None)
    if rank < 3:
        raise Skip()
    return lambda p: np.hstack([p, np.ones((len(p), 1))]).dot(A)


def case_trained(c):
    """The calls the trained fitters make to their algorithms."""
    rng = c.rng
    name = zoo.NAMES[(c.index * 7 + rng.randint(3)) % len(zoo.NAMES)]
    fam = name.split("/")[0]
    scales = zoo.draw_scales(rng, int(rng.choice([2, 2, 3])))
    feats = None
    if fam not in ("DLIB",) and rng.rand() < .6:
        pool = [no_op, ident, halve]
        feats = [pool[rng.randint(3 if fam in ("LK", "CLM") else 2)]
                 for _ in scales]
    kw, n_points = {}, zoo.some_points(rng)
    if name.startswith("APS"):
        # the model requires a graph for its appearance
        kw = aps_graph(n_points)
    spec = zoo.diverged(zoo.build, rng, name, scales=scales, features=feats,
                        model_kw=kw, n_points=n_points,
                        channels=1 if fam == "DLIB" else None)
    f = spec.fitter
    c.note(name=name, scales=scales,
           features=None if feats is None else [x.__name__ for x in feats])
    log = []
    algs = list(f.algorithms)
    c.check(len(algs) == len(scales), "trained/n-algorithms")
    for i, a in enumerate(algs):
        def run(image, initial_shape, _a=a, _run=a.run, _i=i, **k):
            res = _run(image, initial_shape, **k)
            log.append((_i, image, initial_shape.points.copy(),
                        k.get("gt_shape"), res))
            return res
        a.run = run
    test = spec.tests[0]
    s0 = zoo.start(rng, spec, test)
    gt = test.landmarks["PTS"].copy()
    # (the fitter removes what it attaches, even from an image that fails)
    fkw = {}
    if fam != "DLIB":
        fkw["max_iters"] = 2 * len(scales)
    r = zoo.diverged(f.fit_from_shape, test, s0, gt_shape=gt, **fkw)
    if fam == "DLIB":
        s0 = s0.bounding_box()    # all that dlib starts from
    c.check([e[0] for e in log] == list(range(len(scales))),
            "trained/%s/order" % fam, lambda: str([e[0] for e in log]))
    last = None
    used = []
    for (i, image, start, g, res) in log:
        back = affine(g.points, gt.points)
        first = back(start)
        ratio = 1.0
        if last is None:
            c.close(first, s0.points, "trained/%s/initial" % fam, rtol=1e-6,
                    msg=name)
        else:
            c.close(first, last, "trained/%s/handover" % fam, rtol=1e-6,
                    msg=name)
        # content: the image at the shape is the content at the landmarks
        feat = f.holistic_features[i] if hasattr(f, "holistic_features") \
            else no_op
        h = getattr(feat, "__name__", "") == "halve"
        if image.n_channels == test.n_channels:
            a = image.sample(g, order=1, mode="nearest")
            b = test.sample(gt, order=1, mode="nearest")
            c.close(a, b, "trained/%s/content" % fam, rtol=0, msg=name,
                    atol=.15 if h else .1)
        last = back(res.final_shape.points)
        used += [back(s.points) for s in
                 (res.shapes[1:] if res.initial_shape is not None
                  else res.shapes)]
    c.close(r.final_shape.points, last, "trained/%s/final" % fam, rtol=1e-6,
            msg=name)
    shapes = list(r.shapes)
    if fam != "DLIB":
        c.close(r.initial_shape.points, s0.points,
                "trained/%s/initial-reported" % fam, rtol=1e-6, msg=name)
        shapes = shapes[1:]
    c.check(len(shapes) == len(used), "trained/%s/shapes" % fam)
    if len(shapes) == len(used):
        for s, u in zip(shapes, used):
            c.close(s.points, u, "trained/%s/iterates" % fam, rtol=1e-6,
                    msg=name)
    c.check(np.array_equal(r.gt_shape.points, gt.points),
            "trained/%s/gt" % fam)
    # coarse to fine: image sizes follow the scales (same features)
    for (i, im_i, *_), (j, im_j, *_) in zip(log, log[1:]):
        if feats is None or feats[i] is feats[j]:
            want = scales[j] / scales[i]
            got = im_j.shape[0] / float(im_i.shape[0])
            c.check(abs(got - want) < .06 * want + .02,
                    "trained/%s/sizes" % fam, lambda: "%s not %s" % (got, want))
    c.event("trained/" + fam)
    c.seen("trained", name, scales, feats is None or
           [x.__name__ for x in feats])


def aps_graph(n):
    from menpo.shape import UndirectedGraph
    e = np.array([[i, i + 1] for i in range(n - 1)])
    return {"appearance_graph": UndirectedGraph.init_from_edges(e, n)}


CASES = {"probe": (case_probe, 1800, 6000), "trained": (case_trained, 540, 900)}
REQUIRED = {"scales": 300, "iterates": 500, "trained/AAM": 10,
            "trained/AAMSD": 3, "trained/ATM": 3, "trained/LK": 5,
            "trained/SDM": 5}
