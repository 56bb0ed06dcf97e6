"""M25: regression tree ensembles see and return menpo coordinates."""
import os
import warnings

import numpy as np

from menpo.image import Image, MaskedImage
from menpo.shape import PointCloud, bounding_box

from . import gen
from .core import Skip
from .m07_purity import snap, diff
from .m24_io import scratch

ID = "M25"
RULE = ("shapes, boxes, images of every kind converted to and from dlib; "
        "ensembles trained with recorded calls of the learner (what it was "
        "given, what it returned) over drawn options, scales, boxes and "
        "perturbations, replayed step by step on drawn images; distinct when "
        "data, options or configuration differ")
ASSUMPTIONS = ["dlib, and the image rescaling of menpo, are trusted",
               "dlib takes integer points and boxes: less than a pixel is "
               "lost in every conversion to it"]


def cloud(rng, n=None, big=None):
    n = n or int(rng.choice([1, 2, 3, 5, 9, 30, 68]))
    s = big or float(rng.choice([3., 40., 300., 4000.]))
    p = rng.uniform(-.3 * s, s, (n, 2)) if rng.rand() < .4 else \
        rng.uniform(0, s, (n, 2))
    if rng.rand() < .3:
        p = np.round(p)
    k = rng.randint(3)
    if k == 1 and n > 2:
        from menpo.shape import PointUndirectedGraph
        a = np.zeros((n, n))
        a[0, 1] = a[1, 0] = 1
        return PointUndirectedGraph(p, a)
    if k == 2 and n > 2:
        from menpo.shape import TriMesh
        return TriMesh(p, trilist=np.array([[0, 1, 2]]))
    return PointCloud(p)


def rect_of(p):
    lo, hi = p.min(axis=0), p.max(axis=0)
    return np.array([lo[0], lo[1], hi[0], hi[1]])


def rect(r):
    return np.array([r.top(), r.left(), r.bottom(), r.right()], dtype=float)


def parts(d):
    return np.array([[q.y, q.x] for q in d.parts()], dtype=float)


def near(c, got, want, mech, msg=""):
    """Equal where representable, within a pixel elsewhere."""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if not c.check(got.shape == want.shape, mech + "/shape", "%s %s" % (
            got.shape, want.shape)):
        return
    d = np.abs(got - want)
    c.check(np.all(d < 1), mech, lambda: "%s off by %g" % (msg, d.max()))
    whole = want == np.round(want)
    c.check(np.all(d[whole] == 0), mech + "/exact", msg)
    c.check(np.all(got == np.round(got)), mech + "/integer", msg)


def case_points(c):
    import dlib
    from menpofit.dlib import conversion as V
    rng = c.rng
    pc = cloud(rng)
    w = snap(pc)
    bb = cloud(rng)
    c.seen(pc.n_points, type(pc).__name__, *pc.points[0])
    ps = V.pointcloud_to_dlib_parts(pc)
    near(c, [[q.y, q.x] for q in ps], pc.points, "points/parts")
    r = V.pointcloud_to_dlib_rect(pc)
    near(c, rect(r), rect_of(pc.points), "points/rect")
    d = V.bounding_box_pointcloud_to_dlib_fo_detection(bb, pc)
    near(c, rect(d.rect), rect_of(bb.points), "points/detection/rect")
    near(c, parts(d), pc.points, "points/detection/parts")
    back = V.dlib_full_object_detection_to_pointcloud(d)
    c.check(type(back) is PointCloud, "points/back/type")
    near(c, back.points, pc.points, "points/back")
    c.close(back.points, parts(d), "points/back/same", atol=0)
    # boxes of integers survive both ways
    v = np.sort(rng.randint(-50, 500, (2, 2)), axis=0)
    r = dlib.rectangle(left=int(v[0, 1]), top=int(v[0, 0]),
                       right=int(v[1, 1]), bottom=int(v[1, 0]))
    b = V.dlib_rect_to_bounding_box(r)
    want = bounding_box(v[0], v[1])
    c.check(np.array_equal(b.points, want.points) and b.n_points == 4,
            "points/box", str(b.points))
    c.check(type(b) is type(want), "points/box/type")
    c.check(V.pointcloud_to_dlib_rect(b) == r, "points/box/round-trip")
    b2 = V.dlib_rect_to_bounding_box(V.pointcloud_to_dlib_rect(bb))
    near(c, rect_of(b2.points), rect_of(bb.points), "points/box/again")
    c.check(diff(w, snap(pc)) is None, "points/changed")
    c.event("shapes converted")


def pixels8(px):
    """The 8-bit picture of pixels of a channel-first image in [0, 1]."""
    px = np.asarray(px)
    if px.dtype == np.uint8:
        out = px.astype(float)
    else:
        out = px.astype(float) * 255
    return out[0] if len(out) == 1 else np.moveaxis(out, 0, -1)


def case_pixels(c):
    from menpofit.dlib.conversion import image_to_dlib_pixels
    rng = c.rng
    ch = int(rng.choice([1, 1, 3, 3, 2, 4, 5]))
    h, w = rng.randint(2, 60, 2)
    k = rng.randint(4)
    px = rng.rand(ch, h, w)
    if rng.rand() < .3:
        px = rng.randint(0, 256, (ch, h, w)) / 255.
    if k == 1:
        px = px.astype(np.float32)
    elif k == 2:
        px = (px * 255).round().astype(np.uint8)
    im = Image(px)
    if k == 3:
        im = MaskedImage(px, mask=rng.rand(h, w) < .9)
    c.seen(ch, h, w, k)
    s = snap(im)
    try:
        got = image_to_dlib_pixels(im)
    except ValueError:
        c.check(ch not in (1, 3), "pixels/refused", "%d channels" % ch)
        c.event("images refused")
        return
    c.check(got.dtype == np.uint8, "pixels/type", str(got.dtype))
    want = pixels8(px if ch <= 3 else px[:1])
    if c.check(got.shape == want.shape, "pixels/shape", "%s %s" % (
            got.shape, want.shape)):
        d = np.abs(got - want)
        c.check(np.all(d <= 1 - 1e-9) or np.all(d < 1.0001),
                "pixels/values", "%g" % d.max())
        if k == 2:
            c.check(np.all(d == 0), "pixels/exact")
    c.check(diff(s, snap(im)) is None, "pixels/changed")
    c.event("images converted")


OPTS = {"feature_padding": ("feature_pool_region_padding", [0, 1]),
        "n_pixel_pairs": ("feature_pool_size", [20, 30, 60]),
        "distance_prior_weighting": ("lambda_param", [.05, .1, .3]),
        "regularisation_weight": ("nu", [.1, .2, .5]),
        "n_split_tests": ("num_test_splits", [3, 5, 10]),
        "n_trees": ("num_trees_per_cascade_level", [2, 4, 7]),
        "n_dlib_perturbations": ("oversampling_amount", [1, 2, 3]),
        "n_tree_levels": ("tree_depth", [1, 2, 3])}
DEFAULTS = {"feature_padding": 0, "n_pixel_pairs": 400,
            "distance_prior_weighting": .1, "regularisation_weight": .1,
            "n_split_tests": 20, "n_trees": 500, "n_dlib_perturbations": 1,
            "n_tree_levels": 5}


def case_options(c):
    import dlib
    from menpofit.dlib import conversion as V
    from menpofit.dlib.algorithm import DlibAlgorithm
    rng = c.rng
    o = dlib.shape_predictor_training_options()
    names = sorted(p for p in dir(o) if "__" not in p)
    for n in names:
        v = getattr(o, n)
        if isinstance(v, bool):
            new = bool(rng.rand() < .5)
        elif isinstance(v, int):
            new = int(rng.randint(1, 50))
        elif isinstance(v, float):
            new = float(rng.uniform(.01, .9))
        elif isinstance(v, str):
            new = "seed%d" % rng.randint(1000)
        else:
            continue
        setattr(o, n, new)
    before = {n: getattr(o, n) for n in names if not callable(getattr(o, n))}
    q = V.copy_dlib_options(o)
    after = {n: getattr(q, n) for n in before}
    c.check(before == after, "options/copy", str(
        [n for n in before if before[n] != after[n]]))
    t = int(rng.randint(1, 30))
    a = DlibAlgorithm(o, n_iterations=t)
    c.check(a.n_iterations == t and a.dlib_options.cascade_depth == t,
            "options/depth")
    c.check({n: getattr(o, n) for n in before} == before, "options/caller")
    got = {n: getattr(a.dlib_options, n) for n in before}
    c.check(all(got[n] == before[n] for n in before if n != "cascade_depth"),
            "options/algorithm")
    a.n_iterations = t + 3
    c.check(a.n_iterations == t + 3 and a.dlib_options.cascade_depth == t + 3,
            "options/depth-set")
    c.check(o.cascade_depth == before["cascade_depth"] and
            q.cascade_depth == before["cascade_depth"], "options/shared")
    c.seen(t, *sorted(before.items())[:4])
    c.event("option sets copied")


class Recorder(object):
    """Stands for the dlib module; records what is trained on what."""

    def __init__(self, real):
        self._real, self.calls = real, []

    def __getattr__(self, name):
        return getattr(self._real, name)

    def train_shape_predictor(self, images, detections, options):
        model = self._real.train_shape_predictor(images, detections, options)
        self.calls.append(dict(
            images=[np.array(i) for i in images],
            rects=[[rect(d.rect) for d in ds] for ds in detections],
            parts=[[parts(d) for d in ds] for ds in detections],
            options={n: getattr(options, n) for n in dir(options)
                     if "__" not in n}, model=model))
        return model


class Perturb(object):
    """A perturbation that keeps what it was asked and what it answered."""

    def __init__(self, rng, amount):
        self.rng = np.random.RandomState(rng.randint(1 << 30))
        self.amount, self.calls = amount, []

    def __call__(self, shape, bb):
        lo, hi = bb.bounds()
        s = hi - lo
        a = lo + self.amount * s * self.rng.uniform(-1, 1, 2)
        b = hi + self.amount * s * self.rng.uniform(-1, 1, 2)
        out = bounding_box(a, b)
        self.calls.append((rect_of(shape.points), rect_of(bb.points),
                           rect_of(out.points)))
        return out


def images_of(rng, n, points, size, channels, noise=0.):
    fam, ims = gen.stamped_dataset(rng, n, points, size, channels=channels,
                                   h=size[0] * .55, w=size[1] * .55)
    for i in ims:
        i.pixels = np.clip(i.pixels, 0, 1)
    return ims


def train(c, quick_trees=True, **over):
    """Trains an ensemble with everything recorded."""
    import dlib
    from menpofit.dlib import DlibERT
    import menpofit.dlib.algorithm as alg
    rng = c.rng
    n_scales = int(rng.choice([1, 1, 2, 3]))
    scales = {1: [(1.,), (.6,)], 2: [(.5, 1.), (.7, .7)],
              3: [(.4, .7, 1.)]}[n_scales]
    scales = scales[rng.randint(len(scales))]
    channels = int(rng.choice([1, 1, 3]))
    size = tuple(int(v) for v in rng.randint(70, 120, 2))
    ims = images_of(rng, int(rng.randint(4, 7)), int(rng.choice([5, 9])),
                    size, channels)
    kw, want = {}, {}
    for k, (attr, vals) in OPTS.items():
        if rng.rand() < .5 and n_scales > 1:
            v = [vals[rng.randint(len(vals))] for _ in range(n_scales)]
            kw[k], want[attr] = v, v
        else:
            v = vals[rng.randint(len(vals))]
            kw[k] = v if rng.rand() < .7 else [v] * n_scales
            want[attr] = [v] * n_scales
    its = [int(v) for v in rng.randint(1, 4, n_scales)]
    kw["n_iterations"] = its
    if rng.rand() < .3:
        t = int(rng.randint(1, 3))
        kw["n_iterations"], its = t * n_scales, [t] * n_scales
    want["cascade_depth"] = its
    kw["n_perturbations"] = int(rng.randint(1, 4))
    kw["diagonal"] = [None, None, 50, 80][rng.randint(4)]
    glob = rng.rand() < .4
    boxes = int(rng.randint(1, 3)) if glob else 0
    for i in ims:
        b = i.landmarks["PTS"].bounding_box()
        for k in range(boxes):
            r = b.copy()
            r.points[:] += rng.uniform(-2, 2, 2)
            i.landmarks["det_%d" % k] = r
    if glob:
        kw["bounding_box_group_glob"] = "det_*"
    ref = None
    if rng.rand() < .25:
        ref = PointCloud(ims[0].landmarks["PTS"].points * float(
            rng.uniform(.7, 1.1)))
        kw["reference_shape"] = ref
    per = Perturb(rng, float(rng.uniform(0, .08)))
    kw["perturb_from_gt_bounding_box"] = per
    kw.update(over)
    c.note(scales=scales, channels=channels, size=size, **{
        k: str(v)[:40] for k, v in kw.items()})
    c.seen(scales, channels, size, *[str(v)[:30] for v in kw.values()])
    rec = Recorder(dlib)
    watch = snap(ims)
    keep = alg.dlib
    alg.dlib = rec
    try:
        f = DlibERT(ims, group="PTS", scales=scales, **kw)
    finally:
        alg.dlib = keep
    d = diff(watch, snap(ims))
    c.check(d is None, "train/images-changed", d or "")
    return f, ims, scales, kw, want, rec, per, boxes, ref


def frame(ims, kw, ref):
    """The box that images are scaled to."""
    from menpofit.builder import compute_reference_shape
    if ref is not None:
        b = ref.bounding_box().points
    else:
        b = np.mean([i.landmarks["PTS"].bounding_box().points for i in ims],
                    axis=0)
    if kw["diagonal"] is not None:
        s = np.ptp(b, axis=0)
        b = b * kw["diagonal"] / np.sqrt((s ** 2).sum())
    return b


def pyramid(im, box, reference, scales):
    """The image at every scale, with the matrix that maps the coordinates of
    the scale to those of the image (everything rescaled about the origin)."""
    im = im.copy()
    im.landmarks["__m25"] = PointCloud(box)
    base = im.rescale_to_pointcloud(PointCloud(reference), group="__m25")
    out = []
    for s in scales:
        k = base if s == 1 else base.rescale(s)
        a, b = box, k.landmarks["__m25"].points
        # the map is diagonal
        m = [np.ptp(a[:, d]) / np.ptp(b[:, d]) for d in (0, 1)]
        off = [a[:, d].min() - m[d] * b[:, d].min() for d in (0, 1)]
        out.append((k, np.array(m), np.array(off)))
    return out


def case_train(c):
    """What the learner is given."""
    rng = c.rng
    f, ims, scales, kw, want, rec, per, boxes, ref = train(c)
    n = len(scales)
    c.check(len(rec.calls) == n, "train/calls", "%d" % len(rec.calls))
    reference = frame(ims, kw, ref)
    c.close(np.ptp(f.reference_shape.points, axis=0),
            np.ptp(reference, axis=0), "train/reference", rtol=1e-9)
    c.check([int(v) for v in f.n_iterations] == want["cascade_depth"],
            "train/n-iterations")
    n_p = kw["n_perturbations"]
    n_boxes = n_p * max(boxes, 1) + boxes
    c.check(len(per.calls) == len(ims) * n_p * max(boxes, 1),
            "train/perturbations", "%d" % len(per.calls))
    stack = [pyramid(i, i.landmarks["PTS"].bounding_box().points, reference,
                     scales) for i in ims]
    top = [pyramid(i, i.landmarks["PTS"].bounding_box().points, reference,
                   (1.,))[0] for i in ims]
    for j, call in enumerate(rec.calls):
        for attr, v in want.items():
            c.check(abs(call["options"][attr] - v[j]) < 1e-12,
                    "train/options/" + attr, "scale %d: %s instead of %s" % (
                        j, call["options"][attr], v[j]))
        c.check(not call["options"]["be_verbose"], "train/options/verbose")
        c.check(call["model"] is f.algorithms[j].dlib_model, "train/model")
        if not c.check(len(call["images"]) == len(ims) == len(
                call["rects"]) == len(call["parts"]), "train/images"):
            return
        for i, im in enumerate(ims):
            k, m, off = stack[i][j]
            px = pixels8(k.pixels)
            got = call["images"][i]
            if c.check(got.shape == px.shape and got.dtype == np.uint8,
                       "train/pixels/shape", "%s %s" % (got.shape, px.shape)):
                c.check(np.abs(got - px).max() < 1.01, "train/pixels")
            gt = (im.landmarks["PTS"].points - off) / m
            if not c.check(len(call["rects"][i]) == n_boxes == len(
                    call["parts"][i]), "train/boxes", "%d instead of %d" % (
                    len(call["rects"][i]), n_boxes)):
                continue
            for p in call["parts"][i]:
                c.check(p.shape == gt.shape and np.abs(p - gt).max() < 1.001,
                        "train/parts", lambda: "scale %d off by %g" % (
                            j, np.abs(p - gt).max()))
            c.event("shapes given", n_boxes)
            # the boxes: perturbed at first, refined afterwards
            if j == 0:
                w = expected_boxes(c, per, i, n_p, boxes, im, top[i])
                s = stack[i][0]
                w = [np.r_[(b[:2] * top[i][1] + top[i][2] - s[2]) / s[1],
                           (b[2:] * top[i][1] + top[i][2] - s[2]) / s[1]]
                     for b in w]
            else:
                prev, s0 = rec.calls[j - 1], stack[i][j - 1]
                s1 = stack[i][j]
                w = []
                for r in prev["rects"][i]:
                    o = prev["model"](prev["images"][i], dl_rect(r))
                    b = rect_of(parts(o))
                    w.append(np.r_[(b[:2] * s0[1] + s0[2] - s1[2]) / s1[1],
                                   (b[2:] * s0[1] + s0[2] - s1[2]) / s1[1]])
            for g, b in zip(call["rects"][i], w):
                c.check(np.abs(g - b).max() < 1.05, "train/boxes/%s" % (
                    "first" if j == 0 else "next"), lambda: "scale %d: %s "
                    "instead of %s" % (j, g, b))
                c.event("boxes given")


def dl_rect(r):
    import dlib
    return dlib.rectangle(left=int(r[1]), top=int(r[0]), right=int(r[3]),
                          bottom=int(r[2]))


def expected_boxes(c, per, i, n_p, boxes, im, top):
    """Boxes of image i at the reference size, in the order generated."""
    k, m, off = top
    gt = rect_of((im.landmarks["PTS"].points - off) / m)
    hi = np.array(k.shape) - 1.
    out = []
    at = i * n_p * max(boxes, 1)
    for b in range(max(boxes, 1)):
        src = gt
        if boxes:
            src = rect_of((im.landmarks["det_%d" % b].points - off) / m)
        for _ in range(n_p):
            s, bb, o = per.calls[at]
            at += 1
            c.close(s, gt, "train/perturbed/shape", atol=1e-6)
            c.close(bb, src, "train/perturbed/box", atol=1e-6)
            out.append(o)
        if boxes:
            out.append(src)
    clip = lambda o: np.r_[np.clip(o[:2], 0, hi + 1), np.clip(
        o[2:], 0, hi + 1)]
    return [clip(o) for o in out]


def case_fit(c):
    """Fits against the ensembles applied by hand."""
    import dlib
    rng = c.rng
    f, ims, scales, kw, want, rec, per, boxes, ref = train(c)
    reference = frame(ims, kw, ref)
    for _ in range(3):
        im = ims[rng.randint(len(ims))]
        gt = im.landmarks["PTS"]
        im = im.copy()
        if rng.rand() < .5:         # the face elsewhere in a larger image
            a = rng.randint(0, 25, 4)
            px = np.pad(im.pixels, ((0, 0), (a[0], a[1]), (a[2], a[3])),
                        mode="edge")
            im = Image(px)
            gt = PointCloud(gt.points + np.array([a[0], a[2]]))
        x0 = gen.perturb(rng, gt, scale=.03, angle=0, shift=1.5)
        shape = rng.rand() < .5
        box = x0.bounding_box()
        w = [snap(im), snap(x0), snap(box), snap(gt)]
        opt = {} if rng.rand() < .5 else {"gt_shape": gt}
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            r = f.fit_from_shape(im, x0, **opt) if shape else \
                f.fit_from_bb(im, box, **opt)
        c.check(any("bounding box" in str(v.message) for v in seen) == shape,
                "fit/warning")
        c.check(diff(w, [snap(im), snap(x0), snap(box), snap(gt)]) is None,
                "fit/changed")
        c.check(len(r.shapes) == len(scales) and r.n_iters == len(scales),
                "fit/shapes", "%d" % len(r.shapes))
        c.check(r.initial_shape is None, "fit/initial")
        stack = pyramid(im, box.points, reference, scales)
        cur = box.points
        for j, (k, m, off) in enumerate(stack):
            # all boxes within rounding of the current one
            b = rect_of((cur - off) / m)
            px = pixels8(k.pixels)
            cand = []
            for eps in (0., 1e-7, -1e-7):
                v = b + eps
                pix = image8(k)
                o = rec.calls[j]["model"](pix, dl_rect(np.trunc(v)))
                cand.append(parts(o) * m + off)
            d = min(np.abs(r.shapes[j].points - o).max() for o in cand)
            c.check(d < 1e-6 * max(1., np.abs(gt.points).max()),
                    "fit/shape", lambda: "scale %d of %s: %g px off" % (
                        j, scales, d))
            cur = r.shapes[j].points
            c.event("scales replayed")
        c.close(r.final_shape.points, r.shapes[-1].points, "fit/final",
                atol=0)
        if opt:
            c.close(r.gt_shape.points, gt.points, "fit/gt", atol=0)
        c.check(np.array_equal(r.image.pixels, im.pixels), "fit/image")
        again = f.fit_from_bb(im, box)
        c.close(again.final_shape.points, r.final_shape.points, "fit/again",
                atol=0)


def image8(im):
    """8-bit pixels made without the conversions under test."""
    return np.array(im.as_PILImage())


def case_refit(c):
    """Enough trees remember the images they were trained on."""
    from menpofit.dlib import DlibERT
    from menpofit.fitter import noisy_shape_from_bounding_box
    rng = c.rng
    scales = [(1.,), (.5, 1.)][rng.randint(2)]
    channels = int(rng.choice([1, 3]))
    size = (int(rng.randint(110, 150)), int(rng.randint(90, 130)))
    _, _, ims = gen.dataset(rng, 6, 9, size, channels=channels,
                            h=size[0] * .55, w=size[1] * .55)
    for i in ims:
        i.pixels = np.clip(i.pixels, 0, 1)
    pct = float(rng.uniform(.02, .05))

    def perturb(shape, bb):
        return noisy_shape_from_bounding_box(shape, bb, noise_percentage=pct)
    f = DlibERT(ims, group="PTS", scales=scales, n_perturbations=15,
                n_iterations=[8] * len(scales), n_trees=150, n_tree_levels=4,
                n_pixel_pairs=150, n_split_tests=15,
                regularisation_weight=.25, perturb_from_gt_bounding_box=perturb)
    c.note(scales=scales, channels=channels, size=size)
    c.seen(scales, channels, size)
    start, end, bias = [], [], []
    mean = np.mean([i.landmarks["PTS"].points - i.landmarks["PTS"].centre()
                    for i in ims], axis=0)
    for im in ims:
        gt = im.landmarks["PTS"]
        box = perturb(gt.bounding_box(), gt.bounding_box()).bounding_box()
        r = f.fit_from_bb(im, box)
        q = mean + box.centre()
        start.append(np.linalg.norm(q - gt.points, axis=1).mean())
        end.append(np.linalg.norm(r.final_shape.points - gt.points,
                                  axis=1).mean())
        bias.append((r.final_shape.points - gt.points).mean(axis=0))
    c.check(np.mean(end) < 3.5, "refit/error", "%.2f px from %.2f px" % (
        np.mean(end), np.mean(start)))
    c.check(np.mean(end) < np.mean(start), "refit/worse", "%.2f px from "
            "%.2f px" % (np.mean(end), np.mean(start)))
    # integers lose half a pixel on average, everywhere
    b = np.mean(bias, axis=0)
    c.check(np.all(np.abs(b + .5) < 1.5), "refit/bias", str(b))
    c.event("training images refitted", len(ims))


def case_wrapper(c):
    """Predictors trained elsewhere."""
    import dlib
    from pathlib import Path
    from menpofit.dlib import DlibWrapper
    rng = c.rng
    ims = images_of(rng, 4, 5, (80, 76), int(rng.choice([1, 3])))
    o = dlib.shape_predictor_training_options()
    o.cascade_depth, o.num_trees_per_cascade_level = 2, 4
    o.tree_depth, o.feature_pool_size, o.num_test_splits = 2, 30, 5
    o.oversampling_amount = 2
    dets, pix = [], []
    for i in ims:
        p = i.landmarks["PTS"].points
        d = dlib.full_object_detection(dl_rect(rect_of(p)), [
            dlib.point(int(round(q[1])), int(round(q[0]))) for q in p])
        dets.append([d])
        pix.append(image8(i))
    model = dlib.train_shape_predictor(pix, dets, o)
    k = rng.randint(3)
    with scratch() as d:
        path = os.path.join(d, "model.dat")
        model.save(path)
        c.raises(ValueError, lambda: DlibWrapper(os.path.join(d, "none.dat")),
                 "wrapper/missing")
        w = DlibWrapper([model, path, Path(path)][k])
    c.seen(k, ims[0].n_channels, *ims[0].pixels.ravel()[:2])
    c.check(w.scales == [1], "wrapper/scales")
    for im, px in zip(ims, pix):
        gt = im.landmarks["PTS"]
        x0 = gen.perturb(rng, gt, scale=.05, angle=0, shift=2.)
        shape = rng.rand() < .5
        opt = {} if rng.rand() < .5 else {"gt_shape": gt}
        s = [snap(im), snap(x0), snap(gt)]
        r = w.fit_from_shape(im, x0, **opt) if shape else w.fit_from_bb(
            im, x0.bounding_box(), **opt)
        want = parts(model(px, dl_rect(np.trunc(rect_of(x0.points)))))
        c.close(r.final_shape.points, want, "wrapper/shape", atol=1e-12)
        c.check(not r.is_iterative and r.initial_shape is None,
                "wrapper/result")
        c.check(diff(s, [snap(im), snap(x0), snap(gt)]) is None,
                "wrapper/changed")
        c.check(np.array_equal(r.image.pixels, im.pixels), "wrapper/image")
        if opt:
            c.close(r.gt_shape.points, gt.points, "wrapper/gt", atol=0)
            r.final_error()
        c.event("predictors wrapped")


CASES = {"points": (case_points, 667, 9000),
         "pixels": (case_pixels, 500, 8000),
         "options": (case_options, 133, 900), "train": (case_train, 533, 9000),
         "fit": (case_fit, 400, 7000), "refit": (case_refit, 40, 800),
         "wrapper": (case_wrapper, 133, 2400)}
REQUIRED = {"shapes converted": 60, "images converted": 20,
            "option sets copied": 10, "shapes given": 500, "boxes given": 500,
            "scales replayed": 100, "training images refitted": 24,
            "predictors wrapped": 40}
