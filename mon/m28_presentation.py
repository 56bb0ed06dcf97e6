"""M28: training and fitting depend on the data, not on how it is presented.

The same world is handed to the same fitter twice: once plainly (a list of
images with one landmark group, silently) and once in another guise (lazily
loaded, as a tuple, verbosely, under another group name, with unrelated
landmark groups, with connectivity, with an all-true mask, in another memory
layout, in another order).  The two fitters then fit the same images.
"""
import contextlib
import io

import numpy as np

from menpo.base import LazyList
from menpo.image import Image, MaskedImage
from menpo.shape import PointCloud, PointUndirectedGraph

from . import zoo
from .core import Skip
from .m06_multiscale import aps_graph

ID = "M28"
RULE = ("every trainable fitter in random configurations, trained and used on "
        "the same data in two guises; distinct when fitter, guise, scales or "
        "batching differ")
ASSUMPTIONS = ["guises that keep the order of all arithmetic are compared bit "
               "for bit; other memory layouts and orders of the training set "
               "to rounding, over few iterations",
               "the frames of masked models round patch corners which lie on "
               "the rounding boundary by construction, so that these models "
               "are left out of the comparison of orders"]

RARE = [x for x in zoo.NAMES if x.split("/")[0] in ("CLM", "APS", "UNI",
                                                     "DLIB")]
NAMES = zoo.NAMES + 4 * RARE
TRAINED = [x for x in NAMES if not x.startswith("LK")]


def lazily(items):
    """A lazy list as importers return it: every access is a new object."""
    return LazyList([lambda x=x: x.copy() for x in items])


def chain(n):
    return np.array([[i, i + 1] for i in range(n - 1)])


def connected(ims):
    out = []
    for i in ims:
        i = i.copy()
        for g in list(i.landmarks):
            s = i.landmarks[g]
            i.landmarks[g] = PointUndirectedGraph.init_from_edges(
                s.points, chain(s.n_points))
        out.append(i)
    return out


def masked(ims):
    out = []
    for i in ims:
        m = MaskedImage(i.pixels.copy())
        for g in i.landmarks:
            m.landmarks[g] = i.landmarks[g]
        out.append(m)
    return out


def laid_out(ims):
    out = []
    for i in ims:
        i = i.copy()
        i.pixels = np.asfortranarray(i.pixels)
        for g in list(i.landmarks):
            p = i.landmarks[g]
            p.points = np.asfortranarray(p.points)
            i.landmarks[g] = p
        out.append(i)
    return out


def crowded(rng, ims, front):
    """Unrelated landmark groups, of other sizes and names."""
    r = rng.randint(2 ** 31)
    out = []
    for i in ims:
        q = np.random.RandomState(r)
        own = [(g, i.landmarks[g].copy()) for g in i.landmarks]
        i = Image(i.pixels.copy()) if not isinstance(i, MaskedImage) \
            else i.copy()
        other = [("a_box", own[0][1].bounding_box()),
                 ("other", PointCloud(q.uniform(10, 60, (5, 2)))),
                 ("PTS2", PointCloud(own[0][1].points + 3.))]
        for g, s in (other + own if front else own + other):
            i.landmarks[g] = s
        out.append(i)
    return out


def renamed(ims, name):
    out = []
    for i in ims:
        i = i.copy()
        s = i.landmarks["PTS"]
        del i.landmarks["PTS"]
        i.landmarks[name] = s
        out.append(i)
    return out


def retyped(items, points=None, pixels=None):
    """The same numbers (after `points` or `pixels`), held in another type."""
    out = []
    for i in items:
        i = i.copy()
        if isinstance(i, PointCloud):
            if points is not None:
                i.points = points(i.points)
            out.append(i)
            continue
        if pixels is not None:
            i.pixels = pixels(i.pixels)
        if points is not None:
            for g in list(i.landmarks):
                q = i.landmarks[g]
                q.points = points(q.points)
                i.landmarks[g] = q
        out.append(i)
    return out


def whole(p):
    return np.round(p)


def integer(p):
    return np.round(p).astype(int)


def single(p):
    return p.astype(np.float32)


def as_single(p):
    return p.astype(np.float32).astype(float)


def shapewise(fn):
    """ATMs take shapes beside the template: the guise of a list applies to
    both, the one of an image to the images only."""
    def present(items):
        items = list(items)
        if isinstance(items[0], PointCloud):
            return items
        return fn(items)
    return present


def settings(rng, name):
    kw = {}
    fam = name.split("/")[0]
    k = int(rng.choice([1, 2, 2]))
    out = dict(scales=zoo.draw_scales(rng, k), n_points=zoo.some_points(rng))
    if fam == "APS":
        kw.update(aps_graph(out["n_points"]))
        out["n_train"] = 8
    if fam == "DLIB":
        out["channels"] = 1
    if fam in ("AAM", "AAMSD", "ATM", "CLM") and rng.rand() < .35:
        out["batch_size"] = int(rng.randint(3, 5))
    out["model_kw"] = kw
    return out


def train(c, state, name, opts, **guise):
    rng = np.random.RandomState()
    rng.set_state(state)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        spec = zoo.diverged(zoo.build, rng, name, **dict(opts, **guise))
    return spec, out.getvalue()


def fit(spec, image, s0, **kw):
    if spec.family == "DLIB":
        kw.pop("max_iters", None)
    return zoo.diverged(spec.fitter.fit_from_shape, image, s0, **kw)


def same(c, a, b, mech, msg, tol=0.):
    if not c.check(len(a.shapes) == len(b.shapes), mech + "/count", msg):
        return
    for i, (x, y) in enumerate(zip(a.shapes, b.shapes)):
        if tol:
            c.close(x.points, y.points, mech, "%s, shape %d" % (msg, i),
                    rtol=0, atol=tol)
        else:
            c.check(np.array_equal(x.points, y.points, equal_nan=True), mech,
                    lambda: "%s: shape %d differs by %.3g" % (
                        msg, i, np.abs(x.points - y.points).max()))
    for what in ("shape_parameters", "appearance_parameters", "costs"):
        p, q = getattr(a, what, None), getattr(b, what, None)
        if not tol and p is not None:
            c.check(q is not None and len(p) == len(q) and all(
                np.array_equal(u, v, equal_nan=True) for u, v in zip(p, q)),
                mech + "/" + what, msg)


def case_train(c):
    rng = c.rng
    name = TRAINED[c.index % len(TRAINED)]
    fam = name.split("/")[0]
    guises = ["tuple", "lazy", "verbose", "none", "renamed", "crowded",
              "connected", "masked", "integer", "single"]
    guise = guises[(c.index // len(TRAINED) + c.index) % len(guises)]
    if guise == "verbose" and fam == "DLIB":
        guise = "lazy"      # (the learner itself prints)
    opts = settings(rng, name)
    state = rng.get_state()
    c.note(name=name, guise=guise, scales=opts["scales"],
           batch=opts.get("batch_size"))
    if guise == "single" and fam in ("SDM", "AAMSD"):
        guise = "integer"   # (their regressors amplify the last bits)
    base = {"integer": dict(present=lambda l: retyped(l, whole)),
            "single": dict(present=lambda l: retyped(
                l, pixels=as_single))}.get(guise, {})
    plain, said = train(c, state, name, opts, **base)
    c.check(said == "", "train/quiet", lambda: "%s printed %r" % (
        name, said[:200]))
    front = bool(rng.randint(2))
    q = int(rng.randint(2 ** 31))
    kw = {"tuple": dict(present=tuple), "lazy": dict(present=lazily),
          "verbose": dict(verbose=True), "none": dict(group=None),
          "renamed": dict(group="lmks", present=shapewise(
              lambda l: renamed(l, "lmks"))),
          "crowded": dict(present=shapewise(lambda l: crowded(
              np.random.RandomState(q), l, front))),
          "connected": dict(present=shapewise(connected)),
          "masked": dict(present=shapewise(masked)),
          "integer": dict(present=lambda l: retyped(l, integer)),
          "single": dict(present=lambda l: retyped(l, pixels=single))}[guise]
    if fam == "ATM" and guise in ("renamed", "none"):
        kw = dict(present=tuple)   # (the template is labelled by the caller)
    other, said = train(c, state, name, opts, **kw)
    if guise == "verbose":
        c.check(said.strip() != "", "train/said-nothing", name)
    else:
        c.check(said == "", "train/quiet", lambda: "%s printed %r" % (
            name, said[:200]))
    test = plain.tests[0]
    s0 = zoo.start(rng, plain, test)
    t0, test1 = s0, test
    if guise == "integer":
        s0, t0 = retyped([s0], whole)[0], retyped([s0], integer)[0]
    elif guise == "single":
        test, test1 = (retyped([test], pixels=f)[0] for f in (as_single,
                                                              single))
    a = fit(plain, test, s0, max_iters=3 * plain.n_scales)
    b = fit(other, test1, t0, max_iters=3 * plain.n_scales)
    same(c, a, b, "train/%s/%s" % (guise, fam), name,
         tol=.05 if guise == "single" else 0.)
    c.event("trained alike")
    c.event("guise/" + guise)
    c.seen("train", name, guise, opts["scales"], opts.get("batch_size"))


def case_verbose(c):
    """Reporting progress changes nothing at any scale."""
    rng = c.rng
    pool = [x for x in TRAINED if x.split("/")[0] != "DLIB"]
    regressors = [x for x in pool if x.split("/")[0] in ("SDM", "AAMSD")]
    name = pool[c.index // 2 % len(pool)] if c.index % 2 else \
        regressors[c.index // 2 % len(regressors)]
    opts = settings(rng, name)
    # (including scales that leave the images or features as they are)
    opts["scales"] = [(1.,), (1., 1.), (1., 1.25), (1., .5), (.5, 1.),
                      (.7, .7, 1.)][rng.randint(6)]
    opts.pop("batch_size", None)
    state = rng.get_state()
    c.note(name=name, scales=opts["scales"])
    plain, said = train(c, state, name, opts)
    c.check(said == "", "train/quiet", lambda: "%s printed %r" % (
        name, said[:200]))
    other, said = train(c, state, name, opts, verbose=True)
    c.check(said.strip() != "", "train/said-nothing", name)
    test = plain.tests[0]
    s0 = zoo.start(rng, plain, test)
    a = fit(plain, test, s0, max_iters=2 * plain.n_scales)
    b = fit(other, test, s0, max_iters=2 * plain.n_scales)
    same(c, a, b, "train/verbose/%s" % name.split("/")[0], name)
    c.event("trained alike")
    c.event("guise/verbose")
    c.seen("verbose", name, opts["scales"])


def case_fit(c):
    rng = c.rng
    name = NAMES[c.index * 3 % len(NAMES)]
    fam = name.split("/")[0]
    spec, _ = train(c, rng.get_state(), name, settings(rng, name))
    rng.rand(50)
    test = spec.tests[0]
    s0 = zoo.start(rng, spec, test)
    gt = test.landmarks["PTS"]
    out = io.StringIO()
    kw = dict(max_iters=3 * spec.n_scales)
    a = fit(spec, test, s0, **kw)
    conn = PointUndirectedGraph.init_from_edges(s0.points, chain(s0.n_points))
    bare = Image(test.pixels.copy())
    for guise, im, s, k in (
            ("masked", masked([test])[0], s0, kw),
            ("crowded", crowded(rng, [test], bool(rng.randint(2)))[0], s0, kw),
            ("unlabelled", bare, s0, kw),
            ("connected", test, conn, kw),
            ("told", test, s0, dict(kw, gt_shape=gt)),
            ("costs", test, s0, dict(kw, return_costs=True)),
            ("layout", laid_out([test])[0], s0, kw)):
        if guise == "costs" and fam not in ("AAM", "ATM", "LK", "APS"):
            continue
        with contextlib.redirect_stdout(out):
            b = fit(spec, im, s, **k)
        if guise == "costs":
            b._costs = None
            for x, y in zip(a.shapes, b.shapes):
                c.check(np.array_equal(x.points, y.points),
                        "fit/costs/" + fam, name)
            continue
        same(c, a, b, "fit/%s/%s" % (guise, fam), name,
             tol=0. if guise != "layout" else 1e-5)
        c.event("fitted alike")
    s1, s2, g1, g2 = (retyped([x], f)[0] for x in (s0, gt)
                      for f in (whole, integer))
    c.check(s2.points.dtype.kind == "i", "fit/integer/guise", name)
    a = fit(spec, test, s1, gt_shape=g1, **kw)
    b = fit(spec, test, s2, gt_shape=g2, **kw)
    same(c, a, b, "fit/integer/" + fam, name)
    if np.isfinite(a.final_shape.points).all():
        c.check(a.final_error() == b.final_error(), "fit/integer/error", name)
    c.event("fitted alike")
    c.check(out.getvalue() == "", "fit/quiet", name)
    c.seen("fit", name, spec.scales)


def case_order(c):
    """The order of the training images does not matter to batch models."""
    rng = c.rng
    pool = [x for x in TRAINED if x.split("/")[0] in ("AAM", "ATM", "CLM",
                                                       "UNI", "APS")
            and "Masked" not in x]     # (see ASSUMPTIONS)
    name = pool[c.index * 7 % len(pool)]
    fam = name.split("/")[0]
    opts = settings(rng, name)
    opts.pop("batch_size", None)
    state = rng.get_state()
    plain, _ = train(c, state, name, opts)
    perm = rng.permutation(len(plain.images))
    other, _ = train(c, state, name, opts,
                     present=lambda l: [list(l)[i] for i in perm])
    c.note(name=name, scales=opts["scales"], order=perm)
    m, n = plain.model, other.model
    c.close(m.reference_shape.points, n.reference_shape.points,
            "order/reference/" + fam, name)
    for j in range(plain.n_scales):
        sm, sn = m.shape_models[j], n.shape_models[j]
        pm, pn = sm.model, sn.model
        models = [("shape", pm, pn)]
        if fam in ("AAM", "UNI", "APS"):
            x, y = m.appearance_models[j], n.appearance_models[j]
            models.append(("appearance", x, y))
        for what, x, y in models:
            if hasattr(x, "components"):
                if not c.check(x.n_components == y.n_components and
                               x.n_samples == y.n_samples,
                               "order/%s/components/%s" % (what, fam), name):
                    continue
                c.close(x.eigenvalues, y.eigenvalues,
                        "order/%s/eigenvalues/%s" % (what, fam), name,
                        rtol=1e-6)
                U, V = x.components, y.components
                e = np.append(x.eigenvalues, 0)
                if np.min(-np.diff(e)) > 1e-3 * e[0]:
                    c.close(np.abs(np.sum(U * V, axis=1)), np.ones(len(U)),
                            "order/%s/span/%s" % (what, fam), name, atol=1e-5)
            c.close(vec(x.mean()), vec(y.mean()),
                    "order/%s/mean/%s" % (what, fam), name, rtol=1e-6)
        if fam in ("CLM", "UNI"):
            p, q = m.expert_ensembles[j], n.expert_ensembles[j]
            c.close(np.array([f.pixels for f in p.frequency_filter_images]),
                    np.array([f.pixels for f in q.frequency_filter_images]),
                    "order/experts/" + fam, name, rtol=1e-6)
        if fam == "APS":
            c.close(dense(m.appearance_models[j].precision),
                    dense(n.appearance_models[j].precision),
                    "order/precision", name, rtol=1e-5)
            c.close(dense(m.deformation_models[j].precision),
                    dense(n.deformation_models[j].precision),
                    "order/deformation", name, rtol=1e-5)
    c.event("orders compared")
    c.seen("order", name, opts["scales"], perm)


def dense(x):
    return x.toarray() if hasattr(x, "toarray") else np.asarray(x)


def vec(x):
    if isinstance(x, np.ndarray):
        return x.ravel()
    return x.as_vector()


CASES = {"train": (case_train, 360, 3000), "fit": (case_fit, 160, 1500),
         "order": (case_order, 120, 1200),
         "verbose": (case_verbose, 90, 900)}
REQUIRED = {"trained alike": 150, "fitted alike": 400, "orders compared": 50,
            "guise/lazy": 10, "guise/verbose": 10, "guise/crowded": 10,
            "guise/integer": 10, "guise/single": 5}
