"""M05: training in batches and incrementing agree with training at once."""
import copy
import warnings

import numpy as np

from menpo.feature import no_op
from menpo.model import PCAModel
from menpo.shape import PointCloud, TriMesh

from . import gen
from .m19_options import (make_model, singular, sig, compare, GROUP,
                          model_fitter)
from .m22_building import (FEATS, mesh, border, warp, norm, gpa)
from .core import Skip, collapsed

ID = "M05"
RULE = ("every incrementable model trained at once, in batches (lists, tuples "
        "and generators, remainders of a single sample included) and by "
        "histories of increments with drawn forgetting factors; the models of "
        "every scale compared with each other, with models of all the samples "
        "together and with an incremental decomposition of independently "
        "prepared data; distinct when kind, history, scales, features or "
        "forgetting factors differ")
ASSUMPTIONS = ["menpo's incremental principal component analysis and Gaussian "
               "Markov random fields are trusted",
               "the shapes of an increment are aligned to the shapes the "
               "model was built from, so shape models of batches agree with "
               "those of all the data up to the alignment"]

KINDS = ["HolisticAAM", "MaskedAAM", "LinearAAM", "LinearMaskedAAM",
         "PatchAAM", "HolisticATM", "MaskedATM", "LinearATM",
         "LinearMaskedATM", "PatchATM", "CLM", "GenerativeAPS"]


def train(kind, ims, scales, shapes=None, **kw):
    import menpofit.atm as t
    if kind.endswith("ATM"):
        d = dict(group=GROUP, scales=scales)
        if kind in ("MaskedATM", "LinearMaskedATM", "PatchATM"):
            d["patch_shape"] = (7, 7)
        d.update(kw)
        return getattr(t, kind)(ims[0], shapes, **d)
    return make_model(kind, ims, scales, **kw)


def increment(kind, model, template, ims, **kw):
    if kind.endswith("ATM"):
        return model.increment(template, [i.landmarks[GROUP] for i in ims]
                               if not callable(ims) else ims(), group=GROUP,
                               **kw)
    return model.increment(ims, group=GROUP, **kw)


def full(m, j):
    """All that can be seen of scale j, basis and counts included."""
    s = sig(m, j)
    for name, ms in (("shape", getattr(m, "shape_models", None)),
                     ("appearance", getattr(m, "appearance_models", None))):
        if not ms:
            continue
        x = ms[j].model if name == "shape" else ms[j]
        if hasattr(x, "n_samples"):
            s[name + " samples"] = int(x.n_samples)
        if hasattr(x, "components"):
            s[name + " components"] = int(x.n_components)
    return s


def draw(rng, kind, n, pose=0.):
    n_points = int(rng.randint(5, 9))
    fam, tex, ims = gen.dataset(rng, n, n_points, (76, 72), channels=int(
        rng.randint(1, 3)), h=40., w=36.)
    return ims


def options(rng, kind, ims, exact=False):
    scales = [(1.,), (.5, 1.), (.6, 1.), (.6, .8, 1.)][rng.randint(4)]
    kw = dict(diagonal=[None, 40., 46.][rng.randint(3)],
              holistic_features=[FEATS[rng.randint(4)] for _ in scales])
    if rng.rand() < .4:
        p = ims[0].landmarks[GROUP].points
        kw["reference_shape"] = PointCloud(p * rng.uniform(.8, 1.1))
    if not exact and kind != "CLM" and rng.rand() < .5:
        kw["max_shape_components"] = [[1, 2, 3, .9][rng.randint(4)]
                                      for _ in scales]
    if not exact and kind.endswith("AAM") and rng.rand() < .5:
        kw["max_appearance_components"] = [[1, 2, 3, .9][rng.randint(4)]
                                           for _ in scales]
    if kind == "GenerativeAPS":
        kw["can_be_incremented"] = True
        kw["precision_dtype"] = np.float64
        kw["use_procrustes"] = bool(rng.randint(2))
    if kind in ("HolisticAAM", "HolisticATM"):
        from menpofit.transform import DifferentiableThinPlateSplines
        kw["transform"] = DifferentiableThinPlateSplines
    return scales, kw


def heard(fn, *a, **k):
    """The result of a call, and whether it warned about its first batch."""
    with warnings.catch_warnings(record=True) as told:
        warnings.simplefilter("always")
        out = fn(*a, **k)
    return out, any("first batch" in str(w.message) for w in told)


@border
@singular
def case_batches(c):
    """batch_size = k: the first k samples, then increments of k."""
    rng = c.rng
    kind = KINDS[c.index % len(KINDS)]
    n = int(rng.randint(5, 10))
    ims = draw(rng, kind, n)
    scales, kw = options(rng, kind, ims)
    size = int(rng.randint(3, n + 2))
    shapes = [i.landmarks[GROUP] for i in ims]
    form = rng.randint(3)
    kinds = kind.endswith("ATM")
    data = shapes if kinds else ims
    given = [list(data), tuple(data), (x for x in data)][form]
    kept = [(i.pixels.copy(), i.landmarks[GROUP].points.copy()) for i in ims]
    if kinds:
        whole, told = heard(train, kind, ims, scales, given, batch_size=size,
                            **kw)
        steps, quiet = heard(train, kind, ims, scales, shapes[:size], **kw)
    else:
        # make_model looks at the first image: give the generator by hand
        whole, told = heard(train_given, kind, ims, given, scales,
                            batch_size=size, **kw)
        steps, quiet = heard(train, kind, ims[:size], scales, **kw)
    # a reference shape that only the first batch decides is announced
    c.check(told == (kw.get("reference_shape") is None) and not quiet,
            "batches/warning/" + kind, "%s, %s" % (told, quiet))
    # the rest may be given one by one, or again in batches
    if rng.rand() < .5:
        for a in range(size, n, size):
            increment(kind, steps, ims[0], ims[a:a + size])
    elif size < n:
        if kinds:
            steps.increment(ims[0], (s for s in shapes[size:]), group=GROUP,
                            batch_size=size)
        else:
            steps.increment((i for i in ims[size:]), group=GROUP,
                            batch_size=size)
    c.note(kind=kind, n=n, size=size, scales=scales, form=form,
           options=sorted(kw))
    c.seen("batches", kind, n, size, scales, form, sorted(kw))
    for j in range(len(scales)):
        compare(c, "batches/" + kind, full(whole, j), full(steps, j),
                "scale %d" % j)
    c.close(whole.reference_shape.points, steps.reference_shape.points,
            "batches/reference")
    for i, (p, s) in zip(ims, kept):
        c.check(np.array_equal(i.pixels, p) and
                np.array_equal(i.landmarks[GROUP].points, s) and
                list(i.landmarks) == [GROUP], "batches/disturbed")
    c.event("batched models")
    if kind.endswith("AAM") or kind == "CLM":
        c.check(sum(1 for _ in whole.shape_models) == len(scales),
                "batches/scales")
    if rng.rand() < .3:
        # what a user does next: fit with both
        a, b = model_fitter(kind, whole), model_fitter(kind, steps)
        x0 = PointCloud(ims[0].landmarks[GROUP].points + 1.)
        im = ims[1]
        try:
            ra = a.fit_from_shape(im, x0, max_iters=3)
            rb = b.fit_from_shape(im, x0, max_iters=3)
        except Exception as e:
            if not collapsed(e):
                raise
            raise Skip()
        q = np.abs(ra.final_shape.points - rb.final_shape.points).max()
        if np.isfinite(q):
            c.check(q < 1e-3, "batches/fit/" + kind, "fits differ by %.3g" % q)
            c.event("fits")


def train_given(kind, ims, given, scales, **kw):
    """make_model with any iterable of images."""
    import menpofit.aam as a
    import menpofit.clm as cl
    import menpofit.aps as p
    from menpo.shape import UndirectedGraph
    d = dict(group=GROUP, scales=scales, diagonal=40)
    if kind.endswith("AAM"):
        if kind in ("MaskedAAM", "LinearMaskedAAM", "PatchAAM"):
            d["patch_shape"] = (7, 7)
        cls = getattr(a, kind)
    elif kind == "CLM":
        d.update(patch_shape=(7, 7), context_shape=(15, 15))
        cls = cl.CLM
    else:
        n_points = ims[0].landmarks[GROUP].n_points
        chain = np.array([[i, i + 1] for i in range(n_points - 1)])
        d.update(patch_shape=(5, 5), appearance_graph=UndirectedGraph.
                 init_from_edges(chain, n_points))
        cls = p.GenerativeAPS
    d.update(kw)
    return cls(given, **d)


# --------------------------------------------------------------------------
@border
@singular
def case_once(c):
    """Exact increments give the model of all the samples together."""
    rng = c.rng
    kind = [k for k in KINDS if not k.endswith("ATM")][c.index % 7]
    n = int(rng.randint(6, 11))
    ims = draw(rng, kind, n)
    scales, kw = options(rng, kind, ims, exact=True)
    # the frame of a model is that of its first batch
    if "reference_shape" not in kw:
        kw["reference_shape"] = PointCloud(np.mean(
            [i.landmarks[GROUP].points for i in ims], 0))
    if kind == "GenerativeAPS":
        kw["use_procrustes"] = False
        kw["n_appearance_components"] = int(rng.randint(2, 4))
        if rng.rand() < .5:
            kw["deformation_graph"] = star(ims[0].landmarks[GROUP].n_points,
                                           rng)
        else:
            kw["deformation_graph"] = path_tree(
                ims[0].landmarks[GROUP].n_points)
    cuts = np.sort(rng.choice(np.arange(4, n), rng.randint(1, 3),
                              replace=False)).tolist() + [n]
    once = train(kind, ims, scales, **kw)
    steps = train(kind, ims[:cuts[0]], scales, **kw)
    for a, b in zip(cuts[:-1], cuts[1:]):
        increment(kind, steps, ims[0], ims[a:b])
    c.note(kind=kind, n=n, cuts=cuts, scales=scales, options=sorted(kw))
    c.seen("once", kind, n, cuts, scales)
    for j in range(len(scales)):
        if kind != "GenerativeAPS":
            a, b = (m.shape_models[j].model for m in (once, steps))
            c.check(a.n_samples == b.n_samples == n, "once/shape-samples",
                    "%d and %d samples, not %d" % (a.n_samples, b.n_samples, n))
        else:
            a, b = (m.shape_models[j].model for m in (once, steps))
        if kind.startswith("Linear") and not np.array_equal(
                once.reference_frames[j].mask.pixels,
                steps.reference_frames[j].mask.pixels):
            continue      # their frames are those of the first batch
        close_models(c, "once/shape/" + kind, a, b, "scale %d" % j)
        if kind.endswith("AAM") and not kind.startswith("Linear"):
            a, b = (m.appearance_models[j] for m in (once, steps))
            c.check(a.n_samples == b.n_samples == n, "once/samples/" + kind)
            same_pca(c, "once/appearance/" + kind, a, b, "scale %d" % j)
            c.event("appearance models")
        if kind == "CLM":
            a, b = (np.array([f.pixels for f in m.expert_ensembles[j].
                              frequency_filter_images]) for m in (once, steps))
            c.check(np.abs(a - b).max() <= 1e-6 * np.abs(a).max(),
                    "once/experts", "filters differ by %.2g" %
                    (np.abs(a - b).max() / np.abs(a).max()))
            c.event("expert ensembles")
        if kind == "GenerativeAPS":
            for name in ("appearance_models", "deformation_models"):
                a, b = (getattr(m, name)[j] for m in (once, steps))
                ma, mb = (np.ravel(x.mean_vector) for x in (a, b))
                c.close(ma, mb, "once/aps-mean/" + name, rtol=1e-7)
                p, q = (np.asarray(x.precision.todense() if hasattr(
                    x.precision, "todense") else x.precision) for x in (a, b))
                c.check(p.shape == q.shape, "once/aps-precision/" + name)
                c.check(np.abs(p - q).max() <= 1e-4 * np.abs(p).max(),
                        "once/aps-precision/" + name, "precisions differ by "
                        "%.2g" % (np.abs(p - q).max() / np.abs(p).max()))
            c.event("random fields")
    c.event("exact histories")


def star(n, rng):
    from menpo.shape import Tree
    root = 0
    return Tree.init_from_edges(np.array([[root, i] for i in range(n)
                                          if i != root]), n, root)


def path_tree(n):
    from menpo.shape import Tree
    return Tree.init_from_edges(np.array([[i, i + 1] for i in range(n - 1)]),
                                n, 0)


def same_pca(c, mech, a, b, msg):
    c.close(a.mean().as_vector(), b.mean().as_vector(), mech, msg + ": mean",
            rtol=1e-6)
    x, y = np.asarray(a.eigenvalues), np.asarray(b.eigenvalues)
    k = min(len(x), len(y))
    c.close(x[:k], y[:k], mech, msg + ": variances", rtol=1e-5,
            atol=1e-7 * x[0])
    c.check(max(x[k:].sum(), y[k:].sum()) < 1e-6 * x[0], mech, msg +
            ": %d and %d components" % (len(x), len(y)))
    u, v = a.components, b.components
    keep = x[:k] > 1e-5 * x[0]
    r = u[:k][keep] - u[:k][keep].dot(v.T).dot(v)
    c.check(np.abs(r).max() < 1e-3, mech, msg + ": directions %.2g off" %
            np.abs(r).max())


def close_models(c, mech, a, b, msg):
    """The same shapes up to how they were aligned: compare as Gaussians."""
    m, q = a.mean().points, b.mean().points
    m, q = m - m.mean(0), q - q.mean(0)
    # the best similarity
    u, s, vt = np.linalg.svd(m.T.dot(q))
    r = u.dot(vt)
    d = norm(q - m.dot(r) * s.sum() / (m ** 2).sum()) / norm(q)
    c.check(d < .05, mech, "%s: means %.3f apart" % (msg, d))
    va, vb = np.sum(a.eigenvalues), np.sum(b.eigenvalues)
    # (a random field's shape model need not add up)
    c.check(.6 < vb / va < 1.6, mech, "%s: variances %.4g and %.4g" % (
        msg, va, vb))


# --------------------------------------------------------------------------
@border
@singular
def case_forget(c):
    """Increments against an incremental decomposition done by hand."""
    rng = c.rng
    kind = KINDS[c.index % 10]
    n = int(rng.randint(8, 12))
    ims = draw(rng, kind, n)
    scales, kw = options(rng, kind, ims)
    if kind.startswith("Linear"):
        from menpofit.transform import DifferentiableThinPlateSplines
        if kind in ("LinearAAM", "LinearATM"):
            kw["transform"] = DifferentiableThinPlateSplines
    cut = int(rng.randint(4, n))
    fs = [1., float(rng.uniform(.3, 1)), .5][rng.randint(3)]
    fa = [1., float(rng.uniform(.3, 1)), .7][rng.randint(3)]
    shapes = [i.landmarks[GROUP] for i in ims]
    m = train(kind, ims[:cut], scales, shapes[:cut], **kw)
    new = ims[cut:]
    feats = kw["holistic_features"]
    before = [copy.deepcopy(x.model) for x in m.shape_models]
    app = [copy.deepcopy(x) for x in getattr(m, "appearance_models", [])]
    template = ims[int(rng.randint(n))]
    args = dict(shape_forgetting_factor=fs)
    moved = rng.rand() < .5
    if moved:
        # the models have been fitting something in between
        for x in m.shape_models:
            q = x.target.points
            q = q + rng.randn(*q.shape) * .02 * norm(q - q.mean(0)) / len(q)
            x.set_target(x.target.from_vector(
                ((q - q.mean(0)).dot(gen.rot(rng.uniform(-2, 2)).T) *
                 rng.uniform(.6, 1.6) + rng.randn(2) * 20).ravel()))
        c.event("models moved before an increment")
    if kind.endswith("AAM"):
        args["appearance_forgetting_factor"] = fa
    if rng.rand() < .4:
        # talking about it changes nothing
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            increment(kind, m, template, new, verbose=True, **args)
        c.event("verbose increments")
    else:
        increment(kind, m, template, new, **args)
    c.note(kind=kind, n=n, cut=cut, shape=fs, appearance=fa, scales=scales,
           options=sorted(kw))
    c.seen("forget", kind, n, cut, fs, fa, scales, moved)
    ref = m.reference_shape.points
    for j, s in enumerate(scales):
        factors = [norm(ref) / norm(i.landmarks[GROUP].points) for i in new]
        data = [feats[j](i.rescale(f)) for i, f in zip(new, factors)]
        if s != 1:
            data = [d.rescale(s) for d in data]
        lms = [d.landmarks[GROUP].points for d in data]
        if kind.endswith("ATM"):
            lms = [i.landmarks[GROUP].points * f * s
                   for i, f in zip(new, factors)]
        points = lms
        if kind.startswith("Linear"):
            frame = m.reference_frames[j]
            points = [np.vstack([x, warp("tps", frame.landmarks["source"], x,
                                         frame.mask.true_indices())[0]])
                      for x in lms]
        mean = before[j].mean().points
        al = [procrustes(x, mean) for x in points]
        want = before[j]
        want.increment([PointCloud(x) for x in al], forgetting_factor=fs)
        lim = kw.get("max_shape_components")
        if lim is not None:
            trim(want, lim[j])
        got = m.shape_models[j].model
        k = got.n_components
        x, y = np.asarray(got.eigenvalues), np.asarray(want.eigenvalues)
        c.check(k == min(len(y), mean.size - 4), "forget/shape-count/" + kind,
                "%d of %d components" % (k, len(y)))
        c.close(x, y[:k], "forget/shape/" + kind, "variances of scale %d, "
                "forgetting %.2f" % (j, fs), rtol=1e-5, atol=1e-8 * y[0])
        c.close(got.mean().points, want.mean().points, "forget/shape/" + kind,
                "mean of scale %d" % j, rtol=1e-6, atol=1e-6)
        c.check(got.n_samples == n, "forget/samples/" + kind)
        c.event("shape increments")
        if not kind.endswith("AAM"):
            continue
        am, old = m.appearance_models[j], app[j]
        X = []
        for d, x in zip(data, lms):
            if kind == "PatchAAM":
                X.append(old.mean().from_vector(d.extract_patches(
                    PointCloud(x), patch_shape=(7, 7),
                    as_single_array=True).ravel()))
                continue
            idx = old.mean().mask.true_indices()
            w, ok = warp("tps", old.mean().landmarks["source"], x, idx)
            X.append(old.mean().from_vector(d.sample(
                PointCloud(w), order=1, mode="constant").ravel()))
        old.increment(X, forgetting_factor=fa)
        lim = kw.get("max_appearance_components")
        if lim is not None:
            trim(old, lim[j])
        c.check(am.n_components == old.n_components,
                "forget/appearance-count/" + kind, "%d of %d components" % (
                    am.n_components, old.n_components))
        k = min(am.n_components, old.n_components)
        y = np.asarray(old.eigenvalues)
        c.close(np.asarray(am.eigenvalues)[:k], y[:k],
                "forget/appearance/" + kind, "variances of scale %d, "
                "forgetting %.2f" % (j, fa), rtol=1e-4, atol=1e-6 * y[0])
        c.close(am.mean().as_vector(), old.mean().as_vector(),
                "forget/appearance/" + kind, "mean of scale %d" % j,
                rtol=1e-5, atol=1e-6)
        c.event("appearance increments")


def trim(model, limit):
    """What was trimmed away counts: all is kept when not enough is left."""
    if isinstance(limit, float):
        kept = np.sum(model.eigenvalues) / model.original_variance()
        if limit > kept * (1 - 1e-12):
            return
    model.trim_components(limit)


def procrustes(x, y):
    """The similarity of x closest to y."""
    mx, my = x.mean(0), y.mean(0)
    a, b = x - mx, y - my
    u, s, vt = np.linalg.svd(a.T.dot(b))
    d = np.sign(np.linalg.det(u.dot(vt)))
    D = np.diag([1, d])
    r = u.dot(D).dot(vt)
    # least squares scale, or the ratio of sizes (menpo uses the latter)
    k = np.linalg.norm(b) / np.linalg.norm(a)
    return a.dot(r) * k + my


# --------------------------------------------------------------------------
def case_pose(c):
    """Batches in other poses, of any size, do not distort shape models."""
    from menpofit.modelinstance import PDM, GlobalPDM, OrthoPDM
    from menpofit.transform import DifferentiableAlignmentSimilarity as S
    rng = c.rng
    which = c.index % 3
    n_points = int(rng.randint(5, 12))
    base = gen.spread_points(rng, n_points, 40, 40)
    modes = rng.randn(3, n_points, 2)
    def shape(turn, size):
        p = base + sum(rng.randn() * 1.2 * m for m in modes)
        return PointCloud((p - p.mean(0)).dot(gen.rot(turn).T) * size +
                          rng.randn(2) * 50)
    first = [shape(rng.uniform(-.2, .2), rng.uniform(.9, 1.1))
             for _ in range(12)]
    batches = []
    for _ in range(int(rng.randint(1, 5))):
        turn, size = rng.uniform(-3, 3), rng.uniform(.5, 2)
        batches.append([shape(turn, size)
                        for _ in range(int([1, 2, 5, 9][rng.randint(4)]))])
    def make(x):
        return [lambda: PDM(x), lambda: GlobalPDM(x, S), lambda: OrthoPDM(x)][
            which]()
    m = make(first)
    name = type(m).__name__
    c.seen("pose", name, n_points, [len(b) for b in batches])
    c.note(cls=name, n_points=n_points, batches=[len(b) for b in batches])
    for b in batches:
        if rng.rand() < .5:
            m.set_target(shape(rng.uniform(-3, 3), rng.uniform(.5, 2)))
        m.increment(b)
    every = first + [s for b in batches for s in b]
    once = make(every)
    c.check(m.model.n_samples == len(every), "pose/samples/" + name,
            "%d samples, not %d" % (m.model.n_samples, len(every)))
    a, b = once.model.mean().points, m.model.mean().points
    z = procrustes(a, b)
    c.check(norm(z - b) < .08 * norm(b), "pose/mean/" + name,
            "means %.3f apart" % (norm(z - b) / norm(b)))
    # variances relative to size
    va = np.sum(once.model.eigenvalues) / norm(a) ** 2
    vb = np.sum(m.model.eigenvalues) / norm(b) ** 2
    c.check(.6 < vb / va < 1.7, "pose/variance/" + name,
            "relative variances %.4g and %.4g" % (va, vb))
    # a new shape of the family is as well explained
    errs = []
    for mod in (once, m):
        e = []
        for s in every[:6]:
            al = procrustes(s.points, mod.model.mean().points)
            r = mod.model.reconstruct(PointCloud(al)).points
            e.append(norm(r - al) / norm(al))
        errs.append(np.mean(e))
    c.check(errs[1] < errs[0] + .02, "pose/reconstruction/" + name,
            "%.4f and %.4f" % tuple(errs))
    c.event("posed increments")


def case_dense(c):
    """Targets are densified with the bases of the incremented model."""
    from menpofit.modelinstance import OrthoPDM
    from menpofit.transform import LinearOrthoMDTransform
    rng = c.rng
    n, sparse = int(rng.randint(12, 25)), int(rng.randint(8, 11))
    base = gen.spread_points(rng, n, 60, 60)
    modes = rng.randn(2, n, 2)
    more = rng.randn(2, n, 2)
    def shapes(ms, k):
        return [PointCloud(base + sum(rng.randn() * 2 * m for m in ms))
                for _ in range(k)]
    t = LinearOrthoMDTransform(OrthoPDM(shapes(modes, 6)).model,
                               PointCloud(base[:sparse]))
    t.increment(shapes(more, 7))
    k = t.n_active_components
    if k + 4 > 2 * sparse:
        raise Skip()
    c.note(points=n, sparse=sparse, components=k)
    c.seen("dense", n, sparse, k)
    u = t.copy()
    for _ in range(3):
        # anything in the span of the model
        whole = rng.randn(k) * 3
        whole = t.model.instance(whole).points
        u.set_target(PointCloud(whole[:sparse]))
        c.close(u.target.points, whole, "dense/target", "a target of the "
                "model from its sparse points", rtol=1e-5, atol=1e-5)
        c.close(u.apply(np.zeros((n - sparse, 2))), whole[sparse:],
                "dense/apply", rtol=1e-5, atol=1e-5)
    c.event("densified targets")


@border
@singular
def case_refuse(c):
    """What cannot be incremented says so before anything changes."""
    rng = c.rng
    ims = draw(rng, "GenerativeAPS", 8)
    m = make_model("GenerativeAPS", ims[:5], (.5, 1.))
    before = [full(m, j) for j in range(2)]
    c.raises(Exception, lambda: m.increment(ims[5:], group=GROUP),
             "refuse/accepted")
    for j in range(2):
        compare(c, "refuse/changed", before[j], full(m, j), "scale %d" % j)
    c.seen("refuse", ims[0].landmarks[GROUP].n_points)
    c.event("refusals")


CASES = {"batches": (case_batches, 360, 700), "once": (case_once, 252, 500),
         "forget": (case_forget, 300, 600), "pose": (case_pose, 360, 900),
         "dense": (case_dense, 120, 200), "refuse": (case_refuse, 18, 20)}
REQUIRED = {"batched models": 40, "exact histories": 25,
            "shape increments": 40, "appearance increments": 20,
            "posed increments": 40, "densified targets": 10, "verbose increments": 10,
            "refusals": 2}
