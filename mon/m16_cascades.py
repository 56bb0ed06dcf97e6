"""M16: a cascade applies what it was trained with."""
import contextlib
import io as sio
from functools import partial

import numpy as np

from menpo.feature import ndfeature, no_op
from menpo.shape import PointCloud

from . import gen, zoo
from .m18_perturbations import procrustes
from .m19_options import GROUP, singular
from .m22_building import FEATS, border, norm
from .core import Skip

ID = "M16"
RULE = ("recording cascades of every algorithm trained through the fitters on "
        "drawn data, scales, features, boxes and perturbations; every training "
        "sample replayed through the trained cascade and every cascade trained "
        "anew from its definition on the recorded samples; distinct when "
        "algorithm, scales, features or sizes differ")
ASSUMPTIONS = ["the regressors (M15), the orthonormal shape models (M04) and "
               "menpo's patch extraction and principal components are trusted",
               "systems with too few samples to be solved are skipped"]

SDM = [n.split("/")[2] for n in zoo.NAMES
       if n.startswith("SDM/SupervisedDescentFitter")]
AAM = zoo.AAM_SD


def recording(cls, **opts):
    """The algorithm, remembering what it was trained with."""
    class Recording(cls):
        def __init__(self, *args, **kw):
            kw.update(opts)
            self.given = opts
            super(Recording, self).__init__(*args, **kw)

        def train(self, images, gt_shapes, current_shapes, **kw):
            self.images = [i.copy() for i in images]
            self.truth = [s.copy() for s in gt_shapes]
            self.starts = [[s.copy() for s in x] for x in current_shapes]
            out = super(Recording, self).train(images, gt_shapes,
                                               current_shapes, **kw)
            self.ends = [[s.copy() for s in x] for x in out]
            return out
    Recording.__name__ = cls.__name__
    return Recording


def regressor(name, opts):
    """What the algorithm of this name regresses with."""
    import menpofit.math as m
    o = {k: v for k, v in opts.items() if k in (
        "alpha", "bias", "alpha2", "variance", "whiten")}
    if name.endswith("PCRRegression"):
        return m.PCRRegression(**o)
    if name.endswith("OptimalRegression"):
        return m.OptimalLinearRegression(**o)
    if "OPP" in name:
        return m.OPPRegression(**o)
    if name.endswith("GaussNewton") or name.endswith("GuassNewton"):
        return m.IIRLRegression(**o)
    return m.IRLRegression(**o)


def draw_options(rng, name):
    """Options of the algorithm; damped, or the systems have no solution."""
    o = {}
    if rng.rand() < .5:
        o["bias"] = bool(rng.randint(2))
    if name.endswith("PCRRegression") or name.endswith("OptimalRegression"):
        # (the last components have next to no variance to divide by)
        o["variance"] = float(rng.uniform(.6, .97))
    elif "OPP" in name:
        if name.startswith("ParametricShape"):
            o["whiten"] = bool(rng.randint(2))
    else:
        o["alpha"] = float(10 ** rng.uniform(-3, 1))
        if name.endswith("GaussNewton") or name.endswith("GuassNewton"):
            o["alpha2"] = float([0, 0, .1][rng.randint(3)])
    parametric = name.startswith("Parametric") or name.startswith("Fully")
    if parametric and "Appearance" not in name and rng.rand() < .4:
        from menpofit.modelinstance import OrthoPDM, PDM
        o["shape_model_cls"] = partial([OrthoPDM, OrthoPDM, PDM][
            rng.randint(3)], max_n_components=int(rng.randint(1, 4)))
    if parametric and "Shape" not in name and rng.rand() < .4:
        from menpo.model import PCAVectorModel
        o["appearance_model_cls"] = partial(
            PCAVectorModel, max_n_components=int(rng.randint(2, 4)))
    return o


@ndfeature
def halve(pixels):
    return pixels[:, ::2, ::2].copy()


def contrast(patch):
    """A feature of patches: their horizontal differences."""
    return patch[:, :, 1:] - patch[:, :, :-1]


def centre(patch):
    return patch - patch.mean()


PATCH_FEATS = [no_op, no_op, contrast, centre]


def raw(image, shape, patch_shape, feature):
    out = []
    for p in image.extract_patches(shape, patch_shape=patch_shape,
                                   as_single_array=True):
        out.append(np.asarray(feature(p[0])).ravel())
    return np.concatenate(out)


class Ordinary(object):
    """Displacements of points, regressed from patches."""
    sum_of_squares = True

    def __init__(self, name, alg):
        self.name, self.alg = name, alg
        if name.startswith("ParametricAppearance"):
            from menpo.model import PCAVectorModel
            X = np.array([raw(i, s, alg.patch_shape, alg.patch_features)
                          for i, s in zip(alg.images, alg.truth)])
            self.model = alg.given.get("appearance_model_cls",
                                       PCAVectorModel)(X)
            self.kind = [k for k in ("ProjectOut", "MeanTemplate", "Weights")
                         if k in name][0]
        elif name.startswith("Fully"):
            from menpo.model import PCAVectorModel
            X = np.array([raw(i, s, alg.patch_shape, alg.patch_features)
                          for i, s in zip(alg.images, alg.truth)])
            self.model = alg.given.get("appearance_model_cls",
                                       PCAVectorModel)(X)
            self.kind = [k for k in ("ProjectOut", "MeanTemplate", "Weights")
                         if k in name][0]
        else:
            self.kind = None

    def begin(self, shape):
        return shape.points.ravel().copy()

    def target(self, shape):
        return shape.points.ravel().copy()

    def points(self, x):
        return x.reshape(-1, 2)

    def features(self, image, x):
        f = raw(image, PointCloud(self.points(x)), self.alg.patch_shape,
                self.alg.patch_features)
        if self.kind == "ProjectOut":
            return self.model.project_out(f).ravel()
        if self.kind == "Weights":
            return self.model.project(f).ravel()
        if self.kind == "MeanTemplate":
            return f - self.model.mean()
        return f


class Parametric(Ordinary):
    """The same in the space of a shape model of the training shapes."""
    def __init__(self, name, alg):
        Ordinary.__init__(self, name, alg)
        from menpofit.modelinstance import OrthoPDM
        self.pdm = alg.given.get("shape_model_cls", OrthoPDM)(
            [s.copy() for s in alg.truth])

    def begin(self, shape):
        self.pdm.set_target(PointCloud(shape.points))
        return np.array(self.pdm.as_vector())

    target = begin

    def points(self, x):
        self.pdm._from_vector_inplace(np.array(x))
        return self.pdm.target.points.copy()


class Appearance(Ordinary):
    """The same with the appearance in the frame of a model."""
    def __init__(self, name, alg, patches=None):
        self.name, self.alg, self.kind = name, alg, [
            k for k in ("ProjectOut", "MeanTemplate", "AppearanceWeights")
            if k in name][0]
        self.t = alg.transform.copy()
        am = alg.appearance_model
        # (sampled pixels only)
        self.i = np.asarray(alg.interface.i_mask)
        self.mean = am.mean().as_vector()[self.i]
        self.U = am.components[:, self.i]
        self.patches = patches

    def begin(self, shape):
        self.t.set_target(shape)
        return np.array(self.t.as_vector())

    target = begin

    def points(self, x):
        self.t._from_vector_inplace(np.array(x))
        t = getattr(self.t, "sparse_target", self.t.target)
        return t.points.copy()

    def features(self, image, x):
        self.t._from_vector_inplace(np.array(x))
        if self.patches is not None:
            f = image.extract_patches(self.t.target, patch_shape=self.patches,
                                      as_single_array=True).ravel()
        else:
            frame = self.alg.interface.template
            w = self.t.apply(frame.mask.true_indices())
            f = image.sample(PointCloud(w), order=1, mode="constant").ravel()
        f = f[self.i] - self.mean
        if self.kind == "MeanTemplate":
            return f
        w = np.linalg.lstsq(self.U.T, f, rcond=None)[0]
        if self.kind == "AppearanceWeights":
            return w
        return f - self.U.T.dot(w)


def spaces(name, alg, patches=None):
    if name in AAM:
        return Appearance(name, alg, patches)
    if name.startswith("ParametricShape") or name.startswith("Fully"):
        return Parametric(name, alg)
    return Ordinary(name, alg)


class World(object):
    pass


def setup(c, name, n=None, exact=False):
    """Trains a fitter of the algorithm in a drawn configuration."""
    import menpofit.sdm as sdm
    import menpofit.aam as aam
    rng = c.rng
    w = World()
    n = n or int(rng.randint(4, 8))
    n_points = int(rng.randint(4, 8))
    channels = int([1, 1, 2][rng.randint(3)])
    fam, tex, ims = gen.dataset(rng, n + 2, n_points, (74, 70), h=40., w=34.,
                                channels=channels)
    w.ims, w.tests, w.fam = ims[:n], ims[n:], fam
    w.scales = [(1.,), (.5, 1.), (.6, 1.), (.5, .75, 1.), (.8,)][rng.randint(5)]
    k = len(w.scales)
    feats = [FEATS[rng.randint(4)] for _ in w.scales]
    if k > 1 and rng.rand() < .4:
        feats = [feats[0]] * k
    w.features = feats
    w.opts = draw_options(rng, name)
    w.iterations = [int(rng.randint(1, 4)) for _ in w.scales]
    w.perturbations = int([1, 2, 3, 4, 12][rng.randint(5)])
    if len(w.ims) * w.perturbations < 8:
        w.perturbations = 3
    w.boxes = int([0, 0, 1, 2][rng.randint(4)])
    for i in w.ims:
        for b in range(w.boxes):
            p = i.landmarks[GROUP].bounding_box()
            p.points[...] += rng.uniform(-2, 2, 2)
            i.landmarks["det_%d" % b] = p
    w.drawn = []

    def perturb(shape, box):
        out = box.copy()
        m = out.points.mean(0)
        out.points[...] = (out.points - m) * rng.uniform(.93, 1.07) + m + \
            rng.uniform(-2.5, 2.5, 2)
        w.drawn.append((shape.points.copy(), box.points.copy(),
                        out.points.copy()))
        return out
    kw = dict(group=GROUP, n_iterations=w.iterations,
              n_perturbations=w.perturbations,
              perturb_from_gt_bounding_box=perturb)
    if w.boxes:
        kw["bounding_box_group_glob"] = "det_*"
    w.patch_shape = None
    if name in AAM:
        kind = ["PatchAAM", "HolisticAAM", "LinearAAM", "MaskedAAM",
                "LinearMaskedAAM"][c.index % 5]
        mk = dict(group=GROUP, scales=w.scales, diagonal=24,
                  holistic_features=feats,
                  max_shape_components=[int(rng.randint(1, 3))
                                        for _ in w.scales],
                  max_appearance_components=[int(rng.randint(2, 4))
                                             for _ in w.scales])
        if kind in ("HolisticAAM", "LinearAAM"):
            from menpofit.transform import DifferentiableThinPlateSplines
            mk["transform"] = DifferentiableThinPlateSplines
        if kind in ("PatchAAM", "MaskedAAM", "LinearMaskedAAM"):
            mk["patch_shape"] = (5, 7)
        if kind == "PatchAAM":
            w.patch_shape = (5, 7)
        w.model = getattr(aam, kind)(w.ims, **mk)
        w.kind = kind
        w.make = lambda: aam.SupervisedDescentAAMFitter(
            w.ims, w.model, sd_algorithm_cls=recording(
                getattr(aam, name), **w.opts), **kw)
    else:
        w.kind = "SDM"
        kw["patch_shape"] = [[(5, 5), (5, 7), (7, 5)][rng.randint(3)]
                             for _ in w.scales]
        kw["patch_features"] = [PATCH_FEATS[rng.randint(4)] for _ in w.scales]
        kw.update(scales=w.scales, holistic_features=feats,
                  diagonal=[None, 40, 45][rng.randint(3)])
        if rng.rand() < .3:
            kw["reference_shape"] = PointCloud(
                w.ims[0].landmarks[GROUP].points * 1.3)
        if k > 1 and rng.rand() < .5:
            # features of another resolution than the image
            for j in range(k):
                if rng.rand() < .5:
                    feats[j] = halve
        alg = getattr(sdm, name)
        w.make = lambda: sdm.SupervisedDescentFitter(
            w.ims, sd_algorithm_cls=recording(alg, **w.opts), **kw)
    w.name = name
    c.note(alg=name, kind=w.kind, n=n, scales=w.scales, opts=w.opts,
           iterations=w.iterations, perturbations=w.perturbations,
           boxes=w.boxes)
    return w


def affine(x, y):
    """The affine map of the points x to the points y (exact when one is)."""
    X = np.hstack([x, np.ones((len(x), 1))])
    A = np.linalg.lstsq(X, y, rcond=None)[0]
    return lambda p: np.hstack([p, np.ones((len(p), 1))]).dot(A)


def name_of(c):
    every = SDM + AAM + AAM
    return every[c.index % len(every)]


# --------------------------------------------------------------------------
@border
@singular
def case_train(c):
    rng = c.rng
    name = name_of(c)
    w = setup(c, name)
    f = w.make()
    c.seen("train", name, w.kind, w.scales, w.iterations, w.perturbations,
           w.boxes, sorted(w.opts))
    ref = f.reference_shape.points
    n, each = len(w.ims), w.perturbations * max(w.boxes, 1)
    count = each + w.boxes          # the given boxes take part as well
    c.check(len(w.drawn) == n * each, "train/perturbations", "%d perturbations "
            "drawn, not %d" % (len(w.drawn), n * count))
    c.check([a.n_iterations for a in f.algorithms] == w.iterations,
            "train/iterations")
    for j, s in enumerate(w.scales):
        a = f.algorithms[j]
        c.check(len(a.images) == len(a.truth) == len(a.starts) == n and
                all(len(x) == count for x in a.starts), "train/samples",
                "scale %d: %s samples of %d images" % (
                    j, sorted(set(len(x) for x in a.starts)), len(a.images)))
        c.check(len(a.regressors) == w.iterations[j], "train/levels",
                "%d levels of %d" % (len(a.regressors), w.iterations[j]))
        if "shape_model_cls" in w.opts:
            want = w.opts["shape_model_cls"]([s.copy() for s in a.truth])
            got = a.shape_model
            if c.check(type(got) is type(want) and got.model.n_components ==
                       want.model.n_components, "train/shape-model",
                       "%s: %s with %d components" % (
                           name, type(got).__name__, got.model.n_components)):
                c.close(got.model.eigenvalues, want.model.eigenvalues,
                        "train/shape-model", name, rtol=1e-6)
                c.event("given shape models")
        if a.images[0].n_channels != w.ims[0].n_channels:
            c.event("other channels")
        for i in range(n):
            im = w.ims[i]
            k = norm(ref) / norm(im.landmarks[GROUP].points)
            want = w.features[j](im.rescale(k))
            if s != 1:
                want = want.rescale(s)
            c.check(want.shape == a.images[i].shape and np.abs(
                want.pixels - a.images[i].pixels).max() < 1e-6,
                "train/images", "scale %d" % j)
            c.close(a.truth[i].points, want.landmarks[GROUP].points,
                    "train/truth", "scale %d" % j, rtol=1e-7)
            if j == 0:
                mine = w.drawn[i * each:(i + 1) * each]
                at = affine(mine[0][0], a.truth[i].bounding_box().points)
                boxes = [x[2] for x in mine]
                if w.boxes:
                    boxes += [x[1] for x in mine[::w.perturbations]]
                # within the image, as rescaled
                lim = np.array(im.rescale(k).shape) - 1
                # the reference shape in the place of its own box
                wanted = [procrustes(box_of(ref), at(np.clip(x, 0, lim)),
                                     True)(ref)
                          for x in boxes]
                match(c, [x.points for x in a.starts[i]], wanted,
                      "train/starts", "image %d" % i, norm(ref) * 1e-6)
            else:
                prev = f.algorithms[j - 1]
                at = affine(prev.truth[i].points, a.truth[i].points)
                match(c, [x.points for x in a.starts[i]],
                      [at(x.points) for x in prev.ends[i]], "train/handed-on",
                      "scale %d" % j, norm(ref) * 1e-6)
                c.event("scales handed on")
    # every image of the training set is as it was
    for i in w.ims:
        c.check(not [g for g in i.landmarks if g not in (GROUP,) and
                     not g.startswith("det_")], "train/left-behind",
                str(list(i.landmarks)))
    c.event("trained fitters")


def box_of(points):
    return PointCloud(points).bounding_box().points


def match(c, got, want, mech, msg, tol):
    """The same shapes, in any order."""
    left = list(want)
    for g in got:
        d = [np.abs(g - x).max() for x in left]
        k = int(np.argmin(d))
        c.check(d[k] <= tol, mech, "%s: %.3g off" % (msg, d[k]))
        left.pop(k)


@border
@singular
def case_replay(c):
    """Training samples go the same way again when they are fitted."""
    rng = c.rng
    name = name_of(c)
    w = setup(c, name)
    f = w.make()
    c.seen("replay", name, w.kind, w.scales, w.iterations, w.perturbations,
           sorted(w.opts))
    for j, a in enumerate(f.algorithms):
        size = norm(a.truth[0].points)
        far = max(np.abs(e.points - t.points).max()
                  for t, x in zip(a.truth, a.ends) for e in x)
        if not np.isfinite(far) or far > 30 * size:
            raise Skip()
        for i in range(len(a.images)):
            for s, e in list(zip(a.starts[i], a.ends[i]))[:4]:
                keep = s.points.copy()
                r = a.run(a.images[i], s, gt_shape=a.truth[i])
                got = r.final_shape.points
                off = np.abs(got - e.points).max()
                c.check(off <= 1e-5 * size, "replay/end/" + family(name),
                        "%s, scale %d: %.3g px off after %d levels" % (
                            name, j, off, len(a.regressors)))
                c.check(np.array_equal(keep, s.points), "replay/start")
                c.check(r.n_iters == len(a.regressors), "replay/levels")
                c.event("replayed samples")


def family(name):
    if name in AAM:
        return "appearance-model"
    for k in ("NonParametric", "ParametricShape", "ParametricAppearance"):
        if name.startswith(k):
            return k
    return "FullyParametric"


@border
@singular
def case_again(c):
    """The cascade trained by its definition predicts the same."""
    rng = c.rng
    name = name_of(c)
    w = setup(c, name)
    f = w.make()
    c.seen("again", name, w.kind, w.scales, w.iterations, w.perturbations,
           sorted(w.opts))
    j = int(rng.randint(len(w.scales)))
    a = f.algorithms[j]
    sp = spaces(name, a, w.patch_shape)
    X = [(i, sp.begin(s)) for i, x in enumerate(a.starts) for s in x]
    at = [i for i, _ in X]
    Y = np.array([sp.target(a.truth[i]) for i in at])
    # unseen: other starts in training images
    probes = []
    for _ in range(3):
        i = int(rng.randint(len(a.images)))
        probes.append((i, gen.perturb(rng, a.truth[i],
                                      shift=2. * w.scales[j])))
    size = norm(a.truth[0].points)

    def definition(noise):
        x = np.array([p for _, p in X])
        squares = [np.sum((Y - x) ** 2)]
        paths = [[sp.begin(s)] for i, s in probes]
        for k in range(w.iterations[j]):
            F = np.array([sp.features(a.images[i], p) for i, p in zip(at, x)])
            F = F + noise * rng.randn(*F.shape) * np.abs(F).max()
            r = regressor(name, w.opts)
            if type(r).__name__ == "IIRLRegression" and \
                    F.shape[1] < Y.shape[1]:
                raise Skip()      # more unknowns than features to see them in
            r.train(F, Y - x)
            x = x + np.reshape(r.predict(F), x.shape)
            squares.append(np.sum((Y - x) ** 2))
            for (i, s), ps in zip(probes, paths):
                ps.append(ps[-1] + np.ravel(r.predict(
                    sp.features(a.images[i], ps[-1]))))
            c.event("levels trained anew")
        paths = [[sp.points(p) for p in ps] for ps in paths]
        top = max(np.abs(p - a.truth[i].points).max()
                  for (i, s), ps in zip(probes, paths) for p in ps)
        if not np.isfinite(top) or top > 20 * size:
            raise Skip()
        return paths, squares

    def differ(got, want, s):
        for k in range(1, len(want)):
            off = np.abs(got[k] - want[k]).max()
            if off > 1e-4 * size + 1e-3 * np.abs(want[k] - s.points).max():
                return "%s, level %d of scale %d: %.3g px off" % (
                    name, k, j, off)
    paths, squares = definition(0)
    for q, ((i, s), ps) in enumerate(zip(probes, paths)):
        r = a.run(a.images[i], s)
        got = [x.points for x in r.shapes]
        c.check(r.n_iters == len(ps) - 1, "again/shapes")
        got = got[-len(ps):]
        bad = differ(got, ps, s)
        if bad and differ(definition(1e-9)[0][q], ps, s):
            raise Skip()          # rounding decides where it goes
        c.check(not bad, "again/" + family(name), bad)
        c.event("predictions", len(ps) - 1)
    if "alpha" in w.opts and "Gauss" not in name and "Guass" not in name:
        for k in range(len(squares) - 1):
            c.check(squares[k + 1] <= squares[k] * (1 + 1e-9),
                    "again/worse", "%s: squares %s" % (name, squares))
        c.event("descents")


# --------------------------------------------------------------------------
@border
@singular
def case_verbose(c):
    """Talking about it changes nothing, and what is told is true."""
    import menpofit.sdm as sdm
    rng = c.rng
    name = SDM[c.index % len(SDM)]
    opts = draw_options(rng, name)
    fam, tex, ims = gen.dataset(rng, 6, 5, (70, 66), h=38., w=32.)
    told = []

    def error(s1, s2, gt):
        v = float(np.abs(s1.points - s2.points).max())
        told.append((s1.points.copy(), s2.points.copy(), gt.points.copy(), v))
        return v
    n_it = int(rng.randint(1, 4))
    shapes = [i.landmarks[GROUP] for i in ims]
    per = int(rng.randint(2, 5))
    starts = [[gen.perturb(rng, s) for _ in range(per)] for s in shapes]

    def cp():
        return [[s.copy() for s in x] for x in starts]

    def alg(**kw):
        return getattr(sdm, name)(patch_shape=(5, 5), n_iterations=n_it,
                                  **dict(opts, **kw))
    quiet, loud = alg(), alg(compute_error=error)
    ends = quiet.train(ims, shapes, cp())
    c.check(not told, "verbose/quiet")
    out = sio.StringIO()
    with contextlib.redirect_stdout(out):
        ends2 = loud.train(ims, shapes, cp(), verbose=True)
    far = max(np.abs(e.points - s.points).max()
              for s, x in zip(shapes, ends) for e in x)
    if not np.isfinite(far) or far > 300:
        raise Skip()
    c.note(alg=name, levels=n_it, per=per, opts=opts)
    c.seen("verbose", name, n_it, per)
    for x, y in zip(ends, ends2):
        for a, b in zip(x, y):
            c.close(a.points, b.points, "verbose/changes", name)
    total = len(ims) * per
    c.check(len(told) == total * n_it, "verbose/errors", "%d errors of %d" % (
        len(told), total * n_it))
    for q, (s1, s2, gt, v) in enumerate(told):
        c.check(np.array_equal(gt, shapes[(q % total) // per].points),
                "verbose/truth", "sample %d" % q)
    if "NonParametric" in name or name.startswith("ParametricAppearance"):
        # the errors of the last level are those of the shapes returned
        flat = [e.points for x in ends2 for e in x]
        for q in range(total):
            s1, s2, gt, v = told[(n_it - 1) * total + q]
            c.close(s1 - s2, gt - flat[q], "verbose/told", name,
                    atol=1e-8)
    lines = [x for x in out.getvalue().replace("\r", "\n").split("\n")
             if "Training error" in x]
    c.check(len(lines) == n_it, "verbose/lines", "%d lines" % len(lines))
    for k, x in enumerate(lines):
        v = [t[3] for t in told[k * total:(k + 1) * total]]
        for word, value in (("mean", np.mean(v)), ("std", np.std(v)),
                            ("median", np.median(v))):
            c.check(("%s: %.4f" % (word, value)) in x, "verbose/told",
                    "%s of %.4f: %r" % (word, value, x))
    c.event("talks")
    # training again forgets everything about the first time
    fam, tex, ims2 = gen.dataset(rng, 7, 5, (70, 66), h=38., w=32.)
    shapes2 = [i.landmarks[GROUP] for i in ims2]
    starts2 = [[gen.perturb(rng, s) for _ in range(per)] for s in shapes2]
    fresh = alg()
    e1 = quiet.train(ims2, shapes2, [[s.copy() for s in x] for x in starts2])
    e2 = fresh.train(ims2, shapes2, [[s.copy() for s in x] for x in starts2])
    for x, y in zip(e1, e2):
        for a, b in zip(x, y):
            if np.isfinite(b.points).all() and np.abs(b.points).max() < 1e4:
                c.close(a.points, b.points, "verbose/retrained", name)
    c.event("retrained")


# --------------------------------------------------------------------------
@border
@singular
def case_learn(c):
    """Enough of a family of smooth images is learnt and generalises."""
    import menpofit.sdm as sdm
    import menpofit.aam as aam
    rng = c.rng
    name = ["NonParametricNewton", "ParametricShapeNewton", "SDM",
            "RegularizedSDM", "FullyParametricProjectOutNewton",
            "ParametricAppearanceMeanTemplateNewton", "ProjectOutNewton",
            "AppearanceWeightsNewton", "MeanTemplateNewton",
            "NonParametricPCRRegression"][c.index % 10]
    fam, tex, ims = gen.dataset(rng, 26, 8, (84, 80), h=46., w=40.,
                                sigma=8., tex_amount=.5, mode_std=.015)
    train, tests = ims[:20], ims[20:]
    alpha = float(10 ** rng.uniform(-3, -1))
    kw = dict(group=GROUP, n_iterations=4, n_perturbations=12)
    scales = [(1.,), (.5, 1.)][rng.randint(2)]
    kw["n_iterations"] = [2] * len(scales) if len(scales) > 1 else [3]
    from menpofit.fitter import noisy_shape_from_bounding_box
    kw["perturb_from_gt_bounding_box"] = partial(
        noisy_shape_from_bounding_box, noise_percentage=.03)
    np.random.seed(rng.randint(2 ** 31))
    if name in AAM:
        m = aam.PatchAAM(train, group=GROUP, scales=scales, patch_shape=(9, 9),
                         max_shape_components=4, max_appearance_components=10)
        f = aam.SupervisedDescentAAMFitter(train, m, sd_algorithm_cls=partial(
            getattr(aam, name), alpha=alpha), **kw)
    else:
        kw.update(scales=scales, patch_shape=(9, 9))
        if name == "SDM":
            f = sdm.RegularizedSDM(train, alpha=alpha, **kw)
        elif name == "RegularizedSDM":
            f = sdm.RegularizedSDM(train, alpha=alpha, **kw)
        else:
            o = dict(variance=.98) if "PCR" in name else dict(alpha=alpha)
            f = sdm.SupervisedDescentFitter(train, sd_algorithm_cls=partial(
                getattr(sdm, name), **o), **kw)
    c.note(alg=name, scales=scales, alpha=alpha)
    c.seen("learn", name, scales)
    a, b = [], []
    for i in train[:6]:
        gt = i.landmarks[GROUP]
        r = f.fit_from_bb(i, gt.bounding_box(), gt_shape=gt)
        a.append((norm2(r.initial_shape, gt), norm2(r.final_shape, gt)))
    for i in tests:
        gt = i.landmarks[GROUP]
        box = gt.bounding_box()
        box.points[...] += rng.uniform(-1.5, 1.5, 2)
        r = f.fit_from_bb(i, box, gt_shape=gt)
        b.append((norm2(r.initial_shape, gt), norm2(r.final_shape, gt)))
    a, b = np.mean(a, 0), np.mean(b, 0)
    c.note(train=a.tolist(), tests=b.tolist())
    limits = LEARN.get(name, (.55, .8))
    c.check(a[1] < limits[0] * a[0], "learn/training", "%s: %.2f to %.2f px on "
            "training images" % (name, a[0], a[1]))
    c.check(b[1] < limits[1] * b[0], "learn/tests", "%s: %.2f to %.2f px on "
            "test images" % (name, b[0], b[1]))
    c.event("learners")


# what is left of the appearance in a few weights teaches less
LEARN = {"AppearanceWeightsNewton": (1.1, 1.2),
         "NonParametricPCRRegression": (.7, .8)}


def norm2(x, y):
    return np.sqrt(((x.points - y.points) ** 2).sum(1)).mean()


CASES = {"train": (case_train, 147, 700), "replay": (case_replay, 147, 700),
         "again": (case_again, 147, 900), "verbose": (case_verbose, 93, 400),
         "learn": (case_learn, 22, 100)}
REQUIRED = {"trained fitters": 40, "scales handed on": 60,
            "replayed samples": 300, "levels trained anew": 60,
            "predictions": 150, "descents": 10, "talks": 25, "retrained": 20,
            "learners": 6}
