"""The zoo: every trainable fitter of menpofit in random small configurations.

``build(rng, name)`` trains one and returns a `Specimen`; the properties that
quantify over "any fitter" (coordinates, budgets, bookkeeping, purity,
determinism) draw from here.
"""
import numpy as np

from menpo.image import Image

from . import gen

AAM_ALGS = ["AlternatingForwardCompositional", "AlternatingInverseCompositional",
            "ModifiedAlternatingForwardCompositional",
            "ModifiedAlternatingInverseCompositional",
            "ProjectOutForwardCompositional", "ProjectOutInverseCompositional",
            "SimultaneousForwardCompositional",
            "SimultaneousInverseCompositional", "WibergForwardCompositional",
            "WibergInverseCompositional"]
AAM_SD = ["MeanTemplateNewton", "MeanTemplateGaussNewton", "ProjectOutNewton",
          "ProjectOutGaussNewton", "AppearanceWeightsNewton",
          "AppearanceWeightsGaussNewton"]
AAMS = ["HolisticAAM", "MaskedAAM", "LinearAAM", "LinearMaskedAAM", "PatchAAM"]
ATMS = ["HolisticATM", "MaskedATM", "LinearATM", "LinearMaskedATM", "PatchATM"]
SDM_ALGS = ["NonParametricNewton", "NonParametricGaussNewton",
            "NonParametricPCRRegression", "NonParametricOptimalRegression",
            "NonParametricOPPRegression", "ParametricShapeNewton",
            "ParametricShapeGaussNewton", "ParametricShapePCRRegression",
            "ParametricShapeOptimalRegression", "ParametricShapeOPPRegression",
            "ParametricAppearanceProjectOutNewton",
            "ParametricAppearanceProjectOutGuassNewton",
            "ParametricAppearanceMeanTemplateNewton",
            "ParametricAppearanceMeanTemplateGuassNewton",
            "ParametricAppearanceWeightsNewton",
            "ParametricAppearanceWeightsGuassNewton",
            "FullyParametricMeanTemplateNewton",
            "FullyParametricWeightsNewton", "FullyParametricProjectOutNewton",
            "FullyParametricProjectOutGaussNewton",
            "FullyParametricProjectOutOPP"]
LK_ALGS = ["ForwardAdditive", "ForwardCompositional", "InverseCompositional"]
LK_RES = ["SSD", "FourierSSD", "ECC", "GradientImages", "GradientCorrelation"]

NAMES = (["AAM/%s/%s" % (a, b) for a in AAMS for b in AAM_ALGS] +
         ["AAMSD/%s/%s" % (a, b) for a in ("PatchAAM", "HolisticAAM")
          for b in AAM_SD] +
         ["ATM/%s/%s" % (a, b) for a in ATMS
          for b in ("ForwardCompositional", "InverseCompositional")] +
         ["LK/%s/%s" % (a, b) for a in LK_ALGS for b in LK_RES] +
         ["CLM/CLM/ActiveShapeModel", "CLM/CLM/RegularisedLandmarkMeanShift",
          "APS/GenerativeAPS/Inverse", "APS/GenerativeAPS/Forward"] +
         ["SDM/SupervisedDescentFitter/%s" % a for a in SDM_ALGS] +
         ["SDM/RegularizedSDM/-", "SDM/SDM/-"] +
         ["UNI/UnifiedAAMCLM/AlternatingRegularisedLandmarkMeanShift",
          "UNI/UnifiedAAMCLM/ProjectOutRegularisedLandmarkMeanShift"] +
         ["DLIB/DlibERT/-"])

PARAMETRIC = ("AAM", "ATM", "LK", "CLM", "APS", "UNI")


class Specimen(object):
    def __init__(self, name, fitter, model, images, tests, group, n_scales,
                 scales, channels):
        self.name, self.fitter, self.model = name, fitter, model
        self.images, self.tests, self.group = images, tests, group
        self.n_scales, self.scales, self.channels = n_scales, scales, channels
        self.family = name.split("/")[0]


def half_feature(pixels):
    """2x down-sampling feature (dense, shifts nothing but the grid)."""
    return pixels[:, ::2, ::2]


def two_channel(pixels):
    return np.concatenate([pixels, pixels ** 2])


def small_perturb(rng):
    from menpofit.fitter import noisy_shape_from_bounding_box
    pct = float(rng.uniform(.02, .06))

    def perturb(shape, bb):
        return noisy_shape_from_bounding_box(shape, bb, noise_percentage=pct)
    return perturb


def draw_scales(rng, n=None):
    n = n or [1, 1, 1, 2, 2, 2, 2, 3, 3, 4][rng.randint(10)]
    pool = [(1.,), (.5, 1.), (.4, .7, 1.), (.6,), (.5, .8), (1., 1.),
            (.6, .96), (.8, 1.25), (.7, .7, 1.), (.4, .5, .7, 1.), (.5, .5, .8, .9), (.5, 1, 1.)]
    pool = [s for s in pool if len(s) == n]
    return pool[rng.randint(len(pool))]


def cascades(rng, n):
    """A number of cascades in all, or for each scale."""
    if rng.rand() < .4:
        return int(rng.randint(n, 3 * n + 1))
    return [int(x) for x in rng.randint(1, 4, n)]


def some_points(rng):
    """How many landmarks: mostly the usual number."""
    return int(rng.choice([9, 9, 6, 12, 17]))


def build(rng, name, data=None, n_train=6, n_points=9, scales=None,
          channels=None, image_shape=(96, 88), n_test=1, features=None,
          diagonal="draw", images=None, kind="points", fitter_kw=None,
          model_kw=None, train_amount=1.0, noise=0.0, masked=False,
          test_noise=0.0, batch_size=None, present=None, group="PTS",
          verbose=None, alg_kw=None):
    import importlib
    from functools import partial
    family, model_name, alg = name.split("/")
    scales = tuple(scales) if scales is not None else draw_scales(rng)
    channels = channels or int(rng.choice([1, 1, 1, 2, 2, 3]))
    if data is None:
        data = gen.dataset(rng, n_train + n_test, n_points, image_shape,
                           channels=channels, kind=kind, h=52., w=44.,
                           amount=train_amount, noise=noise, masked=masked)
    fam, tex, ims = data
    if family == "DLIB":           # it only takes images in [0, 1]
        for i in ims:
            i.pixels = np.clip(i.pixels, 0., 1.)
    train, tests = ims[:n_train], ims[n_train:]
    if diagonal == "draw":
        diagonal = [None, None, 50, 80][rng.randint(4)]
        if name.startswith("AAMSD/Holistic"):
            diagonal = 30      # these regress on every pixel of the frame
    given, shapes = train, [i.landmarks["PTS"] for i in train]
    if present is not None:        # how the caller holds the training data
        given, shapes = present(train), present(shapes)
    kw = dict(group=group, diagonal=diagonal, scales=scales)
    if verbose is not None and family != "LK":
        kw["verbose"] = verbose
    if features is not None:
        kw["holistic_features"] = features
    if batch_size is not None:
        kw["batch_size"] = batch_size
    kw.update(model_kw or {})
    fkw = dict(fitter_kw or {})
    model = None
    # the detection-driven fitters draw from the global generator
    np.random.seed(rng.randint(2 ** 31))
    if family in ("AAM", "AAMSD"):
        m = importlib.import_module("menpofit.aam")
        if model_name in ("MaskedAAM", "LinearMaskedAAM", "PatchAAM"):
            kw.setdefault("patch_shape", (9, 9))
        kw.setdefault("max_appearance_components", int(rng.randint(2, 5)))
        kw.setdefault("max_shape_components", int(rng.randint(2, 5)))
        model = getattr(m, model_name)(given, **kw)
        if family == "AAM":
            fitter = m.LucasKanadeAAMFitter(
                model, lk_algorithm_cls=getattr(m, alg), **fkw)
        else:
            fkw.setdefault("n_iterations", cascades(rng, len(scales)))
            fkw.setdefault("n_perturbations", 3)
            if verbose is not None:
                fkw.setdefault("verbose", verbose)
            fitter = m.SupervisedDescentAAMFitter(
                given if present is None else present(train), model,
                group=group, sd_algorithm_cls=partial(
                    getattr(m, alg), **alg_kw) if alg_kw else getattr(m, alg),
                **fkw)
    elif family == "ATM":
        m = importlib.import_module("menpofit.atm")
        if model_name in ("MaskedATM", "LinearMaskedATM", "PatchATM"):
            kw.setdefault("patch_shape", (9, 9))
        kw.setdefault("max_shape_components", int(rng.randint(2, 5)))
        model = getattr(m, model_name)(
            train[0], shapes, **kw)
        fitter = m.LucasKanadeATMFitter(
            model, lk_algorithm_cls=getattr(m, alg), **fkw)
    elif family == "LK":
        m = importlib.import_module("menpofit.lk")
        fitter = m.LucasKanadeFitter(
            train[0], algorithm_cls=getattr(m, alg.split("+")[0])
            if model_name not in LK_ALGS else getattr(m, model_name),
            residual_cls=getattr(m, alg), **dict(kw, **fkw))
    elif family == "CLM":
        m = importlib.import_module("menpofit.clm")
        kw.setdefault("patch_shape", (9, 9))
        kw.setdefault("context_shape", (17, 17))
        kw.setdefault("max_shape_components", int(rng.randint(2, 5)))
        model = m.CLM(given, **kw)
        fitter = m.GradientDescentCLMFitter(
            model, gd_algorithm_cls=getattr(m, alg), **fkw)
    elif family == "APS":
        m = importlib.import_module("menpofit.aps")
        kw.setdefault("patch_shape", (7, 7))
        kw.setdefault("max_shape_components", int(rng.randint(2, 5)))
        kw.setdefault("n_appearance_components", int(rng.randint(2, 6)))
        model = m.GenerativeAPS(given, **kw)
        fitter = m.GaussNewtonAPSFitter(
            model, gn_algorithm_cls=getattr(m, alg), **fkw)
    elif family == "SDM":
        m = importlib.import_module("menpofit.sdm")
        kw.setdefault("patch_shape", (9, 9))
        kw.setdefault("n_iterations", cascades(rng, len(scales)))
        kw.setdefault("n_perturbations", 3)
        kw.update(fkw)
        if model_name == "SupervisedDescentFitter":
            cls = getattr(m, alg)
            if alg_kw:
                cls = partial(cls, **alg_kw)
            fitter = m.SupervisedDescentFitter(
                given, sd_algorithm_cls=cls, **kw)
        else:
            fitter = getattr(m, model_name)(given, **kw)
    elif family == "UNI":
        m = importlib.import_module("menpofit.unified_aam_clm")
        kw.setdefault("patch_shape", (9, 9))
        kw.setdefault("context_shape", (17, 17))
        kw.setdefault("max_appearance_components", int(rng.randint(2, 5)))
        kw.setdefault("max_shape_components", int(rng.randint(2, 5)))
        model = m.UnifiedAAMCLM(given, **kw)
        fitter = m.UnifiedAAMCLMFitter(model, algorithm_cls=getattr(m, alg),
                                       **fkw)
    elif family == "DLIB":
        m = importlib.import_module("menpofit.dlib")
        kw.setdefault("n_iterations", max(2, len(scales)))
        kw.setdefault("n_trees", 6)
        kw.setdefault("n_tree_levels", 2)
        kw.setdefault("n_pixel_pairs", 30)
        kw.setdefault("n_split_tests", 5)
        kw.setdefault("n_perturbations", 2)
        kw.pop("holistic_features", None)
        kw.update(fkw)
        fitter = m.DlibERT(given, **kw)
    else:
        raise ValueError(name)
    return Specimen(name, fitter, model, train, tests, "PTS", len(scales),
                    scales, channels)


def start(rng, spec, test, amount=1.0):
    return gen.perturb(rng, test.landmarks["PTS"], scale=.03 * amount,
                       angle=.04 * amount, shift=1.5 * amount)


def on_border(e):
    """Whether an error says that a few points on the very border of a
    triangulation were refused, which is a matter of rounding."""
    out = getattr(e, "points_outside_source_domain", None)
    return (type(e).__name__ == "TriangleContainmentError" and out is not None
            and np.sum(out) <= max(2, .1 * np.size(out)))


def diverged(fn, *a, **k):
    """Calls fn, skipping the case when the numerics of the drawn workload
    collapsed (a singular system, a warp that left the image)."""
    from .core import Skip, collapsed
    try:
        return fn(*a, **k)
    except Exception as e:
        if not collapsed(e):
            raise
        raise Skip()
