"""M07: training and fitting leave the caller's data untouched."""
import inspect

import numpy as np

from menpo.feature import no_op
from menpo.image import Image, MaskedImage
from menpo.shape import PointCloud, UndirectedGraph

from . import gen, zoo
from .core import Skip
from .m06_multiscale import aps_graph

ID = "M07"
RULE = ("deep snapshots of every image, shape, graph and option container "
        "around training, incrementing and fitting of every fitter of the "
        "zoo, on calls that succeed and on calls made to fail at a drawn "
        "feature, perturbation or algorithm call; results and inputs "
        "overwritten afterwards and the fits repeated; distinct when "
        "fitter, options, fault position or image kind differ")
ASSUMPTIONS = ["functions passed in are identified by identity",
               "the state of numpy's global random generator is not the "
               "caller's data"]


class Boom(Exception):
    pass


def snap(x):
    """A deep, comparable picture of anything a caller may pass in."""
    if isinstance(x, Image):
        lms = []
        if x.has_landmarks:
            lms = [(g, snap(x.landmarks[g])) for g in x.landmarks.group_labels]
        mask = x.mask.pixels.copy() if isinstance(x, MaskedImage) else None
        return ("image", type(x).__name__, str(x.pixels.dtype), x.pixels.shape,
                x.pixels.tobytes(), None if mask is None else mask.tobytes(),
                lms, sorted(k for k in x.__dict__ if k != "_landmarks"),
                str(getattr(x, "path", None)))
    if isinstance(x, PointCloud):
        extra = []
        for a in ("trilist", "adjacency_matrix", "labels"):
            if hasattr(x, a):
                v = getattr(x, a)
                v = v.toarray() if hasattr(v, "toarray") else v
                extra.append((a, np.asarray(v).tobytes()
                              if not isinstance(v, list) else list(v)))
        return ("shape", type(x).__name__, str(x.points.dtype),
                x.points.shape, x.points.tobytes(), extra)
    if isinstance(x, UndirectedGraph):
        return ("graph", x.adjacency_matrix.toarray().tobytes())
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, dict):
        return ("dict", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    return ("id", id(x))


def diff(a, b, path=""):
    if type(a) is not type(b):
        return "%s: %r -> %r" % (path, a, b)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d entries -> %d (%s -> %s)" % (
                path, len(a), len(b), str(a)[:200], str(b)[:200])
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s/%s" % (path, a[0] if i and isinstance(
                a[0], str) else "") + str(i))
            if d:
                return d
        return None
    if a != b:
        if isinstance(a, bytes):
            return path + ": data changed"
        return "%s: %r -> %r" % (path, a, b)
    return None


class Watch(object):
    """Snapshots of everything the caller owns."""

    def __init__(self, **objs):
        self.objs = objs
        self.before = {k: snap(v) for k, v in objs.items()}

    def check(self, c, mech):
        for k, v in self.objs.items():
            d = diff(self.before[k], snap(v), k)
            c.check(d is None, "%s/%s" % (mech, k.split(":")[0]), d or "")
            c.event("snapshots compared")


class Fuse(object):
    """Functions that blow at a drawn call."""

    def __init__(self):
        self.calls, self.at = 0, None

    def tick(self):
        self.calls += 1
        if self.at is not None and self.calls >= self.at:
            raise Boom("call %d" % self.calls)

    def feature(self, base=no_op):
        def feature(x):
            self.tick()
            return base(x)
        return feature

    def patches(self):
        def patches(x):
            self.tick()
            return x
        return patches

    def perturb(self):
        from menpofit.fitter import noisy_shape_from_bounding_box

        def perturb(shape, bb, **k):
            self.tick()
            return noisy_shape_from_bounding_box(shape, bb, **k)
        return perturb


def dress(rng, ims, boxes=True):
    """Images as callers have them: several groups, kinds, paths."""
    kind = ["plain", "masked", "float32", "mixed"][rng.randint(4)]
    out = []
    for i, im in enumerate(ims):
        k = kind
        if kind == "mixed":
            k = ["plain", "masked"][rng.randint(2)]
        new = Image(im.pixels.copy())
        if k == "masked":
            m = np.ones(im.pixels.shape[1:], dtype=bool)
            m[:2] = False
            new = MaskedImage(im.pixels.copy(), mask=m)
        elif k == "float32":
            new = Image(im.pixels.astype(np.float32))
        gt = im.landmarks["PTS"]
        new.landmarks["PTS"] = gt
        new.landmarks["other"] = PointCloud(gt.points[::2] * .9)
        if boxes:
            bb = gt.bounding_box()
            for b in range(2):
                new.landmarks["bb_%d" % b] = bb.from_vector(
                    bb.as_vector() + np.tile(rng.uniform(-1, 1, 2), 4))
        new.path = "/nowhere/%d.png" % i
        out.append(new)
    return kind, out


def draw_options(rng, name, fuse, n):
    """Option containers, with the fuse in every function slot."""
    fam, model, _ = name.split("/")
    kw, fkw = {}, {}
    listed = rng.rand() < .7
    rep = lambda v: [v] * n if listed else v
    if fam != "DLIB":
        fs = [fuse.feature() for _ in range(n)]
        kw["holistic_features"] = fs if listed else fs[0]
    if fam in ("AAM", "AAMSD"):
        kw["max_shape_components"] = rep(3)
        kw["max_appearance_components"] = rep(3)
    elif fam in ("ATM", "CLM"):
        kw["max_shape_components"] = rep(3)
    elif fam == "UNI":
        kw["max_shape_components"] = rep(3)
        kw["max_appearance_components"] = rep(3)
    elif fam == "APS":
        kw["max_shape_components"] = rep(3)
        kw["n_appearance_components"] = rep(4)
        kw.update(aps_graph(9))
        if listed:
            kw["appearance_graph"] = [kw["appearance_graph"]] * n
    if model in ("MaskedAAM", "LinearMaskedAAM", "PatchAAM", "MaskedATM",
                 "LinearMaskedATM", "PatchATM", "CLM", "UnifiedAAMCLM",
                 "GenerativeAPS") or fam == "SDM":
        kw["patch_shape"] = [[9, 9] for _ in range(n)] if listed else (9, 9)
    if fam == "CLM" or fam == "UNI":
        kw["context_shape"] = [[17, 17] for _ in range(n)] if listed else \
            (17, 17)
    if fam == "SDM":
        kw["patch_features"] = rep(fuse.patches())
        kw["perturb_from_gt_bounding_box"] = fuse.perturb()
        kw["n_iterations"] = [1] * n if listed else n
        if rng.rand() < .5:
            kw["bounding_box_group_glob"] = "bb_*"
            kw["n_perturbations"] = 2
    if fam == "AAMSD":
        fkw["perturb_from_gt_bounding_box"] = fuse.perturb()
        fkw["n_iterations"] = [1] * n if listed else n
        if rng.rand() < .5:
            fkw["bounding_box_group_glob"] = "bb_*"
            fkw["n_perturbations"] = 2
    if fam == "DLIB":
        kw["perturb_from_gt_bounding_box"] = fuse.perturb()
        kw["n_iterations"] = [1] * n if listed else n
        kw["n_trees"] = rep(4)
        if rng.rand() < .5:
            kw["bounding_box_group_glob"] = "bb_*"
            kw["n_perturbations"] = 2
    if fam in ("AAM", "ATM", "UNI", "APS", "AAMSD"):
        if rng.rand() < .5:
            fkw["sampling"] = rep(2)
        fkw["n_shape"] = rep(2)
    return kw, fkw


def specimen(c, rng, name, n, fuse, ims, kw, fkw, scales, diagonal, seed,
             reference=None, batch=None):
    kw = dict(kw)
    if reference is not None:
        kw["reference_shape"] = reference
    feats = kw.pop("holistic_features", None)
    r = np.random.RandomState(seed)
    np.random.seed(seed)
    return zoo.build(r, name, data=(None, None, ims), n_train=len(ims) - 1,
                     n_test=1, n_points=9, scales=scales, channels=1,
                     diagonal=diagonal, features=feats, model_kw=kw,
                     fitter_kw=fkw, batch_size=batch)


def setup(c, name=None):
    rng = c.rng
    names = zoo.NAMES
    name = name or names[(c.index * 37 + c.seed % 97) % len(names)]
    n = int(rng.choice([1, 2, 2]))
    scales = (1.,) if n == 1 else (.6, 1.)
    kind = ["points", "trimesh", "graph"][rng.randint(2)]
    fam, tex, ims = gen.dataset(rng, 7, 9, (88, 80), channels=1, h=50., w=42.,
                                kind=kind)
    for i in ims:
        i.pixels = np.clip(i.pixels, 0, 1)
    how, ims = dress(rng, ims)
    if name.startswith("DLIB") and how == "float32":
        pass
    fuse = Fuse()
    kw, fkw = draw_options(rng, name, fuse, n)
    diagonal = [None, 40][rng.randint(2)]
    if name.startswith("AAMSD/Holistic"):
        diagonal = 30
    reference = None
    if name.split("/")[0] not in ("LK",) and rng.rand() < .3:
        reference = ims[1].landmarks["PTS"].copy()
    seed = int(rng.randint(1 << 30))
    batch = None
    if name.split("/")[0] in ("AAM", "CLM") and rng.rand() < .3:
        batch = 3
    c.note(name=name, images=how, kind=kind, n=n, diagonal=diagonal,
           batch=batch, reference=reference is not None)
    build = lambda: specimen(c, rng, name, n, fuse, ims, kw, fkw, scales,
                             diagonal, seed, reference, batch)
    watch = lambda: Watch(images=ims, options=dict(kw), fitter_options=dict(
        fkw), reference=reference)
    return name, n, ims, fuse, build, watch, kw, fkw, reference


def case_train(c):
    rng = c.rng
    name, n, ims, fuse, build, watch, kw, fkw, reference = setup(c)
    fam = name.split("/")[0]
    w = watch()
    try:
        spec = build()
    except np.linalg.LinAlgError:
        spec = None
    w.check(c, "train/" + fam)
    c.event("trainings")
    if spec is None:
        raise Skip()
    total = fuse.calls
    c.seen(name, total, *[str(v)[:40] for v in kw.values()])
    # the same training made to fail on the way
    for _ in range(2 if total else 0):
        fuse.calls, fuse.at = 0, int(rng.randint(1, total + 1))
        failed = False
        try:
            build()
        except Boom:
            failed = True
        except np.linalg.LinAlgError:
            pass
        c.check(failed, "train/fault-swallowed", name)
        w.check(c, "failed-train/" + fam)
        c.event("failed trainings")
        fuse.at = None
    # an image without the group
    bad = ims[3].copy()
    del bad.landmarks["PTS"]
    keep = ims[3]
    ims[3] = bad
    w2 = watch()
    if fam not in ("LK",):
        try:
            build()
            c.violate("train/missing-group-accepted", name)
        except np.linalg.LinAlgError:
            pass
        except Exception:
            c.event("failed trainings")
    w2.check(c, "failed-train/" + fam)
    ims[3] = keep


def outcome(r):
    """Bits of everything a fit reports."""
    out = [np.array([s.points for s in r.shapes])]
    for a in ("costs", "shape_parameters", "appearance_parameters"):
        try:
            v = getattr(r, a)
        except (ValueError, AttributeError):
            continue
        if v is not None:
            out.append(np.concatenate([np.ravel(np.asarray(x, dtype=float))
                                       for x in v]) if len(v) else
                       np.zeros(0))
    return out


def equal(a, b):
    return len(a) == len(b) and all(
        x.shape == y.shape and np.array_equal(x, y, equal_nan=True)
        for x, y in zip(a, b))


def scribble(r):
    """Overwrites everything reachable from a result."""
    done = 0

    def arr(x):
        if isinstance(x, np.ndarray) and x.dtype.kind in "fiub" and \
                x.flags.writeable:
            x[...] = 1 if x.dtype.kind == "b" else 77
            return 1
        return 0

    for a in ("shapes", "costs", "shape_parameters", "appearance_parameters",
              "n_iters_per_scale"):
        try:
            v = getattr(r, a)
        except (ValueError, AttributeError):
            continue
        if v is None:
            continue
        for x in v:
            done += arr(x.points if isinstance(x, PointCloud) else x)
        done += arr(v)
        if isinstance(v, list):
            del v[:]
            done += 1
    for a in ("final_shape", "initial_shape", "gt_shape",
              "reconstructed_initial_shape", "image"):
        try:
            v = getattr(r, a)
        except (ValueError, AttributeError):
            continue
        if v is None:
            continue
        if isinstance(v, PointCloud):
            done += arr(v.points)
        elif isinstance(v, Image):
            done += arr(v.pixels)
            if v.has_landmarks:
                for g in list(v.landmarks.group_labels):
                    done += arr(v.landmarks[g].points)
                    del v.landmarks[g]
        elif isinstance(v, list):
            for s in v:
                done += arr(s.points)
    for x in getattr(r, "results", None) or getattr(r, "_results", None) or []:
        for s in x.shapes:
            done += arr(s.points)
    return done


def case_fit(c):
    rng = c.rng
    name, n, ims, fuse, build, watch, kw, fkw, reference = setup(c)
    fam = name.split("/")[0]
    try:
        spec = build()
    except np.linalg.LinAlgError:
        raise Skip()
    f = spec.fitter
    test = ims[-1]
    gt = test.landmarks["PTS"]
    x0 = gen.perturb(rng, gt, scale=.03, angle=.04, shift=1.5)
    same_size = rng.rand() < .4 and fam != "DLIB"
    if same_size:      # no rescaling is needed: the copies are still due
        ref = f.reference_shape
        x0 = PointCloud(ref.points - ref.centre() + gt.centre()
                        + rng.uniform(-1, 1, 2))
        c.event("fits at the reference size")
    bb = x0.bounding_box()
    iters = [2] * n if rng.rand() < .6 else 2 * n
    extra = {}
    if fam not in ("SDM", "AAMSD", "DLIB", "CLM"):
        extra["return_costs"] = True
    w = Watch(image=test, training_images=ims[:-1], initial_shape=x0, gt_shape=gt,
              bounding_box=bb, options=kw, fitter_options=fkw, budget=iters)

    takes = "max_iters" in inspect.signature(f.fit_from_shape).parameters
    if takes:
        extra["max_iters"] = iters

    def fit(from_bb=False, shape=None):
        if from_bb:
            return f.fit_from_bb(test, bb, gt_shape=gt, **extra)
        return f.fit_from_shape(test, shape or x0, gt_shape=gt, **extra)

    use_bb = bool(rng.rand() < .3) or fam == "DLIB"
    r = zoo.diverged(fit, use_bb)
    w.check(c, "fit/" + fam)
    c.seen(name, *[str(v)[:40] for v in kw.values()])
    c.event("fits")
    first = outcome(r)
    # secondary outputs
    try:
        if hasattr(f, "warped_images"):
            f.warped_images(test, r.shapes[:3])
        if hasattr(f, "appearance_reconstructions") and getattr(
                r, "appearance_parameters", None):
            f.appearance_reconstructions(r.appearance_parameters,
                                         r.n_iters_per_scale)
    except (ValueError, np.linalg.LinAlgError):
        pass
    w.check(c, "secondary/" + fam)
    c.check(equal(outcome(r), first), "secondary/result-changed", name)
    if r.initial_shape is not None and not use_bb:
        c.close(r.initial_shape.points, x0.points,
                "fit/initial-shape-reported", atol=1e-5)
    # changing what a fit returned changes neither the inputs nor later fits
    n_over = scribble(r)
    c.event("overwritten outputs", n_over)
    w.check(c, "alias/" + fam)
    r2 = zoo.diverged(fit, use_bb)
    c.check(equal(outcome(r2), first), "alias/later-fit-changed",
            "%s: overwriting a result changes the next fit" % name)
    # failing fits
    fuse.calls = 0
    zoo.diverged(fit, use_bb)
    total = fuse.calls
    faults = []
    if total:
        faults.append("feature")
    faults += ["algorithm", "shape"]
    for fault in faults:
        fuse.calls, fuse.at = 0, None
        undo = lambda: None
        args = {}
        if fault == "feature":
            fuse.at = int(rng.randint(1, total + 1))
        elif fault == "algorithm":
            a = f.algorithms[rng.randint(n)]
            had = a.__dict__.get("run")

            def boom(*p, **k):
                raise Boom()
            a.run = boom
            undo = lambda a=a: a.__dict__.pop("run")
        else:
            if use_bb:
                undo()
                continue
            args["shape"] = PointCloud(x0.points[:4])
        wb = Watch(wrong_shape=args["shape"]) if args else None
        failed = False
        try:
            fit(use_bb, **args)
        except Exception:
            failed = True
        fuse.at = None
        undo()
        if fault != "shape":
            c.check(failed, "fit/fault-swallowed", "%s %s" % (name, fault))
        w.check(c, "failed-fit/" + fam)
        if wb:
            wb.check(c, "failed-fit/" + fam)
        c.event("failed fits", int(failed))
    r3 = zoo.diverged(fit, use_bb)
    c.check(equal(outcome(r3), first), "failed-fit/later-fit-changed", name)
    # and what the caller does later to its data reaches neither
    keep = [x.copy() for x in ims]
    shapes = np.array([s.points for s in r3.shapes])
    px = r3.image.pixels.copy()
    start, goal = x0.points.copy(), gt.points.copy()
    gt_r = r3.gt_shape.points.copy()
    for x in ims[:-1]:
        x.pixels[...] = .5
        for g in list(x.landmarks.group_labels):
            x.landmarks[g].points[...] += 50
    for v in list(kw.values()) + list(fkw.values()):
        if isinstance(v, list):
            del v[:]
    if reference is not None:
        reference.points[...] *= 3
    r4 = zoo.diverged(f.fit_from_bb, test, bb, gt_shape=gt, **extra) if use_bb \
        else zoo.diverged(f.fit_from_shape, test, x0, gt_shape=gt, **extra)
    c.check(equal(outcome(r4), first), "alias/training-data",
            "%s: changing the training data after training changes the fits"
            % name)
    x0.points[...] = -3
    bb.points[...] = -4
    gt.points[...] = -5
    test.pixels[...] = 0
    c.check(np.array_equal(np.array([s.points for s in r3.shapes]), shapes) and
            np.array_equal(r3.image.pixels, px) and
            np.array_equal(r3.gt_shape.points, gt_r), "alias/result-of-inputs",
            "%s: changing the inputs changes an earlier result" % name)
    c.event("alias checks")


INC = ["AAM/HolisticAAM/WibergInverseCompositional",
       "AAM/MaskedAAM/WibergInverseCompositional",
       "AAM/LinearAAM/WibergInverseCompositional",
       "AAM/LinearMaskedAAM/WibergInverseCompositional",
       "AAM/PatchAAM/WibergInverseCompositional",
       "ATM/HolisticATM/InverseCompositional",
       "ATM/MaskedATM/InverseCompositional",
       "ATM/LinearATM/InverseCompositional",
       "ATM/LinearMaskedATM/InverseCompositional",
       "ATM/PatchATM/InverseCompositional",
       "CLM/CLM/RegularisedLandmarkMeanShift",
       "APS/GenerativeAPS/Inverse",
       "UNI/UnifiedAAMCLM/ProjectOutRegularisedLandmarkMeanShift"]


def case_increment(c):
    rng = c.rng
    name = INC[c.index % len(INC)]
    name, n, ims, fuse, build, watch, kw, fkw, reference = setup(c, name)
    fam = name.split("/")[0]
    if fam == "APS":
        kw["can_be_incremented"] = True
    try:
        spec = build()
    except np.linalg.LinAlgError:
        raise Skip()
    m = spec.model
    if not hasattr(m, "increment"):
        raise Skip()
    _, _, more = gen.dataset(rng, 4, 9, (88, 80), channels=1, h=50., w=42.)
    how, more = dress(rng, more)
    shapes = [i.landmarks["PTS"] for i in more]
    given = more if rng.rand() < .5 else tuple(more)
    w = watch()
    w2 = Watch(new_images=given, new_shapes=shapes)
    args = dict(group="PTS")
    if rng.rand() < .5 and fam != "UNI":
        args["batch_size"] = 2

    def inc():
        if fam == "ATM":
            return m.increment(more[0], shapes, **args)
        return m.increment(given, **args)

    c.seen(name, how, *[str(v)[:40] for v in kw.values()])
    failed = None
    fuse.calls, fuse.at = 0, None
    if rng.rand() < .5 and fam != "ATM":
        fuse.at = int(rng.randint(1, 9))
    try:
        inc()
    except Boom:
        c.event("failed increments")
    except (np.linalg.LinAlgError,):
        pass
    c.event("increments")
    w.check(c, "increment/" + fam)
    w2.check(c, "increment/" + fam)


def case_helpers(c):
    """Every helper that takes images, shapes, vectors or weights."""
    import menpofit.builder as B
    import menpofit.fitter as F
    import menpofit.error as E
    from menpofit.base import batch
    from menpofit.modelinstance import OrthoPDM, GlobalPDM, PDM
    from menpofit.transform import (DifferentiableAlignmentSimilarity,
                                    DifferentiablePiecewiseAffine,
                                    DifferentiableThinPlateSplines,
                                    OrthoMDTransform)
    from menpofit.clm import CorrelationFilterExpertEnsemble
    from menpofit.math import regression as R
    from menpofit.math import correlationfilter as CF
    from menpofit.math import fft_utils as U
    rng = c.rng
    fam, tex, ims = gen.dataset(rng, 5, 9, (70, 66), channels=int(
        rng.choice([1, 2])), h=42., w=36.,
        kind=["points", "trimesh"][rng.randint(2)])
    how, ims = dress(rng, ims)
    shapes = [i.landmarks["PTS"] for i in ims]
    gt = shapes[0]
    box = gt.bounding_box()
    frame = B.build_reference_frame(gt)
    pshape = [5, 7]
    w3 = rng.randn(3)
    pool = dict(images=ims, shapes=shapes, frame=frame, patch_shape=pshape,
                box=box, weights=w3)
    TPS = DifferentiableThinPlateSplines
    calls = [
        ("compute_reference_shape", lambda: B.compute_reference_shape(
            shapes, [None, 40][rng.randint(2)])),
        ("rescale_images", lambda: B.rescale_images_to_reference_shape(
            ims, "PTS", shapes[1])),
        ("normalization", lambda: B.normalization_wrt_reference_shape(
            ims, "PTS", 40)),
        ("scale_images", lambda: B.scale_images(
            ims, float(rng.uniform(.5, 1)), return_transforms=bool(
                rng.rand() < .5))),
        ("warp_images", lambda: B.warp_images(ims, shapes, frame, TPS)),
        ("extract_patches", lambda: B.extract_patches(
            ims, shapes, pshape, normalise_function=lambda x: x)),
        ("build_reference_frame", lambda: B.build_reference_frame(gt)),
        ("build_patch_reference_frame",
         lambda: B.build_patch_reference_frame(gt, patch_shape=pshape)),
        ("densify_shapes", lambda: B.densify_shapes(shapes, frame, TPS)),
        ("align_shapes", lambda: B.align_shapes(shapes)),
        ("batch", lambda: list(batch(ims, 2))),
        ("noisy box", lambda: F.noisy_shape_from_bounding_box(gt, box)),
        ("noisy shape", lambda: F.noisy_shape_from_shape(gt, shapes[1])),
        ("align box", lambda: F.align_shape_with_bounding_box(gt, box)),
        ("noisy transform", lambda: F.noisy_alignment_similarity_transform(
            gt, shapes[1]).apply(gt)),
        ("errors", lambda: [E.root_mean_square_error(gt, shapes[1]),
                            E.euclidean_error(gt, shapes[1]),
                            E.euclidean_bb_normalised_error(
                                shapes[1], gt)]),
    ]
    # shape models
    for cls in (PDM, OrthoPDM, GlobalPDM):
        if cls is GlobalPDM:
            m = GlobalPDM(shapes, DifferentiableAlignmentSimilarity)
        else:
            m = cls(shapes)
        tgt = PointCloud(shapes[2].points.copy())
        m.set_target(tgt)
        v0, t0 = m.as_vector().copy(), m.target.points.copy()
        keep = tgt.points.copy()
        tgt.points[...] += 9
        c.check(np.array_equal(m.target.points, t0), "alias/set_target",
                cls.__name__)
        tgt.points[...] = keep
        v = m.as_vector()
        if v.flags.writeable:
            v[...] = 5
        c.check(np.array_equal(m.as_vector(), v0), "alias/as_vector",
                cls.__name__)
        v = v0 * .5
        m._from_vector_inplace(v)
        v1, t1 = m.as_vector().copy(), m.target.points.copy()
        v[...] = -3
        c.check(np.array_equal(m.as_vector(), v1) and np.array_equal(
            m.target.points, t1), "alias/from_vector", cls.__name__)
        pool["target"] = tgt
        calls.append((cls.__name__, lambda m=m: (
            m.set_target(tgt), m.d_dp(gt.points), m.increment(
                [s.copy() for s in shapes[:2]]))))
        calls.append((cls.__name__ + " increment",
                      lambda m=m: m.increment(shapes[2:])))
        c.event("alias checks", 3)
    pts = gt.points[:5] + .25
    pool["points"] = pts
    for cls in (DifferentiablePiecewiseAffine, TPS):
        t = cls(gt, shapes[1])
        tgt2 = PointCloud(shapes[2].points.copy())
        t.set_target(tgt2)
        inner = PointCloud(np.array([gt.points.mean(0)]))
        a = t.apply(inner).points.copy()
        tgt2.points[...] += 30
        b = t.apply(inner).points
        if cls is TPS:
            c.check(np.array_equal(a, b), "alias/transform", cls.__name__)
        calls.append((cls.__name__, lambda t=t: (
            t.apply(inner), t.d_dl(inner.points), t.set_target(shapes[3]))))
    # experts, regressors and filters
    ens = CorrelationFilterExpertEnsemble(ims, shapes, patch_shape=(5, 5),
                                          context_shape=(11, 11))
    calls += [("expert response", lambda: ens.predict_response(ims[1], gt)),
              ("expert probability",
               lambda: ens.predict_probability(ims[1], gt)),
              ("expert increment", lambda: ens.increment(ims[:2], shapes[:2]))]
    X, Y = rng.randn(12, 4), rng.randn(12, 3)
    x1 = rng.randn(1, 4)
    pool.update(X=X, Y=Y, x1=x1)
    for cls, k in ((R.IRLRegression, {}), (R.IIRLRegression, {}),
                   (R.PCRRegression, {}), (R.OPPRegression, {}),
                   (R.OptimalLinearRegression, {})):
        k = dict(k, bias=bool(rng.rand() < .5))
        if cls is R.OPPRegression:
            k.pop("bias")

        def go(cls=cls, k=k):
            r = cls(**k)
            r.train(X, Y)
            r.predict(x1)
            if "incrementable" in inspect.signature(cls).parameters:
                r = cls(incrementable=True, **k)
                r.train(X, Y)
                r.increment(X[:5], Y[:5])
        calls.append((cls.__name__, go))
    P = rng.randn(6, 1, 9, 9)
    y = rng.randn(1, 9, 9)
    ker = rng.randn(1, 5, 5)
    pool.update(patches=P, response=y, kernel=ker)
    calls += [("mosse", lambda: CF.mosse(P, y)),
              ("mccf", lambda: CF.mccf(P, y)),
              ("fft_convolve2d", lambda: U.fft_convolve2d(P[0], ker)),
              ("pad", lambda: U.pad(y, (15, 15))),
              ("crop", lambda: U.crop(y, (5, 5)))]
    w = Watch(**pool)
    order = rng.permutation(len(calls))
    c.seen(*order[:6])
    for i in order:
        name, fn = calls[i]
        try:
            fn()
        except np.linalg.LinAlgError:
            continue
        w.check(c, "helper/" + name)
        c.event("helper calls")


def case_instances(c):
    """Generating from a model changes neither the weights nor the model."""
    rng = c.rng
    name = ["AAM/HolisticAAM/WibergInverseCompositional",
            "AAM/MaskedAAM/WibergInverseCompositional",
            "AAM/PatchAAM/WibergInverseCompositional",
            "ATM/HolisticATM/InverseCompositional",
            "ATM/PatchATM/InverseCompositional",
            "CLM/CLM/RegularisedLandmarkMeanShift",
            "UNI/UnifiedAAMCLM/ProjectOutRegularisedLandmarkMeanShift",
            "APS/GenerativeAPS/Inverse"][c.index % 8]
    kw = aps_graph(9) if name.startswith("APS") else None
    spec = zoo.diverged(zoo.build, rng, name, scales=(.6, 1.), n_points=9,
                        model_kw=kw)
    m = spec.model
    args = {}
    w = rng.randn(2)
    args["shape_weights"] = w
    fam = name.split("/")[0]
    if fam in ("AAM", "UNI"):
        args["appearance_weights"] = rng.randn(2)
    j = int(rng.randint(2))

    def gen_one():
        if fam == "CLM":
            return m.shape_instance(scale_index=j, **args) if hasattr(
                m, "shape_instance") else None
        got = m.instance(scale_index=j, **args)
        return got if isinstance(got, (PointCloud, Image)) else \
            [x for x in got if isinstance(x, Image)][0]

    a = gen_one()
    if a is None:
        raise Skip()
    watch = Watch(**args)

    def bits(x):
        return x.points.copy() if isinstance(x, PointCloud) else \
            x.pixels.copy()
    first = bits(a)
    ref = snap(m.reference_shape)
    (a.points if isinstance(a, PointCloud) else a.pixels)[...] = 55
    if not isinstance(a, PointCloud) and a.has_landmarks:
        for g in a.landmarks.group_labels:
            a.landmarks[g].points[...] = 3
    watch.check(c, "instance")
    b = gen_one()
    c.check(np.array_equal(bits(b), first), "alias/instance",
            "%s: overwriting an instance changes the next" % name)
    c.check(snap(m.reference_shape) == ref, "alias/reference", name)
    test = spec.tests[0]
    x0 = zoo.start(rng, spec, test)
    r1 = outcome(zoo.diverged(spec.fitter.fit_from_shape, test, x0))
    if fam != "CLM":
        m.random_instance(scale_index=j)
    for _ in range(3):
        gen_one()
    str(m), str(spec.fitter)
    r2 = outcome(zoo.diverged(spec.fitter.fit_from_shape, test, x0))
    c.check(equal(r1, r2), "instance/later-fit-changed", name)
    c.seen(name, j, *np.round(w, 3))
    c.event("instances")


CASES = {"helpers": (case_helpers, 40, 200),
         "instances": (case_instances, 53, 200),
"train": (case_train, 320, 1400), "fit": (case_fit, 320, 1400),
         "increment": (case_increment, 87, 400)}
REQUIRED = {"trainings": 60, "failed trainings": 80, "fits": 50,
            "failed fits": 60, "increments": 15, "overwritten outputs": 300,
            "alias checks": 40}
