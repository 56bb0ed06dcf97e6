"""M10: fitting results report the trajectory that was computed."""
import warnings

import numpy as np

from menpo.image import Image
from menpo.shape import PointCloud
from menpo.transform import Affine, Scale

from menpofit.base import MenpoFitCostsWarning

from . import gen, zoo
from .core import Skip
from .m06_multiscale import aps_graph

ID = "M10"
RULE = ("results of every class assembled from random per-scale trajectories, "
        "costs, parameters, transforms, with and without initial shape, "
        "ground truth and image; results of trained fitters of every family "
        "compared with the calls recorded at their per-scale algorithms; "
        "distinct when class, scales, numbers of iterations and options "
        "differ")
ASSUMPTIONS = ["Lucas-Kanade aligners report one cost per iteration, the "
               "other parametric fits one per iteration and one for the start "
               "of each scale",
               "Lucas-Kanade aligners report the shape each scale starts from "
               "itself, not its projection on the transform",
               "fits whose linear system became singular decide nothing"]


def shapes_of(rng, k, n):
    return [PointCloud(rng.uniform(0, 60, (n, 2))) for _ in range(k)]


def err(a, b):
    return float(np.sqrt(((a.points - b.points) ** 2).sum(1)).max())


def check_single(c, r, shapes, init, gt, image, n_iters, costs, tag):
    """Everything a non parametric view of a result offers."""
    want = ([] if init is None else [init]) + shapes
    c.check(r.is_iterative, tag + "/is_iterative")
    c.check(len(r.shapes) == len(want) and all(
        np.allclose(a.points, b.points, rtol=1e-12, atol=1e-9)
        for a, b in zip(r.shapes, want)), tag + "/shapes",
        lambda: "%d shapes, not %d" % (len(r.shapes), len(want)))
    c.check(r.n_iters == n_iters, tag + "/n_iters", lambda: "%s, not %d" % (
        r.n_iters, n_iters))
    if want:
        c.close(r.final_shape.points, want[-1].points, tag + "/final")
    if init is None:
        c.check(r.initial_shape is None, tag + "/initial")
    else:
        c.close(r.initial_shape.points, init.points, tag + "/initial")
    c.check(r.gt_shape is gt or np.array_equal(r.gt_shape.points, gt.points),
            tag + "/gt")
    c.check((r.image is None) == (image is None), tag + "/image")
    if image is not None:
        c.check(np.array_equal(r.image.pixels, image.pixels), tag + "/image")
    if costs is None:
        c.check(r.costs is None, tag + "/costs")
    else:
        c.check(list(r.costs) == list(costs), tag + "/costs",
                lambda: "%s not %s" % (r.costs, costs))
    # errors
    from menpofit.error import euclidean_bb_normalised_error
    if gt is not None:
        c.close(r.errors(), [euclidean_bb_normalised_error(s, gt)
                             for s in want], tag + "/errors")
        c.close(r.errors(compute_error=err), [err(s, gt) for s in want],
                tag + "/errors-custom")
        # metrics of one name in turn, and the default one again
        for k in (0, -1, 0):
            one = lambda a, b, k=k: float(np.abs(a.points - b.points)[k].sum())
            c.close(r.errors(compute_error=one), [one(s, gt) for s in want],
                    tag + "/errors-in-turn")
            c.close(r.final_error(compute_error=one), one(want[-1], gt),
                    tag + "/errors-in-turn")
            if init is not None:
                c.close(r.initial_error(compute_error=one), one(init, gt),
                        tag + "/errors-in-turn")
        got = r.errors()
        got[0] = -1.            # (the caller's own list)
        c.close(r.errors(), [euclidean_bb_normalised_error(s, gt)
                             for s in want], tag + "/errors-in-turn")
        c.close(r.final_error(compute_error=err), err(want[-1], gt),
                tag + "/final-error")
        c.close(r.final_error(), euclidean_bb_normalised_error(want[-1], gt),
                tag + "/final-error")
        if init is not None:
            c.close(r.initial_error(compute_error=err), err(init, gt),
                    tag + "/initial-error")
            c.close(r.initial_error(), euclidean_bb_normalised_error(init, gt),
                    tag + "/initial-error")
            c.check("Initial error: %.4f" % r.initial_error() in str(r),
                    tag + "/str")
        else:
            c.raises(ValueError, r.initial_error, tag + "/no-initial")
        c.check("Final error: %.4f" % r.final_error() in str(r), tag + "/str")
    else:
        for fn in (r.errors, r.final_error, r.initial_error):
            c.raises(ValueError, fn, tag + "/no-gt")
        c.check(str(want[-1].n_points) in str(r), tag + "/str")
    # displacements
    d = [np.sqrt(((a.points - b.points) ** 2).sum(1))
         for a, b in zip(want, want[1:])]
    got = r.displacements()
    c.check(len(got) == len(d), tag + "/displacements")
    for a, b in zip(got, d):
        c.close(a, b, tag + "/displacements", rtol=1e-7)
    for kind, fn in (("mean", np.mean), ("median", np.median),
                     ("max", np.max), ("min", np.min)):
        c.close(r.displacements_stats(kind), [fn(x) for x in d],
                tag + "/displacements-" + kind, rtol=1e-7)
    c.close(r.displacements_stats(), [np.mean(x) for x in d],
            tag + "/displacements-default", rtol=1e-7)
    if d:
        got = r.displacements()
        got[0][...] = -1.
        c.close(r.displacements()[0], d[0], tag + "/displacements", rtol=1e-7)
    c.raises(ValueError, lambda: r.displacements_stats("mode"),
             tag + "/displacements-kind")
    # reductions
    for flags in ((True, True, True), (False, True, True),
                  (True, False, True), (True, True, False),
                  (False, False, False)):
        q = r.to_result(pass_image=flags[0], pass_initial_shape=flags[1],
                        pass_gt_shape=flags[2])
        c.check(type(q).__name__ == "Result" and not q.is_iterative,
                tag + "/to_result-type")
        c.close(q.final_shape.points, want[-1].points, tag + "/to_result")
        c.check((q.image is not None) == (flags[0] and image is not None) and
                (q.initial_shape is not None) == (flags[1] and
                                                  init is not None) and
                (q.gt_shape is not None) == (flags[2] and gt is not None),
                tag + "/to_result-flags")
        if q.initial_shape is not None:
            c.close(q.initial_shape.points, init.points, tag + "/to_result")
        if q.gt_shape is not None:
            c.close(q.gt_shape.points, gt.points, tag + "/to_result")
        if q.image is not None:
            c.check(np.array_equal(q.image.pixels, image.pixels),
                    tag + "/to_result-image")
    c.event("reports")


def view(c, r, recon, tag):
    """What the iteration viewer is asked to draw."""
    import menpofit.result as mr
    seen = {}

    def spy(image, groups, *a, **k):
        seen["image"], seen["groups"] = image, list(groups)
    old = mr.view_image_multiple_landmarks
    mr.view_image_multiple_landmarks = spy
    px = None if r.image is None else r.image.pixels.copy()
    try:
        r.view_iterations()
        full = dict(seen)
        j = c.rng.randint(len(r.shapes))
        r.view_iterations(iters=int(j))
        one = dict(seen)
        r.view(render_initial_shape=True, render_gt_shape=True)
        fin = dict(seen)
    finally:
        mr.view_image_multiple_landmarks = old
    g = full["groups"]
    if not c.check(len(g) == len(r.shapes) and len(set(g)) == len(g),
                   tag + "/view-groups", lambda: str(g)):
        return
    for name, s in zip(g, r.shapes):
        c.close(full["image"].landmarks[name].points, s.points,
                tag + "/view-shapes", name)
    start = 0 if r.initial_shape is None else 1
    if start:
        c.check(g[0] == "Initial", tag + "/view-initial")
    k = 0
    for j in range(start, len(g)):
        if j in recon:
            c.check(g[j].lower().startswith("reconstruction"),
                    tag + "/view-reconstruction", lambda: str(g))
            continue
        k += 1
        if j == len(g) - 1:
            c.check(g[j] == "Final", tag + "/view-final", lambda: str(g))
        else:
            c.check(int(g[j].split()[-1]) == k, tag + "/view-numbers",
                    lambda: "%s, iteration %d" % (g[j], k))
    c.check(one["groups"] == [g[c_index(one, r, g)]], tag + "/view-one")
    names = {"final": r.final_shape}
    if r.initial_shape is not None:
        names["initial"] = r.initial_shape
    if r.gt_shape is not None:
        names["groundtruth"] = r.gt_shape
    c.check(set(fin["groups"]) == set(names), tag + "/view-result")
    for k2, s in names.items():
        c.close(fin["image"].landmarks[k2].points, s.points,
                tag + "/view-result")
    if px is not None:
        c.check(np.array_equal(px, r.image.pixels) and
                not r.image.has_landmarks, tag + "/view-changes-image")
    c.event("views")


def c_index(one, r, g):
    pts = one["image"].landmarks[one["groups"][0]].points
    for i, s in enumerate(r.shapes):
        if np.array_equal(s.points, pts) and g[i] == one["groups"][0]:
            return i
    return 0 if g[0] != one["groups"][0] else -1


def case_single(c):
    from menpofit.result import (NonParametricIterativeResult,
                                 ParametricIterativeResult, Result)
    from menpofit.aam.result import AAMAlgorithmResult
    from menpofit.aps.result import APSAlgorithmResult
    from menpofit.lk.result import LucasKanadeAlgorithmResult
    from menpofit.unified_aam_clm.result import UnifiedAAMCLMAlgorithmResult
    rng = c.rng
    n = rng.randint(3, 9)
    init = shapes_of(rng, 1, n)[0] if rng.rand() < .7 else None
    gt = shapes_of(rng, 1, n)[0] if rng.rand() < .7 else None
    image = Image(rng.rand(rng.randint(1, 3), 9, 8)) if rng.rand() < .6 \
        else None
    kind = rng.randint(6)
    k = rng.randint(1 if kind else 1, 7)
    shapes = shapes_of(rng, k, n)
    costs = list(rng.rand(k)) if rng.rand() < .5 else None
    kw = dict(initial_shape=init, image=image, gt_shape=gt)
    pars = [rng.rand(3) for _ in range(k)]
    app = [rng.rand(2) for _ in range(k)]
    given = list(shapes)
    gc = None if costs is None else list(costs)
    if kind == 0:
        r = NonParametricIterativeResult(given, costs=gc, **kw)
    elif kind == 1:
        r = ParametricIterativeResult(given, list(pars), costs=gc, **kw)
    elif kind == 2:
        r = AAMAlgorithmResult(given, list(pars), list(app), costs=gc, **kw)
    elif kind == 3:
        a, d = list(rng.rand(k)), list(rng.rand(k))
        r = APSAlgorithmResult(given, list(pars), costs=gc,
                               appearance_costs=list(a),
                               deformation_costs=list(d), **kw)
        c.check(r.appearance_costs == a and r.deformation_costs == d,
                "single/aps-costs")
    elif kind == 4:
        r = LucasKanadeAlgorithmResult(given, list(pars), costs=gc, **kw)
        c.check(all(x is y for x, y in zip(r.homogeneous_parameters, pars)),
                "single/homogeneous")
    else:
        r = UnifiedAAMCLMAlgorithmResult(given, list(pars), list(app),
                                         costs=gc, **kw)
    tag = "single/" + type(r).__name__
    c.note(cls=type(r).__name__, k=k, initial=init is not None,
           gt=gt is not None)
    check_single(c, r, shapes, init, gt, image, k if kind == 0 else k - 1,
                 costs, tag)
    c.check(len(given) == k, tag + "/list-changed")
    recon = []
    if kind:
        recon = [0 if init is None else 1]
        c.check(r.reconstructed_initial_shape is shapes[0],
                tag + "/reconstructed")
        c.check(len(r.shape_parameters) == k and all(
            x is y for x, y in zip(r.shape_parameters, pars)),
            tag + "/parameters")
        if gt is not None:
            c.close(r.reconstructed_initial_error(compute_error=err),
                    err(shapes[0], gt), tag + "/reconstructed-error")
        else:
            c.raises(ValueError, r.reconstructed_initial_error,
                     tag + "/reconstructed-no-gt")
    if kind in (2, 5):
        c.check(len(r.appearance_parameters) == k and all(
            x is y for x, y in zip(r.appearance_parameters, app)),
            tag + "/appearance")
    view(c, r, recon, tag)
    # a result without iterations
    q = Result(shapes[-1], image=image, initial_shape=init, gt_shape=gt)
    c.check(not q.is_iterative and q.final_shape is shapes[-1], "result/final")
    if gt is not None:
        c.close(q.final_error(compute_error=err), err(shapes[-1], gt),
                "result/final-error")
    else:
        c.raises(ValueError, q.final_error, "result/no-gt")
    if image is not None:
        q.image.pixels[...] = -1
        c.check(not np.any(image.pixels == -1), "result/image-aliased")
    c.seen(type(r).__name__, k, init is None, gt is None, image is None,
           costs is None)


def case_multi(c):
    from menpofit import result as R
    from menpofit.aam.result import AAMAlgorithmResult, AAMResult
    from menpofit.aps.result import APSAlgorithmResult, APSResult
    from menpofit.lk.result import (LucasKanadeAlgorithmResult,
                                    LucasKanadeResult)
    from menpofit.unified_aam_clm.result import (
        UnifiedAAMCLMAlgorithmResult, UnifiedAAMCLMResult)
    rng = c.rng
    n, S = rng.randint(3, 8), rng.randint(1, 5)
    has_init = rng.rand() < .75
    gt = shapes_of(rng, 1, n)[0] if rng.rand() < .7 else None
    image = Image(rng.rand(1, 9, 8)) if rng.rand() < .6 else None
    has_costs = rng.rand() < .6
    kind = rng.randint(6)
    scales = list(rng.uniform(.3, 1, S))
    aff, sca, results = [], [], []
    want, its, costs, pars, apps, ac, dc = [], [], [], [], [], [], []
    init = None
    recon = []
    for i in range(S):
        h = np.eye(3)
        h[:2] = np.hstack([np.eye(2) + rng.uniform(-.2, .2, (2, 2)),
                           rng.uniform(-9, 9, (2, 1))])
        A, s = Affine(h), Scale(1. / scales[i], 2)
        aff.append(A)
        sca.append(s)
        k = rng.randint(1, 6)
        shp = shapes_of(rng, k, n)
        ini = shapes_of(rng, 1, n)[0] if has_init else None
        cs = list(rng.rand(k)) if has_costs else None
        p, a = [rng.rand(3) for _ in range(k)], [rng.rand(2) for _ in range(k)]
        kw = dict(initial_shape=ini, image=image, gt_shape=None, costs=cs)
        if kind == 0:
            r = R.NonParametricIterativeResult(list(shp), **kw)
        elif kind == 1:
            r = R.ParametricIterativeResult(list(shp), list(p), **kw)
        elif kind == 2:
            r = AAMAlgorithmResult(list(shp), list(p), list(a), **kw)
        elif kind == 3:
            e, d = list(rng.rand(k)), list(rng.rand(k))
            r = APSAlgorithmResult(list(shp), list(p),
                                   appearance_costs=e if has_costs else None,
                                   deformation_costs=d if has_costs else None,
                                   **kw)
            ac += e
            dc += d
        elif kind == 4:
            r = LucasKanadeAlgorithmResult(list(shp), list(p), **kw)
        else:
            r = UnifiedAAMCLMAlgorithmResult(list(shp), list(p), list(a), **kw)

        def to_image(q):
            x = q.points / scales[i]
            return PointCloud(x.dot(h[:2, :2].T) + h[:2, 2])
        if i == 0 and has_init:
            init = to_image(ini)
        recon.append(len(want) + int(has_init))
        want += [to_image(q) for q in shp]
        its.append(k if kind == 0 else k - 1)
        costs += cs or []
        pars += p
        apps += a
        results.append(r)
    cls = [R.MultiScaleNonParametricIterativeResult,
           R.MultiScaleParametricIterativeResult, AAMResult, APSResult,
           LucasKanadeResult, UnifiedAAMCLMResult][kind]
    before = [[s.points.copy() for s in r.shapes] for r in results]
    ccopy = [None if r.costs is None else list(r.costs) for r in results]
    call = lambda: cls(results=results, scales=scales, affine_transforms=aff,
                       scale_transforms=sca, image=image, gt_shape=gt)
    r = call()
    tag = "multi/" + cls.__name__
    c.note(cls=cls.__name__, iterations=its, initial=has_init,
           gt=gt is not None, costs=has_costs)
    check_single(c, r, want, init, gt, image, sum(its),
                 costs if has_costs else None, tag)
    c.check(list(r.n_iters_per_scale) == its, tag + "/per-scale",
            lambda: "%s not %s" % (r.n_iters_per_scale, its))
    c.check(r.n_scales == S, tag + "/n_scales")
    if kind:
        rs = r.reconstructed_initial_shapes
        full = ([init] if has_init else []) + want
        c.check(len(rs) == S and all(
            np.allclose(x.points, full[j].points) for x, j in zip(rs, recon)),
            tag + "/reconstructed")
        if kind != 4:
            c.check(len(r.shape_parameters) == len(pars) and all(
                x is y for x, y in zip(r.shape_parameters, pars)),
                tag + "/parameters")
        if gt is not None:
            c.close(r.reconstructed_initial_error(compute_error=err),
                    err(full[recon[0]], gt), tag + "/reconstructed-error")
        else:
            c.raises(ValueError, r.reconstructed_initial_error,
                     tag + "/reconstructed-no-gt")
    if kind in (2, 5):
        c.check(len(r.appearance_parameters) == len(apps) and all(
            x is y for x, y in zip(r.appearance_parameters, apps)),
            tag + "/appearance")
    if kind == 4:
        c.check(len(r.homogeneous_parameters) == len(pars) and all(
            x is y for x, y in zip(r.homogeneous_parameters, pars)),
            tag + "/homogeneous")
    if kind == 3 and has_costs:
        c.check(r.appearance_costs == ac and r.deformation_costs == dc,
                tag + "/aps-costs")
    view(c, r, recon if kind else [], tag)
    # assembling twice gives the same: the parts were not consumed
    c.check(all(len(x) == len(q.shapes) and all(
        np.array_equal(a, b.points) for a, b in zip(x, q.shapes))
        for x, q in zip(before, results)) and
        ccopy == [None if q.costs is None else list(q.costs)
                  for q in results], tag + "/parts-changed")
    r2 = call()
    c.check(len(r2.shapes) == len(r.shapes) and (
        r2.costs == r.costs), tag + "/twice")
    c.raises(ValueError, lambda: cls(
        results=results, scales=scales + [1.], affine_transforms=aff,
        scale_transforms=sca), tag + "/lengths")
    c.seen(cls.__name__, its, has_init, gt is None, has_costs)


# families with few members take part as often as the others
RARE = [x for x in zoo.NAMES if x.split("/")[0] in ("CLM", "APS", "UNI",
                                                     "DLIB")]


def own_report(c, name, image, start, k, res):
    """The result of one algorithm is that of the call it answers."""
    fam = name.split("/")[0]
    tag = "algorithm/" + fam
    g = k.get("gt_shape")
    c.check((g is None and res.gt_shape is None) or (
        res.gt_shape is not None and
        np.array_equal(res.gt_shape.points, g.points)), tag + "/gt", name)
    c.check(res.image is not None and
            np.array_equal(res.image.pixels, image.pixels),
            tag + "/image", name)
    if fam != "DLIB":
        c.check(res.initial_shape is not None, tag + "/no-initial", name)
        c.close(res.initial_shape.points, start, tag + "/initial", name,
                rtol=0, atol=1e-9)
        c.close(res.shapes[0].points, start, tag + "/first", name,
                rtol=0, atol=1e-9)
    c.check(res.final_shape is res.shapes[-1] or np.array_equal(
        res.final_shape.points, res.shapes[-1].points), tag + "/final", name)
    if not k.get("return_costs"):
        c.check(res.costs is None, tag + "/costs", name)
    if g is not None:
        c.close(res.final_error(compute_error=err), err(res.final_shape, g),
                tag + "/final-error", name)
        e = res.errors(compute_error=err)
        c.close(e, [err(s, g) for s in res.shapes], tag + "/errors", name)
        if fam != "DLIB":
            c.close(res.initial_error(compute_error=err),
                    err(res.initial_shape, g), tag + "/initial-error", name)
    else:
        c.raises(ValueError, res.final_error, tag + "/no-gt", name)
    c.event("algorithm results")


def case_trained(c):
    rng = c.rng
    names = zoo.NAMES + 5 * RARE
    name = names[c.index % len(names)]
    fam = name.split("/")[0]
    n = zoo.some_points(rng)
    kw = aps_graph(n) if fam == "APS" else {}
    spec = zoo.diverged(zoo.build, rng, name, model_kw=kw, n_points=n,
                        channels=1 if fam == "DLIB" else None)
    f, n = spec.fitter, spec.n_scales
    log = []
    for i, a in enumerate(f.algorithms):
        def run(image, initial_shape, _i=i, _run=a.run, **k):
            start = initial_shape.points.copy()
            res = _run(image, initial_shape, **k)
            log.append(res)
            c.check((k.get("gt_shape") is None) == (gt is None),
                    "algorithm/given-gt", name)
            own_report(c, name, image, start, k, res)
            return res
        a.run = run
    test = spec.tests[0]
    s0 = zoo.start(rng, spec, test)
    gt = test.landmarks["PTS"] if rng.rand() < .6 else None
    has_costs = fam in ("AAM", "ATM", "LK", "APS", "UNI")
    want_costs = rng.rand() < (.7 if has_costs else .5) and fam != "DLIB"
    kw = {}
    if fam != "DLIB":
        kw = {"max_iters": [int(rng.randint(0, 5)) for _ in range(n)],
              "return_costs": want_costs}
    with warnings.catch_warnings(record=True) as told:
        warnings.simplefilter("always")
        from_box = rng.rand() < .3
        if from_box:
            from menpofit.fitter import align_shape_with_bounding_box as fill
            box = s0.bounding_box()
            s0 = fill(f.reference_shape, box)
            r = zoo.diverged(f.fit_from_bb, test, box, gt_shape=gt, **kw)
        else:
            r = zoo.diverged(f.fit_from_shape, test, s0, gt_shape=gt, **kw)
    # costs that cannot be had are refused aloud, others come without a word
    no_costs = [w for w in told if w.category is MenpoFitCostsWarning]
    c.check(bool(no_costs) == (want_costs and not has_costs),
            "trained/costs-warning/" + fam, lambda: "%s: %d warnings" % (
                name, len(no_costs)))
    if fam == "DLIB":
        box_only = [w for w in told if "bounding box" in str(w.message)]
        c.check(bool(box_only) == (not from_box), "trained/box-warning")
    if want_costs and not has_costs:
        c.check(r.costs is None and all(q.costs is None for q in log),
                "trained/costs-warning/" + fam, name)
        want_costs = False
        c.event("costs refused")
    c.note(name=name, scales=spec.scales, costs=want_costs, **kw)
    its = list(r.n_iters_per_scale)
    c.check(len(its) == n and sum(its) == r.n_iters == sum(
        q.n_iters for q in log), "trained/n_iters/" + fam)
    par = fam in zoo.PARAMETRIC
    algp = [hasattr(q, "_shape_parameters") for q in log]
    n_shapes = sum(its) + (0 if fam == "DLIB" else 1) + sum(
        1 for q in log if hasattr(q, "reconstructed_initial_shape"))
    c.check(len(r.shapes) == n_shapes, "trained/shapes/" + fam,
            lambda: "%s: %d, not %d" % (name, len(r.shapes), n_shapes))
    c.check(len(log) == n, "trained/scales/" + fam)
    c.check((gt is None and r.gt_shape is None) or
            np.array_equal(r.gt_shape.points, gt.points), "trained/gt")
    c.check(np.array_equal(r.image.pixels, test.pixels), "trained/image")
    if fam != "DLIB":
        c.close(r.initial_shape.points, s0.points, "trained/initial",
                rtol=1e-9)
    c.close(r.final_shape.points, r.shapes[-1].points, "trained/final")
    if gt is not None:
        c.close(r.final_error(compute_error=err), err(r.final_shape, gt),
                "trained/final-error")
        c.check(len(r.errors()) == len(r.shapes), "trained/errors")
    # parameters belong to their shapes
    if all(algp) and all(hasattr(q, "reconstructed_initial_shape")
                         for q in log):
        p = r.homogeneous_parameters if fam == "LK" else r.shape_parameters
        c.check(len(p) == sum(its) + n, "trained/parameters/" + fam,
                lambda: "%s: %d for %s" % (name, len(p), its))
        k0 = 0
        for a, q, it in zip(f.algorithms, log, its):
            tr = getattr(a, "transform", None)
            if tr is None:
                tr = getattr(a, "shape_model", None)
            mine = p[k0:k0 + it + 1]
            k0 += it + 1
            s = q.shapes[1:]
            if not c.check(len(s) == len(mine), "trained/aligned/" + fam):
                continue
            # (aligners report the very shape each scale starts from)
            skip = int(fam == "LK")
            for x, y in list(zip(mine, s))[skip:]:
                if tr is None:
                    break
                t = tr.copy()
                t = t.from_vector(np.asarray(x))
                got = t.target.points[:y.n_points]
                c.close(got, y.points, "trained/parameters-of-shape/" + fam,
                        name, rtol=1e-6, atol=1e-6)
                c.event("instances")
    if want_costs:
        extra = 0 if fam == "LK" else n
        c.check(r.costs is not None and len(r.costs) == sum(its) + extra and
                np.all(np.isfinite(r.costs)),
                "trained/costs/" + fam, lambda: "%s: %s for %s" % (
                    name, r.costs, its))
    elif fam != "DLIB":
        c.check(r.costs is None, "trained/unasked-costs/" + fam)
    if fam in ("AAM", "UNI") and r.appearance_parameters is not None:
        c.check(len(r.appearance_parameters) == sum(its) + n,
                "trained/appearance/" + fam, lambda: "%s: %d for %s" % (
                    name, len(r.appearance_parameters), its))
    if fam == "APS" and want_costs:
        for q in (r.appearance_costs, r.deformation_costs):
            c.check(q is not None and len(q) == len(r.costs),
                    "trained/aps-costs")
        c.close(np.array(r.appearance_costs) + np.array(r.deformation_costs),
                np.array(r.costs), "trained/aps-costs-add-up", rtol=1e-6)
    d = r.displacements()
    c.check(len(d) == len(r.shapes) - 1, "trained/displacements")
    c.event("fits/" + fam)
    c.seen("trained", name, spec.scales, its, want_costs, gt is None)


CASES = {"single": (case_single, 571, 4000), "multi": (case_multi, 571, 4000),
         "trained": (case_trained, 1257, 2200)}
REQUIRED = {"reports": 200, "costs refused": 10, "views": 200, "instances": 100, "fits/AAM": 20,
            "algorithm results": 100, "fits/SDM": 5, "fits/LK": 5}
