"""M27: a fitter told to sub-sample looks at the sampled pixels, and only them.

Fitters of every family that takes ``sampling`` are built on one model with
the same sampling said in different ways; their warps are hooked and the
pixels which no sampled residual or derivative reads are overwritten.
"""
from copy import deepcopy

import numpy as np
from scipy.ndimage import binary_dilation

from . import zoo
from .core import Skip
from .m28_presentation import settings

ID = "M27"
RULE = ("every AAM, ATM, APS and unified fitter with drawn models and "
        "samplings; distinct when fitter, sampling or configuration differ")
ASSUMPTIONS = ["derivatives are central differences: a pixel matters when it "
               "is sampled or next to a sampled one"]

NAMES = [x for x in zoo.NAMES if x.split("/")[0] in ("AAM", "ATM")] + 5 * [
    x for x in zoo.NAMES if x.split("/")[0] in ("APS", "UNI")]


def fitter(spec, sampling):
    import importlib
    fam, _, alg = spec.name.split("/")
    m = importlib.import_module({"UNI": "menpofit.unified_aam_clm"}.get(
        fam, "menpofit." + fam.lower()))
    if fam == "AAM":
        return m.LucasKanadeAAMFitter(spec.model, getattr(m, alg),
                                      sampling=sampling)
    if fam == "ATM":
        return m.LucasKanadeATMFitter(spec.model, getattr(m, alg),
                                      sampling=sampling)
    if fam == "APS":
        return m.GaussNewtonAPSFitter(spec.model, getattr(m, alg),
                                      sampling=sampling)
    return m.UnifiedAAMCLMFitter(spec.model, getattr(m, alg),
                                 sampling=sampling)


def specimen(c, name):
    rng = c.rng
    o = settings(rng, name)
    o.pop("batch_size", None)
    return zoo.diverged(zoo.build, rng, name, **o)


def by_patch(spec):
    return "Patch" in spec.name or spec.family == "APS"


def domain(spec, j):
    """(number of places a mask speaks about, their shape)"""
    if by_patch(spec):
        ps = tuple(spec.model.patch_shape[j])
        return int(np.prod(ps)), ps
    t = template(spec, j)
    return t.n_true_pixels(), (t.n_true_pixels(),)


def template(spec, j):
    return spec.fitter.algorithms[j].interface.template


def run(spec, f, image, s0, budget):
    kw = {} if spec.family == "UNI" else dict(return_costs=True)
    return zoo.diverged(f.fit_from_shape, image, s0, max_iters=budget, **kw)


def identical(c, a, b, mech, msg):
    if not c.check(len(a.shapes) == len(b.shapes), mech + "/count", msg):
        return
    size = np.ptp(a.shapes[0].points)
    for i, (x, y) in enumerate(zip(a.shapes, b.shapes)):
        if not np.abs(x.points - a.shapes[0].points).max() < 2 * size:
            c.event("diverged fits")      # rounding decides from here on
            return
        d = np.abs(x.points - y.points).max()
        if not c.check(d <= 1e-6, mech, "%s: shape %d off by %.3g" % (
                msg, i, d)):
            return
    p, q = getattr(a, "costs", None), getattr(b, "costs", None)
    if p is not None:
        c.check(q is not None and np.allclose(p, q, rtol=1e-6, atol=1e-9),
                mech + "/costs", msg)


def case_guise(c):
    """One sampling said in several ways is one sampling."""
    rng = c.rng
    name = NAMES[c.index % len(NAMES)]
    spec = specimen(c, name)
    test = spec.tests[0]
    s0 = zoo.start(rng, spec, test, .7)
    budget = [int(rng.randint(1, 4)) for _ in range(spec.n_scales)]
    step = int(rng.randint(2, 6))
    masks, steps = [], []
    for j in range(spec.n_scales):
        n, shape = domain(spec, j)
        m = np.zeros(n, dtype=bool)
        m[::step] = True
        masks.append(m.reshape(shape))
        steps.append(step)
    c.note(name=name, step=step, scales=spec.scales)
    try:
        a = run(spec, fitter(spec, step), test, s0, budget)
    except np.linalg.LinAlgError:
        raise Skip()
    said = [("list", steps), ("masks", masks), ("tuple", tuple(masks)),
            ("numpy", np.int64(step))]
    if not by_patch(spec):
        said.append(("positions", [np.nonzero(m)[0] for m in masks]))
    if len({m.shape for m in masks}) == 1:
        said.append(("one-mask", [masks[0]]))
        if spec.n_scales == 1 or np.array_equal(masks[0], masks[-1]):
            said.append(("array", masks[0]))
    for what, s in said:
        kept = deepcopy(s)
        b = run(spec, fitter(spec, s), test, s0, budget)
        identical(c, a, b, "guise/%s/%s" % (what, spec.family), name)
        c.check(np.all([np.array_equal(x, y) for x, y in zip(
            np.atleast_1d(kept) if not isinstance(kept, (list, tuple))
            else kept, np.atleast_1d(s) if not isinstance(s, (list, tuple))
            else s)]), "guise/changed/" + what, name)
        c.event("samplings compared")
    # all there is
    a = run(spec, fitter(spec, None), test, s0, budget)
    for what, s in (("step-1", 1), ("all-true", [np.ones_like(m)
                                                 for m in masks]),
                    ("list-none", [None])):
        b = run(spec, fitter(spec, s), test, s0, budget)
        identical(c, a, b, "guise/%s/%s" % (what, spec.family), name)
        c.event("full samplings compared")
    c.seen("guise", name, step, spec.scales)


def draw(rng, spec, j):
    """A sampling with gaps: (what to ask, grid of places sampled)."""
    if by_patch(spec):
        _, ps = domain(spec, j)
        m = np.zeros(ps, dtype=bool)
        k = rng.randint(3)
        if k == 0:
            m[:ps[0] // 2] = True
        elif k == 1:
            m[:, ps[1] // 2:] = True
        else:
            m[rng.randint(ps[0]), :] = True
            m[:, rng.randint(ps[1])] = True
        return m, m
    t = template(spec, j)
    grid = np.zeros(t.shape, dtype=bool)
    h, w = t.shape
    k = rng.randint(3)
    if k == 0:
        grid[:h // 2 + 1] = True
    elif k == 1:
        grid[:, w // 3:] = True
    else:
        for _ in range(8):
            y, x = rng.randint(h - 5), rng.randint(w - 5)
            grid[y:y + 5, x:x + 5] = True
    grid &= t.mask.mask
    one = grid[t.mask.mask]
    if one.sum() < 40:
        raise Skip()
    return (one if rng.rand() < .6 else np.nonzero(one)[0]), grid


def blind(interface, spec, grid, seed, sampled=False):
    """Overwrites, in every warped image, what nobody looks at."""
    inner = interface.warp
    hidden = ~binary_dilation(grid, np.ones((3, 3)))
    state = np.random.RandomState(seed)
    count = [0]

    def warp(image):
        out = inner(image)
        if by_patch(spec):
            where = grid if sampled else hidden
            count[0] += int(where.sum())
            out.pixels[..., where] += state.uniform(
                .5, 3., out.pixels[..., where].shape)
            return out
        where = (grid if sampled else hidden) & out.mask.mask
        count[0] += int(where.sum())
        out.pixels[:, where] += state.uniform(
            .5, 3., (out.n_channels, int(where.sum())))
        return out
    interface.warp = warp
    return count


def case_blind(c):
    """What is not sampled does not matter; what is does."""
    rng = c.rng
    name = NAMES[(c.index * 7) % len(NAMES)]
    spec = specimen(c, name)
    test = spec.tests[0]
    s0 = zoo.start(rng, spec, test, .7)
    budget = [int(rng.randint(1, 4)) for _ in range(spec.n_scales)]
    asked, grids = zip(*[draw(rng, spec, j) for j in range(spec.n_scales)])
    asked = list(asked)
    c.note(name=name, scales=spec.scales,
           sampled=[int(g.sum()) for g in grids])
    a = run(spec, fitter(spec, asked), test, s0, budget)
    f = fitter(spec, asked)
    counts = [blind(alg.interface, spec, g, 1 + j) for j, (alg, g) in
              enumerate(zip(f.algorithms, grids))]
    b = run(spec, f, test, s0, budget)
    n = sum(x[0] for x in counts)
    if n:
        identical(c, a, b, "blind/" + spec.family, name)
        c.event("hidden pixels overwritten", n)
        c.event("blind fits")
    # the other way round: the residual does read what is sampled
    f = fitter(spec, asked)
    counts = [blind(alg.interface, spec, g, 1 + j, True) for j, (alg, g) in
              enumerate(zip(f.algorithms, grids))]
    try:
        b = run(spec, f, test, s0, budget)
    except (Skip, np.linalg.LinAlgError, ValueError):
        return
    p, q = getattr(a, "costs", None), getattr(b, "costs", None)
    if p is not None and q is not None:
        c.check(p[0] != q[0], "seen/" + spec.family, name)
        c.event("sampled pixels overwritten", sum(x[0] for x in counts))
    c.seen("blind", name, spec.scales, [int(g.sum()) for g in grids])


def case_scales(c):
    """Every scale follows its own entry of a list of samplings."""
    rng = c.rng
    name = NAMES[(c.index * 11) % len(NAMES)]
    o = settings(rng, name)
    o.pop("batch_size", None)
    o["scales"] = [(.5, 1.), (.4, .7, 1.), (.5, .8), (1., 1.)][rng.randint(4)]
    spec = zoo.diverged(zoo.build, rng, name, **o)
    test = spec.tests[0]
    k = spec.n_scales
    steps = [int(x) for x in rng.choice([1, 2, 3, 4, 5], k, replace=False)]
    mixed = [s if rng.rand() < .5 else None for s in steps]
    for asked in (steps, mixed):
        f = fitter(spec, asked)
        s0 = zoo.start(rng, spec, test, .7)
        budget = [int(rng.randint(1, 3)) for _ in range(k)]
        a = run(spec, f, test, s0, budget)
        # the fitters with one sampling at all scales, put together
        parts = [fitter(spec, s) for s in asked]
        g = fitter(spec, asked[0])
        g.algorithms = [p.algorithms[j] for j, p in enumerate(parts)]
        b = run(spec, g, test, s0, budget)
        identical(c, a, b, "scales/" + spec.family, "%s: %s" % (name, asked))
        c.event("per-scale samplings")
    c.note(name=name, scales=spec.scales, steps=steps, mixed=mixed)
    c.seen("scales", name, spec.scales, steps)


def case_helpers(c):
    """The ready-made samplings: positions and image denote the same pixels."""
    from menpofit.aam import (holistic_sampling_from_scale,
                              holistic_sampling_from_step)
    rng = c.rng
    kinds = ["HolisticAAM", "MaskedAAM", "LinearAAM", "LinearMaskedAAM"]
    alg = zoo.AAM_ALGS[c.index // 4 % len(zoo.AAM_ALGS)]
    name = "AAM/%s/%s" % (kinds[c.index % 4], alg)
    o = settings(rng, name)
    o.pop("batch_size", None)
    o["scales"] = [(1.,), (.7,), (.8, 1.)][rng.randint(3)]
    spec = zoo.diverged(zoo.build, rng, name, **o)
    ref = spec.model.appearance_models[0].mean()
    n = ref.n_true_pixels()
    kept = ref.copy()

    def agree(where, image, what):
        where = np.asarray(where)
        if where.dtype != bool:
            full = np.zeros(n, dtype=bool)
            full[where] = True
            where = full
        m = image.mask
        if not c.check(where.shape == (n,) and m.shape == ref.shape,
                       "helpers/shape/" + what, name):
            return where
        c.check(not np.any(m & ~ref.mask.mask), "helpers/outside/" + what,
                name)
        c.check(np.array_equal(m[ref.mask.mask], where),
                "helpers/agree/" + what, lambda: "%s: %d against %d" % (
                    name, m.sum(), where.sum()))
        c.event("ready-made samplings")
        return where

    step = int(rng.randint(1, 12))
    pos, img = holistic_sampling_from_step(spec.model, step=step)
    where = agree(pos, img, "step")
    want = np.zeros(n, dtype=bool)
    want[::step] = True
    c.check(np.array_equal(where, want), "helpers/step", "%s: %d" % (
        name, step))
    scale = float(rng.uniform(.3, .95))
    pos2, img2 = holistic_sampling_from_scale(spec.model, scale=scale)
    where2 = agree(pos2, img2, "scale")
    k = int(np.sum(where2))
    c.check(.4 * scale ** 2 * n <= k + 6 and k <= 1.4 * scale ** 2 * n + 6,
            "helpers/scale", "%s: %d of %d at %.2f" % (name, k, n, scale))
    pos3, img3 = holistic_sampling_from_scale(spec.model, scale=1.)
    c.check(np.all(agree(pos3, img3, "whole")), "helpers/whole", name)
    # the pixels lie on a regular grid of that step
    ys, xs = np.nonzero(img2.mask)
    c.check(len(np.unique(ys)) <= np.ceil(ref.shape[0] * scale) + 1 and
            len(np.unique(xs)) <= np.ceil(ref.shape[1] * scale) + 1,
            "helpers/grid", name)
    again = spec.model.appearance_models[0].mean()
    c.check(np.array_equal(again.pixels, kept.pixels) and
            np.array_equal(again.mask.mask, kept.mask.mask),
            "helpers/changed", name)
    c.note(name=name, step=step, scale=scale)
    if spec.n_scales == 1 and want.sum() > 60:
        test = spec.tests[0]
        s0 = zoo.start(rng, spec, test, .7)
        a = run(spec, fitter(spec, pos), test, s0, 3)
        b = run(spec, fitter(spec, step), test, s0, 3)
        identical(c, a, b, "helpers/fit", name)
        if k > 60:
            r = run(spec, fitter(spec, pos2), test, s0, 3)
            q = run(spec, fitter(spec, [img2.mask[ref.mask.mask]]), test, s0,
                    3)
            identical(c, r, q, "helpers/fit-scale", name)
        c.event("ready-made samplings fitted")
    c.seen("helpers", name, step, scale)


CASES = {"guise": (case_guise, 130, 1200), "blind": (case_blind, 260, 2400),
         "scales": (case_scales, 80, 800), "helpers": (case_helpers, 60, 600)}
REQUIRED = {"samplings compared": 300, "full samplings compared": 250,
            "blind fits": 150, "hidden pixels overwritten": 20000,
            "sampled pixels overwritten": 20000, "per-scale samplings": 100,
            "ready-made samplings": 150, "ready-made samplings fitted": 15}
