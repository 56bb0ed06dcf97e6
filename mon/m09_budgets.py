"""M09: iteration budgets are respected and convergence is honoured."""
import numpy as np

from . import gen, zoo
from .core import Skip
from .m06_multiscale import aps_graph

ID = "M09"
RULE = ("trained iterative fitters of every family run with integer and list "
        "budgets (zero included), tolerances from never to at once, and pairs "
        "of budgets of which one extends the other; cascades run with any "
        "budget; distinct when fitter, scales, budgets and tolerance differ")
ASSUMPTIONS = ["an integer budget that does not divide evenly is rounded per "
               "scale (halves either way)",
               "Lucas-Kanade aligners measure convergence by the norm of the "
               "parameter increment, the others by the movement of the shape "
               "at the scale being fitted",
               "fits whose linear system became singular decide nothing"]

ITER = [n for n in zoo.NAMES
        if n.split("/")[0] in ("AAM", "ATM", "LK", "CLM", "APS", "UNI")]
CASC = [n for n in zoo.NAMES if n.split("/")[0] in ("AAMSD", "SDM")]
RARE = [n for n in ITER if n.split("/")[0] in ("CLM", "APS", "UNI")]


def build(c, names):
    rng = c.rng
    names = names + 4 * RARE
    name = names[c.index % len(names)]
    n = zoo.some_points(rng)
    kw = aps_graph(n) if name.startswith("APS") else {}
    spec = zoo.diverged(zoo.build, rng, name, model_kw=kw, n_points=n)
    c.note(name=name, scales=spec.scales)
    return spec


def expected(budget, n):
    """The sets of budgets allowed at each scale."""
    if isinstance(budget, (list, tuple)):
        if len(budget) == n:
            return [{b} for b in budget]
        budget = budget[0]
    x = budget / float(n)
    lo, hi = int(np.floor(x)), int(np.ceil(x))
    if abs(x - lo - .5) < 1e-9:
        return [{lo, hi}] * n
    return [{lo if x - lo < .5 else hi}] * n


def draw_budget(rng, n):
    u = rng.rand()
    if u < .4:
        return int(rng.randint(0, 8 * n))
    if u < .5:
        return [int(rng.randint(0, 8 * n))]
    return [int(rng.randint(0, 7)) for _ in range(n)]


def same(a, b):
    return len(a) == len(b) and all(
        np.array_equal(x.points, y.points) for x, y in zip(a, b))


def spy(f):
    """Records, per scale, the result of the algorithm."""
    log = []
    for i, a in enumerate(f.algorithms):
        def run(image, initial_shape, _i=i, _run=a.run, **k):
            res = _run(image, initial_shape, **k)
            log.append((_i, int(k["max_iters"]), res))
            return res
        a.run = run
    return log


def case_budget(c):
    rng = c.rng
    spec = build(c, ITER)
    f, n = spec.fitter, spec.n_scales
    fam = spec.family
    log = spy(f)
    test = spec.tests[0]
    s0 = zoo.start(rng, spec, test)
    for rep in range(3):
        budget = draw_budget(rng, n)
        want = expected(budget, n)
        mode = ["never", "at-once", "tolerance"][rep]
        eps = {"never": 0., "at-once": 1e300,
               "tolerance": float(np.exp(rng.uniform(-7, 1)))}[mode]
        if mode == "tolerance":
            budget = [int(rng.randint(8, 25)) for _ in range(n)]
            want = [{b} for b in budget]
            if fam == "LK":
                eps = 10. ** rng.uniform(-6, -2)
        for a in f.algorithms:
            a.eps = eps
        del log[:]
        keep = list(budget) if isinstance(budget, list) else budget
        r = zoo.diverged(f.fit_from_shape, test, s0, max_iters=budget)
        c.check(budget == keep, "budget/list-changed")
        tag = "%s/%s" % (spec.name, mode)
        its = list(r.n_iters_per_scale)
        c.check(len(its) == n and sum(its) == r.n_iters, "budget/total",
                lambda: tag)
        c.check(len(r.shapes) == 1 + sum(its) + n, "budget/shapes",
                lambda: "%s %d shapes for %s" % (tag, len(r.shapes), its))
        for i in range(n):
            c.check(its[i] <= max(want[i]), "budget/exceeded/" + fam,
                    lambda: "%s: %d iterations of %s" % (tag, its[i], want[i]))
            if mode == "never":
                # nothing but an exact standstill may stop the fit
                s = log[i][2].shapes
                stuck = its[i] > 0 and np.array_equal(s[-1].points,
                                                      s[-2].points)
                if fam == "LK":
                    stuck = stuck or (its[i] > 0 and np.abs(
                        s[-1].points - s[-2].points).max() < 1e-9)
                c.check(its[i] in want[i] or stuck, "budget/cut-short/" + fam,
                        lambda: "%s: %d iterations of %s" % (
                            tag, its[i], want[i]))
            elif mode == "at-once":
                c.check(its[i] in {min(w, 1) for w in want[i]},
                        "budget/at-once/" + fam, lambda: "%s: %d" % (
                            tag, its[i]))
            elif fam != "LK":
                s = log[i][2].shapes[1:]     # the reconstruction onwards
                mv = [np.linalg.norm(a.points - b.points)
                      for a, b in zip(s, s[1:])]
                c.check(len(mv) == its[i], "budget/moves")
                for j, m in enumerate(mv[:-1]):
                    # (linear models measure the movement of every pixel of
                    # their dense shape, not just of the landmarks)
                    c.check(m > eps * (1 - 1e-9) or "/Linear" in spec.name,
                            "budget/late/" + fam,
                            lambda: "%s: moved %.3g <= %.3g, yet went on" % (
                                tag, m, eps))
                if its[i] < max(want[i]):
                    c.check(mv[-1] <= eps * (1 + 1e-9), "budget/early/" + fam,
                            lambda: "%s: moved %.3g > %.3g, yet stopped" % (
                                tag, mv[-1], eps))
                    c.event("converged")
            else:
                # bigger tolerances never take longer
                loose = its[i]
                s = log[i][2].shapes[1:]
                for p, q in list(zip(s, s[1:]))[:-1]:
                    # (parameters move the shape by much more than themselves)
                    mv = np.abs(p.points - q.points).max()
                    c.check(mv > eps * 1e-3, "budget/late/LK",
                            lambda: "%s: moved %.3g at %.3g, yet went on" % (
                                tag, mv, eps))
                if loose < max(want[i]):
                    mv = np.abs(s[-1].points - s[-2].points).max()
                    c.check(mv <= 300 * eps, "budget/early/LK",
                            lambda: "%s: moved %.3g at %.3g" % (tag, mv, eps))
                    c.event("converged")
            c.event("runs/" + fam)
    c.seen("budget", spec.name, spec.scales)


def case_extend(c):
    """The iterates of a longer run begin with those of the shorter one."""
    rng = c.rng
    spec = build(c, ITER)
    f, n = spec.fitter, spec.n_scales
    test = spec.tests[0]
    s0 = zoo.start(rng, spec, test)
    a = [int(rng.randint(0, 5)) for _ in range(n)]
    b = list(a)
    b[-1] += int(rng.randint(1, 6))
    order = [a, b] if rng.rand() < .5 else [b, a]
    res = {}
    for it in order:
        res[tuple(it)] = zoo.diverged(f.fit_from_shape, test, s0,
                                      max_iters=it, return_costs=False)
    ra, rb = res[tuple(a)], res[tuple(b)]
    c.note(short=a, long=b)
    c.check(len(rb.shapes) >= len(ra.shapes) and same(
        ra.shapes, rb.shapes[:len(ra.shapes)]), "extend/" + spec.family,
        lambda: "%s: iterates differ" % spec.name)
    if spec.family != "LK":
        pa, pb = ra.shape_parameters, rb.shape_parameters
    else:
        pa, pb = ra.homogeneous_parameters, rb.homogeneous_parameters
    c.check(all(np.array_equal(x, y) for x, y in zip(pa, pb)),
            "extend/parameters/" + spec.family)
    if rb.n_iters_per_scale[-1] > a[-1]:
        c.event("extended")
    # the default tolerance does not end fits that still move
    for i, k in enumerate(rb.n_iters_per_scale):
        c.check(k <= b[i], "extend/exceeded")
    c.seen("extend", spec.name, spec.scales, a, b)


def case_cascade(c):
    rng = c.rng
    name = CASC[(c.index + rng.randint(2) * 5) % len(CASC)]
    scales = zoo.draw_scales(rng)
    n = len(scales)
    u = rng.rand()
    if u < .4:
        n_it = int(rng.randint(1, 4))
    else:
        n_it = [int(rng.randint(1, 4)) for _ in range(n)]
    spec = zoo.diverged(zoo.build, rng, name, scales=scales,
                        fitter_kw={"n_iterations": n_it})
    f = spec.fitter
    c.note(name=name, scales=scales, n_iterations=n_it)
    want = expected(n_it, n)
    test = spec.tests[0]
    s0 = zoo.start(rng, spec, test)
    base = None
    for budget in (None, 0, 1, 50, [3] * n):
        kw = {} if budget is None else {"max_iters": budget}
        r = zoo.diverged(f.fit_from_shape, test, s0, **kw)
        its = list(r.n_iters_per_scale)
        for i in range(n):
            c.check(its[i] in want[i], "cascade/iterations/" + spec.family,
                    lambda: "%s: %s, not %s" % (name, its, n_it))
            c.check(its[i] == len(f.algorithms[i].regressors),
                    "cascade/regressors", lambda: "%s: %d regressors" % (
                        name, len(f.algorithms[i].regressors)))
        if base is not None:
            c.check(same(r.shapes, base.shapes), "cascade/budget-matters",
                    lambda: name)
        base = r
    c.event("cascades")
    c.seen("cascade", name, scales, n_it)


def case_check(c):
    from menpofit.checks import check_max_iters
    rng = c.rng
    n = rng.randint(1, 6)
    for b in ([int(rng.randint(0, 60))], int(rng.randint(0, 60)),
              [int(x) for x in rng.randint(0, 20, n)]):
        got = check_max_iters(b, n)
        want = expected(b, n)
        if isinstance(b, list) and len(b) == 1 and n == 1:
            want = [{b[0]}]
        c.check(len(got) == n and all(int(g) in w and g == int(g)
                                      for g, w in zip(got, want)),
                "check/budget", lambda: "%s over %d: %s" % (b, n, got))
        c.event("checked")
    m = n + 1 + rng.randint(3)
    c.raises(ValueError, lambda: check_max_iters([1] * m, n), "check/length")
    if n > 2:
        c.raises(ValueError, lambda: check_max_iters([1] * (n - 1), n),
                 "check/length")
    c.seen("check", n)


CASES = {"budget": (case_budget, 540, 2700), "extend": (case_extend, 540, 2700),
         "cascade": (case_cascade, 80, 600), "check": (case_check, 120, 500)}
REQUIRED = {"converged": 30, "extended": 60, "cascades": 10, "checked": 60,
            "runs/AAM": 60, "runs/ATM": 15, "runs/LK": 15, "runs/CLM": 20,
            "runs/APS": 20, "runs/UNI": 20}
