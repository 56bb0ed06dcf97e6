"""M21: error statistics and tables summarise the errors given."""
import copy

import numpy as np

from . import gen

ID = "M21"
RULE = ("statistics, tables, plots of error samples (ties, constant samples, "
        "values exactly on thresholds) in lists, arrays and tuples, for one or "
        "several methods, with random ranges and steps; distinct when sample, "
        "range, container and method count differ")
ASSUMPTIONS = ["the area under the curve is a quadrature on bins no further "
               "apart than the step: it may differ from the exact area by the "
               "step times the rise of the curve",
               "a step that does not divide the range is shortened"]

TYPES = ["mean", "std", "median", "mad", "max", "auc", "fr"]


def draw_errors(rng, lo, hi, step):
    n = int(rng.choice([1, 2, 3, 7, 20, 150]))
    k = rng.randint(5)
    if k == 0:
        e = rng.gamma(2., (lo + hi) / 6 + 1e-3, n)
    elif k == 1:
        e = rng.uniform(lo - (hi - lo) * .2, hi + (hi - lo) * .5, n)
    elif k == 2:      # exactly on bins
        e = lo + step * rng.randint(0, int((hi - lo) / step) + 3, n)
    elif k == 3:
        e = np.full(n, rng.uniform(lo, hi * 1.5))
    else:
        e = np.r_[rng.uniform(lo, hi, max(1, n // 2)),
                  rng.uniform(hi, 3 * hi, n - max(1, n // 2))]
    return np.abs(e)[rng.permutation(len(e))]


def draw_range(rng):
    hi = float(rng.choice([.05, .07, .08, .1, .15, .3, 1., 5.]))
    n = int(rng.choice([1, 2, 5, 10, 17, 50, 100]))
    step = hi / n
    lo = 0.
    if rng.rand() < .4:
        lo = float(step * rng.randint(0, n))
    if rng.rand() < .25:     # does not divide the range
        step = float(step * rng.uniform(.6, .99))
    return lo, hi, step


def container(rng, e):
    k = rng.randint(3)
    return (list(map(float, e)), np.array(e), tuple(map(float, e)))[k]


def ced(e, x):
    return sum(1 for v in e if v <= x) / float(len(e))


def exact_area(e, lo, hi):
    """Exact normalised area of the step curve on [lo, hi]."""
    return float(np.mean([np.clip(hi - max(v, lo), 0, hi - lo)
                          for v in e])) / (hi - lo)


def expected(e, lo, hi, step):
    e = np.asarray(e, dtype=float)
    med = np.median(e)
    return {"mean": e.sum() / len(e), "std": np.sqrt(np.mean((e - e.mean()) ** 2)),
            "median": med, "mad": np.median(np.abs(e - med)), "max": e.max(),
            "auc": exact_area(e, lo, hi), "fr": np.mean(e > hi)}


def close_stats(c, got, e, lo, hi, step, mech):
    want = expected(e, lo, hi, step)
    for t, g in zip(TYPES, got):
        if t == "auc":
            rise = ced(e, hi) - np.mean(np.asarray(e) < lo)
            tol = 1.4 * min(step, hi - lo) / (hi - lo) * max(
                rise, 0) + 1e-9
            c.check(abs(g - want[t]) <= tol, mech + "/auc",
                    "%g instead of %g +- %g" % (g, want[t], tol))
            c.check(-1e-12 <= g <= 1 + 1e-9, mech + "/auc-range", str(g))
        elif t == "fr":
            # an error within rounding of the last bin may fall on either side
            near = np.mean(np.abs(np.asarray(e) - hi) < 1e-9 * hi)
            c.check(abs(g - want[t]) <= near + 1e-12, mech + "/fr",
                    "%g instead of %g" % (g, want[t]))
        else:
            c.close(g, want[t], mech + "/" + t, rtol=1e-9, atol=1e-13)
    c.event("statistics compared", len(TYPES))


def case_stats(c):
    import menpofit.error as E
    rng = c.rng
    lo, hi, step = draw_range(rng)
    e = draw_errors(rng, lo, hi, step)
    o = container(rng, e)
    c.note(n=len(e), lo=lo, hi=hi, step=step, container=type(o).__name__)
    c.seen(type(o).__name__, lo, hi, step, *e[:4])
    before = copy.deepcopy(o)
    # the distribution itself
    bins = np.sort(np.r_[rng.uniform(-.1 * hi, 2 * hi, rng.randint(1, 12)),
                         e[rng.randint(0, len(e), 2)]])
    b = container(rng, bins)
    got = E.compute_cumulative_error(o, b)
    c.check(len(got) == len(bins), "ced/length")
    c.close(got, [ced(e, x) for x in bins], "ced/values", atol=1e-12)
    c.check(np.all(np.diff(got) >= 0) and min(got) >= 0 and max(got) <= 1,
            "ced/monotone")
    c.event("ced")
    # unordered bins are evaluated where they are
    p = rng.permutation(len(bins))
    c.close(E.compute_cumulative_error(o, list(bins[p])), np.array(got)[p],
            "ced/order", atol=0)
    c.close(E.mad(o), expected(e, lo, hi, step)["mad"], "mad", atol=1e-13)
    auc, fr = E.area_under_curve_and_failure_rate(o, step, hi, min_error=lo)
    one = E.compute_statistical_measures(o, step, hi, min_error=lo)
    close_stats(c, one, e, lo, hi, step, "single")
    c.check(one[5] == auc and one[6] == fr, "single/consistent")
    # finer bins approach the exact area
    fine, _ = E.area_under_curve_and_failure_rate(o, step / 50., hi,
                                                  min_error=lo)
    c.check(abs(fine - exact_area(e, lo, hi)) <= 1.4 * step / 50. / (hi - lo) +
            1e-9, "auc/converges", "%g %g" % (fine, exact_area(e, lo, hi)))
    # the extremes
    c.close(E.area_under_curve_and_failure_rate([hi * 2.] * 3, step, hi, lo),
            (0., 1.), "auc/all-fail", atol=1e-12)
    c.close(E.area_under_curve_and_failure_rate([lo / 2.] * 3, step, hi, lo),
            (1., 0.), "auc/none-fail", atol=1e-9)
    c.check(np.array_equal(o, before) and type(o) is type(before),
            "arguments-changed")


def draw_methods(rng, lo, hi, step):
    k = int(rng.randint(1, 6))
    es = [draw_errors(rng, lo, hi, step) for _ in range(k)]
    if rng.rand() < .3:
        n = min(len(e) for e in es)
        es = [e[:n] for e in es]
    outer = [container(rng, e) for e in es]
    if rng.rand() < .2:
        outer = tuple(outer)
    elif rng.rand() < .2 and len({len(e) for e in es}) == 1:
        outer = np.array(es)
    return es, outer


def unchanged(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    return a == b


def case_table(c):
    import menpofit.error as E
    from menpofit.visualize import statistics_table
    rng = c.rng
    lo, hi, step = draw_range(rng)
    es, outer = draw_methods(rng, lo, hi, step)
    before = copy.deepcopy(outer)
    k = len(es)
    c.note(methods=k, container=type(outer).__name__)
    c.seen(k, type(outer).__name__, lo, hi, step, float(es[0][0]))
    many = E.compute_statistical_measures(outer, step, hi, min_error=lo)
    c.check(all(len(m) == k for m in many), "many/length")
    for i, e in enumerate(es):
        close_stats(c, [m[i] for m in many], e, lo, hi, step, "many")
    names = ["method %d" % i for i in rng.permutation(k)]
    kw = {}
    types = list(TYPES)
    if rng.rand() < .6:
        types = [TYPES[i] for i in rng.permutation(7)[:rng.randint(1, 8)]]
        kw["stats_types"] = types
    cols = types
    if rng.rand() < .4:
        cols = ["col %s" % t for t in types]
        kw["stats_names"] = cols
    sort = None
    if rng.rand() < .5:
        sort = types[rng.randint(len(types))]
        kw["sort_by"] = sort
    if rng.rand() < .5:
        kw["precision"] = int(rng.randint(1, 8))
    if lo or rng.rand() < .5:
        kw["auc_min_error"] = lo
    kw_before = copy.deepcopy(kw)
    names_before = list(names)
    tab = statistics_table(outer, names, hi, step, **kw)
    c.event("table")
    c.check(list(tab.columns) == list(cols), "table/columns",
            "%s %s" % (list(tab.columns), cols))
    c.check(sorted(tab.index) == sorted(names), "table/methods")
    if sort is None:
        c.check(list(tab.index) == names, "table/order")
    else:
        v = tab[cols[types.index(sort)]].values
        d = np.diff(v)
        c.check(np.all(d <= 1e-12 if sort == "auc" else d >= -1e-12),
                "table/sorted-by-" + sort, str(v))
    for i, name in enumerate(names):
        for t, col in zip(types, cols):
            c.close(tab.loc[name, col], many[TYPES.index(t)][i],
                    "table/" + t, atol=1e-13)
    c.check(unchanged(outer, before) and kw == kw_before and
            names == names_before, "table/arguments-changed")
    # one method given flat
    flat = container(rng, es[0])
    tab = statistics_table(flat, ["a"], hi, step, auc_min_error=lo)
    for t in TYPES:
        c.close(tab.loc["a", t], many[TYPES.index(t)][0], "table/flat/" + t,
                atol=1e-13)
    c.raises(ValueError, lambda: statistics_table(
        outer, names, hi, step, stats_types=["mean", "mode"]),
        "table/unknown-type")
    c.raises(ValueError, lambda: statistics_table(
        outer, names, hi, step, stats_types=["mean"], sort_by="std"),
        "table/unknown-sort")
    c.raises(ValueError, lambda: statistics_table(
        outer, names, hi, step, stats_types=["mean"], stats_names=["a", "b"]),
        "table/names-mismatch")


def case_plot(c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from menpofit.visualize import plot_cumulative_error_distribution
    rng = c.rng
    lo, hi, step = draw_range(rng)
    step = max(step, (hi - lo) / 60.)
    if (hi - lo) / step < 1.5:
        step = (hi - lo) / 4.
    es, outer = draw_methods(rng, lo, hi, step)
    before = copy.deepcopy(outer)
    k = len(es)
    kw = {}
    if rng.rand() < .7:
        kw["error_range"] = [lo, hi, step]
        x = np.arange(lo, hi, step)
    else:
        x = np.arange(0, .101, .005)
    legend = ["curve %d" % i for i in rng.permutation(k)]
    if rng.rand() < .7:
        kw["legend_entries"] = legend
    else:
        legend = ["Curve %d" % i for i in range(k)]
    c.note(methods=k, **{a: str(b) for a, b in kw.items()})
    c.seen(k, lo, hi, step, "error_range" in kw, float(es[0][0]))
    kw_before = copy.deepcopy(kw)
    flat = k == 1 and rng.rand() < .5
    plt.close("all")
    plot_cumulative_error_distribution(outer[0] if flat else outer, **kw)
    ax = plt.gca()
    lines = [l for l in ax.get_lines() if len(l.get_xdata()) == len(x)]
    if c.check(len(lines) == k, "plot/curves", "%d lines for %d methods" %
               (len(lines), k)):
        for i, l in enumerate(lines):
            c.close(l.get_xdata(), x, "plot/x", atol=1e-12)
            c.close(l.get_ydata(), [ced(es[i], v) for v in x], "plot/y",
                    atol=1e-12)
            c.event("curve")
    leg = ax.get_legend()
    c.check(leg is not None and [t.get_text() for t in leg.get_texts()] ==
            legend, "plot/legend")
    lim = ax.get_ylim()
    c.check(lim[0] <= 0 and lim[1] >= 1, "plot/limits", str(lim))
    c.check(ax.get_xlim()[1] >= x[-1] - 1e-9, "plot/limits", str(ax.get_xlim()))
    c.check(unchanged(outer, before) and kw == kw_before,
            "plot/arguments-changed")
    c.raises(ValueError, lambda: plot_cumulative_error_distribution(
        outer, legend_entries=["x"] * (k + 1)), "plot/legend-length")
    plt.close("all")


def case_view(c):
    """Options of the landmark viewer: expanded per group, never changed."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from menpo.shape import PointCloud
    from menpo.image import MaskedImage
    from menpofit.visualize import view_image_multiple_landmarks
    rng = c.rng
    px = gen.smooth_image(rng, (40, 30))
    from menpo.image import Image
    im = Image(px) if rng.rand() < .7 else MaskedImage(px)
    k = int(rng.randint(1, 4))
    groups = ["g%d" % i for i in rng.permutation(k)]
    for g in groups:
        im.landmarks[g] = PointCloud(rng.uniform(3, 27, (rng.randint(2, 6), 2)))
    snap = gen.snapshot_image(im)
    opts, want = {}, {}

    def draw(name, pool):
        u = rng.rand()
        if u < .3:
            v = pool[rng.randint(len(pool))]
            opts[name], want[name] = v, [v] * k
        elif u < .6:
            v = pool[rng.randint(len(pool))]
            opts[name], want[name] = [v], [v] * k
        elif u < .8:
            v = [pool[rng.randint(len(pool))] for _ in range(k)]
            opts[name], want[name] = v, list(v)
        else:
            want[name] = None
    draw("marker_size", [3, 5, 9])
    draw("marker_style", ["o", "s", "^"])
    draw("render_markers", [True, True])
    draw("marker_edge_width", [1, 2])
    draw("line_width", [1, 2, 3])
    draw("line_style", ["-", "--"])
    draw("render_lines", [True, False])
    sub = bool(rng.rand() < .6)
    img = bool(rng.rand() < .7)
    c.note(groups=k, **{a: str(b) for a, b in opts.items()})
    c.seen(k, sub, img, *sorted("%s%s" % i for i in opts.items()))
    before = copy.deepcopy(opts)
    gb = list(groups)
    plt.close("all")
    view_image_multiple_landmarks(im, groups, subplots_enabled=sub,
                                  render_image=img, render_legend=False, **opts)
    c.check(opts == before and groups == gb, "view/arguments-changed",
            "%s -> %s" % (before, opts))
    d = gen.diff_image(snap, gen.snapshot_image(im))
    c.check(d is None, "view/image-changed", d)
    axes = plt.gcf().get_axes()
    if sub:
        c.check(len(axes) == k, "view/subplots", "%d for %d groups" %
                (len(axes), k))
    # the markers of each group: where its landmarks are, as big as asked
    found = []
    for ax in axes:
        for l in ax.get_lines():
            if l.get_marker() not in ("None", None, "", " "):
                found.append(l)
    for i, g in enumerate(groups):
        p = im.landmarks[g].points
        hit = [l for l in found if len(l.get_xdata()) == len(p) and
               np.allclose(sorted(np.asarray(l.get_xdata(), float)),
                           sorted(p[:, 1]))]
        if not hit:
            scat = [s for ax in axes for s in ax.collections
                    if len(s.get_offsets()) == len(p) and
                    np.allclose(np.sort(np.asarray(s.get_offsets())[:, 0]),
                                np.sort(p[:, 1]))]
            if c.check(bool(scat), "view/group-missing", g):
                if want["marker_size"]:
                    c.close(scat[0].get_sizes()[0],
                            want["marker_size"][i] ** 2, "view/marker-size")
        else:
            if want["marker_size"]:
                c.close(hit[0].get_markersize(), want["marker_size"][i],
                        "view/marker-size")
        c.event("group viewed")
    if k > 1:
        c.raises(ValueError, lambda: view_image_multiple_landmarks(
            im, groups, marker_size=[3] * (k + 1)), "view/length")
    plt.close("all")


def case_progress(c):
    """Iterating with progress yields exactly the items, in order."""
    from menpofit.visualize import print_progress
    import contextlib
    import io
    rng = c.rng
    items = [object() for _ in range(rng.randint(0, 9))]
    for verbose in (False, True):
        c.seen(len(items), verbose)
        with contextlib.redirect_stdout(io.StringIO()) as out:
            got = list(print_progress(items, prefix="x", verbose=verbose))
        c.check(len(got) == len(items) and
                all(a is b for a, b in zip(got, items)), "progress/items")
        c.check(verbose or out.getvalue() == "", "progress/quiet")
        c.event("progress")


CASES = {"stats": (case_stats, 1500, 6000), "table": (case_table, 720, 2500),
         "plot": (case_plot, 240, 600), "view": (case_view, 240, 600),
         "progress": (case_progress, 60, 60)}
REQUIRED = {"statistics compared": 1500, "table": 60, "curve": 40,
            "group viewed": 40, "ced": 200}
