"""M30: figures and descriptions show what was computed.

The figures are drawn by matplotlib without a display; the monitor reads the
artists which ended up on the axes back and compares them with the values and
shapes the objects report.
"""
import copy
import re

import numpy as np

from menpo.feature import ndfeature
from menpo.image import Image, MaskedImage
from menpo.shape import (LabelledPointUndirectedGraph, PointCloud,
                         PointDirectedGraph, PointUndirectedGraph)
from menpo.transform import Affine, Scale

from . import gen, zoo
from .core import Skip
from .m06_multiscale import aps_graph

ID = "M30"
RULE = ("results of every class with random trajectories, costs, ground truth "
        "and image plotted and viewed with random options; landmark groups of "
        "every connectivity viewed; every trainable fitter described; "
        "distinct when class, lengths, options or configuration differ")
ASSUMPTIONS = ["the artists of matplotlib's axes are what the user sees"]


def pyplot():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    return plt


def err(a, b):
    return float(np.sqrt(((a.points - b.points) ** 2).sum(1)).max())


def shape(rng, n, kind):
    p = rng.uniform(3, 37, (n, 2))
    if kind == "points":
        return PointCloud(p)
    edges = np.array([[i, i + 1] for i in range(n - 1)])
    if kind == "undirected":
        return PointUndirectedGraph.init_from_edges(p, edges)
    if kind == "directed":
        return PointDirectedGraph.init_from_edges(p, edges)
    from collections import OrderedDict
    m = n // 2
    a, b = np.arange(n) < m, np.arange(n) >= m
    return LabelledPointUndirectedGraph.init_from_edges(
        p, edges, OrderedDict([("low", a), ("high", b)]))


def result(rng):
    """A result of a random class, with what it holds."""
    from menpofit import result as R
    from menpofit.aam.result import AAMAlgorithmResult, AAMResult
    from menpofit.aps.result import APSAlgorithmResult, APSResult
    from menpofit.lk.result import (LucasKanadeAlgorithmResult,
                                    LucasKanadeResult)
    n = rng.randint(4, 8)
    conn = ["points", "undirected", "directed"][rng.randint(3)]
    S = rng.randint(1, 4)
    has_init, has_gt = rng.rand() < .7, rng.rand() < .8
    image = Image(gen.smooth_image(rng, (40, 40), channels=int(
        rng.choice([1, 3])))) if rng.rand() < .6 else None
    gt = shape(rng, n, conn) if has_gt else None
    has_costs = rng.rand() < .7
    kind = rng.randint(5)
    parts, want, costs, recon, its = [], [], [], [], 0
    scales = list(rng.uniform(.4, 1, S))
    one = rng.rand() < .3        # the outcome of a single scale
    if one:
        S, scales = 1, [1.]
    aff = [Affine(np.eye(3)) for _ in range(S)]
    sca = [Scale(1. / s, 2) for s in scales]
    for i in range(S):
        k = rng.randint(1 if kind else 1, 5)
        shp = [shape(rng, n, conn) for _ in range(k)]
        ini = shape(rng, n, conn) if has_init else None
        cs = [float(x) for x in rng.rand(k) * 9] if has_costs else None
        down = [Scale(scales[i], 2).apply(s) for s in shp]
        kw = dict(initial_shape=None if ini is None else
                  Scale(scales[i], 2).apply(ini), costs=cs)
        if one:
            kw.update(image=image, gt_shape=gt)
        p = [rng.rand(3) for _ in range(k)]
        if i == 0 and has_init:
            want.append(ini)
        if kind:
            recon.append(len(want))
        want += shp
        costs += cs or []
        its += k - (kind > 0)
        if kind == 0:
            parts.append(R.NonParametricIterativeResult(down, **kw))
        elif kind == 1:
            parts.append(R.ParametricIterativeResult(down, p, **kw))
        elif kind == 2:
            parts.append(AAMAlgorithmResult(down, p, list(p), **kw))
        elif kind == 3:
            parts.append(APSAlgorithmResult(down, p, **kw))
        else:
            parts.append(LucasKanadeAlgorithmResult(down, p, **kw))
    cls = [R.MultiScaleNonParametricIterativeResult,
           R.MultiScaleParametricIterativeResult, AAMResult, APSResult,
           LucasKanadeResult][kind]
    if one:
        r, cls = parts[0], type(parts[0])
    else:
        r = cls(results=parts, scales=scales, affine_transforms=aff,
                scale_transforms=sca, image=image, gt_shape=gt)
    return dict(r=r, shapes=want, costs=costs if has_costs else None,
                gt=gt, image=image, init=want[0] if has_init else None,
                recon=recon, its=its, conn=conn, cls=cls.__name__)


def case_curves(c):
    """Errors, displacements and costs per iteration, as drawn."""
    rng = c.rng
    plt = pyplot()
    w = result(rng)
    r = w["r"]
    tag = "curves/"
    colour = str(rng.choice(list("rgbk")))
    opts = dict(line_colour=colour, line_width=int(rng.randint(1, 5)),
                line_style=str(rng.choice(["-", "--"])),
                marker_size=int(rng.randint(3, 9)),
                render_grid=bool(rng.rand() < .5))
    c.note(cls=w["cls"], n=len(w["shapes"]), **opts)

    def drawn(fn, values, what, label):
        plt.close("all")
        fn(**opts)
        ax = plt.gca()
        lines = [l for l in ax.get_lines() if len(l.get_xdata())]
        if not c.check(len(lines) == 1, tag + what + "/lines",
                       lambda: "%d lines" % len(lines)):
            return
        l = lines[0]
        c.close(np.asarray(l.get_xdata(), float), np.arange(len(values)),
                tag + what + "/x")
        c.close(np.asarray(l.get_ydata(), float), values, tag + what + "/y")
        c.check(l.get_color() == colour and l.get_linestyle() ==
                opts["line_style"] and l.get_linewidth() ==
                opts["line_width"] and l.get_markersize() ==
                opts["marker_size"], tag + what + "/style")
        c.check(ax.get_xlabel() == "Iteration" and label.lower() in
                ax.get_ylabel().lower(), tag + what + "/labels",
                lambda: "%s, %s" % (ax.get_xlabel(), ax.get_ylabel()))
        c.check(ax.get_legend() is None, tag + what + "/legend")
        c.event("curves")
    shapes = w["shapes"]
    if w["gt"] is not None:
        from menpofit.error import euclidean_bb_normalised_error as e0
        drawn(r.plot_errors, [e0(s, w["gt"]) for s in shapes], "errors",
              "error")
        drawn(lambda **k: r.plot_errors(compute_error=err, **k),
              [err(s, w["gt"]) for s in shapes], "errors-custom", "error")
    else:
        c.raises(ValueError, r.plot_errors, tag + "errors/no-gt")
    d = [np.sqrt(((a.points - b.points) ** 2).sum(1))
         for a, b in zip(shapes, shapes[1:])]
    if d:
        for kind, fn, name in (("mean", np.mean, "mean"),
                               ("median", np.median, "median"),
                               ("max", np.max, "max"),
                               ("min", np.min, "min")):
            drawn(lambda **k: r.plot_displacements(stat_type=kind, **k),
                  [fn(x) for x in d], "displacements-" + kind, name)
        drawn(r.plot_displacements, [np.mean(x) for x in d],
              "displacements-default", "mean")
    c.raises(ValueError, lambda: r.plot_displacements(stat_type="mode"),
             tag + "displacements/kind")
    if w["costs"] is not None:
        drawn(r.plot_costs, w["costs"], "costs", "cost")
    else:
        c.raises(ValueError, r.plot_costs, tag + "costs/none")
    c.check(all(np.allclose(a.points, b.points) for a, b in
                zip(r.shapes, shapes)) and r.costs == w["costs"],
            tag + "changed")
    c.seen(w["cls"], len(shapes), w["gt"] is None, w["costs"] is None,
           *sorted(map(str, opts.items())))
    plt.close("all")


def artists(ax, points):
    """The marker and line artists which lie on the points."""
    marks, lines = [], []
    p = np.asarray(points)[:, ::-1]
    for l in ax.get_lines():
        x = np.stack([np.asarray(l.get_xdata(), float),
                      np.asarray(l.get_ydata(), float)], 1)
        if l.get_marker() not in ("None", None, "", " ") and len(x) and \
                all(np.abs(p - q).sum(1).min() < 1e-6 for q in x):
            marks.append((l, x))
    for col in ax.collections:
        if hasattr(col, "get_segments"):
            s = [np.asarray(q, float) for q in col.get_segments()]
            if s and all(np.abs(p - v).sum(1).min() < 1e-6
                         for q in s for v in q):
                lines.append((col, s))
    return marks, lines


def colour_of(v):
    from matplotlib.colors import to_rgba
    return to_rgba(v)


def check_group(c, ax, s, want, tag):
    """One group: every point marked, every edge drawn, in its own style."""
    marks, lines = artists(ax, s.points)
    p = s.points[:, ::-1]
    if want["render_markers"]:
        pts = np.concatenate([x for _, x in marks]) if marks else \
            np.zeros((0, 2))
        c.check(len(pts) >= len(p) and all(
            np.abs(pts - q).sum(1).min() < 1e-6 for q in p), tag + "/points",
            lambda: "%d points marked of %d" % (len(pts), len(p)))
        for m, _ in marks:
            c.check(want["marker_face_colour"] is None or
                    colour_of(m.get_markerfacecolor()) ==
                    colour_of(want["marker_face_colour"]),
                    tag + "/marker-colour")
            c.check(m.get_marker() == want["marker_style"] and
                    m.get_markersize() == want["marker_size"],
                    tag + "/marker-style", lambda: "%s %s" % (
                        m.get_marker(), m.get_markersize()))
    else:
        c.check(not marks, tag + "/markers-drawn")
    edges = np.asarray(getattr(s, "edges", np.zeros((0, 2), int)))
    if isinstance(s, LabelledPointUndirectedGraph):
        # each label draws its own points; edges between labels are dropped
        m = [s._labels_to_masks[l] for l in s.labels]
        edges = np.array([e for e in edges if any(
            q[e[0]] and q[e[1]] for q in m)])
    if want["render_lines"] and len(edges):
        segs = [q for _, ss in lines for q in ss]
        got = set()
        for q in segs:
            i = int(np.abs(p - q[0]).sum(1).argmin())
            j = int(np.abs(p - q[-1]).sum(1).argmin())
            got.add((min(i, j), max(i, j)))
        c.check(got == set((min(i, j), max(i, j)) for i, j in
                           edges.tolist()), tag + "/edges",
                lambda: "%s drawn, edges %s" % (sorted(got), edges.tolist()))
        for l, _ in lines:
            c.check(want["line_colour"] is None or np.allclose(
                l.get_color()[0] if np.ndim(l.get_color()) > 1
                else colour_of(l.get_color()),
                colour_of(want["line_colour"])), tag + "/line-colour")
            c.check(np.allclose(l.get_linewidth(), want["line_width"]),
                    tag + "/line-width")
    elif not want["render_lines"]:
        c.check(not lines, tag + "/lines-drawn")
    return marks, lines


def visible_numbers(ax):
    return [(t.get_text(), tuple(np.round(t.xy, 6))) for t in ax.texts
            if hasattr(t, "xy")]


def check_legend(c, ax, names, groups, drawn, tag):
    """Each entry stands beside the look of the group that it names."""
    leg = ax.get_legend()
    if not c.check(leg is not None, tag + "/no-legend"):
        return
    texts = [t.get_text() for t in leg.get_texts()]
    if not c.check(texts == names, tag + "/legend-names",
                   lambda: "%s, not %s" % (texts, names)):
        return
    from matplotlib.lines import Line2D
    rows = []

    def walk(box):
        """The drawn samples of the entries, in order."""
        from matplotlib.offsetbox import DrawingArea
        for ch in box.get_children():
            if isinstance(ch, DrawingArea):
                rows.append([a for a in ch.get_children()])
            elif hasattr(ch, "get_children"):
                walk(ch)
    walk(leg._legend_handle_box)
    rows = [x for x in rows if x is not None]
    if len(rows) != len(names):
        c.check(False, tag + "/legend-rows", "%d rows" % len(rows))
        return
    for (marks, lines), row, g in zip(drawn, rows, groups):
        want = set()
        for m, _ in marks:
            want.add(colour_of(m.get_markerfacecolor()))
        for l, _ in lines:
            want |= set(tuple(np.round(q, 6)) for q in np.atleast_2d(
                l.get_color()))
        want = set(tuple(np.round(q, 6)) for q in want)
        got = set()
        for a in row:
            if isinstance(a, Line2D):
                if a.get_marker() not in ("None", None, "", " "):
                    got.add(tuple(np.round(colour_of(
                        a.get_markerfacecolor()), 6)))
                elif a.get_linestyle() not in ("None", "", " "):
                    got.add(tuple(np.round(colour_of(a.get_color()), 6)))
            elif hasattr(a, "get_color"):
                for q in np.atleast_2d(a.get_color()):
                    got.add(tuple(np.round(q, 6)))
        c.check(got <= want if want else not got, tag + "/legend-look",
                lambda: "%s is shown as %s, drawn as %s" % (g, got, want))
        c.check(bool(got) or not want, tag + "/legend-empty", lambda: str(g))
    c.event("legends")


DISTINCT = ["r", "g", "b", "c", "m", "y", "k"]


def case_groups(c):
    """Landmark groups of every kind of connectivity."""
    from menpofit.visualize import view_image_multiple_landmarks
    rng = c.rng
    plt = pyplot()
    k = int(rng.randint(1, 5))
    conn = [["points", "undirected", "directed", "labelled"][rng.randint(4)]
            for _ in range(k)]
    px = gen.smooth_image(rng, (40, 40), channels=int(rng.choice([1, 3])))
    im = Image(px) if rng.rand() < .7 else MaskedImage(px)
    names = ["g%d" % i for i in rng.permutation(k)]
    for g, kind in zip(names, conn):
        im.landmarks[g] = shape(rng, rng.randint(4, 8), kind)
    im.landmarks["not drawn"] = shape(rng, 5, "points")
    cols = [DISTINCT[i] for i in rng.permutation(len(DISTINCT))[:k]]
    per = dict(
        render_lines=[bool(rng.rand() < .7) for _ in range(k)],
        render_markers=[bool(rng.rand() < .8) for _ in range(k)],
        line_colour=list(cols), marker_face_colour=list(cols),
        marker_style=[str(rng.choice(["o", "s", "^"])) for _ in range(k)],
        marker_size=[int(rng.randint(2, 9)) for _ in range(k)],
        line_width=[int(rng.randint(1, 5)) for _ in range(k)])
    if rng.rand() < .3:
        # one value for all
        for q in ("render_lines", "render_markers", "marker_style",
                  "marker_size", "line_width"):
            per[q] = [per[q][0]] * k
        opts = {q: (v if q.endswith("colour") else v[0])
                for q, v in per.items()}
    else:
        opts = {q: list(v) for q, v in per.items()}
    sub, img = bool(rng.rand() < .5), bool(rng.rand() < .6)
    legend, numbers = bool(rng.rand() < .7), bool(rng.rand() < .4)
    titles = {g: "title %s" % g for g in names} if rng.rand() < .5 else None
    lt = "the title" if rng.rand() < .5 else ""
    c.note(conn=conn, sub=sub, image=img, legend=legend, numbers=numbers,
           **opts)
    c.seen(*conn, sub, img, legend, numbers, titles is None,
           *map(str, opts.values()))
    before = copy.deepcopy((opts, names, titles))
    snap = gen.snapshot_image(im)
    view_image_multiple_landmarks(
        im, names, subplots_enabled=sub, render_image=img,
        subplots_titles=titles, render_legend=legend,
        render_numbering=numbers, legend_title=lt, **opts)
    c.check((opts, names, titles) == before, "groups/arguments")
    d = gen.diff_image(snap, gen.snapshot_image(im))
    c.check(d is None, "groups/image-changed", d)
    axes = plt.gcf().get_axes()
    if not c.check(len(axes) == (k if sub else 1), "groups/axes",
                   "%d axes" % len(axes)):
        return
    drawn = []
    for i, g in enumerate(names):
        ax = axes[i if sub else 0]
        s = im.landmarks[g]
        want = {q: v[i] for q, v in per.items()}
        drawn.append(check_group(c, ax, s, want, "groups"))
        if sub and legend:
            c.check(ax.get_title() == (g if titles is None else titles[g]),
                    "groups/subplot-title", lambda: ax.get_title())
        got = [t for t in visible_numbers(ax)]
        mine = [t for t in got if np.abs(
            s.points[:, ::-1] - np.array(t[1])).sum(1).min() < 1e-5]
        n = s.n_points if numbers else 0
        c.check(len(mine) == n and (not numbers or all(
            any(np.allclose(t[1], q[::-1], atol=1e-5) for t in mine)
            for q in s.points)), "groups/numbers",
            lambda: "%d numbers for %d points" % (len(mine), n))
        if numbers and conn[i] != "labelled":
            c.check(sorted(int(t[0]) for t in mine) == list(range(n)) and
                    all(np.allclose(s.points[int(t[0])][::-1], t[1],
                                    atol=1e-5) for t in mine),
                    "groups/numbers-order")
        # nothing of the other groups on this subplot
        if sub:
            for h in names + ["not drawn"]:
                if h != g:
                    m, l = artists(ax, im.landmarks[h].points)
                    c.check(not m and not l, "groups/foreign",
                            lambda: "%s beside %s" % (h, g))
        if img:
            ims = ax.get_images()
            if c.check(len(ims) >= 1, "groups/no-image"):
                a = np.ma.filled(np.ma.asarray(ims[0].get_array(), float), 0)
                c.check(a.shape[:2] == im.shape, "groups/image-shape")
                c.close(a if a.ndim == 2 else np.moveaxis(a[..., :3], 2, 0),
                        px[0] if a.ndim == 2 else px, "groups/image-pixels",
                        atol=.6 if a.max() > 2 else 1e-6)
        else:
            c.check(not ax.get_images(), "groups/image-drawn")
        c.event("groups")
    m, l = artists(axes[0], im.landmarks["not drawn"].points)
    c.check(not m and not l, "groups/other-group")
    if not sub:
        if legend:
            check_legend(c, axes[0], [g if titles is None else titles[g]
                                      for g in names], names, drawn, "groups")
            c.check(axes[0].get_legend().get_title().get_text() == lt,
                    "groups/legend-title")
        else:
            c.check(axes[0].get_legend() is None or
                    "labelled" in conn, "groups/legend-drawn")
    plt.close("all")


def case_parts(c):
    """Some labels, some channels, no landmarks."""
    from menpofit.visualize import view_image_multiple_landmarks
    rng = c.rng
    plt = pyplot()
    k = int(rng.randint(1, 4))
    px = gen.smooth_image(rng, (40, 40), channels=3)
    im = Image(px) if rng.rand() < .7 else MaskedImage(px)
    names = ["g%d" % i for i in rng.permutation(k)]
    for g in names:
        im.landmarks[g] = shape(rng, rng.randint(4, 8), "labelled")
    cols = [DISTINCT[i] for i in rng.permutation(len(DISTINCT))[:k]]
    pick = [["low"], ["high"], ["low", "high"]]
    labels = [pick[rng.randint(3)] for _ in range(k)]
    if rng.rand() < .4:
        labels = [labels[0]] * k
        given = list(labels[0])
    else:
        given = [list(x) for x in labels]
    sub, img = bool(rng.rand() < .5), bool(rng.rand() < .7)
    channel = [None, 0, 1, 2, [1, 2], [2, 0]][rng.randint(6)]
    show = bool(rng.rand() < .8)
    c.note(labels=given, sub=sub, image=img, channel=channel, show=show)
    c.seen(str(given), sub, img, str(channel), show, k)
    snap = gen.snapshot_image(im)
    view_image_multiple_landmarks(
        im, names, with_labels=copy.deepcopy(given), subplots_enabled=sub,
        render_image=img, render_landmarks=show, channels=copy.copy(channel),
        line_colour=list(cols), marker_face_colour=list(cols))
    d = gen.diff_image(snap, gen.snapshot_image(im))
    c.check(d is None, "parts/image-changed", d)
    axes = plt.gcf().get_axes()
    if show:
        if not c.check(len(axes) == (k if sub else 1), "parts/axes",
                       "%d axes" % len(axes)):
            return
        for i, g in enumerate(names):
            ax = axes[i if sub else 0]
            s = im.landmarks[g]
            on = np.zeros(s.n_points, dtype=bool)
            for lab in labels[i]:
                on |= s._labels_to_masks[lab]
            marks, lines = artists(ax, s.points)
            got = np.concatenate([x for _, x in marks]) if marks else \
                np.zeros((0, 2))
            there = np.array([len(got) and np.abs(got - q).sum(1).min() < 1e-6
                              for q in s.points[:, ::-1]], dtype=bool)
            c.check(np.array_equal(there, on), "parts/labels",
                    lambda: "%s of %s drawn for %s" % (
                        there.astype(int), g, labels[i]))
            for m, _ in marks:
                c.check(colour_of(m.get_markerfacecolor()) ==
                        colour_of(cols[i]), "parts/colour")
    else:
        for g in names:
            for ax in axes:
                m, l = artists(ax, im.landmarks[g].points)
                c.check(not m and not l, "parts/landmarks-drawn")
    for ax in axes:
        shown = ax.get_images()
        if not img:
            c.check(not shown, "parts/image-drawn")
            continue
        if not c.check(len(shown) >= 1, "parts/no-image"):
            return
        a = np.ma.filled(np.ma.asarray(shown[0].get_array(), float), 0)
        ch = channel[0] if isinstance(channel, list) else channel
        if ch is None:
            c.close(a if a.ndim == 2 else np.moveaxis(a[..., :3], 2, 0), px,
                    "parts/image-pixels", atol=.6 if a.max() > 2 else 1e-6)
        elif c.check(a.ndim == 2, "parts/channels", str(a.shape)):
            c.close(a, px[ch], "parts/image-pixels",
                    atol=.6 if a.max() > 2 else 1e-6)
    c.event("parts")
    plt.close("all")


def expected_names(w, its):
    """What each drawn iteration is called, and the shape it shows."""
    out = []
    number = 0
    last = len(w["shapes"]) - 1
    digits = None
    for j, s in enumerate(w["shapes"]):
        if j == 0 and w["init"] is not None:
            out.append(("initial", None, s))
        elif j in w["recon"]:
            out.append(("reconstruction", None, s))
        else:
            number += 1
            out.append(("final" if j == last else "iteration", number, s))
    return [out[j] for j in its]


def case_iterations(c):
    """The iteration viewer and the viewer of the outcome."""
    rng = c.rng
    plt = pyplot()
    w = result(rng)
    r = w["r"]
    n = len(w["shapes"])
    u = rng.rand()
    if u < .3:
        iters, its = None, list(range(n))
    elif u < .5:
        its = [int(rng.randint(n))]
        iters = its[0]
    else:
        its = sorted(rng.permutation(n)[:rng.randint(1, n + 1)].tolist())
        iters = list(its)
    sub = bool(rng.rand() < .4)
    img = bool(rng.rand() < .7)
    legend = bool(rng.rand() < .7)
    lines, marks = bool(rng.rand() < .8), bool(rng.rand() < .9)
    size = int(rng.randint(3, 8))
    c.note(cls=w["cls"], n=n, iters=str(iters), sub=sub, image=img,
           conn=w["conn"])
    c.seen(w["cls"], n, str(iters), sub, img, legend, w["image"] is None,
           lines, marks, w["conn"])
    px = None if w["image"] is None else r.image.pixels.copy()
    colours = [DISTINCT[i % 7] for i in range(len(its))] \
        if rng.rand() < .5 else None
    r.view_iterations(iters=iters, subplots_enabled=sub, render_image=img,
                      render_legend=legend, render_lines=lines,
                      render_markers=marks, marker_size=size,
                      line_colour=copy.copy(colours),
                      marker_face_colour=copy.copy(colours))
    axes = plt.gcf().get_axes()
    want = expected_names(w, its)
    tag = "iterations"
    if not c.check(len(axes) == (len(its) if sub else 1), tag + "/axes",
                   "%d axes" % len(axes)):
        return
    drawn, names = [], []
    for i, (kind, number, s) in enumerate(want):
        ax = axes[i if sub else 0]
        drawn.append(check_group(c, ax, s, dict(
            render_lines=lines, render_markers=marks, marker_style="o",
            marker_size=size, line_width=2,
            line_colour=None if colours is None else colours[i],
            marker_face_colour=None if colours is None else colours[i]),
            tag))
        if sub and legend:
            names.append(ax.get_title())
        c.check(bool(ax.get_images()) == (img and px is not None),
                tag + "/image")
    if not sub and legend:
        names = [t.get_text() for t in axes[0].get_legend().get_texts()]
        check_legend(c, axes[0], names, [q[0] for q in want], drawn, tag)
    if legend and c.check(len(names) == len(want), tag + "/names",
                          lambda: "%s for %s" % (names, its)):
        for t, (kind, number, _) in zip(names, want):
            c.check(t.lower().startswith(kind), tag + "/name",
                    lambda: "%s is called %s" % (kind, t))
            if kind == "iteration":
                c.check(int(t.split()[-1]) == number, tag + "/number",
                        lambda: "%s is iteration %d" % (t, number))
    for bad in (1.5, (0, 1), "all"):
        c.raises(ValueError, lambda: r.view_iterations(iters=bad),
                 tag + "/kind-of-iters")
    # the outcome
    plt.close("all")
    show = dict(final=bool(rng.rand() < .8), initial=bool(rng.rand() < .6),
                gt=bool(rng.rand() < .6))
    have = [("final", "Final", w["shapes"][-1], "r"),
            ("initial", "Initial", w["init"], "b"),
            ("gt", "Groundtruth", w["gt"], "y")]
    have = [q for q in have if show[q[0]] and q[2] is not None]
    if have:
        r.view(render_final_shape=show["final"],
               render_initial_shape=show["initial"],
               render_gt_shape=show["gt"], render_image=img,
               subplots_enabled=sub, render_legend=legend)
        axes = plt.gcf().get_axes()
        if c.check(len(axes) == (len(have) if sub else 1), "view/axes"):
            drawn = []
            for i, (_, title, s, col) in enumerate(have):
                ax = axes[i if sub else 0]
                drawn.append(check_group(c, ax, s, dict(
                    render_lines=True, render_markers=True, marker_style="o",
                    marker_size=4, line_width=2, line_colour=col,
                    marker_face_colour=col), "view"))
                if sub and legend:
                    c.check(ax.get_title() == title, "view/title")
            if not sub and legend:
                check_legend(c, axes[0], [q[1] for q in have],
                             [q[0] for q in have], drawn, "view")
    if px is not None:
        c.check(np.array_equal(px, r.image.pixels) and
                not r.image.has_landmarks, "view/image-changed")
    c.check(len(r.shapes) == n and all(np.allclose(a.points, b.points)
            for a, b in zip(r.shapes, w["shapes"])), "view/changed")
    c.event("viewed")
    plt.close("all")


@ndfeature
def two_channels(pixels):
    return np.concatenate([pixels, pixels ** 2])


def numbers(pattern, text, of=float):
    return [of(x) for x in re.findall(pattern, text)]


def case_describe(c):
    """What a trained fitter prints about itself."""
    rng = c.rng
    name = NAMES[c.index % len(NAMES)]
    fam, mod, alg = name.split("/")
    scales = zoo.draw_scales(rng)
    S = len(scales)
    diagonal = [None, 45, 60][rng.randint(3)]
    if name.startswith("AAMSD/Holistic"):
        diagonal = 30
    kw, fkw, P = {}, {}, zoo.some_points(rng)
    if fam == "APS":
        kw.update(aps_graph(P))
    opts = dict(scales=scales, diagonal=diagonal, n_points=P)
    patch = None
    if mod in ("MaskedAAM", "LinearMaskedAAM", "PatchAAM", "MaskedATM",
               "LinearMaskedATM", "PatchATM") or fam in ("CLM", "APS", "SDM",
                                                         "UNI"):
        pool = [(7, 7), (9, 9), (7, 9)] if fam not in ("CLM", "UNI") else \
            [(7, 7), (9, 9), (5, 5)]
        patch = [pool[rng.randint(3)] for _ in range(S)]
        kw["patch_shape"] = patch if S > 1 else patch[0]
    its = [int(rng.randint(1, 4)) for _ in range(S)]
    npert = int(rng.randint(2, 5))
    if fam in ("SDM", "AAMSD"):
        (kw if fam == "SDM" else fkw).update(n_iterations=its,
                                             n_perturbations=npert)
    if fam == "DLIB":
        opts["channels"] = 1
        kw.update(n_iterations=its, n_perturbations=npert)
    active = None
    if fam in ("AAM", "ATM", "CLM", "APS", "UNI") and rng.rand() < .6:
        # the fitter may use fewer components than the model has
        active = [int(rng.randint(1, 3)) for _ in range(S)]
        kw["max_shape_components"] = int(rng.randint(2, 5))
        fkw["n_shape"] = active
        if fam in ("AAM", "UNI"):
            kw["max_appearance_components"] = int(rng.randint(2, 5))
            fkw["n_appearance"] = active[::-1]
    feat = two_channels if fam != "DLIB" and rng.rand() < .3 else None
    if feat is not None:
        opts["features"] = feat
    spec = zoo.diverged(zoo.build, rng, name, model_kw=kw, fitter_kw=fkw,
                        **opts)
    f, m = spec.fitter, spec.model
    c.note(name=name, scales=scales, diagonal=diagonal)
    try:
        text = str(f)
    except Exception as e:
        c.check(False, "describe/raises/" + fam, "%s: %r" % (name, e))
        return
    c.check(text == str(f), "describe/twice/" + fam, name)
    tag = "describe/"
    # the model is described once, and the fitter once
    described = 1 if fam in ("SDM", "LK", "DLIB") else 2
    c.check(numbers(r"- Scale ([\d.]+)", text) == list(scales) * described,
            tag + "scales", lambda: name + "\n" + text)
    if diagonal is None:
        span = f.reference_shape.points.max(0) - f.reference_shape.points.min(0)
        d = float(np.sqrt((span ** 2).sum()))
    else:
        d = diagonal
    got = numbers(r"scaled to diagonal: ([\d.]+)", text)
    c.check(len(got) == 1 and
            abs(got[0] - d) <= .0051, tag + "diagonal",
            lambda: "%s: %s, not %s" % (name, got, d))
    if active:
        c.check([s.n_active_components for s in m.shape_models] == active,
                tag + "active-requested", name)
        c.event("reduced components described")
    if fam in ("AAM", "ATM", "CLM", "APS", "UNI"):
        c.check(numbers(r"(\d+) active shape components", text, int) ==
                [s.n_active_components for s in m.shape_models],
                tag + "active-shape", name)
        c.check(numbers(r"(\d+) similarity transform components", text, int)
                == [4] * S, tag + "similarity-fitter", name)
    if fam in ("AAM", "UNI"):
        c.check(numbers(r"(\d+) active appearance components", text, int) ==
                [a.n_active_components for a in m.appearance_models],
                tag + "active-appearance", name)
    if m is not None:
        mt = str(m)
        c.check(mt in text, tag + "model", name)
        c.check(numbers(r"- (\d+) shape components", mt, int) ==
                [s.model.n_components for s in m.shape_models],
                tag + "shape", name)
        c.check(numbers(r"(\d+) similarity transform parameters", mt, int) ==
                [4] * S, tag + "similarity", name)
        if fam in ("AAM", "AAMSD", "UNI"):
            c.check(numbers(r"- (\d+) appearance components", mt, int) ==
                    [a.n_components for a in m.appearance_models],
                    tag + "appearance", name)
        if patch is not None and hasattr(m, "patch_shape"):
            got = [(int(a), int(b)) for a, b in re.findall(
                r"Patch shape: \(?(\d+)(?:, | x )(\d+)", mt)]
            c.check(got == patch, tag + "patch-shape",
                    lambda: "%s: %s, not %s" % (name, got, patch))
    title = {"AAM": "Active Appearance Model", "AAMSD": "Active Appearance",
             "ATM": "Active Template Model", "CLM": "Constrained Local Model",
             "UNI": "AAM and CLM", "APS": "Pictorial Structure", "SDM":
             "Supervised Descent", "DLIB": "Regression Trees",
             "LK": "Lucas-Kanade"}[fam]
    if fam in ("AAM", "AAMSD", "ATM"):
        head = text.split("\n")[0]
        for w in ("Holistic", "Masked", "Linear", "Patch"):
            c.check((w in mod) == (w in head), tag + "title",
                    lambda: "%s: %s" % (name, head))
    c.check(title in text, tag + "title", lambda: name + "\n" + text)
    if m is not None or fam in ("LK", "SDM"):
        c.check(set(re.findall(r"Holistic feature: (\w+)", text)) ==
                {"two_channels" if feat is not None else "no_op"},
                tag + "feature", lambda: name + "\n" + text)
    if fam in ("CLM", "UNI"):
        c.check(numbers(r"- (\d+) experts", text, int) == [P] * S,
                tag + "experts", name)
        got = [(int(a), int(b)) for a, b in re.findall(
            r"Context shape: (\d+) x (\d+)", text)]
        c.check(got == [tuple(e.context_shape) for e in m.expert_ensembles],
                tag + "context", name)
    if fam == "ATM":
        got = [tuple(int(v) for v in q.split(",")) for q in re.findall(
            r"Template shape: \(([\d, ]+)\)", text)]
        c.check(got == [tuple(t.shape) for t in m.warped_templates],
                tag + "template", name)
    if fam == "LK":
        got = [tuple(int(v) for v in q.split(",")) for q in re.findall(
            r"Template shape: \(([\d, ]+)\)", text)]
        c.check(got == [tuple(t.shape) for t in f.templates],
                tag + "template", name)
        words = re.sub(r"(?<=[a-z])(?=[A-Z])", " ", mod)
        c.check(words in text, tag + "algorithm", lambda: name + "\n" + text)
        word = {"SSD": "Sum of Squared", "FourierSSD": "Fourier Sum",
                "ECC": "Enhanced Corr", "GradientImages": "Gradient Image",
                "GradientCorrelation": "Gradient Correlation"}[alg]
        c.check(word in text, tag + "residual", lambda: name + "\n" + text)
        if alg == "SSD":
            c.check("Fourier" not in text, tag + "residual", name)
    if fam in ("AAM", "ATM"):
        words = re.sub(r"(?<=[a-z])(?=[A-Z])", " ", alg)
        c.check(words in text.replace("-", " "), tag + "algorithm",
                lambda: name + "\n" + text)
        if not alg.startswith("Mod"):
            c.check("Modified" not in text, tag + "algorithm", name)
    if fam in ("SDM", "AAMSD"):
        c.check(numbers(r"- (\d+) iterations", text, int) == its,
                tag + "iterations", name)
        c.check(numbers(r"Perturbations generated per shape: (\d+)", text,
                        int) == [npert], tag + "perturbations", name)
        if mod == "SupervisedDescentFitter" or fam == "AAMSD":
            c.check(alg in text, tag + "algorithm",
                    lambda: name + "\n" + text)
        if patch is not None and fam == "SDM":
            got = [(int(a), int(b)) for a, b in re.findall(
                r"Patch shape: \((\d+), (\d+)", text)]
            c.check(got == patch, tag + "patch-shape", name)
    if fam == "DLIB":
        c.check(numbers(r"Cascade depth: (\d+)", text, int) == its,
                tag + "cascade", lambda: name + "\n" + text)
        c.check(set(numbers(r"Depth per tree: (\d+)", text, int)) == {2},
                tag + "depth", name)
        c.check(set(numbers(r"(\d+) split tests", text, int)) == {5},
                tag + "splits", name)
        c.check(numbers(r"- Perturbations generated per shape: (\d+)", text,
                        int)[0] == npert, tag + "perturbations", name)
    # the outcome of a fit
    if spec.tests:
        ini = zoo.start(rng, spec, spec.tests[0])
        gt = spec.tests[0].landmarks["PTS"]
        mi = {} if fam == "DLIB" else dict(max_iters=2)
        r = zoo.diverged(f.fit_from_shape, spec.tests[0], ini, gt_shape=gt,
                         **mi)
        t = str(r)
        c.check(numbers(r"(\d+) landmark points", t, int) == [P],
                tag + "result-points", name)
        c.check(numbers(r"Final error: ([\d.]+)", t) ==
                [round(float("%.4f" % r.final_error()), 4)],
                tag + "result-final", name)
        if r.initial_shape is not None:
            c.check(numbers(r"Initial error: ([\d.]+)", t) ==
                    [float("%.4f" % r.initial_error())],
                    tag + "result-initial", name)
    c.seen(name, scales, diagonal, str(patch), str(its))
    c.event("descriptions")


RARE = [x for x in zoo.NAMES if x.split("/")[0] in ("CLM", "APS", "UNI",
                                                     "DLIB")]
NAMES = zoo.NAMES + 3 * RARE


def case_models(c):
    """What shape models print about themselves."""
    from menpofit.modelinstance import PDM, GlobalSimilarityModel, OrthoPDM
    rng = c.rng
    n, k = rng.randint(4, 10), rng.randint(4, 12)
    base = rng.rand(n, 2) * 60
    data = [PointCloud(base + rng.randn(n, 2) * rng.uniform(.5, 4))
            for _ in range(k)]
    most = [None, int(rng.randint(1, 4))][rng.randint(2)]
    for cls, first in ((PDM, 0), (OrthoPDM, 4)):
        m = cls(data, max_n_components=most)
        n0 = m.model.n_components
        act = int(rng.randint(1, n0 + 1))
        m.n_active_components = act
        t = str(m)
        tag = "models/" + cls.__name__
        total = numbers(r"total # components:\s+(\d+)", t, int)
        c.check(total == [n0 + first], tag + "/total", lambda: t)
        c.check(numbers(r"# features:\s+(\d+)", t, int) == [2 * n],
                tag + "/features", lambda: t)
        got = re.findall(r"# active components:\s+([\d +=]+)", t)
        nums = [int(x) for x in re.findall(r"\d+", got[0])]
        c.check(nums == ([act] if not first else [4, act, act + 4]),
                tag + "/active", lambda: t)
        kept = numbers(r"kept variance:\s+\S+\s+([\d.]+)%", t)
        c.check(abs(kept[0] - 100 * m.model.variance_ratio()) <= .051,
                tag + "/kept", lambda: t)
        c.check(numbers(r"noise variance:\s+\S+\s+([\d.]+)%", t)[0] -
                100 * m.model.noise_variance_ratio() <= .051,
                tag + "/noise", lambda: t)
        c.check(numbers(r"components shape:\s+\((\d+), \d+\)", t, int) ==
                [m.model.components.shape[0]], tag + "/shape", lambda: t)
        if first:
            c.check(numbers(r"# similarity components:\s+(\d+)", t, int) ==
                    [4] and numbers(r"# PCA components:\s+(\d+)", t, int) ==
                    [n0], tag + "/parts", lambda: t)
            s = str(m.similarity_model)
            c.check(numbers(r"# features:\s+(\d+)", s, int) == [2 * n] and
                    numbers(r"total # components:\s+(\d+)", s, int) == [4],
                    tag + "/similarity", lambda: s)
        c.seen(cls.__name__, n, k, most, act)
    c.event("models")


CASES = {"curves": (case_curves, 400, 1500),
         "groups": (case_groups, 500, 2500),
         "parts": (case_parts, 200, 1000),
         "iterations": (case_iterations, 400, 1800),
         "describe": (case_describe, 2 * len(NAMES), 6 * len(NAMES)),
         "models": (case_models, 300, 1500)}
REQUIRED = {"curves": 800, "groups": 600, "legends": 150, "viewed": 200, "parts": 100,
            "descriptions": 120, "reduced components described": 20, "models": 200}
