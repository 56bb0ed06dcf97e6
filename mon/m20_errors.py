"""M20: error metrics are the metrics they are named after."""
import numpy as np

from menpo.shape import PointCloud

from . import gen

ID = "M20"
RULE = ("every metric and normaliser on random shapes (2D, any size, all point "
        "cloud classes, plain arrays, degenerate equal shapes), the face "
        "metrics on every pair of markup sizes, right and wrong; distinct when "
        "metric, sizes, container and data differ")
ASSUMPTIONS = ["the root mean square error is over coordinates",
               "the 66, 51 and 49 point markups are the 68 point one without "
               "the inner mouth corners (60, 64), without the jaw line (0-16), "
               "and without both"]

# the public 68 point markup and its sub markups, written independently
IDX = {68: list(range(68)),
       66: [i for i in range(68) if i not in (60, 64)],
       51: list(range(17, 68)),
       49: [i for i in range(17, 68) if i not in (60, 64)]}
EYES = (list(range(36, 42)), list(range(42, 48)))


def dist(a, b):
    return np.sqrt(((np.asarray(a) - np.asarray(b)) ** 2).sum(-1))


def rms(a, b):
    return np.sqrt(np.sum((a - b) ** 2) / float(a.size))


def p2p(a, b):
    return dist(a, b).sum() / len(a)


def bbn(p, kind):
    h, w = np.ptp(p, axis=0)
    return {"area": h * w, "perimeter": 2 * h + 2 * w,
            "avg_edge_length": (h + w) / 2,
            "diagonal": np.hypot(h, w)}[kind]


def wrap(rng, p):
    k = rng.randint(4)
    if k == 0 or len(p) < 4:
        return PointCloud(p.copy())
    if k == 1:
        from menpo.shape import TriMesh
        return TriMesh(p.copy())
    if k == 2:
        from menpo.shape import PointUndirectedGraph
        a = np.zeros((len(p), len(p)))
        a[0, 1] = a[1, 0] = 1
        return PointUndirectedGraph(p.copy(), a)
    from menpo.shape import LabelledPointUndirectedGraph
    from collections import OrderedDict
    a = np.zeros((len(p), len(p)))
    return LabelledPointUndirectedGraph(
        p.copy(), a, OrderedDict([("all", np.ones(len(p), dtype=bool))]))


def case_generic(c):
    import menpofit.error as E
    from menpofit.error import base as B
    rng = c.rng
    n = int(rng.choice([1, 2, 3, 5, 9, 20, 68]))
    size = 10. ** rng.uniform(-2, 3)
    g = rng.uniform(-1, 1, (n, 2)) * size * rng.uniform(.2, 2, 2) + \
        rng.uniform(-3, 3, 2) * size
    s = g + rng.randn(n, 2) * size * 10. ** rng.uniform(-3, 0)
    if rng.rand() < .1:
        s = g.copy()
    arrays = rng.rand() < .25
    # whole pixels, stored as such or not
    whole = rng.rand() < .2
    if whole:
        size = float(4 * n)
        g = np.stack([rng.permutation(4 * n + 5)[:n] - 2 * n
                      for _ in range(2)], 1)
        s = g + np.round(rng.randn(n, 2) * 2).astype(int)
        g, s = [x.astype([int, np.int32, float][rng.randint(3)])
                for x in (g, s)]
        c.event("whole pixels")
    G, S = (g.copy(), s.copy()) if arrays else (wrap(rng, g), wrap(rng, s))
    c.note(n=n, size=size, arrays=arrays)
    c.seen(n, arrays, whole, str(g.dtype), str(s.dtype), type(G).__name__,
           type(S).__name__, round(float(size), 9))

    def chk(got, want, mech):
        c.close(float(got), float(want), mech, "", rtol=1e-9,
                atol=1e-12 * size)
        c.event("metric")

    chk(E.root_mean_square_error(S, G), rms(s, g), "rms")
    chk(E.euclidean_error(S, G), p2p(s, g), "euclidean")
    # a mixture of containers
    chk(E.euclidean_error(S, g), p2p(s, g), "euclidean/mixed")
    chk(E.root_mean_square_error(s, gt_shape=G), rms(s, g), "rms/mixed")
    equal = np.array_equal(s, g)
    for f in (E.root_mean_square_error, E.euclidean_error):
        c.check(f(G, G) == 0 and f(S, S) == 0, "zero-for-equal")
        e = f(S, G)
        c.check(e >= 0 and ((e == 0) == equal), "zero-only-for-equal")
        c.close(e, f(G, S), "symmetric", rtol=1e-12, atol=0)
    if n == 1:
        return
    for kind, name in (("area", "bb_area"), ("perimeter", "bb_perimeter"),
                       ("avg_edge_length", "bb_avg_edge_length"),
                       ("diagonal", "bb_diagonal")):
        chk(getattr(E, name)(G) / bbn(g, kind), 1, "normaliser/" + name)
        o = rng.uniform(-1, 1, (4, 2)) * size
        O = wrap(rng, o)
        for f, ref, nm in ((E.root_mean_square_bb_normalised_error, rms, "rms"),
                           (E.euclidean_bb_normalised_error, p2p, "euclidean")):
            m = "bb-normalised/%s/%s" % (nm, kind)
            want = ref(s, g) / bbn(g, kind)
            c.close(f(S, G, norm_type=kind), want, m, rtol=1e-9, atol=0)
            c.close(f(S, G, norm_shape=O, norm_type=kind),
                    ref(s, g) / bbn(o, kind), m + "/norm-shape", rtol=1e-9,
                    atol=0)
            # translating and scaling both together
            k, t = 10. ** rng.uniform(-1, 1), rng.uniform(-2, 2, 2) * size
            e = f(PointCloud(k * s + t), PointCloud(k * g + t), norm_type=kind)
            c.close(e, want / (k if kind == "area" else 1), m + "/invariance",
                    rtol=1e-6, atol=1e-9)
            c.event("normalised metric")
    # the default normaliser
    for f, ref in ((E.root_mean_square_bb_normalised_error, rms),
                   (E.euclidean_bb_normalised_error, p2p)):
        c.close(f(S, G), ref(s, g) / bbn(g, "avg_edge_length"),
                "bb-normalised/default", rtol=1e-9, atol=0)
        c.raises(ValueError, lambda: f(S, G, norm_type="height"),
                 "bb-normalised/unknown-kind")
    i, j = rng.choice(n, 2, replace=False)
    i, j = int(i), int(j)
    d = dist(g[i], g[j])
    chk(E.distance_two_indices(i, j, G), d, "distance-two-indices")
    c.close(E.root_mean_square_distance_indexed_normalised_error(S, G, i, j),
            rms(s, g) / d, "indexed/rms", rtol=1e-9, atol=0)
    c.close(E.euclidean_distance_indexed_normalised_error(S, G, i, j),
            p2p(s, g) / d, "indexed/euclidean", rtol=1e-9, atol=0)
    seen = []

    def norm(a, b):
        seen.append((np.array(getattr(a, "points", a)),
                     np.array(getattr(b, "points", b))))
        return 3.7
    c.close(E.root_mean_square_distance_normalised_error(S, G, norm),
            rms(s, g) / 3.7, "distance/rms", rtol=1e-9, atol=0)
    c.close(E.euclidean_distance_normalised_error(S, G, norm),
            p2p(s, g) / 3.7, "distance/euclidean", rtol=1e-9, atol=0)
    for a, b in seen:
        c.check(np.array_equal(a, s) and np.array_equal(b, g),
                "distance/arguments-of-normaliser")
    # a user's own error function
    own = lambda a, b: float(np.abs(np.asarray(getattr(a, "points", a)) -
                                    np.asarray(getattr(b, "points", b))).max())
    chk(B.bb_normalised_error(own, S, G, norm_type="diagonal") *
        bbn(g, "diagonal"), np.abs(s - g).max(), "own-error-function")
    # nothing was changed
    for a, b in ((G, g), (S, s)):
        c.check(np.array_equal(getattr(a, "points", a), b), "arguments-changed")


def case_solid(c):
    """Metrics of points in any number of dimensions."""
    import menpofit.error as E
    rng = c.rng
    d = int(rng.choice([1, 3, 4]))
    n = int(rng.choice([2, 3, 8, 30]))
    size = 10. ** rng.uniform(-2, 3)
    g = (rng.randn(n, d) + rng.uniform(-3, 3, d)) * size
    s = g + rng.randn(n, d) * size * 10. ** rng.uniform(-3, 0)
    G, S = [x.copy() if rng.rand() < .3 else PointCloud(x.copy())
            for x in (g, s)]
    c.seen(d, n, type(G).__name__, type(S).__name__, c.index)
    c.close(E.root_mean_square_error(S, G), rms(s, g), "solid/rms", rtol=1e-9)
    c.close(E.euclidean_error(S, G), p2p(s, g), "solid/euclidean", rtol=1e-9)
    i, j = [int(x) for x in rng.choice(n, 2, replace=False)]
    k = dist(g[i], g[j])
    c.close(E.distance_two_indices(i, j, G), k, "solid/distance", rtol=1e-9)
    c.close(E.root_mean_square_distance_indexed_normalised_error(S, G, i, j),
            rms(s, g) / k, "solid/indexed-rms", rtol=1e-9)
    c.close(E.euclidean_distance_indexed_normalised_error(S, G, i, j),
            p2p(s, g) / k, "solid/indexed-euclidean", rtol=1e-9)
    c.event("other dimensions")


def face(rng):
    from menpo.landmark import face_ibug_68_to_face_ibug_68
    base = gen.spread_points(rng, 68, 120., 100.)
    return base[rng.permutation(68)] + rng.uniform(-50, 50, 2)


def case_face(c):
    import menpofit.error as E
    rng = c.rng
    g = face(rng)
    s = g + rng.randn(68, 2) * rng.uniform(.1, 8)
    if rng.rand() < .15:
        g, s = np.round(g * 3).astype(int), np.round(s * 3).astype(int)
    size_s = int(rng.choice([68, 66, 51, 49]))
    size_g = int(rng.choice([68, 66, 51, 49]))
    c.note(sizes=(size_s, size_g))
    c.seen(size_s, size_g, c.index)
    S, G = wrap(rng, s[IDX[size_s]]), wrap(rng, g[IDX[size_g]])
    e68 = p2p(s, g)
    e51 = p2p(s[IDX[51]], g[IDX[51]])
    e49 = p2p(s[IDX[49]], g[IDX[49]])
    pup = dist(g[EYES[0]].mean(0), g[EYES[1]].mean(0))
    corner = dist(g[36], g[45])
    edge = bbn(g, "avg_edge_length")
    all4 = (68, 66, 51, 49)
    table = [("mean_pupil_68_error", (68,), (68,), e68 / pup),
             ("mean_pupil_49_error", all4, all4, e49 / pup),
             ("outer_eye_corner_68_euclidean_error", (68,), (68,),
              e68 / corner),
             ("outer_eye_corner_51_euclidean_error", (68, 51), (68, 51),
              e51 / corner),
             ("outer_eye_corner_49_euclidean_error", all4, all4, e49 / corner),
             ("bb_avg_edge_length_68_euclidean_error", (68,), (68,),
              e68 / edge),
             ("bb_avg_edge_length_49_euclidean_error", all4, (68,),
              e49 / edge)]
    for name, ok_s, ok_g, want in table:
        f = getattr(E, name)
        if size_s in ok_s and size_g in ok_g:
            got = c.close(f(S, G), want, "face/" + name,
                          "%d vs %d points" % (size_s, size_g), rtol=1e-9,
                          atol=0)
            c.event("face metric")
            k, t = 10. ** rng.uniform(-1, 1), rng.uniform(-90, 90, 2)
            c.close(f(PointCloud(k * S.points + t), PointCloud(k * G.points + t)),
                    want, "face/%s/invariance" % name, rtol=1e-7, atol=1e-10)
            if size_s == size_g:
                c.check(f(G, G) == 0, "face/zero-for-equal")
        else:
            c.raises(ValueError, lambda: f(S, G), "face/%s/size" % name,
                     "%d vs %d points" % (size_s, size_g))
            c.event("wrong size rejected")
        # sizes of no markup at all
        n = int(rng.choice([1, 17, 48, 50, 52, 65, 67, 69, 70]))
        Z = PointCloud(rng.rand(n, 2) * 100)
        c.raises(ValueError, lambda: f(Z, PointCloud(g)),
                 "face/%s/size" % name, "%d points" % n)
        c.raises(ValueError, lambda: f(PointCloud(s), Z),
                 "face/%s/size" % name, "%d points" % n)
    c.check(np.array_equal(S.points, s[IDX[size_s]]) and
            np.array_equal(G.points, g[IDX[size_g]]), "arguments-changed")


def case_result(c):
    """Errors reported by results are these metrics."""
    from menpofit.result import Result
    import menpofit.error as E
    rng = c.rng
    g = face(rng)
    s = g + rng.randn(68, 2) * 4
    i = g + rng.randn(68, 2) * 9
    r = Result(PointCloud(s), initial_shape=PointCloud(i),
               gt_shape=PointCloud(g))
    c.seen(c.index)
    for name, f in [("default", None)] + [
            (n, getattr(E, n)) for n in
            ("mean_pupil_68_error", "outer_eye_corner_68_euclidean_error",
             "bb_avg_edge_length_49_euclidean_error", "euclidean_error",
             "root_mean_square_error")]:
        ref = f or E.euclidean_bb_normalised_error
        kw = {} if f is None else {"compute_error": f}
        c.close(r.final_error(**kw), ref(PointCloud(s), PointCloud(g)),
                "result/final/" + name, rtol=1e-12)
        c.close(r.initial_error(**kw), ref(PointCloud(i), PointCloud(g)),
                "result/initial/" + name, rtol=1e-12)
        c.event("result metric")


CASES = {"generic": (case_generic, 3000, 12000),
         "solid": (case_solid, 300, 2000),
         "face": (case_face, 1200, 5000),
         "result": (case_result, 180, 400)}
REQUIRED = {"whole pixels": 200, "other dimensions": 200, "metric": 1000, "normalised metric": 500, "face metric": 200,
            "wrong size rejected": 100, "result metric": 60}
