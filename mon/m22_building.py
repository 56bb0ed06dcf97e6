"""M22: models are built from the data, scales and components requested."""
import numpy as np

from menpo.feature import no_op
from menpo.image import Image, MaskedImage
from menpo.shape import PointCloud, TriMesh, UndirectedGraph

from . import gen
from .m19_options import make_model, singular, GROUP
from .zoo import on_border
from .core import Skip

ID = "M22"
RULE = ("every kind of model trained with drawn data, sizes, scales, features, "
        "diagonals, reference shapes and component requests; each scale "
        "compared with an independent pipeline that normalises, describes, "
        "rescales, aligns and samples the same data and decomposes it; "
        "instances at drawn and random weights recomputed, training sets of "
        "4 to 257 images; distinct when "
        "kind, scales, features, request or data differ")
ASSUMPTIONS = ["menpo's image rescaling, patch extraction, interpolation, "
               "piecewise affine transforms and generalised Procrustes analysis are trusted"]

AAMS = ["HolisticAAM", "MaskedAAM", "LinearAAM", "LinearMaskedAAM", "PatchAAM"]
ATMS = ["HolisticATM", "MaskedATM", "LinearATM", "LinearMaskedATM", "PatchATM"]
KINDS = AAMS + ["UnifiedAAMCLM", "CLM", "GenerativeAPS"] + ATMS


def f_plus(x):
    y = x.copy()
    y.pixels = y.pixels * 2 + 1
    return y


def f_square(x):
    y = x.copy()
    y.pixels = y.pixels ** 2
    return y


def f_two(x):
    y = x.copy()
    y.pixels = np.concatenate([y.pixels, 1 - y.pixels])
    return y


def halve(x):
    return x * .5


def unit(x):
    return (x - x.mean()) / (x.std() + .1)


FEATS = [no_op, f_plus, f_square, f_two]


def norm(pts):
    return np.linalg.norm(pts - pts.mean(0))


def pca(X):
    X = np.asarray(X, dtype=float)
    m = X.mean(0)
    s = np.linalg.svd(X - m, full_matrices=False)
    ev = s[1] ** 2 / (len(X) - 1)
    keep = ev > 1e-10 * ev[0]
    return m, ev[keep], s[2][keep]


def wanted(request, ev):
    if request is None:
        return len(ev)
    if isinstance(request, float):
        r = np.cumsum(ev) / ev.sum()
        return int(min((r < request).sum() + 1, len(ev)))
    return min(request, len(ev))


def near(request, ev):
    """A ratio so close to a boundary that rounding decides."""
    r = np.cumsum(ev) / ev.sum()
    if isinstance(request, float) and request == 1:
        return r[-2:-1].sum() > 1 - 1e-7
    return isinstance(request, float) and np.abs(r - request).min() < 1e-7


def gpa(shapes):
    from menpo.transform import GeneralizedProcrustesAnalysis
    cent = [PointCloud(s - s.mean(0)) for s in shapes]
    return [t.aligned_source().points
            for t in GeneralizedProcrustesAnalysis(cent).transforms]


def warp(kind, source, target, idx):
    """Where the pixels of the frame come from."""
    from menpo.transform import PiecewiseAffine
    from menpo.transform.piecewiseaffine import TriangleContainmentError
    if kind == "pwa":
        t = PiecewiseAffine(source, PointCloud(target))
        try:
            return t.apply(idx), np.ones(len(idx), dtype=bool)
        except TriangleContainmentError as e:
            ok = ~np.asarray(e.points_outside_source_domain)
            return t.apply(idx[ok]), ok
    return spline(source.points, target, idx), np.ones(len(idx), dtype=bool)


def spline(src, tgt, x):
    """The thin plate spline that takes src to tgt, at x."""
    def U(a, b):
        r = ((a[:, None] - b[None]) ** 2).sum(2)
        return np.where(r > 0, r * np.log(np.where(r > 0, r, 1)), 0)
    n = len(src)
    P = np.c_[np.ones(n), src]
    L = np.zeros((n + 3, n + 3))
    L[:n, :n], L[:n, n:], L[n:, :n] = U(src, src), P, P.T
    w = np.linalg.solve(L, np.vstack([tgt, np.zeros((3, 2))]))
    return np.c_[U(np.asarray(x, float), src), np.ones(len(x)), x].dot(w)


def draw_request(rng, appearance=False):
    return [None, 1, 2, 3, 50, float(rng.uniform(.3, .99)), 1.][
        rng.randint(7)]


def draw_world(rng, crowd=None):
    channels = int([1, 1, 2, 3][rng.randint(4)])
    if crowd:            # many small images
        return gen.dataset(
            rng, crowd, int(rng.randint(4, 7)), (int(rng.randint(34, 40)),
                                                 int(rng.randint(34, 40))),
            channels=min(channels, 2), h=15., w=14., shift=1.)[2]
    n = int(rng.randint(4, 9))
    n_points = int(rng.randint(5, 11))
    fam, tex, ims = gen.dataset(
        rng, n, n_points, (int(rng.randint(66, 90)), int(rng.randint(62, 90))),
        channels=channels, h=40., w=35., kind=["points", "mesh"][
            rng.randint(2)] if False else "points")
    return ims


def mesh(ims, rng):
    """The same images with one triangulation for all landmarks."""
    from scipy.spatial import Delaunay
    pts = np.mean([i.landmarks[GROUP].points for i in ims], 0)
    tri = Delaunay(pts).simplices
    for i in ims:
        i.landmarks[GROUP] = TriMesh(i.landmarks[GROUP].points, trilist=tri)
    return tri


@singular
def case_crowd(c):
    """Models of large training sets."""
    train_and_compare(c, int(c.rng.choice([33, 51, 65, 101, 129, 201, 257])))
    c.event("large training sets")


@singular
def case_model(c):
    train_and_compare(c)


def train_and_compare(c, crowd=None):
    from menpofit.transform import (DifferentiablePiecewiseAffine as PWA,
                                    DifferentiableThinPlateSplines as TPS)
    rng = c.rng
    kind = KINDS[c.index % len(KINDS)]
    ims = draw_world(rng, crowd)
    n = len(ims)
    scales = [(1.,), (.5, 1.), (.6, .8, 1.), (.5,), (1., .5), (.75, 1.25)][
        rng.randint(6)]
    if rng.rand() < .1:       # scales that hardly differ
        scales = (float(rng.uniform(.94, .99)), 1.)
    if crowd:
        scales = [(1.,), (.8,), (1., 1.)][rng.randint(3)]
    feats = [FEATS[rng.randint(4)] for _ in scales]
    if rng.rand() < .3:
        feats = [feats[0]] * len(scales)
    diagonal = [None, 40., 50., 64.][rng.randint(4)]
    if crowd:
        diagonal = [None, 20., 24.][rng.randint(3)]
    kw = dict(holistic_features=feats, diagonal=diagonal)
    if rng.rand() < (.1 if crowd else .3):
        p = ims[0].landmarks[GROUP].points
        p = (p + rng.randn(*p.shape)).dot(rng.uniform(.7, 1.2))
        kw["reference_shape"] = PointCloud(p)
    warped, sigma = None, None
    if kind in ("HolisticAAM", "LinearAAM", "UnifiedAAMCLM", "HolisticATM",
                "LinearATM"):
        warped = ["pwa", "tps"][rng.randint(2)]
        kw["transform"] = {"pwa": PWA, "tps": TPS}[warped]
    elif kind.startswith(("Masked", "LinearMasked")):
        warped = "tps"
    if warped == "pwa":
        tri = mesh(ims, rng)
        if "reference_shape" in kw:
            kw["reference_shape"] = TriMesh(kw["reference_shape"].points,
                                            trilist=tri)
    patches = None
    if kind in ("MaskedAAM", "LinearMaskedAAM", "PatchAAM", "MaskedATM",
                "LinearMaskedATM", "PatchATM", "GenerativeAPS", "CLM",
                "UnifiedAAMCLM"):
        patches = [(int(2 * rng.randint(2, 5) + 1),
                    int(2 * rng.randint(2, 5) + 1)) for _ in scales]
        kw["patch_shape"] = patches
    shape_req = [draw_request(rng) for _ in scales]
    app_req = [draw_request(rng) for _ in scales]
    kw["max_shape_components"] = shape_req
    if kind in AAMS or kind == "UnifiedAAMCLM":
        kw["max_appearance_components"] = app_req
    if kind in ("CLM", "UnifiedAAMCLM") and rng.rand() < .7:
        kw.update(patch_normalisation=[halve, unit][rng.randint(2)],
                  cosine_mask=bool(rng.randint(2)),
                  context_shape=[(17, 13), (15, 15), (13, 19)][rng.randint(3)])
        if rng.rand() < .4:
            kw["sample_offsets"] = np.array([[0, 0], [2, -1]])[
                :rng.randint(1, 3)]
    if kind == "UnifiedAAMCLM" and rng.rand() < .4:
        sigma = float(rng.uniform(.5, 2))
        kw["sigma"] = sigma
    if kind == "UnifiedAAMCLM" and rng.rand() < .4:
        kw["boundary"] = int(rng.randint(1, 9))
    c.note(kind=kind, scales=scales, diagonal=diagonal, n=n,
           features=[f.__name__ for f in feats], shape=shape_req,
           appearance=app_req, warped=warped, sigma=sigma, patches=patches,
           reference="reference_shape" in kw, channels=ims[0].n_channels)
    c.seen(kind, scales, diagonal, tuple(f.__name__ for f in feats),
           tuple(map(str, shape_req)), warped, n)
    if kind in ATMS and rng.rand() < .5:
        kw["reference_shape"] = kw.get("reference_shape")
    try:
        model = make_model(kind, ims, scales, **kw)
    except Exception as e:
        if on_border(e):
            raise Skip()
        raise
    # ----- the reference shape
    shapes = [i.landmarks[GROUP].points for i in ims]
    ref = (kw["reference_shape"].points
           if kw.get("reference_shape") is not None else np.mean(shapes, 0))
    if diagonal:
        ref = ref * diagonal / np.linalg.norm(ref.max(0) - ref.min(0))
    c.close(model.reference_shape.points, ref, "model/reference",
            "the reference shape of a %s" % kind, rtol=1e-8)
    if not c.check(len(model.shape_models) == len(scales) and
                   tuple(model.scales) == tuple(scales), "model/scales",
                   "%d models" % len(model.shape_models)):
        return
    # ----- the data of each scale
    factor = [norm(ref) / norm(s) for s in shapes]
    normal = [i.rescale(f) for i, f in zip(ims, factor)]
    for s, i, f in zip(shapes, normal, factor):
        c.close(i.landmarks[GROUP].points, s * f, "harness/rescale",
                atol=.75)
    if sigma:
        from scipy.ndimage import gaussian_filter
        for i in normal:
            i.pixels = np.stack([gaussian_filter(ch, sigma, mode="constant")
                                 for ch in i.pixels])
    for j, s in enumerate(scales):
        data = [feats[j](i) for i in normal]
        if s != 1:
            data = [d.rescale(s) for d in data]
        lms = [d.landmarks[GROUP].points for d in data]
        if kind in ATMS:
            lms = [x * f * s for x, f in zip(shapes, factor)]
        check_shape(c, kind, model, j, lms, shape_req[j], s, warped)
        if kind in AAMS or kind == "UnifiedAAMCLM":
            check_appearance(c, kind, model, j, data, lms, app_req[j], warped,
                             patches, kw, ref * s)
        if kind == "GenerativeAPS":
            check_patches(c, model, j, data, lms, patches)
        if kind in ("CLM", "UnifiedAAMCLM"):
            check_experts(c, model, j, data, lms, patches, kw)


def check_shape(c, kind, model, j, lms, request, s, warped):
    sm = model.shape_models[j].model
    if kind.startswith("Linear"):
        # dense shapes: landmarks, then every pixel of the reference frame
        frame = model.reference_frames[j]
        idx = frame.mask.true_indices()
        src = frame.landmarks["source"]
        al = gpa(lms)
        mean = np.mean(al, 0)
        q = src.points
        c.close(q - q.mean(0), mean - mean.mean(0), "model/frame",
                "the frame of scale %d" % j, rtol=1e-6, atol=1e-6)
        dense = []
        for x in lms:
            if warped == "pwa" and not isinstance(src, TriMesh):
                raise Skip()
            w, ok = warp(warped, src, x, idx)
            if not ok.all():
                raise Skip()
            dense.append(np.vstack([x, w]))
        lms = dense
        c.check(model.n_landmarks == len(mean), "model/landmarks")
    al = gpa(lms)
    if kind == "GenerativeAPS":
        # aligned twice: once for every model, once by the shape model
        al = gpa(al)
    m, ev, comps = pca([x.ravel() for x in al])
    if near(request, ev):
        return
    k = wanted(request, ev)
    k = min(k, al[0].size - 4)
    c.close(sm.mean().points - sm.mean().points.mean(0), m.reshape(-1, 2) -
            m.reshape(-1, 2).mean(0), "model/shape/mean/%s" % kind,
            "the mean shape of scale %d" % j, rtol=1e-6, atol=1e-7)
    if not c.check(sm.n_components == k and sm.n_active_components == k,
                   "model/shape/components/%s" % kind,
                   "%r of %d components asked for: %d (%d active), not %d" % (
                       request, len(ev), sm.n_components,
                       sm.n_active_components, k)):
        return
    c.close(np.asarray(sm.eigenvalues), ev[:k], "model/shape/variance/%s" % kind,
            "the variances of scale %d" % j, rtol=1e-5, atol=1e-9 * ev[0])
    # the components span the principal directions up to similarities
    # (only the leading ones are compared: the others are nearly degenerate)
    x = m.reshape(-1, 2)
    rot = np.c_[-x[:, 1], x[:, 0]]
    one, zero = np.ones(len(x)), np.zeros(len(x))
    sim = np.stack([x.ravel(), rot.ravel(), np.c_[one, zero].ravel(),
                    np.c_[zero, one].ravel()])
    B = np.vstack([sim, sm.components])
    qr = np.linalg.qr(B.T)[0]
    r = comps[:k] - comps[:k].dot(qr).dot(qr.T)
    if k == len(ev) or ev[k - 1] > 1.05 * ev[k]:
        c.check(np.abs(r).max() < 1e-4, "model/shape/directions/%s" % kind,
                "residual %.2g" % np.abs(r).max())
    c.event("shape models")


def check_appearance(c, kind, model, j, data, lms, request, warped, patches,
                     kw, ref):
    am = model.appearance_models[j]
    mean = am.mean()
    if kind == "PatchAAM":
        X = [d.extract_patches(PointCloud(x), patch_shape=patches[j],
                               as_single_array=True)
             for d, x in zip(data, lms)]
        if not c.check(mean.pixels.shape == X[0].shape, "model/patch/shape",
                       str(mean.pixels.shape)):
            return
        X = [x.ravel() for x in X]
        got = mean.pixels.ravel()
        sel = slice(None)
    else:
        src = mean.landmarks["source"]
        q = src.points
        if not kind.startswith("Linear"):
            c.close(q - q.mean(0), ref - ref.mean(0), "model/frame",
                    "the frame of scale %d" % j, rtol=1e-6, atol=1e-6)
        idx = mean.mask.true_indices()
        b = kw.get("boundary", 3)
        if kind.endswith("MaskedAAM"):
            b = b + max(patches[j])
            half = np.array(patches[j]) / 2.
            d = np.abs(idx[:, None] - q[None]) - half
            c.check((d.max(2).min(1) <= .51).all(), "model/frame/mask",
                    "pixels off the patches")
            c.event("masks")
            # and the pixels next to every landmark belong to the mask
            c.check(mean.mask.mask[tuple(np.round(q).astype(int).T)].all(),
                    "model/frame/mask", "landmarks off the mask")
        c.check(abs(q.min() - b) <= 1 + 1e-6 and
                (q.min(0) >= b - 1e-6).all(), "model/frame/boundary",
                "%r leaves %s, asked for %d" % (kind, q.min(0), b))
        room = np.array(mean.shape) - q.max(0)
        c.check((room >= b - 1e-6).all() and (room <= b + 2.01).all(),
                "model/frame/boundary", "%r leaves %s after, asked for %d" % (
                    kind, room, b))
        if warped == "pwa" and not isinstance(src, TriMesh):
            raise Skip()
        X, oks = [], []
        for d, x in zip(data, lms):
            w, ok = warp(warped, src, x, idx)
            full = np.zeros((d.n_channels, len(idx)))
            full[:, ok] = d.sample(PointCloud(w), order=1, mode="constant")
            X.append(full)
            oks.append(ok)
        ok = np.all(oks, 0)
        X = [x[:, ok].ravel() for x in X]
        got = mean.as_vector().reshape(data[0].n_channels, -1)[:, ok].ravel()
        if not ok.all():
            # pixels on the border, judged outside
            c.check((~ok).sum() <= 8, "model/frame/outside")
    m, ev, comps = pca(X)
    scale = np.abs(m).max()
    c.close(got, m, "model/appearance/mean/%s" % kind, "the mean appearance "
            "of scale %d" % j, rtol=1e-6, atol=1e-6 * scale)
    if near(request, ev) or (kind != "PatchAAM" and not ok.all()):
        return
    k = wanted(request, ev)
    if not c.check(am.n_components == k and am.n_active_components == k,
                   "model/appearance/components/%s" % kind,
                   "%r of %d asked for: %d" % (request, len(ev),
                                               am.n_components)):
        return
    c.close(np.asarray(am.eigenvalues), ev[:k],
            "model/appearance/variance/%s" % kind,
            "the variances of scale %d" % j, rtol=1e-5, atol=1e-9 * ev[0])
    if k == len(ev) or ev[k - 1] > 1.05 * ev[k]:
        B = am.components
        r = comps[:k] - comps[:k].dot(B.T).dot(B)
        c.check(np.abs(r).max() < 1e-4, "model/appearance/directions/%s" %
                kind, "residual %.2g" % np.abs(r).max())
    c.event("appearance models")


def check_patches(c, model, j, data, lms, patches):
    am = model.appearance_models[j]
    X = np.array([d.extract_patches(PointCloud(x), patch_shape=patches[j],
                                    as_single_array=True).ravel()
                  for d, x in zip(data, lms)])
    got = am.mean()
    got = got.pixels.ravel() if hasattr(got, "pixels") else np.ravel(got)
    if not c.check(got.shape == X[0].shape, "model/aps/shape", str(got.shape)):
        return
    c.close(got, X.mean(0), "model/aps/mean", "the mean appearance",
            rtol=1e-5, atol=1e-5 * np.abs(X).max())
    dm = model.deformation_models[j].mean()
    c.check(np.size(dm.as_vector() if hasattr(dm, "as_vector") else dm) ==
            lms[0].size, "model/aps/deformation")
    c.event("appearance models")


def check_experts(c, model, j, data, lms, patches, kw):
    e = model.expert_ensembles[j]
    from menpofit.clm import CorrelationFilterExpertEnsemble as E
    other = E(images=data, shapes=[PointCloud(x) for x in lms],
              patch_shape=patches[j], **dict(
                  dict(context_shape=(15, 15), patch_normalisation=no_op),
                  **{k: kw[k] for k in ("patch_normalisation", "cosine_mask",
                                        "sample_offsets", "context_shape")
                     if k in kw}))
    a = np.array([f.pixels for f in e.frequency_filter_images])
    b = np.array([f.pixels for f in other.frequency_filter_images])
    c.check(a.shape == b.shape and np.abs(a - b).max() <=
            1e-7 * np.abs(b).max(), "model/experts",
            "experts of scale %d are not those of its data" % j)
    c.event("expert ensembles")


# --------------------------------------------------------------------------
def border(fn):
    """Pixels on the very border of a triangulation may be refused."""
    def case(c):
        try:
            fn(c)
        except Exception as e:
            if on_border(e):
                raise Skip()
            raise
    return case


def draw_graph(rng, n):
    """None (a tree is learnt), a star, a path or a directed ring."""
    from menpo.shape import DirectedGraph, Tree
    which = rng.randint(4)
    if which == 0:
        return None
    if which == 1:
        return Tree.init_from_edges(np.array([[0, i] for i in range(1, n)]),
                                    n, 0)
    e = np.array([[i, i + 1] for i in range(n - 1)])
    if which == 2:
        return Tree.init_from_edges(e, n, 0)
    return DirectedGraph.init_from_edges(np.vstack([e, [[0, n - 1]]]), n)


@border
@singular
def case_instance(c):
    rng = c.rng
    kind = ["HolisticAAM", "MaskedAAM", "PatchAAM", "UnifiedAAMCLM",
            "HolisticATM", "MaskedATM", "PatchATM", "CLM", "GenerativeAPS"][
        c.index % 9]
    ims = draw_world(rng)
    scales = [(1.,), (.5, 1.), (.6, .8, 1.)][rng.randint(3)]
    kw = dict(diagonal=[40, 55][rng.randint(2)])
    warped = None
    if kind in ("HolisticAAM", "UnifiedAAMCLM", "HolisticATM"):
        if rng.rand() < .4:
            from menpofit.transform import DifferentiableThinPlateSplines
            kw["transform"] = DifferentiableThinPlateSplines
            warped = "tps"
            c.event("instances by splines")
        else:
            mesh(ims, rng)
            warped = "pwa"
    elif kind.startswith("Masked"):
        warped = "tps"
        kw["patch_shape"] = [(int(2 * rng.randint(2, 5) + 1),
                              int(2 * rng.randint(2, 5) + 1)) for _ in scales]
    if rng.rand() < .5:
        # every scale keeps its own number of components
        kw["max_shape_components"] = [int(x) for x in
                                      rng.permutation(4)[:len(scales)] + 1]
        if "AAM" in kind:
            kw["max_appearance_components"] = [
                int(x) for x in rng.permutation(4)[:len(scales)] + 1]
    if kind == "UnifiedAAMCLM" and rng.rand() < .5:
        kw["boundary"] = int(rng.randint(2, 9))
    if kind == "GenerativeAPS":
        kw["deformation_graph"] = [draw_graph(
            rng, ims[0].landmarks[GROUP].n_points) for _ in scales]
    model = make_model(kind, ims, scales, **kw)
    last = rng.rand() < .3
    j = len(scales) - 1 if last else int(rng.randint(len(scales)))
    where = {} if last else {"scale_index": j}
    sm = model.shape_models[j].model
    am = getattr(model, "appearance_models", [None] * 9)[j]
    if kind == "GenerativeAPS":
        am = None
    sw = rng.uniform(-1.5, 1.5, rng.randint(0, sm.n_active_components + 1))
    aw = None if am is None else rng.uniform(
        -2, 2, rng.randint(0, am.n_active_components + 1))
    mode = rng.randint(5)
    if len(sw) == 0 or mode == 0:
        sw = None
    if aw is not None and (len(aw) == 0 or mode == 1):
        aw = None
    c.note(kind=kind, scales=scales, scale=where, shape=sw, appearance=aw,
           random=mode >= 3)
    c.seen(kind, scales, j, sw is None, aw is None, mode, len(ims))
    if mode >= 3 and kind != "CLM":
        # the weights are those the random generator would give next
        seed = int(rng.randint(1 << 30))
        np.random.seed(seed)
        got = model.random_instance(**where)
        check_random(c, kind, model, sm, am, got, j)
        return
    args = {} if sw is None else {"shape_weights": list(sw)}
    if am is not None and aw is not None:
        args["appearance_weights"] = list(aw)
    args.update(where)
    got = (model.shape_instance(**args) if kind == "CLM"
           else model.instance(**args))
    shape = vector(sm.mean().points.ravel(), sm, sw).reshape(-1, 2)
    if kind == "UnifiedAAMCLM":
        args.pop("appearance_weights", None)
        c.close(model.shape_instance(**args).points, shape,
                "instance/shape/%s" % kind, "the shape alone", rtol=1e-7,
                atol=1e-7)
    if kind == "GenerativeAPS":
        as_graph(c, model, args, shape, j)
    app = None if am is None else vector(am.mean().as_vector(), am, aw)
    check_instance(c, kind, model, got, shape, app, j, warped, kw)


def as_graph(c, model, args, shape, j):
    """The same shape, connected as the deformations of its scale are."""
    from menpo.shape import PointDirectedGraph, PointTree
    g = model.deformation_graph[j]
    got = model.instance(as_graph=True, **args)
    c.check(isinstance(got, PointTree if hasattr(g, "root_vertex")
                       else PointDirectedGraph), "instance/graph",
            "a %s for a %s" % (type(got).__name__, type(g).__name__))
    c.check(np.array_equal(got.edges, g.edges), "instance/graph",
            "edges %s, not %s" % (got.edges.tolist(), g.edges.tolist()))
    if hasattr(g, "root_vertex"):
        c.check(getattr(got, "root_vertex", None) == g.root_vertex,
                "instance/graph", "another root")
    c.close(got.points, shape, "instance/graph", "the shape", rtol=1e-7,
            atol=1e-7)
    c.event("instance graphs")


def vector(mean, model, weights):
    out = np.array(mean, dtype=float)
    if weights is not None:
        for w, e, v in zip(weights, model.eigenvalues, model.components):
            out += w * np.sqrt(e) * v
    return out


def check_instance(c, kind, model, got, shape, app, j, warped, kw):
    if kind in ("CLM", "GenerativeAPS"):
        c.close(got.points, shape, "instance/shape/%s" % kind, "the shape",
                rtol=1e-7, atol=1e-7)
        c.event("instances")
        return
    if kind in ("PatchAAM", "PatchATM"):
        s, image = got
        c.close(s.points, shape, "instance/shape/%s" % kind, "the shape",
                rtol=1e-7, atol=1e-7)
        want = app if app is not None else model.warped_templates[
            j].pixels.ravel()
        c.close(image.pixels.ravel(), want, "instance/appearance/%s" % kind,
                "the patches", rtol=1e-7, atol=1e-7)
        c.event("instances")
        return
    lm = got.landmarks["source"].points
    c.close(lm - lm.mean(0), shape - shape.mean(0), "instance/shape/%s" % kind,
            "the shape", rtol=1e-5, atol=1e-4)
    b = kw.get("boundary", 3)
    if kind.startswith("Masked"):
        b += max(kw["patch_shape"][j])
    c.check(abs(lm.min() - b) <= 1 + 1e-4, "instance/boundary/%s" % kind,
            "%.2f pixels left, not %d" % (lm.min(), b))
    template = (model.warped_templates[j] if app is None
                else model.appearance_models[j].mean())
    if app is None:
        app = template.as_vector()
    full = template.from_vector(app).as_unmasked()
    src = template.landmarks["source"]
    idx = got.mask.true_indices()
    frame = TriMesh(lm, trilist=src.trilist) if warped == "pwa" else \
        PointCloud(lm)
    w, ok = warp(warped, frame, src.points, idx)
    if (~ok).sum() > 8:
        raise Skip()
    v = full.sample(PointCloud(w), order=1, mode="constant")
    g = got.as_vector().reshape(got.n_channels, -1)[:, ok]
    c.check(g.shape == v.shape, "instance/appearance/%s" % kind,
            "%s pixels, not %s" % (g.shape, v.shape))
    size = np.abs(v).max()
    # (landmarks of an instance are carried through a numerical inverse)
    c.check(np.abs(g - v).max() <= 1e-3 * size,
            "instance/appearance/%s" % kind, "the appearance is %.3g off" %
            (np.abs(g - v).max() / size))
    c.event("instances")


def check_random(c, kind, model, sm, am, got, j):
    """A random instance is one of the model's, with plausible weights."""
    if kind == "GenerativeAPS":
        s = got.points
    elif kind in ("PatchAAM", "PatchATM"):
        s = got[0].points
    else:
        s = got.landmarks["source"].points
    m = sm.mean().points
    d = (s - s.mean(0) - m + m.mean(0)).ravel()
    w = sm.components.dot(d)
    r = np.abs(d - w.dot(sm.components)).max()
    c.check(r < 1e-3 * norm(m), "instance/random/%s" % kind,
            "not a shape of the model: %.3g off" % r)
    z = w / np.sqrt(sm.eigenvalues)
    c.check(np.abs(z).max() < 6 and np.abs(z).max() > 1e-4,
            "instance/random/%s" % kind, "%.1f standard deviations" %
            np.abs(z).max())
    if kind in ("PatchAAM", "PatchATM", "GenerativeAPS"):
        c.check(np.abs(z).min() > 1e-6, "instance/random/%s" % kind,
                "%d of %d components play no part" % (
                    (np.abs(z) <= 1e-6).sum(), len(z)))
    if kind == "PatchAAM":
        d = got[1].pixels.ravel() - am.mean().pixels.ravel()
        w = am.components.dot(d)
        c.check(np.abs(d - w.dot(am.components)).max() < 1e-6 *
                np.abs(am.mean().pixels).max() + 1e-8,
                "instance/random/%s" % kind, "appearance off the model")
        z = w / np.sqrt(am.eigenvalues)
        c.check(np.abs(z).max() < 6 and np.abs(z).min() > 1e-6,
                "instance/random/%s" % kind, "appearance weights %s" % z)
    c.event("random instances")


@singular
def case_spread(c):
    """Over many draws every component varies by its standard deviation."""
    rng = c.rng
    kind = ["PatchAAM", "PatchATM", "GenerativeAPS"][c.index % 3]
    ims = draw_world(rng)
    model = make_model(kind, ims, (1.,), diagonal=40)
    sm = model.shape_models[0].model
    am = model.appearance_models[0] if kind == "PatchAAM" else None
    np.random.seed(int(rng.randint(1 << 30)))
    Z, A = [], []
    for _ in range(120):
        got = model.random_instance()
        s = got.points if kind == "GenerativeAPS" else got[0].points
        Z.append(sm.components.dot((s - sm.mean().points).ravel()) /
                 np.sqrt(sm.eigenvalues))
        if am is not None:
            A.append(am.components.dot(got[1].pixels.ravel() -
                                       am.mean().pixels.ravel()) /
                     np.sqrt(am.eigenvalues))
    c.note(kind=kind)
    c.seen("spread", kind, len(ims), sm.n_components)
    for name, z in (("shape", Z), ("appearance", A)):
        if not len(z):
            continue
        z = np.array(z)
        c.check(((z.std(0) > .6) & (z.std(0) < 1.5)).all() and
                (np.abs(z.mean(0)) < .6).all(), "instance/spread/%s/%s" %
                (name, kind), "standard deviations %s" % z.std(0))
        C = np.corrcoef(z.T) if z.shape[1] > 1 else np.eye(1)
        c.check(np.abs(C - np.eye(len(C))).max() < .6,
                "instance/spread/%s/%s" % (name, kind), "correlated weights")
    c.event("spreads")


CASES = {"model": (case_model, 743, 3000), "instance": (case_instance, 270,
                                                       1800),
         "spread": (case_spread, 17, 60), "crowd": (case_crowd, 52, 400)}
REQUIRED = {"shape models": 150, "appearance models": 60, "instances": 40,
            "random instances": 8, "instance graphs": 6,
            "instances by splines": 20, "expert ensembles": 10, "spreads": 3,
            "large training sets": 20}
