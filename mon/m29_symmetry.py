"""M29: rows and columns, channels and landmarks are interchangeable.

A world is drawn, and a mirror of it in which the image axes, the channels or
the landmarks are in another order.  A fitter trained on the mirror must do in
the mirror what the original does, iteration by iteration.
"""
import numpy as np

from menpo.image import Image
from menpo.shape import PointCloud, UndirectedGraph

from . import gen, zoo
from .core import Skip
from .m28_presentation import settings, RARE, vec

ID = "M29"
RULE = ("every trainable fitter but the regression trees (which draw at "
        "random), in random configurations, in a world and in its mirror; "
        "distinct when fitter, kind of mirror or configuration differ")
ASSUMPTIONS = ["compared over few iterations, with a tolerance that grows "
               "with what a tiny displacement of the start does to the same "
               "fit; fits that amplify it beyond use decide nothing"]

NAMES = [x for x in zoo.NAMES + 6 * RARE if not x.startswith("DLIB")]


def damping(rng, name):
    """Options under which the regressions are well conditioned."""
    fam, _, alg = name.split("/")
    if fam not in ("SDM", "AAMSD") or alg in ("-", "") or "OPP" in alg:
        return {}
    import importlib
    import inspect
    cls = getattr(importlib.import_module(
        "menpofit.sdm" if fam == "SDM" else "menpofit.aam"), alg)
    take = inspect.signature(cls.__init__).parameters
    out = {}
    for k, v in (("alpha", rng.uniform(.2, 2.)), ("alpha2", rng.uniform(
            .2, 2.)), ("variance", rng.uniform(.6, .9))):
        if k in take:
            out[k] = float(v)
    return out


def comparable(name, what):
    """Whether a kind of mirror keeps a fitter's arithmetic."""
    # the frames of these round patch corners on the rounding boundary
    if "LinearMasked" in name or "/Masked" in name:
        return what == "channels"
    # these take one of the two crossed derivatives for the other, by design
    if name.startswith("LK") and "/Gradient" in name:
        return what != "axes"
    # their regressions have no unique solution on few images
    if "OPP" in name or name == "SDM/SDM/-":
        return False
    return True


class Mirror(object):
    def __init__(self, rng, what, n_channels, n_points):
        self.what = what
        self.c, self.p, self.t = np.arange(n_channels), np.arange(n_points), 0
        if what == "axes":
            self.t = 1
        elif what == "channels":
            self.c = np.roll(self.c, 1) if n_channels > 1 else self.c
        else:
            self.p = rng.permutation(n_points)

    def points(self, p):
        p = np.asarray(p)[self.p] if len(p) == len(self.p) else np.asarray(p)
        return p[:, ::-1].copy() if self.t else p.copy()

    def shape(self, s):
        return PointCloud(self.points(s.points))

    def pixels(self, x):
        x = x[self.c]
        return x.transpose(0, 2, 1).copy() if self.t else x.copy()

    def image(self, i):
        out = Image(self.pixels(i.pixels))
        for g in i.landmarks:
            out.landmarks[g] = self.shape(i.landmarks[g])
        return out

    def pair(self, x):
        return tuple(x)[::-1] if self.t else tuple(x)

    def graph(self, edges):
        at = np.argsort(self.p)
        return at[np.asarray(edges)]


def bumps(rng, n):
    """A deterministic sequence of box perturbations."""
    return [(float(rng.uniform(.95, 1.05)), rng.uniform(-2, 2, 2))
            for _ in range(n)]


def perturber(seq, flip):
    state = [0]

    def perturb(shape, box):
        k, t = seq[state[0] % len(seq)]
        state[0] += 1
        out = box.copy()
        m = out.points.mean(0)
        out.points[...] = (out.points - m) * k + m + (t[::-1] if flip else t)
        return out
    return perturb


def world(c, name):
    rng = c.rng
    fam = name.split("/")[0]
    o = settings(rng, name)
    o.pop("batch_size", None)
    n_points = o["n_points"]
    channels = int(rng.choice([1, 2, 3]))
    shape = [(96, 88), (88, 97), (100, 80)][rng.randint(3)]
    n = o.pop("n_train", 6)
    _, _, ims = gen.dataset(rng, n + 1, n_points, shape, channels=channels,
                            h=52., w=44.)
    o.update(n_train=n, channels=channels)
    sizes = {}
    if fam in ("AAM", "AAMSD", "ATM", "SDM", "CLM", "UNI", "APS") and not \
            name.split("/")[1] in ("HolisticAAM", "LinearAAM", "HolisticATM",
                                   "LinearATM"):
        sizes["patch_shape"] = [(7, 11), (9, 9), (11, 7)][rng.randint(3)]
        if fam in ("CLM", "UNI"):
            sizes["context_shape"] = [(15, 21), (19, 17), (17, 17)][
                rng.randint(3)]
    return o, ims, sizes


def build(c, name, state, o, ims, sizes, mirror, seq, alg_kw):
    from .m06_multiscale import aps_graph
    rng = np.random.RandomState()
    rng.set_state(state)
    o = dict(o)
    kw = dict(o["model_kw"])
    fam = name.split("/")[0]
    for k, v in sizes.items():
        kw[k] = mirror.pair(v) if mirror else v
    if fam == "APS":
        e = np.array([[i, i + 1] for i in range(o["n_points"] - 1)])
        kw["appearance_graph"] = UndirectedGraph.init_from_edges(
            mirror.graph(e) if mirror else e, o["n_points"])
    o["model_kw"] = kw
    if fam in ("AAMSD", "SDM"):
        o["fitter_kw"] = {"perturb_from_gt_bounding_box": perturber(
            seq, bool(mirror and mirror.t))}
    if name == "SDM/RegularizedSDM/-":
        o["fitter_kw"]["alpha"] = .5
    o["alg_kw"] = alg_kw
    ims = [mirror.image(i) if mirror else i.copy() for i in ims]
    return zoo.diverged(zoo.build, rng, name, data=(None, None, ims), **o)


def case_mirror(c):
    rng = c.rng
    name = NAMES[c.index % len(NAMES)]
    fam = name.split("/")[0]
    what = ["axes", "channels", "landmarks"][(c.index // len(NAMES) +
                                              c.index) % 3]
    o, ims, sizes = world(c, name)
    if what == "channels" and o["channels"] == 1:
        what = "axes"
    if not comparable(name, what):
        raise Skip()
    alg_kw = damping(rng, name)
    m = Mirror(rng, what, o["channels"], o["n_points"])
    seq = bumps(rng, 7)
    state = rng.get_state()
    c.note(name=name, mirror=what, scales=o["scales"], channels=o["channels"],
           sizes=sizes)
    a = build(c, name, state, o, ims, sizes, None, seq, alg_kw)
    b = build(c, name, state, o, ims, sizes, m, seq, alg_kw)
    test = a.tests[0]
    s0 = zoo.start(rng, a, test, .7)
    budget = [int(rng.randint(1, 4)) for _ in range(a.n_scales)]
    kw = dict(max_iters=budget)
    ra = zoo.diverged(a.fitter.fit_from_shape, test, s0, **kw)
    rb = zoo.diverged(b.fitter.fit_from_shape, m.image(test), m.shape(s0),
                      **kw)
    # what a displacement far below rounding does to the same fit
    near = s0.copy()
    near.points[...] += 1e-6 * rng.uniform(-1, 1, near.points.shape)
    rn = zoo.diverged(a.fitter.fit_from_shape, test, near, **kw)
    if not c.check(len(ra.shapes) == len(rb.shapes), "mirror/count", name):
        return
    if len(rn.shapes) != len(ra.shapes):
        raise Skip()
    size = np.ptp(s0.points)
    for i, (x, y, z) in enumerate(zip(ra.shapes, rb.shapes, rn.shapes)):
        drift = np.abs(x.points - z.points).max()
        if not np.isfinite(drift) or drift > 1e-3 or \
                np.abs(x.points - s0.points).max() > 3 * size:
            if i < 2:
                raise Skip()
            break
        tol = 1e-4 + 100 * drift
        d = np.abs(m.points(x.points) - y.points).max()
        if not c.check(d <= tol, "mirror/%s/%s" % (what, fam),
                       "%s: shape %d off by %.3g (drift %.2g)" % (
                           name, i, d, drift)):
            break
        c.event("iterates compared")
    c.event("mirror/" + what)
    c.event("mirrored/" + fam)
    c.seen(name, what, o["scales"], o["channels"], sizes)


CASES = {"mirror": (case_mirror, 400, 4000)}
REQUIRED = {"iterates compared": 1000, "mirror/axes": 80,
            "mirror/channels": 30, "mirror/landmarks": 80}
