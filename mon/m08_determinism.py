"""M08: fits are deterministic and do not depend on earlier fits."""
import copy
import os
import pickle
import struct
import sys

import numpy as np

from menpo.image import Image
from menpo.shape import PointCloud

from . import gen, zoo
from .core import Skip
from .m07_purity import Boom, outcome, equal, setup, dress

ID = "M08"
RULE = ("random sequences of fits, failing fits, queries and fits of sibling "
        "fitters carried out by every fitter of the zoo; each answer compared "
        "bit for bit with that of the untouched fitter in a forked process, "
        "and up to rounding with those of copies and of retrained fitters; "
        "distinct when fitter, options or sequence differ")
ASSUMPTIONS = ["a forked process computes what its parent would have, single "
               "threaded linear algebra",
               "copies lay out their memory differently, so they are compared "
               "over few iterations up to 1e-6 of the shape size"]


def in_child(fn):
    """The value of fn() computed by a forked copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                v = ("ok", fn())
            except Exception as e:
                v = ("error", type(e).__name__)
            d = pickle.dumps(v)
            with os.fdopen(w, "wb") as fh:
                fh.write(struct.pack("q", len(d)) + d)
        except BaseException:
            code = 1
        finally:
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if len(data) < 8:
        raise Skip()
    return pickle.loads(data[8:])


class Query(object):
    """One fit: an image, a start and the options of the call."""

    def __init__(self, rng, fam, f, ims, n):
        self.image = ims[rng.randint(len(ims))]
        gt = self.image.landmarks["PTS"]
        self.x0 = gen.perturb(rng, gt, scale=.03, angle=.04, shift=1.5)
        self.bb = fam == "DLIB" or rng.rand() < .25
        self.kw = {}
        if rng.rand() < .5:
            self.kw["gt_shape"] = gt
        takes = fam not in ("SDM", "AAMSD", "DLIB")
        if takes:
            self.kw["max_iters"] = [int(x) for x in rng.randint(1, 4, n)] \
                if rng.rand() < .7 else int(rng.randint(1, 4)) * n
            if fam != "CLM" and rng.rand() < .6:
                self.kw["return_costs"] = True
        if fam in ("AAM", "ATM", "CLM") and rng.rand() < .5:
            self.kw["map_inference"] = True
        if fam == "UNI" and rng.rand() < .6:
            self.kw["prior"] = bool(rng.rand() < .7)
            self.kw["a"] = float(rng.choice([0., .3, 1.]))

    def run(self, f):
        try:
            if self.bb:
                r = f.fit_from_bb(self.image, self.x0.bounding_box(),
                                  **self.kw)
            else:
                r = f.fit_from_shape(self.image, self.x0, **self.kw)
            per = getattr(r, "n_iters_per_scale", None)
            return outcome(r) + [np.asarray(per if per is not None else [],
                                            dtype=float)]
        except (np.linalg.LinAlgError, ValueError, Boom) as e:
            return [np.frombuffer(type(e).__name__.encode(), dtype=np.uint8)]

    def __str__(self):
        return "%s %s" % ("bb" if self.bb else "shape", sorted(
            (k, v if not hasattr(v, "points") else 1)
            for k, v in self.kw.items()))


def disturb(c, rng, name, f, fuse, q, n, sibling, model):
    """Something that must not matter to later fits."""
    fam = name.split("/")[0]
    kind = ["feature", "algorithm", "shape", "channels", "options", "nan",
            "queries", "sibling", "random", "tiny"][rng.randint(10)]
    fuse.calls, fuse.at = 0, None
    try:
        if kind == "feature":
            fuse.at = int(rng.randint(1, 3 * n + 1))
            q.run(f)
        elif kind == "algorithm":
            # an algorithm that fails half way: its warp raises at some call
            a = f.algorithms[rng.randint(n)]
            itf = getattr(a, "interface", None)
            if itf is None or not hasattr(itf, "warp"):
                raise Skip()
            left = [int(rng.randint(0, 3))]
            real = itf.warp

            def warp(*p, **k):
                left[0] -= 1
                if left[0] < 0:
                    raise Boom()
                return real(*p, **k)
            itf.warp = warp
            try:
                q.run(f)
            finally:
                del itf.warp
        elif kind == "shape":
            f.fit_from_shape(q.image, PointCloud(q.x0.points[:4]), **q.kw)
        elif kind == "channels":
            im = Image(np.concatenate([q.image.pixels] * 2))
            f.fit_from_shape(im, q.x0, **q.kw)
        elif kind == "options":
            f.fit_from_shape(q.image, q.x0, max_iters=[1] * (n + 2))
        elif kind == "nan":
            im = Image(np.full_like(q.image.pixels, np.nan))
            f.fit_from_shape(im, q.x0, **q.kw)
        elif kind == "tiny":
            f.fit_from_shape(Image(np.zeros((1, 3, 3))), q.x0, **q.kw)
        elif kind == "queries":
            str(f)
            if hasattr(f, "warped_images"):
                f.warped_images(q.image, [q.x0] * 2)
            if model is not None:
                str(model)
                if hasattr(model, "instance"):
                    model.instance(shape_weights=[.5, -.3],
                                   scale_index=int(rng.randint(n)))
                    model.random_instance(scale_index=int(rng.randint(n)))
        elif kind == "sibling":
            if sibling is None:
                raise Skip()
            q.run(sibling)
        elif kind == "random":
            np.random.seed(rng.randint(1 << 30))
    except (Exception, Skip):
        pass
    finally:
        fuse.at = None
    c.event("disturbances")
    c.seen("disturbance", fam, kind)
    return kind


def sibling_of(rng, name, model):
    """Another fitter that shares the model with the one observed."""
    import menpofit.aam as A
    import menpofit.atm as T
    import menpofit.clm as C
    fam, mname, alg = name.split("/")
    if fam == "AAM":
        return A.LucasKanadeAAMFitter(model, lk_algorithm_cls=getattr(
            A, zoo.AAM_ALGS[rng.randint(len(zoo.AAM_ALGS))]))
    if fam == "ATM":
        return T.LucasKanadeATMFitter(model, lk_algorithm_cls=getattr(
            T, ["ForwardCompositional", "InverseCompositional"][
                rng.randint(2)]))
    if fam == "CLM":
        return C.GradientDescentCLMFitter(model, gd_algorithm_cls=getattr(
            C, ["ActiveShapeModel", "RegularisedLandmarkMeanShift"][
                rng.randint(2)]))
    return None


def compare(c, mech, a, b, msg, bits=True):
    if bits:
        return c.check(equal(a, b), mech, lambda: "%s: %s" % (
            msg, gap(a, b)))
    ok = len(a) == len(b) and all(x.shape == y.shape for x, y in zip(a, b))
    if ok:
        s = np.abs(b[0]).max() if len(b) > 2 and b[0].size else 1.
        ok = np.allclose(a[0], b[0], rtol=0, atol=1e-6 * max(s, 1.),
                         equal_nan=True)
    return c.check(ok, mech, lambda: "%s: %s" % (msg, gap(a, b)))


def gap(a, b):
    if len(a) != len(b):
        return "%d parts against %d" % (len(a), len(b))
    out = []
    for x, y in zip(a, b):
        if x.shape != y.shape:
            out.append("shape %s against %s" % (x.shape, y.shape))
        elif x.dtype.kind == "f":
            out.append("%.3g" % (np.abs(x - y).max() if x.size else 0))
    return "differences " + ", ".join(out)


def case_history(c):
    rng = c.rng
    name, n, ims, fuse, build, watch, kw, fkw, reference = setup(c)
    fam = name.split("/")[0]
    try:
        spec = build()
    except np.linalg.LinAlgError:
        raise Skip()
    f, model = spec.fitter, spec.model
    _, _, other = gen.dataset(rng, 2, 9, (70 + int(rng.randint(40)), 84),
                              channels=1, h=50., w=42.)
    _, other = dress(rng, other)
    for i in other:
        i.pixels = np.clip(i.pixels, 0, 1)
    pool = ims + other
    qs = [Query(rng, fam, f, pool, n) for _ in range(int(rng.randint(3, 6)))]
    base = [in_child(lambda q=q: q.run(f)) for q in qs]
    if any(b[0] != "ok" for b in base):
        c.violate("fit/unexpected-error", str([b for b in base
                                              if b[0] != "ok"][:1]))
        return
    base = [b[1] for b in base]
    if all(len(b) == 1 for b in base):
        raise Skip()
    sib = None
    virgin = copy.deepcopy(f) if rng.rand() < .5 else None
    if model is not None and rng.rand() < .6 and not (
            set(fkw) & {"n_shape", "n_appearance"}):
        sib = sibling_of(rng, name, model)
        # (whatever it set up on the shared model precedes the first fit)
        again = [in_child(lambda q=q: q.run(f)) for q in qs]
        for q, a, b in zip(qs, again, base):
            compare(c, "history/sibling/" + fam, a[1], b,
                    "%s %s: building another fitter on the model" % (name, q))
    log = []
    m = int(rng.randint(8, 16))
    c.seen(name, *[str(v)[:40] for v in kw.values()])
    for step in range(m):
        if rng.rand() < .45:
            log.append(disturb(c, rng, name, f, fuse,
                               qs[rng.randint(len(qs))], n, sib, model))
            continue
        i = int(rng.randint(len(qs)))
        got = qs[i].run(f)
        log.append(i)
        ok = compare(c, "history/" + fam, got, base[i],
                     "%s %s after %s" % (name, qs[i], log[-6:]))
        c.event("fits replayed")
        if not ok:
            return
    # copies taken now or before anything happened
    few = [q for q, b in zip(qs, base) if len(b) > 1][:2]
    copies = [("deepcopy", copy.deepcopy(f))]
    if virgin is not None:
        copies.append(("virgin", virgin))
    for how, g in copies:
        for q in few:
            b = base[qs.index(q)]
            compare(c, "copy/%s/%s" % (how, fam), q.run(g), b,
                    "%s %s" % (name, q), bits=False)
            c.event("copies compared")
    # the copy and the original do not share their state
    for q in few:
        compare(c, "copy/original/" + fam, q.run(f), base[qs.index(q)],
                "%s: fitting with a copy" % name)


def case_retrain(c):
    rng = c.rng
    name, n, ims, fuse, build, watch, kw, fkw, reference = setup(c)
    fam = name.split("/")[0]
    try:
        f = build().fitter
        q = [Query(rng, fam, f, ims, n) for _ in range(3)]
        for x in q[1:]:
            x.run(f)
        np.random.seed(rng.randint(1 << 30))
        g = build().fitter
    except np.linalg.LinAlgError:
        raise Skip()
    c.seen(name, *[str(v)[:40] for v in kw.values()])
    for x in q:
        a, b = x.run(g), x.run(f)
        if len(a) == 1 and len(b) == 1:
            continue
        compare(c, "retrained/" + fam, a, b, "%s %s" % (name, x), bits=False)
        c.event("retrainings compared")


def case_rebuild(c):
    """Fitters built on a model before and after the model was used."""
    from .m24_io import fitter_options
    rng = c.rng
    names = [n for n in zoo.NAMES if n.split("/")[0] in (
        "AAM", "ATM", "CLM", "APS", "UNI", "AAMSD")]
    name = names[(c.index * 31 + c.seed % 83) % len(names)]
    name, n, ims, fuse, build, watch, kw, fkw, reference = setup(c, name)
    fam = name.split("/")[0]
    try:
        spec = build()
        model = spec.model
        if fam == "AAMSD":
            import menpofit.aam as A
            more = dict(fkw)
            more.setdefault("n_iterations", 2)
            more.setdefault("n_perturbations", 3)
            seed = int(rng.randint(1 << 30))

            def make():
                np.random.seed(seed)
                return A.SupervisedDescentAAMFitter(
                    spec.images, model, group="PTS",
                    sd_algorithm_cls=getattr(A, name.split("/")[2]), **more)
        else:
            opts = dict(fitter_options(spec), **fkw)
            make = lambda: type(spec.fitter)(model, **opts)
        first = make()
        qs = [Query(rng, fam, first, ims, n) for _ in range(3)]
        base = [q.run(first) for q in qs]
        if all(len(b) == 1 for b in base):
            raise Skip()
        c.seen(name, *[str(v)[:40] for v in fkw.values()])
        used = []
        for _ in range(int(rng.randint(1, 4))):
            k = rng.randint(3)
            used.append(int(k))
            if k == 0:
                q = qs[rng.randint(3)]
                q.run(spec.fitter if rng.rand() < .5 else first)
            elif k == 1 and hasattr(model, "shape_models"):
                m = model.shape_models[rng.randint(n)]
                m._from_vector_inplace(rng.randn(m.n_parameters) * 2.)
            else:
                i = ims[rng.randint(len(ims))]
                model.shape_models[0].set_target(i.landmarks["PTS"]) \
                    if model.shape_models[0].target.n_points == 9 else None
        second = make()
        got = [q.run(second) for q in qs]
    except np.linalg.LinAlgError:
        raise Skip()
    for q, a, b in zip(qs, got, base):
        if len(b) == 1:
            continue
        compare(c, "rebuilt/" + fam, a, b, "%s %s after %s" % (
            name, q, used), bits=False)
        c.event("rebuilt fitters compared")


CASES = {"rebuild": (case_rebuild, 143, 1200),
         "history": (case_history, 329, 2300),
         "retrain": (case_retrain, 114, 900)}
REQUIRED = {"rebuilt fitters compared": 60,
            "fits replayed": 400, "disturbances": 300, "copies compared": 80,
            "retrainings compared": 40}
