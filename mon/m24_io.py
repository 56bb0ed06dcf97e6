"""M24: saved fitters load back as the fitters that were saved."""
import contextlib
import copy
import functools
import io as stdio
import os
import pickle
import resource
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import threading
import time

import numpy as np

from menpo.feature import ndfeature
from menpo.image import Image, MaskedImage
from menpo.shape import PointCloud

from . import gen, zoo
from .core import Skip
from .m07_purity import outcome, snap, diff
from .m08_determinism import compare, in_child

ID = "M24"
RULE = ("fitters and models of the whole zoo written to disk in every pickle "
        "protocol and container, loaded (in this and in fresh interpreters), "
        "rebuilt by the lazy wrapper and replayed on drawn images; downloads "
        "from a loopback server that truncates, resets, misannounces, "
        "corrupts or stalls at drawn offsets while the client is interrupted, "
        "killed or out of space, the target watched throughout; distinct "
        "when fitter, container, options or fault sequence differ")
ASSUMPTIONS = ["corruption that still unpickles to a callable is not "
               "recognisable, as fitters are published without checksums",
               "copies lay out their memory differently, so they are compared "
               "over few iterations up to 1e-6 of the shape size"]

GREY = np.linalg.inv(np.array([[1., .956, .621], [1., -.272, -.647],
                               [1., -1.106, 1.703]]))[0]
TAKES = ("AAM", "ATM", "CLM", "APS", "UNI", "LK")


@ndfeature
def halved(pixels):
    """A feature at half the resolution, that can be stored by name."""
    return pixels[:, ::2, ::2]


def the(x):
    """A fitter 'class' that stands for an already trained fitter."""
    return x


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="m24-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make(c, names=None, channels=None, scales=None):
    rng = c.rng
    names = names or zoo.NAMES
    name = names[(c.index * 41 + c.seed % 89) % len(names)]
    kw, n_points = {}, zoo.some_points(rng)
    if name.startswith("APS"):
        from .m06_multiscale import aps_graph
        kw = aps_graph(n_points)
    feats = None
    if name.split("/")[0] == "DLIB":
        channels = 1
    else:
        feats = [None, None, halved][rng.randint(3)]
    try:
        spec = zoo.build(rng, name, channels=channels, scales=scales,
                         features=feats, n_test=2, n_train=6, model_kw=kw,
                         n_points=n_points,
                         diagonal=[30, None][rng.randint(2)] if
                         not name.startswith("AAMSD/Hol") else 30)
    except np.linalg.LinAlgError:
        raise Skip()
    except ValueError as e:
        if "noise variance is effectively 0" in str(e):
            raise Skip()
        raise
    c.note(name=name, features=getattr(feats, "__name__", None),
           scales=spec.scales)
    return name, spec


def draw_kw(rng, fam, n):
    kw = {}
    if fam in TAKES:
        kw["max_iters"] = [int(v) for v in rng.randint(1, 4, n)]
        if fam != "CLM" and rng.rand() < .5:
            kw["return_costs"] = True
    if fam in ("AAM", "ATM", "CLM") and rng.rand() < .3:
        kw["map_inference"] = True
    return kw


def run(f, bb, image, x0, kw):
    """Outcome of a fit, or the error it ends in."""
    try:
        r = f.fit_from_bb(image, x0, **kw) if bb else \
            f.fit_from_shape(image, x0, **kw)
    except (np.linalg.LinAlgError, ValueError, IndexError) as e:
        return None, [np.frombuffer(type(e).__name__.encode(),
                                    dtype=np.uint8)]
    return r, whole(r)


def whole(r):
    if r.is_iterative:
        out = outcome(r)
    else:
        out = [r.final_shape.points.copy()]
    per = getattr(r, "n_iters_per_scale", None)
    return out + [np.asarray(per if per is not None else [], dtype=float)]


def write(rng, obj, d):
    """Stores an object as users do; a function that loads it back."""
    import menpo.io as mio
    k = rng.randint(4)
    if k == 0:
        p = int(rng.randint(2, pickle.HIGHEST_PROTOCOL + 1))
        path = os.path.join(d, "o.pkl")
        with open(path, "wb") as fh:
            pickle.dump(obj, fh, protocol=p)
        return "pickle%d" % p, path
    path = os.path.join(d, ["x", "o.pkl", "o.pkl.gz", "p.pkl"][k])
    mio.export_pickle(obj, path, overwrite=True)
    return "menpo%s" % path[-3:], path


def load(path):
    import menpo.io as mio
    return mio.import_pickle(path)


def case_copies(c):
    """Fitters and models on disk."""
    rng = c.rng
    name, spec = make(c)
    fam = spec.family
    f, model = spec.fitter, spec.model
    bb = fam == "DLIB" or rng.rand() < .3
    im = spec.tests[0]
    kw = draw_kw(rng, fam, spec.n_scales)
    with_gt = rng.rand() < .5
    if with_gt:
        kw["gt_shape"] = im.landmarks["PTS"]
    x0 = zoo.start(rng, spec, im)
    x0 = x0.bounding_box() if bb else x0
    r, base = run(f, bb, im, x0, kw)
    with scratch() as d:
        how, path = write(rng, f, d)
        c.seen(name, how, spec.scales, bb)
        g = load(path)
        c.check(type(g) is type(f), "copy/type", str(type(g)))
        _, got = run(g, bb, im, x0, kw)
        compare(c, "copy/%s" % fam, got, base, "%s %s" % (name, how),
                bits=False)
        c.check(str(g) == str(f), "copy/str/%s" % fam,
                lambda: "%s != %s" % (g, f))
        _, again = run(f, bb, im, x0, kw)
        compare(c, "copy/original/%s" % fam, again, base,
                "%s: the original after saving" % name)
        c.event("copies replayed")
        # saving what was loaded, after it was used
        how2, path = write(rng, g, d)
        _, got = run(load(path), bb, im, x0, kw)
        compare(c, "copy/again/%s" % fam, got, base, "%s %s %s" % (
            name, how, how2), bits=False)
        if r is not None:
            how3, path = write(rng, r, d)
            q = load(path)
            compare(c, "copy/result/%s" % fam, whole(q), base,
                    "%s result %s" % (name, how3), bits=False)
            c.check(q.image.pixels.tobytes() == r.image.pixels.tobytes(),
                    "copy/result-image")
            c.check((q.gt_shape is None) == (not with_gt), "copy/result-gt")
            if with_gt:
                c.close(q.final_error(), r.final_error(), "copy/result-error",
                        rtol=1e-12)
            c.event("results stored")
        if model is not None:
            how4, path = write(rng, model, d)
            m = load(path)
            c.check(str(m) == str(model), "copy/model-str/%s" % fam)
            h = type(f)(m, **fitter_options(spec))
            ref = type(f)(model, **fitter_options(spec))
            _, want = run(ref, bb, im, x0, kw)
            _, got = run(h, bb, im, x0, kw)
            compare(c, "copy/model/%s" % fam, got, want, "%s model %s" % (
                name, how4), bits=False)
            c.event("models replayed")
            if hasattr(model, "instance") and fam in ("AAM", "ATM"):
                w = rng.randn(2)
                k = int(rng.randint(spec.n_scales))
                try:
                    a = [o.instance(shape_weights=w, scale_index=k)
                         for o in (model, m)]
                except NotImplementedError:
                    a = []
                if a and isinstance(a[0], Image):
                    c.close(a[1].pixels, a[0].pixels, "copy/instance",
                            atol=1e-8)
            if fam in ("AAM", "CLM") and rng.rand() < .6:
                more = [i.copy() for i in spec.tests]
                state = np.random.get_state()
                model.increment(more, group="PTS")
                np.random.set_state(state)
                m.increment(more, group="PTS")
                _, want = run(type(f)(model, **fitter_options(spec)), bb, im,
                              x0, kw)
                _, got = run(type(f)(m, **fitter_options(spec)), bb, im, x0,
                             kw)
                compare(c, "copy/increment/%s" % fam, got, want, name,
                        bits=False)
                c.event("increments replayed")


def fitter_options(spec):
    """The options spec.fitter was built from its model with."""
    import menpofit.aam as A
    import menpofit.aps as P
    import menpofit.atm as T
    import menpofit.clm as C
    import menpofit.unified_aam_clm as U
    fam, _, alg = spec.name.split("/")
    if fam == "AAM":
        return dict(lk_algorithm_cls=getattr(A, alg))
    if fam == "ATM":
        return dict(lk_algorithm_cls=getattr(T, alg))
    if fam == "CLM":
        return dict(gd_algorithm_cls=getattr(C, alg))
    if fam == "UNI":
        return dict(algorithm_cls=getattr(U, alg))
    if fam == "APS":
        return dict(gn_algorithm_cls=getattr(P, alg))
    raise Skip()


FRESH = r"""
import sys, pickle, warnings
warnings.simplefilter("ignore")
from mon.m24_io import run
import menpo.io as mio
q = pickle.load(open(sys.argv[2], "rb"))
f = mio.import_pickle(sys.argv[1])
if q.pop("call"):
    f = f()
pickle.dump(run(f, **q)[1], open(sys.argv[3], "wb"))
"""


def case_fresh(c):
    """The copy is loaded by an interpreter that never saw the original."""
    rng = c.rng
    name, spec = make(c)
    fam = spec.family
    im = spec.tests[0]
    bb = fam == "DLIB" or rng.rand() < .3
    x0 = zoo.start(rng, spec, im)
    x0 = x0.bounding_box() if bb else x0
    kw = draw_kw(rng, fam, spec.n_scales)
    lazy = rng.rand() < .5
    from menpofit.io import PickleWrappedFitter
    obj = spec.fitter
    if lazy:
        obj = functools.partial(PickleWrappedFitter, the, (spec.fitter,), {},
                                {}, {}, image_preprocess=None)
    c.note(lazy=lazy)
    with scratch() as d:
        how, path = write(rng, obj, d)
        c.seen(name, how, lazy)
        q, o = os.path.join(d, "q"), os.path.join(d, "out")
        with open(q, "wb") as fh:
            pickle.dump(dict(call=lazy, bb=bb, image=im, x0=x0, kw=kw), fh)
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", FRESH, path,
                            q, o], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=300)
        if not c.check(p.returncode == 0, "fresh/load/%s" % fam,
                       p.stderr.decode()[-300:]):
            return
        with open(o, "rb") as fh:
            got = pickle.load(fh)
        _, want = run(spec.fitter, bb, im, x0, kw)
        compare(c, "fresh/%s" % fam, got, want, "%s %s" % (name, how),
                bits=False)
        c.event("fresh interpreters")


# --- the wrapper ------------------------------------------------------------
def halve(image, pointcloud, factor=.5):
    """A preprocessing that changes the scale."""
    return image.rescale(factor, return_transform=True)


def tagged(image, pointcloud):
    """A crop whose origin is not an integer."""
    t = np.array([3.25, 1.5])
    from menpo.transform import Translation
    return image.warp_to_shape(np.array(image.shape) - 6, Translation(t),
                               return_transform=True)


def window(image, points, proportion):
    """The crop documented: the box grown by a share of its shorter side,
    rounded outwards and kept within the image."""
    lo, hi = points.min(axis=0), points.max(axis=0)
    b = proportion * (hi - lo).min()
    size = np.array(image.shape)
    lo = np.clip(np.floor(lo - b), 0, size)
    hi = np.clip(np.ceil(hi + b), 0, size)
    return lo.astype(int), hi.astype(int)


def grey_crop(image, points, proportion):
    a, b = window(image, points, proportion)
    px = image.pixels
    if px.shape[0] == 3:
        px = np.dot(GREY, px.reshape(3, -1)).reshape(
            (1,) + px.shape[1:]).astype(px.dtype)
    px = px[:, a[0]:b[0], a[1]:b[1]]
    if isinstance(image, MaskedImage):
        return MaskedImage(px.copy(), mask=image.mask.pixels[
            0, a[0]:b[0], a[1]:b[1]].copy()), a.astype(float)
    return Image(px.copy()), a.astype(float)


def colour(rng, im):
    """An RGB image whose luminosity is the image given (nearly)."""
    px = im.pixels
    a = rng.uniform(.6, 1.4, 3)
    a /= GREY.dot(a)
    out = px * a[:, None, None]
    new = Image(out)
    for g in im.landmarks.group_labels:
        new.landmarks[g] = im.landmarks[g]
    return new


def case_wrapper(c):
    """Fits through the wrapper against fits on what it passes on."""
    from menpofit.io import PickleWrappedFitter, \
        image_greyscale_crop_preprocess
    rng = c.rng
    name, spec = make(c, channels=1)
    fam, n = spec.family, spec.n_scales
    im = spec.tests[0]
    rgb = rng.rand() < .4
    if rgb:
        im = colour(rng, im)
        if fam == "DLIB":
            im.pixels = np.clip(im.pixels, 0, 1)
    elif rng.rand() < .3:
        m = MaskedImage(im.pixels.copy())
        m.landmarks["PTS"] = im.landmarks["PTS"]
        im = m
    gt = im.landmarks["PTS"]
    pre = ["none", "default", "tight", "halve", "shifted"][
        int(rng.choice(5, p=[.15, .25, .3, .15, .15]))]
    if rgb and pre in ("none", "halve", "shifted"):
        pre = "tight"
    prop = 1. if pre == "default" else float(rng.uniform(.1, .5))
    fn = {"none": None, "default": image_greyscale_crop_preprocess,
          "tight": functools.partial(image_greyscale_crop_preprocess,
                                     crop_proportion=prop),
          "halve": halve, "shifted": tagged}[pre]
    stored = [draw_kw(rng, fam, n), draw_kw(rng, fam, n)]
    f = spec.fitter
    before = copy.deepcopy(stored)
    lazy = functools.partial(PickleWrappedFitter, the, (f,), {}, stored[0],
                             stored[1], image_preprocess=fn)
    w = lazy()
    c.check(w.wrapped_fitter is f, "wrapper/fitter")
    for step in range(3):
        bb = fam == "DLIB" or rng.rand() < .5
        call = draw_kw(rng, fam, n) if rng.rand() < .5 else {}
        if rng.rand() < .5:
            call["gt_shape"] = gt
        x0 = gen.perturb(rng, gt, scale=.03, angle=.04, shift=1.5)
        x0 = x0.bounding_box() if bb else x0
        final = dict(stored[0 if bb else 1])
        final.update(call)
        c.seen(name, pre, bb, rgb, sorted(call), sorted(final))
        # what the fitter itself makes of the image it is to be given
        lin = None
        if pre == "none":
            image, there, back = im, (lambda p: p), (lambda p: p)
        elif pre in ("default", "tight"):
            image, off = grey_crop(im, x0.points, prop)
            there, back = (lambda p: p - off), (lambda p: p + off)
        else:
            image, t = fn(im, x0)
            h = t.h_matrix
            lin, tr = h[:2, :2], h[:2, 2]
            back = lambda p: p.dot(lin.T) + tr
            there = lambda p: np.linalg.solve(lin, (p - tr).T).T
        y0 = x0.copy()
        y0.points = there(x0.points)
        watch = [snap(v) for v in (im, x0, call, stored, image)]
        r0, want = run(f, bb, image, y0, final)
        r1, got = run(w, bb, im, x0, call)
        now = [snap(v) for v in (im, x0, call, stored, image)]
        for k, (a, b) in enumerate(zip(watch, now)):
            d = diff(a, b)
            c.check(d is None, "wrapper/changed/%s" % [
                "image", "shape", "options", "stored", "own"][k], d or "")
        mech = "wrapper/%s" % ("bb" if bb else "shape")
        if r0 is None or r1 is None:
            c.check(r0 is None and r1 is None, mech + "/error",
                    "%s %s: %s against %s" % (
                        name, pre, bytes(want[0]) if r0 is None else "fit",
                        bytes(got[0]) if r1 is None else "fit"))
            continue
        tol = 1e-6 * (1 if lin is None else 3) * max(
            1., np.abs(x0.points).max())
        want[0] = np.array([back(s) for s in want[0]]) \
            if r0.is_iterative else back(want[0])
        ok = len(got) == len(want) and all(
            a.shape == b.shape for a, b in zip(got, want))
        c.check(ok, mech + "/report", "%s %s %s" % (
            name, [a.shape for a in got], [a.shape for a in want]))
        if not ok:
            continue
        c.close(got[0], want[0], mech + "/shapes", atol=tol,
                msg="%s %s" % (name, pre))
        c.close(got[-1], want[-1], mech + "/n-iters", atol=0)
        for a, b in zip(got[1:-1], want[1:-1]):
            s = max(1e-9, np.abs(b).max()) if b.size else 1.
            c.close(a, b, mech + "/costs", atol=1e-4 * s, msg=name)
        c.close(r1.final_shape.points, got[0][-1] if r1.is_iterative else
                got[0], mech + "/final", atol=0)
        if r1.initial_shape is not None:
            c.close(r1.initial_shape.points, got[0][0], mech + "/initial",
                    atol=0)
            c.close(r1.initial_shape.points, back(r0.initial_shape.points),
                    mech + "/initial", atol=tol)
        c.check((r1.initial_shape is None) == (r0.initial_shape is None),
                mech + "/initial-none")
        if hasattr(r1, "reconstructed_initial_shapes"):
            a = [s.points for s in r1.reconstructed_initial_shapes]
            b = [back(s.points) for s in r0.reconstructed_initial_shapes]
            c.close(np.array(a), np.array(b), mech + "/reconstructed",
                    atol=tol)
        if "gt_shape" in call:
            c.close(r1.gt_shape.points, gt.points, mech + "/gt", atol=0)
            from menpofit.error import euclidean_bb_normalised_error as bbn
            c.close(r1.final_error(), bbn(
                r1.final_shape, gt), mech + "/error-value",
                rtol=1e-9)
        c.check(r1.image.pixels.shape == im.pixels.shape and np.array_equal(
            r1.image.pixels, im.pixels), mech + "/image")
        c.check(not np.shares_memory(r1.image.pixels, im.pixels),
                mech + "/image-shared")
        c.check(not any(np.shares_memory(s.points, x0.points) for s in (
            r1.shapes if r1.is_iterative else [r1.final_shape])),
            mech + "/shape-shared")
        _, again = run(w, bb, im, x0, call)
        c.check(all(np.array_equal(a, b, equal_nan=True)
                    for a, b in zip(again, got)), mech + "/repeat", name)
        c.event("wrapped fits compared")
        if pre != "none":
            c.event("mapped fits compared")
    c.check(diff(snap(before), snap(stored)) is None, "wrapper/stored")


LAZY = [n for n in zoo.NAMES if n.split("/")[0] in ("AAM", "ATM", "CLM",
                                                     "UNI", "LK", "DLIB",
                                                     "APS")]


def case_lazy(c):
    """A partial on disk builds the fitter described at every call."""
    import importlib
    from menpofit.io import PickleWrappedFitter
    rng = c.rng
    name, spec = make(c, LAZY, channels=1)
    fam, n = spec.family, spec.n_scales
    if spec.model is not None:
        args = (spec.model,)
        kwargs = fitter_options(spec)
        cls = type(spec.fitter)
        if fam in ("AAM", "ATM", "APS") and rng.rand() < .5:
            kwargs["sampling"] = [2] * n
        if fam != "LK" and rng.rand() < .5:
            kwargs["n_shape"] = [int(rng.randint(1, 3)) for _ in range(n)]
    elif fam == "LK":
        m = importlib.import_module("menpofit.lk")
        _, b, a = name.split("/")
        cls, args = m.LucasKanadeFitter, (spec.images[0],)
        kwargs = dict(group="PTS", algorithm_cls=getattr(m, b),
                      residual_cls=getattr(m, a), scales=spec.scales)
    else:
        m = importlib.import_module("menpofit.dlib")
        cls, args = m.DlibERT, (spec.images,)
        from menpofit.fitter import align_shape_with_bounding_box
        kwargs = dict(group="PTS", scales=spec.scales, n_trees=5,
                      n_iterations=2, n_tree_levels=2, n_pixel_pairs=30,
                      n_perturbations=1, perturb_from_gt_bounding_box=same)
    kw = [draw_kw(rng, fam, n), draw_kw(rng, fam, n)]
    lazy = functools.partial(PickleWrappedFitter, cls, args, kwargs, kw[0],
                             kw[1], image_preprocess=None)
    im = spec.tests[0]
    bb = fam == "DLIB" or rng.rand() < .5
    x0 = zoo.start(rng, spec, im)
    x0 = x0.bounding_box() if bb else x0
    with scratch() as d:
        how, path = write(rng, lazy, d)
        c.seen(name, how, sorted(kwargs), bb)
        held = snap([kwargs, kw, list(args)])
        direct = cls(*args, **kwargs)
        _, want = run(direct, bb, im, x0, kw[0 if bb else 1])
        l1, l2 = load(path), load(path)
        a = l1()
        got = run(a, bb, im, x0, {})[1]
        compare(c, "lazy/%s" % fam, got, want, name, bits=False)
        b = l1()
        c.check(a is not b and a.wrapped_fitter is not b.wrapped_fitter,
                "lazy/shared")
        compare(c, "lazy/second/%s" % fam, run(b, bb, im, x0, {})[1], got,
                name, bits=False)
        compare(c, "lazy/again/%s" % fam, run(a, bb, im, x0, {})[1], got,
                name)
        compare(c, "lazy/other/%s" % fam, run(l2(), bb, im, x0, {})[1], got,
                name, bits=False)
        compare(c, "lazy/own/%s" % fam, run(lazy(), bb, im, x0, {})[1], want,
                name, bits=False)
        d = diff(held, snap([kwargs, kw, list(args)]))
        c.check(d is None, "lazy/changed", d or "")
        # wrappers can be copied themselves
        how, path = write(rng, a, os.path.dirname(path))
        compare(c, "lazy/saved/%s" % fam, run(load(path), bb, im, x0, {})[1],
                got, name, bits=False)
        c.event("lazy fitters built", 4)


def same(shape, bb):
    """A perturbation that perturbs nothing."""
    from menpofit.fitter import align_shape_with_bounding_box
    return align_shape_with_bounding_box(shape, bb)


def case_preprocess(c):
    from menpofit.io import image_greyscale_crop_preprocess as fn
    rng = c.rng
    ch = int(rng.choice([1, 1, 2, 3, 3, 4]))
    shape = tuple(int(v) for v in rng.randint(20, 70, 2))
    dt = [np.float64, np.float32][rng.randint(2)]
    px = rng.rand(ch, *shape).astype(dt)
    im = Image(px)
    if rng.rand() < .3:
        im = MaskedImage(px, mask=rng.rand(*shape) < .8)
    pts = rng.uniform(-.2, 1.2, (rng.randint(2, 9), 2)) * np.array(shape)
    if rng.rand() < .5:
        pts = rng.uniform(.2, .8, (rng.randint(2, 9), 2)) * np.array(shape)
    k = float(rng.choice([0., .1, .37, 1., 2.5]))
    pc = PointCloud(pts)
    im.landmarks["PTS"] = PointCloud(pts + 1.)
    c.note(channels=ch, shape=shape, proportion=k)
    c.seen(ch, shape, k, dt.__name__, isinstance(im, MaskedImage))
    want, off = grey_crop(im, pts, k)
    if min(want.pixels.shape) < 1:
        raise Skip()
    w = [snap(im), snap(pc)]
    new, t = fn(im, pc) if k == 1. and rng.rand() < .5 else \
        fn(im, pc, crop_proportion=k)
    c.check(diff(w, [snap(im), snap(pc)]) is None, "preprocess/changed")
    c.check(new.pixels.shape == want.pixels.shape, "preprocess/shape",
            "%s instead of %s" % (new.pixels.shape, want.pixels.shape))
    c.close(new.pixels, want.pixels, "preprocess/pixels", atol=1e-6)
    c.check(type(new) is type(im), "preprocess/type")
    p = rng.uniform(0, 30, (5, 2))
    c.close(t.apply(p), p + off, "preprocess/transform", atol=1e-9)
    c.close(t.pseudoinverse().apply(p), p - off, "preprocess/inverse",
            atol=1e-9)
    c.close(new.landmarks["PTS"].points, pts + 1. - off,
            "preprocess/landmarks", atol=1e-9)
    c.check(not np.shares_memory(new.pixels, im.pixels), "preprocess/shared")
    c.event("preprocessed images")


# --- downloads --------------------------------------------------------------
class Server(object):
    """Answers the n-th request as the n-th plan says (the last repeats)."""

    def __init__(self, body, plans):
        self.body, self.plans = body, list(plans)
        self.requests, self.sent = [], []
        self.on_cut = None
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(16)
        self.url = "http://127.0.0.1:%d" % self.sock.getsockname()[1]
        self.lock = threading.Lock()
        self.thread = threading.Thread(target=self.loop)
        self.thread.daemon = True
        self.thread.start()

    def close(self):
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()

    def loop(self):
        while True:
            try:
                s, _ = self.sock.accept()
            except OSError:
                return
            t = threading.Thread(target=self.serve, args=(s,))
            t.daemon = True
            t.start()

    def serve(self, s):
        try:
            self.answer(s)
        except OSError:
            pass
        finally:
            s.close()

    def answer(self, s):
        req = b""
        while b"\r\n\r\n" not in req:
            d = s.recv(65536)
            if not d:
                return
            req += d
        path = req.split(b" ")[1].decode()
        with self.lock:
            n = len(self.requests)
            self.requests.append(path)
            p = self.plans[min(n, len(self.plans) - 1)]
        body = p.get("body", self.body)
        if p["kind"] == "status":
            s.sendall(("HTTP/1.1 %d No\r\nContent-Length: 4\r\nConnection: "
                       "close\r\n\r\nnone" % p["status"]).encode())
            return
        if p["kind"] == "redirect" and not path.endswith("?moved"):
            s.sendall(("HTTP/1.1 302 Found\r\nLocation: %s%s?moved\r\n"
                       "Content-Length: 0\r\nConnection: close\r\n\r\n" % (
                           self.url, path)).encode())
            return
        if p["kind"] == "silent":
            return
        head = "HTTP/1.1 200 OK\r\nConnection: close\r\n"
        if p["kind"] == "unannounced":
            head = "HTTP/1.0 200 OK\r\n"
        elif p["kind"] == "chunked":
            head += "Transfer-Encoding: chunked\r\n"
        else:
            head += "Content-Length: %d\r\n" % len(body)
        s.sendall((head + "\r\n").encode())
        end = len(body)
        if p["kind"] in ("truncate", "reset", "cut"):
            end = p["at"]
        step = p.get("step", 1 << 16)
        i = 0
        while i < end:
            d = body[i:min(i + step, end)]
            if p["kind"] == "chunked":
                s.sendall(b"%x\r\n" % len(d) + d + b"\r\n")
            else:
                s.sendall(d)
            i += len(d)
            if p.get("delay"):
                time.sleep(p["delay"])
        if p["kind"] == "chunked":
            s.sendall(b"0\r\n\r\n")
        if p["kind"] == "cut":          # something happens to the client here
            time.sleep(.03)
            if self.on_cut is not None:
                self.on_cut()
            time.sleep(p.get("hold", .05))
            if p.get("go_on"):
                s.sendall(body[end:])
        if p["kind"] == "reset":
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                         struct.pack("ii", 1, 0))


class Observer(threading.Thread):
    """Looks at the target over and over; every state must be allowed."""

    def __init__(self, path, allowed):
        threading.Thread.__init__(self)
        self.daemon = True
        self.path, self.allowed = path, allowed
        self.bad, self.n, self.states = None, 0, set()
        self.stop = threading.Event()

    def look(self):
        try:
            with open(self.path, "rb") as fh:
                d = fh.read()
        except FileNotFoundError:
            d = None
        self.n += 1
        if d not in self.allowed:
            self.bad = "%d bytes" % (-1 if d is None else len(d))
        else:
            self.states.add(self.allowed.index(d))

    def run(self):
        while not self.stop.is_set():
            self.look()
            time.sleep(.0005)

    def finish(self):
        self.stop.set()
        self.join()
        self.look()


@contextlib.contextmanager
def quiet():
    keep = {k: os.environ.pop(k) for k in list(os.environ)
            if k.lower().endswith("_proxy")}
    os.environ["no_proxy"] = "*"
    try:
        with contextlib.redirect_stdout(stdio.StringIO()):
            yield
    finally:
        del os.environ["no_proxy"]
        os.environ.update(keep)


def draw_body(rng):
    n = int(rng.choice([1, 100, 5000, 1 << 19, (1 << 19) + 1, 1200000,
                        3 << 19]))
    return rng.bytes(n)


def offset(rng, n):
    return int(rng.choice([0, 1, n // 2, n - 1, rng.randint(0, n)])) \
        if n > 1 else 0


def case_download(c):
    """download_file under faults of the server and of the client."""
    from menpofit.io import download_file
    rng = c.rng
    body = draw_body(rng)
    n = len(body)
    kind = ["plain", "slow", "chunked", "unannounced", "redirect", "truncate",
            "reset", "status", "silent", "interrupt", "kill", "space",
            "stops"][(c.index + c.seed) % 13]
    verbose = bool(rng.rand() < .6)
    plan = dict(kind=kind)
    if kind in ("plain", "slow", "space"):
        plan = dict(kind="plain", step=max(1, n // 7),
                    delay=.004 if kind == "slow" else 0)
    elif kind in ("truncate", "reset"):
        plan.update(at=offset(rng, n))
    elif kind == "status":
        plan.update(status=int(rng.choice([403, 404, 500, 503])))
    elif kind in ("interrupt", "kill", "stops"):
        plan = dict(kind="cut", at=offset(rng, n), go_on=kind == "stops",
                    hold=.08)
    old = [None, b"", b"old contents"][rng.randint(3)]
    c.note(kind=kind, n=n, verbose=verbose, old=old, at=plan.get("at"))
    c.seen(kind, n, verbose, old, plan.get("at"))
    good = kind in ("plain", "slow", "chunked", "unannounced", "redirect",
                    "stops")
    mech = "download/%s" % kind
    with scratch() as d:
        path = os.path.join(d, "target.pkl")
        if old is not None:
            with open(path, "wb") as fh:
                fh.write(old)
        s = Server(body, [plan, dict(kind="plain")])
        # from the outset the target holds what it held, or everything
        o = Observer(path, [old, body])
        o.start()
        try:
            if kind in ("interrupt", "kill", "space"):
                got = client(s, path, kind, verbose, rng, n)
            else:
                try:
                    with quiet():
                        download_file(s.url + "/f.pkl", path if
                                      rng.rand() < .5 else pathlike(path),
                                      verbose=verbose)
                    got = "done"
                except Exception as e:
                    got = type(e).__name__
            o.finish()
            c.check(o.bad is None, mech + "/partial", "target of %d bytes "
                    "seen holding %s (outcome %s)" % (n, o.bad, got))
            c.event("target states observed", o.n)
            c.event("downloads")
            with_old = open(path, "rb").read() if os.path.exists(path) \
                else None
            if got == "done":
                c.check(good or kind == "space", mech + "/silent",
                        "a failed download returned")
                c.check(with_old == body, mech + "/contents",
                        "%s bytes of %d" % (with_old and len(with_old), n))
            else:
                c.check(not good, mech + "/failed", got)
                c.event("failed downloads")
            left = sorted(os.listdir(d))
            if got != "killed":
                c.check(set(left) <= {"target.pkl"}, mech + "/left", str(left))
            # whatever happened, the next attempt succeeds
            if not good:
                with quiet():
                    download_file(s.url + "/f.pkl", path, verbose=verbose)
                c.check(open(path, "rb").read() == body, mech + "/retry")
                c.event("retries")
        finally:
            o.stop.set()
            s.close()


def pathlike(p):
    from pathlib import Path
    return Path(p)


def client(s, path, kind, verbose, rng, n):
    """download_file in a child something happens to."""
    from menpofit.io import download_file
    limit = offset(rng, n)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = b"done"
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            if kind == "space":
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            with quiet():
                download_file(s.url + "/f.pkl", path, verbose=verbose)
        except BaseException as e:
            out = type(e).__name__.encode()
        finally:
            try:
                os.write(w, out)
            finally:
                os._exit(0)
    os.close(w)
    sig = signal.SIGINT if kind == "interrupt" else signal.SIGKILL
    if kind != "space":
        s.on_cut = lambda: os.kill(pid, sig)
    with os.fdopen(r, "rb") as fh:
        out = fh.read()
    _, status = os.waitpid(pid, 0)
    s.on_cut = None
    if os.WIFSIGNALED(status):
        return "killed"
    return out.decode() or "killed"


class Loaded(object):
    """What the stored partials of the load cases build."""

    def __init__(self, tag, data=b"", fail=False):
        if fail:
            raise RuntimeError("cannot be built")
        self.tag, self.data = tag, data


@contextlib.contextmanager
def served(s, d):
    """menpofit looks for its fitters on the server and in the scratch."""
    import menpofit.io as mio
    from pathlib import Path
    keep = mio.MENPO_URL, mio.menpofit_src_dir_path
    mio.MENPO_URL, mio.menpofit_src_dir_path = s.url, lambda: Path(d)
    try:
        yield mio
    finally:
        mio.MENPO_URL, mio.menpofit_src_dir_path = keep


def case_load(c):
    """load_fitter through sequences of faults."""
    rng = c.rng
    tag = int(rng.randint(1 << 30))
    big = rng.bytes(int(rng.choice([10, 4000, 700000])))
    body = pickle.dumps(functools.partial(Loaded, tag, data=big),
                        protocol=int(rng.randint(2, 5)))
    n = len(body)
    plans, kinds = [], []
    for _ in range(int(rng.randint(1, 5))):
        k = ["truncate", "reset", "status", "empty", "garbage", "short",
             "object", "failing", "missing"][rng.randint(9)]
        kinds.append(k)
        p = dict(kind="plain")
        if k in ("truncate", "reset"):
            p = dict(kind=k, at=offset(rng, n))
        elif k == "status":
            p = dict(kind="status", status=int(rng.choice([404, 500])))
        elif k == "empty":
            p["body"] = b""
        elif k == "garbage":
            p["body"] = b"\x80\x04" + rng.bytes(200)
        elif k == "short":
            p["body"] = body[:offset(rng, n)]
        elif k == "object":
            p["body"] = pickle.dumps({"not": "callable"})
        elif k == "failing":
            p["body"] = pickle.dumps(functools.partial(Loaded, 0, fail=True))
        elif k == "missing":
            p["body"] = b"cno_such_module\nThing\n."
        plans.append(p)
    m = len(plans)
    plans.append(dict(kind=["plain", "chunked", "unannounced", "redirect"][
        rng.randint(4)]))
    plans.append(dict(kind="status", status=404))
    if plans[m]["kind"] == "redirect":
        plans.insert(m + 1, dict(kind="plain"))
    pretrained = rng.rand() < .3
    name = "balanced_frontal_face_aam" if pretrained else \
        "fitter_%d" % rng.randint(1000)
    c.note(kinds=kinds, n=n, last=plans[m]["kind"], name=name)
    c.seen(*kinds)
    with scratch() as d:
        s = Server(body, plans)
        try:
            with served(s, d) as mio, quiet():
                path = mio.path_of_fitter(name)
                o = None
                for k in range(m):
                    try:
                        mio.load_fitter(name)
                        got = None
                    except Exception as e:
                        got = e
                    c.check(got is not None, "load/%s/accepted" % kinds[k],
                            "%d" % n)
                    c.check(not path.exists(), "load/%s/kept" % kinds[k],
                            "after %r" % got)
                    c.check(len(s.requests) == k + 1,
                            "load/%s/requests" % kinds[k],
                            "%d attempts, %d requests" % (k + 1,
                                                          len(s.requests)))
                    left = os.listdir(str(mio.menpofit_data_dir_path()))
                    c.check(left == [], "load/%s/left" % kinds[k], str(left))
                    c.event("rejected loads")
                if pretrained:
                    from menpofit.aam.pretrained import \
                        load_balanced_frontal_face_fitter
                    f = load_balanced_frontal_face_fitter()
                else:
                    f = mio.load_fitter(name)
                c.check(isinstance(f, Loaded) and f.tag == tag and
                        f.data == big, "load/value")
                seen = len(s.requests)
                g = mio.load_fitter(name)
                c.check(len(s.requests) == seen, "load/cached/requests")
                c.check(g is not f and g.tag == tag, "load/cached/value")
                c.check(path.read_bytes() == body, "load/cached/file")
                base = "/menpofit/%s_v%d_py%d.pkl" % (
                    name, mio.MENPOFIT_BINARY_VERSION, sys.version_info[0])
                c.check(all(r.split("?")[0] == base for r in s.requests),
                        "load/url", str(s.requests))
                c.check(mio.url_of_fitter(name) == s.url + base, "load/url",
                        mio.url_of_fitter(name))
                c.check(str(path) == os.path.join(d, "data", os.path.basename(
                    base)), "load/path", str(path))
                # a file that was damaged since
                path.write_bytes(body[:offset(rng, n)])
                s.plans = [dict(kind="plain")]
                try:
                    mio.load_fitter(name)
                    c.violate("load/damaged/accepted", "")
                except Exception:
                    pass
                c.check(not path.exists(), "load/damaged/kept")
                h = mio.load_fitter(name)
                c.check(h.tag == tag and path.read_bytes() == body,
                        "load/damaged/retry")
                c.event("loads", 3)
        finally:
            s.close()


def case_race(c):
    """Several processes load a fitter nobody has downloaded yet."""
    rng = c.rng
    tag = int(rng.randint(1 << 30))
    body = pickle.dumps(functools.partial(Loaded, tag, rng.bytes(
        int(rng.choice([3000, 300000, 1200000])))))
    k = int(rng.randint(2, 6))
    plans = []
    for _ in range(k):
        plans.append(dict(kind="plain", step=max(1, len(body) // 12),
                          delay=float(rng.choice([.001, .004, .01]))))
    dying = rng.rand() < .4
    c.note(k=k, dying=dying, n=len(body))
    c.seen(k, dying, len(body))
    with scratch() as d:
        s = Server(body, plans)
        try:
            with served(s, d) as mio:
                path = mio.path_of_fitter("x")
                o = Observer(str(path), [None, body])
                o.start()
                ps = []
                starts = rng.uniform(0, .06, k)
                for i in range(k):
                    r, w = os.pipe()
                    pid = os.fork()
                    if pid == 0:
                        out = b""
                        try:
                            os.close(r)
                            time.sleep(starts[i])
                            with quiet():
                                f = mio.load_fitter("x")
                            out = str(f.tag).encode()
                        except BaseException as e:
                            out = repr(e).encode()
                        finally:
                            try:
                                os.write(w, out)
                            finally:
                                os._exit(0)
                    os.close(w)
                    ps.append((pid, r))
                if dying:
                    time.sleep(float(rng.uniform(.01, .08)))
                    os.kill(ps[0][0], signal.SIGKILL)
                for i, (pid, r) in enumerate(ps):
                    with os.fdopen(r, "rb") as fh:
                        out = fh.read().decode()
                    os.waitpid(pid, 0)
                    if dying and i == 0 and not out:
                        continue
                    c.check(out == str(tag), "race/load", "one of %d "
                            "concurrent loads: %s" % (k, out[:100]))
                    c.event("concurrent loads")
                o.finish()
                c.check(o.bad is None, "race/partial", str(o.bad))
                c.event("target states observed", o.n)
                with quiet():
                    c.check(mio.load_fitter("x").tag == tag, "race/after")
                c.check(path.read_bytes() == body, "race/file")
        finally:
            s.close()


def case_stream(c):
    """copy_and_yield moves every byte, in order, in pieces."""
    from menpofit.io import copy_and_yield
    rng = c.rng
    data = rng.bytes(int(rng.randint(0, 5000)))
    length = int(rng.choice([1, 7, 512, 5000, 10000]))
    src, dst = stdio.BytesIO(data), stdio.BytesIO()
    k, seen = 0, 0
    for _ in copy_and_yield(src, dst, length=length):
        k += 1
        c.check(dst.tell() == min(k * length, len(data)), "stream/piece")
        seen = dst.tell()
    c.check(dst.getvalue() == data, "stream/bytes")
    c.check(k == -(-len(data) // length), "stream/pieces", "%d" % k)
    c.seen(len(data), length)
    c.event("streams")


CASES = {"copies": (case_copies, 277, 6000), "fresh": (case_fresh, 18, 300),
         "wrapper": (case_wrapper, 277, 6000), "lazy": (case_lazy, 138, 3000),
         "preprocess": (case_preprocess, 231, 5000),
         "download": (case_download, 200, 4000), "load": (case_load, 92, 2000),
         "race": (case_race, 25, 600), "stream": (case_stream, 46, 400)}
REQUIRED = {"copies replayed": 40, "models replayed": 15,
            "wrapped fits compared": 100, "mapped fits compared": 80,
            "lazy fitters built": 80, "downloads": 60, "failed downloads": 30,
            "rejected loads": 40, "concurrent loads": 25,
            "target states observed": 100, "preprocessed images": 30,
            "fresh interpreters": 4, "results stored": 30}
