"""M19: options are expanded per scale or rejected."""
import copy
from functools import partial

import numpy as np

from menpo.feature import no_op
from menpo.shape import PointCloud, UndirectedGraph, DirectedGraph, Tree

from . import gen, zoo
from .m06_multiscale import aps_graph
from .core import Skip, collapsed

ID = "M19"
RULE = ("helpers of menpofit.checks driven with random valid and invalid "
        "values against an executable specification; every per-scale option "
        "of every model and fitter given singly, as one-entry and per-scale "
        "lists and tuples and compared scale by scale with models built with "
        "that value alone; wrong lengths, types and ranges at construction; "
        "distinct when class, option, form and values differ")
ASSUMPTIONS = ["iteration budgets given once are the total over the scales "
               "(rounded share), as documented",
               "any exception counts as a rejection"]

GROUP = "PTS"


# --------------------------------------------------------------------------
# helpers
# --------------------------------------------------------------------------
def singular(fn):
    def case(c):
        try:
            fn(c)
        except np.linalg.LinAlgError:
            raise Skip()
    return case


def f_double(x):
    return x


def _ints(rng, n):
    return [int(v) for v in rng.randint(1, 30, n)]


def _odd(rng, lo=3, hi=16):
    return int(rng.randint(lo, hi)) * 2 + 1


def forms(values):
    """The ways of giving one value per scale."""
    return [list(values), tuple(values)]


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    try:
        return bool(a == b) and type(a) is type(b)
    except Exception:
        return False


def observe(c, name, fn, arg, want, caller=None, exact=True):
    """fn(arg) must return one entry per scale equal to want, leave arg alone
    and return a container of its own."""
    before = copy.copy(arg) if isinstance(arg, (list, tuple)) else arg
    got = fn(arg)
    c.check(isinstance(got, (list, np.ndarray)), "helper/%s/container" % name,
            type(got).__name__)
    ok = len(got) == len(want) and all(same(x, y) for x, y in zip(got, want))
    if not exact:
        ok = len(got) == len(want) and np.array_equal(got, want)
    c.check(ok, "helper/%s/expansion" % name,
            "%r gives %r, expected %r" % (arg, got, want))
    if isinstance(arg, (list, tuple)):
        c.check(same(arg, before), "helper/%s/argument-changed" % name,
                repr(arg))
    if isinstance(arg, list):
        arg.append("later")
        c.check(len(got) == len(want), "helper/%s/aliased" % name,
                "a later change of the caller's list reaches the result")
        arg.pop()
    c.event("expansions")
    return got


def reject(c, name, fn, arg):
    c.raises(Exception, lambda: fn(arg), "helper/%s/accepted" % name,
             "%r" % (arg,))
    c.event("rejections")


def expandable(c, name, fn, draw, bad, n, single=True):
    """The generic rule: single, one-entry, per-scale, wrong length, wrong
    type."""
    v = draw()
    if single:
        observe(c, name, fn, v, [v] * n)
    for t in (list, tuple):
        observe(c, name, fn, t([v]), [v] * n)
        vs = [draw() for _ in range(n)]
        observe(c, name, fn, t(vs), vs)
        for m in {n - 1, n + 1, n + 2, 0} - {1, n}:
            if m >= 0:
                reject(c, name, fn, t([draw() for _ in range(m)]))
        for b in bad:
            w = list(vs)
            w[c.rng.randint(n)] = b
            reject(c, name, fn, t(w))
    for b in bad:
        if single:
            reject(c, name, fn, b)


def case_helpers(c):
    from menpofit import checks as K
    rng = c.rng
    n = int(rng.randint(1, 6))
    which = c.index % 9
    c.note(helper=which, n=n)
    c.seen("helpers", which, n, int(rng.randint(1 << 30)))
    if which == 0:
        def draw():
            return [int(rng.randint(1, 5)), float(rng.uniform(.1, 2))][
                rng.randint(2)]
        v = draw()
        observe(c, "scales", K.check_scales, v, [v])
        for t in (list, tuple):
            vs = [draw() for _ in range(n)]
            observe(c, "scales", K.check_scales, t(vs), vs)
            for b in ("0.5", None, [.5], object()):
                w = list(vs)
                w[rng.randint(n)] = b
                if isinstance(b, list):
                    continue
                reject(c, "scales", K.check_scales, t(w))
        for b in ("ab", None, [], (), "", object()):
            reject(c, "scales", K.check_scales, b)
        for d in (None, 20, 20., float(rng.uniform(20, 1000)),
                  int(rng.randint(20, 400))):
            c.check(K.check_diagonal(d) is d, "helper/diagonal/value")
        for d in (0, -5, 19, 19.999, float(rng.uniform(-20, 20)), "a"):
            reject(c, "diagonal", K.check_diagonal, d)
    elif which == 1:
        def mk():
            k = int(rng.randint(100))
            return [partial(max, k), (lambda x, k=k: x), f_double, no_op][
                rng.randint(4)]
        expandable(c, "callable", lambda v: K.check_callable(v, n), mk,
                   [3, None, "a", .5], n)
    elif which == 2:
        fn = lambda v: K.check_patch_shape(v, n)
        one = lambda: (int(rng.randint(1, 40)), int(rng.randint(1, 40)))
        for t in (list, tuple):
            for u in (list, tuple):
                v = one()
                observe(c, "patch_shape", fn, t(v), [v] * n)
                observe(c, "patch_shape", fn, t([u(v)]), [v] * n)
                vs = [one() for _ in range(n)]
                observe(c, "patch_shape", fn, t([u(x) for x in vs]), vs)
                for m in {n - 1, n + 1, n + 2, 0} - {1, n}:
                    if m >= 0:
                        reject(c, "patch_shape", fn,
                               t([u(one()) for _ in range(m)]))
                for b in ((3,), (3, 4, 5), 7, None, ("a", "b"), (3, .5), ()):
                    w = [u(x) for x in vs]
                    w[rng.randint(n)] = b
                    if n == 1 and b == (3,):
                        pass
                    reject(c, "patch_shape", fn, t(w))
        for b in (7, None, 3.5, "ab", (3, .5), (3.5, 3.5), (3, None), []):
            reject(c, "patch_shape", fn, b)
    elif which == 3:
        def draw():
            return [None, int(rng.randint(1, 50)), float(rng.uniform(0, 1)),
                    1., 1][rng.randint(5)]
        bad = [0, -3, -.1, 1.01, "a", 2.5]
        name = ["max_shape_components", "n_appearance_components"][
            rng.randint(2)]
        expandable(c, "max_components",
                   lambda v: K.check_max_components(v, n, name), draw, bad, n)
    elif which == 4:
        fn = lambda v: K.check_max_iters(v, n)
        for _ in range(3):
            v = int(rng.randint(0, 60))
            w = [int(np.round(v / float(n)))] * n
            observe(c, "max_iters", fn, v, w, exact=False)
            if n > 1:
                observe(c, "max_iters", fn, [v], w, exact=False)
            vs = [int(x) for x in rng.randint(0, 40, n)]
            got = observe(c, "max_iters", fn, list(vs), vs, exact=False)
            c.check(np.asarray(got).dtype.kind == "i",
                    "helper/max_iters/dtype")
            observe(c, "max_iters", fn, tuple(vs), vs, exact=False)
        for m in {n - 1, n + 1, n + 2, 0} - {1, n}:
            reject(c, "max_iters", fn, [3] * max(m, 0))
        for b in (None, "a", 2.5, [None] * n, ["a"] * n):
            reject(c, "max_iters", fn, b)
    elif which == 5:
        def draw():
            return [None, int(rng.randint(1, 9)),
                    np.nonzero(rng.rand(20) < .5)[0],
                    rng.rand(12) < .5][rng.randint(4)]
        expandable(c, "sampling", lambda v: K.check_sampling(v, n), draw,
                   ["ab", .5, {}], n)
    elif which == 6:
        types = [(int,), (float,), (float, int)][rng.randint(3)]

        def draw():
            t = types[rng.randint(len(types))]
            return int(rng.randint(1, 90)) if t is int else float(rng.rand())
        bad = ["a", None]
        if types == (int,):
            bad += [.5]
        if types == (float,):
            bad += [5]
        expandable(c, "multi_scale_param",
                   lambda v: K.check_multi_scale_param(n, types, "p", v),
                   draw, bad, n)
    elif which == 7:
        class A(object):
            pass

        class B(A):
            pass

        class C_(B):
            pass

        class Z(object):
            pass

        def draw():
            return [A, B, C_, partial(B, 3), partial(C_)][rng.randint(5)]
        expandable(c, "algorithm_cls",
                   lambda v: K.check_algorithm_cls(v, n, A), draw,
                   [Z, 3, None, partial(Z)], n)
        c.raises(ValueError, lambda: K.check_model(Z(), A), "helper/model")
        K.check_model(C_(), A)
    else:
        def draw(k=None):
            e = np.array([[0, 1], [1, 2], [2, 3]])
            k = rng.randint(3) if k is None else k
            if k == 0:
                return UndirectedGraph.init_from_edges(e, 4)
            if k == 1:
                return DirectedGraph.init_from_edges(e, 4)
            if k == 2:
                return Tree.init_from_edges(e, 4, 0)
        fn = lambda v: K.check_graph(v, [DirectedGraph, Tree], "g", n)
        v = draw(1)
        observe(c, "graph", fn, v, [v] * n)
        observe(c, "graph", fn, None, [None] * n)
        observe(c, "graph", fn, [v], [v] * n)
        vs = [[draw(1), draw(2), None][rng.randint(3)] for _ in range(n)]
        observe(c, "graph", fn, list(vs), vs)
        w = list(vs)
        w[rng.randint(n)] = draw(0)
        reject(c, "graph", fn, w)
        reject(c, "graph", fn, draw(0))
        for m in {n - 1, n + 1, n + 2, 0} - {1, n}:
            reject(c, "graph", fn, [v] * max(m, 0))
        u = draw(0)
        observe(c, "graph", lambda x: K.check_graph(x, UndirectedGraph, "g", n),
                u, [u] * n)


# --------------------------------------------------------------------------
# what a trained model looks like at one scale
# --------------------------------------------------------------------------
def vec(x):
    if hasattr(x, "as_vector"):
        return x.as_vector()
    return np.asarray(x, dtype=float).ravel()


def sig(m, j):
    s = {}
    if getattr(m, "shape_models", None):
        sm = m.shape_models[j]
        s["shape class"] = type(sm).__name__
        s["shape n"] = sm.n_active_components
        inner = sm.model
        s["shape mean"] = vec(inner.mean())
        s["shape eigenvalues"] = np.asarray(inner.eigenvalues)
    if getattr(m, "appearance_models", None):
        am = m.appearance_models[j]
        s["appearance mean"] = vec(am.mean())
        if hasattr(am, "eigenvalues"):
            s["appearance n"] = am.n_active_components
            s["appearance eigenvalues"] = np.asarray(am.eigenvalues)
        if hasattr(am, "precision"):
            p = am.precision
            s["precision"] = np.asarray(p.todense() if hasattr(p, "todense")
                                        else p)
    if getattr(m, "deformation_models", None):
        p = m.deformation_models[j].precision
        s["deformation"] = np.asarray(p.todense() if hasattr(p, "todense")
                                      else p)
    if getattr(m, "warped_templates", None):
        t = m.warped_templates[j]
        s["template"] = t.pixels.copy()
    if getattr(m, "templates", None):
        s["template"] = m.templates[j].pixels.copy()
        s["source"] = m.sources[j].points.copy()
    if getattr(m, "expert_ensembles", None):
        e = m.expert_ensembles[j]
        s["expert class"] = type(e).__name__
        s["expert patch"] = tuple(e.patch_shape)
        s["expert context"] = tuple(e.context_shape)
        s["expert filters"] = np.array([np.abs(f.pixels)
                                        for f in e.frequency_filter_images])
    return s


def compare(c, mech, a, b, msg):
    ok = c.check(sorted(a) == sorted(b), mech, "%s: fields" % msg)
    for k in a:
        if k in b:
            if isinstance(a[k], np.ndarray):
                ok &= c.close(a[k], b[k], mech, "%s: %s" % (msg, k),
                              rtol=1e-7, atol=1e-10)
            else:
                ok &= c.check(a[k] == b[k], mech,
                              "%s: %s %r != %r" % (msg, k, a[k], b[k]))
    c.event("scales compared")
    return ok


# --------------------------------------------------------------------------
# constructors of models
# --------------------------------------------------------------------------
def feat(name):
    def plus(x):
        y = x.copy()
        y.pixels = y.pixels * 2 + 1
        return y

    def square(x):
        y = x.copy()
        y.pixels = y.pixels ** 2
        return y

    def two(x):
        y = x.copy()
        y.pixels = np.concatenate([y.pixels, y.pixels ** 2])
        return y
    return {"no_op": no_op, "plus": plus, "square": square, "two": two}[name]


FEATS = {k: feat(k) for k in ("no_op", "plus", "square", "two")}


def p_norm(x):
    return x * 2. + .25


def p_norm2(x):
    return (x - x.mean()) * .5


def options(name):
    """Per-scale options of each constructor."""
    o = {"holistic_features": "feature"}
    if name in ("HolisticAAM", "MaskedAAM", "LinearAAM", "LinearMaskedAAM",
                "PatchAAM"):
        o.update(max_shape_components="comp", max_appearance_components="comp")
        if name in ("MaskedAAM", "LinearMaskedAAM", "PatchAAM"):
            o["patch_shape"] = "patch"
        if name == "PatchAAM":
            o["patch_normalisation"] = "norm"
        o["shape_model_cls"] = "shapecls"
    elif name.endswith("ATM"):
        o["max_shape_components"] = "comp"
        if name in ("MaskedATM", "LinearMaskedATM", "PatchATM"):
            o["patch_shape"] = "patch"
        if name == "HolisticATM":
            o["shape_model_cls"] = "shapecls"
    elif name == "CLM":
        o.update(max_shape_components="comp", patch_shape="patch",
                 context_shape="context", expert_ensemble_cls="expert",
                 shape_model_cls="shapecls")
    elif name == "UnifiedAAMCLM":
        o.update(max_shape_components="comp", max_appearance_components="comp",
                 patch_shape="patch", context_shape="context",
                 expert_ensemble_cls="expert", shape_model_cls="shapecls")
    elif name == "GenerativeAPS":
        o.update(max_shape_components="comp", n_appearance_components="count",
                 patch_shape="patch", patch_normalisation="norm",
                 appearance_graph="agraph", shape_graph="sgraph",
                 deformation_graph="dgraph")
    return o


def draw_value(rng, kind, n_points):
    if kind == "feature":
        return FEATS[["no_op", "plus", "square", "two"][rng.randint(4)]]
    if kind == "comp":
        return [1, 2, 3, float(rng.uniform(.3, .95)), None][rng.randint(5)]
    if kind == "count":
        return [1, 2, 3, None][rng.randint(4)]
    if kind == "patch":
        return [(5, 7), (7, 5), (9, 9), (5, 5), (7, 11)][rng.randint(5)]
    if kind == "context":
        return [(13, 15), (17, 17), (15, 19), (19, 13)][rng.randint(4)]
    if kind == "norm":
        return [no_op, p_norm, p_norm2][rng.randint(3)]
    if kind == "shapecls":
        from menpofit.modelinstance import OrthoPDM

        class OrthoPDM2(OrthoPDM):
            pass
        return [OrthoPDM, OrthoPDM2, partial(OrthoPDM, max_n_components=1)][
            rng.randint(2)]
    if kind == "expert":
        from menpofit.clm import CorrelationFilterExpertEnsemble as E
        return [E, partial(E, response_covariance=2.),
                partial(E, cosine_mask=False)][rng.randint(2)]
    e = rng.randint(n_points, size=(40, 2))
    e = np.unique(np.sort(e[e[:, 0] != e[:, 1]], axis=1), axis=0)
    k = int(rng.randint(3, 8))
    if kind == "agraph":
        return UndirectedGraph.init_from_edges(
            e[rng.permutation(len(e))[:k]], n_points)
    if kind == "sgraph":
        if rng.rand() < .5:
            return None
        chain = np.array([[i, i + 1] for i in range(n_points - 1)])
        ring = np.vstack([chain, [[0, n_points - 1]]])
        return UndirectedGraph.init_from_edges([chain, ring][rng.randint(2)],
                                               n_points)
    if kind == "dgraph":
        if rng.rand() < .3:
            return None
        root = int(rng.randint(n_points))
        order = [root] + [i for i in rng.permutation(n_points) if i != root]
        ed = np.array([[order[rng.randint(i)], order[i]]
                       for i in range(1, n_points)])
        try:
            return Tree.init_from_edges(ed, n_points, root)
        except ValueError:        # menpo does not like every tree
            return draw_value(rng, kind, n_points)
    raise ValueError(kind)


def invalid(rng, kind, good, n):
    """Values that must be rejected."""
    out = [[good] * (n + 1), [good] * (n + 2), []]
    if n > 2:
        out.append([good] * (n - 1))
    wrong = {"feature": [3, "abc", None], "comp": [0, -2, 1.5, -.2, "a"],
             "count": [0, -2, 1.5, "a"],
             "patch": [7, None, 3.5, (3, 4, 5), (3, .5)],
             "context": [7, None, (3, .5)], "norm": [3, None],
             "shapecls": [3, None], "expert": [3, None],
             "agraph": [3, "a"], "sgraph": [3, "a"], "dgraph": [3, "a"]}[kind]
    for w in wrong:
        out.append(w)
        x = [good] * n
        x[rng.randint(n)] = w
        out.append(x)
    return out


MODELS = ["HolisticAAM", "MaskedAAM", "LinearAAM", "LinearMaskedAAM",
          "PatchAAM", "HolisticATM", "MaskedATM", "LinearATM",
          "LinearMaskedATM", "PatchATM", "CLM", "UnifiedAAMCLM",
          "GenerativeAPS"]


def world(rng, n_train=5, n_points=7):
    fam, tex, ims = gen.dataset(rng, n_train, n_points, (76, 70), channels=1,
                                h=42., w=36.)
    return ims


def make_model(name, ims, scales, **kw):
    import menpofit.aam as a
    import menpofit.atm as t
    import menpofit.clm as cl
    import menpofit.aps as p
    import menpofit.unified_aam_clm as u
    d = dict(group=GROUP, scales=scales, diagonal=40)
    n_points = ims[0].landmarks[GROUP].n_points
    if name.endswith("AAM"):
        if name in ("MaskedAAM", "LinearMaskedAAM", "PatchAAM"):
            d["patch_shape"] = (7, 7)
        d.update(kw)
        return getattr(a, name)(ims, **d)
    if name.endswith("ATM"):
        if name in ("MaskedATM", "LinearMaskedATM", "PatchATM"):
            d["patch_shape"] = (7, 7)
        d.update(kw)
        return getattr(t, name)(ims[0], [i.landmarks[GROUP] for i in ims], **d)
    if name == "CLM":
        d.update(patch_shape=(7, 7), context_shape=(15, 15))
        d.update(kw)
        return cl.CLM(ims, **d)
    if name == "UnifiedAAMCLM":
        d.update(patch_shape=(7, 7), context_shape=(15, 15))
        d.update(kw)
        return u.UnifiedAAMCLM(ims, **d)
    if name == "GenerativeAPS":
        chain = np.array([[i, i + 1] for i in range(n_points - 1)])
        d.update(patch_shape=(5, 5), appearance_graph=UndirectedGraph.
                 init_from_edges(chain, n_points))
        d.update(kw)
        return p.GenerativeAPS(ims, **d)
    raise ValueError(name)


def as_reported(model, opt):
    v = getattr(model, opt, None)
    if v is None:
        v = getattr(model, "_" + opt, None)
    return v


@singular
def case_model(c):
    rng = c.rng
    name = MODELS[c.index % len(MODELS)]
    opts = sorted(options(name).items())
    opt, kind = opts[(c.index // len(MODELS)) % len(opts)]
    n = int(rng.choice([2, 2, 3]))
    scales = [(.6, 1.), (.5, .8), (.4, .7, 1.)][n - 2 if n == 3 else
                                               rng.randint(2)]
    if n == 3:
        scales = (.5, .7, 1.)
    ims = world(rng)
    npts = 7
    vs = [draw_value(rng, kind, npts) for _ in range(n)]
    if kind in ("agraph", "dgraph", "sgraph") or rng.rand() < .9:
        for _ in range(5):
            if same(vs[0], vs[-1]):
                vs[-1] = draw_value(rng, kind, npts)
    c.note(model=name, option=opt, values=[str(v)[:40] for v in vs],
           scales=scales)
    c.seen(name, opt, *[str(v)[:60] for v in vs])
    given = list(vs) if rng.rand() < .6 or kind.endswith("graph") else tuple(vs)
    m = make_model(name, ims, scales, **{opt: given})
    mech = "model/%s" % opt
    c.check(same(list(given), list(vs)), mech + "/argument-changed")
    rep = as_reported(m, opt)
    if rep is not None and None not in vs:
        c.check(same(list(rep), list(vs)), mech + "/reported",
                "%s reports %r for %r" % (name, rep, vs))
    if isinstance(given, list):
        del given[:]
        c.check(rep is None or len(rep) == n, mech + "/aliased",
                "later changes of the caller's list reach the model")
    c.check(m.n_scales == n and same(list(m.scales), list(scales)),
            "model/scales/reported", str(m.scales))
    ref = {}
    for j in range(n):
        key = [i for i in range(n) if same(vs[i], vs[j])][0]
        if key not in ref:
            v = vs[key]
            if kind.endswith("graph"):
                single = [v, [v]][rng.randint(2)]
            else:
                single = [v, [v], (v,), [v] * n][rng.randint(4)]
            ref[key] = make_model(name, ims, scales, **{opt: single})
            c.event("single values")
        compare(c, mech + "/per-scale", sig(m, j), sig(ref[key], j),
                "%s %s=%s at scale %d of %s" % (name, opt, vs[j], j, vs))
    c.check(isinstance(str(m), str) and len(str(m)) > 20, "model/str")
    c.event("model options")


def case_model_reject(c):
    rng = c.rng
    name = MODELS[c.index % len(MODELS)]
    opts = sorted(options(name).items())
    opt, kind = opts[(c.index // len(MODELS)) % len(opts)]
    ims = world(rng, 3)
    n = int(rng.choice([2, 3]))
    scales = (.6, 1.) if n == 2 else (.4, .7, 1.)
    good = draw_value(rng, kind, 7)
    while good is None:
        good = draw_value(rng, kind, 7)
    c.note(model=name, option=opt)
    bads = invalid(rng, kind, good, n)
    for b in bads:
        c.seen("reject", name, opt, str(b)[:80])
        c.raises(Exception, lambda: make_model(name, ims, scales, **{opt: b}),
                 "model/%s/accepted" % opt, "%s(%s=%s), %d scales" % (
                     name, opt, str(b)[:60], n))
        c.event("rejections")
    for k, b in (("diagonal", 10), ("diagonal", -40), ("scales", []),
                 ("scales", ["a", "b"]), ("scales", "ab"), ("scales", None)):
        c.raises(Exception, lambda: make_model(
            name, ims, b if k == "scales" else scales,
            **({} if k == "scales" else {k: b})),
            "model/%s/accepted" % k, "%s(%s=%s)" % (name, k, b))
        c.event("rejections")


@singular
def case_scales(c):
    """Forms of the scales and diagonals."""
    rng = c.rng
    name = MODELS[c.index % len(MODELS)]
    ims = world(rng, 4)
    s = [1, 1., .7][rng.randint(3)]
    base = make_model(name, ims, (float(s),))
    for form in (s, [s], (s,)):
        m = make_model(name, ims, form)
        c.check(m.n_scales == 1 and list(m.scales) == [s],
                "model/scales/reported", "%r -> %r" % (form, m.scales))
        compare(c, "model/scales/forms", sig(m, 0), sig(base, 0),
                "%s scales=%r" % (name, form))
    c.seen(name, s)
    given = [.5, 1.]
    m = make_model(name, ims, given)
    two = make_model(name, ims, (.5, 1.))
    c.check(given == [.5, 1.], "model/scales/argument-changed")
    for j in range(2):
        compare(c, "model/scales/forms", sig(m, j), sig(two, j), name)
    # a scale does not depend on the other scales of the list
    three = make_model(name, ims, (.5, .8, 1.))
    for j, i in ((0, 0), (1, 2)):
        compare(c, "model/scales/independent", sig(two, j), sig(three, i),
                name)
    for d in (None, 30, 45.):
        m = make_model(name, ims, (1.,), diagonal=d)
        c.check(m.diagonal == d, "model/diagonal/reported", str(m.diagonal))
        if d is not None:
            ref = m.reference_shape
            c.close(np.linalg.norm(ref.range()), d, "model/diagonal/applied",
                    name, rtol=1e-6)
    c.event("scale forms")


# --------------------------------------------------------------------------
# options of fitters
# --------------------------------------------------------------------------
def model_fitter(name, m, **kw):
    import menpofit.aam as a
    import menpofit.atm as t
    import menpofit.clm as cl
    import menpofit.aps as p
    import menpofit.unified_aam_clm as u
    if name.endswith("AAM"):
        return a.LucasKanadeAAMFitter(m, **kw)
    if name.endswith("ATM"):
        return t.LucasKanadeATMFitter(m, **kw)
    if name == "CLM":
        return cl.GradientDescentCLMFitter(m, **kw)
    if name == "UnifiedAAMCLM":
        return u.UnifiedAAMCLMFitter(m, **kw)
    return p.GaussNewtonAPSFitter(m, **kw)


def fitter_options(name):
    o = ["n_shape"]
    if name.endswith("AAM") or name == "UnifiedAAMCLM":
        o.append("n_appearance")
    if name != "CLM":
        o.append("sampling")
    if name == "GenerativeAPS":
        o.append("weight")
    return o


def at_scale(fitter, j, image, shape, n):
    """Shapes of a fit that only iterates at scale j."""
    it = [0] * n
    it[j] = 2
    try:
        r = fitter.fit_from_shape(image, shape, max_iters=it)
    except Exception as e:
        if not collapsed(e):
            raise
        raise Skip()
    return np.array([s.points for s in r.shapes])


@singular
def case_fitter(c):
    rng = c.rng
    name = MODELS[c.index % len(MODELS)]
    opts = fitter_options(name)
    opt = opts[(c.index // len(MODELS)) % len(opts)]
    ims = world(rng, 6)
    n = 2
    scales = (.6, 1.)
    draw = {
        "n_shape": lambda: [1, 2, 2, float(rng.uniform(.3, .9))][
            rng.randint(4)],
        "n_appearance": lambda: [1, 2, 2, float(rng.uniform(.3, .9))][
            rng.randint(4)],
        "sampling": lambda: [None, 2, 3, 5][rng.randint(4)],
        "weight": lambda: [1, 20., 300., 1000.][rng.randint(4)]}[opt]
    vs = [draw(), draw()]
    for _ in range(6):
        if same(vs[0], vs[1]):
            vs[1] = draw()
    c.note(model=name, option=opt, values=vs)
    c.seen(name, opt, *[str(v) for v in vs])
    kw = {}
    if name == "UnifiedAAMCLM":    # needs noise outside of its subspaces
        kw = dict(max_shape_components=3, max_appearance_components=3)
    build = lambda: make_model(name, ims[:5], scales, **kw)
    mech = "fitter/" + opt
    x0 = gen.perturb(rng, ims[5].landmarks[GROUP], scale=.03, angle=.04,
                     shift=1.)
    got, want = [], []
    for form in (list(vs), tuple(vs)):
        m = build()
        f = model_fitter(name, m, **{opt: form})
        c.check(same(list(form), vs), mech + "/argument-changed")
        if isinstance(form, list):
            del form[:]
        got.append((m, f))
    for v in vs:
        row = []
        for form in (v, [v], [v] * 2):
            m = build()
            row.append((m, model_fitter(name, m, **{opt: form})))
        want.append(row)
    for j in range(n):
        if opt in ("n_shape", "n_appearance"):
            models = "shape_models" if opt == "n_shape" else \
                "appearance_models"
            obs = [getattr(m, models)[j].n_active_components for m, f in got]
            exp = [getattr(m, models)[j].n_active_components
                   for m, f in want[j]]
            if isinstance(vs[j], int):
                avail = getattr(build(), models)[j].n_active_components
                exp.append(min(vs[j], avail))
            c.check(len(set(obs + exp)) == 1, mech + "/per-scale",
                    "%s: %s with %s at scale %d, %s given singly" % (
                        name, obs, vs, j, exp))
            c.event("active components")
        if opt == "weight":
            for m, f in got + want[j]:
                c.check(f.algorithms[j].interface.weight == vs[j],
                        mech + "/reported")
                c.check(f.weight[j] == vs[j], mech + "/reported")
        ref = at_scale(want[j][0][1], j, ims[5], x0, n)
        # the other scales project the shape on their own spaces
        for m, f in ([] if opt == "n_shape" else got) + want[j][1:]:
            t = at_scale(f, j, ims[5], x0, n)
            c.close(t, ref, mech + "/per-scale",
                    "%s: fit at scale %d with %s" % (name, j, vs), rtol=1e-6)
            c.event("fits compared")
    c.check(len(str(got[0][1])) > 20, "fitter/str")
    # rejections
    good = vs[0]
    bad = [[good] * 3, [], ["ab", "cd"]] + {
        "n_shape": ["xyz", {}, object()], "n_appearance": ["xyz", {}],
        "sampling": ["xyz", 2.5, {}], "weight": ["xyz", None, ["a", 1.]]}[opt]
    if name.endswith("ATM") and opt == "sampling":
        pass
    m = build()
    for b in bad:
        c.raises(Exception, lambda: model_fitter(name, m, **{opt: b}),
                 mech + "/accepted", "%s %s=%r" % (name, opt, b))
        c.event("rejections")
    c.event("fitter options")


# --------------------------------------------------------------------------
# cascades
# --------------------------------------------------------------------------
@singular
def case_sdm(c):
    import menpofit.sdm as S
    rng = c.rng
    which = c.index % 3
    ims = world(rng, 4)
    n = 2
    scales = (.6, 1.)
    calls = []

    def pf(tag):
        def f(x):
            # the scales are trained in order
            calls.append((tag, x.shape[-2:]))
            return x
        return f

    seed = int(rng.randint(1 << 30))

    def build(**kw):
        d = dict(group=GROUP, scales=scales, diagonal=40, n_perturbations=2,
                 patch_shape=(5, 5), n_iterations=2)
        d.update(kw)
        np.random.seed(seed)
        if which == 0:
            return S.SupervisedDescentFitter(
                ims, sd_algorithm_cls=d.pop("sd_algorithm_cls",
                                            S.NonParametricNewton), **d)
        if which == 1:
            d.pop("sd_algorithm_cls", None)
            return S.RegularizedSDM(ims, **d)
        d.pop("sd_algorithm_cls", None)
        return S.SDM(ims, **d)

    its = [int(x) for x in rng.randint(1, 4, 2)]
    ps = [(5, 7), (7, 5)] if rng.rand() < .5 else [(7, 7), (5, 9)]
    tags = [pf("a"), pf("b")]
    given = dict(n_iterations=list(its), patch_shape=[list(p) for p in ps],
                 patch_features=list(tags))
    keep = copy.copy(given["n_iterations"]), list(given["patch_features"])
    c.note(its=its, ps=ps)
    c.seen(which, *its, str(ps))
    f = build(**given)
    c.check(given["n_iterations"] == keep[0]
            and given["patch_features"] == keep[1]
            and given["patch_shape"] == [list(p) for p in ps],
            "sdm/argument-changed")
    for j in range(n):
        a = f.algorithms[j]
        c.check(len(a.regressors) == its[j], "sdm/n_iterations/per-scale",
                "%d regressors at scale %d, requested %s" % (
                    len(a.regressors), j, its))
    seen = []
    for t in calls:
        if not seen or seen[-1] != t:
            seen.append(t)
    c.check(seen == [("a", ps[0]), ("b", ps[1])], "sdm/patch/per-scale",
            "patches %s, requested %s" % (seen, ps))
    del calls[:]
    r = f.fit_from_shape(ims[0], ims[0].landmarks[GROUP])
    seen = []
    for t in calls:
        if not seen or seen[-1] != t:
            seen.append(t)
    c.check(seen == [("a", ps[0]), ("b", ps[1])], "sdm/patch/fit",
            "patches %s, requested %s" % (seen, ps))
    c.check(r.n_iters == sum(its), "sdm/n_iterations/fit", str(r.n_iters))
    # single forms
    total = int(rng.randint(2, 6))
    p = ps[0]
    base = build(n_iterations=[int(np.round(total / 2.))] * 2,
                 patch_shape=[p, p])
    for kw in (dict(n_iterations=total, patch_shape=p),
               dict(n_iterations=[total], patch_shape=[p])):
        g = build(**kw)
        for j in range(n):
            c.check(len(g.algorithms[j].regressors) ==
                    len(base.algorithms[j].regressors),
                    "sdm/n_iterations/single", str(kw))
            for u, v in zip(g.algorithms[j].regressors,
                            base.algorithms[j].regressors):
                c.close(u.W, v.W, "sdm/single", str(kw), rtol=1e-6)
    if which == 0:
        cls = [S.NonParametricNewton, S.NonParametricGaussNewton]
        g = build(sd_algorithm_cls=list(cls))
        c.check([type(a) for a in g.algorithms] == cls,
                "sdm/sd_algorithm_cls/per-scale",
                str([type(a).__name__ for a in g.algorithms]))
        for b in ([cls[0]] * 3, [], 3, [None, None]):
            c.raises(Exception, lambda: build(sd_algorithm_cls=b),
                     "sdm/sd_algorithm_cls/accepted", str(b))
    for k, bads in (("n_iterations", ([1, 2, 3], [], None, "a", 2.5)),
                    ("patch_shape", ([p] * 3, [], 7, None, (3, .5))),
                    ("patch_features", ([no_op] * 3, [], 3, None)),
                    ("holistic_features", ([no_op] * 3, [], 3, None)),
                    ("diagonal", (10, 0)), ("scales", ([], "ab", None))):
        for b in bads:
            c.raises(Exception, lambda: build(**{k: b}),
                     "sdm/%s/accepted" % k, str(b))
            c.event("rejections")
    c.check(len(str(f)) > 20, "fitter/str")
    c.event("sdm options")


def case_dlib(c):
    from menpofit.dlib import DlibERT
    rng = c.rng
    ims = world(rng, 3)
    for i in ims:
        i.pixels = np.clip(i.pixels, 0., 1.)
    n = int(rng.choice([1, 2, 3]))
    scales = [(1.,), (.5, 1.), (.5, .7, 1.)][n - 1]
    spec = {  # option: attribute, draw, wrong types
        "feature_padding": ("feature_pool_region_padding",
                            lambda: int(rng.randint(0, 3)), ["a", None, .5]),
        "n_pixel_pairs": ("feature_pool_size",
                          lambda: int(rng.randint(20, 60)), ["a", None, .5]),
        "distance_prior_weighting": ("lambda_param",
                                     lambda: float(rng.uniform(.05, .4)),
                                     ["a", None]),
        "regularisation_weight": ("nu", lambda: float(rng.uniform(.05, .6)),
                                  ["a", None]),
        "n_split_tests": ("num_test_splits",
                          lambda: int(rng.randint(2, 9)), ["a", None, .5]),
        "n_trees": ("num_trees_per_cascade_level",
                    lambda: int(rng.randint(2, 9)), ["a", None, .5]),
        "n_dlib_perturbations": ("oversampling_amount",
                                 lambda: int(rng.randint(1, 4)),
                                 ["a", None, .5]),
        "n_tree_levels": ("tree_depth", lambda: int(rng.randint(1, 4)),
                          ["a", None, .5])}
    base = dict(group=GROUP, scales=scales, n_perturbations=1, n_trees=3,
                n_tree_levels=2, n_pixel_pairs=20, n_split_tests=3,
                n_iterations=1)
    kw, want = dict(base), {}
    for k, (attr, draw, _) in spec.items():
        how = rng.randint(4)
        if how == 0:
            v = draw()
            kw[k], want[k] = v, [v] * n
        elif how == 1:
            v = draw()
            kw[k], want[k] = [v], [v] * n
        else:
            vs = [draw() for _ in range(n)]
            kw[k], want[k] = (list(vs) if how == 2 else tuple(vs)), vs
    its = [int(x) for x in rng.randint(1, 4, n)]
    kw["n_iterations"] = list(its) if n > 1 or rng.rand() < .5 else its[0]
    before = copy.deepcopy(kw)
    f = DlibERT(ims, **kw)
    c.check(kw == before, "dlib/argument-changed")
    c.seen(*[str(v) for v in want.values()])
    c.note(**{k: str(v) for k, v in kw.items()})
    for k, (attr, _, _) in spec.items():
        got = [getattr(a.dlib_options, attr) for a in f.algorithms]
        c.check(np.allclose(got, want[k]), "dlib/%s" % k,
                "%s for %r" % (got, kw[k]))
        c.event("dlib options")
    got = [a.dlib_options.cascade_depth for a in f.algorithms]
    c.check(got == its, "dlib/n_iterations", "%s for %r" % (got, its))
    for k, (attr, draw, wrong) in spec.items():
        v = draw()
        for b in [[v] * (n + 1), [v] * (n + 2), []] + wrong + [[w] * n for w
                                                               in wrong]:
            k2 = dict(base)
            k2[k] = b
            c.raises(Exception, lambda: DlibERT(ims, **k2),
                     "dlib/%s/accepted" % k, repr(b))
            c.event("rejections")
    for k, b in (("diagonal", 5), ("scales", []), ("scales", "ab"),
                 ("n_iterations", [1] * (n + 1)), ("n_iterations", "a"),
                 ("n_iterations", None)):
        k2 = dict(base)
        k2[k] = b
        c.raises(Exception, lambda: DlibERT(ims, **k2),
                 "dlib/%s/accepted" % k, repr(b))
    c.check(len(str(f)) > 20, "fitter/str")


def case_lk(c):
    import menpofit.lk as L
    rng = c.rng
    ims = world(rng, 2)
    n = int(rng.choice([1, 2, 3]))
    scales = [(.8,), (.5, 1.), (.5, .7, 1.)][n - 1]
    vs = [FEATS[k] for k in rng.choice(list(FEATS), n)]
    build = lambda **kw: L.LucasKanadeFitter(
        ims[0], group=GROUP, **dict(dict(scales=scales, diagonal=40), **kw))
    for given in (list(vs), tuple(vs)):
        f = build(holistic_features=given)
        c.check(same(list(given), vs), "lk/argument-changed")
        c.check(same(list(f.holistic_features), vs), "lk/reported")
        if isinstance(given, list):
            del given[:]
            c.check(len(f.holistic_features) == n, "lk/aliased")
        for j in range(n):
            g = build(holistic_features=[vs[j], [vs[j]], (vs[j],)][
                rng.randint(3)])
            compare(c, "lk/holistic_features/per-scale", sig(f, j), sig(g, j),
                    "scale %d" % j)
    c.seen(n, *[v.__name__ for v in vs])
    s = float(rng.uniform(.5, 1))
    for form in (s, [s], (s,)):
        f = build(scales=form)
        c.check(list(f.scales) == [s] and len(f.algorithms) == 1, "lk/scales")
    for k, bads in (("holistic_features", ([no_op] * (n + 1), [], 3, None,
                                           [3] * n)),
                    ("diagonal", (10, -3)),
                    ("scales", ([], "ab", None, ["a", "b"]))):
        for b in bads:
            c.raises(Exception, lambda: build(**{k: b}),
                     "lk/%s/accepted" % k, repr(b))
            c.event("rejections")
    # budgets of the fits
    f = build()
    x0 = ims[0].landmarks[GROUP]
    for a in f.algorithms:
        a.eps = -1.
    vs = [int(x) for x in rng.randint(0, 4, n)]
    tot = int(rng.randint(1, 9))
    for it, want in ((list(vs), vs), (tuple(vs), vs),
                     (tot, [int(np.round(tot / float(n)))] * n)):
        if n == 1 and isinstance(it, int):
            want = [it]
        before = copy.copy(it)
        try:
            r = f.fit_from_shape(ims[0], x0, max_iters=it)
        except Exception as e:
            if not collapsed(e):
                raise
            raise Skip()
        c.check(it == before, "lk/argument-changed")
        c.check(list(r.n_iters_per_scale) == want, "fit/max_iters",
                "%s for %s" % (r.n_iters_per_scale, it))
    for b in ([1] * (n + 1), [], None, "a", 2.5):
        c.raises(Exception, lambda: f.fit_from_shape(ims[0], x0, max_iters=b),
                 "fit/max_iters/accepted", repr(b))
        c.event("rejections")
    c.check(len(str(f)) > 20, "fitter/str")
    c.event("lk options")


MARKS = {}


def mark(k):
    """A feature that leaves a mark on the range of the pixels."""
    if k not in MARKS:
        def marked(x):
            y = x.copy()
            y.pixels = .1 + .3 * k + .25 * np.clip(x.pixels, 0, 1)
            return y
        MARKS[k] = marked
    return MARKS[k]


def mark_of(pixels):
    px = np.asarray(pixels)
    px = px[px > .05]            # patches reach over the border
    if not px.size:
        return None
    return int(np.floor((float(np.median(px)) - .1) / .3))


@singular
def case_features(c):
    """Which feature each scale trains on and is fitted with."""
    rng = c.rng
    families = ["AAM", "AAMSD", "ATM", "CLM", "APS", "UNI", "SDM", "LK"]
    fam = families[c.index % len(families)]
    names = [x for x in zoo.NAMES if x.startswith(fam + "/")]
    name = names[rng.randint(len(names))]
    n = int(rng.choice([3, 3, 4]))
    scales = ((.5, .75, 1.), (.6, .6, 1.))[rng.randint(2)] if n == 3 else \
        (.4, .6, .8, 1.)
    a, b, d = rng.permutation(3)
    ks = {3: [[a, b, a], [a, b, b], [a, a, b], [a, b, d]],
          4: [[a, b, a, b], [a, b, b, a], [a, b, d, a], [a, a, b, a]]}[n]
    ks = [int(k) for k in ks[rng.randint(len(ks))]]
    c.note(name=name, features=ks, scales=scales)
    c.seen(name, *ks)
    kw, fkw, trained = {}, {}, []

    def patches(x):
        if mark_of(x) is not None:
            trained.append(mark_of(x))
        return x
    if fam == "SDM":
        kw = dict(patch_features=patches, n_iterations=[1] * n)
    elif fam in ("AAMSD",):
        fkw = dict(n_iterations=[1] * n)
    elif fam in ("APS",):
        kw = aps_graph(9)
    normed, now = [], [None]

    def norm_of(k):
        """A normalisation that tells when it is called."""
        def called(x):
            normed.append((now[0], k))
            return x
        return called
    norms = None
    if fam == "APS" or name.split("/")[1] == "PatchAAM":
        norms = [int(k) for k in rng.permutation(n)]
        kw["patch_normalisation"] = [norm_of(k) for k in norms]
    sp = zoo.build(rng, name, scales=scales, features=[mark(k) for k in ks],
                   diagonal=40, channels=1, model_kw=kw, fitter_kw=fkw,
                   n_test=1)
    m = sp.model
    mech = "features/%s" % fam
    # what each scale was trained on
    got = None
    if m is not None and getattr(m, "appearance_models", None):
        got = []
        for am in m.appearance_models:
            mean = am.mean()
            px = mean.pixels if hasattr(mean, "pixels") else np.asarray(mean)
            if hasattr(mean, "mask"):
                px = px[:, mean.mask.mask]
            got.append(mark_of(px))
    elif fam == "ATM":
        got = []
        for t in m.warped_templates:
            px = t.pixels
            if hasattr(t, "mask"):
                px = px[:, t.mask.mask]
            got.append(mark_of(px))
    elif fam == "LK":
        got = [mark_of(t.pixels) for t in sp.fitter.templates]
    elif fam == "SDM":
        got = [k for i, k in enumerate(trained)
               if i == 0 or k != trained[i - 1]]
        want = [k for i, k in enumerate(ks) if i == 0 or k != ks[i - 1]]
        c.check(got == want, mech + "/trained-on",
                "%s: trained on %s for %s" % (name, got, ks))
        got = None
    if got is not None:
        c.check(got == ks, mech + "/trained-on", "%s: trained on %s for %s" % (
            name, got, ks))
    # what each scale is fitted on
    fitted = []

    def watch(alg, j):
        real_run = alg.run

        def run(image, *args, **kwargs):
            fitted.append((j, mark_of(image.pixels)))
            now[0] = j
            return real_run(image, *args, **kwargs)
        alg.run = run
    for j, alg in enumerate(sp.fitter.algorithms):
        watch(alg, j)
    im = sp.tests[0]
    if norms:
        c.check(set(k for _, k in normed) == set(norms),
                mech + "/normalised-training", "%s: %s of %s" % (
                    name, sorted(set(normed)), norms))
        del normed[:]
    try:
        sp.fitter.fit_from_shape(im, im.landmarks["PTS"], **(
            {} if fam == "SDM" else {"max_iters": [1] * n}))
    except Exception as e:
        if not collapsed(e):
            raise
        raise Skip()
    c.check(fitted == list(enumerate(ks)), mech + "/fitted-on",
            "%s: fitted on %s for %s" % (name, fitted, ks))
    if norms:
        c.check(set(normed) == set(enumerate(norms)), mech +
                "/normalised", "%s: %s of %s" % (name, sorted(set(normed)),
                                                 norms))
        c.event("normalisations traced")
    c.event("features traced")


CASES = {"helpers": (case_helpers, 600, 6000), "model": (case_model, 300, 1200),
         "model_reject": (case_model_reject, 200, 300),
         "scales": (case_scales, 43, 130), "fitter": (case_fitter, 173, 700),
         "sdm": (case_sdm, 30, 120), "dlib": (case_dlib, 27, 150),
         "lk": (case_lk, 40, 300),
         "features": (case_features, 107, 480)}
REQUIRED = {"expansions": 500, "rejections": 1500, "model options": 50,
            "fitter options": 20, "sdm options": 5, "dlib options": 30,
            "lk options": 5, "active components": 20, "fits compared": 50,
            "scale forms": 8, "features traced": 15,
            "normalisations traced": 5}
