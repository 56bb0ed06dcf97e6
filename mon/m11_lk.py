"""M11: Lucas-Kanade alignment recovers the warp and reports true costs."""
from functools import partial

import numpy as np

from menpo.image import Image, MaskedImage
from menpo.shape import PointCloud

from . import gen
from .core import Skip
from .zoo import diverged

ID = "M11"
RULE = ("images rendered analytically as a template under a drawn similarity "
        "or affine warp, aligned by every algorithm with every residual from "
        "small displacements; each reported cost and each parameter update "
        "recomputed from the warped image; gain, bias, kernels and equivalent "
        "residuals compared; distinct when algorithm, residual, transform, "
        "channels, scales or warp differ")
ASSUMPTIONS = ["displacements up to about 2.5 pixels on textures with "
               "wavelengths above 16 pixels lie within the basins of "
               "attraction", "menpo's image gradient and warping are trusted",
               "sub-pixel recovery is limited by bilinear warping and, for "
               "the gradient residuals, by their coarse approximations: 0.4 "
               "and 0.9 pixels"]

ALGS = ["ForwardAdditive", "ForwardCompositional", "InverseCompositional"]
RES = ["SSD", "FourierSSD", "ECC", "GradientImages", "GradientCorrelation"]


class Texture(object):
    """An analytic texture, so that it can be rendered under any warp."""

    def __init__(self, rng, channels, n=12, lo=.07, hi=.38):
        self.f = []
        for _ in range(channels):
            r = rng.uniform(lo, hi, n)
            t = rng.uniform(0, np.pi, n)
            self.f.append((np.stack([r * np.cos(t), r * np.sin(t)], 1),
                           rng.uniform(0, 2 * np.pi, n),
                           rng.uniform(.4, 1, n)))

    def __call__(self, points):
        return np.array([(a * np.sin(points.dot(f.T) + p)).sum(-1)
                         for f, p, a in self.f]) * .1 + .5

    def render(self, h, w, A=np.eye(2), t=np.zeros(2)):
        """The image that shows the texture under x -> A x + t."""
        g = np.stack(np.meshgrid(np.arange(h), np.arange(w), indexing="ij"),
                     -1).astype(float)
        inv = np.linalg.inv(A)
        return Image(self((g - t).dot(inv.T)))


def transforms():
    import menpofit.transform as T
    return {"affine": T.DifferentiableAlignmentAffine,
            "similarity": T.DifferentiableAlignmentSimilarity}


def world(rng, family, channels=None, identity=False, warp=1.):
    channels = channels or int(rng.choice([1, 1, 2, 3]))
    tex = Texture(rng, channels)
    h, w = int(rng.randint(56, 84)), int(rng.randint(56, 84))
    template = tex.render(h, w)
    k = int(rng.randint(4, 8))
    s0 = PointCloud(gen.spread_points(rng, k, h - 12, w - 12) + 6)
    template.landmarks["PTS"] = s0
    A = (1 + warp * rng.uniform(-.12, .2)) * gen.rot(
        warp * rng.uniform(-.35, .35))
    if family == "affine":
        A = A.dot(np.eye(2) + warp * rng.uniform(-.08, .08, (2, 2)))
    H, W = int(rng.randint(130, 170)), int(rng.randint(130, 170))
    c0 = np.array([h, w]) / 2.
    t = np.array([H, W]) / 2. + rng.uniform(-6, 6, 2) - A.dot(c0)
    if identity:
        # (inside the image, whatever rounding does)
        A, t = np.eye(2), np.clip(np.round(t), 2, [H - h - 2, W - w - 2])
    image = tex.render(H, W, A, t)
    gt = PointCloud(s0.points.dot(A.T) + t)
    return tex, template, s0, image, gt


def far(a, b):
    return float(np.abs(a.points - b.points).max())


def start(rng, gt, amount):
    """A start displaced by at most about `amount` pixels at the landmarks."""
    x0 = gen.perturb(rng, gt, scale=.02, angle=.02, shift=1.)
    d = x0.points - gt.points
    m = np.abs(d).max()
    return PointCloud(gt.points + d * (amount / m))


def case_recover(c):
    import menpofit.lk as lk
    rng = c.rng
    alg = ALGS[c.index % 3]
    res = RES[(c.index // 3) % 5]
    family = ["affine", "similarity"][(c.index // 15) % 2]
    scales = [(1.,), (.5, 1.), (.6, .8, 1.), (.7,)][rng.randint(4)]
    tex, template, s0, image, gt = world(rng, family)
    diagonal = [None, None, 70, 95][rng.randint(4)]
    x0 = start(rng, gt, rng.uniform(1.7, 2.5))
    g, b = 1., 0.
    if res in ("ECC", "GradientImages", "GradientCorrelation"):
        g, b = float(rng.uniform(.5, 2.)), float(rng.uniform(-.5, .5))
        image.pixels = image.pixels * g + b
    c.note(alg=alg, res=res, family=family, scales=scales, diagonal=diagonal,
           start=far(x0, gt), gain=g, channels=image.n_channels)
    c.seen(alg, res, family, len(scales), image.n_channels, diagonal)
    f = lk.LucasKanadeFitter(
        template, group="PTS", transform=transforms()[family], scales=scales,
        diagonal=diagonal, algorithm_cls=getattr(lk, alg),
        residual_cls=getattr(lk, res))
    r = f.fit_from_shape(image, x0, max_iters=[60] * len(scales), gt_shape=gt,
                         return_costs=True)
    e = far(r.final_shape, gt)
    # (a pixel of the coarsest representation is the unit of the accuracy)
    ref = f.reference_shape
    rate = np.linalg.norm(ref.range()) / np.linalg.norm(gt.range())
    unit = 1. / min(1., rate * scales[-1])
    tol = (.9 if res.startswith("Gradient") else .4) * unit
    c.check(e < tol, "recover/%s/%s" % (alg, res),
            "%s from %.2f to %.3f pixels in %d iterations" % (
                family, far(x0, gt), e, r.n_iters))
    # the warped image shows the template
    costs = r.costs
    c.check(len(costs) == r.n_iters, "costs/count", "%d costs, %d iterations"
            % (len(costs), r.n_iters))
    p = r.homogeneous_parameters
    c.check(len(p) == r.n_iters + len(scales), "parameters/count")
    c.event("alignments")


def wrapped(image, template, transform):
    return image.warp_to_mask(template.mask, transform, warp_landmarks=False)


def grad(image):
    from menpo.feature import gradient
    g = gradient(image).set_boundary_pixels()
    n = image.n_channels
    return g.pixels.reshape((2, n) + image.shape)


def regular(g):
    ab = np.sqrt((g ** 2).reshape((-1,) + g.shape[-2:]).sum(0))
    return g / (ab + np.median(ab))


def regular_again(first):
    """Derivatives of a field (component, channel, h, w), the two crossed
    ones taken to be equal: (dimension, component, channel, h, w)."""
    k, n = first.shape[:2]
    out = grad(MaskedImage(first.reshape((k * n,) + first.shape[2:]))).reshape(
        (2, k, n) + first.shape[2:])
    out[1, 0] = out[0, 1]
    return out


def ecc_step(c, J, base, wi, tp):
    """Jacobian and residual of the enhanced correlation coefficient."""
    J = J.reshape(-1, J.shape[-1]) / np.linalg.norm(base - base.mean())
    a = (wi - wi.mean()).ravel()
    b = (tp - tp.mean()).ravel()
    a, b = a / np.linalg.norm(a), b / np.linalg.norm(b)

    def inner(x, y):
        """Product of what the Jacobian cannot explain."""
        px = J.dot(np.linalg.lstsq(J, x, rcond=None)[0])
        return x.dot(y) - px.dot(y), px.dot(y)
    num, den = inner(a, a)[0], inner(b, a)[0]
    if den > 0:
        l = num / den
    else:
        bb, aa = inner(b, b)[1], inner(a, a)[1]
        l = max(np.sqrt(aa / bb), -den / bb)
        c.event("negative correlations")
    return J, l * a - b


def case_steps(c):
    """Every cost and every update recomputed from the warped image."""
    import menpofit.lk as lk
    rng = c.rng
    alg = ALGS[c.index % 3]
    res = RES[(c.index // 3) % 5]
    family = ["affine", "similarity"][(c.index // 15) % 2]
    tex, template, s0, image, gt = world(rng, family)
    template = template.as_masked(copy=False)
    if res == "ECC" and rng.rand() < .4:
        # (an image that shows the template in negative)
        image.pixels = 1. - image.pixels + .02 * rng.randn(*image.pixels.shape)
    kernel = None
    h, w = template.shape
    args = {}
    if res in ("SSD", "FourierSSD") and rng.rand() < .5:
        # the power of a real filter, in the frequency domain
        F = np.exp(-rng.uniform(.01, .2) * (
            np.add.outer(np.fft.fftfreq(h) ** 2, np.fft.fftfreq(w) ** 2)
            * h * w / 20.)) + rng.uniform(0, .2)
        kernel = np.tile((F ** 2)[None], (template.n_channels, 1, 1))
        if rng.rand() < .5:
            kernel = kernel * rng.uniform(.5, 2., (template.n_channels, 1, 1))
        args["kernel"] = kernel
    residual = getattr(lk, res)(**args)
    T = transforms()[family]
    algo = getattr(lk, alg)(template, T(s0, s0), residual)
    x0 = start(rng, gt, rng.uniform(.5, 3.))
    k = int(rng.randint(1, 6))
    r = diverged(algo.run, image, x0, gt_shape=gt, max_iters=k,
                 return_costs=True)
    c.note(alg=alg, res=res, family=family, kernel=kernel is not None,
           channels=image.n_channels)
    c.seen(alg, res, family, kernel is not None, image.n_channels)
    # the approximation of the Hessian, with itself or another set
    for kind in (float, complex) if res == "FourierSSD" else (float,):
        a, b = rng.randn(2, 40, 3).astype(kind)
        if kind is complex:
            a, b = a + 1j * rng.randn(40, 3), b + 1j * rng.randn(40, 3)
        q = getattr(lk, res)(**args)
        c.close(q.hessian(a), a.conj().T.dot(a), "hessian/" + res)
        c.close(q.hessian(a, sdi2=b), a.conj().T.dot(b), "hessian/" + res)
    ps, costs = r.homogeneous_parameters, r.costs
    c.check(len(ps) == len(costs) + 1 == r.n_iters + 1, "steps/count")
    t = T(s0, s0)
    t.set_target(x0)
    c.close(ps[0], t.as_vector(), "steps/start", "first parameters")
    tp = template.pixels
    for i, cost in enumerate(costs):
        t = T(s0, s0)
        t.from_vector_inplace(ps[i])
        c.close(t.apply(s0).points, r.shapes[i + 1].points, "steps/shape",
                "shape %d is not the warped template shape" % i, atol=1e-8)
        wi = wrapped(image, template, t)
        e = wi.pixels - tp
        if res in ("SSD", "FourierSSD"):
            if kernel is None:
                want = (e ** 2).sum()
            else:
                fe = np.fft.fft2(e)
                want = (kernel * np.abs(fe) ** 2).sum() / (h * w)
        elif res == "ECC":
            a = wi.pixels - wi.pixels.mean()
            b = tp - tp.mean()
            want = (a * b).sum() / np.sqrt((a ** 2).sum() * (b ** 2).sum())
        elif res == "GradientImages":
            want = ((regular(grad(wi)) - regular(grad(template))) ** 2).sum()
        else:
            ga, gb = grad(wi), grad(template)
            pa = np.arctan2(ga[0], ga[1])
            pb = np.arctan2(gb[0], gb[1])
            want = np.cos(pa - pb).sum() / pa.size
        ok = c.close(cost, want, "cost/%s/%s" % (alg, res),
                     "iteration %d" % i, rtol=1e-6, atol=1e-9)
        c.event("costs recomputed")
        if not ok:
            continue
        # the Gauss-Newton step that minimises the (filtered) difference
        if alg == "InverseCompositional":
            nabla, dW = grad(template), T(s0, s0).d_dp(template.indices())
        elif alg == "ForwardCompositional":
            nabla, dW = grad(wi), T(s0, s0).d_dp(template.indices())
        else:
            from menpo.feature import gradient
            g = wrapped(gradient(image), template, t)
            nabla = g.pixels.reshape((2, image.n_channels) + template.shape)
            dW = t.d_dp(template.indices())
        dW = dW.reshape((h, w) + dW.shape[1:])          # h w params dims
        J = np.einsum("dchw,hwpd->chwp", nabla, dW)
        if res == "ECC":
            FJ, Fe = ecc_step(c, J, tp if alg == "InverseCompositional"
                              else wi.pixels, wi.pixels, tp)
        elif res == "GradientImages":
            second = regular_again(regular(nabla))
            J = np.einsum("dkchw,hwpd->kchwp", second, dW)
            FJ = J.reshape(-1, J.shape[-1])
            Fe = (regular(grad(wi)) - regular(grad(template))).ravel()
        elif res == "GradientCorrelation":
            phi = np.arctan2(nabla[0], nabla[1])
            second = regular_again(np.array([np.sin(phi), np.cos(phi)]))
            second = second * np.array([np.cos(phi), -np.sin(phi)])[:, None]
            J = np.einsum("kdchw,hwpd->chwp", second, dW)
            FJ = J.reshape(-1, J.shape[-1])
            ga, gb = grad(wi), grad(template)
            d = np.arctan2(ga[0], ga[1]) - np.arctan2(gb[0], gb[1])
            Fe = np.sin(d).ravel() * d.size / np.cos(d).sum()
        elif kernel is None:
            FJ, Fe = J.reshape(-1, J.shape[-1]), e.ravel()
        else:
            root = np.sqrt(kernel)
            FJ = np.real(np.fft.ifft2(root[..., None] * np.fft.fft2(
                J, axes=(1, 2)), axes=(1, 2))).reshape(-1, J.shape[-1])
            Fe = np.real(np.fft.ifft2(root * np.fft.fft2(e))).ravel()
        dp = np.linalg.lstsq(FJ, -Fe, rcond=None)[0]
        if np.linalg.cond(FJ) > 1e5 or np.abs(dp).max() > 1e3:
            break
        u = T(s0, s0)
        u.from_vector_inplace(ps[i])
        if alg == "ForwardAdditive":
            want = ps[i] + dp
            got = ps[i + 1]
        else:
            d = T(s0, s0)
            d.from_vector_inplace(dp if alg == "ForwardCompositional" else -dp)
            M = d.h_matrix
            if alg == "InverseCompositional":
                # the increment warps the template, so it is inverted
                M = np.linalg.inv(M)
            want = u.h_matrix.dot(M)
            v = T(s0, s0)
            v.from_vector_inplace(ps[i + 1])
            got = v.h_matrix
        c.close(got, want, "step/%s/%s" % (alg, res), "iteration %d of %s%s" % (
            i, family, ", kernel" if kernel is not None else ""), rtol=1e-5,
            atol=1e-7 * max(1., np.abs(want).max()))
        c.event("updates recomputed")
        c.event("updates/" + res)


def trace(f, image, x0, n, iters):
    r = f.fit_from_shape(image, x0, max_iters=[iters] * n, return_costs=True)
    return np.array([s.points for s in r.shapes]), np.array(r.costs)


def case_equivalent(c):
    import menpofit.lk as lk
    rng = c.rng
    alg = ALGS[c.index % 3]
    kind = ["fourier", "kernel", "flat", "gain"][(c.index // 3) % 4]
    family = ["affine", "similarity"][(c.index // 12) % 2]
    tex, template, s0, image, gt = world(rng, family)
    scales = [(1.,), (.6, 1.)][rng.randint(2)] if kind in (
        "fourier", "gain") else (1.,)
    n = len(scales)
    x0 = start(rng, gt, rng.uniform(.5, 2.5))
    c.note(alg=alg, kind=kind, family=family)
    c.seen(alg, kind, family, n, image.n_channels)

    def fitter(res, **kw):
        return lk.LucasKanadeFitter(
            template, group="PTS", transform=transforms()[family],
            scales=scales, algorithm_cls=getattr(lk, alg),
            residual_cls=partial(getattr(lk, res), **kw) if kw else getattr(
                lk, res))

    def same(a, b, mech, msg, costs=True):
        m = min(len(a[0]), len(b[0]))
        c.check(len(a[0]) == len(b[0]), mech, "%s: %d shapes against %d" % (
            msg, len(a[0]), len(b[0])))
        c.close(a[0][:m], b[0][:m], mech, msg, rtol=1e-6, atol=1e-5)
        if costs:
            c.close(a[1], b[1], mech + "/cost", msg, rtol=1e-5, atol=1e-9)
        c.event("equivalences")

    its = int(rng.randint(2, 6))
    h, w = template.shape
    ch = template.n_channels
    power = lambda: np.tile(np.exp(-rng.uniform(.5, 4.) * np.add.outer(
        np.fft.fftfreq(h) ** 2, np.fft.fftfreq(w) ** 2) * 4)[None],
        (ch, 1, 1)) * rng.uniform(.5, 2., (ch, 1, 1))
    if kind == "fourier":
        same(trace(fitter("FourierSSD"), image, x0, n, its),
             trace(fitter("SSD"), image, x0, n, its), "fourier/" + alg,
             "FourierSSD is SSD")
    elif kind == "kernel":
        K = power()
        same(trace(fitter("FourierSSD", kernel=K), image, x0, n, its),
             trace(fitter("SSD", kernel=K), image, x0, n, its),
             "kernel/" + alg, "FourierSSD is SSD with a kernel")
    elif kind == "flat":
        v = float(rng.uniform(.5, 2.))
        K = np.full((ch, h, w), v)
        a = trace(fitter("SSD"), image, x0, n, its)
        for res in ("SSD", "FourierSSD"):
            b = trace(fitter(res, kernel=K), image, x0, n, its)
            same((b[0], b[1] / v), a, "flat/%s/%s" % (alg, res),
                 "a flat kernel")
    else:
        res = ["ECC", "GradientImages", "GradientCorrelation"][rng.randint(3)]
        g, b = float(rng.uniform(.4, 2.5)), float(rng.uniform(-1, 1))
        bright = Image(image.pixels * g + b)
        same(trace(fitter(res), bright, x0, n, its),
             trace(fitter(res), image, x0, n, its), "gain/%s/%s" % (alg, res),
             "gain %.2f and bias %.2f" % (g, b))
    # options reach every scale and every channel order is fine
    perm = rng.permutation(ch)
    if ch > 1 and kind == "fourier":
        res = RES[rng.randint(5)]
        t2 = Image(template.pixels[perm])
        t2.landmarks["PTS"] = s0
        f2 = lk.LucasKanadeFitter(
            t2, group="PTS", transform=transforms()[family], scales=scales,
            algorithm_cls=getattr(lk, alg), residual_cls=getattr(lk, res))
        same(trace(f2, Image(image.pixels[perm]), x0, n, its),
             trace(fitter(res), image, x0, n, its), "channels/%s/%s" % (
                 alg, res), "permuted channels")


def case_fixed(c):
    """At the exact solution every algorithm stays."""
    import menpofit.lk as lk
    rng = c.rng
    alg = ALGS[c.index % 3]
    res = RES[(c.index // 3) % 5]
    family = ["affine", "similarity"][(c.index // 15) % 2]
    tex, template, s0, image, gt = world(rng, family, identity=True)
    f = lk.LucasKanadeFitter(
        template, group="PTS", transform=transforms()[family], scales=(1.,),
        algorithm_cls=getattr(lk, alg), residual_cls=getattr(lk, res))
    r = f.fit_from_shape(image, gt, max_iters=[5], gt_shape=gt,
                         return_costs=True)
    c.seen(alg, res, family, image.n_channels)
    c.check(far(r.final_shape, gt) < .02, "fixed/%s/%s" % (alg, res),
            "moves by %.3f pixels" % far(r.final_shape, gt))
    best = {"ECC": 1., "GradientCorrelation": 1.}.get(res, 0.)
    c.close(r.costs[0], best, "fixed/cost/%s/%s" % (alg, res), "", atol=1e-6)
    w = f.warped_images(image, [gt])[0]
    c.close(w.pixels, template.pixels, "fixed/warped", "", atol=1e-6)
    c.event("fixed points")


CASES = {"recover": (case_recover, 360, 1500), "steps": (case_steps, 360, 1500),
         "equivalent": (case_equivalent, 288, 900),
         "fixed": (case_fixed, 180, 450)}
REQUIRED = {"alignments": 50, "costs recomputed": 100,
            "updates recomputed": 300, "updates/ECC": 30,
            "updates/GradientImages": 30, "updates/GradientCorrelation": 30,
            "negative correlations": 10, "equivalences": 40, "fixed points": 25}
