"""M15: regressors solve the least squares problems they are named for."""
import numpy as np

from .core import Skip

ID = "M15"
RULE = ("every regressor class with random regularisation, bias, variance and "
        "whitening options on random (over- and under-determined, badly "
        "scaled, correlated, noiseless) data; distinct when class, options "
        "and data shape differ")
ASSUMPTIONS = ["the bias column is regularised like every other feature "
               "(the library's convention)",
               "data are drawn with condition numbers below 1e4"]


def data(rng, n, d, m, cond=True):
    X = rng.randn(n, d)
    if cond:
        X = X * np.exp(rng.uniform(-1, 1, d))[None] + rng.uniform(-2, 2, d)
        if rng.rand() < .4:
            X = X.dot(np.eye(d) + .2 * rng.randn(d, d))
    W = rng.randn(d, m) * np.exp(rng.uniform(-2.5, 2.5, m))[None]
    Y = X.dot(W) + rng.uniform(-1, 1, m)
    return X, Y, W


def aug(X, bias):
    return np.hstack([X, np.ones((len(X), 1))]) if bias else X


def coef(r, d, bias):
    """The affine map as observed through predict()."""
    b = np.asarray(r.predict(np.zeros(d)), dtype=float)
    A = np.array([np.asarray(r.predict(e)) - b for e in np.eye(d)])
    return A, b


def linear(c, r, X, bias, tag):
    """predict() is the same affine map on vectors and on matrices, leaves
    its input alone and does not change between calls."""
    d = X.shape[1]
    A, b = coef(r, d, bias)
    Z = X[:5] * 1.7 - .3
    keep = Z.copy()
    many = r.predict(Z)
    c.check(np.array_equal(Z, keep), tag + "/predict-mutates")
    s = np.abs(Z).max() * max(np.abs(A).max(), 1e-12) * d + np.abs(b).max()
    c.close(many, Z.dot(A) + b, tag + "/predict-not-affine", scale=s)
    c.close(np.array([r.predict(z) for z in Z]), many,
            tag + "/predict-vector-vs-matrix", scale=s)
    if not bias:
        c.check(np.all(b == 0), tag + "/bias-without-bias")
    c.event("predictions", 2 * len(Z))
    return A, b


def full(A, b, bias):
    return np.vstack([A, b[None]]) if bias else A


def ridge(X, Y, alpha, bias):
    Xa = aug(X, bias)
    k = Xa.shape[1]
    if alpha:
        Xs = np.vstack([Xa, np.sqrt(alpha) * np.eye(k)])
        Ys = np.vstack([Y, np.zeros((k, Y.shape[1]))])
        return np.linalg.lstsq(Xs, Ys, rcond=None)[0]
    return np.linalg.lstsq(Xa, Y, rcond=None)[0]


def wellposed(M, lim=1e4):
    s = np.linalg.svd(M, compute_uv=False)
    if s[-1] <= 0 or s[0] / s[-1] > lim:
        raise Skip()


def kept(fn, *arrays):
    """Runs fn and reports whether the arrays were left alone."""
    cp = [a.copy() for a in arrays]
    fn()
    return all(np.array_equal(a, b) for a, b in zip(arrays, cp))


def case_ridge(c):
    from menpofit.math import IRLRegression
    rng = c.rng
    bias = rng.rand() < .5
    alpha = [0, 0, .01, 1., 30.][rng.randint(5)]
    d, m = rng.randint(1, 12), rng.randint(1, 6)
    n = rng.randint(d + 2, 5 * d + 12) if alpha == 0 or rng.rand() < .6 \
        else rng.randint(1, d + 2)
    X, Y, _ = data(rng, n, d, m)
    Y = Y + .5 * rng.randn(*Y.shape)
    if alpha == 0:
        wellposed(aug(X, bias))
    r = IRLRegression(alpha=alpha, bias=bias, incrementable=rng.rand() < .5)
    c.note(n=n, d=d, m=m, alpha=alpha, bias=bias)
    c.check(kept(lambda: r.train(X, Y), X, Y), "ridge/train-mutates")
    A, b = linear(c, r, X, bias, "ridge")
    W = ridge(X, Y, alpha, bias)
    c.close(full(A, b, bias), W, "ridge/solution", rtol=1e-6)
    # the observed solution is the minimiser: nearby maps are not better
    Xa = aug(X, bias)

    def obj(M):
        return np.sum((Xa.dot(M) - Y) ** 2) + alpha * np.sum(M ** 2)
    F = full(A, b, bias)
    f0 = obj(F)
    for _ in range(3):
        D = rng.randn(*F.shape)
        D *= 1e-2 * (1 + np.abs(F).max()) / np.abs(D).max()
        c.check(obj(F + D) >= f0 - 1e-9 * abs(f0) - 1e-9, "ridge/not-minimal")
    # training again forgets the previous data
    X2, Y2, _ = data(rng, max(n, d + 3), d, m)
    if alpha == 0:
        wellposed(aug(X2, bias))
    r.train(X2, Y2)
    c.close(full(*coef(r, d, bias), bias), ridge(X2, Y2, alpha, bias),
            "ridge/retrain", rtol=1e-6)
    c.event("ridge")
    c.seen("ridge", n, d, m, alpha, bias)


def case_increment(c):
    from menpofit.math import IRLRegression, IIRLRegression
    rng = c.rng
    which = rng.randint(2)
    alpha = [0, .05, 1., 10.][rng.randint(4)]
    alpha2 = [0, .3][rng.randint(2)]
    bias = bool(rng.randint(2)) and which == 0
    d, m = rng.randint(2, 9), rng.randint(1, 5)
    if which == 1:
        d = max(d, m + 1)
    sizes = [int(rng.randint(d + 3, 2 * d + 6))] + [
        int(rng.randint(1, d + 8)) for _ in range(rng.randint(1, 5))]
    X, Y, _ = data(rng, sum(sizes), d, m)
    Y = Y + .5 * rng.randn(*Y.shape)
    wellposed(aug(X[:sizes[0]], bias), 300)
    if which == 1:
        wellposed(Y[:sizes[0]], 300)

    def new(inc=True):
        if which == 0:
            return IRLRegression(alpha=alpha, bias=bias, incrementable=inc)
        return IIRLRegression(alpha=alpha, alpha2=alpha2, incrementable=inc)
    tag = ["ridge", "indirect"][which] + "-increment"
    c.note(which=which, alpha=alpha, alpha2=alpha2, bias=bias, sizes=sizes)
    r = new()
    at = sizes[0]
    r.train(X[:at], Y[:at])
    for s in sizes[1:]:
        Xn, Yn = X[at:at + s].copy(), Y[at:at + s].copy()
        c.check(kept(lambda: r.increment(Xn, Yn), Xn, Yn), tag + "/mutates")
        at += s
        once = new()
        once.train(X[:at], Y[:at])
        got, want = coef(r, d, bias), coef(once, d, bias)
        c.close(full(*got, bias), full(*want, bias), tag + "/vs-batch",
                "after %d of %s" % (at, sizes), rtol=1e-5)
        c.event("increments")
    linear(c, r, X, bias, tag)
    # a regressor that cannot be incremented says so and is left as it was
    r = new(False)
    r.train(X[:sizes[0]], Y[:sizes[0]])
    before = coef(r, d, bias)
    c.raises(ValueError, lambda: r.increment(X[sizes[0]:], Y[sizes[0]:]),
             tag + "/not-incrementable")
    after = coef(r, d, bias)
    c.check(np.array_equal(before[0], after[0]) and
            np.array_equal(before[1], after[1]), tag + "/failed-changes-model")
    c.seen("inc", which, alpha, alpha2, bias, sizes, d, m)


def case_indirect(c):
    from menpofit.math import IIRLRegression
    rng = c.rng
    m = rng.randint(1, 6)
    d = m + rng.randint(0, 10)
    n = rng.randint(m + 4, 40)
    alpha = [0, .02, 1., 5.][rng.randint(4)]
    alpha2 = [0, 0, .1, 2.][rng.randint(4)]
    Y = rng.randn(n, m) * np.exp(rng.uniform(-1, 1, m))
    B = rng.randn(m, d)
    X = Y.dot(B) + .3 * rng.randn(n, d)
    wellposed(Y)
    wellposed(B)
    r = IIRLRegression(alpha=alpha, alpha2=alpha2, bias=rng.rand() < .5)
    c.note(n=n, d=d, m=m, alpha=alpha, alpha2=alpha2)
    c.check(kept(lambda: r.train(X, Y), X, Y), "indirect/train-mutates")
    A, b = linear(c, r, X, False, "indirect")
    J = ridge(Y, X, alpha, False)
    # y(x) = argmin |x - y J|^2 + alpha2 |y|^2
    z = rng.randn(4, d)
    Js = np.vstack([J.T, np.sqrt(alpha2) * np.eye(m)])
    want = np.linalg.lstsq(Js, np.vstack([z.T, np.zeros((m, 4))]),
                           rcond=None)[0].T
    c.close(z.dot(A), want, "indirect/solution", rtol=1e-6)
    c.event("indirect")
    c.seen("indirect", n, d, m, alpha, alpha2)
    # noiseless forward data are inverted exactly
    r = IIRLRegression(alpha=0, alpha2=0)
    X0 = Y.dot(B)
    r.train(X0, Y)
    c.close(r.predict(X0), Y, "indirect/noiseless", rtol=1e-6)
    c.event("noiseless")


def pc_ls(Xa, Y, k):
    U, s, V = np.linalg.svd(Xa, full_matrices=False)
    return V[:k].T.dot((U[:, :k].T.dot(Y)) / s[:k, None])


def case_pcr(c):
    from menpofit.math import PCRRegression, OptimalLinearRegression
    rng = c.rng
    which = rng.randint(2)
    bias = rng.rand() < .5
    d, m = rng.randint(1, 12), rng.randint(1, 6)
    n = rng.randint(2, 40)
    X, Y, _ = data(rng, n, d, m)
    if which == 1:
        # the directions correlated with the output must be resolvable
        Y = Y / (1e-12 + Y.std(0))[None]
    Y = Y + .2 * rng.randn(*Y.shape)
    Xa = aug(X, bias)
    s = np.linalg.svd(Xa, compute_uv=False)
    if s[-1] < 1e-3 * s[0]:
        raise Skip()
    energy = s if which == 0 else s ** 2
    cum = np.cumsum(energy) / np.sum(energy)
    variance = None if rng.rand() < .3 else float(rng.uniform(.2, .999))
    if variance is not None and np.min(np.abs(cum - variance)) < 1e-9:
        raise Skip()
    k = len(s) if variance is None else int(np.sum(cum < variance)) + 1
    cls = [PCRRegression, OptimalLinearRegression][which]
    tag = ["pcr", "optimal"][which]
    r = cls(variance=variance, bias=bias)
    c.note(cls=tag, n=n, d=d, m=m, variance=variance, bias=bias, k=k)
    c.check(kept(lambda: r.train(X, Y), X, Y), tag + "/train-mutates")
    A, b = linear(c, r, X, bias, tag)
    W = pc_ls(Xa, Y, k)
    if which == 1:
        # conditioning of the directions the optimal regression looks for
        q = np.linalg.svd(Xa, full_matrices=False)[0][:, :k].T.dot(Y)
        sq = np.linalg.svd(q, compute_uv=False)
        sq = sq[:min(k, m)]
        if sq[-1] < 1e-3 * sq[0]:
            raise Skip()
    c.close(full(A, b, bias), W, tag + "/solution",
            "k=%d of %d" % (k, len(s)), rtol=1e-5)
    # retained components reach the requested share, one less does not
    if variance is not None:
        rank = np.linalg.matrix_rank(full(A, b, bias),
                                     tol=1e-8 * np.abs(W).max())
        c.check(rank <= k, tag + "/rank", lambda: "%d > %d" % (rank, k))
    c.event(tag)
    c.seen(tag, n, d, m, variance, bias)


def case_opp(c):
    from menpofit.math import OPPRegression
    rng = c.rng
    bias = rng.rand() < .4
    whiten = rng.rand() < .4
    d, m = rng.randint(1, 10), rng.randint(1, 10)
    n = rng.randint(d + 3, 50)
    X, Y, _ = data(rng, n, d, m)
    Y = Y + .3 * rng.randn(*Y.shape)
    Xa = aug(X, bias)
    wellposed(Xa, 1e3)
    r = OPPRegression(bias=bias, whiten=whiten)
    c.note(n=n, d=d, m=m, bias=bias, whiten=whiten)
    c.check(kept(lambda: r.train(X, Y), X, Y), "opp/train-mutates")
    A, b = linear(c, r, X, bias, "opp")
    R = full(A, b, bias)
    k = min(R.shape)
    G = R.T.dot(R) if R.shape[0] >= R.shape[1] else R.dot(R.T)
    c.close(G, np.eye(k), "opp/orthogonal", rtol=1e-7)
    M = Xa.T.dot(Y)
    if whiten:
        M = np.linalg.solve(Xa.T.dot(Xa), M)
    sv = np.linalg.svd(M, compute_uv=False)
    if k and sv[k - 1] > 1e-6 * sv[0]:
        # best orthogonal map: attains the nuclear norm
        c.close(np.sum(R * M), np.sum(sv), "opp/optimal", rtol=1e-7)
        c.event("opp")
    c.seen("opp", n, d, m, bias, whiten)
    # an orthogonal map is recovered from noiseless data
    q = np.linalg.qr(rng.randn(d, d))[0]
    r = OPPRegression(bias=False, whiten=whiten)
    wellposed(X, 1e3)
    r.train(X, X.dot(q))
    c.close(r.predict(X), X.dot(q), "opp/noiseless", rtol=1e-6)
    c.event("noiseless")


def case_noiseless(c):
    """Exact on noiseless (affine) data, including inputs never seen."""
    from menpofit.math import (IRLRegression, PCRRegression,
                               OptimalLinearRegression)
    rng = c.rng
    d, m = rng.randint(1, 10), rng.randint(1, 6)
    n = rng.randint(d + 3, 60)
    bias = rng.rand() < .5
    X, _, W = data(rng, n, d, m)
    W = W / np.abs(W).max(0)
    b0 = rng.uniform(-2, 2, m) * bias
    Y = X.dot(W) + b0
    wellposed(aug(X, bias), 1e3)
    Z = rng.randn(7, d) * 3
    for cls in (IRLRegression, PCRRegression, OptimalLinearRegression):
        if cls is OptimalLinearRegression:
            q = np.linalg.svd(aug(X, bias), full_matrices=False)[0].T.dot(Y)
            s = np.linalg.svd(q, compute_uv=False)[:min(d + bias, m)]
            if s[-1] < 1e-3 * s[0]:
                continue
        r = cls(bias=bias)
        r.train(X, Y)
        c.close(r.predict(Z), Z.dot(W) + b0, "noiseless/" + cls.__name__,
                rtol=1e-5)
        c.event("noiseless")
    c.seen("noiseless", n, d, m, bias)


CASES = {"ridge": (case_ridge, 1800, 6000),
         "increment": (case_increment, 1800, 6000),
         "indirect": (case_indirect, 1200, 4000),
         "pcr": (case_pcr, 2400, 8000),
         "opp": (case_opp, 1200, 4000),
         "noiseless": (case_noiseless, 900, 3000)}
REQUIRED = {"ridge": 100, "increments": 200, "indirect": 80, "pcr": 50,
            "optimal": 50, "opp": 50, "noiseless": 200}
