"""M23: frequency domain filtering equals spatial filtering."""
import numpy as np
from scipy import signal

from .core import Skip

ID = "M23"
RULE = ("random images, kernels and training patches of every parity and "
        "channel count through pad, crop, the convolutions (spatial and "
        "frequency domain filters, arrays and menpo images) and the "
        "correlation filters; distinct when shapes, channels, mode, boundary "
        "and regularisation differ")
ASSUMPTIONS = ["along an axis on which an even kernel has no central pixel, "
               "either of the two nearest centrings is accepted",
               "with symmetric boundaries and even kernels the outermost "
               "row and column are not decided",
               "a frequency domain filter smaller than image + kernel - 1 "
               "convolves circularly on its own support, as the FFT does"]


def case_pad(c):
    from menpofit.math.fft_utils import pad, crop
    rng = c.rng
    lead = [(), (1,), (3,), (2, 4)][rng.randint(4)]
    h, w = rng.randint(1, 14, 2)
    eh, ew = h + rng.randint(0, 12), w + rng.randint(0, 12)
    boundary = ["constant", "symmetric"][rng.randint(2)]
    if rng.rand() < .7:
        # menpofit pads by less than the image itself
        eh, ew = min(eh, 3 * h - 1), min(ew, 3 * w - 1)
    x = rng.randn(*(lead + (h, w)))
    keep = x.copy()
    p = pad(x, (eh, ew), boundary=boundary)
    c.note(shape=x.shape, ext=(eh, ew), boundary=boundary)
    c.check(p.shape == lead + (eh, ew), "pad/shape",
            lambda: "%s -> %s" % (x.shape, p.shape))
    c.check(np.array_equal(x, keep), "pad/mutates")
    back = crop(p, (h, w))
    c.check(back.shape == x.shape and np.array_equal(back, x),
            "pad-crop/not-inverse")
    # centred: the margins on both sides differ by at most one pixel and hold
    # what the boundary says
    found = None
    for t in range(eh - h + 1):
        for l in range(ew - w + 1):
            if np.array_equal(p[..., t:t + h, l:l + w], x):
                if (abs(t - (eh - h - t)) <= 1 and abs(l - (ew - w - l)) <= 1):
                    found = (t, l)
    if c.check(found is not None, "pad/not-centred"):
        t, l = found
        widths = [(0, 0)] * len(lead) + [(t, eh - h - t), (l, ew - w - l)]
        c.check(np.array_equal(p, np.pad(x, widths, mode=boundary)),
                "pad/boundary")
    # cropping keeps the middle
    ch, cw = rng.randint(1, h + 1), rng.randint(1, w + 1)
    q = crop(x, (ch, cw))
    ok = False
    for t in {(h - ch) // 2, (h - ch + 1) // 2}:
        for l in {(w - cw) // 2, (w - cw + 1) // 2}:
            ok |= q.shape == lead + (ch, cw) and np.array_equal(
                q, x[..., t:t + ch, l:l + cw])
    c.check(ok, "crop/not-centred", lambda: "%s to %s" % (x.shape, (ch, cw)))
    c.event("pads")
    c.seen("pad", lead, h, w, eh, ew, boundary)


def spatial(x, f, mode, boundary):
    """Direct convolution of each channel; every admissible centring."""
    fh, fw = f.shape[-2:]
    full = np.stack([signal.convolve2d(a, b, "full") for a, b in zip(x, f)])
    h, w = x.shape[-2:]
    if mode == "full":
        return [full]
    if mode == "valid":
        return [full[:, fh - 1:h, fw - 1:w]]
    out = []
    ts = {(fh - 1) // 2, fh // 2}
    ls = {(fw - 1) // 2, fw // 2}
    for t in sorted(ts):
        for l in sorted(ls):
            out.append(full[:, t:t + h, l:l + w])
    return out


def _direct(x, f):
    out = np.zeros((x.shape[0] + f.shape[0] - 1, x.shape[1] + f.shape[1] - 1))
    for i in range(f.shape[0]):
        for j in range(f.shape[1]):
            out[i:i + x.shape[0], j:j + x.shape[1]] += f[i, j] * x
    return out


def any_close(c, got, options, mech, msg=""):
    c.checks += 1
    got = np.asarray(got)
    best = None
    for o in options:
        if o.shape == got.shape:
            d = np.max(np.abs(o - got)) if o.size else 0.
            s = 1e-9 * (1 + np.max(np.abs(o))) if o.size else 1
            if d <= s:
                return True
            best = d if best is None else min(best, d)
    c.violate(mech, "%s got %s, expected %s, off by %s" % (
        msg, got.shape, options[0].shape, best))
    return False


def draw_xf(rng, k=None):
    h, w = rng.randint(6, 24, 2)
    fh, fw = rng.randint(1, min(h, 12) + 1), rng.randint(1, min(w, 12) + 1)
    k = k or rng.randint(1, 4)
    return rng.randn(k, h, w), rng.randn(k, fh, fw)


def case_convolve(c):
    from menpo.image import Image
    from menpofit.math import fft_utils as F
    rng = c.rng
    x, f = draw_xf(rng)
    mode = ["full", "same", "valid"][rng.randint(3)]
    c.note(x=x.shape, f=f.shape, mode=mode)
    kx, kf = x.copy(), f.copy()
    want = spatial(x, f, mode, "constant")
    got = F.fft_convolve2d(x, f, mode=mode)
    any_close(c, got, want, "convolve/" + mode)
    keepdims = bool(rng.randint(2))
    gs = F.fft_convolve2d_sum(x, f, mode=mode, axis=0, keepdims=keepdims)
    any_close(c, gs, [o.sum(0, keepdims=keepdims) for o in want],
              "convolve-sum/" + mode)
    c.check(np.array_equal(x, kx) and np.array_equal(f, kf),
            "convolve/mutates")
    # channels are treated alike
    perm = rng.permutation(len(x))
    c.close(F.fft_convolve2d(x[perm], f[perm], mode=mode), got[perm],
            "convolve/channels")
    # one image filtered with every filter of a bank, batched
    xb = np.stack([x, x[::-1] * 2])
    gb = F.fft_convolve2d_sum(xb, np.stack([f, f]), mode=mode, axis=1)
    any_close(c, gb[0], [o.sum(0, keepdims=True) for o in want],
              "convolve-sum/batch")
    # a frequency domain filter is the transform of the padded spatial filter
    ext = np.array(x.shape[-2:]) + np.array(f.shape[-2:]) - 1
    ff = F.fft2(F.pad(f, ext))
    any_close(c, F.fft_convolve2d(x, ff, mode=mode, fft_filter=True), want,
              "convolve-fft-filter/" + mode)
    any_close(c, F.fft_convolve2d_sum(x, ff, mode=mode, fft_filter=True),
              [o.sum(0, keepdims=True) for o in want],
              "convolve-sum-fft-filter/" + mode)
    # menpo images in, menpo images out
    if mode == "same":
        im = Image(x)
        out = F.fft_convolve2d(im, f, mode=mode)
        c.check(isinstance(out, Image), "convolve/image-type")
        any_close(c, out.pixels, want, "convolve/image")
        any_close(c, F.fft_convolve2d(im, Image(f), mode=mode).pixels, want,
                  "convolve/image-image")
        any_close(c, F.fft_convolve2d(x, Image(f), mode=mode), want,
                  "convolve/array-image")
    c.raises(ValueError, lambda: F.fft_convolve2d(x, f, mode="other"),
             "convolve/bad-mode")
    c.event("convolutions")
    c.seen("conv", x.shape, f.shape, mode)


def case_boundary(c):
    """Symmetric boundaries and filters on a given frequency support."""
    from menpofit.math import fft_utils as F
    rng = c.rng
    x, f = draw_xf(rng)
    h, w = x.shape[-2:]
    fh, fw = f.shape[-2:]
    # symmetric boundary: same as convolving the reflected image
    big = np.pad(x, [(0, 0), (fh, fh), (fw, fw)], mode="symmetric") \
        if fh <= h and fw <= w else None
    if big is None:
        raise Skip()
    want = []
    full = np.stack([_direct(big[i], f[i]) for i in range(len(x))])
    for t in sorted({(fh - 1) // 2, fh // 2}):
        for l in sorted({(fw - 1) // 2, fw // 2}):
            want.append(full[:, fh + t:fh + t + h, fw + l:fw + l + w])
    # (an even kernel may read one pixel more than the margin it is given)
    eh, ew = int(fh % 2 == 0), int(fw % 2 == 0)
    cut = (slice(None), slice(eh, h - eh), slice(ew, w - ew))
    want = [o[cut] for o in want]
    got = F.fft_convolve2d(x, f, mode="same", boundary="symmetric")
    any_close(c, got[cut], want, "convolve/symmetric")
    got = F.fft_convolve2d_sum(x, f, boundary="symmetric")
    any_close(c, got[cut], [o.sum(0, keepdims=True) for o in want],
              "convolve-sum/symmetric")
    # a filter given by its transform meets the same image
    ff = F.fft2(F.pad(f, (h + fh - 1, w + fw - 1)))
    got = F.fft_convolve2d(x, ff, mode="same", boundary="symmetric",
                           fft_filter=True)
    any_close(c, got[cut], want, "convolve-fft-filter/symmetric")
    got = F.fft_convolve2d_sum(x, ff, boundary="symmetric", fft_filter=True)
    any_close(c, got[cut], [o.sum(0, keepdims=True) for o in want],
              "convolve-sum-fft-filter/symmetric")
    # smaller frequency support: circular convolution of the padded image
    ext = (h + rng.randint(0, fh + 1), w + rng.randint(0, fw + 1))
    if ext[0] < fh or ext[1] < fw:
        raise Skip()
    ff = F.fft2(F.pad(f, ext))
    got = F.fft_convolve2d(x, ff, mode="same", fft_filter=True)
    ref = spatial(x, f, "same", "constant")
    # inside the band reached by wrapping round, it is the plain convolution
    bt, bl = (fh + 1) // 2, (fw + 1) // 2
    if h > 2 * bt and w > 2 * bl:
        any_close(c, got[:, bt:h - bt, bl:w - bl],
                  [o[:, bt:h - bt, bl:w - bl] for o in ref],
                  "convolve-fft-filter/interior",
                  "%s %s on %s" % (x.shape, f.shape, ext))
    c.event("boundaries")
    c.seen("boundary", x.shape, f.shape, ext)


def conv_matrix(xe):
    """Circular convolution with xe as a matrix acting on the filter."""
    h, w = xe.shape
    M = np.zeros((h * w, h * w))
    for i in range(h):
        for j in range(w):
            M[:, i * w + j] = np.roll(xe, (i, j), (0, 1)).ravel()
    return M


def draw_train(rng, k=None, odd=True):
    k = k or rng.randint(1, 4)
    n = rng.randint(1, 6)
    hy, wy = rng.randint(1, 4, 2) * 2 + 1
    hx, wx = rng.randint(2, 6, 2) * 2 + 1
    if not odd:
        hx, wx = hx + rng.randint(0, 2), wx + rng.randint(0, 2)
    X = rng.randn(n, k, hx, wx)
    yy, xx = np.mgrid[:hy, :wy]
    y = np.exp(-((yy - hy // 2) ** 2 + (xx - wx * 0 - wy // 2) ** 2) / 2.)
    if rng.rand() < .4:
        y = rng.randn(hy, wy)
    return X, y[None]


def solve(X, y, l, boundary, joint):
    """Regularised least squares for the extended filter, by dense algebra."""
    from menpofit.math.fft_utils import pad
    n, k, hx, wx = X.shape
    ext = (hx + y.shape[1] - 1, wx + y.shape[2] - 1)
    ye = np.asarray(pad(y, ext))[0]
    d = ext[0] * ext[1]
    G = np.zeros((k * d, k * d))
    r = np.zeros(k * d)
    # the centre of the extended grid is where padded arrays are centred
    for x in X:
        A = np.hstack([conv_matrix(np.asarray(pad(x[i:i + 1], ext, boundary))[0])
                       for i in range(k)])
        G += A.T.dot(A)
        r += A.T.dot(ye.ravel())
    if joint:
        f = np.linalg.solve(G + l * np.eye(k * d), r)
        return f.reshape((k,) + ext), ext, ye
    out = []
    for i in range(k):
        s = slice(i * d, (i + 1) * d)
        out.append(np.linalg.solve(G[s, s] + l * np.eye(d), r[s]))
    return np.array(out).reshape((k,) + ext), ext, ye


def recentre(f):
    """Filter with its origin at pixel 0 -> centred in the extended frame."""
    return np.fft.fftshift(f, axes=(-2, -1))


def case_train(c):
    from menpofit.math import mosse, mccf, imosse, imccf
    from menpofit.math.fft_utils import crop, pad
    rng = c.rng
    joint = rng.rand() < .5
    fn, ifn = (mccf, imccf) if joint else (mosse, imosse)
    tag = fn.__name__
    X, y = draw_train(rng, k=rng.randint(1, 3), odd=rng.rand() < .7)
    l = float(10 ** rng.uniform(-3, .5))
    boundary = ["constant", "symmetric"][rng.randint(2)]
    c.note(which=tag, X=X.shape, y=y.shape, l=l, boundary=boundary)
    kX, ky = X.copy(), y.copy()
    f, A, B = fn(X, y, l=l, boundary=boundary, crop_filter=False)
    want, ext, ye = solve(X, y, l, boundary, joint)
    c.close(f, recentre(want), tag + "/least-squares", rtol=1e-6)
    fc = fn(X, y, l=l, boundary=boundary)[0]
    c.check(fc.shape == (X.shape[1],) + y.shape[1:], tag + "/crop-shape")
    c.close(fc, crop(f, y.shape[1:]), tag + "/crop")
    c.check(np.array_equal(X, kX) and np.array_equal(y, ky), tag + "/mutates")
    # the order of the training samples is irrelevant, the sums are linear
    p = rng.permutation(len(X))
    c.close(fn(X[p], y, l=l, boundary=boundary)[0], fc, tag + "/order",
            rtol=1e-7)
    # the response on the data is the desired one when it can be
    if len(X) == 1:
        f0 = fn(X, y, l=1e-9, boundary=boundary, crop_filter=False)[0]
        resp = 0
        spec = np.fft.fft2(np.asarray(pad(X[0], ext, boundary)))
        mag = np.abs(spec) if not joint else np.sqrt(
            (np.abs(spec) ** 2).sum(0, keepdims=True))
        if mag.min() > 3e-2:
            org = np.fft.ifftshift(f0, axes=(-2, -1))
            r = np.real(np.fft.ifft2(np.fft.fft2(org) * spec))
            r = r.sum(0) if joint else r
            c.close(r, ye if joint else np.broadcast_to(ye, r.shape),
                    tag + "/response", atol=1e-4)
            c.event("responses")
    # incremental training on any split is training on everything
    cuts = sorted(rng.choice(np.arange(1, 9), rng.randint(1, 4), False))
    Z = rng.randn(10, *X.shape[1:])
    parts = np.split(Z, cuts)
    fi, a, b = fn(parts[0], y, l=l, boundary=boundary)
    n_ab = len(parts[0])
    for q in parts[1:]:
        ka, kq = a.copy(), q.copy()
        fi, a2, b2 = ifn(a, b, n_ab, q, y, l=l, boundary=boundary)
        c.check(np.array_equal(kq, q) and np.array_equal(ka, a),
                tag + "/increment-mutates")
        a, b = a2, b2
        n_ab += len(q)
        once, a1, b1 = fn(Z[:n_ab], y, l=l, boundary=boundary)
        c.close(fi, once, tag + "/increment-vs-batch",
                "after %d of 10, cuts %s" % (n_ab, list(cuts)), rtol=1e-6)
        c.close(a, a1, tag + "/increment-sums", rtol=1e-8)
        dense = [m.toarray() if hasattr(m, "toarray") else m for m in (b, b1)]
        c.close(dense[0], dense[1], tag + "/increment-sums", rtol=1e-8)
        c.event("increments")
    # forgetting everything leaves the filter of the new samples
    fo = ifn(a, b, n_ab, parts[0], y, l=l, boundary=boundary, f=0.0)[0]
    c.close(fo, fn(parts[0], y, l=l, boundary=boundary)[0],
            tag + "/forget-all", rtol=1e-6)
    c.event(tag)
    c.seen(tag, X.shape, y.shape, round(l, 3), boundary)


def case_channels(c):
    """One channel: both filters coincide; permuting channels permutes."""
    from menpofit.math import mosse, mccf
    rng = c.rng
    X, y = draw_train(rng, k=1)
    l = float(10 ** rng.uniform(-3, .5))
    c.close(mosse(X, y, l=l)[0], mccf(X, y, l=l)[0], "filters/one-channel",
            rtol=1e-6)
    X, y = draw_train(rng, k=3)
    p = rng.permutation(3)
    for fn in (mosse, mccf):
        c.close(fn(X[:, p], y, l=l)[0], fn(X, y, l=l)[0][p],
                "filters/channel-order/" + fn.__name__, rtol=1e-6)
    c.event("channel-orders")
    c.seen("channels", X.shape, y.shape)


CASES = {"pad": (case_pad, 1800, 6000), "convolve": (case_convolve, 1200, 4000),
         "boundary": (case_boundary, 1200, 4000), "train": (case_train, 360, 1200),
         "channels": (case_channels, 240, 800)}
REQUIRED = {"pads": 200, "convolutions": 100, "boundaries": 100, "mccf": 10,
            "mosse": 10, "increments": 50, "channel-orders": 20,
            "responses": 2}
