"""Workload generators: random shapes, landmarked textures, configurations."""
import numpy as np

from menpo.image import Image, MaskedImage
from menpo.shape import (PointCloud, PointUndirectedGraph, TriMesh,
                         PointDirectedGraph, LabelledPointUndirectedGraph)


def quiet_pc(points):
    return PointCloud(np.array(points, dtype=float), copy=False)


def spread_points(rng, n, h=100.0, w=80.0, min_dist=None):
    """n well separated points in an h x w box, corners roughly occupied."""
    if min_dist is None:
        min_dist = 0.45 * np.sqrt(h * w / n)
    pts = [np.array([rng.uniform(0, .1) * h, rng.uniform(0, .1) * w]),
           np.array([rng.uniform(0, .1) * h, rng.uniform(.9, 1) * w]),
           np.array([rng.uniform(.9, 1) * h, rng.uniform(.9, 1) * w]),
           np.array([rng.uniform(.9, 1) * h, rng.uniform(0, .1) * w])]
    pts = pts[:n]
    tries = 0
    while len(pts) < n:
        p = np.array([rng.uniform(0, h), rng.uniform(0, w)])
        d = np.min([np.linalg.norm(p - q) for q in pts])
        tries += 1
        if d > min_dist * (0.995 ** tries):
            pts.append(p)
            tries = 0
    return np.array(pts)


def rot(theta):
    c, s = np.cos(theta), np.sin(theta)
    return np.array([[c, -s], [s, c]])


class ShapeFamily(object):
    """mean + smooth modes of variation, posed by a similarity."""

    def __init__(self, rng, n_points=14, h=60.0, w=48.0, n_modes=5,
                 mode_std=0.03, kind="points"):
        self.rng, self.n, self.kind = rng, n_points, kind
        self.mean = spread_points(rng, n_points, h, w)
        self.mean -= self.mean.mean(0)
        self.size = np.sqrt(h * h + w * w)
        # smooth low frequency displacement fields keep triangles unflipped
        self.modes = []
        for k in range(n_modes):
            f = rng.uniform(-1.2, 1.2, (2, 2)) * 2 * np.pi / self.size
            ph = rng.uniform(0, 2 * np.pi, 2)
            m = np.stack([np.sin(self.mean.dot(f[d]) + ph[d]) for d in (0, 1)], 1)
            self.modes.append(m * mode_std * self.size / (1 + 0.5 * k))
        self.trilist = None
        if kind == "trimesh":
            from menpo.shape import TriMesh as T
            from scipy.spatial import Delaunay
            self.trilist = Delaunay(self.mean).simplices.astype(int)
        self.adj = None
        if kind == "graph":
            import scipy.sparse as sp
            n = n_points
            a = np.zeros((n, n))
            for i in range(n - 1):
                a[i, i + 1] = a[i + 1, i] = 1
            self.adj = sp.csr_matrix(a)

    def wrap(self, pts):
        pts = np.array(pts, dtype=float)
        if self.kind == "trimesh":
            return TriMesh(pts, trilist=self.trilist.copy())
        if self.kind == "graph":
            return PointUndirectedGraph(pts, self.adj.copy())
        return PointCloud(pts)

    def raw(self, rng, amount=1.0):
        p = self.mean.copy()
        for m in self.modes:
            p = p + amount * rng.randn() * m
        return p

    def sample(self, rng, centre=(60., 60.), scale=(0.9, 1.1), angle=0.1,
               shift=3.0, amount=1.0):
        p = self.raw(rng, amount)
        p = rng.uniform(*scale) * p.dot(rot(rng.uniform(-angle, angle)).T)
        p = p + np.asarray(centre) + rng.uniform(-shift, shift, 2)
        return self.wrap(p)


class TextureFamily(object):
    """Landmark-locked smooth textures: every landmark owns a coloured blob,
    rendered wherever the landmark is, plus a smooth global gradient."""

    def __init__(self, rng, n_points, channels=1, sigma=7.0, n_modes=3,
                 noise=0.0):
        self.amp = rng.uniform(-1, 1, (channels, n_points))
        self.var = rng.uniform(-.25, .25, (n_modes, channels, n_points))
        self.sig = sigma * rng.uniform(0.7, 1.3, n_points)
        self.channels, self.noise = channels, noise

    def render(self, rng, pts, shape, amount=1.0):
        a = self.amp.copy()
        for v in self.var:
            a = a + amount * rng.randn() * v
        yy, xx = np.mgrid[:shape[0], :shape[1]]
        out = np.zeros((self.channels,) + tuple(shape))
        c = pts.mean(0)
        for k in range(len(pts)):
            g = np.exp(-((yy - pts[k, 0]) ** 2 + (xx - pts[k, 1]) ** 2) /
                       (2 * self.sig[k] ** 2))
            out += a[:, k][:, None, None] * g
        d = 0.004 * (yy - c[0]) + 0.003 * (xx - c[1])
        out = 0.5 + 0.2 * out + d[None] * 0.5
        if self.noise:
            out = out + self.noise * rng.randn(*out.shape)
        return out


def dataset(rng, n=6, n_points=12, shape=(110, 100), channels=1, kind="points",
            h=60.0, w=48.0, group="PTS", extra_group=False, noise=0.0,
            scale=(0.9, 1.1), angle=0.1, shift=3.0, mode_std=0.03,
            masked=False, sigma=7.0, amount=1.0, tex_amount=1.0):
    fam = ShapeFamily(rng, n_points, h, w, kind=kind, mode_std=mode_std)
    tex = TextureFamily(rng, n_points, channels, noise=noise, sigma=sigma)
    images = []
    base, varied = np.array(shape), rng.rand() < .5
    for _ in range(n):
        # images of one size, or each of its own
        room = rng.randint(0, 16, 2) if varied else np.zeros(2, dtype=int)
        shape = tuple(int(x) for x in base + room)
        s = fam.sample(rng, centre=base / 2. + room * rng.rand(2), scale=scale,
                       angle=angle, shift=shift, amount=amount)
        px = tex.render(rng, s.points, shape, amount=tex_amount)
        im = MaskedImage(px) if masked else Image(px)
        im.landmarks[group] = s
        if extra_group:
            im.landmarks["bb_det"] = s.bounding_box()
        images.append(im)
    return fam, tex, images


def perturb(rng, shape, scale=0.02, angle=0.03, shift=1.5, noise=0.0):
    p = shape.points
    c = p.mean(0)
    q = (1 + rng.uniform(-scale, scale)) * (p - c).dot(
        rot(rng.uniform(-angle, angle)).T) + c + rng.uniform(-shift, shift, 2)
    if noise:
        q = q + noise * rng.randn(*q.shape)
    out = shape.copy()
    out.points[...] = q
    return out


def snapshot_image(im):
    """Everything a caller can observe of an image."""
    lms = {}
    if im.has_landmarks:
        for g in im.landmarks.group_labels:
            s = im.landmarks[g]
            lms[g] = (type(s).__name__, s.points.copy())
    mask = im.mask.pixels.copy() if isinstance(im, MaskedImage) else None
    return (type(im).__name__, im.pixels.copy(), im.pixels.dtype.str, mask, lms,
            getattr(im, "path", None))


def diff_image(a, b):
    if a[0] != b[0]:
        return "type {} -> {}".format(a[0], b[0])
    if a[2] != b[2] or a[1].shape != b[1].shape or not np.array_equal(
            a[1], b[1], equal_nan=a[1].dtype.kind == "f"):
        return "pixels changed"
    if (a[3] is None) != (b[3] is None) or (
            a[3] is not None and not np.array_equal(a[3], b[3])):
        return "mask changed"
    if list(a[4]) != list(b[4]):
        return "landmark groups {} -> {}".format(list(a[4]), list(b[4]))
    for g in a[4]:
        if a[4][g][0] != b[4][g][0] or not np.array_equal(a[4][g][1], b[4][g][1]):
            return "landmark group {} changed".format(g)
    return None


def smooth_image(rng, shape=(90, 80), channels=1, waves=8, fmax=5.0):
    yy, xx = np.mgrid[:shape[0], :shape[1]]
    out = np.zeros((channels,) + tuple(shape))
    for c in range(channels):
        for _ in range(waves):
            f = rng.uniform(-fmax, fmax, 2)
            out[c] += rng.uniform(.2, 1) * np.sin(
                2 * np.pi * (f[0] * yy / shape[0] + f[1] * xx / shape[1]) +
                rng.uniform(0, 2 * np.pi))
    out -= out.min()
    return out / out.max()


def stamped_dataset(rng, n=6, n_points=9, shape=(150, 140), channels=1, h=90.0,
                    w=80.0, sigma=5.0, grain=1.3, background=0.05,
                    mode_std=0.02, angle=0.05, scale=(0.97, 1.03), shift=2.0,
                    group="PTS", amount=1.0):
    """Images whose landmarks each carry their own distinctive texture, the
    same in every image (rendered at sub-pixel positions)."""
    from scipy.ndimage import gaussian_filter, map_coordinates
    fam = ShapeFamily(rng, n_points, h, w, mode_std=mode_std)
    base, varied = np.array(shape), rng.rand() < .5
    r = 24
    stamps = gaussian_filter(rng.randn(n_points, channels, 2 * r + 1, 2 * r + 1),
                             (0, 0, grain, grain))
    stamps /= stamps.std(axis=(2, 3), keepdims=True)
    images = []
    for _ in range(n):
        room = rng.randint(0, 16, 2) if varied else np.zeros(2, dtype=int)
        shape = tuple(int(x) for x in base + room)
        s = fam.sample(rng, centre=base / 2. + room * rng.rand(2), scale=scale,
                       angle=angle, shift=shift, amount=amount)
        px = background * gaussian_filter(rng.randn(channels, *shape),
                                          (0, grain, grain)) / .2
        yy, xx = np.mgrid[:shape[0], :shape[1]]
        for k, p in enumerate(s.points):
            win = np.exp(-((yy - p[0]) ** 2 + (xx - p[1]) ** 2) /
                         (2 * sigma ** 2))
            sel = win > 1e-4
            co = np.array([(yy - p[0])[sel] + r, (xx - p[1])[sel] + r])
            for c in range(channels):
                px[c][sel] += win[sel] * map_coordinates(
                    stamps[k, c], co, order=1, mode="nearest")
        im = Image(0.5 + 0.15 * px)
        im.landmarks[group] = s
        images.append(im)
    return fam, images
