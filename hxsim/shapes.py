"""Independent double-precision geometry of the colliders: signed distance, normal, friction and surface velocity."""
import math


def rotation(r, dim):
    import numpy as np
    if dim == 2:
        c, q = math.cos(float(r)), math.sin(float(r))
        return np.array([[c, -q], [q, c]])
    w, x, y, z = np.asarray(r, np.float64) / np.linalg.norm(np.asarray(r, np.float64))
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def _corner(*d):
    """Distance to the intersection of slabs at the signed distances d."""
    import numpy as np
    d = np.stack(d, -1)
    return np.linalg.norm(np.maximum(d, 0), axis=-1) + np.minimum(d.max(-1), 0)


def local(s, y):
    """Signed distance (negative inside the solid) at y, in the collider's own frame."""
    import numpy as np
    t = s["type"]
    if t == "domain":
        return np.min(np.concatenate([y - np.asarray(s["origin"]), np.asarray(s["end"]) - y], -1), -1)
    if t == "plane":
        n = np.asarray(s["normal"], float)
        return y @ (n / np.linalg.norm(n))
    if t == "sphere":
        return np.linalg.norm(y, axis=-1) - s["radius"]
    if t == "box":
        return _corner(*np.moveaxis(np.abs(y) - np.asarray(s["size"]) / 2, -1, 0))
    if t == "capsule":
        q = y.copy()
        q[..., 1] -= np.clip(q[..., 1], -s["height"] / 2, s["height"] / 2)
        return np.linalg.norm(q, axis=-1) - s["radius"]
    if t == "composite":
        return np.min([local(p, y) for p in s["parts"]], 0)
    r = np.sqrt(y[..., 0] ** 2 + (y[..., 2] ** 2 if y.shape[-1] == 3 else 0))
    if t == "cylinder":
        return _corner(r - s["radius"], np.abs(y[..., 1]) - s["height"] / 2)
    if t == "torus":
        return np.hypot(r - s["major"], y[..., 1]) - s["minor"]
    if t == "hollow":
        if y.shape[-1] == 2 and s["ring"]:
            r = np.linalg.norm(y, axis=-1)
            return np.maximum(r - s["outer"], s["inner"] - r)
        return _corner(np.maximum(r - s["outer"], s["inner"] - r), np.abs(y[..., 1]) - s["height"] / 2)
    if t == "gridsdf":
        from .spec import voxels
        V = voxels().astype(np.float64)
        sc = s.get("scale", 1.0)
        u = np.clip((y / sc + 0.5) * 16, 0, 16)
        i = np.minimum(np.floor(u).astype(int), 15)
        f = u - i
        d = 0.0
        for a in (0, 1):
            for b in (0, 1):
                for c in (0, 1):
                    w = (f[..., 0] if a else 1 - f[..., 0]) * (f[..., 1] if b else 1 - f[..., 1]) * (f[..., 2] if c else 1 - f[..., 2])
                    d = d + w * V[i[..., 0] + a, i[..., 1] + b, i[..., 2] + c]
        return d * sc - s.get("thickness", 1e-7)
    if t == "star":                     # the polygon with the library's default radii
        n, ro, ri = 5, 1.0, 0.5
        k = np.arange(2 * n)
        rad = np.where(k % 2 == 0, ro, ri)
        P = np.stack([rad * np.sin(k * np.pi / n), rad * np.cos(k * np.pi / n)], -1)
        best, inside = np.full(y.shape[:-1], np.inf), np.zeros(y.shape[:-1], bool)
        for a, b in zip(P, np.roll(P, -1, 0)):
            e, w = b - a, y - a
            q = w - np.clip((w @ e) / (e @ e), 0, 1)[..., None] * e
            best = np.minimum(best, np.linalg.norm(q, axis=-1))
            inside ^= ((a[1] > y[..., 1]) != (b[1] > y[..., 1])) & (y[..., 0] < a[0] + (y[..., 1] - a[1]) * e[0] / (e[1] if e[1] else 1))
        return np.where(inside, -best, best)
    raise KeyError(t)


class Solid:
    """One collider in one pose."""

    def __init__(self, s, com, rot, vel, ang, dim):
        import numpy as np
        self.s, self.dim = s, dim
        self.com, self.vel, self.ang = np.asarray(com, np.float64), np.asarray(vel, np.float64), np.asarray(ang, np.float64)
        self.R = rotation(rot, dim)

    def to_local(self, x):
        return x if self.s["type"] == "domain" else (x - self.com) @ self.R

    def distance(self, x):
        return local(self.s, self.to_local(x))

    def velocity(self, x):
        import numpy as np
        y = x - self.com
        if self.dim == 2:
            return self.vel + self.ang * np.stack([-y[..., 1], y[..., 0]], -1)
        return self.vel + np.cross(np.broadcast_to(self.ang, y.shape), y)

    def gradient(self, x, d=1e-6):
        import numpy as np
        g = np.stack([(self.distance(x + d * e) - self.distance(x - d * e)) / (2 * d) for e in np.eye(self.dim)], -1)
        return g / np.maximum(np.linalg.norm(g, axis=-1, keepdims=True), 1e-12)

    def normal(self, x, ex):
        """Outward unit normal at x, and a bound on how much it changes within ex of x (2 where it jumps)."""
        import numpy as np
        n = self.gradient(x)
        d = 4 * ex + 4e-6
        jump = np.zeros(len(x))
        for e in np.eye(self.dim):
            for sg in (1, -1):
                jump = np.maximum(jump, np.linalg.norm(self.gradient(x + sg * d[:, None] * e) - n, axis=-1))
        return n, np.where(jump > 0.05, 2.0, self.dim * jump + 1e-6)

    def friction(self, x, ex):
        """Local friction coefficient, and whether it may be another one within ex of x."""
        import numpy as np
        s = self.s
        if s["type"] == "domain":
            f = s.get("friction_walls", 0.0)
            f = np.full(2 * self.dim, f) if np.ndim(f) == 0 else np.asarray(f, float)
            d = np.concatenate([x - np.asarray(s["origin"]), np.asarray(s["end"]) - x], -1)
        elif s["type"] == "composite":
            f = np.array([0.1, 0.7][:len(s["parts"])])
            d = np.stack([local(p, self.to_local(x)) for p in s["parts"]], -1)
        else:
            return np.ones(len(x)), np.zeros(len(x), bool)
        i = np.argsort(d, -1)
        two = np.take_along_axis(d, i[:, :2], -1) if d.shape[-1] > 1 else np.stack([d[:, 0], d[:, 0] + 1e9], -1)
        return f[i[:, 0]], two[:, 1] - two[:, 0] < 4 * ex


def collide(solid, x, h, v, ev, base):
    """Grid velocities v (error bound ev, per component) at nodes x after the collider, and their bound."""
    import numpy as np
    ex = 2e-6 + 1e-6 * (np.abs(x).max() + np.linalg.norm(x - solid.com, axis=-1))
    d = solid.distance(x) - h
    sure = d < -ex
    maybe = np.abs(d) <= ex
    i = np.flatnonzero(sure | maybe)
    out, eout = v.copy(), ev.copy()
    if not len(i):
        return out, eout, sure
    n, en = solid.normal(x[i], ex[i])
    mu, two = solid.friction(x[i], ex[i])
    mu = mu * base
    if solid.s["type"] == "domain" or solid.s["type"] == "composite":
        top = float(np.max(solid.s.get("friction_walls", 0.7))) * base
    else:
        top = base
    w = solid.velocity(x[i])
    ewall = 3e-6 * (np.abs(solid.vel).max() + np.abs(solid.ang).max() * np.linalg.norm(x[i] - solid.com, axis=-1))
    r = v[i] - w
    vn = np.einsum("ni,ni->n", r, n)
    push = np.maximum(0.0, -vn)
    t = r - vn[:, None] * n
    vt = np.linalg.norm(t, axis=1)
    keep = np.maximum(0.0, 1 - mu * push / np.maximum(vt, 1e-30))
    keep = np.where(vt > 1e-12, keep, 1.0)
    c = w + np.maximum(vn, 0.0)[:, None] * n + keep[:, None] * t
    size = np.linalg.norm(r, axis=1)
    e0 = np.linalg.norm(ev[i], axis=1)
    e = (e0 + 2 * ewall) * (1 + mu) + 3 * (1 + mu) * np.minimum(en, 2) * size + 3e-6 * (np.linalg.norm(w, axis=1) + size * (1 + mu))
    wild = (en > 1.5) | two | maybe[i]
    e = np.where(wild, 2 * size + 3 * (1 + top) * e0 + ewall, e)
    out[i] = c
    # where it is unsure whether the collider acts at all, either outcome is within the bound
    eout[i] = e[:, None]
    return out, eout, sure | maybe
