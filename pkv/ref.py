"""Reference models in float64 numpy, written from the definitions (nothing here calls pytorch_kinematics)."""
import numpy as np


def skew(v):
    v = np.asarray(v, float)
    z = np.zeros(v.shape[:-1])
    return np.stack([np.stack([z, -v[..., 2], v[..., 1]], -1), np.stack([v[..., 2], z, -v[..., 0]], -1),
                     np.stack([-v[..., 1], v[..., 0], z], -1)], -2)


def rodrigues(axis, angle):
    """Rotation by angle about the (normalised here) axis, broadcasting over leading dimensions."""
    axis = np.asarray(axis, float)
    axis = axis / np.linalg.norm(axis, axis=-1, keepdims=True)
    angle = np.asarray(angle, float)
    k = skew(axis)
    a = angle[..., None, None]
    return np.eye(3) + np.sin(a) * k + 2 * np.sin(a / 2) ** 2 * (k @ k)


def expso3(v):
    """exp of rotation vectors (..., 3), accurate at and near zero."""
    v = np.asarray(v, float)
    t = np.linalg.norm(v, axis=-1)[..., None, None]
    k = skew(v)
    with np.errstate(all="ignore"):
        s = np.where(t < 1e-4, 1 - t * t / 6, np.sin(t) / np.where(t == 0, 1, t))
        c = np.where(t < 1e-4, 0.5 - t * t / 24, 2 * np.sin(t / 2) ** 2 / np.where(t == 0, 1, t * t))
    return np.eye(3) + s * k + c * (k @ k)


def logso3(R):
    """Rotation vector of R (..., 3, 3), angle in [0, pi], accurate everywhere."""
    q = R2q(R)
    n = np.linalg.norm(q[..., 1:], axis=-1)
    ang = 2 * np.arctan2(n, q[..., 0])
    k = np.where(n < 1e-9, 2.0, ang / np.where(n < 1e-9, 1, n))
    return q[..., 1:] * k[..., None]


def axis_rot(letter, a):
    v = {"X": [1., 0, 0], "Y": [0, 1., 0], "Z": [0, 0, 1.]}[letter.upper()]
    a = np.asarray(a, float)
    return rodrigues(np.broadcast_to(np.array(v), a.shape + (3,)), a)


def rpy(r):
    r = np.asarray(r, float)
    return axis_rot("Z", r[..., 2]) @ axis_rot("Y", r[..., 1]) @ axis_rot("X", r[..., 0])


def hom(R=None, p=None):
    R = np.eye(3) if R is None else np.asarray(R, float)
    p = np.zeros(3) if p is None else np.asarray(p, float)
    shape = np.broadcast_shapes(R.shape[:-2], p.shape[:-1])
    m = np.zeros(shape + (4, 4))
    m[..., :3, :3] = R
    m[..., :3, 3] = p
    m[..., 3, 3] = 1
    return m


def origin(o):
    """4x4 of None | [x, y, z, roll, pitch, yaw]."""
    if o is None:
        return np.eye(4)
    return hom(rpy(o[3:]), o[:3])


def q2R(q):
    q = np.asarray(q, float)
    q = q / np.linalg.norm(q, axis=-1, keepdims=True)
    w, x, y, z = np.moveaxis(q, -1, 0)
    return np.stack([np.stack([w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)], -1),
                     np.stack([2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)], -1),
                     np.stack([2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z], -1)], -2)


def R2q(R):
    """Unit quaternion with w >= 0, by the eigenvector of the 4x4 symmetric form (accurate for every rotation)."""
    R = np.asarray(R, float)
    m = lambda i, j: R[..., i, j]
    K = np.stack([
        np.stack([m(0, 0) + m(1, 1) + m(2, 2), m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1)], -1),
        np.stack([m(2, 1) - m(1, 2), m(0, 0) - m(1, 1) - m(2, 2), m(0, 1) + m(1, 0), m(0, 2) + m(2, 0)], -1),
        np.stack([m(0, 2) - m(2, 0), m(0, 1) + m(1, 0), m(1, 1) - m(0, 0) - m(2, 2), m(1, 2) + m(2, 1)], -1),
        np.stack([m(1, 0) - m(0, 1), m(0, 2) + m(2, 0), m(1, 2) + m(2, 1), m(2, 2) - m(0, 0) - m(1, 1)], -1)], -2)
    w, v = np.linalg.eigh(K)
    q = v[..., :, -1]
    return np.where(q[..., :1] < 0, -q, q)


def qmul(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    w = a[..., 0] * b[..., 0] - (a[..., 1:] * b[..., 1:]).sum(-1)
    v = a[..., :1] * b[..., 1:] + b[..., :1] * a[..., 1:] + np.cross(a[..., 1:], b[..., 1:])
    return np.concatenate([w[..., None], v], -1)


def aa2q(v):
    v = np.asarray(v, float)
    t = np.linalg.norm(v, axis=-1, keepdims=True)
    k = np.where(t < 1e-6, 0.5 - t * t / 48, np.sin(t / 2) / np.where(t == 0, 1, t))
    return np.concatenate([np.cos(t / 2), v * k], -1)


def angle_between(R1, R2):
    """Rotation angle between rotations, accurate everywhere."""
    d = R1 @ np.swapaxes(R2, -1, -2)
    q = R2q(d)
    return 2 * np.arctan2(np.linalg.norm(q[..., 1:], axis=-1), q[..., 0])


def numdiff(f, x, h=1e-6):
    """Central differences with one Richardson step of f: R^n -> R^m at x. Returns (m, n)."""
    x = np.asarray(x, float)
    cols = []
    for i in range(x.size):
        e = np.zeros(x.size)
        e[i] = 1
        e = e.reshape(x.shape)
        d1 = (np.asarray(f(x + h * e)) - np.asarray(f(x - h * e))) / (2 * h)
        d2 = (np.asarray(f(x + 2 * h * e)) - np.asarray(f(x - 2 * h * e))) / (4 * h)
        cols.append((4 * d1 - d2) / 3)
    return np.stack(cols, -1)
