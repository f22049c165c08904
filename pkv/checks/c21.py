"""Gradients of rotation conversions against numerical derivatives of float64 reference conversions."""
import math
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen, ref
from ..tfgen import EPS
from .c17 import dec6
from .c18 import CONV, SEQ, product, margin
from pytorch_kinematics.transforms import rotation_conversions as rc

warnings.simplefilter("ignore")
PI = math.pi
H = 1e-5


# ------------------------------------------------------------------ input spaces: tangent directions and curves through a point
# each returns (directions (k, n, *tail), curve(k, h) -> moved points)
def amb(x):
    tail = x.shape[1:]
    k = int(np.prod(tail)) if tail else 1
    E = np.eye(k).reshape((k,) + tail)
    D = np.broadcast_to(E[:, None], (k,) + x.shape)
    return D, lambda i, h: x + h * D[i]


def tan_q(q):
    D = np.stack([ref.qmul(q, np.broadcast_to(np.concatenate([[0.0], e]) / 2, q.shape)) for e in np.eye(3)])
    return D, lambda i, h: ref.qmul(q, np.broadcast_to(ref.aa2q(np.eye(3)[i] * h), q.shape))


def tan_R(R):
    D = np.stack([R @ ref.skew(e) for e in np.eye(3)])
    return D, lambda i, h: R @ ref.expso3(np.eye(3)[i] * h)


def tan_H(M):
    D, f = tan_R(M[:, :3, :3])
    out = []
    for d in D:
        z = np.zeros_like(M)
        z[:, :3, :3] = d
        out.append(z)
    for e in np.eye(3):
        z = np.zeros_like(M)
        z[:, :3, 3] = e
        out.append(z)

    def curve(i, h):
        Y = M.copy()
        if i < 3:
            Y[:, :3, :3] = f(i, h)
        else:
            Y[:, :3, 3] += h * np.eye(3)[i - 3]
        return Y
    return np.stack(out), curve


def tan_u(u):
    D = np.stack([np.cross(np.broadcast_to(e, u.shape), u) for e in np.eye(3)])
    return D, lambda i, h: np.einsum("ij,nj->ni", ref.expso3(np.eye(3)[i] * h), u)


SPACE = {"q": tan_q, "R": tan_R, "H": tan_H, "u": tan_u}


class Fn:
    """fn: torch function; args: spaces of its inputs; ref: float64 function of the inputs (all with a leading row dimension);
    amp: rows -> amplification of rounding (inf where the derivative is not compared); align: 'sign' when the output is defined up to sign,
    'turn' when up to a full turn; flat: takes (N, ...) only."""

    def __init__(self, fn, args, ref, amp=None, align=None, flat=False, tol=0.0, finite=None):
        self.fn, self.args, self.ref, self.amp, self.align, self.flat, self.tol, self.finite = fn, args, ref, amp, align, flat, tol, finite


def ones(*a):
    return np.ones(len(a[0]))


def angle(R):
    return ref.angle_between(R, np.broadcast_to(np.eye(3), R.shape))


def aa_turn(want, got):
    """The representative of a rotation vector nearest to the one returned."""
    n = np.linalg.norm(want, axis=-1, keepdims=True)
    alt = want - want / np.where(n < 1e-12, 1, n) * 2 * PI
    near = np.abs(want - got).max(-1, keepdims=True) <= np.abs(alt - got).max(-1, keepdims=True)
    return np.where(near, want, alt)


def slerp_ref(a, b, t):
    Ra, Rb = ref.q2R(a), ref.q2R(b)
    return ref.R2q(Ra @ ref.expso3(ref.logso3(np.swapaxes(Ra, -1, -2) @ Rb) * t[..., None]))


def conj(q):
    return q * np.array([1, -1, -1, -1.0])


def apply_ref(q, p):
    return ref.qmul(ref.qmul(q, np.concatenate([np.zeros(p.shape[:-1] + (1,)), p], -1)), conj(q))[..., 1:]


def amp_log(R):
    a = angle(R)
    return np.where(a < PI - 0.05, 1 / np.maximum(np.sin(np.minimum(a, PI - 0.05)), 0.05) ** 3, np.inf)


def amp_angle(R):
    a = angle(R)
    return np.where((a > 0.03) & (a < PI - 0.03), 1 / np.maximum(np.sin(a), 0.03) ** 3, np.inf)


def amp_dist(a, b):
    th = ref.angle_between(ref.q2R(a), ref.q2R(b))
    return np.where((th > 1e-2) & (th < PI - 1e-2), 1 / np.maximum(np.sin(th / 2), 1e-2) ** 2, np.inf)


def amp_slerp(a, b, t):
    return np.where(np.abs((a * b).sum(-1)) > 1e-2, 1e3, np.inf)


def amp_prod(a, b):
    return np.where(np.abs(ref.qmul(a, b)[..., 0]) > 1e-3, 1.0, np.inf)


def amp_std(a):
    return np.where(np.abs(a[..., 0]) > 1e-3, 1.0, np.inf)


def amp_six(x):
    a, b = x[..., :3], x[..., 3:6]
    na = np.linalg.norm(a, axis=-1)
    c = np.linalg.norm(np.cross(a, b), axis=-1) / np.maximum(na, 1e-9)
    m = np.minimum(na, c)
    return np.where(m > 0.05, 1 / np.maximum(m, 0.05) ** 3, np.inf)


def hom_of(R, p):
    return ref.hom(R, p)


TAB = {
    "quaternion_to_matrix": Fn(pk.quaternion_to_matrix, ["q"], ref.q2R),
    "quaternion_to_matrix/ambient": Fn(pk.quaternion_to_matrix, ["q4"], ref.q2R, amp=lambda q: np.where(np.linalg.norm(q, axis=-1) > 0.1, 1e3, np.inf)),
    "matrix_to_quaternion": Fn(pk.matrix_to_quaternion, ["R"], ref.R2q, align="sign"),
    "axis_angle_to_quaternion": Fn(pk.axis_angle_to_quaternion, ["v"], ref.aa2q),
    "quaternion_to_axis_angle": Fn(pk.quaternion_to_axis_angle, ["q"], lambda q: ref.logso3(ref.q2R(q)), align="turn",
                                   amp=lambda q: np.where(q[..., 0] > -0.9, 1 / np.maximum(1e-2, np.where(q[..., 0] > 0.9, 1, np.linalg.norm(q[..., 1:], axis=-1))) ** 2, np.inf)
                                   * np.where((np.abs(q[..., 0]) < 1e-3) & False, np.inf, 1)),
    "axis_angle_to_matrix": Fn(rc.axis_angle_to_matrix, ["v"], ref.expso3),
    "matrix_to_axis_angle": Fn(pk.matrix_to_axis_angle, ["R"], ref.logso3, align="turn", amp=lambda R: np.where(angle(R) < PI - 1e-3, 100.0, np.inf)),
    "rotation_6d_to_matrix": Fn(pk.rotation_6d_to_matrix, ["six"], dec6, amp=amp_six),
    "matrix_to_rotation_6d": Fn(pk.matrix_to_rotation_6d, ["R"], lambda R: R[..., :2, :].reshape(R.shape[:-2] + (6,))),
    "se3_9d_to_matrix44": Fn(pk.se3_9d_to_matrix44, ["nine"], lambda x: ref.hom(dec6(x), x[..., 6:]), amp=amp_six),
    "matrix44_to_se3_9d": Fn(pk.matrix44_to_se3_9d, ["H"], lambda M: np.concatenate([M[..., :2, :3].reshape(M.shape[:-2] + (6,)), M[..., :3, 3]], -1)),
    "pos_rot_to_matrix": Fn(pk.pos_rot_to_matrix, ["p", "xq"], lambda p, q: ref.hom(ref.q2R(np.roll(q, 1, -1)), p)),
    "matrix_to_pos_rot/rot": Fn(lambda M: pk.matrix_to_pos_rot(M)[1], ["H"], lambda M: np.roll(ref.R2q(M[..., :3, :3]), -1, -1), align="sign"),
    "matrix_to_pos_rot/pos": Fn(lambda M: pk.matrix_to_pos_rot(M)[0], ["H"], lambda M: M[..., :3, 3]),
    "wxyz_to_xyzw": Fn(pk.wxyz_to_xyzw, ["q4"], lambda q: np.roll(q, -1, -1)),
    "xyzw_to_wxyz": Fn(pk.xyzw_to_wxyz, ["q4"], lambda q: np.roll(q, 1, -1)),
    "axis_and_angle_to_matrix_33": Fn(pk.axis_and_angle_to_matrix_33, ["u", "a"], ref.rodrigues),
    "axis_and_angle_to_matrix_44": Fn(rc.axis_and_angle_to_matrix_44, ["u", "a"], lambda u, a: ref.hom(ref.rodrigues(u, a))),
    "axis_and_d_to_pris_matrix": Fn(pk.axis_and_d_to_pris_matrix, ["u", "a"], lambda u, a: ref.hom(np.broadcast_to(np.eye(3), u.shape[:-1] + (3, 3)), u * a[..., None])),
    "so3_exp_map": Fn(pk.so3_exp_map, ["v"], ref.expso3, flat=True, tol=5e-4),
    "so3_log_map": Fn(pk.so3_log_map, ["R"], ref.logso3, flat=True, amp=amp_log, tol=5e-3),
    "so3_rotation_angle": Fn(pk.so3_rotation_angle, ["R"], angle, flat=True, amp=amp_angle),
    "so3_relative_angle": Fn(pk.so3_relative_angle, ["R", "R"], lambda a, b: ref.angle_between(a, b), flat=True, amp=lambda a, b: amp_angle(a @ np.swapaxes(b, -1, -2))),
    "quaternion_multiply": Fn(pk.quaternion_multiply, ["q", "q"], ref.qmul, align="sign", amp=amp_prod),
    "quaternion_raw_multiply": Fn(pk.quaternion_raw_multiply, ["q4", "q4"], ref.qmul),
    "quaternion_apply": Fn(pk.quaternion_apply, ["q", "p"], apply_ref),
    "quaternion_invert": Fn(pk.quaternion_invert, ["q4"], conj),
    "standardize_quaternion": Fn(pk.standardize_quaternion, ["q"], lambda q: q, align="sign", amp=amp_std),
    "quaternion_slerp": Fn(pk.quaternion_slerp, ["q", "q2", "t"], slerp_ref, align="sign", amp=amp_slerp),
    "quaternion_angular_distance": Fn(pk.quaternion_angular_distance, ["q", "q2"], lambda a, b: ref.angle_between(ref.q2R(a), ref.q2R(b)), amp=amp_dist),
    "acos_linear_extrapolation": Fn(pk.acos_linear_extrapolation, ["x"], None),
    "transform from quaternion": Fn(lambda q, p: pk.Transform3d(rot=q, pos=p).get_matrix(), ["q", "p"], lambda q, p: ref.hom(ref.q2R(q), p), flat=True),
    "rotate_axis_angle": Fn(lambda a: pk.RotateAxisAngle(a, "Z", degrees=False, dtype=a.dtype).get_matrix(), ["a"],
                            lambda a: ref.hom(ref.rodrigues(np.broadcast_to([0, 0, 1.0], a.shape + (3,)), a)), flat=True),
}


def euler_entry(name, conv):
    if name == "euler_angles_to_matrix":
        return Fn(lambda e: pk.euler_angles_to_matrix(e, conv), ["e"], lambda e: product(conv, e))
    if name == "transform from euler":
        return Fn(lambda e: pk.Transform3d(rot=e).get_matrix(), ["e"], lambda e: ref.hom(product("XYZ", e)), flat=True)
    seq = conv
    c = seq[1:].upper()

    def R(e):
        if seq[0] == "r":
            return product(c, e)
        return ref.axis_rot(c[2], e[..., 2]) @ ref.axis_rot(c[1], e[..., 1]) @ ref.axis_rot(c[0], e[..., 0])
    return Fn(lambda e: pk.quaternion_from_euler(e, seq), ["e"], lambda e: ref.R2q(R(e)), align="sign")


def points(kind, v, case, n):
    """n float64 points of an input space, from rotation vectors v (n, 3)."""
    rng = np.random.RandomState(case["seed"])
    num = np.resize(np.array(case["x"], float), (n, 9))
    if kind in ("q", "xq"):
        q = ref.R2q(ref.expso3(v)) * np.where(np.resize(case["signs"], n), -1.0, 1.0)[:, None]
        return np.roll(q, -1, -1) if kind == "xq" else q
    if kind == "q4":
        return ref.R2q(ref.expso3(v)) * np.where(num[:, :1] > 0, 1 + num[:, :1], num[:, :1] - 0.5)
    if kind == "R":
        return ref.expso3(v)
    if kind == "H":
        return ref.hom(ref.expso3(v), num[:, :3])
    if kind == "v":
        return v * case["k"]
    if kind == "six":
        x = num[:, :6].copy()
        x[np.resize(case["signs"], n)] = ref.expso3(v)[np.resize(case["signs"], n)][:, :2].reshape(-1, 6)
        return x
    if kind == "nine":
        return np.concatenate([points("six", v, case, n), num[:, 6:]], -1)
    if kind == "p":
        return num[:, 3:6].copy()
    if kind == "u":
        w = v + rng.normal(size=v.shape) * 1e-3
        w = np.where(np.resize(case["signs"], n)[:, None], np.array([0, 0, 1.0]), w / np.linalg.norm(w, axis=-1, keepdims=True))
        return w
    if kind == "a":
        return np.linalg.norm(v, axis=-1) * case["k"]
    if kind == "e":
        return num[:, 2:5] * 1.3
    if kind == "t":
        return np.clip(np.abs(num[:, 8]) / 3, 0, 1)
    if kind == "x":
        return num[:, 0] / 2
    raise AssertionError(kind)


def directional(f, pts, args, W, align, got):
    """Per input and direction: derivative of sum(W * f) row by row."""
    out = []

    def val(P):
        y = f(*P)
        if align == "sign":
            s = np.where((y * got).sum(-1, keepdims=True) < 0, -1.0, 1.0)
            y = y * s
        elif align == "turn":
            y = aa_turn(y, got)
        return (W * y).reshape(len(y), -1).sum(1)
    for j, k in enumerate(args):
        D, curve = SPACE.get(k, amb)(pts[j]) if k != "xq" else xq(pts[j])
        if k == "q2":
            D, curve = tan_q(pts[j])
        nd = []
        for i in range(len(D)):
            g = lambda h: val(pts[:j] + [curve(i, h)] + pts[j + 1:])
            d1 = (g(H) - g(-H)) / (2 * H)
            d2 = (g(2 * H) - g(-2 * H)) / (4 * H)
            nd.append((4 * d1 - d2) / 3)
        out.append((D, np.stack(nd)))
    return out


def xq(x):
    D, c = tan_q(np.roll(x, 1, -1))
    return np.roll(D, -1, -1), lambda i, h: np.roll(c(i, h), -1, -1)


def grads(case, rec):
    name, dtype = case["fn"], case["dtype"]
    dt = gen.DT[dtype]
    F = TAB.get(name) or euler_entry(name, case["seq"] if name == "quaternion_from_euler" else case["conv"])
    shape = tuple(case["rb"]["shape"])
    n = int(np.prod(shape)) if shape else 1
    if n == 0:
        return
    v = gen.rb_array(case["rb"]).reshape(-1, 3)
    if F.flat and name != "transform from euler":
        shape = (n,)
    if name == "transform from euler":
        if n == 3:
            v, n = v[:2], 2
        shape = (n,)
    pts = []
    for j, k in enumerate(F.args):
        if k == "q2":
            x = rel_q(pts[0], case, n)
        elif j == 1 and k in ("R", "q"):
            x = points(k, np.roll(v, 1, 0) * 0.8 + np.array([0.1, 0.2, -0.3]), case, n)
        else:
            x = points(k, v, case, n)
        pts.append(gen.cast(x, dtype))
    ins = [torch.tensor(p.reshape(shape + p.shape[1:]), dtype=dt, requires_grad=True) for p in pts]
    y = F.fn(*ins)
    got = gen.arr(y).reshape((n,) + tuple(y.shape[len(shape):]))
    rng = np.random.RandomState(case["seed"])
    W = np.round(rng.uniform(-1, 1, got.shape), 3)
    rec.label(name, dtype)
    if case["loss"] == 0:
        loss = (torch.tensor(W.reshape(tuple(y.shape)), dtype=dt) * y).sum()
        L = W
    else:  # a non-linear function of the result
        loss = (torch.tensor(W.reshape(tuple(y.shape)), dtype=dt) * y * y).sum()
        L = 2 * W * got
    G = torch.autograd.grad(loss, ins, allow_unused=False)
    a = [gen.arr(g).reshape((n,) + p.shape[1:]) for g, p in zip(G, pts)]
    ang = np.linalg.norm(v, axis=-1)
    rec.label("zero" if (ang == 0).any() else None, "tiny" if ((ang > 0) & (ang < 1e-4)).any() else None, "half turn" if (np.abs(ang - PI) < 1e-4).any() else None)
    for j, g in enumerate(a):
        bad = ~np.isfinite(g).reshape(n, -1).all(1)
        require(not bad.any(), lambda: "%s: gradient of input %d is %r for rotation vector %r" % (name, j, g[bad][0].tolist(), v[bad][0].tolist()))
    rec.nt(n > 0 and bool((ang > 1e-3).any() or (ang == 0).any()))
    if name == "acos_linear_extrapolation":
        b = 1 - 1e-4
        x = pts[0]
        d = np.where(np.abs(x) >= b, -1 / math.sqrt(1 - b * b), -1 / np.sqrt(np.maximum(1e-9, 1 - x * x)))
        close(a[0], L * d, 1e-3 * (1 + np.abs(d)) if dtype == "f32" else 1e-9 * (1 + np.abs(d) ** 3), "gradient of " + name)
        return
    amp = (F.amp or ones)(*pts)
    amp = np.broadcast_to(amp, (n,))
    with np.errstate(all="ignore"):
        dd = directional(F.ref, pts, F.args, L, F.align, got)
    for j, (D, want) in enumerate(dd):
        have = np.stack([(d * a[j]).reshape(n, -1).sum(1) for d in D])
        scale = 1 + np.abs(L).reshape(n, -1).sum(1) + np.abs(a[j]).reshape(n, -1).max(1) * 0.1
        tol = (F.tol + (2e-8 if dtype == "f64" else 4e-5) * amp) * scale
        ok = np.isfinite(tol) & (tol < 0.5)
        if F.tol:  # the small-angle clamps only matter near zero
            near = ang * (case["k"] if F.args[0] == "v" else 1)
            tol = np.where(np.abs(near) < 0.03, tol, tol - F.tol * scale)
        close(np.where(ok, have, 0), np.where(ok, want, 0), np.where(ok, tol, 0), "gradient of %s, input %d (directions x rows)" % (name, j))
        rec.label("compared" if ok.any() else None)


def rel_q(q, case, n):
    rng = np.random.RandomState(case["seed"] + 1)
    out = []
    for i in range(n):
        k = case["rel"][i % len(case["rel"])]
        w = rng.normal(size=3)
        w = w / np.linalg.norm(w)
        s = {"any": rng.uniform(0.05, 3.0), "same": 0.0, "tiny": 1e-7, "near": 1e-3, "half": PI}[k]
        out.append((q[i] if k == "same" else ref.qmul(q[i], ref.aa2q(w * s))) * (-1 if rng.rand() < 0.5 else 1))
    return np.array(out)


def to_euler(case, rec):
    """matrix_to_euler_angles: the gradient is the inverse of the derivative of the product of axis rotations."""
    dtype, conv = case["dtype"], case["conv"]
    dt = gen.DT[dtype]
    v = gen.rb_array(case["rb"]).reshape(-1, 3)
    n = len(v)
    R = ref.expso3(v)
    if conv[0] != conv[2] and case["seed"] % 3 == 0:
        R[0] = np.eye(3)
    m, _ = margin(conv, R)
    keep = m > 0.05
    if not keep.any():
        return
    R = gen.cast(R[keep], dtype)
    n = len(R)
    m = m[keep]
    M = torch.tensor(R, dtype=dt, requires_grad=True)
    y = pk.matrix_to_euler_angles(M, conv)
    W = np.round(np.random.RandomState(case["seed"]).uniform(-1, 1, (n, 3)), 3)
    g, = torch.autograd.grad((torch.tensor(W, dtype=dt) * y).sum(), M)
    g = gen.arr(g)
    require(bool(np.isfinite(g).all()), lambda: "gradient of the angles (%s) is not finite" % conv)
    e = gen.arr(y)
    for i in range(n):
        A = ref.numdiff(lambda x: product(conv, x).reshape(-1), e[i])
        for k in range(3):
            dR = R[i] @ ref.skew(np.eye(3)[k])
            de = np.linalg.lstsq(A, dR.reshape(-1), rcond=None)[0]
            tol = (1e-7 if dtype == "f64" else 2e-4) / m[i] ** 3
            if tol < 0.3:
                close((g[i] * dR).sum(), W[i] @ de, tol, "gradient of the angles (%s)" % conv)
    rec.label(conv, dtype)
    rec.nt()


NAMES = sorted(TAB) + ["euler_angles_to_matrix", "quaternion_from_euler", "transform from euler"]
HARD = ["matrix_to_quaternion", "matrix_to_axis_angle", "quaternion_to_axis_angle", "axis_angle_to_quaternion", "axis_angle_to_matrix", "so3_log_map", "so3_exp_map",
        "quaternion_slerp", "quaternion_angular_distance", "matrix_to_pos_rot/rot"]
COMMON = dict(rb=gen.rot_batches(st.sampled_from([[], [1], [2], [3], [4], [2, 3], [3, 1, 2]])), dtype=st.sampled_from(["f64", "f64", "f32"]), seed=gen.SEED, conv=st.sampled_from(CONV), seq=st.sampled_from(SEQ))
CHECK = Check("C21", [
    Facet("gradients", st.fixed_dictionaries(dict(COMMON, fn=st.sampled_from(NAMES + HARD), signs=st.lists(st.booleans(), min_size=1, max_size=3),
                                                  x=st.lists(gen.num(-2, 2), min_size=9, max_size=14), k=st.sampled_from([1.0, 1.0, -1.0, 2.5]), loss=st.integers(0, 1),
                                                  rel=st.lists(st.sampled_from(["any", "any", "same", "tiny", "near", "half"]), min_size=1, max_size=3))), grads, 3000, 80000, shards=6),
    Facet("euler extraction", st.fixed_dictionaries(dict(COMMON)), to_euler, 600, 15000, shards=2),
], rule="a rotation that is the identity or turns by more than a thousandth of a radian",
    assumptions=["derivatives are compared along directions that stay on the space of valid inputs",
                 "not compared (only required finite) where the conversion is not differentiable: half turns of axis-angle, zero or half-turn distances, branch points",
                 "Euler extraction is differentiated away from gimbal lock"])
