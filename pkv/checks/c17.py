"""Rotation representations: direct conversions and random walks between representations, against float64 references."""
import math
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen, history, ref
from ..tfgen import EPS
from pytorch_kinematics.transforms import rotation_conversions as rc

warnings.simplefilter("ignore")


def lay(x, k, dt):
    """The same values in several memory layouts."""
    t = torch.tensor(np.asarray(x), dtype=dt)
    if k == 1:
        t = torch.stack([t, t + 1], -1)[..., 0]
    elif k == 2 and t.dim() >= 2:
        t = t.transpose(0, -1).contiguous().transpose(0, -1)
    elif k == 3 and t.dim() >= 2:
        t = torch.cat([t, t], 0)[:t.shape[0]]
    elif k == 4 and t.dim() >= 2 and t.numel() and torch.equal(t, t[:1].expand_as(t)):
        t = t[:1].clone().expand(t.shape)  # one row in memory
    elif k == 5 and t.dim() >= 2 and t.numel():
        t = t.movedim(-1, 0).contiguous().movedim(0, -1)
    return t


def is_rot(M, tol, what):
    M = gen.arr(M)
    close(M @ np.swapaxes(M, -1, -2), np.broadcast_to(np.eye(3), M.shape), 4 * tol, "%s: orthonormality" % what)
    close(np.linalg.det(M), np.ones(M.shape[:-2]), 6 * tol, "%s: determinant" % what)


def meta(x, shape, dt, what):
    require(torch.is_tensor(x), lambda: "%s: %s" % (what, type(x)))
    require(tuple(x.shape) == tuple(shape), lambda: "%s: shape %s instead of %s" % (what, tuple(x.shape), tuple(shape)))
    require(x.dtype == dt, lambda: "%s: precision %s instead of %s" % (what, x.dtype, dt))


def same(got_R, R, tol, what):
    close(got_R, R, tol, what)


# ------------------------------------------------------------------ the representations
# name -> (encode reference rotation (and position) as float64 array, decode float64 array to rotation)
def enc_quat(R, p, s):
    q = ref.R2q(R)
    return q * np.where(np.arange(int(np.prod(q.shape[:-1]) or 1)).reshape(q.shape[:-1]) % 2 == s, -1.0, 1.0)[..., None]


def dec_quat(x):
    return ref.q2R(x)


def unit(x, tol, what):
    close(np.linalg.norm(gen.arr(x), axis=-1), np.ones(x.shape[:-1]), tol, "%s: norm" % what)


MAT, QUAT, AA, SIX, H44, NINE, PR, XYZW = "mat quat aa six h44 nine posrot xyzw".split()
ENC = {
    MAT: lambda R, p, s: R, QUAT: enc_quat, AA: lambda R, p, s: ref.logso3(R),
    SIX: lambda R, p, s: R[..., :2, :].reshape(R.shape[:-2] + (6,)),
    H44: lambda R, p, s: ref.hom(R, p), NINE: lambda R, p, s: np.concatenate([R[..., :2, :].reshape(R.shape[:-2] + (6,)), p], -1),
    XYZW: lambda R, p, s: np.roll(enc_quat(R, p, s), -1, -1),
    PR: lambda R, p, s: (p, np.roll(enc_quat(R, p, s), -1, -1)),
}


def dec6(x):
    a, b = x[..., :3], x[..., 3:6]
    b1 = a / np.linalg.norm(a, axis=-1, keepdims=True)
    c = b - (b1 * b).sum(-1, keepdims=True) * b1
    b2 = c / np.linalg.norm(c, axis=-1, keepdims=True)
    return np.stack([b1, b2, np.cross(b1, b2)], -2)


DEC = {
    MAT: lambda x: x, QUAT: ref.q2R, AA: ref.expso3, SIX: dec6, H44: lambda x: x[..., :3, :3], NINE: dec6,
    XYZW: lambda x: ref.q2R(np.roll(x, 1, -1)), PR: lambda x: ref.q2R(np.roll(x[1], 1, -1)),
}
LAST = {MAT: (3, 3), QUAT: (4,), AA: (3,), SIX: (6,), H44: (4, 4), NINE: (9,), XYZW: (4,)}


def aa33(v):
    """axis-angle through the axis + angle form."""
    a = v.norm(dim=-1)
    ax = torch.where(a[..., None] > 1e-3, v / a.clamp(min=1e-3)[..., None], torch.tensor([0., 0., 1.], dtype=v.dtype))
    return ax, a


def h_of(M, like):
    return M


EDGES = {  # (from, to): [conversion, ...]
    (MAT, QUAT): rc.matrix_to_quaternion, (QUAT, MAT): rc.quaternion_to_matrix, (QUAT, AA): rc.quaternion_to_axis_angle,
    (AA, QUAT): rc.axis_angle_to_quaternion, (AA, MAT): rc.axis_angle_to_matrix, (MAT, AA): rc.matrix_to_axis_angle,
    (MAT, SIX): rc.matrix_to_rotation_6d, (SIX, MAT): rc.rotation_6d_to_matrix, (H44, NINE): rc.matrix44_to_se3_9d,
    (NINE, H44): rc.se3_9d_to_matrix44, (QUAT, XYZW): rc.wxyz_to_xyzw, (XYZW, QUAT): rc.xyzw_to_wxyz,
    (H44, PR): rc.matrix_to_pos_rot, (PR, H44): lambda x: rc.pos_rot_to_matrix(*x),
    (MAT, H44): None, (H44, MAT): None, (PR, XYZW): None,
}
NEXT = {}
for (a_, b_) in EDGES:
    NEXT.setdefault(a_, []).append(b_)


def aslist(x):
    return list(x) if isinstance(x, tuple) else [x]


def to_np(x):
    return tuple(gen.arr(y) for y in x) if isinstance(x, tuple) else gen.arr(x)


def verify(x, kind, R, p, shape, dt, tol, what):
    """A value in some representation stands for R (and p) and is well formed."""
    if kind == PR:
        require(isinstance(x, tuple) and len(x) == 2, "%s: not a pair" % what)
        meta(x[0], shape + (3,), dt, what + " position")
        meta(x[1], shape + (4,), dt, what + " quaternion")
        close(x[0], p, 0, what + ": position")
        unit(x[1], tol, what)
    else:
        meta(x, shape + LAST[kind], dt, what)
        if kind in (QUAT, XYZW):
            unit(x, tol, what)
        if kind in (H44, NINE):
            y = gen.arr(x)
            close(y[..., :3, 3] if kind == H44 else y[..., 6:], p, 0, what + ": position")
        if kind == H44:
            close(y[..., 3, :], np.broadcast_to([0., 0, 0, 1], y[..., 3, :].shape), 0, what + ": last row")
        if kind in (MAT, H44):
            is_rot(gen.arr(x)[..., :3, :3], tol, what)
        if kind == SIX or kind == NINE:
            y = gen.arr(x)[..., :6]
            close(np.linalg.norm(y.reshape(y.shape[:-1] + (2, 3)), axis=-1), np.ones(shape + (2,)), tol, what + ": rows of unit length")
        if kind == AA:
            require(bool((np.linalg.norm(gen.arr(x), axis=-1) <= 2 * math.pi + 1e-4).all()), "%s: more than a full turn" % what)
    close(DEC[kind](to_np(x)), R, tol, what)


def walk(case, rec):
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    shape = tuple(case["rb"]["shape"])
    v = gen.rb_array(case["rb"])
    R = ref.expso3(v)
    p = gen.cast(np.resize(np.array(case["p"], float), shape + (3,)), dtype)
    kind = case["start"]
    x0 = ENC[kind](R, p, case["sign"])
    rec.label(dtype, "d%d" % len(shape), kind)
    x = tuple(lay(y, 0, dt) for y in x0) if kind == PR else lay(x0, case["layout"], dt)
    tol = 4 * EPS[dtype] * 8
    trace = [kind]
    for k in case["steps"]:
        opts = NEXT[kind]
        to = opts[k % len(opts)]
        f = EDGES[(kind, to)]
        trace.append(to)
        if f is not None:
            y = f(x)
        elif (kind, to) == (MAT, H44):
            y = torch.zeros(shape + (4, 4), dtype=dt)
            y[..., :3, :3], y[..., :3, 3], y[..., 3, 3] = x, torch.tensor(p, dtype=dt), 1
        elif (kind, to) == (H44, MAT):
            y = x[..., :3, :3]
        else:
            y = x[1]
        tol += 40 * EPS[dtype]
        kind, x = to, y
        verify(x, kind, R, p, shape, dt, tol, " -> ".join(trace))
        rec.label("->".join(trace[-2:]))
    ang = np.linalg.norm(v, axis=-1)
    rec.nt(len(case["steps"]) >= 2 and bool((ang > 1e-3).any()))
    if v.size:
        rec.label("zero" if (ang == 0).any() else None, "tiny" if ((ang > 0) & (ang < 1e-4)).any() else None,
                  "half turn" if (np.abs(ang - math.pi) < 1e-4).any() else None)


def direct(case, rec):
    """Each conversion applied to freshly encoded input, with its conventions."""
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    shape = tuple(case["rb"]["shape"])
    v = gen.cast(gen.rb_array(case["rb"]), dtype)
    tol = 40 * EPS[dtype]
    what = case["what"]
    rec.label(what, dtype)
    rec.nt(bool((np.linalg.norm(v, axis=-1) > 1e-3).any()))
    L = case["layout"]
    if what == "aa":  # any length, not only up to half a turn
        v = v * case["k"]
        v = gen.cast(v, dtype)
        t = lay(v, L, dt)
        big = 1 + np.abs(v).max() if v.size else 1
        for name, y in (("quaternion", rc.axis_angle_to_quaternion(t)), ("matrix", rc.axis_angle_to_matrix(t))):
            meta(y, shape + ((4,) if name == "quaternion" else (3, 3)), dt, name)
            z = gen.arr(y)
            close(ref.q2R(z) if name == "quaternion" else z, ref.expso3(v), tol * big, "axis-angle to %s" % name)
            if name == "quaternion":
                close(z, ref.aa2q(v), tol * big, "axis-angle to quaternion, half angle and axis")
    elif what == "axis":
        u = np.array(case["axes"], float)
        u = np.resize(u, shape + (3,))
        u = gen.cast(u / np.linalg.norm(u, axis=-1, keepdims=True), dtype)
        a = gen.cast(np.linalg.norm(v, axis=-1) * case["k"], dtype)
        ta, tu = lay(a, L, dt), lay(u, L, dt)
        R = ref.rodrigues(u, a)
        tl = tol * (1 + (np.abs(a).max() if a.size else 0))
        y = rc.axis_and_angle_to_matrix_33(tu, ta)
        meta(y, shape + (3, 3), dt, "axis and angle")
        close(y, R, tl, "axis and angle to 3x3")
        y = rc.axis_and_angle_to_matrix_44(tu, ta)
        meta(y, shape + (4, 4), dt, "axis and angle")
        close(y, ref.hom(R), tl, "axis and angle to 4x4")
        y = rc.axis_and_d_to_pris_matrix(tu, ta)
        meta(y, shape + (4, 4), dt, "axis and distance")
        close(y, ref.hom(np.broadcast_to(np.eye(3), R.shape), u * a[..., None]), tl, "axis and distance")
        if shape:  # one axis for all angles
            y = rc.axis_and_angle_to_matrix_33(lay(u.reshape(-1, 3)[0], 0, dt), ta)
            close(y, ref.rodrigues(np.broadcast_to(u.reshape(-1, 3)[0], u.shape), a), tl, "one axis, many angles")
    elif what == "scaled":  # non-normalised quaternions
        q = ref.R2q(ref.expso3(v))
        s = np.resize(np.array(case["scale"], float), shape)[..., None]
        qs = gen.cast(q * s, dtype)
        y = rc.quaternion_to_matrix(lay(qs, L, dt))
        meta(y, shape + (3, 3), dt, "matrix of a scaled quaternion")
        close(y, ref.q2R(qs), tol, "matrix of a scaled quaternion")
        y = rc.pos_rot_to_matrix(lay(gen.cast(np.resize(case["p"], shape + (3,)), dtype), 0, dt), lay(np.roll(qs, -1, -1), L, dt))
        close(gen.arr(y)[..., :3, :3], ref.q2R(qs), tol, "pos_rot_to_matrix of a scaled quaternion")
    elif what == "six":  # not orthonormal
        x = np.resize(np.array(case["six"], float), shape + (6,)) * np.resize(np.array(case["scale"], float), shape)[..., None]
        x = gen.cast(x, dtype)
        a, b = x[..., :3], x[..., 3:]
        cr = np.linalg.norm(np.cross(a, b), axis=-1)
        cond = np.linalg.norm(a, axis=-1) * np.linalg.norm(b, axis=-1) / np.maximum(cr, 1e-30)
        if (np.linalg.norm(a, axis=-1) < 1e-3).any() or (cr < 1e-3).any() or (cond > 100).any():
            return
        c = 1 + (cond.max() if cond.size else 1)
        y = rc.rotation_6d_to_matrix(lay(x, L, dt))
        meta(y, shape + (3, 3), dt, "matrix of six numbers")
        close(y, dec6(x), tol * c, "Gram-Schmidt of six numbers")
        is_rot(y, tol * c, "six numbers")
        p = gen.cast(np.resize(np.array(case["p"], float), shape + (3,)), dtype)
        y = rc.se3_9d_to_matrix44(lay(np.concatenate([x, p], -1), L, dt))
        close(y, ref.hom(dec6(x), p), tol * c, "nine numbers")
        close(rc.matrix_to_rotation_6d(torch.tensor(dec6(x), dtype=dt)), gen.cast(dec6(x), dtype)[..., :2, :].reshape(shape + (6,)), 0, "first two rows")
    elif what == "reorder":  # exact
        x = gen.cast(np.resize(np.array(case["six"], float), shape + (4,)), dtype)
        t = lay(x, L, dt)
        close(rc.wxyz_to_xyzw(t), np.roll(x, -1, -1), 0, "wxyz_to_xyzw")
        close(rc.xyzw_to_wxyz(t), np.roll(x, 1, -1), 0, "xyzw_to_wxyz")
        close(rc.xyzw_to_wxyz(rc.wxyz_to_xyzw(t)), x, 0, "reordering twice")
    else:  # quaternion to axis-angle in both signs and near a full turn
        q = enc_quat(ref.expso3(v), None, case["sign"])
        q = gen.cast(q, dtype)
        y = rc.quaternion_to_axis_angle(lay(q, L, dt))
        meta(y, shape + (3,), dt, "axis-angle")
        close(ref.expso3(gen.arr(y)), ref.q2R(q), tol, "rotation vector of a quaternion")
        n = np.linalg.norm(gen.arr(y), axis=-1)
        w = q[..., 0]
        vn = np.linalg.norm(q[..., 1:], axis=-1)
        want = 2 * np.arctan2(vn, w)
        want = np.where(vn == 0, 0, want)
        ok = (w >= 0) | (vn > 1e-3)
        close(np.where(ok, n, 0), np.where(ok, want, 0), 8 * tol, "length of the rotation vector")


STEP = st.integers(0, 11)
COMMON = dict(rb=gen.rot_batches(), dtype=gen.DTYPE, layout=st.integers(0, 5), sign=st.integers(0, 1),
              p=st.lists(gen.lengths(3), min_size=3, max_size=6))
CHECK = Check("C17", [
    Facet("walk", st.fixed_dictionaries(dict(COMMON, start=st.sampled_from(sorted(ENC)), steps=st.lists(STEP, min_size=1, max_size=6))), walk,
          2500, 60000, shards=4),
    Facet("direct", st.fixed_dictionaries(dict(
        COMMON, what=st.sampled_from(["aa", "axis", "scaled", "six", "reorder", "q2aa"]), k=st.sampled_from([1.0, 1.0, -1.0, 2.0, 1.9999, 5.0]),
        axes=st.lists(gen.unit3(), min_size=1, max_size=4).map(lambda l: [x for u in l for x in u]),
        scale=st.lists(st.one_of(gen.num(0.1, 5), gen.num(-5, -0.1), st.sampled_from([1e-3, 100.0, 1.0])), min_size=1, max_size=4),
        six=st.lists(gen.num(-2, 2), min_size=6, max_size=12))), direct, 2500, 60000, shards=4),
    history.facet("C17"),
], rule="a rotation by more than a thousandth of a radian taken through at least two conversions (one for direct conversions)",
    assumptions=["rotation matrices are orthonormal up to rounding"])
