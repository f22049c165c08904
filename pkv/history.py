"""Histories of conversion calls: changing precision, shape and values, arguments that are rewritten in place, results that must stay."""
import numpy as np
import torch
from hypothesis import strategies as st

from .core import Facet, close, require
from . import gen, ref
from .boot import pk
from pytorch_kinematics.transforms import so3

GROUPS = {
    "C17": ["quaternion_to_matrix", "quaternion_to_matrix/ambient", "matrix_to_quaternion", "axis_angle_to_quaternion", "quaternion_to_axis_angle",
            "axis_angle_to_matrix", "matrix_to_axis_angle", "rotation_6d_to_matrix", "matrix_to_rotation_6d", "se3_9d_to_matrix44", "matrix44_to_se3_9d",
            "pos_rot_to_matrix", "matrix_to_pos_rot/rot", "matrix_to_pos_rot/pos", "wxyz_to_xyzw", "xyzw_to_wxyz", "axis_and_angle_to_matrix_33",
            "axis_and_angle_to_matrix_44", "axis_and_d_to_pris_matrix"],
    "C18": ["euler_angles_to_matrix", "quaternion_from_euler", "matrix_to_euler_angles"],
    "C19": ["quaternion_multiply", "quaternion_raw_multiply", "quaternion_apply", "quaternion_invert", "standardize_quaternion", "quaternion_slerp",
            "quaternion_angular_distance"],
    "C20": ["so3_exp_map", "so3_log_map", "so3_rotation_angle", "so3_relative_angle", "hat", "hat_inv", "acos_linear_extrapolation"],
}


class _Late:
    """Tables of other checks, which import this module."""

    def __getattr__(self, k):
        from .checks import c21
        return getattr(c21, k)


c21 = _Late()


def entry(name, step):
    CONV, SEQ = c21.CONV, c21.SEQ
    if name == "hat":
        return c21.Fn(so3.hat, ["v"], ref.skew, flat=True)
    if name == "hat_inv":
        return c21.Fn(lambda v: so3.hat_inv(so3.hat(v)), ["v"], lambda v: v, flat=True)
    if name == "acos_linear_extrapolation":
        b = [0.9, 0.5, 0.999][step["conv"] % 3]
        d = lambda u: -1 / np.sqrt(1 - u * u)
        f = lambda x: np.where(x >= b, np.arccos(b) + d(b) * (x - b), np.where(x <= -b, np.arccos(-b) + d(-b) * (x + b), np.arccos(np.clip(x, -1, 1))))
        return c21.Fn(lambda x: pk.acos_linear_extrapolation(x, (-b, b)), ["x"], f)
    if name == "matrix_to_euler_angles":
        conv = CONV[step["conv"] % len(CONV)]
        return c21.Fn(lambda R: pk.euler_angles_to_matrix(pk.matrix_to_euler_angles(R, conv), conv), ["R"], lambda R: R)
    if name in c21.TAB:
        return c21.TAB[name]
    return c21.euler_entry(name, SEQ[step["conv"] % len(SEQ)] if name == "quaternion_from_euler" else CONV[step["conv"] % len(CONV)])


def tame(rng, n):
    """Rotation vectors away from the singular angles."""
    u = rng.normal(size=(n, 3))
    return u / np.linalg.norm(u, axis=1, keepdims=True) * rng.uniform(0.3, 2.7, (n, 1))


def arguments(F, shape, seed, dtype):
    rng = np.random.RandomState(seed)
    n = int(np.prod(shape)) if shape else 1
    v = tame(rng, n)
    c = {"x": rng.uniform(-2, 2, 9 * n), "signs": rng.rand(n) < 0.5, "k": 1.0, "seed": seed}
    pts = []
    for j, k in enumerate(F.args):
        if k in ("six", "nine"):
            p = np.concatenate([ref.expso3(v)[:, :2].reshape(-1, 6) * rng.uniform(0.5, 2, (n, 1)) + rng.uniform(-.1, .1, (n, 6)), rng.uniform(-2, 2, (n, 3))], 1)
            p = p[:, :6] if k == "six" else p
        elif k == "q2":
            p = ref.qmul(pts[0] / np.linalg.norm(pts[0], axis=-1, keepdims=True), ref.aa2q(tame(rng, n) * 0.9))
        elif k == "R" and j:
            p = pts[0] @ ref.expso3(tame(rng, n) * 0.9)
        else:
            p = c21.points(k, v if j == 0 else tame(rng, n), c, n)
        pts.append(gen.cast(p, dtype))
    return pts


def align(F, want, got):
    if F.align == "sign":
        return want * np.where((want * got).sum(-1, keepdims=True) < 0, -1.0, 1.0)
    if F.align == "turn":
        return c21.aa_turn(want, got)
    return want


def run(names):
    def f(case, rec):
        held = {}
        old = []
        for s, step in enumerate(case["steps"]):
            name = names[step["fn"] % len(names)]
            F = entry(name, step)
            dtype = step["dtype"]
            shape = tuple(step["shape"])
            if F.flat:
                shape = (int(np.prod(shape)) if shape else 1,)
            pts = arguments(F, shape, step["seed"], dtype)
            key = (name, dtype, shape)
            xs = []
            for j, p in enumerate(pts):
                x = torch.tensor(p.reshape(shape + p.shape[1:]), dtype=gen.DT[dtype])
                if step["hold"] and key in held:
                    h = held[key][j]
                    (h if step["hold"] == 1 else h.data).copy_(x)
                    x = h
                    rec.label("rewritten")
                xs.append(x)
            held[key] = xs
            y = F.fn(*xs)
            require(torch.is_tensor(y) and y.dtype == gen.DT[dtype], lambda: "step %d, %s: precision %s" % (s, name, getattr(y, "dtype", type(y))))
            got = gen.arr(y)
            want = np.asarray(F.ref(*pts))
            want = want.reshape(shape + want.shape[1:])
            want = align(F, want, got)
            close(got, want, (2e-4 if dtype == "f32" else 1e-9) * (1 + np.abs(want)) + (F.tol * 20 if name.startswith("so3") else 0), "step %d: %s" % (s, name))
            if name not in ("matrix_to_pos_rot/pos",):
                old.append((y, got.copy(), "%s of step %d" % (name, s)))
            rec.label(name)
        for y, v, what in old:
            close(y, v, 0, "result of %s after later calls" % what)
        rec.nt(len(case["steps"]) > 1)
    return f


def facet(pid, quick=500, shards=2):
    names = GROUPS[pid]
    shape = st.sampled_from([[], [1], [2], [3], [4], [7], [2, 3], [4, 4], [64], [1025]])
    step = st.fixed_dictionaries(dict(fn=st.integers(0, len(names) - 1), dtype=gen.DTYPE, shape=shape, seed=gen.SEED, hold=st.integers(0, 2), conv=st.integers(0, 23)))
    # a few functions and shapes, so that arguments meet again
    mix = st.tuples(st.lists(step, min_size=1, max_size=3), st.lists(st.tuples(st.integers(0, 2), gen.SEED, st.integers(0, 2), st.integers(0, 23), gen.DTYPE, st.booleans()), min_size=1, max_size=6)).map(
        lambda t: {"steps": t[0] + [dict(t[0][i % len(t[0])], seed=sd, hold=h, conv=c, **({"dtype": d} if k else {})) for i, sd, h, c, d, k in t[1]]})
    return Facet("history", mix, run(names), quick, quick * 25, shards=shards)
