"""Quaternion algebra, interpolation and distance against rotation matrices in float64."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen, history, ref
from ..tfgen import EPS
from .c17 import lay, meta

PI = math.pi
# shapes that broadcast against each other
PAIRS = st.sampled_from([([], []), ([3], [3]), ([1], [1]), ([4], [4]), ([4], [1]), ([1], [4]), ([], [5]), ([5], []), ([2, 3], [2, 3]), ([2, 3], [3]), ([2, 1], [1, 3]),
                         ([3, 1, 2], [3, 1, 2]), ([2, 2], [2, 1]), ([3], [1, 3])] * 4 + [([300], [300]), ([1030], [1]), ([1], [2100]), ([1025], [1025]), ([40, 1], [1, 60])])
EQ = st.sampled_from([[], [1], [2], [3], [4], [5], [2, 3], [3, 1, 2], [4, 4]] * 5 + gen.BIG_SHAPES)


def quats(v, shape, signs, same=False):
    n = int(np.prod(shape)) if shape else 1
    if same:
        v, signs = v[:1], signs[:1]
    v = np.array([v[i % len(v)] for i in range(n)], float).reshape(-1, 3)
    # repeats of a short list are turned a little further so that rows differ
    if n > 1 and not same:
        v = v * (1 - 0.07 * (np.arange(n) // 3))[:, None]
    q = ref.R2q(ref.expso3(v)) * np.array([-1.0 if signs[i % len(signs)] else 1.0 for i in range(n)])[:, None]
    return q.reshape(tuple(shape) + (4,))


def algebra(case, rec):
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    sa, sb = (tuple(s) for s in case["pair"])
    a, b = gen.cast(quats(case["a"], sa, case["sa"], case["layout"] == 4), dtype), gen.cast(quats(case["b"], sb, case["sb"], case["layout2"] == 4), dtype)
    A, B = ref.q2R(a), ref.q2R(b)
    ta, tb = lay(a, case["layout"], dt), lay(b, case["layout2"], dt)
    out = np.broadcast_shapes(sa, sb)
    tol = 60 * EPS[dtype]
    raw = ref.qmul(*np.broadcast_arrays(a, b))
    rec.label(dtype, "broadcast" if sa != sb else None)
    rec.nt(bool((np.abs(a[..., 1:]) > 1e-3).any()) and bool((np.abs(b[..., 1:]) > 1e-3).any()))
    y = pk.quaternion_raw_multiply(ta, tb)
    meta(y, out + (4,), dt, "raw product")
    close(y, raw, tol, "raw product")
    y = pk.quaternion_multiply(ta, tb)
    meta(y, out + (4,), dt, "product")
    z = gen.arr(y)
    require(bool((z[..., 0] >= 0).all()), "a product has a negative real part")
    close(np.abs((z * raw).sum(-1)), np.ones(out), tol, "product up to sign")
    close(ref.q2R(z), A @ B, tol * 2, "product as a rotation")
    close(np.linalg.norm(z, axis=-1), np.ones(out), tol, "norm of a product")
    y = pk.quaternion_invert(ta)
    meta(y, sa + (4,), dt, "inverse")
    close(ref.q2R(gen.arr(y)), np.swapaxes(A, -1, -2), tol, "inverse")
    close(gen.arr(y), a * np.array([1, -1, -1, -1.]), 0, "conjugate")
    one = gen.arr(pk.quaternion_multiply(ta, y))
    close(one, np.broadcast_to([1., 0, 0, 0], one.shape), tol, "q * inverse(q)")
    y = pk.standardize_quaternion(ta)
    meta(y, sa + (4,), dt, "standard form")
    want = np.where(a[..., :1] < 0, -a, a)
    close(y, want, 0, "standard form")
    # application to points, with broadcasting
    n = int(np.prod(sb)) if sb else 1
    p = gen.cast(np.resize(np.array(case["p"], float), sb + (3,)), dtype)
    y = pk.quaternion_apply(ta, lay(p, case["layout"], dt))
    meta(y, out + (3,), dt, "applied to points")
    close(y, np.einsum("...ij,...j->...i", np.broadcast_to(A, out + (3, 3)), np.broadcast_to(p, out + (3,))), tol * (1 + np.abs(p).max()), "applied to points")


def relation(case, a, dtype):
    """Second quaternions in a chosen relation to the first: -> (unit quaternions, their rotations relative to a)."""
    n = a.reshape(-1, 4).shape[0]
    q = a.reshape(-1, 4)
    out = []
    for i in range(n):
        k, v, s = case["rel"][i % len(case["rel"])]
        b = q[i]
        if k == "near":
            b = ref.qmul(q[i], ref.aa2q(np.array(v) * 1e-3))
        elif k == "tiny":
            b = ref.qmul(q[i], ref.aa2q(np.array(v) * 1e-7))
        elif k == "any":
            b = ref.qmul(q[i], ref.aa2q(np.array(v)))
        elif k == "half":
            b = ref.qmul(q[i], ref.aa2q(np.array(v) / (np.linalg.norm(v) or 1) * PI))
        elif k == "nearhalf":  # just short of or past half a turn: the dot product is just above or below zero
            b = ref.qmul(q[i], ref.aa2q(np.array(v) / (np.linalg.norm(v) or 1) * (PI + (-1 if i % 2 else 1) * 10.0 ** -(1 + np.linalg.norm(v) % 1 * 4.5))))
        out.append(b / np.linalg.norm(b) * (-1 if s else 1))
    return np.array(out).reshape(a.shape)


def pair(case, dtype):
    sh = tuple(case["shape"])
    a = gen.cast(quats(case["a"], sh, case["sa"], case["layout"] == 4), dtype)
    b = gen.cast(relation(case, a, dtype), dtype)
    return sh, a, b


def slerp(case, rec):
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    sh, a, b = pair(case, dtype)
    dot = (a * b).sum(-1)
    D = ref.logso3(np.swapaxes(ref.q2R(a), -1, -2) @ ref.q2R(b))  # relative rotation, in the frame of a
    ang = np.linalg.norm(D, axis=-1)
    sure = np.abs(dot) > 100 * EPS[dtype]  # at half a turn both arcs are shortest
    tol = 60 * EPS[dtype]
    ta, tb = lay(a, case["layout"], dt), lay(b, case["layout2"], dt)
    rec.label(dtype, *["rel_" + k for k, _, _ in case["rel"][:max(1, int(np.prod(sh)))]])
    rec.label("flipped" if (dot < 0).any() and (dot > 0).any() else None)
    rec.nt(bool(((ang > 1e-3) & sure).any()))
    for form, tv in case["ts"]:
        n = int(np.prod(sh)) if sh else 1
        T = np.full(sh, tv)
        if form == "float":
            arg = float(tv)
        elif form == "t0":
            arg = torch.tensor(tv, dtype=dt)
            T = np.full(sh, gen.cast(tv, dtype))
        else:
            T = gen.cast(np.resize(np.clip(np.array([tv, 0.25, 1.0, 0.0, 0.6]), 0, 1), sh), dtype)
            arg = torch.tensor(T, dtype=dt)
        y = pk.quaternion_slerp(ta, tb, arg)
        meta(y, sh + (4,), dt, "interpolation")
        z = gen.arr(y)
        close(np.linalg.norm(z, axis=-1), np.ones(sh), tol, "norm of interpolated quaternions (t=%r)" % (arg,))
        got = ref.q2R(z)
        want = ref.q2R(a) @ ref.expso3(D * T[..., None])
        d = np.abs(got - want).max((-1, -2))
        alt = ref.q2R(a) @ ref.expso3(-D / np.maximum(ang, 1e-9)[..., None] * (2 * PI - ang)[..., None] * T[..., None])
        d2 = np.where(sure, np.inf, np.abs(got - alt).max((-1, -2)))
        t2 = np.where(sure, tol / np.minimum(1, np.maximum(np.abs(dot), 1e-2)), np.maximum(tol, 1e-3))
        d = np.minimum(d, d2)
        bad = d > np.where(sure, tol, t2)
        # rounding of nearly equal inputs is amplified by nothing; half turns are ambiguous
        require(not bad.any(), lambda: "interpolation at t=%r: off by %.3g for relative angle %r (dot %r)" % (
            arg, d[bad].max(), ang[bad][0], dot[bad][0]))
        # ends
        if form == "float" and tv in (0.0, 1.0):
            close(got, ref.q2R(a if tv == 0 else b), tol, "interpolation at t=%g" % tv)
        # first row on its own
        if sh and n > 1 and form == "float":
            y0 = pk.quaternion_slerp(ta.reshape(-1, 4)[0], tb.reshape(-1, 4)[0], arg)
            close(y0, z.reshape(-1, 4)[0], tol, "one element on its own")


def distance(case, rec):
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    sh, a, b = pair(case, dtype)
    ta, tb = lay(a, case["layout"], dt), lay(b, case["layout2"], dt)
    want = ref.angle_between(ref.q2R(a), ref.q2R(b))
    tol = 40 * EPS[dtype]
    y = pk.quaternion_angular_distance(ta, tb)
    require(torch.is_tensor(y) and tuple(y.shape) == sh and y.dtype == dt, lambda: "distance of shape %s for inputs of batch %s" % (tuple(y.shape), sh))
    close(y, want, tol, "angular distance")
    close(pk.quaternion_angular_distance(tb, ta), gen.arr(y), tol, "symmetry")
    flip = np.array([-1.0 if (i + case["flip"]) % 2 else 1.0 for i in range(max(1, a.reshape(-1, 4).shape[0]))]).reshape(sh)[..., None]
    close(pk.quaternion_angular_distance(lay(a * flip, 0, dt), tb), gen.arr(y), tol, "sign of the first")
    close(pk.quaternion_angular_distance(ta, lay(b * flip, 0, dt)), gen.arr(y), tol, "sign of the second")
    close(pk.quaternion_angular_distance(ta, ta), np.zeros(sh), 0, "distance to itself")
    rec.label(dtype, *["rel_" + k for k, _, _ in case["rel"][:max(1, int(np.prod(sh)))]])
    rec.nt(bool((want > 1e-3).any()))
    # closeness of all pairs: sin^2 of half the angle below the tolerance
    s2 = np.sin(want / 2) ** 2
    for eps in case["eps"]:
        got = pk.quaternion_close(ta, tb) if eps == 1e-4 and case["flip"] else pk.quaternion_close(ta, tb, eps=eps)
        mx = s2.max()
        if abs(mx - eps) > 60 * EPS[dtype]:
            require(bool(got) == bool(mx < eps), lambda: "quaternion_close(eps=%g) is %s although the largest sin^2(angle/2) is %.3g" % (eps, bool(got), mx))
            rec.label("close" if mx < eps else "not close")
    got = pk.quaternion_close(ta, lay(-a, 0, dt))
    require(bool(got), "a quaternion is not close to its negative")


def qs():
    return st.lists(gen.rotvecs(), min_size=1, max_size=4)


SG = st.lists(st.booleans(), min_size=1, max_size=3)
REL = st.lists(st.tuples(st.sampled_from(["any", "any", "any", "same", "near", "tiny", "half", "nearhalf", "nearhalf"]), gen.rotvecs(gen.num(0.05, 3.1)), st.booleans()).map(list), min_size=1, max_size=4)
TS = st.lists(st.tuples(st.sampled_from(["float", "float", "t0", "batch"]), st.one_of(gen.num(0, 1), st.sampled_from([0.0, 1.0, 0.5]))).map(list), min_size=1, max_size=3)
COMMON = dict(shape=EQ, a=qs(), sa=SG, rel=REL, dtype=gen.DTYPE, layout=st.integers(0, 5), layout2=st.integers(0, 5))
CHECK = Check("C19", [
    Facet("algebra", st.fixed_dictionaries(dict(pair=PAIRS.map(list), a=qs(), b=qs(), sa=SG, sb=SG, dtype=gen.DTYPE, layout=st.integers(0, 5),
                                                layout2=st.integers(0, 5), p=st.lists(gen.lengths(3), min_size=3, max_size=9))), algebra, 1500, 40000, shards=2),
    Facet("slerp", st.fixed_dictionaries(dict(COMMON, ts=TS)), slerp, 1800, 50000, shards=3),
    Facet("distance", st.fixed_dictionaries(dict(COMMON, flip=st.integers(0, 1), eps=st.lists(st.sampled_from([1e-4, 1e-4, 1e-2, 0.3, 1e-6]), min_size=1, max_size=2))),
          distance, 1800, 50000, shards=3),
    history.facet("C19"),
], rule="two rotations that differ from the identity (algebra) or from each other by more than a thousandth of a radian",
    assumptions=["quaternions are of unit norm up to rounding", "at exactly half a turn either shortest arc is accepted"])
