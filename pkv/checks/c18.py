"""Euler conventions against products of axis rotations; the 24 axis sequences of quaternion_from_euler."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen, history, ref
from ..tfgen import EPS
from .c17 import lay, meta

CONV = [a + b + c for a in "XYZ" for b in "XYZ" for c in "XYZ" if b not in (a, c)]
SEQ = [f + c.lower() for f in "sr" for c in CONV]
assert len(CONV) == 12 and len(SEQ) == 24
PI = math.pi


def product(conv, e):
    return ref.axis_rot(conv[0], e[..., 0]) @ ref.axis_rot(conv[1], e[..., 1]) @ ref.axis_rot(conv[2], e[..., 2])


def batch(case, key="e"):
    sh = tuple(case["shape"])
    return np.resize(np.array(case[key], float), sh + (3,)) if int(np.prod(sh)) else np.zeros(sh + (3,))


def ranges(y, conv, what):
    y = gen.arr(y)
    require(bool(np.isfinite(y).all()), lambda: "%s: not finite: %r" % (what, y.tolist()))
    lo, hi = (-PI / 2, PI / 2) if conv[0] != conv[2] else (0.0, PI)
    require(bool(((y[..., 1] >= lo - 1e-6) & (y[..., 1] <= hi + 1e-6)).all()), lambda: "%s: middle angle %r outside [%.3f, %.3f]" % (what, y[..., 1].tolist(), lo, hi))
    require(bool((np.abs(y[..., [0, 2]]) <= PI + 1e-6).all()), lambda: "%s: outer angle outside [-pi, pi]" % what)


def margin(conv, R):
    """Distance from gimbal lock, and the middle angle."""
    i, j = "XYZ".index(conv[0]), "XYZ".index(conv[2])
    if i != j:
        s = R[..., i, j] * (1.0 if (j - i) % 3 == 2 else -1.0)
        # middle angle of a product A(a) B(b) C(c): element (i, j) is +-sin b
        return np.sqrt(np.maximum(0, R[..., i, i] ** 2 + R[..., i, 3 - i - j] ** 2)), s
    k = [x for x in range(3) if x != i]
    return np.sqrt(R[..., i, k[0]] ** 2 + R[..., i, k[1]] ** 2), R[..., i, i]


def euler(case, rec):
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    conv = case["conv"]
    e = gen.cast(batch(case), dtype)
    sh = e.shape[:-1]
    R = product(conv, e)
    big = 1 + (np.abs(e).max() if e.size else 0)
    tol = 40 * EPS[dtype] * big
    M = pk.euler_angles_to_matrix(lay(e, case["layout"], dt), conv)
    meta(M, sh + (3, 3), dt, "matrix")
    close(M, R, tol, "matrix of %s angles" % conv)
    # back: finite, in range, the same rotation away from gimbal lock
    y = pk.matrix_to_euler_angles(M, conv)
    meta(y, sh + (3,), dt, "angles")
    ranges(y, conv, "angles of a product matrix (%s)" % conv)
    m, _ = margin(conv, R)
    rec.label(conv, dtype)
    back(y, conv, R, m, dtype, rec, big)
    # angles within the ranges come back themselves
    lo, hi = (-PI / 2, PI / 2) if conv[0] != conv[2] else (0.0, PI)
    ok = (m > 0.05) & (e[..., 1] > lo) & (e[..., 1] < hi) & (np.abs(e[..., 0]) < PI - 0.01) & (np.abs(e[..., 2]) < PI - 0.01)
    close(np.where(ok[..., None], gen.arr(y), 0), np.where(ok[..., None], e, 0), 60 * EPS[dtype] / 0.05 ** 2, "angles after a round trip (%s)" % conv)
    rec.nt(bool((m > 0.05).any()))


def back(y, conv, R, m, dtype, rec, big=1.0):
    y = gen.arr(y)
    Q = product(conv, y)
    # the outer angles are known up to rounding / m; nothing is compared where that exceeds a tenth
    t = 120 * EPS[dtype] * big / np.maximum(m, 1e-300)
    t = np.where(t > 0.1, np.inf, t)
    d = np.abs(Q - R).max((-1, -2)) if R.size else np.zeros(R.shape[:-2])
    bad = d > t
    require(not bad.any(), lambda: "angles %r (%s) stand for another rotation (off by %.3g)" % (y[bad][0].tolist(), conv, d[bad].max()))
    # the middle angle is determined even at gimbal lock
    i, j = "XYZ".index(conv[0]), "XYZ".index(conv[2])
    el = lambda b: product(conv, np.stack([0 * b, b, 0 * b], -1))[..., i, j]
    close(el(y[..., 1]), R[..., i, j], 40 * EPS[dtype], "middle angle (%s)" % conv)
    rec.label("gimbal" if np.isinf(t).any() else None, "near gimbal" if ((m < 0.01) & ~np.isinf(t)).any() else None)


def from_matrix(case, rec):
    """Arbitrary rotation matrices, and exact or slightly rounded gimbal-locked ones."""
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    conv = case["conv"]
    R = ref.expso3(gen.rb_array(case["rb"]))
    sh = R.shape[:-2]
    if case["lock"]:
        e = np.resize(np.array(case["e"], float), sh + (3,))
        mid = [PI / 2, -PI / 2] if conv[0] != conv[2] else [0.0, PI]
        e = e.copy()
        e[..., 1] = np.resize(np.array([mid[k % 2] + d for k, d in case["lock"]]), sh)
        R = product(conv, e)
    N = R
    if case["noise"]:
        rng = np.random.RandomState(case["seed"])
        N = R + rng.uniform(-1, 1, R.shape) * 2 * EPS[dtype]
        if case["noise"] == 2:
            N = R * (1 + 4 * EPS[dtype])
    N = gen.cast(N, dtype)
    y = pk.matrix_to_euler_angles(lay(N, case["layout"], dt), conv)
    meta(y, sh + (3,), dt, "angles")
    ranges(y, conv, "angles of a rotation matrix (%s)" % conv)
    m, _ = margin(conv, R)
    back(y, conv, R, m, dtype, rec)
    rec.label(conv, "noise" if case["noise"] else None)
    rec.nt(bool((m > 0.05).any()) or bool(case["lock"]))


NEXT = {0: 1, 1: 2, 2: 0}


def encode(seq):
    """(first axis, parity, repetition, frame) of a sequence name, by Shoemake's definition."""
    f = seq[0] == "r"
    a, b, c = ("xyz".index(x) for x in (seq[1:] if not f else seq[:0:-1]))
    return (a, 0 if NEXT[a] == b else 1, 1 if a == c else 0, 1 if f else 0)


def quat(case, rec):
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    seq = case["seq"]
    e = gen.cast(batch(case), dtype)
    sh = e.shape[:-1]
    c = seq[1:].upper()
    if seq[0] == "r":
        R = product(c, e)
    else:  # static: later rotations act on the left
        R = ref.axis_rot(c[2], e[..., 2]) @ ref.axis_rot(c[1], e[..., 1]) @ ref.axis_rot(c[0], e[..., 0])
    big = 1 + (np.abs(e).max() if e.size else 0)
    tol = 40 * EPS[dtype] * big
    t = lay(e, case["layout"], dt)
    form = case["form"]
    if form == 0:
        q = pk.quaternion_from_euler(t, seq)
    elif form == 1:
        q = pk.quaternion_from_euler(t, axes=seq.upper())
    elif form == 2:
        q = pk.quaternion_from_euler(t, axes=encode(seq))
    else:
        q = pk.quaternion_from_euler(t)
        R = ref.rpy(e)
    meta(q, sh + (4,), dt, "quaternion")
    close(np.linalg.norm(gen.arr(q), axis=-1), np.ones(sh), tol, "norm of the quaternion (%s)" % seq)
    close(ref.q2R(gen.arr(q)), R, tol, "quaternion of the sequence %s" % (seq if form != 3 else "sxyz by default"))
    # row by row
    if len(sh) and int(np.prod(sh)):
        q0 = pk.quaternion_from_euler(t.reshape(-1, 3)[0], seq if form != 3 else "sxyz")
        close(q0, gen.arr(q).reshape(-1, 4)[0], tol, "first row on its own")
    rec.label(seq, dtype, "form%d" % form)
    rec.nt(bool((np.abs(e) > 1e-3).sum(-1).max() >= 2) if e.size else False)


ANG = st.one_of(gen.num(-3.2, 3.2), gen.num(-1.5, 1.5), gen.num(-10, 10), st.sampled_from([0.0, PI / 2, -PI / 2, PI, -PI, PI / 4, 1e-6, 2 * PI]))
NEAR = st.builds(lambda k, s, d: k * PI / 2 + s * 10.0 ** d, st.integers(-2, 2), st.sampled_from([1, -1]), gen.num(-7, -1))  # next to gimbal lock


def triples(middle_near):
    t = st.tuples(ANG, st.one_of(ANG, NEAR) if not middle_near else NEAR, ANG)
    return st.lists(t, min_size=1, max_size=4).map(lambda l: [float(x) for u in l for x in u])


ES = st.one_of(triples(False), triples(False), triples(True))
COMMON = dict(shape=gen.SHAPES, dtype=gen.DTYPE, layout=st.integers(0, 5), e=ES)
LOCK = st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(0, 1), st.one_of(st.sampled_from([0.0, 0.0, 1e-9, 1e-4, -1e-3]), st.builds(lambda s, d: s * 10.0 ** d, st.sampled_from([1, -1]), gen.num(-7, -1)))).map(list), min_size=1, max_size=3))
CHECK = Check("C18", [
    Facet("euler", st.fixed_dictionaries(dict(COMMON, conv=st.sampled_from(CONV))), euler, 3500, 50000, shards=3),
    Facet("matrix", st.fixed_dictionaries(dict(rb=gen.rot_batches(), dtype=gen.DTYPE, layout=st.integers(0, 5), e=ES, conv=st.sampled_from(CONV),
                                               lock=LOCK, noise=st.integers(0, 2), seed=gen.SEED)), from_matrix, 3500, 50000, shards=3),
    Facet("quaternion", st.fixed_dictionaries(dict(COMMON, seq=st.sampled_from(SEQ), form=st.sampled_from([0, 0, 0, 1, 2, 3]))), quat, 3000, 50000, shards=3),
    history.facet("C18"),
], rule="a rotation away from gimbal lock, a gimbal-locked matrix, or at least two non-zero angles",
    assumptions=["rotation matrices are orthonormal up to a few units of rounding"])
