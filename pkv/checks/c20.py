"""so(3) exponential, logarithm, angles, skew map and extrapolated arc-cosine against float64 definitions."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, fail, require
from .. import gen, history, ref
from ..tfgen import EPS
from .c17 import lay, meta
from pytorch_kinematics.transforms import so3

PI = math.pi


def vecs(case, dtype):
    v = np.array(case["v"], float).reshape(-1, 3)
    if case.get("layout") == 4:  # the same in every row
        v = np.repeat(v[:1], len(v), 0)
    return gen.cast(v, dtype)


def raises(f, what, exc=Exception):
    try:
        y = f()
    except exc:
        return
    fail("%s returned %r instead of raising" % (what, y))


def explog(case, rec):
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    v = vecs(case, dtype) * case["k"]
    v = gen.cast(v, dtype)
    N = len(v)
    n = np.linalg.norm(v, axis=1)
    R = ref.expso3(v)
    t = lay(v, case["layout"], dt)
    eps = case["eps"]
    M = pk.so3_exp_map(t) if eps is None else pk.so3_exp_map(t, eps=eps)
    meta(M, (N, 3, 3), dt, "exponential")
    # below sqrt(eps) the small-angle clamp is off by a relative eps/6
    e = eps or 1e-4
    base = 60 * EPS[dtype] * (1 + np.abs(v).max())
    clampd = np.where(n * n < e * 1.01, np.minimum(np.sqrt(e), 1) * e, 0)
    # 1 - cos in working precision, divided by the squared angle
    tol = base + clampd
    close(M, R, tol[:, None, None], "exponential of a rotation vector")
    rec.label(dtype, "zero" if (n == 0).any() else None, "tiny" if ((n > 0) & (n < 1e-3)).any() else None, "half turn" if (np.abs(n - PI) < 1e-3).any() else None,
              "beyond half a turn" if (n > PI).any() else None)
    rec.nt(N > 1 and bool((n > 1e-2).any()))
    # logarithm away from half a turn
    P = gen.cast(R, dtype)
    w = ref.logso3(P)
    a = np.linalg.norm(w, axis=1)
    ok = a < PI - 0.03
    if ok.any():
        tP = lay(P, case["layout"], dt)
        L = pk.so3_log_map(tP)
        meta(L, (N, 3), dt, "logarithm")
        close(np.where(ok[:, None], gen.arr(L), 0), np.where(ok[:, None], w, 0), (3e-5 * np.minimum(a, 0.03) + 40 * EPS[dtype] / np.maximum(np.sin(np.minimum(a, PI - 0.02)), 0.02) ** 2)[:, None], "logarithm of a rotation")
        back = pk.so3_exp_map(L)
        tb = base + 4e-6 + 80 * EPS[dtype] / np.where(ok, np.maximum(np.sin(np.where(ok, a, 1)), 0.02), 1) ** 2
        close(np.where(ok[:, None, None], gen.arr(back), 0), np.where(ok[:, None, None], P, 0), tb[:, None, None], "exponential of the logarithm")
        l2 = pk.so3_log_map(M)
        ok2 = ok & (n < PI - 0.03)
        close(np.where(ok2[:, None], gen.arr(l2), 0), np.where(ok2[:, None], v, 0), (4e-5 * np.minimum(n, 0.03) + 80 * EPS[dtype] / np.where(ok2, np.maximum(np.sin(np.where(ok2, n, 1)), 0.02), 1) ** 2 + clampd)[:, None],
              "logarithm of the exponential")
        # one at a time
        k = case["row"] % N
        if ok[k]:
            close(pk.so3_log_map(tP[k:k + 1])[0], gen.arr(L)[k], 1e-5 if dtype == "f32" else 1e-12, "one logarithm on its own")
    k = case["row"] % N
    one = pk.so3_exp_map(t[k:k + 1]) if eps is None else pk.so3_exp_map(t[k:k + 1], eps)
    close(one[0], gen.arr(M)[k], 20 * EPS[dtype] * (1 + n[k]), "one exponential on its own")


def angles(case, rec):
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    v = vecs(case, dtype)
    R = gen.cast(ref.expso3(v), dtype)
    N = len(R)
    rng = np.random.RandomState(case["seed"])
    S = gen.cast(ref.expso3(rng.normal(size=(N, 3)) * 2), dtype)
    if case["rel"]:
        A = lay(gen.cast(R @ S, dtype), case["layout"], dt)
        B = lay(S, case["layout"], dt)
        f = lambda **k: pk.so3_relative_angle(A, B, **k)
        D = gen.arr(A) @ np.swapaxes(S, -1, -2)
    else:
        t = lay(R, case["layout"], dt)
        f = lambda **k: pk.so3_rotation_angle(t, **k)
        D = R
    what = "relative angle" if case["rel"] else "rotation angle"
    th = ref.angle_between(D, np.broadcast_to(np.eye(3), D.shape))
    c = f(cos_angle=True)
    meta(c, (N,), dt, "cosine")
    close(c, np.cos(th), 40 * EPS[dtype], "cosine of the " + what)
    y = f()
    meta(y, (N,), dt, what)
    ok = (th > 0.02) & (th < PI - 0.02)
    tol = 40 * EPS[dtype] / np.maximum(np.sin(th), 0.014) + np.where(ok, 0, 0.0075)
    close(y, th, tol, what)
    if case["rel"]:
        z = pk.so3_relative_angle(B, A)
        close(z, gen.arr(y), 40 * EPS[dtype] / np.maximum(np.sin(th), 0.014), "symmetry of the relative angle")
    else:
        for b in case["bounds"]:
            z = f(cos_bound=b)
            if b > 0:
                inside = np.abs(np.cos(th)) < 1 - b - 40 * EPS[dtype]
            else:
                inside = np.abs(np.cos(th)) < 1 - 1e-6
            close(np.where(inside, gen.arr(z), 0), np.where(inside, th, 0), 40 * EPS[dtype] / np.maximum(np.sin(th), 1e-3), "rotation angle with cos_bound=%g" % b)
            if b > 0:  # outside the bound: the linear continuation
                x = np.cos(th)
                x0 = 1 - b
                lin = np.where(x > 0, math.acos(x0) - (x - x0) / math.sqrt(1 - x0 * x0), math.acos(-x0) - (x + x0) / math.sqrt(1 - x0 * x0))
                out = np.abs(x) > 1 - b + 40 * EPS[dtype]
                close(np.where(out, gen.arr(z), 0), np.where(out, lin, 0), 40 * EPS[dtype] / math.sqrt(1 - x0 * x0) + 20 * EPS[dtype], "continued rotation angle with cos_bound=%g" % b)
    # agrees with the length of the logarithm
    l = np.linalg.norm(gen.arr(pk.so3_log_map(torch.tensor(gen.cast(D, dtype), dtype=dt))), axis=1)
    close(np.where(ok, l, 0), np.where(ok, th, 0), np.where(ok, 200 * EPS[dtype] / np.maximum(np.sin(th), 0.014) ** 2, 0), "length of the logarithm")
    rec.label(dtype, what)
    rec.nt(bool(ok.any()))
    # traces outside the valid range are rejected
    k, sgn, dl = case["bad"]
    X = R.copy()
    X[k % N] = np.eye(3) * ((3 + dl) / 3 if sgn else (-1 - dl) / 3)
    X = torch.tensor(X, dtype=dt)
    if not case["rel"]:
        if dl > 2e-4:
            raises(lambda: pk.so3_rotation_angle(X), "rotation angle of a matrix of trace %g" % float(X[k % N].trace()), ValueError)
            raises(lambda: pk.so3_rotation_angle(X, cos_angle=True), "cosine for a matrix of trace %g" % float(X[k % N].trace()), ValueError)
            raises(lambda: pk.so3_log_map(X), "logarithm of a matrix of trace %g" % float(X[k % N].trace()), ValueError)
            pk.so3_rotation_angle(X, eps=dl * 1.5)
        else:
            pk.so3_rotation_angle(X)


def skews(case, rec):
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    v = gen.cast(np.array(case["v"], float).reshape(-1, 3) * case["k"], dtype)
    N = len(v)
    t = lay(v, case["layout"], dt)
    h = so3.hat(t)
    meta(h, (N, 3, 3), dt, "skew map")
    close(h, ref.skew(v), 0, "skew map")
    b = so3.hat_inv(h)
    meta(b, (N, 3), dt, "inverse skew map")
    close(b, v, 0, "inverse of the skew map")
    close(so3.hat(so3.hat_inv(lay(ref.skew(v), case["layout"], dt))), ref.skew(v), 0, "skew map of the inverse")
    rec.label(dtype)
    rec.nt(N > 1 and bool((v != 0).any()))
    # matrices that are not skew-symmetric are rejected, anywhere in the batch and in any entry
    k, i, j, d = case["bad"]
    X = ref.skew(v).copy()
    X[k % N, i, j] += d
    if case["more"] == "opposite entry":  # sums over the matrix cancel
        X[k % N, (i + 1) % 3, (j + case["mo"]) % 3] -= d
    elif case["more"] == "opposite matrix":  # sums over the batch cancel
        X[(k + 1) % N, i, j] -= d
    elif case["more"] == "symmetric":
        X[k % N, j, i] += d
    elif case["more"] == "all but one":
        X += d
        X[k % N] -= d
    got = gen.cast(X, dtype)
    dev = np.abs(got + np.swapaxes(got, -1, -2)).max()
    X = torch.tensor(got, dtype=dt)
    if dev > 1.1e-5:
        raises(lambda: so3.hat_inv(X), "inverse skew map of a matrix that is off by %g" % dev, ValueError)
        rec.label("rejected")
    elif dev < 0.9e-5:
        so3.hat_inv(X)
    bad = [torch.zeros(N, 2, dtype=dt), torch.zeros(N, 4, dtype=dt), torch.zeros(3, dtype=dt), torch.zeros(N, 3, 1, dtype=dt)][case["shape"] % 4]
    raises(lambda: so3.hat(bad), "skew map of shape %s" % (tuple(bad.shape),))
    raises(lambda: pk.so3_exp_map(bad), "exponential of shape %s" % (tuple(bad.shape),))
    bad = [torch.zeros(N, 2, 3, dtype=dt), torch.zeros(N, 4, 4, dtype=dt), torch.zeros(3, 3, dtype=dt), torch.zeros(1, N, 3, 3, dtype=dt), torch.zeros(N, 3, 2, dtype=dt)][case["shape"]]
    raises(lambda: so3.hat_inv(bad), "inverse skew map of shape %s" % (tuple(bad.shape),))
    raises(lambda: pk.so3_log_map(bad), "logarithm of shape %s" % (tuple(bad.shape),))
    raises(lambda: pk.so3_rotation_angle(bad), "angle of shape %s" % (tuple(bad.shape),))
    raises(lambda: pk.so3_relative_angle(bad, bad), "relative angle of shape %s" % (tuple(bad.shape),))


def acos(case, rec):
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    x = gen.cast(np.resize(np.array(case["x"], float), tuple(case["shape"])), dtype)
    t = lay(x, case["layout"], dt)
    if case["bform"] == "default":
        lo, hi = -(1 - 1e-4), 1 - 1e-4
        y = pk.acos_linear_extrapolation(t)
    elif case["bform"] == "float":
        hi = abs(case["b"][1])
        lo = -hi
        y = pk.acos_linear_extrapolation(t, hi)
    else:
        lo, hi = sorted(case["b"])
        b = (lo, hi) if case["bform"] == "tuple" else [lo, hi]
        y = pk.acos_linear_extrapolation(t, bound=b)
    meta(y, x.shape, dt, "extrapolated arc-cosine")
    with np.errstate(all="ignore"):
        d = lambda u: -1 / math.sqrt(1 - u * u)
        want = np.where(x >= hi, math.acos(hi) + d(hi) * (x - hi), np.where(x <= lo, math.acos(lo) + d(lo) * (x - lo), np.arccos(np.clip(x, -1, 1))))
    slope = max(-d(hi), -d(lo))
    close(y, want, 20 * EPS[dtype] * (1 + slope * (1 + np.abs(x))), "extrapolated arc-cosine with bounds %g, %g" % (lo, hi))
    # continuous at both bounds
    for b in (lo, hi):
        e = 1e-3 * (1 - abs(b))
        z = gen.arr(pk.acos_linear_extrapolation(torch.tensor([b - e, b, b + e], dtype=torch.float64), (lo, hi)))
        require(z[0] >= z[1] >= z[2] or lo == hi, lambda: "not decreasing at the bound %g" % b)
        require(abs(z[0] - z[2]) <= 3 * e * slope + 1e-12, lambda: "a jump at the bound %g: %r" % (b, z.tolist()))
    rec.label(case["bform"], dtype, "outside" if ((x > hi) | (x < lo)).any() else None)
    rec.nt(bool(((x > hi) | (x < lo)).any()))
    k = case["badb"]
    if lo < hi:
        raises(lambda: pk.acos_linear_extrapolation(t, (hi, lo)), "swapped bounds", ValueError)
    bad = [(-1.0, 0.5), (-0.5, 1.0), 1.0, (-1.5, 0.0), (0.0, 1.5), 1.2][k]
    raises(lambda: pk.acos_linear_extrapolation(t, bad), "bounds %r" % (bad,), ValueError)


RV = st.lists(gen.rotvecs(), min_size=1, max_size=6)
BND = st.one_of(gen.num(-0.95, 0.95), st.sampled_from([0.999, -0.999, 0.0, 0.5]))
CHECK = Check("C20", [
    Facet("exp and log", st.fixed_dictionaries(dict(v=RV, dtype=gen.DTYPE, layout=st.integers(0, 5), k=st.sampled_from([1.0, 1.0, 1.0, -1.0, 2.0, 5.0]),
                                                    eps=st.sampled_from([None, None, 1e-4, 1e-6, 1e-3]), row=st.integers(0, 5))), explog, 1500, 40000, shards=3),
    Facet("angles", st.fixed_dictionaries(dict(v=RV, dtype=gen.DTYPE, layout=st.integers(0, 5), rel=st.booleans(), seed=gen.SEED,
                                               bounds=st.lists(st.sampled_from([0.0, 1e-4, 1e-3, 0.1, 0.5]), min_size=1, max_size=2),
                                               bad=st.tuples(st.integers(0, 5), st.booleans(), st.sampled_from([5e-5, 1e-3, 0.5, 10.0])).map(list))), angles, 1500, 40000, shards=3),
    Facet("skew", st.fixed_dictionaries(dict(v=RV, dtype=gen.DTYPE, layout=st.integers(0, 5), k=st.sampled_from([1.0, 1e-3, 10.0]), shape=st.integers(0, 4),
                                             bad=st.tuples(st.integers(0, 5), st.integers(0, 2), st.integers(0, 2), st.sampled_from([1.0, -1.0, 1e-3, 3e-5, -2e-5, 2e-6])).map(list),
                                             more=st.sampled_from(["", "", "opposite entry", "opposite matrix", "symmetric", "all but one"]), mo=st.integers(0, 2))),
          skews, 1000, 30000, shards=2),
    Facet("acos", st.fixed_dictionaries(dict(x=st.lists(st.one_of(gen.num(-1.2, 1.2), st.sampled_from([1.0, -1.0, 0.9999, -0.9999, 0.0, 2.0, -5.0])), min_size=1, max_size=8), shape=gen.SHAPES, dtype=gen.DTYPE,
                                             layout=st.integers(0, 5), bform=st.sampled_from(["default", "float", "tuple", "list"]), b=st.tuples(BND, BND).map(list),
                                             badb=st.integers(0, 5))), acos, 1200, 30000, shards=2),
    history.facet("C20"),
], rule="several rotation vectors with one away from zero, an angle away from 0 and half a turn, or arguments outside the bounds",
    assumptions=["near half a turn the logarithm is not compared", "the documented small-angle clamps bound the accuracy near zero"])
