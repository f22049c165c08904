"""Random perturbations and rotations: hard constraints per sample, scaling for equal draws, distributions over many samples."""
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, fail, require
from .. import gen, ref
from pytorch_kinematics.transforms.perturbation import sample_perturbations

warnings.simplefilter("ignore")
TOL = {"f32": 4e-6, "f64": 1e-13}


def so3err(R):
    return max(gen.diff(R @ np.swapaxes(R, -1, -2), np.broadcast_to(np.eye(3), R.shape)), gen.diff(np.linalg.det(R), np.ones(R.shape[:-2])))


def base(case, rng, n):
    w = gen.rb_array(case["rb"]).reshape(-1, 3)[:1]
    t = np.round(rng.uniform(-1, 1, 3) * case["far"], 3)
    T = ref.hom(ref.expso3(w[0]), t)[None]
    if n:
        T = np.concatenate([T] + [ref.hom(ref.expso3(rng.uniform(-1, 1, 3) * 2), rng.uniform(-1, 1, 3) * case["far"])[None] for _ in range(n - 1)])
    return T


def perturb(case, rec):
    dt = gen.DT[case["dtype"]]
    tol = TOL[case["dtype"]]
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    T = base(case, rng, n if case["batched"] else 0)
    Tt = torch.tensor(T, dtype=dt)
    T = gen.arr(Tt)
    rs, ts = case["rs"], case["ts"]
    u = np.array(case["axis"], float)
    kw = {}
    if case["fixed"]:
        kw["axis_of_rotation"] = torch.tensor(u, dtype=dt)
        if not case["perp"]:
            kw["translation_perpendicular_to_axis_of_rotation"] = False
        elif case["explicit"]:
            kw["translation_perpendicular_to_axis_of_rotation"] = True
    method = case["method"] and not case["fixed"]

    def sample(rs, ts):
        torch.manual_seed(case["tseed"])
        if method:
            r = pk.Transform3d(matrix=Tt.clone()).sample_perturbations(n, rs, ts)
            require(r.dtype == dt, lambda: "perturbations of a %s transform are %s" % (dt, r.dtype))
            P = r.get_matrix()
        else:
            P = sample_perturbations(Tt.clone() if case["batched"] else Tt[0].clone(), n, rs, ts, **kw)
        require(tuple(P.shape) == (n, 4, 4), lambda: "%d perturbations of shape %s" % (n, tuple(P.shape)))
        require(P.dtype == dt, "precision %s" % P.dtype)
        P = gen.arr(P)
        require(np.isfinite(P).all(), "not finite")
        close(P[:, 3], np.broadcast_to([0.0, 0, 0, 1], (n, 4)), 0, "last row")
        return P

    def parts(P):
        D = P[:, :3, :3] @ np.swapaxes(T[..., :3, :3], -1, -2)
        return ref.logso3(D), P[:, :3, 3] - T[..., :3, 3]

    P = sample(rs, ts)
    require(so3err(P[:, :3, :3]) < tol * 6, lambda: "a perturbation is not a rigid transform (%g)" % so3err(P[:, :3, :3]))
    w, d = parts(P)
    ptol = tol * (1 + case["far"])
    require((np.linalg.norm(d, axis=1) <= 9.5 * ts + ptol).all(), lambda: "a translation of %g with standard deviation %g" % (np.linalg.norm(d, axis=1).max(), ts))
    require((np.linalg.norm(w, axis=1) <= 8 * rs + tol * 30).all(), lambda: "a rotation by %g with standard deviation %g" % (np.linalg.norm(w, axis=1).max(), rs))
    if case["fixed"]:
        # D u = u, and the rotation vector is along u
        D = P[:, :3, :3] @ np.swapaxes(T[..., :3, :3], -1, -2)
        close(D @ u, np.broadcast_to(u, (n, 3)), tol * 10, "the axis of rotation after the perturbation")
        if case["perp"]:
            close(d @ u, np.zeros(n), (ts * 9 * tol + ptol) * 2, "translation along the axis of rotation")
    # zero magnitudes
    Z = sample(0.0, 0.0)
    close(Z, np.broadcast_to(T, (n, 4, 4)), tol, "perturbations of zero magnitude")
    w0, d0 = parts(sample(rs, 0.0))
    close(d0, 0 * d0, ptol, "translations of zero magnitude")
    if rs > 0:
        close(w0, w, tol * 40, "rotations do not depend on the translation magnitude")
    w0, d0 = parts(sample(0.0, ts))
    require(np.linalg.norm(w0, axis=1).max() <= tol * 10, "rotations of zero magnitude")
    close(d0, d, ptol * 4 + 9 * ts * tol, "translations do not depend on the rotation magnitude")
    # scaling for the same draw
    c = case["c"]
    P1 = sample(rs * c, ts * c)
    require(so3err(P1[:, :3, :3]) < tol * 6, "a perturbation is not a rigid transform")
    w1, d1 = parts(P1)
    close(d1, d * c, (ptol * 4 + 9 * ts * tol) * (1 + c), "translations scaled by %g" % c)
    close(ref.expso3(w1), ref.expso3(w * c), tol * 80 * (1 + c), "rotations scaled by %g" % c)
    # other draws differ
    if n >= 1 and (rs > 1e-3 or ts > 1e-3):
        torch.manual_seed(case["tseed"] + 1)
        Q = gen.arr(sample_perturbations(Tt[0].clone(), n, rs, ts))
        require(gen.diff(Q, P) > 1e-7, "another draw is the same")
    if n >= 2 and ts > 1e-3:
        require(np.ptp(d, axis=0).max() > 1e-6, "all samples share one translation")
    if n >= 2 and rs > 1e-3:
        require(np.ptp(w, axis=0).max() > 1e-6, "all samples share one rotation")
    rec.label("axis" if case["fixed"] else "free", "method" if method else "function", case["dtype"], "batched" if case["batched"] else None)
    rec.nt(n > 1 and (rs > 0 or ts > 0))


def ks(x, cdf):
    """Kolmogorov-Smirnov distance times sqrt(n): above 3.6 has probability 1e-11."""
    x = np.sort(x)
    n = len(x)
    F = cdf(x)
    return max((np.arange(1, n + 1) / n - F).max(), (F - np.arange(n) / n).max()) * np.sqrt(n)


def normcdf(x):
    from scipy.stats import norm
    return norm.cdf(x)


def spread(case, rec):
    """Distribution of perturbations: isotropic Gaussian translations, Gaussian angles about uniformly distributed axes."""
    dt = gen.DT[case["dtype"]]
    rng = np.random.RandomState(case["seed"])
    n = case["N"]
    T = base(case, rng, 0)
    rs, ts, u = case["rs"], case["ts"], np.array(case["axis"], float)
    torch.manual_seed(case["tseed"])
    Tt = torch.tensor(T, dtype=dt)
    kw = {}
    if case["fixed"]:
        kw = dict(axis_of_rotation=torch.tensor(u, dtype=dt), translation_perpendicular_to_axis_of_rotation=case["perp"])
        P = gen.arr(sample_perturbations(Tt[0], n, rs, ts, **kw))
    else:
        P = gen.arr(pk.Transform3d(matrix=Tt).sample_perturbations(n, rs, ts).get_matrix())
    T = gen.arr(Tt)
    D = P[:, :3, :3] @ np.swapaxes(T[:, :3, :3], -1, -2)
    w, d = ref.logso3(D), (P[:, :3, 3] - T[:, :3, 3]) / ts
    B = np.linalg.svd(u[None])[2]  # u and two directions perpendicular to it
    x = d @ B.T
    for i in range(3):
        if case["fixed"] and case["perp"] and i == 0:
            continue
        require(ks(x[:, i], normcdf) < 3.6, lambda: "translations along %s are not Gaussian with the given deviation (std %g times)" % (B[i].tolist(), x[:, i].std()))
    C = np.corrcoef(x.T if not (case["fixed"] and case["perp"]) else x[:, 1:].T)
    require(np.abs(C - np.eye(len(C))).max() < 7 / np.sqrt(n), "translations are correlated")
    if case["fixed"]:
        a = w @ u / rs
        require(ks(a, normcdf) < 3.6, lambda: "angles are not Gaussian with the given deviation (std %g times, mean %g)" % (a.std(), a.mean()))
        require(abs(np.corrcoef(a, x[:, 1])[0, 1]) < 7 / np.sqrt(n), "rotations and translations are correlated")
    else:
        a = np.linalg.norm(w, axis=1) / rs
        require(ks(a, lambda z: 2 * normcdf(z) - 1) < 3.6, lambda: "angles are not Gaussian with the given deviation (rms %g times)" % np.sqrt((a ** 2).mean()))
        v = w / np.linalg.norm(w, axis=1, keepdims=True)
        for i in range(3):  # a coordinate of a uniform direction is uniform on [-1, 1]
            require(ks(v @ B[i], lambda z: (z + 1) / 2) < 3.6, "axes are not uniformly distributed along %s" % B[i].tolist())
        require(np.abs(np.corrcoef(v.T) - np.eye(3)).max() < 7 / np.sqrt(n), "axes are not uniformly distributed")
    rec.label("axis" if case["fixed"] else "free")
    rec.nt()


def randoms(case, rec):
    dt = gen.DT[case["dtype"]] if case["dt"] else None
    real = dt or torch.get_default_dtype()
    tol = TOL["f32" if real == torch.float32 else "f64"]
    n = case["n"]
    g = case["grad"]
    torch.manual_seed(case["tseed"])
    q = pk.random_quaternions(n, dtype=dt, requires_grad=g)
    require(tuple(q.shape) == (n, 4) and q.dtype == real, lambda: "quaternions of shape %s %s" % (tuple(q.shape), q.dtype))
    require(q.requires_grad == g or n == 0, "gradient flag")
    R = pk.random_rotations(n, dtype=dt, requires_grad=g)
    require(tuple(R.shape) == (n, 3, 3) and R.dtype == real, lambda: "rotations of shape %s %s" % (tuple(R.shape), R.dtype))
    R1 = pk.random_rotation(dtype=dt, requires_grad=g)
    require(tuple(R1.shape) == (3, 3) and R1.dtype == real, lambda: "rotation of shape %s %s" % (tuple(R1.shape), R1.dtype))
    require(R1.requires_grad == g and (R.requires_grad == g or n == 0), "gradient flag")
    q, R, R1 = gen.arr(q), gen.arr(R), gen.arr(R1)
    if n:
        close(np.linalg.norm(q, axis=1), np.ones(n), tol, "length of random quaternions")
        require((q[:, 0] >= 0).all(), "a negative real part")
        require(so3err(R) < tol * 5, "a random rotation is no rotation")
    require(so3err(R1) < tol * 5, "a random rotation is no rotation")
    if n >= 2:
        require(len(np.unique(q.round(9), axis=0)) == n and len(np.unique(R.reshape(n, 9).round(9), axis=0)) == n, "samples repeat")
    torch.manual_seed(case["tseed"])
    close(pk.random_quaternions(n, dtype=dt), q, 0, "the same draw")
    rec.nt(n >= 2)


def uniform(case, rec):
    """Haar measure: angle and axis of G R, for a fixed rotation G."""
    dt = gen.DT[case["dtype"]]
    n = case["N"]
    torch.manual_seed(case["tseed"])
    if case["kind"] == "q":
        q = gen.arr(pk.random_quaternions(n, dtype=dt))
        require((q[:, 0] >= 0).all() and np.abs(np.linalg.norm(q, axis=1) - 1).max() < 1e-5, "unit quaternions with non-negative real part")
        R = ref.q2R(q)
    elif case["kind"] == "R":
        R = gen.arr(pk.random_rotations(n, dtype=dt))
    else:
        n = n // 4
        R = np.stack([gen.arr(pk.random_rotation(dtype=dt)) for _ in range(n)])
    G = ref.expso3(gen.rb_array(case["rb"]).reshape(-1, 3)[0])
    u = np.array(case["axis"], float)
    for nm, S in (("", R), (" after a fixed rotation", G @ R), (" before a fixed rotation", R @ G)):
        w = ref.logso3(S)
        a = np.linalg.norm(w, axis=1)
        require(ks(a, lambda t: (t - np.sin(t)) / np.pi) < 3.6, lambda: "angles%s do not follow the uniform distribution over rotations (mean %g instead of 2.207)" % (nm, a.mean()))
        v = w / a[:, None]
        require(ks(v @ u, lambda z: (z + 1) / 2) < 3.6, lambda: "axes%s are not uniformly distributed" % nm)
        y = S @ u  # a uniformly distributed direction
        for i in range(3):
            require(ks(y[:, i], lambda z: (z + 1) / 2) < 3.6, lambda: "directions%s are not uniformly distributed" % nm)
        require(np.abs(S.mean(0)).max() < 7 / np.sqrt(3 * n), "mean of the rotations%s" % nm)
    # independent samples
    s = R[:, 0, 0]
    require(abs(np.corrcoef(s[1:], s[:-1])[0, 1]) < 7 / np.sqrt(n), "successive samples are correlated")
    rec.label(case["kind"])
    rec.nt()


COMMON = dict(rb=gen.rot_batches(shapes=st.just([1])), far=st.sampled_from([0.0, 1.0, 3.0]), dtype=gen.DTYPE, seed=gen.SEED, tseed=st.integers(0, 2 ** 31 - 2), axis=gen.unit3(), fixed=st.booleans(), perp=st.booleans())
CHECK = Check("C27", [
    Facet("perturb", st.fixed_dictionaries(dict(COMMON, n=st.one_of(st.integers(1, 6), st.sampled_from([1, 10, 50])), rs=st.one_of(gen.num(0, 0.38), st.sampled_from([0.0, 1e-3, 0.1])), ts=st.one_of(gen.num(0, 2), st.sampled_from([0.0, 1e-3, 0.1])),
                                                batched=st.booleans(), method=st.booleans(), explicit=st.booleans(), c=st.sampled_from([0.5, 2.0, 0.1, 0.9, 4.0, 12.0, 100.0]))), perturb, 1200, 30000, shards=2),
    Facet("spread", st.fixed_dictionaries(dict(COMMON, N=st.sampled_from([3000, 6000]), rs=st.sampled_from([0.05, 0.1, 0.3]), ts=st.sampled_from([0.05, 1.0, 0.3]))), spread, 80, 2000, shards=2),
    Facet("random rotations", st.fixed_dictionaries(dict(n=st.integers(0, 40), dtype=gen.DTYPE, dt=st.booleans(), grad=st.booleans(), tseed=st.integers(0, 2 ** 31 - 2))), randoms, 300, 8000, shards=1),
    Facet("uniform", st.fixed_dictionaries(dict(N=st.sampled_from([4000, 8000]), kind=st.sampled_from(["q", "R", "R", "one"]), rb=gen.rot_batches(shapes=st.just([1])), axis=gen.unit3(), dtype=gen.DTYPE, tseed=st.integers(0, 2 ** 31 - 2))), uniform, 60, 2000, shards=2),
], rule="more than one sample with a magnitude above zero; every distribution test",
    assumptions=["axes of rotation are unit vectors", "distribution tests reject at a probability below 1e-10 per comparison, with seeded draws"])
