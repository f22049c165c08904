"""Points, normals and shape operators under batches of affine transforms, against float64 algebra."""
import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen, tfgen
from ..tfgen import EPS, Val, build, compose, invert


def transform(case, dtype, rec):
    """A transform of n elements built in one of several ways -> Val."""
    T, M, err = build(case["leaf"], dtype, case["one2d"])
    v = Val(T, M, err, dtype)
    for op, l in case["ops"]:
        rec.label(op)
        if op == "inverse":
            v = invert(v, v.T.inverse())
        elif op == "clone":
            v = Val(v.T.clone(), v.M, v.err, dtype)
        elif op == "matrix":
            v = Val(pk.Transform3d(matrix=v.T.get_matrix()), v.M, v.err, dtype)
        else:
            T2, M2, e2 = build(l, dtype)
            w = Val(T2, M2, e2, dtype)
            v = compose([v, w], v.T.compose(T2)) if op == "compose" else compose([w, v], T2.compose(v.T))
    return v


def data(case, n, tail, dtype):
    """Items of shape (P, *tail) or (N, P, *tail)."""
    P, k = case["P"], int(np.prod(tail))
    d3 = case["dim3"]
    N = {"n": n, "1": 1, "m": case["m"] if n == 1 else n}[case["N"]] if d3 else 1
    rng = np.random.RandomState(case["seed"])
    x = rng.uniform(-2, 2, (N, P) + tail)
    flat = x.reshape(-1)
    for i, a in enumerate(case["x"][:flat.size]):
        flat[i] = a
    x = gen.cast(x, dtype)
    if not d3:
        x = x[0]
    lay = case["layout"]
    if lay == 4:  # one item or batch in memory
        x = np.repeat(x[:1], len(x), 0)
    t = torch.tensor(x, dtype=gen.DT[dtype])
    if lay == 4:
        t = t[:1].clone().expand(t.shape)
    elif lay == 5:
        t = t.movedim(-1, 0).contiguous().movedim(0, -1)
    if lay == 1:
        t = torch.stack([t, t], -1)[..., 0]
    elif lay == 2 and N == 1 and d3:
        t = t[0][None].expand(1, *t.shape[1:])
    elif lay == 3:
        t = t.flip(0).flip(0).requires_grad_(True)
    return x, t


def expect_shape(x, n, tail):
    if x.ndim == 1 + len(tail):
        return x.shape if n == 1 else (n,) + x.shape
    return (max(n, x.shape[0]),) + x.shape[1:]


def linear(case, rec):
    dtype = case["dtype"]
    v = transform(case, dtype, rec)
    M, n = v.M, len(v.M)
    what = case["what"]
    tail = (3, 3) if what == "shape" else (3,)
    pd = dtype if not case["mixed"] else ("f32" if dtype == "f64" else "f64")
    x, t = data(case, n, tail, pd)
    rec.label(what, dtype, "mixed" if case["mixed"] else None, "%dD" % x.ndim, "batch" if n > 1 else "single")
    rec.nt(n > 1 or x.ndim > 1 + len(tail) or case["P"] > 1)
    A = M[:, :3, :3]
    eps = max(EPS[dtype], EPS[pd])
    big = 1 + np.abs(x).max()
    xb = x if x.ndim == 2 + len(tail) else x[None]
    if what == "points":
        got = v.T.transform_points(t)
        want = np.einsum("nij,npj->npi", np.broadcast_to(A, (max(n, len(xb)), 3, 3)), np.broadcast_to(xb, (max(n, len(xb)),) + xb.shape[1:])) + M[:, None, :3, 3]
        tol = (4 * v.err + 16 * eps * v.norm) * big * (1 + 4 * v.err * big * v.norm)
    else:
        iv = invert(v, None)
        if iv.err > 1e-2 * (1 + np.abs(iv.M).max()):
            return
        I = iv.M[:, :3, :3]
        N = max(n, len(xb))
        xb = np.broadcast_to(xb, (N,) + xb.shape[1:])
        I = np.broadcast_to(I, (N, 3, 3))
        if what == "normals":
            got = v.T.transform_normals(t)
            want = np.einsum("nji,npj->npi", I, xb)
            tol = (4 * iv.err + 16 * eps * iv.norm) * big
        else:
            got = v.T.transform_shape_operator(t)
            want = np.einsum("nji,npjk,nkl->npil", I, xb, I)
            tol = 12 * (iv.err * iv.norm + 8 * eps * iv.norm ** 2) * big
    shape = expect_shape(x, n, tail)
    require(tuple(got.shape) == tuple(shape), lambda: "%s of shape %s with %d transforms: result of shape %s instead of %s" % (
        what, x.shape, n, tuple(got.shape), tuple(shape)))
    if not case["mixed"]:
        require(got.dtype == gen.DT[dtype], lambda: "%s: precision %s" % (what, got.dtype))
    close(gen.arr(got).reshape(want.shape), want, tol, what)
    if what == "normals" and n == 1 or what == "normals" and x.ndim == 2:
        # normals stay orthogonal to transformed tangents: n' . (A u) = n . u
        u = gen.cast(np.resize(np.array([0.3, -1.2, 0.7, 1.5, 0.2]), (3,)), dtype)
        tip = v.T.transform_points(torch.tensor(np.stack([u, 0 * u]), dtype=gen.DT[dtype]))
        tip = gen.arr(tip).reshape(-1, 2, 3)
        tan = tip[:, 0] - tip[:, 1]
        g = gen.arr(got).reshape(want.shape)
        close(np.einsum("npi,ni->np", g, np.broadcast_to(tan, (len(g), 3))), xb @ u, 100 * (tol * v.norm * 4 + (v.err + eps * v.norm) * np.abs(want).max() * 4 + eps),
              "inner product of normals and tangents")


def one_to_one(case, rec):
    """The i-th transform acts on the i-th item."""
    dtype = case["dtype"]
    n = case["n"]
    v = transform(dict(case, leaf=case["leaf"]), dtype, rec)
    if len(v.M) != n:
        v = Val(v.T.stack(*[v.T] * (n - 1)) if len(v.M) == 1 else v.T, np.resize(v.M, (n, 4, 4)) if len(v.M) == 1 else v.M, v.err, dtype)
    n = len(v.M)
    what = case["what"]
    rng = np.random.RandomState(case["seed"])
    d3 = case["dim3"]
    x = rng.uniform(-2, 2, (n, case["P"], 3) if d3 else (n, 3))
    x.reshape(-1)[:len(case["x"][:x.size])] = case["x"][:x.size]
    x = gen.cast(x, dtype)
    t = torch.tensor(x, dtype=gen.DT[dtype])
    rec.label(what, "%dD" % x.ndim, "n>1" if n > 1 else "n=1")
    rec.nt(n > 1)
    xb = x if d3 else x[:, None]
    big = 1 + np.abs(x).max()
    if what == "points":
        got = v.T.transform_points(t, batch_to_batch=True)
        want = np.einsum("nij,npj->npi", v.M[:, :3, :3], xb) + v.M[:, None, :3, 3]
        tol = (4 * v.err + 16 * EPS[dtype] * v.norm) * big * (1 + 4 * v.err * big * v.norm)
    else:
        iv = invert(v, None)
        if iv.err > 1e-2 * (1 + np.abs(iv.M).max()):
            return
        got = v.T.transform_normals(t, batch_to_batch=True)
        want = np.einsum("nji,npj->npi", iv.M[:, :3, :3], xb)
        tol = (4 * iv.err + 16 * EPS[dtype] * iv.norm) * big
    require(tuple(got.shape) == x.shape, lambda: "one-to-one %s of shape %s: result of shape %s" % (what, x.shape, tuple(got.shape)))
    close(gen.arr(got).reshape(want.shape), want, tol, "one-to-one %s" % what)
    # and equals applying the transforms one at a time
    k = case["seed"] % n
    one = v.T[k]
    sub = t[k] if d3 else t[k:k + 1]
    y = one.transform_points(sub) if what == "points" else one.transform_normals(sub)
    close(gen.arr(y).reshape(-1, 3), gen.arr(got[k]).reshape(-1, 3), 2 * tol, "element %d on its own" % k)


def projective(case, rec):
    """General homogeneous matrices: division by the last coordinate, with and without the clamp."""
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    n = case["n"]
    M = tfgen.mats(case["leaf"], dtype)
    if len(M) != n:
        M = np.resize(M, (n, 4, 4))
    M = M.copy()
    row = gen.cast(np.array(case["row"][:n], float), dtype)
    M[:, 3] = row
    T = pk.Transform3d(matrix=torch.tensor(M, dtype=dt))
    x, t = data(case, n, (3,), dtype)
    eps = case["eps"]
    xb = x if x.ndim == 3 else x[None]
    N = max(n, len(xb))
    xb = np.broadcast_to(xb, (N,) + xb.shape[1:])
    h = np.concatenate([xb, np.ones(xb.shape[:-1] + (1,))], -1)
    y = np.einsum("nij,npj->npi", np.broadcast_to(M, (N, 4, 4)), h)
    den = y[..., 3:]
    e_den = 20 * EPS[dtype] * (np.abs(row).max() + 1) * (1 + np.abs(x).max())
    if case["zero"]:  # denominators exactly zero
        rec.label("zero denominator")
    ok = (np.abs(den) > 1e-3)[..., 0]
    got = gen.arr(T.transform_points(t) if eps is None else T.transform_points(t, eps=eps))
    require(tuple(got.shape) == tuple(expect_shape(x, n, (3,))), lambda: "projective points of shape %s with %d transforms: result of shape %s" % (
        x.shape, n, got.shape))
    got = got.reshape(y.shape[:2] + (3,))
    D = den
    if eps is not None:
        sg = np.where(den < 0, -1.0, 1.0)
        D = sg * np.maximum(np.abs(den), eps)
        exact0 = (np.broadcast_to(M, (N, 4, 4))[:, None, 3] == 0).all(-1) & np.ones(den.shape[:2], bool)
        ok = (np.abs(den) > 4 * e_den)[..., 0] | exact0
    rec.nt(bool(ok.any()))
    rec.label("eps" if eps is not None else "no eps", "clamped" if eps is not None and (np.abs(den) < eps).any() else None)
    with np.errstate(all="ignore"):
        want = y[..., :3] / D
        # error of the quotient
        ey = 20 * EPS[dtype] * (np.abs(M).max() + 1) * (1 + np.abs(x).max())
        tol = ey / np.abs(D) + np.abs(y[..., :3]) * e_den / D ** 2 + 4 * EPS[dtype] * np.abs(want)
    close(np.where(ok[..., None], got, 0), np.where(ok[..., None], want, 0), np.where(ok[..., None], 2 * tol, 0), "projected points")


@st.composite
def tcases(draw, n=None, kinds=None, affine=True):
    n = draw(tfgen.NB) if n is None else n
    d = dict(leaf=draw(tfgen.leaf(n, kinds)), one2d=draw(st.booleans()), dtype=draw(gen.DTYPE), ops=[], seed=draw(gen.SEED), n=n)
    for _ in range(draw(st.integers(0, 2)) if affine else 0):
        d["ops"].append([draw(st.sampled_from(["inverse", "clone", "matrix", "compose", "rcompose"])), draw(tfgen.leaf(draw(st.sampled_from([1, n]))))])
    d["P"] = draw(st.sampled_from([1, 1, 2, 3, 4, n, n, n, 7, 9]))
    d["dim3"] = draw(st.booleans())
    d["N"] = draw(st.sampled_from(["n", "1", "m"]))
    d["m"] = draw(st.integers(2, 5))
    d["layout"] = draw(st.integers(0, 5))
    d["x"] = draw(st.lists(st.one_of(gen.num(-3, 3), st.sampled_from([0.0, 1.0, -1.0])), min_size=0, max_size=9))
    d["what"] = draw(st.sampled_from(["points", "normals", "normals", "shape", "shape"]))
    d["mixed"] = draw(st.sampled_from([False] * 5 + [True]))
    return d


@st.composite
def btob(draw):
    n = draw(st.one_of(st.sampled_from([1, 2, 3, 4, 5]), st.integers(1, 17)))
    d = draw(tcases(n))
    d["what"] = draw(st.sampled_from(["points", "normals"]))
    return d


@st.composite
def proj(draw):
    d = draw(tcases(kinds=["affine", "rigid"], affine=False))
    z = draw(st.sampled_from([False, False, True]))
    el = st.one_of(gen.num(-2, 2), st.sampled_from([0.0, 1.0]))
    d["row"] = [[0.0] * 4 if z and draw(st.booleans()) else [draw(el) for _ in range(4)] for _ in range(d["n"])]
    d["zero"] = z
    d["eps"] = draw(st.sampled_from([1e-4, 1e-2, 0.5, 2.0])) if z else draw(st.sampled_from([None, None, 1e-4, 1e-2, 0.5, 2.0]))
    return d


def reused(case, rec):
    """One transform and one array of items whose contents change between the calls; earlier results stay."""
    dtype = case["dtype"]
    vs = [transform(case, dtype, rec)]
    if case["m"] % 2:  # a second transform takes turns on the same items
        vs.append(invert(vs[0], vs[0].T.inverse()))
    n = len(vs[0].M)
    held, old = {}, []
    for s, (what, sd) in enumerate(case["steps"]):
        v = vs[s % len(vs)]
        M = v.M
        tail = (3, 3) if what == "shape" else (3,)
        x, _ = data(dict(case, seed=case["seed"] + sd, N="n", x=[], layout=0), n, tail, dtype)
        new = torch.tensor(x, dtype=gen.DT[dtype])
        if tail not in held:
            held[tail] = new
        elif sd % 2:
            held[tail].copy_(new)
        else:
            held[tail].data.copy_(new)
        t = held[tail]
        xb = np.broadcast_to(x if x.ndim == 2 + len(tail) else x[None], (n,) + x.shape[-1 - len(tail):])
        big = 1 + np.abs(x).max()
        if what == "points":
            got = v.T.transform_points(t)
            want = np.einsum("nij,npj->npi", M[:, :3, :3], xb) + M[:, None, :3, 3]
            tol = (4 * v.err + 16 * EPS[dtype] * v.norm) * big * (1 + 4 * v.err * big * v.norm)
        else:
            iv = invert(v, None)
            if iv.err > 1e-2 * (1 + np.abs(iv.M).max()):
                return
            I = iv.M[:, :3, :3]
            if what == "normals":
                got = v.T.transform_normals(t)
                want = np.einsum("nji,npj->npi", I, xb)
                tol = (4 * iv.err + 16 * EPS[dtype] * iv.norm) * big
            else:
                got = v.T.transform_shape_operator(t)
                want = np.einsum("nji,npjk,nkl->npil", I, xb, I)
                tol = 12 * (iv.err * iv.norm + 8 * EPS[dtype] * iv.norm ** 2) * big
        close(gen.arr(got).reshape(want.shape), want, tol, "step %d: %s of rewritten items" % (s, what))
        old.append((got, gen.arr(got).copy(), what))
        rec.label(what)
    for g, w, what in old:
        close(g, w, 0, "%s after later calls" % what)
    rec.nt(n > 1 or case["P"] > 1)


@st.composite
def rcases(draw):
    d = draw(tcases())
    d["steps"] = draw(st.lists(st.tuples(st.sampled_from(["points", "points", "normals", "shape"]), st.integers(0, 99)).map(list), min_size=2, max_size=5))
    return d


CHECK = Check("C16", [
    Facet("reused", rcases(), reused, 500, 12000, shards=2),
    Facet("broadcast", tcases(), linear, 2400, 60000, shards=4),
    Facet("one-to-one", btob(), one_to_one, 1200, 30000, shards=2),
    Facet("projective", proj(), projective, 1000, 20000, shards=2),
], rule="several transforms, several items, or a batch of items (projective: some denominator well away from zero or clamped)",
    assumptions=["the number of item batches equals the number of transforms or one of them is one", "ill-conditioned transforms are skipped"])
