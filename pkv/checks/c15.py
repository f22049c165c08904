"""Constructors and chained builders against the documented matrices."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen, ref, tfgen
from ..tfgen import EPS, build


def prec(T, dtype, what):
    M = T.get_matrix()
    require(M.dtype == gen.DT[dtype] and T.dtype == gen.DT[dtype], lambda: "%s: precision %s/%s instead of %s" % (what, T.dtype, M.dtype, dtype))
    return M


def leaves(case, rec):
    T, M, err = build(case["leaf"], case["dtype"], case["one"])
    rec.label(case["leaf"]["k"], case["dtype"])
    rec.nt(case["leaf"]["k"] != "ident")
    close(prec(T, case["dtype"], case["leaf"]["k"]), M, err, case["leaf"]["k"])


# ------------------------------------------------------------------ constructor arguments
def as_form(form, x, dt):
    """x: nested float array."""
    x = np.asarray(x, float)
    if form == "tensor":
        return torch.tensor(x, dtype=dt)
    if form == "list":
        return x.tolist()
    if form == "tuple":
        return tuple(x.tolist()) if x.ndim == 1 else x.tolist()
    if form == "strided":
        return torch.tensor(np.stack([x, x], -1), dtype=dt)[..., 0]
    return x


def ctor(case, rec):
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    n = case["n"]
    M = np.broadcast_to(np.eye(4), (n, 4, 4)).copy()
    kw = {"dtype": dt}
    err = 40 * EPS[dtype]
    rng = np.random.RandomState(case["seed"])
    one = n == 1 and case["one"]
    if case["matrix"]:
        A = tfgen.mats(case["leaf"], dtype)
        M = A.copy()
        kw["matrix"] = as_form("strided" if case["strided"] else "tensor", A[0] if one else A, dt)
        if not case["strided"] and case["seed"] % 2:
            kw["matrix"] = kw["matrix"].transpose(-1, -2).contiguous().transpose(-1, -2)
    pos = np.round(rng.uniform(-3, 3, (n, 3)), 3)
    if case["pos"]:
        # a single position serves a batch of matrices or rotations only when the batch comes with the rotation
        if case["pos"] == "single" and n > 1 and case["rot"] and not case["matrix"]:
            kw["pos"] = as_form(case["pform"], pos[0], dt)
            M[:, :3, 3] = gen.cast(pos[0], dtype)
        else:
            kw["pos"] = as_form(case["pform"], pos[0] if one else pos, dt)
            M[:, :3, 3] = gen.cast(pos, dtype)
        rec.label("pos_" + case["pform"])
    if case["rot"]:
        rv = np.array([np.array(case["rv"][i % len(case["rv"])]) * (1 + i * 0.1) for i in range(n)])
        k = case["rot"]
        if k == "euler" and n == 3:
            k = "quat"
        if k == "euler":
            e = gen.cast(np.round(rv, 3), dtype)
            R, val = tfgen.euler_xyz(e), e
        else:
            R = ref.expso3(rv)
            val = R if k == "mat" else ref.R2q(R)
            if k == "mat":
                R = gen.cast(R, dtype)
        kw["rot"] = as_form(case["rform"], val[0] if one else val, dt)
        M[:, :3, :3] = R
        rec.label("rot_%s_%s" % (k, case["rform"]))
    if not (case["matrix"] or case["pos"] or case["rot"]):
        kw["default_batch_size"] = n
    rec.label(dtype, "batch" if n > 1 else "single", "matrix" if case["matrix"] else None)
    rec.nt(bool(case["pos"]) + bool(case["rot"]) + bool(case["matrix"]) >= 2)
    T = pk.Transform3d(**kw)
    close(prec(T, dtype, "constructor"), M, err * (1 + np.abs(M).max()), "Transform3d(%s)" % ", ".join("%s=%s" % (k, tuple(np.shape(v)) if k != "dtype" else v) for k, v in kw.items()))
    require(len(T) == n, "length")


# ------------------------------------------------------------------ elementary builders with mixed arguments
def mixed(case, rec):
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    n = case["n"]
    args, cols = [], []
    for form, vals in zip(case["forms"], case["vals"]):
        v = gen.cast(np.array(vals[:n], float), dtype)
        if form == "vec" and n >= 1:
            args.append(torch.tensor(v, dtype=dt))
            cols.append(v)
        elif form == "vec1":
            args.append(torch.tensor(v[:1], dtype=dt))
            cols.append(np.repeat(v[:1], n))
        elif form == "t0":
            args.append(torch.tensor(v[0], dtype=dt))
            cols.append(np.repeat(v[:1], n))
        elif form == "int":
            k = int(round(v[0])) or 1
            args.append(k)
            cols.append(np.repeat(float(k), n))
        elif form == "np":
            args.append(np.float64(v[0]))
            cols.append(np.repeat(v[:1], n))
        else:
            args.append(float(v[0]))
            cols.append(np.repeat(v[:1], n))
    V = np.stack(cols, 1)
    if not any(f == "vec" for f in case["forms"]):
        V = V[:1]
    rec.label(*case["forms"])
    rec.label(case["what"])
    rec.nt(len(set(case["forms"])) >= 2)
    M = np.broadcast_to(np.eye(4), (len(V), 4, 4)).copy()
    start = None
    if case["chain"]:
        start, M0, e0 = build(case["leaf"], dtype)
        if len(M0) != 1 and len(M0) != len(V) and len(V) != 1:
            start, M0, e0 = pk.Transform3d(dtype=dt), np.eye(4)[None], 0
    kw = {} if (start is not None and case["inherit"]) else {"dtype": dt}
    if case["what"] == "translate":
        M[:, :3, 3] = V
        T = (start.translate if start is not None else pk.Translate)(*args, **kw)
    else:
        M[:, :3, :3] = V[:, :, None] * np.eye(3)
        T = (start.scale if start is not None else pk.Scale)(*args, **kw)
    tol = 0.0
    if start is not None:
        M = M0 @ M
        tol = (e0 * 8 + 8 * EPS[dtype]) * (1 + np.abs(M0).max()) * (1 + np.abs(V).max())
    close(prec(T, dtype, case["what"]), M, tol, "%s(%s)" % (case["what"], case["forms"]))


# ------------------------------------------------------------------ chains of builders
def chain(case, rec):
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    T, M, err = build(case["start"], dtype)
    t = lambda x: torch.tensor(np.asarray(x), dtype=dt)
    for s in case["steps"]:
        n = s["n"]
        if len(M) != 1 and n != 1 and n != len(M):
            s = dict(s, n=1)
            n = 1
        kw = {} if case["inherit"] else {"dtype": dt}
        k = s["k"]
        D = np.broadcast_to(np.eye(4), (n, 4, 4)).copy()
        e = 4 * EPS[dtype]
        rec.label(k)
        if k == "translate":
            v = gen.cast(s["v"][:n], dtype)
            D[:, :3, 3] = v
            T = T.translate(t(v), **kw) if n > 1 or s["form"] else T.translate(*[float(x) for x in v[0]], **kw)
        elif k == "scale":
            v = gen.cast(s["s"][:n], dtype)
            D[:, :3, :3] = v[:, :, None] * np.eye(3)
            T = T.scale(t(v), **kw) if n > 1 or s["form"] else T.scale(*[float(x) for x in v[0]], **kw)
        elif k == "uscale":
            v = gen.cast(np.array(s["s"])[:n, 0], dtype)
            D[:, :3, :3] = v[:, None, None] * np.eye(3)
            T = T.scale(t(v), **kw) if n > 1 or s["form"] else T.scale(float(v[0]), **kw)
        elif k == "rotate":
            R = ref.expso3(np.array(s["v"][:n]))
            if s["form"] == 1:
                T = T.rotate(t(ref.R2q(R)) if n > 1 else t(ref.R2q(R)[0]), **kw)
                e *= 6
            elif s["form"] == 2:
                T = T.rotate(R[0].tolist() if n == 1 else R.tolist(), **kw)
            elif s["form"] == 3 and n != 3:
                E = gen.cast(s["v"][:n], dtype)
                R = tfgen.euler_xyz(E)
                T = T.rotate(t(E) if n > 1 else t(E[0]), **kw)
                e *= 6
            else:
                T = T.rotate(t(R) if n > 1 or s["form"] else t(R[0]), **kw)
            D[:, :3, :3] = R
        else:
            a = gen.cast(np.array(s["a"])[:n], dtype)
            deg = s["form"] % 2 == 0
            arg = t(a) if n > 1 or s["form"] >= 2 else float(a[0])
            rad = a / 180 * math.pi if deg else a
            ax = s["axis"]
            if s["form"] == 3 and n == 1:
                # axis and degrees by their defaults
                ax, rad = "X", a / 180 * math.pi
                T = T.rotate_axis_angle(arg, **kw)
            elif s["form"] == 2:
                T = T.rotate_axis_angle(arg, ax, deg, **kw)
            else:
                T = T.rotate_axis_angle(arg, axis=ax, degrees=deg, **kw)
            D[:, :3, :3] = ref.rodrigues(np.broadcast_to(np.eye(3)["XYZ".index(ax.upper())], (n, 3)), rad)
            e *= 4 + np.abs(a).max()
        na, nb = 4 * np.abs(M).max(), 4 * np.abs(D).max()
        err = err * nb + e * (1 + nb) * na + 8 * EPS[dtype] * na * nb
        M = M @ D
        close(prec(T, dtype, k), M, err, "after .%s (form %s, batch %d)" % (k, s["form"], n))
    rec.label(dtype, "inherit" if case["inherit"] else "explicit")
    rec.nt(len(case["steps"]) >= 2)
    # the last step built acts first on points
    p = np.array([0.3, -0.7, 1.1])
    got = gen.arr(T.transform_points(t(p[None]))).reshape(-1, 3)
    close(got, M[:, :3, :3] @ gen.cast(p, dtype) + M[:, :3, 3], err * 8 + 20 * EPS[dtype] * np.abs(M).max(), "points")


@st.composite
def steps(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 3, 4, 5, 6, 9, 12]))
    return dict(k=draw(st.sampled_from(["translate", "scale", "uscale", "rotate", "aa"])), n=n, form=draw(st.integers(0, 3)),
                v=draw(tfgen.vecs(n, 3, gen.num(-3, 3))), s=draw(tfgen.vecs(n, 3, tfgen.SC)), a=[draw(gen.num(-400, 400)) for _ in range(n)],
                axis=draw(st.sampled_from("XYZxyz")))


@st.composite
def ctors(draw):
    n = draw(st.one_of(st.sampled_from([1, 1, 2, 3, 4, 5, 6, 9]), st.integers(1, 17)))
    F = st.sampled_from(["tensor", "list", "tuple", "np", "strided"])
    return dict(n=n, dtype=draw(gen.DTYPE), one=draw(st.booleans()), matrix=draw(st.booleans()), leaf=draw(tfgen.leaf(n, ["affine", "rigid"])),
                strided=draw(st.booleans()), pos=draw(st.sampled_from([None, "batch", "single"])), rot=draw(st.sampled_from([None, "mat", "quat", "euler"])),
                pform=draw(F), rform=draw(F), rv=draw(st.lists(gen.rotvecs(), min_size=1, max_size=3)), seed=draw(gen.SEED))


@st.composite
def mixes(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 9]))
    F = st.sampled_from(["vec", "vec", "vec1", "t0", "int", "float", "np"])
    return dict(n=n, dtype=draw(gen.DTYPE), forms=[draw(F) for _ in range(3)], vals=draw(tfgen.vecs(3, 9, tfgen.SC)),
                what=draw(st.sampled_from(["translate", "scale"])), chain=draw(st.booleans()), inherit=draw(st.booleans()),
                leaf=draw(tfgen.leaf(draw(st.sampled_from([1, n])))))


CHECK = Check("C15", [
    Facet("builders", st.fixed_dictionaries(dict(leaf=tfgen.leaf(), dtype=gen.DTYPE, one=st.booleans())), leaves, 1200, 20000, shards=2),
    Facet("constructor", ctors(), ctor, 1500, 30000, shards=3),
    Facet("mixed", mixes(), mixed, 1200, 20000, shards=2),
    Facet("chain", st.fixed_dictionaries(dict(start=tfgen.leaf(), steps=st.lists(steps(), min_size=1, max_size=5), dtype=gen.DTYPE,
                                              inherit=st.booleans())), chain, 1500, 30000, shards=3),
], rule="two or more constructor arguments, argument kinds or steps (any non-identity leaf for single builders)",
    assumptions=["tensors are given in the requested precision", "three 3-vectors as rot are a rotation matrix",
                 "a batched position with a single rotation is outside the documented forms"])
