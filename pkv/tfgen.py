"""Generated transforms: JSON specification -> (real Transform3d, float64 matrices, error bound)."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from .boot import pk
from . import gen, ref

EPS = {"f32": 6e-8, "f64": 1.2e-16}
NB = st.sampled_from(([1] * 16 + [2, 3, 4, 5, 6, 7] * 3 + list(range(8, 18))) * 2 + [70, 300, 1030])
# volume preserving, mirroring and orthogonal scales
UNI = [[2.0, 0.5, 1.0], [1.0, 4.0, 0.25], [-1.0, 1.0, 1.0], [-1.0, -1.0, 1.0], [-1.0, -1.0, -1.0], [2.0, -0.5, -1.0], [1.0, 1.0, 1.0],
       [0.5, 0.5, 4.0], [1.0, 1.0, -1.0]]
SC = st.one_of(gen.num(0.2, 4), gen.num(-3, -0.3), st.sampled_from([1.0, -1.0, 0.5, 2.0, 0.02, 25.0]))


def rows(s, n, k):
    return [[s for _ in range(k)] for _ in range(n)]


@st.composite
def vecs(draw, n, k, el):
    if n <= 8:
        return [[draw(el) for _ in range(k)] for _ in range(n)]
    few = [[draw(el) for _ in range(k)] for _ in range(5)]  # longer ones vary a few rows
    return [[x if x in (0.0, 1.0, -1.0) else round(x * (1 + 0.003 * (i % 83)), 6) for x in few[(i * i) % 5]] for i in range(n)]


@st.composite
def scales(draw, n):
    kind = draw(st.integers(0, 5))
    if kind == 0:
        return [draw(st.sampled_from(UNI))] * n
    if kind == 1:
        few = [draw(st.sampled_from(UNI)) for _ in range(3)]
        return [few[(i * i) % 3] for i in range(n)]
    return draw(vecs(n, 3, SC))


@st.composite
def leaf(draw, n=None, kinds=None):
    n = draw(NB) if n is None else n
    k = draw(st.sampled_from(kinds or ["ident", "affine", "rigid", "pos", "rot", "posrot", "translate", "translate3", "scale", "scale1", "scaleN",
                                       "rotate", "aa"]))
    d = dict(k=k, n=n)
    if k in ("affine",):
        d["r1"], d["r2"] = draw(vecs(n, 3, gen.num(-3, 3))), draw(vecs(n, 3, gen.num(-3, 3)))
        d["s"], d["t"] = draw(scales(n)), draw(vecs(n, 3, gen.lengths()))
        for r in ("r1", "r2"):
            if draw(st.integers(0, 4)) == 0:
                d[r] = [[0.0] * 3] * n
    elif k == "rigid":
        d["r1"], d["t"] = draw(vecs(n, 3, gen.num(-3, 3))), draw(vecs(n, 3, gen.lengths()))
    elif k in ("pos", "translate", "translate3"):
        d["t"] = draw(vecs(n, 3, gen.lengths(3)))
    elif k in ("rot", "rotate"):
        d["r1"] = draw(vecs(n, 3, gen.num(-3, 3)))
        d["form"] = draw(st.sampled_from(["mat", "quat", "euler"]))
        if d["form"] == "euler" and n == 3:
            d["form"] = "quat"
    elif k == "posrot":
        d["r1"], d["t"] = draw(vecs(n, 3, gen.num(-3, 3))), draw(vecs(n, 3, gen.lengths()))
        d["form"] = draw(st.sampled_from(["mat", "quat"]))
        d["bc"] = draw(st.booleans())
    elif k == "scale":
        d["s"] = draw(scales(n))
    elif k in ("scale1", "scaleN"):
        d["s"] = [x * 3 for x in draw(vecs(n, 1, SC))]
    elif k == "aa":
        d["a"] = [x[0] for x in draw(vecs(n, 1, st.one_of(gen.num(-400, 400), st.sampled_from([0.0, 90.0, 180.0, -90.0, 360.0, 45.0, 1e-3, 720.0]))))]
        d["axis"] = draw(st.sampled_from("XYZxyz"))
        d["deg"] = draw(st.booleans())
    return d


def euler_xyz(e):
    """R = Rx(a) Ry(b) Rz(c), the default convention."""
    ax = np.eye(3)
    return ref.rodrigues(np.broadcast_to(ax[0], e.shape), e[:, 0]) @ ref.rodrigues(np.broadcast_to(ax[1], e.shape), e[:, 1]) @ ref.rodrigues(
        np.broadcast_to(ax[2], e.shape), e[:, 2])


def mats(d, dtype):
    """Float64 matrices of a leaf, from parameters rounded to the precision under test."""
    n = d["n"]
    c = lambda x: gen.cast(np.array(x, float), dtype)
    M = np.broadcast_to(np.eye(4), (n, 4, 4)).copy()
    k = d["k"]
    if k == "affine":
        A = ref.expso3(np.array(d["r1"])) @ (np.array(d["s"])[:, :, None] * np.eye(3)) @ ref.expso3(np.array(d["r2"]))
        M[:, :3, :3] = c(A)
    if k in ("rigid", "rot", "rotate", "posrot"):
        if d.get("form") == "euler":
            M[:, :3, :3] = euler_xyz(c(d["r1"]))
        else:
            R = ref.expso3(np.array(d["r1"]))
            M[:, :3, :3] = c(R) if d.get("form", "mat") == "mat" else R
    if k == "posrot" and d["bc"]:
        M[:, :3, 3] = c(d["t"])[:1]
    elif "t" in d:
        M[:, :3, 3] = c(d["t"])
    if "s" in d and k != "affine":
        M[:, :3, :3] = c(d["s"])[:, :, None] * np.eye(3)
    if k == "aa":
        a = c(d["a"]) if not d["deg"] else c(d["a"]) / 180 * math.pi
        ax = np.eye(3)["XYZ".index(d["axis"].upper())]
        M[:, :3, :3] = ref.rodrigues(np.broadcast_to(ax, (n, 3)), a)
    return M


def build(d, dtype, one2d=False):
    """-> (Transform3d, matrices, error bound of the real matrices)."""
    dt = gen.DT[dtype]
    n, k = d["n"], d["k"]
    M = mats(d, dtype)
    t = lambda x: torch.tensor(np.asarray(x), dtype=dt)
    sq = lambda x: x[0] if n == 1 and one2d else x
    kw = dict(dtype=dt)
    err = 4 * EPS[dtype] * (1 + np.abs(M).max())

    def rot():
        nonlocal err
        if d.get("form", "mat") == "mat":
            return t(M[:, :3, :3])
        if d["form"] == "euler":
            err *= 10
            return t(np.array(d["r1"], float))
        err *= 10
        return t(ref.R2q(ref.expso3(np.array(d["r1"]))))
    if k == "ident":
        T = pk.Transform3d(default_batch_size=n, **kw) if n > 1 else pk.Transform3d(**kw)
    elif k in ("affine", "rigid"):
        T = pk.Transform3d(matrix=sq(t(M)))
    elif k == "pos":
        T = pk.Transform3d(pos=sq(t(d["t"])), **kw)
    elif k == "rot":
        T = pk.Transform3d(rot=sq(rot()), **kw)
    elif k == "posrot":
        T = pk.Transform3d(rot=sq(rot()), pos=t(d["t"][0]) if d["bc"] else sq(t(d["t"])), **kw)
    elif k == "translate":
        T = pk.Translate(t(d["t"]), **kw)
    elif k == "translate3":
        x, y, z = (t([r[i] for r in d["t"]]) for i in range(3))
        T = pk.Translate(x, y, z, **kw) if n > 1 or one2d else pk.Translate(*[float(v) for v in d["t"][0]], **kw)
    elif k == "scale":
        T = pk.Scale(t(d["s"]), **kw)
    elif k == "scale1":
        T = pk.Scale(t([r[0] for r in d["s"]]), **kw) if n > 1 else pk.Scale(float(d["s"][0][0]), **kw)
    elif k == "scaleN":
        x = t([r[0] for r in d["s"]])
        T = pk.Scale(x, x.clone(), x.clone(), **kw)
    elif k == "rotate":
        T = pk.Rotate(sq(rot()), **kw)
    elif k == "aa":
        a = t(d["a"]) if n > 1 or one2d else float(d["a"][0])
        err += 8 * EPS[dtype] * (np.abs(d["a"]).max() + 1)
        T = pk.RotateAxisAngle(a, axis=d["axis"], degrees=d["deg"], **kw)
    else:
        raise AssertionError(k)
    return T, M, err


class Val:
    """A real transform with its reference and an error bound."""

    def __init__(self, T, M, err, dtype):
        self.T, self.M, self.err, self.dtype = T, M, err, dtype

    @property
    def norm(self):
        return 4 * np.abs(self.M).max()


def compose(vals, real):
    M, err = vals[0].M, vals[0].err
    for v in vals[1:]:
        na, nb = 4 * np.abs(M).max(), v.norm
        err = na * v.err + nb * err + 8 * EPS[v.dtype] * na * nb
        M = M @ v.M
    return Val(real, M, err, vals[0].dtype)


def invert(v, real):
    Mi = np.linalg.inv(v.M)
    ni = 4 * np.abs(Mi).max()
    return Val(real, Mi, ni * ni * (v.err + 20 * EPS[v.dtype] * v.norm), v.dtype)
