"""Gradients through the Jacobian and the returned pose against numerical differentiation of the numpy model."""
import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from pytorch_kinematics.jacobian import calc_jacobian
from ..core import Check, Facet, close, require
from .. import gen, ref
from .c05 import serial_setup

KINDS = ["J", "pose", "both", "square", "entry", "manip"]


def lossfn(kind, W, V, lib):
    def f(J, T):
        rows = lambda x: x.sum((1, 2))  # one loss per configuration
        if kind in ("J", "entry"):
            return rows(W * J)
        if kind == "pose":
            return rows(V * T)
        if kind == "square":
            return rows(W * J * J) + rows(V * T * T)
        if kind == "manip":
            A = J @ (J.transpose(1, 2) if lib is torch else np.swapaxes(J, 1, 2)) + lib.eye(6) if lib is np else \
                J @ J.transpose(1, 2) + torch.eye(6, dtype=J.dtype)
            return lib.log(lib.linalg.det(A))
        return rows(W * J) + rows(V * T)
    return f


def run(case, rec):
    m, chain, a, b, js, q, names = serial_setup(case)
    dt = gen.DT[case["dtype"]]
    B, n = q.shape
    rec.label(case["dtype"], case["kind"], case["tool"], case["api"])
    rec.nt(n >= 2)
    if n == 0:
        return
    rng = np.random.RandomState(case["k"])
    W, V = rng.normal(size=(B, 6, n)), rng.normal(size=(B, 4, 4))
    if case["kind"] == "entry":
        Z = np.zeros_like(W)
        Z[:, rng.randint(6), rng.randint(n)] = 1.0
        W = Z
    tl = np.round(rng.uniform(-1, 1, (B, 3)), 3)
    if case["tool"] == "none":
        tl = np.zeros((0, 3))
    elif case["tool"] in ("vec", "T1") or B == 1:
        tl = tl[:1]
    if case["dtype"] == "f32":
        tl = tl.astype(np.float32).astype(float)
    R1 = ref.expso3(rng.uniform(-2, 2, 3)) if case["tool"] == "T1" else np.eye(3)
    if case["dtype"] == "f32":
        R1 = R1.astype(np.float32).astype(float)

    def model(qf, tf):
        M = None if len(tf) == 0 else ref.hom(np.broadcast_to(R1, (len(tf), 3, 3)), tf)
        return lossfn(case["kind"], W, V, np)(m.serial_jac(a, b, qf, M), m.serial_fk(a, b, qf, M))

    x = torch.tensor(q, dtype=dt, requires_grad=True)
    t = torch.tensor(tl, dtype=dt, requires_grad=True)
    if case["tool"] == "none":
        arg = None
    elif case["tool"] == "T1":
        M = torch.eye(4, dtype=dt).repeat(1, 1, 1)
        M = torch.cat([torch.cat([torch.tensor(R1, dtype=dt)[None], t[:1, :, None]], 2), M[:, 3:]], 1)
        arg = pk.Transform3d(matrix=M)
    elif case["tool"] == "vec":
        arg = t[0]
    else:
        arg = t
    th = x
    if case["api"] == "dict":
        th = {nm: x[:, i] for i, nm in enumerate(names)}
    if case["api"] == "kernel" and arg is None:
        J, T = chain.jacobian_tensor(x, ret_eef_pose=True)
    elif case["api"] == "pre" and arg is None:
        J, T = chain.jacobian_tensor(x, ret_eef_pose=True, all_transforms=chain.forward_kinematics_tensor(x))
    elif case["api"] == "calc":
        J, T = calc_jacobian(chain, th, tool=arg, ret_eef_pose=True)
    elif case["kind"] in ("J", "entry", "manip") and case["k"] % 2:
        J, T = (chain.jacobian(th) if arg is None else chain.jacobian(th, locations=arg)), None
    else:
        J, T = chain.jacobian(th, locations=arg, ret_eef_pose=True)
    L = lossfn(case["kind"], torch.tensor(W, dtype=dt), torch.tensor(V, dtype=dt), torch)(J, T).sum()
    if case["k"] % 3 == 0 and L.requires_grad:
        torch.autograd.grad(L, [x, t], retain_graph=True, allow_unused=True)
    gx, gt = torch.autograd.grad(L, [x, t], allow_unused=True) if L.requires_grad else (None, None)
    gx = torch.zeros_like(x) if gx is None else gx
    gt = torch.zeros_like(t) if gt is None else gt
    reach = m.reach(q) + np.abs(q).max(initial=0)
    size = np.abs(W).sum((1, 2)) + np.abs(V).sum((1, 2))
    k = (2e-6 if case["dtype"] == "f32" else 1e-9) * (1 + reach) ** (4 if case["kind"] == "manip" else 2)
    close(gx, diff(lambda z: model(z, tl), q), k * (1 + size.max()), "gradient for the joint values")
    if len(tl):
        nt = diff(lambda z: model(q, z), tl)
        close(gt, nt, k * (1 + (size.max() if len(tl) == B else size.sum())), "gradient for the tool offset")


def diff(rows, x, h=1e-4):
    """Fourth order derivative of the losses by the row of x, the losses of which depend on that row only (or, of a single row, all)."""
    g = np.zeros(x.shape)
    for j in range(x.shape[1]):
        d = np.zeros(x.shape)
        d[:, j] = h
        v = (8 * (rows(x + d) - rows(x - d)) - (rows(x + 2 * d) - rows(x - 2 * d))) / (12 * h)
        g[:, j] = v if len(x) == len(v) else v.sum()
    return g


@st.composite
def cases(draw, batch=st.sampled_from([1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 17, 33]), **kw):
    c = draw(gen.robot_config(batch=batch, min_mov=1, offsets=True, **kw))
    c["dtype"] = draw(st.sampled_from(["f64", "f64", "f64", "f32"]))
    c["tip"] = draw(st.one_of(st.none(), st.none(), st.integers(0, 9)))
    c["base"] = draw(st.one_of(st.none(), st.none(), st.integers(0, 5)))
    c["tool"] = draw(st.sampled_from(["none", "vec", "batch", "T1"]))
    c["kind"] = draw(st.sampled_from(KINDS))
    c["api"] = draw(st.sampled_from(["jac", "jac", "calc", "dict", "kernel", "pre"]))
    c["k"] = draw(st.integers(0, 9999))
    return c


CHECK = Check("C06", [
    Facet("serial", cases(max_n=6, topo="chain"), run, 1300, 30000, shards=5),
    Facet("serial", cases(max_n=6, topo="chain").filter(lambda c: c["kind"] != "manip"), run, 80).under_double(80),  # torch.linalg.det fails there
    Facet("tree", cases(max_n=8), run, 600, 15000, shards=3),
    Facet("manyrows", cases(max_n=5, topo="chain", batch=st.sampled_from([64, 100, 130, 257, 300, 1025])), run, 60, 1500, shards=2),
    Facet("long", cases(min_n=7, max_n=16, topo="chain"), run, 80, 2000, shards=2),
], rule="at least two movable joints in the chain",
    ambient=False, assumptions=["numerical differentiation of the float64 numpy model, fourth order"])
