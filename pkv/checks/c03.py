"""Every batch element is computed independently of its batch (metamorphic: batch against rows)."""
import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen

LAYOUTS = ["plain", "transposed", "strided", "expanded", "offset", "flip", "colslice", "windows", "columns"]


def layout(x, kind):
    """A tensor with the values of x and another memory layout."""
    B, n = x.shape
    if kind == "transposed":
        return x.t().contiguous().t()
    if kind == "strided":
        y = torch.full((2 * B, n), 7.7, dtype=x.dtype)
        y[::2] = x
        return y[::2]
    if kind == "offset":
        y = torch.full((B + 3, n), -3.3, dtype=x.dtype)
        y[3:] = x
        return y[3:]
    if kind == "colslice":
        y = torch.full((B, 2 * n + 1), 1.1, dtype=x.dtype)
        y[:, 1::2] = x
        return y[:, 1::2]
    if kind == "expanded" and B > 1 and bool((x == x[:1]).all()):
        return x[:1].expand(B, n)
    if kind == "flip":
        return x.flip(0).flip(0)
    if kind == "windows" and n and bool((x[1:, :-1] == x[:-1, 1:]).all()):  # sliding windows over one series
        return torch.cat([x[:, 0], x[-1, 1:]]).clone().as_strided((B, n), (1, 1))
    if kind == "columns" and n and bool((x == x[:, :1]).all()):  # one value for all joints
        return x[:, :1].clone().expand(B, n)
    return x


def prep(case, rec, m, nj, chain):
    Q = gen.cast(gen.rows(case["q"], nj), case["dtype"])
    if case["layout"] == "expanded":
        Q = np.repeat(Q[:1], len(Q), 0)
    elif nj and case["layout"] == "columns":
        Q = np.repeat(Q[:, :1], nj, 1)
    elif nj and case["layout"] == "windows":
        order = gen.to_chain_order(chain, m, np.arange(nj)[None])[0]  # windows over the columns in the order of the chain
        s = np.resize(Q.T, len(Q) + nj - 1)
        Q[:, order] = np.stack([s[i:i + nj] for i in range(len(Q))])
    rec.label(case["layout"], case["dtype"], "B<=8" if len(Q) <= 8 else "B>8")
    rec.nt(len(Q) > 1 and nj >= 1)
    return Q


def split(B, k):
    cut = 1 + k % max(1, B - 1)
    return [list(range(cut)), list(range(cut, B))]


def perm_of(B, seed):
    return list(np.random.RandomState(seed).permutation(B))


def compare(f, x, case, what, tol):
    """f: (B, n) tensor -> list of (B, ...) arrays."""
    B = x.shape[0]
    full = f(layout(x, case["layout"]))
    picks = list(range(B)) if B <= 8 else sorted({0, 1, B - 1, B // 2, case["k"] % B, (case["k"] * 7 + 3) % B})
    for i in picks:
        for a, b in zip(full, f(x[i:i + 1])):
            require(len(a) == B, lambda: "%s: %d results for %d configurations" % (what, len(a), B))
            close(a[i:i + 1], b, tol, "%s: row %d alone" % (what, i))
    p = perm_of(B, case["k"])
    for a, b in zip(full, f(x[p])):
        close(b, gen.arr(a)[p], tol, what + ": permuted batch")
    if B > 1:
        for part in split(B, case["k"]):
            for a, b in zip(full, f(x[part])):
                close(b, gen.arr(a)[part], tol, what + ": part of the batch")
    d = [case["k"] % B] * 2 + list(range(B))
    for a, b in zip(full, f(x[d])):
        close(b, gen.arr(a)[d], tol, what + ": duplicated rows")


def fk(case, rec):
    m = gen.Model(case["robot"])
    chain = gen.build(case["robot"], case["dtype"])
    Q = prep(case, rec, m, len(m.joints), chain)
    names = [n["name"] for n in case["robot"]["nodes"]]
    tol = m.tol(case["dtype"], Q)

    def f(x):
        r = chain.forward_kinematics(x)
        return [r[n].get_matrix() for n in names]

    x = torch.tensor(gen.to_chain_order(chain, m, Q), dtype=gen.DT[case["dtype"]])
    compare(f, x, case, "poses", tol)
    # against the reference, so that an error common to batch and rows does not hide
    for a, n in zip(f(layout(x, case["layout"])), names):
        close(a, m.fk(Q)[m.index[n]], tol, "pose of %r" % n)


def jac(case, rec):
    m = gen.Model(case["robot"])
    tip = len(m.nodes) - 1
    chain = pk.SerialChain(gen.build(case["robot"], case["dtype"]), m.nodes[tip]["name"])
    Q = prep(case, rec, m, len(m.joints), chain)
    dt = gen.DT[case["dtype"]]
    B = len(Q)
    x = torch.tensor(gen.to_chain_order(chain, m, Q), dtype=dt)
    tol = m.tol(case["dtype"], Q) * (4 + 2 * len(m.joints)) * (1 + m.reach(Q))
    loc = torch.tensor(np.random.RandomState(case["k"]).uniform(-1, 1, (B, 3)), dtype=dt)
    n = x.shape[1]

    def f(y):  # joint values and tool offset side by side, so that they are permuted together
        q, l = y[:, :n], y[:, n:]
        if y.shape[0] == B and case["layout"] in ("expanded", "windows", "columns"):
            q = layout(q, case["layout"])
        J, T = chain.jacobian(q, locations=l, ret_eef_pose=True)
        J0 = chain.jacobian(q)
        return [J, T, J0]

    compare(f, torch.cat([x, loc], 1), case, "Jacobian", tol)
    J0 = chain.jacobian(layout(x, case["layout"]))
    close(J0, m.serial_jac(0, tip, Q), tol, "Jacobian")


def grad(case, rec):
    m = gen.Model(case["robot"])
    chain = gen.build(case["robot"], case["dtype"])
    Q = prep(case, rec, m, len(m.joints), chain)
    dt = gen.DT[case["dtype"]]
    x = torch.tensor(gen.to_chain_order(chain, m, Q), dtype=dt)
    nf = len(m.nodes)
    W = torch.tensor(np.random.RandomState(case["k"]).normal(size=(nf, 1, 4, 4)), dtype=dt)
    tol = m.tol(case["dtype"], Q) * 8 * nf * (1 + m.reach(Q))

    def f(y):
        if case["layout"] in ("expanded", "windows", "columns"):  # a leaf whose rows share memory
            z = y = layout(y.detach(), case["layout"]).requires_grad_(True)
        else:
            y = y.detach().requires_grad_(True) if case["layout"] == "plain" else y.detach().clone().requires_grad_(True)
            z = layout(y, case["layout"]) if y.shape == x.shape else y
        T = chain.forward_kinematics_tensor(z)
        # losses with different, equal and broadcast gradients for the rows
        L = [(W * T + 0.3 * T * T).sum(), (W * T).sum(), T.sum(), T.mean() * T.numel()][case["k"] % 4]
        g, = torch.autograd.grad(L, y)
        return [g]

    compare(f, x, case, "gradient", tol)
    if case["k"] % 4 == 2:
        y = x.clone().requires_grad_(True)
        g, = torch.autograd.grad(chain.forward_kinematics_tensor(y, analytical_grad=False).sum(), y)
        close(f(x)[0], g, tol, "gradient of the sum of all poses")


@st.composite
def cases(draw, batch, **kw):
    c = draw(gen.robot_config(batch=batch, **kw))
    c["layout"] = draw(st.sampled_from(LAYOUTS))
    c["k"] = draw(st.integers(0, 9999))
    return c


BB = st.one_of(st.integers(2, 6), st.integers(2, 6), st.sampled_from([1, 8, 9, 16, 32, 33, 65, 128, 200]))
LB = st.sampled_from([300, 513, 1024, 1025, 1537, 2049, 2500, 4100, 8193])
CHECK = Check("C03", [
    Facet("fk", cases(BB, max_n=7, min_mov=1), fk, 900, 25000, shards=3),
    Facet("jacobian", cases(BB, max_n=7, min_mov=1, topo="chain"), jac, 900, 25000, shards=3),
    Facet("gradient", cases(BB, max_n=6, min_mov=1), grad, 700, 20000, shards=2),
    Facet("huge", cases(st.integers(2, 4), huge=(24, 100), min_mov=1), fk, 24, 300, shards=2),
    Facet("large", cases(LB, max_n=4, min_mov=1), fk, 60, 800, shards=2),
    Facet("large jacobian", cases(LB, max_n=4, min_mov=1, topo="chain"), jac, 50, 800, shards=2),
    Facet("large gradient", cases(LB, max_n=4, min_mov=1), grad, 50, 800, shards=2),
], rule="more than one configuration in the batch and at least one movable joint",
    assumptions=["equality is up to rounding: kernels may differ in the last bits between batch sizes"])
