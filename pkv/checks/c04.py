"""Gradients of forward kinematics: fast backward against autograd and against numerical differentiation of the numpy model."""
import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen, ref

LOSSES = ["dense", "pos", "rot", "one_entry", "sum", "square", "norm", "sparse", "plain"]


def weights(case, nf, B):
    rng = np.random.RandomState(case["k"])
    W = rng.normal(size=(nf, B, 4, 4))
    W[..., 3, :] = 0
    kind = case["loss"]
    if kind == "pos":
        W[..., :3, :3] = 0
    elif kind == "rot":
        W[..., :3, 3] = 0
    elif kind == "one_entry":
        V = np.zeros_like(W)
        V[rng.randint(nf), :, rng.randint(3), rng.randint(4)] = 1.5
        W = V
    elif kind == "sparse":
        W = W * (rng.rand(*W.shape) < 0.15)
    elif kind in ("sum", "plain"):
        W = np.ones_like(W)
    sel = [i % nf for i in case["frames"]]
    if kind == "plain":
        return np.ones_like(W)
    if sel:
        mask = np.zeros(nf)
        mask[sel] = 1
        W = W * mask[:, None, None, None]
    return W


def loss_np(T, W, kind):
    if kind == "square":
        return (W * T * T).sum((0, 2, 3))
    if kind == "norm":
        return np.sqrt(1 + ((W * T) ** 2).sum((0, 2, 3)))
    return (W * T).sum((0, 2, 3))


def loss_t(T, W, kind):
    if kind == "square":
        return (W * T * T).sum((0, 2, 3))
    if kind == "norm":
        return torch.sqrt(1 + ((W * T) ** 2).sum((0, 2, 3)))
    if kind == "plain":  # a gradient that is broadcast over everything
        return T.sum((0, 2, 3))
    return (W * T).sum((0, 2, 3))


def numeric_grad(m, Q, W, kind, h=2e-4):
    """Per-row gradient of the row's loss, (B, n)."""
    out = np.zeros_like(Q)
    for k in range(Q.shape[1]):
        e = np.zeros(Q.shape[1])
        e[k] = h
        f = lambda s: loss_np(m.fk(Q + s * e), W, kind)
        d1, d2 = (f(1) - f(-1)) / (2 * h), (f(2) - f(-2)) / (4 * h)
        out[:, k] = (4 * d1 - d2) / 3
    return out


def setup(case, rec):
    m = gen.Model(case["robot"])
    chain = gen.build(case["robot"], case["dtype"])
    Q = gen.cast(gen.rows(case["q"], len(m.joints)), case["dtype"])
    W = weights(case, len(m.nodes), len(Q))
    rec.label(case["dtype"], case["loss"], case["via"], "branching" if gen.branching(case["robot"]) else "serial")
    rec.nt(len(m.joints) >= 2 and np.abs(W).max() > 0)
    return m, chain, Q, W


def poses(chain, case, x, names, analytic=True):
    """(n_frames, B, 4, 4) in the order of names."""
    via = case["via"]
    jn = chain.get_joint_parameter_names()
    if via == "tensor" or not analytic:
        T = chain.forward_kinematics_tensor(x, analytical_grad=analytic) if not analytic else chain.forward_kinematics_tensor(x)
        return T[chain.get_frame_indices(*names)]
    if via == "dict":
        r = chain.forward_kinematics({n: x[:, i] for i, n in enumerate(jn)})
    elif via == "subset":
        nf = len(names)
        sel = sorted((set() if case["loss"] == "plain" else {i % nf for i in case["frames"]}) or set(range(nf)))
        r = chain.forward_kinematics(x, chain.get_frame_indices(*[names[i] for i in sel]))
        z = torch.zeros(x.shape[0], 4, 4, dtype=x.dtype)
        return torch.stack([r[n].get_matrix() if n in r else z for n in names])
    else:
        r = chain.forward_kinematics(x)
    return torch.stack([r[n].get_matrix() for n in names])


def first(case, rec):
    m, chain, Q, W = setup(case, rec)
    dt = gen.DT[case["dtype"]]
    names = [n["name"] for n in m.nodes]
    jn = chain.get_joint_parameter_names()
    if not jn:
        return
    cols = [m.col[m.jindex[n]] for n in jn]
    Wt = torch.tensor(W, dtype=dt)
    x = torch.tensor(Q[:, cols], dtype=dt, requires_grad=True)
    y = x * 1.0 if case["upstream"] else x
    T = poses(chain, case, y, names)
    L = loss_t(T, Wt, case["loss"])
    if case["loss"] == "plain":
        if case["via"] == "tensor":  # summed without selecting frames before
            L = chain.forward_kinematics_tensor(y).sum((0, 2, 3))
    if case["twice"]:
        torch.autograd.grad(L.sum(), x, retain_graph=True)
    g, = torch.autograd.grad(L.sum(), x, allow_unused=True)
    require(g is not None, "no gradient reaches the joint values")
    scale = 1 + np.abs(W).max() * m.reach(Q) ** 2 * len(m.nodes)
    want = numeric_grad(m, Q, W, case["loss"])[:, cols]
    close(g, want, (3e-5 if case["dtype"] == "f32" else 3e-9) * scale * 2 + (m.tol("f32", Q) * scale if case["dtype"] == "f32" else 0),
          "gradient against numerical differentiation")
    x2 = x.detach().clone().requires_grad_(True)
    T2 = poses(chain, case, x2, names, analytic=False)
    g2, = torch.autograd.grad(loss_t(T2, Wt, case["loss"]).sum(), x2, allow_unused=True)
    if g2 is None:
        g2 = torch.zeros_like(x2)
    close(g, g2, (2e-5 if case["dtype"] == "f32" else 1e-11) * scale, "gradient against ordinary autograd")
    keep = [i for i in range(len(names)) if case["via"] != "subset" or not case["frames"] or i in {f % len(names) for f in case["frames"]}]
    close(T[keep], T2.detach()[keep], m.tol(case["dtype"], Q), "poses with the fast backward")
    if case["upstream"]:  # accumulate through .backward()
        x3 = x.detach().clone().requires_grad_(True)
        loss_t(poses(chain, case, x3, names), Wt, case["loss"]).sum().backward()
        close(x3.grad, g, 1e-5 * scale if case["dtype"] == "f32" else 1e-11 * scale, "gradient through backward()")


def second(case, rec):
    case["dtype"] = "f64"
    m, chain, Q, W = setup(case, rec)
    names = [n["name"] for n in m.nodes]
    jn = chain.get_joint_parameter_names()
    if not jn:
        return
    cols = [m.col[m.jindex[n]] for n in jn]
    Wt = torch.tensor(W)
    x = torch.tensor(Q[:, cols], requires_grad=True)
    T = chain.forward_kinematics_tensor(x, analytical_grad=False)[chain.get_frame_indices(*names)]
    L = loss_t(T, Wt, case["loss"]).sum()
    g, = torch.autograd.grad(L, x, create_graph=True)
    V = torch.tensor(np.random.RandomState(case["k"] + 1).normal(size=Q.shape))
    H, = torch.autograd.grad((g * V).sum(), x, allow_unused=True)
    H = torch.zeros_like(x) if H is None else H
    # numerical: derivative along V of the numerical gradient
    Vm = np.zeros_like(Q)
    Vm[:, cols] = V.numpy()
    h = 1e-3
    d = lambda s: numeric_grad(m, Q + s * h * Vm, W, case["loss"], h=3e-3)
    want = ((4 * (d(1) - d(-1)) / (2 * h) - (d(2) - d(-2)) / (4 * h)) / 3)[:, cols]
    scale = 1 + np.abs(W).max() * m.reach(Q) ** 2 * len(m.nodes)
    close(H, want, 2e-6 * scale, "second derivatives")


def loops(case, rec):
    """Several passes before their backward passes, in any order, and descent on one leaf that is updated in place."""
    m = gen.Model(case["robot"])
    chain = gen.build(case["robot"], case["dtype"])
    dt = gen.DT[case["dtype"]]
    names = [n["name"] for n in m.nodes]
    jn = chain.get_joint_parameter_names()
    if not jn:
        return
    cols = [m.col[m.jindex[n]] for n in jn]
    rec.label(case["dtype"], case["mode"])
    rec.nt(len(jn) >= 2)
    rng = np.random.RandomState(case["k"])

    def check(g, Q, W, what):
        scale = 1 + np.abs(W).max() * m.reach(Q) ** 2 * len(m.nodes)
        want = numeric_grad(m, Q, W, case["loss"])[:, cols]
        close(g, want, (1e-4 if case["dtype"] == "f32" else 6e-9) * scale, what)

    if case["mode"] == "descent":
        B = case["sizes"][0]
        W = weights(case, len(names), B)
        Wt = torch.tensor(W, dtype=dt)
        x = torch.tensor(gen.cast(np.round(rng.uniform(-3, 3, (B, len(jn))), 3), case["dtype"]), dtype=dt, requires_grad=True)
        for s in range(len(case["sizes"])):
            x.grad = None
            loss_t(poses(chain, case, x, names), Wt, case["loss"]).sum().backward()
            Q = np.zeros((B, len(jn)))
            Q[:, cols] = gen.arr(x)
            check(x.grad, Q, W, "gradient at step %d of a descent" % s)
            with torch.no_grad():
                if case["k"] % 2:
                    x -= 0.1 * x.grad / (1 + x.grad.abs().max())
                else:
                    x.data = x.data + torch.tensor(np.round(rng.uniform(-1, 1, x.shape), 3), dtype=dt)
        return
    done = []
    for s, B in enumerate(case["sizes"]):
        W = weights(dict(case, k=case["k"] + s), len(names), B)
        Q = gen.cast(np.round(rng.uniform(-3, 3, (B, len(m.joints))), 3), case["dtype"])
        x = torch.tensor(Q[:, cols], dtype=dt, requires_grad=True)
        L = loss_t(poses(chain, case, x, names), torch.tensor(W, dtype=dt), case["loss"]).sum()
        done.append((s, x, L, Q, W))
    order = rng.permutation(len(done))
    if case["mode"] == "joint":  # one backward pass for all
        gs = torch.autograd.grad(sum(d[2] for d in done), [d[1] for d in done])
        for d, g in zip(done, gs):
            check(g, d[3], d[4], "gradient of pass %d of %d, joint backward" % (d[0], len(done)))
        return
    for i in order:
        s, x, L, Q, W = done[i]
        g, = torch.autograd.grad(L, x)
        check(g, Q, W, "gradient of pass %d of %d, backward in the order %s" % (s, len(done), list(order)))


def calibration(case, rec):
    """Robots whose fixed offsets carry gradients, differentiated by ordinary autograd."""
    m = gen.Model(case["robot"])
    dt = gen.DT[case["dtype"]]
    nodes = m.nodes
    leaves = {}
    frames = gen.build_frames(case["robot"])
    todo, flat = [frames], {}
    while todo:
        f = todo.pop()
        flat[f.name] = f
        todo += f.children
    for i, nd in enumerate(nodes):
        for part, key in (("link", "lo"), ("joint", "jo")):
            if nd[key] is None:
                continue
            x = torch.tensor(ref.origin(nd[key]), dtype=dt, requires_grad=True)
            leaves[i, key] = x
            getattr(flat[nd["name"]], part).offset = pk.Transform3d(matrix=x[None] if case["k"] % 2 else x * 1.0)
    rec.label(case["dtype"], case["loss"], "%d offsets" % min(len(leaves), 9))
    rec.nt(len(leaves) >= 2)
    if not leaves:
        return
    if case["moved"]:
        chain = pk.Chain(frames, dtype=torch.float32).to(dtype=dt) if case["dtype"] == "f32" else pk.Chain(frames, dtype=dt).to(dtype=dt)
    else:
        chain = pk.Chain(frames, dtype=dt)
    Q = gen.cast(gen.rows(case["q"], len(m.joints)), case["dtype"])
    names = [n["name"] for n in nodes]
    cols = [m.col[m.jindex[n]] for n in chain.get_joint_parameter_names()]
    W = weights(case, len(nodes), len(Q))
    q = torch.tensor(Q[:, cols], dtype=dt, requires_grad=case["angles"] and len(cols) > 0)
    for again in range(1 + case["twice"]):
        T = chain.forward_kinematics_tensor(q, analytical_grad=False)[chain.get_frame_indices(*names)]
        L = loss_t(T, torch.tensor(W, dtype=dt), case["loss"]).sum()
        if not L.requires_grad:
            return
        G = torch.autograd.grad(L, list(leaves.values()), retain_graph=True, allow_unused=True)
    pre = [p.copy() for p in m.pre]
    lo = [ref.origin(n["lo"]) for n in nodes]
    jo = [ref.origin(n["jo"]) for n in nodes]
    scale = 1 + np.abs(W).max() * m.reach(Q) ** 2 * len(nodes)
    rng = np.random.RandomState(case["k"] + 7)
    for (i, key), g in zip(leaves, G):
        g = np.zeros((4, 4)) if g is None else gen.arr(g)
        E = rng.normal(size=(4, 4))
        E[3] = 0
        if rng.randint(3) == 0:  # a single entry
            r, c = rng.randint(3), rng.randint(4)
            E = np.zeros((4, 4))
            E[r, c] = 1.0

        def f(s):
            a = lo[i] + (s * E if key == "lo" else 0)
            b = jo[i] + (s * E if key == "jo" else 0)
            m.pre = [a @ b if k == i else p for k, p in enumerate(pre)]
            v = loss_np(m.fk(Q), W, case["loss"] if case["loss"] != "plain" else "sum").sum()
            m.pre = pre
            return v
        h = 1e-3
        d1, d2 = (f(h) - f(-h)) / (2 * h), (f(2 * h) - f(-2 * h)) / (4 * h)
        close(np.array((g * E).sum()), np.array((4 * d1 - d2) / 3), (3e-5 if case["dtype"] == "f32" else 1e-8) * scale * 5 * len(Q), "gradient with respect to the %s offset of %r" % ("link" if key == "lo" else "joint", nodes[i]["name"]))


@st.composite
def calibration_cases(draw, **kw):
    c = draw(gen.robot_config(**kw))
    c.update(loss=draw(st.sampled_from(LOSSES)), frames=draw(st.lists(st.integers(0, 9), max_size=3)), k=draw(st.integers(0, 9999)),
             twice=draw(st.booleans()), moved=draw(st.booleans()), angles=draw(st.booleans()))
    return c


@st.composite
def loop_cases(draw, **kw):
    return dict(robot=draw(gen.robots(**kw)), dtype=draw(gen.DTYPE), loss=draw(st.sampled_from(LOSSES)), mode=draw(st.sampled_from(["descent", "passes", "joint"])),
                via=draw(st.sampled_from(["tensor", "fk", "dict"])), frames=draw(st.lists(st.integers(0, 9), max_size=3)),
                sizes=draw(st.lists(st.integers(1, 5), min_size=2, max_size=4)), k=draw(st.integers(0, 9999)))


@st.composite
def cases(draw, **kw):
    kw.setdefault("batch", st.one_of(st.integers(1, 4), st.sampled_from([7, 33])))
    c = draw(gen.robot_config(**kw))
    c["loss"] = draw(st.sampled_from(LOSSES))
    c["via"] = draw(st.sampled_from(["tensor", "fk", "dict", "subset"]))
    c["frames"] = draw(st.lists(st.integers(0, 9), max_size=3))
    c["k"] = draw(st.integers(0, 9999))
    c["upstream"], c["twice"] = draw(st.booleans()), draw(st.booleans())
    return c


CHECK = Check("C04", [
    Facet("first", cases(max_n=8, min_mov=1, big=False), first, 1500, 40000, shards=5),
    Facet("large", cases(min_n=12, max_n=20, min_mov=4), first, 120, 4000, shards=1),
    Facet("huge", cases(huge=(24, 100), min_mov=4, batch=st.integers(1, 2)), first, 30, 400, shards=3),
    Facet("manyrows", cases(max_n=5, min_mov=1, batch=st.sampled_from([130, 257, 1025, 2049, 4100])), first, 60, 1000, shards=2),
    Facet("loops", loop_cases(max_n=6, min_mov=1), loops, 300, 8000, shards=2),
    Facet("calibration", calibration_cases(max_n=6, batch=st.integers(1, 4)), calibration, 300, 8000, shards=2),
    Facet("second", cases(max_n=6, min_mov=1), second, 400, 8000, shards=2),
], rule="at least two movable joints and a loss that depends on some pose",
    assumptions=["numerical differentiation of the float64 numpy model, fourth order"])
