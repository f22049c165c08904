"""The Jacobian against the screw formula and numerical differentiation of the numpy model."""
import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from pytorch_kinematics.jacobian import calc_jacobian
from ..core import Check, Facet, HarnessError, close, require
from .. import gen, ref, reuse
from .c02 import make, FORMS1, FORMSB
from ..urdftext import urdf

TOOLS = ["none", "none", "vec", "batch", "one", "list", "T1", "TB", "Tpos", "f32vec"]


def tool_scale(case, rng, B):
    k = case.get("mag", 0)
    if k <= 2:
        return 1.0
    if k == 3:  # one magnitude for all
        return 10.0 ** rng.uniform(-7, 2.5)
    if k == 4:  # every configuration has its own
        return 10.0 ** rng.uniform(-7, 1, (B, 1))
    if k == 5:  # some configurations without an offset
        return (rng.rand(B, 1) < 0.5) * 1.0
    return (rng.rand(B, 3) < 0.4) * 1.0  # some components vanish


def make_tool(case, B, dt):
    """(argument, (B or 1, 4, 4) matrix)."""
    kind = case["tool"]
    rng = np.random.RandomState(case["k"])
    v = np.round(rng.uniform(-1, 1, (B, 3)), 3) * tool_scale(case, rng, B)
    if dt == torch.float32:
        v = v.astype(np.float32).astype(float)
    w = rng.uniform(-2, 2, (B, 3))
    if B == 1 and kind in ("batch", "TB"):
        kind = {"batch": "one", "TB": "T1"}[kind]
    I = np.broadcast_to(np.eye(3), (B, 3, 3))
    if kind == "none":
        return None, np.eye(4)[None]
    if kind == "f32vec":  # tool of another precision than the robot
        return torch.tensor(v[0], dtype=torch.float32), ref.hom(None, v[0].astype(np.float32).astype(float))[None]
    if kind == "vec":
        return torch.tensor(v[0], dtype=dt), ref.hom(None, v[0])[None]
    if kind == "one":
        return torch.tensor(v[:1], dtype=dt), ref.hom(None, v[0])[None]
    if kind == "list":
        return [float(x) for x in v[0]], ref.hom(None, v[0])[None]
    if kind == "batch":
        return torch.tensor(v, dtype=dt), ref.hom(I, v)
    if kind == "T1":
        M = ref.hom(ref.expso3(w[0]), v[0])[None]
        return pk.Transform3d(matrix=torch.tensor(M, dtype=dt)), M
    if kind == "TB":
        M = ref.hom(ref.expso3(w), v)
        return pk.Transform3d(matrix=torch.tensor(M, dtype=dt)), M
    if kind == "Tpos":
        return pk.Transform3d(pos=torch.tensor(v[0], dtype=dt), dtype=dt), ref.hom(None, v[0])[None]
    raise AssertionError(kind)


def numeric_twist(m, a, b, q, M, h=1e-4):
    """Derivative of the pose, turned into (B, 6, n) twists, by finite differences of the model's poses."""
    T0 = m.serial_fk(a, b, q, M)
    out = np.zeros((q.shape[0], 6, q.shape[1]))
    for k in range(q.shape[1]):
        e = np.zeros(q.shape[1])
        e[k] = h
        f = lambda s: m.serial_fk(a, b, q + s * e, M)
        D = (4 * (f(1) - f(-1)) / (2 * h) - (f(2) - f(-2)) / (4 * h)) / 3
        S = D[:, :3, :3] @ np.swapaxes(T0[:, :3, :3], 1, 2)
        out[:, :3, k] = D[:, :3, 3]
        out[:, 3:, k] = np.stack([S[:, 2, 1] - S[:, 1, 2], S[:, 0, 2] - S[:, 2, 0], S[:, 1, 0] - S[:, 0, 1]], -1) / 2
    return out


def serial_setup(case, urdf_=False):
    robot = case["robot"]
    m = gen.Model(robot)
    b = case["tip"] % len(m.nodes) if case["tip"] is not None else len(m.nodes) - 1
    p = gen.path(robot, b)
    a = p[case["base"] % len(p)] if case["base"] is not None else 0
    root = m.nodes[a]["name"] if case["base"] is not None else ""
    if urdf_:
        robot["nodes"][0]["jo"] = None
        m = gen.Model(robot)
        chain = pk.build_serial_chain_from_urdf(urdf(robot), m.nodes[b]["name"], root).to(dtype=gen.DT[case["dtype"]])
    else:
        chain = pk.SerialChain(gen.build(robot, case["dtype"]), m.nodes[b]["name"], root)
    js = m.serial_joints(a, b)
    q = gen.cast(gen.rows(case["q"], len(m.joints)), case["dtype"])[:, [m.col[j] for j in js]]
    names = chain.get_joint_parameter_names()
    require(names == [m.nodes[j]["jname"] for j in js], lambda: "joint order %s" % names)
    return m, chain, a, b, js, q, names


def run(case, rec, urdf_=False):
    m, chain, a, b, js, q, names = serial_setup(case, urdf_)
    dt = gen.DT[case["dtype"]]
    B = len(q)
    tool, M = make_tool(case, B, dt)
    J = m.serial_jac(a, b, q, M)
    num = numeric_twist(m, a, b, q, M)
    if gen.diff(J, num) > 1e-7 * (m.reach(q) + np.abs(M[:, :3, 3]).max()) * (1 + np.abs(q).max(initial=0)):
        raise HarnessError("screw formula and numerical differentiation disagree")
    big = 1 + np.abs(M[:, :3, 3]).max()
    tol = m.tol("f32" if urdf_ or case["tool"] in ("f32vec", "list") else case["dtype"], gen.rows(case["q"], len(m.joints))) * (4 + len(js)) * (big + m.reach())
    rec.label(case["dtype"], case["tool"], "B=1" if B == 1 else "B>1")
    rec.nt(len(js) >= 2)
    if not js:
        return
    forms = FORMS1 if B == 1 else FORMSB
    th = make(forms[case["form"] % len(forms)], names, q, case["dtype"], case["k"])
    rec.label(forms[case["form"] % len(forms)])
    entry = case["entry"]
    pose = m.serial_fk(a, b, q, M)
    if entry == 0:
        got = chain.jacobian(th, locations=tool) if tool is not None else chain.jacobian(th)
        T = None
    elif entry == 1:
        got, T = chain.jacobian(th, locations=tool, ret_eef_pose=True)
    elif entry == 2:
        got, T = calc_jacobian(chain, th, tool=tool, ret_eef_pose=True)
    else:
        got, T = calc_jacobian(chain, th, tool), None
    close(got, J, tol, "Jacobian (tool %s)" % case["tool"])
    require(got.dtype == dt, "Jacobian has the precision of the robot")
    if T is not None:
        T = T.get_matrix() if isinstance(T, pk.Transform3d) else T
        close(T, pose, tol, "returned pose")
    # kernels, with and without precomputed poses
    x = torch.tensor(q, dtype=dt)
    J0 = m.serial_jac(a, b, q)
    pre = chain.forward_kinematics_tensor(x)
    close(chain.jacobian_tensor(x), J0, tol, "jacobian_tensor")
    close(chain.jacobian_tensor(x, all_transforms=pre), J0, tol, "jacobian_tensor with precomputed poses")
    K, T0 = chain.jacobian_tensor(x, ret_eef_pose=True, all_transforms=pre if case["k"] % 2 else None)
    close(K, J0, tol, "jacobian_tensor with pose")
    close(T0, m.serial_fk(a, b, q), tol, "pose returned by jacobian_tensor")


@st.composite
def cases(draw, tree=True, **kw):
    kw.setdefault("batch", st.one_of(st.integers(1, 4), st.just(1), st.sampled_from([7, 16, 33])))
    c = draw(gen.robot_config(min_mov=1, **kw))
    c["tip"] = draw(st.one_of(st.none(), st.integers(0, 9)))
    c["base"] = draw(st.one_of(st.none(), st.integers(0, 5)))
    c["tool"] = draw(st.sampled_from(TOOLS))
    c["form"] = draw(st.integers(0, 13))
    c["mag"] = draw(st.integers(0, 6))
    c["entry"] = draw(st.integers(0, 3))
    c["k"] = draw(st.integers(0, 9999))
    return c


def reused(case, rec):
    """The same joint and tool arguments, changed in place between the calls; earlier results stay."""
    robot, dtype = case["robot"], case["dtype"]
    m = gen.Model(robot)
    dt = gen.DT[dtype]
    b = case["tip"] % len(m.nodes) if case["tip"] is not None else len(m.nodes) - 1
    p = gen.path(robot, b)
    a = p[case["base"] % len(p)] if case["base"] is not None else 0
    chain = pk.SerialChain(gen.build(robot, dtype), m.nodes[b]["name"], m.nodes[a]["name"] if case["base"] is not None else "")
    js = m.serial_joints(a, b)
    if not js:
        return
    names = chain.get_joint_parameter_names()
    B = case["B"]
    rng = np.random.RandomState(case["seed"])
    seq = [gen.cast(x, dtype) for x in reuse.sequence(case, len(js), B, case["steps"])]
    h = reuse.holder(B, case["kinds"][0], names, dtype)
    rec.label(dtype, h.kind)
    rec.nt(len(js) >= 2)
    loc, arg = None, None
    old = []
    for s, q in enumerate(seq):
        th = h.put(q)
        if loc is None or rng.rand() < 0.7:
            new = gen.cast(np.round(rng.uniform(-1, 1, (B if case["batched"] else 1, 3)), 3) * (10.0 ** rng.uniform(-5, 0.5) if case["mag"] > 3 else 1.0), dtype)
            if arg is None:
                t = torch.tensor(new if case["batched"] or B > 1 or case["seed"] % 2 else new[0], dtype=dt)
                arg = t
                if case["T"]:
                    M = torch.eye(4, dtype=dt).repeat(len(new), 1, 1)
                    M[:, :3, 3] = torch.tensor(new, dtype=dt)
                    arg = pk.Transform3d(matrix=M)
            elif case["T"]:
                M[:, :3, 3] = torch.tensor(new, dtype=dt)
            elif case["seed"] % 3:
                t.copy_(torch.tensor(new, dtype=dt).reshape(t.shape))
            else:
                t.data.copy_(torch.tensor(new, dtype=dt).reshape(t.shape))
            loc = new
        tol = m.tol(dtype, seq[0]) * (4 + len(js)) * (1 + np.abs(loc).max() + m.reach(q))
        H = ref.hom(np.broadcast_to(np.eye(3), (len(loc), 3, 3)), loc)
        if rng.rand() < 0.3:
            J = chain.jacobian(th)
            close(J, m.serial_jac(a, b, q), tol, "step %d: Jacobian for a reused %s" % (s, h.kind))
        else:
            J, T = chain.jacobian(th, locations=arg, ret_eef_pose=True)
            close(J, m.serial_jac(a, b, q, H), tol, "step %d: Jacobian for a reused %s and tool" % (s, h.kind))
            close(T, m.serial_fk(a, b, q, H), tol, "step %d: pose of the tool for a reused %s and tool" % (s, h.kind))
            old.append((T, gen.arr(T).copy(), "pose of step %d" % s))
        old.append((J, gen.arr(J).copy(), "Jacobian of step %d" % s))
    for T, v, what in old:
        close(T, v, 0, what + " after later calls")


@st.composite
def reuse_cases(draw, **kw):
    return dict(robot=draw(gen.robots(**kw)), dtype=draw(gen.DTYPE), tip=draw(st.one_of(st.none(), st.integers(0, 9))), base=draw(st.one_of(st.none(), st.integers(0, 5))),
                B=draw(st.sampled_from([1, 1, 2, 3, 8])), steps=draw(st.integers(2, 6)), seed=draw(gen.SEED), kinds=[draw(st.integers(0, 15))],
                batched=draw(st.booleans()), T=draw(st.booleans()), mag=draw(st.integers(0, 6)))


def frames(case, rec):
    run(case, rec)


def urdfs(case, rec):
    run(case, rec, True)


CHECK = Check("C05", [
    Facet("serial", cases(max_n=9, topo="chain"), frames, 1500, 40000, shards=4),
    Facet("tree", cases(max_n=9), frames, 800, 20000, shards=2),
    Facet("long", cases(min_n=8, max_n=16, topo="chain"), frames, 150, 4000, shards=1),
    Facet("huge", cases(huge=(30, 100), topo="chain", batch=st.integers(1, 2)), frames, 30, 400, shards=3),
    Facet("urdf", cases(max_n=7), urdfs, 300, 8000, shards=1),
    Facet("reused", reuse_cases(max_n=7, min_mov=1), reused, 500, 12000, shards=2),
    Facet("manyrows", cases(max_n=5, topo="chain", batch=st.sampled_from([300, 1000, 1025, 1100, 2049, 3000])), frames, 40, 800, shards=2),
], rule="at least two movable joints in the chain",
    assumptions=["the screw formula is itself checked against numerical differentiation in every case"])
