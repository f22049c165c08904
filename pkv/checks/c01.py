"""Forward kinematics against the float64 product of matrices along the tree."""
import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen, ref
from ..urdftext import urdf


def check_rigid(T, tol, what):
    close(T[..., 3, :], np.broadcast_to([0., 0, 0, 1], T.shape[:-2] + (4,)), 0, what + ": last row")
    R = T[..., :3, :3]
    close(R @ np.swapaxes(R, -1, -2), np.broadcast_to(np.eye(3), R.shape), tol, what + ": orthonormality")
    close(np.linalg.det(R), np.ones(R.shape[:-2]), tol, what + ": determinant")


def labels(case, m, Q, rec):
    ty = {n["type"] for n in case["robot"]["nodes"][1:]}
    rec.label("branching" if gen.branching(case["robot"]) else "serial", case["dtype"], "B=1" if len(Q) == 1 else "B>1",
              *["has_" + t for t in ty])
    if len(case["robot"]["nodes"]) > 16:
        rec.label("large")
    rec.nt(len(m.joints) >= 2 and np.abs(Q).max(initial=0) > 1e-3)


def check_poses(chain, case, m, Q, tol, rec, urdf_=False):
    names = [n["name"] for n in case["robot"]["nodes"]]
    want = m.fk(Q)
    th = torch.tensor(gen.to_chain_order(chain, m, Q), dtype=gen.DT[case["dtype"]])
    if case.get("grad"):
        th.requires_grad_(True)
    res = chain.forward_kinematics(th)
    require(sorted(res) == sorted(names), lambda: "frames %s instead of %s" % (sorted(res), sorted(names)))
    rt = (1e-5 if case["dtype"] == "f32" or urdf_ else 1e-10)
    for i, n in enumerate(names):
        T = gen.arr(res[n].get_matrix())
        close(T, want[i], tol, "pose of %r" % n)
        check_rigid(T, rt, "pose of %r" % n)
        require(res[n].get_matrix().dtype == gen.DT[case["dtype"]], "dtype of pose of %r" % n)
    # tensor kernel, indexed by the frame numbering
    world = chain.forward_kinematics_tensor(th)
    close(gen.arr(world)[gen.arr(chain.get_frame_indices(*names)).astype(int)], want, tol, "tensor poses")
    require(world.shape[0] == len(names), "tensor poses have one entry per frame")
    return want


def fk(case, rec):
    chain = gen.build(case["robot"], case["dtype"])
    m = gen.Model(case["robot"])
    Q = gen.cast(gen.rows(case["q"], len(m.joints)), case["dtype"])
    labels(case, m, Q, rec)
    tol = m.tol(case["dtype"], Q)
    check_poses(chain, case, m, Q, tol, rec)
    # full turns of revolute joints
    turns = np.array([(case["turns"] + k) % 5 - 2 if m.nodes[j]["type"] == "revolute" else 0 for k, j in enumerate(m.joints)])
    if turns.any():
        th = torch.tensor(gen.to_chain_order(chain, m, Q + 2 * np.pi * turns), dtype=gen.DT[case["dtype"]])
        res = chain.forward_kinematics(th)
        t2 = tol + (len(m.joints) * 3e-6 * m.reach(Q) if case["dtype"] == "f32" else 1e-12 * m.reach(Q) * len(m.joints))
        for i, w in enumerate(m.fk(Q)):
            close(res[m.nodes[i]["name"]].get_matrix(), w, t2, "pose of %r after full turns" % m.nodes[i]["name"])


def fk_urdf(case, rec):
    case["robot"]["nodes"][0]["jo"] = None  # URDF has no joint at the root
    chain = pk.build_chain_from_urdf(urdf(case["robot"])).to(dtype=gen.DT[case["dtype"]])
    m = gen.Model(case["robot"])
    Q = gen.cast(gen.rows(case["q"], len(m.joints)), case["dtype"])
    labels(case, m, Q, rec)
    check_poses(chain, case, m, Q, m.tol("f32", Q), rec, True)


def frame_transform(case, rec):
    """One frame: joint offset followed by joint motion."""
    m = gen.Model(case["robot"])
    root = gen.build_frames(case["robot"]).to(dtype=gen.DT[case["dtype"]], device="cpu")
    Q = gen.cast(gen.rows(case["q"], len(m.joints)), case["dtype"])
    labels(case, m, Q, rec)

    def rec_(f):
        i = m.index[f.name]
        nd = m.nodes[i]
        q = Q[:, m.col[i]] if nd["type"] != "fixed" else np.zeros(len(Q))
        M = ref.origin(nd["jo"]) @ (m.motion(i, q) if nd["type"] != "fixed" else np.broadcast_to(np.eye(4), (len(Q), 4, 4)))
        T = f.get_transform(torch.tensor(q, dtype=gen.DT[case["dtype"]])).get_matrix()
        close(T, M, m.tol(case["dtype"], Q), "Frame.get_transform of %r" % f.name)
        for c in f.children:
            rec_(c)

    rec_(root)


@st.composite
def cases(draw, **kw):
    c = draw(gen.robot_config(**kw))
    c["grad"] = draw(st.booleans())
    c["turns"] = draw(st.integers(0, 4))
    return c


CHECK = Check("C01", [
    Facet("tree", cases(big=True), fk, 4000, 40000, shards=6),
    Facet("deep", cases(min_n=12, max_n=24, topo="chain"), fk, 200, 4000, shards=2),
    Facet("huge", cases(huge=(30, 140), batch=st.integers(1, 3)), fk, 60, 800, shards=3),
    Facet("bigbatch", cases(max_n=5, min_mov=1, batch=st.sampled_from([256, 500, 1000, 1024, 1025, 1500, 2049, 4097, 10000])), fk, 150, 3000, shards=3),
    Facet("urdf", cases(max_n=8), fk_urdf, 500, 10000, shards=3),
    Facet("frame", gen.robot_config(max_n=4, batch=st.integers(1, 5)), frame_transform, 250, 5000, shards=1),
], rule="at least two movable joints and a non-zero configuration; distinct by hash of the case",
    assumptions=["offsets of URDF robots are stored in single precision"])
