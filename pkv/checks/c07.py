"""Serial extraction between any frame and any descendant."""
import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import descr, gen, ref
from ..urdftext import urdf


def snapshot(chain, x):
    P = chain.forward_kinematics(x) if not isinstance(chain, pk.SerialChain) else chain.forward_kinematics(x, end_only=False)
    return ({k: gen.arr(v.get_matrix()) for k, v in P.items()}, list(chain.get_joint_parameter_names(exclude_fixed=False)),
            chain.get_frame_names(exclude_fixed=False), chain.get_link_names(), chain.get_joint_limits(), str(chain), chain.dtype)


def check_serial(ch, m, a, b, Q, dtype, dt, tol):
    js = m.serial_joints(a, b)
    frames = m.serial_path(a, b)
    names = ch.get_joint_parameter_names()
    require(list(names) == [m.nodes[j]["jname"] for j in js], lambda: "movable joints %s instead of %s" % (
        names, [m.nodes[j]["jname"] for j in js]))
    lo, hi = ch.get_joint_limits()
    want = [m.nodes[j]["lim"] or [-np.inf, np.inf] for j in js]
    close(np.array([lo, hi], float).reshape(2, -1), np.array(want, float).reshape(-1, 2).T, 0, "limits")
    require(ch.dtype == dt, lambda: "precision %s instead of %s" % (ch.dtype, dt))
    fn = ch.get_frame_names(exclude_fixed=False)
    require(list(fn) == [m.nodes[i]["name"] for i in frames], lambda: "frames %s" % fn)
    q = Q[:, [m.col[j] for j in js]]
    F = m.fk(Q)
    P = ch.forward_kinematics(torch.tensor(q, dtype=dt), end_only=False)
    require(sorted(P) == sorted(m.nodes[i]["name"] for i in frames), "frames of the result")
    for i in frames:
        M = P[m.nodes[i]["name"]].get_matrix()
        close(M, np.linalg.inv(F[a]) @ F[i], tol, "pose of %r relative to %r" % (m.nodes[i]["name"], m.nodes[a]["name"]))
        require(M.dtype == dt, "precision of poses")
    E = ch.forward_kinematics(torch.tensor(q, dtype=dt)).get_matrix()
    close(E, np.linalg.inv(F[a]) @ F[b], tol, "pose of the end frame")


def run(case, rec):
    robot = case["robot"]
    m = gen.Model(robot)
    dtype = case["dtype"]
    src = gen.build(robot, "f64")
    if case["src"] == "to":
        src = src.to(dtype=gen.DT[dtype])
    elif dtype == "f32":
        src = gen.build(robot, "f32")
    Q = gen.cast(gen.rows(case["q"], len(m.joints)), "f32")
    x = torch.tensor(gen.to_chain_order(src, m, Q), dtype=src.dtype)
    before = snapshot(src, x)
    n = len(m.nodes)
    # nested: (a0, b0) then pairs inside it
    b = case["pairs"][0][1] % n
    p = gen.path(robot, b)
    a = p[case["pairs"][0][0] % len(p)]
    kw = {}
    dt = src.dtype
    if case["kw"] is not None:
        dt = gen.DT[case["kw"]]
        kw = {"dtype": dt}
    worst = "f32" if torch.float32 in (dt, src.dtype) else "f64"
    tol = m.tol(worst, Q) * 6
    rec.label(dtype, "proper_root" if a else "tree_root", "branching" if gen.branching(robot) else "serial",
              "movable_root" if m.nodes[a]["type"] != "fixed" else None, "empty" if a == b else None)
    rec.nt(len(m.serial_joints(a, b)) >= 1 and (a != 0 or gen.branching(robot)))
    first = pk.SerialChain(src, m.nodes[b]["name"], m.nodes[a]["name"], **kw)
    check_serial(first, m, a, b, Q, dtype, dt, tol)
    if a == 0:
        check_serial(pk.SerialChain(src, m.nodes[b]["name"], **kw), m, a, b, Q, dtype, dt, tol)
    cur = first
    for s, e in case["pairs"][1:]:
        span = m.serial_path(a, b)
        b2 = span[e % len(span)]
        up = m.serial_path(a, b2)
        a2 = up[s % len(up)]
        nxt = pk.SerialChain(cur, m.nodes[b2]["name"], m.nodes[a2]["name"])
        rec.label("nested")
        # nested extraction: same as the direct one
        check_serial(nxt, m, a2, b2, Q, dtype, dt, tol * 2)
        cur, a, b = nxt, a2, b2
    # siblings from the same source, then the first one again
    b3 = case["k"] % n
    check_serial(pk.SerialChain(src, m.nodes[b3]["name"]), m, 0, b3, Q, dtype, src.dtype, tol)
    b0 = case["pairs"][0][1] % n
    p0 = gen.path(robot, b0)
    a0 = p0[case["pairs"][0][0] % len(p0)]
    check_serial(first, m, a0, b0, Q, dtype, dt, tol)
    after = snapshot(src, x)
    for k in before[0]:
        close(after[0][k], before[0][k], 0, "the source robot's pose of %r after extraction" % k)
    require(before[1:] == after[1:], "extraction changed the source robot")
    # changing the extracted chain does not change the source
    first.to(dtype=torch.float64 if first.dtype == torch.float32 else torch.float32)
    after = snapshot(src, x)
    for k in before[0]:
        close(after[0][k], before[0][k], 0, "the source robot's pose of %r after converting the extracted chain" % k)
    require(before[1:] == after[1:], "converting the extracted chain changed the source robot")


def urdfs(case, rec):
    robot = case["robot"]
    robot["nodes"][0]["jo"] = None
    m = gen.Model(robot)
    Q = gen.cast(gen.rows(case["q"], len(m.joints)), "f32")
    n = len(m.nodes)
    b = case["pairs"][0][1] % n
    p = gen.path(robot, b)
    a = p[case["pairs"][0][0] % len(p)]
    for i, nd in enumerate(m.nodes):
        if nd["type"] == "prismatic" and nd["lim"] is None:
            nd["lim"] = [0.0, 0.0]  # default of a prismatic joint without limits: absent here, so give them
    text = urdf(robot)
    rec.label("proper_root" if a else "tree_root")
    rec.nt(len(m.serial_joints(a, b)) >= 1)
    ch = pk.build_serial_chain_from_urdf(text, m.nodes[b]["name"], m.nodes[a]["name"])
    check_serial(ch, m, a, b, Q, "f32", torch.float32, m.tol("f32", Q) * 6)
    if a == 0:
        ch = pk.build_serial_chain_from_urdf(text, m.nodes[b]["name"])
        check_serial(ch, m, a, b, Q, "f32", torch.float32, m.tol("f32", Q) * 6)


def document(text, build, serial, m, limits, rng, Q, tol, rec):
    """Serial chains read from a document equal those extracted from the robot read from it, and both are right."""
    nodes = m.nodes
    for n in nodes:
        if n["type"] != "fixed":
            pos = limits[n["jname"]][0]
            n["lim"] = None if pos is None else list(pos)
    b = rng % len(nodes)
    p = m.serial_path(0, b)
    a = p[(rng // 7) % len(p)]
    end, root = nodes[b]["name"], nodes[a]["name"]
    rec.label("proper_root" if a else "tree_root")
    check_serial(serial(text, end, root), m, a, b, Q, "f32", torch.float32, tol)
    check_serial(serial(text, end_link_name=end, root_link_name=root), m, a, b, Q, "f32", torch.float32, tol)
    check_serial(pk.SerialChain(build(text), end, root), m, a, b, Q, "f32", torch.float32, tol)
    check_serial(serial(text, end), m, 0, b, Q, "f32", torch.float32, tol)
    check_serial(serial(text, end, root_link_name=""), m, 0, b, Q, "f32", torch.float32, tol)


def sdf_documents(case, rec):
    m = descr.sdf_model(case)
    Q = gen.cast(gen.rows(case["q"], len(m.joints)), "f32")
    rec.nt(len(m.nodes) >= 3 and len(m.joints) >= 1)
    tol = m.tol("f32", Q) * 8 + 2 * m.slack * (1 + np.abs(Q).max(initial=0))
    document(descr.sdf_text(case), pk.build_chain_from_sdf, pk.build_serial_chain_from_sdf, m, descr.sdf_limits(case), case["style"], Q, tol, rec)


def urdf_documents(case, rec):
    m = gen.Model(case["robot"])
    Q = gen.cast(gen.rows(case["q"], len(m.joints)), "f32")
    rec.nt(len(m.nodes) >= 3 and len(m.joints) >= 1)
    document(descr.urdf_text(case), pk.build_chain_from_urdf, pk.build_serial_chain_from_urdf, m, descr.limit_table(case), case["style"], Q,
             m.tol("f32", Q) * 8, rec)


@st.composite
def cases(draw, **kw):
    c = draw(gen.robot_config(batch=st.integers(1, 3), **kw))
    c["pairs"] = draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 12)).map(list), min_size=1, max_size=3))
    c["kw"] = draw(st.sampled_from([None, None, "f32", "f64"]))
    c["src"] = draw(st.sampled_from(["build", "to"]))
    c["k"] = draw(st.integers(0, 99))
    return c


CHECK = Check("C07", [
    Facet("tree", cases(max_n=10), run, 900, 25000, shards=4),
    Facet("deep", cases(min_n=6, max_n=14, topo="chain"), run, 250, 6000, shards=2),
    Facet("huge", cases(huge=(30, 90)), run, 24, 300, shards=3),
    Facet("urdf", cases(max_n=7), urdfs, 300, 6000, shards=2),
    Facet("sdf documents", descr.sdf_cases(max_n=8), sdf_documents, 150, 6000, shards=2),
    Facet("urdf documents", descr.urdf_cases(max_n=8), urdf_documents, 150, 6000, shards=2),
], rule="at least one movable joint extracted, from a branching source or from a frame other than the root",
    assumptions=[])
