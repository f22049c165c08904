"""Frame, joint and link objects of a robot, used on their own, against the reference kinematics and forward kinematics."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen, ref
from ..urdftext import urdf
from pytorch_kinematics import frame as pkf

EPS = {"f32": 1.2e-7, "f64": 2.3e-16}


def subtree(f):
    out = [f]
    for c in f.children:
        out += subtree(c)
    return out


def precision(f, dt, what):
    """Every object below f has the precision."""
    for g in subtree(f):
        require(g.joint.axis.dtype == dt, lambda: "%s: axis of the joint of %r has precision %s" % (what, g.name, g.joint.axis.dtype))
        for nm, o in (("joint", g.joint.offset), ("link", g.link.offset)):
            if o is not None:
                require(o.dtype == dt and o.get_matrix().dtype == dt, lambda: "%s: %s offset of %r has precision %s" % (what, nm, g.name, o.dtype))


def local(f, theta, dt, B, what):
    """Pose of a frame relative to its parent, from its own objects."""
    T = f.get_transform(theta)
    require(isinstance(T, pk.Transform3d) and T.dtype == dt and T.get_matrix().dtype == dt, lambda: "%s has precision %s" % (what, T.dtype))
    require(tuple(T.get_matrix().shape) == (B, 4, 4), lambda: "%s has shape %s for %d values" % (what, tuple(T.get_matrix().shape), B))
    if f.link.offset is not None:
        T = f.link.offset.compose(T)
    return T.get_matrix()


def frames(case, rec):
    robot = case["robot"]
    if case["src"] == "urdf":
        robot["nodes"][0]["jo"] = None
        for nd in robot["nodes"]:
            if nd["type"] == "prismatic" and nd["lim"] is None:
                nd["lim"] = [-1.0, 1.0]
        m = gen.Model(robot)
        ch = pk.build_chain_from_urdf(urdf(robot))
        worst = "f32"
    else:
        m = gen.Model(robot)
        ch = gen.build(robot, case["src"])
        worst = case["src"]
    for k, part, p in case["mix"]:  # parts of the robot are moved on their own first
        f = ch.find_frame(m.nodes[k % len(m.nodes)]["name"])
        {"frame": f, "joint": f.joint, "link": f.link}[part].to(device="cpu", dtype=gen.DT[p])
        worst = "f32" if "f32" in (p, worst) else worst
        rec.label("mixed")
    for p in case["moves"]:
        ch = ch.to(dtype=gen.DT[p]) if case["k"] % 2 else ch.to(gen.DT[p], "cpu")
        worst = "f32" if "f32" in (p, worst) else worst
    prec = case["moves"][-1]
    dt = gen.DT[prec]
    a, frs = 0, list(range(len(m.nodes)))
    if case["tip"] is not None:
        b = case["tip"] % len(m.nodes)
        p = gen.path(robot, b)
        a = p[case["base"] % len(p)]
        ch = pk.SerialChain(ch, m.nodes[b]["name"], m.nodes[a]["name"]).to(dtype=dt)
        frs = m.serial_path(a, b)
    if case["copy"]:
        ch = copy.deepcopy(ch)
    Q = gen.cast(gen.rows(case["q"], len(m.joints)), prec)
    B = len(Q)
    tol = m.tol(worst, Q) * 2
    rng = np.random.RandomState(case["k"])
    precision(ch.find_frame(m.nodes[a]["name"]), dt, "after moving")
    names = ch.get_joint_parameter_names()
    pose = {}
    for i in frs:
        nd = m.nodes[i]
        f = ch.find_frame(nd["name"])
        require(f is not None and f.name == nd["name"], lambda: "frame %r" % nd["name"])
        root = case["tip"] is not None and i == a
        mov = nd["type"] != "fixed" and not root
        th = Q[:, m.col[i]] if mov else np.zeros(B)
        x = torch.tensor(th, dtype=dt, requires_grad=True)
        M = local(f, x, dt, B, "transform of %r" % nd["name"])
        want = np.broadcast_to(np.eye(4), (B, 4, 4)) if root else np.broadcast_to(m.pre[i] @ m.motion(i, th) if mov else m.pre[i], (B, 4, 4))
        close(M, want, tol, "transform of %r relative to its parent" % nd["name"])
        if mov:
            W = rng.normal(size=(B, 4, 4))
            g, = torch.autograd.grad((torch.tensor(W, dtype=dt) * M).sum(), x)
            h = 1e-4
            d = sum(c * (W * (m.pre[i] @ m.motion(i, th + s * h))).sum((1, 2)) for s, c in ((1, 8), (-1, -8), (2, -1), (-2, 1))) / (12 * h)
            close(g, d, (tol + 1e-8) * 40, "derivative of the transform of %r" % nd["name"])
            require(f.joint.name in names, "joint of %r is not reported" % nd["name"])
            lim = nd["lim"]
            s = tuple(case["shape"])
            v = gen.cast(rng.normal(size=s) * 3, prec)
            c = f.joint.clamp(torch.tensor(v, dtype=dt))
            require(tuple(c.shape) == s and c.dtype == dt, lambda: "clamped values of shape %s, %s" % (tuple(c.shape), c.dtype))
            close(c, v if lim is None else np.clip(v, lim[0], lim[1]), 1e-6 * 4, "values clamped by the joint %r" % f.joint.name)
        par = None if i == a else m.nodes[i]["parent"]
        pose[i] = M if par is None else pose[par] @ M
    if names:
        js = [m.jindex[n] for n in names]
        P = ch.forward_kinematics(torch.tensor(Q[:, [m.col[j] for j in js]], dtype=dt), **({"end_only": False} if case["tip"] is not None else {}))
        for i in frs:
            close(P[m.nodes[i]["name"]].get_matrix(), gen.arr(pose[i]), tol * 3, "forward kinematics of %r and the product of the transforms of its frames" % m.nodes[i]["name"])
    # frames can be moved on their own
    f = copy.deepcopy(ch.find_frame(m.nodes[frs[case["k"] % len(frs)]]["name"]))
    other = gen.DT["f64" if prec == "f32" else "f32"]
    n = len(subtree(f))
    r = f.to(dtype=other, device="cpu") if case["k"] % 3 else f.to("cpu", dtype=other)
    require(isinstance(r, pkf.Frame) and len(subtree(r)) == n, "moving a frame gives the frame with its descendants")
    precision(r, other, "after moving a frame")
    for g in subtree(r):
        i = m.index[g.name]
        if i == a and case["tip"] is not None:
            continue
        T = local(g, torch.zeros(2, dtype=other), other, 2, "transform of %r after moving" % g.name)
        close(T, np.broadcast_to(m.pre[i], (2, 4, 4)), m.tol("f32") * 2, "transform of %r after moving" % g.name)
        require(g.is_end() == (not g.children), "is_end")
    precision(ch.find_frame(m.nodes[a]["name"]), dt, "after moving a copy of a frame")
    rec.label(case["src"], "serial" if case["tip"] is not None else "tree", "moved twice" if len(case["moves"]) > 1 else None)
    rec.nt(len(frs) >= 3 and len(names) >= 1)


def parts(case, rec):
    """Objects made by hand."""
    dt = gen.DT[case["dtype"]]
    rng = np.random.RandomState(case["k"])
    ax = np.array(case["axis"], float) * case["scale"]
    form = case["form"]
    arg = {"list": lambda: ax.tolist(), "tuple": lambda: tuple(ax.tolist()), "tensor": lambda: torch.tensor(ax, dtype=dt), "other": lambda: torch.tensor(ax, dtype=torch.float64),
           "grad": lambda: torch.tensor(ax, dtype=dt, requires_grad=True), "none": lambda: None}[form]()
    o = ref.origin(case["origin"])
    off = None if case["origin"] is None else pk.Transform3d(matrix=torch.tensor(o, dtype=dt)[None])
    lim = case["lim"]
    j = pkf.Joint("j", offset=off, joint_type=case["type"], axis=arg, dtype=dt, limits=lim, velocity_limits=(-2.0, 3.0), effort_limits=(-5.0, 7.0))
    u = np.array([0.0, 0, 1]) if form == "none" else gen.cast(ax, case["dtype"]) / np.linalg.norm(gen.cast(ax, case["dtype"]))
    require(j.axis.dtype == dt and tuple(j.axis.shape) == (3,), lambda: "axis of shape %s, precision %s" % (tuple(j.axis.shape), j.axis.dtype))
    close(j.axis, u, 6 * EPS[case["dtype"]], "axis of a joint made with %s" % (arg,))
    require(not j.axis.requires_grad, "the axis of a joint is a constant")
    require(j.name == "j" and j.joint_type == case["type"], "name and type")
    require(j.velocity_limits == (-2.0, 3.0) and j.effort_limits == (-5.0, 7.0), "velocity and effort limits")
    if torch.is_tensor(arg):
        v = arg.detach().clone()
        with torch.no_grad():
            arg.mul_(-3)
        close(j.axis, u, 6 * EPS[case["dtype"]], "axis of a joint after the tensor it was made from changed")
    B = case["B"]
    th = gen.cast(rng.uniform(-4, 4, B), case["dtype"])
    link = pkf.Link("l", offset=off)
    kids = [pkf.Frame("c%d" % i) for i in range(case["k"] % 3)]
    f = pkf.Frame("f", link=link, joint=j, children=kids)
    kids.append(pkf.Frame("late"))
    require([c.name for c in f.children] == ["c%d" % i for i in range(case["k"] % 3)], "children of a frame after the list it was made from changed")
    f.add_child(pkf.Frame("added"))
    require(f.children[-1].name == "added" and not f.is_end() and f.children[-1].is_end(), "added child")
    require(pkf.Frame("g").children == [] and pkf.Frame("h").is_end(), "a new frame has no children")
    M = f.get_transform(torch.tensor(th, dtype=dt))
    require(M.dtype == dt and tuple(M.get_matrix().shape) == (B, 4, 4), lambda: "transform of shape %s, %s" % (tuple(M.get_matrix().shape), M.dtype))
    if case["type"] == "revolute":
        L = ref.hom(ref.rodrigues(np.broadcast_to(u, (B, 3)), th), np.zeros((B, 3)))
    elif case["type"] == "prismatic":
        L = ref.hom(np.broadcast_to(np.eye(3), (B, 3, 3)), th[:, None] * u)
    else:
        L = np.broadcast_to(np.eye(4), (B, 4, 4))
    o = gen.cast(o, case["dtype"])
    close(M.get_matrix(), o @ L, 60 * EPS[case["dtype"]] * (1 + np.abs(o).max() + np.abs(th).max()), "transform of a %s frame" % case["type"])
    x = torch.tensor(gen.cast(rng.normal(size=tuple(case["shape"])) * 3, case["dtype"]), dtype=dt)
    c = j.clamp(x)
    close(c, gen.arr(x) if lim is None else np.clip(gen.arr(x), lim[0], lim[1]), 1e-6 if case["dtype"] == "f32" else 1e-14, "clamped values")
    # children of one frame do not appear under another
    ch = pk.Chain(pkf.Frame("root", link=pkf.Link("root"), children=[f]), dtype=dt)
    require(sorted(ch.get_frame_names(exclude_fixed=False)) == sorted(["root", "f", "added"] + ["c%d" % i for i in range(case["k"] % 3)]), lambda: "frames %s" % ch.get_frame_names(exclude_fixed=False))
    rec.label(case["type"], form, case["dtype"])
    rec.nt(case["type"] != "fixed" and B > 1)


@st.composite
def cases(draw, **kw):
    r = draw(gen.robots(**kw))
    return dict(robot=r, src=draw(st.sampled_from(["f32", "f64", "f64", "urdf"])), q=draw(gen.configs(len(gen.movable(r)), st.integers(1, 3))),
                mix=draw(st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 30), st.sampled_from(["frame", "joint", "link"]), st.sampled_from(["f32", "f64"])).map(list), max_size=3))),
                moves=draw(st.lists(st.sampled_from(["f32", "f64"]), min_size=1, max_size=3)), tip=draw(st.one_of(st.none(), st.integers(0, 30))), base=draw(st.integers(0, 30)),
                copy=draw(st.booleans()), k=draw(gen.SEED), shape=draw(gen.SHAPES))


CHECK = Check("C32", [
    Facet("frames", cases(max_n=8), frames, 900, 25000, shards=4),
    Facet("small", cases(max_n=3, min_mov=1), frames, 400, 6000, shards=2),
    Facet("wide", cases(min_n=6, max_n=16), frames, 80, 2000, shards=2),
    Facet("parts", st.fixed_dictionaries(dict(axis=gen.unit3(), scale=st.sampled_from([1.0, 1.0, -1.0, 2.0, 0.3, 10.0]), form=st.sampled_from(["list", "tuple", "tensor", "other", "grad", "none"]),
                                              type=st.sampled_from(["revolute", "prismatic", "fixed"]), dtype=gen.DTYPE, origin=gen.origins(), B=st.integers(1, 5), k=gen.SEED, shape=gen.SHAPES,
                                              lim=st.one_of(st.none(), st.tuples(gen.num(-3, 0), gen.num(0, 3)).map(list)))), parts, 500, 12000, shards=2),
], rule="at least three frames with a movable joint; a movable joint and several values",
    assumptions=["the precision of frame objects is claimed after a robot or frame has been moved to it"])
