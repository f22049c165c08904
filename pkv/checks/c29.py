"""Fault injection: malformed variants of valid requests must raise, and the object must answer correctly afterwards."""
import random
import re

import numpy as np
import torch
from hypothesis import strategies as st
from lxml import etree

from ..boot import pk
from ..core import Check, Facet, HarnessError, close, fail, require
from .. import descr, gen, mjcftext, ref
from . import c05
from .c02 import make
import pytorch_kinematics.transforms as tf
from pytorch_kinematics.transforms import rotation_conversions as rc
from pytorch_kinematics.transforms import so3

SIMPLE = ["t1", "t2", "n1", "n2", "list"]


def show(y):
    if isinstance(y, dict):
        return "poses of %s" % sorted(y)[:3]
    s = getattr(y, "shape", None)
    return "%s%s" % (type(y).__name__, "" if s is None else " of shape %s" % (tuple(s),))


def rejects(f, what):
    try:
        y = f()
    except (MemoryError, HarnessError):
        raise
    except Exception:
        return
    fail("%s is answered with %s" % (what, show(y)))


def near(name, others, k):
    """A name that is close to a valid one but unknown."""
    c = [name + "x", " " + name, name.upper(), name.lower(), name[:-1], name + "_frame", "", "0", "nope", name + "/" + name, name.replace("_", "-")]
    c = [x for x in c if x not in others]
    return c[k % len(c)]


def counts(n, k):
    return [x for x in (n + 1, n - 1, n + 2, 2 * n, 0, 1, n + 7) if x >= 0 and x != n][k % 4]


def values(form, w, n, rng, dtype):
    R = np.round(rng.uniform(-2, 2, (1 if form in ("t1", "n1", "list") else rng.randint(1, 4), w)), 3)
    return make(form, [""] * w, R, dtype, 0)


# ------------------------------------------------------------------ robots
def bad_mapping(op, names, others, rng, dtype):
    """A mapping of joint values that lacks a joint and / or has an unknown one; None if there is none of that kind."""
    d = {n: float(np.round(rng.uniform(-2, 2), 3)) for n in names}
    kind, k = op["kind"], op["k"]
    j = names[k % len(names)]
    u = others[k % len(others)] if others and k % 3 == 0 else near(j, names, k)
    if kind == "missing":
        del d[j]
    elif kind == "unknown":
        d[u] = 0.5
    elif kind == "renamed":
        d[u] = d.pop(j)
    elif kind == "onlyone":
        d = {j: d[j]} if len(names) > 1 else {u: 1.0}
    B = [None, None, 1, 3][k // 3 % 4]
    if B is not None:
        d = {a: torch.full((B,), v, dtype=gen.DT[dtype]) if k % 2 else np.full((B,), v) for a, v in d.items()}
    return d


MAPS = ["missing", "unknown", "renamed", "onlyone"]


@st.composite
def ops(draw, kinds):
    return [dict(kind=draw(st.sampled_from(kinds)), k=draw(st.integers(0, 99)), form=draw(st.sampled_from(SIMPLE)), seed=draw(gen.SEED),
                 target=draw(st.integers(0, 9))) for _ in range(draw(st.integers(1, 5)))]


def full(case, rec):
    m = gen.Model(case["robot"])
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    chain = gen.build(case["robot"], dtype)
    names = chain.get_joint_parameter_names()
    n = len(names)
    Q = gen.cast(gen.rows(case["q"], n), dtype)
    frames = [x["name"] for x in m.nodes]
    joints = [x["jname"] for x in m.nodes]
    fixed = [x["jname"] for x in m.nodes[1:] if x["type"] == "fixed"]
    tol = m.tol(dtype, Q)

    def valid(after):
        P = chain.forward_kinematics(torch.tensor(gen.to_chain_order(chain, m, Q), dtype=dt))
        F = m.fk(Q)
        require(list(P) == chain.get_frame_names(exclude_fixed=False), "frames of the result" + after)
        for i, x in enumerate(m.nodes):
            close(P[x["name"]].get_matrix(), F[i], tol, "pose of %r%s" % (x["name"], after))
        require(chain.get_joint_parameter_names() == names, "joint names" + after)

    for op in case["ops"]:
        rng = np.random.RandomState(op["seed"] % 2**32)
        kind = op["kind"]
        if kind in MAPS:
            if not n:
                continue
            d = bad_mapping(op, names, fixed, rng, dtype)
            t = op["target"] % 3
            f = [lambda: chain.forward_kinematics(d), lambda: chain.clamp(d), lambda: chain.forward_kinematics(d, chain.get_frame_indices(frames[-1]))][t]
            rejects(f, "%s of a mapping %r for joints %r" % (["kinematics", "clamping", "kinematics of one frame"][t], sorted(d), names))
        elif kind == "count":
            w = counts(n, op["k"])
            x = values(op["form"], w, n, rng, dtype)
            t = op["target"] % 4
            if t == 3 and not torch.is_tensor(x):
                t = 0
            f = [lambda: chain.forward_kinematics(x), lambda: chain.forward_kinematics(x, chain.get_frame_indices(frames[-1])),
                 lambda: chain.clamp(x), lambda: chain.forward_kinematics_tensor(torch.atleast_2d(x), analytical_grad=op["k"] % 2 == 0)][t]
            rejects(f, "%d joint values (%s) for %d joints (call %d)" % (w, op["form"], n, t))
            if n == 1 or w == 1:
                rec.label("one")
        elif kind == "frame":
            bad = near(frames[op["k"] % len(frames)], frames, op["seed"])
            t = op["target"] % 3
            f = [lambda: chain.get_frame_indices(bad), lambda: chain.get_frame_indices(frames[0], bad), lambda: chain.get_frame_indices(bad, frames[-1])][t]
            rejects(f, "unknown frame %r" % bad)
        elif kind == "serial_end":
            bad = near(frames[op["k"] % len(frames)], frames, op["seed"])
            rejects(lambda: pk.SerialChain(chain, bad), "a serial chain to unknown frame %r" % bad)
        elif kind == "serial_root":
            bad = near(frames[op["k"] % len(frames)], frames + [""], op["seed"])
            rejects(lambda: pk.SerialChain(chain, frames[-1], bad), "a serial chain from unknown frame %r" % bad)
        else:  # a root that is not an ancestor of the end
            a, b = op["k"] % len(frames), op["seed"] % len(frames)
            if a in gen.path(case["robot"], b):
                continue
            rejects(lambda: pk.SerialChain(chain, frames[b], frames[a]), "a serial chain from %r to %r, which is not below it," % (frames[a], frames[b]))
        rec.label(kind)
        rec.nt(len(m.nodes) > 1)
        if op["target"] % 2:
            valid(" after a rejected %s" % kind)
    valid(" after the rejected calls")


def serial(case, rec):
    m, chain, a, b, js, q, names = c05.serial_setup(case)
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    n = len(names)
    fixed = [m.nodes[i]["jname"] for i in m.serial_path(a, b)[1:] if m.nodes[i]["type"] == "fixed"]
    fixed += [x["jname"] for x in m.nodes if x["type"] != "fixed" and x["jname"] not in names]

    def valid(after):
        close(chain.forward_kinematics(torch.tensor(q, dtype=dt)).get_matrix(), m.serial_fk(a, b, q), m.tol(dtype, q), "pose" + after)
        if n:
            J = m.serial_jac(a, b, q, np.eye(4)[None])
            close(chain.jacobian(torch.tensor(q, dtype=dt)), J, m.tol(dtype, q) * 3, "Jacobian" + after)

    for op in case["ops"]:
        rng = np.random.RandomState(op["seed"] % 2**32)
        kind = op["kind"]
        if kind in MAPS:
            if not n:
                continue
            d = bad_mapping(op, list(names), fixed, rng, dtype)
            t = op["target"] % 4
            f = [lambda: chain.forward_kinematics(d), lambda: chain.forward_kinematics(d, end_only=False), lambda: chain.jacobian(d), lambda: chain.clamp(d)][t]
            rejects(f, "a mapping %r for joints %r (call %d)" % (sorted(d), names, t))
        else:
            w = counts(n, op["k"])
            x = values(op["form"], w, n, rng, dtype)
            t = op["target"] % 6
            if t >= 4 and not torch.is_tensor(x):
                t = 2
            if t in (2, 3, 4) and not n:
                continue
            f = [lambda: chain.forward_kinematics(x), lambda: chain.forward_kinematics(x, end_only=False), lambda: chain.jacobian(x),
                 lambda: chain.jacobian(x, locations=torch.zeros(3, dtype=dt)), lambda: chain.jacobian_tensor(torch.atleast_2d(x)),
                 lambda: chain.forward_kinematics_tensor(torch.atleast_2d(x))][t]
            rejects(f, "%d joint values (%s) for %d joints (call %d)" % (w, op["form"], n, t))
            if w < n:
                rec.label("few")
            elif n:
                rec.label("many")
        rec.label(kind)
        rec.nt(n > 0)
        if op["target"] % 2:
            valid(" after a rejected %s" % kind)
    valid(" after the rejected calls")


def ik(case, rec):
    m, chain, a, b, js, q, names = c05.serial_setup(case)
    dt = gen.DT[case["dtype"]]
    n = len(names)
    if not n:
        return
    C = [pk.PseudoInverseIK, pk.PseudoInverseIKWithSVD][case["svd"]]
    lim = torch.tensor([[-1.0, 1.0]] * n, dtype=dt)
    k = case["kind"]
    w = counts(n, case["k"])
    X = torch.zeros(case["k"] % 3 + 1, w, dtype=dt)
    f = {"count": lambda: C(chain, retry_configs=X), "none": lambda: C(chain, joint_limits=lim),
         "method": lambda: C(chain, num_retries=2, joint_limits=lim, config_sampling_method=["unform", "", "normal", None, 3][case["k"] % 5]),
         "nolimits": lambda: C(chain, num_retries=2, config_sampling_method="uniform")}[k]
    rejects(f, "an IK solver (%s, %d joints, initial values %s)" % (k, n, tuple(X.shape)))
    G = torch.tensor(m.serial_fk(a, b, q), dtype=dt)
    s = C(chain, retry_configs=torch.tensor(q[:1], dtype=dt), max_iterations=1)
    sol = s.solve(pk.Transform3d(matrix=G))
    require(tuple(sol.solutions.shape) == (len(q), 1, n), "solving after a rejected solver")
    rec.label(k)
    rec.nt()


# ------------------------------------------------------------------ transforms
def T3(rng, N, dt):
    w, p = rng.uniform(-2, 2, (N, 3)), rng.uniform(-1, 1, (N, 3))
    M = ref.hom(ref.expso3(w), p)
    return pk.Transform3d(matrix=torch.tensor(M, dtype=dt)), M


def wrong(rng, ok, lo=1, hi=5):
    return int(rng.choice([x for x in range(lo, hi + 1) if x not in ok]))


TK = ["matrix_dim", "matrix_rows", "matrix_cols", "pos", "rot", "points_dim", "points_last", "normals_dim", "normals_last", "shape_dim", "shape_last", "batch", "compose",
      "translate", "scale", "tuple", "both", "axis", "angle", "rotate", "sizes", "b2b"]


def transforms(case, rec):
    rng = np.random.RandomState(case["seed"] % 2**32)
    dt = gen.DT[case["dtype"]]
    N, P = case["N"], case["P"]
    T, M = T3(rng, N, dt)
    t = lambda *s: torch.tensor(np.round(rng.uniform(-2, 2, s), 2), dtype=dt)
    method = ["transform_points", "transform_normals"][case["k"] % 2]
    k = case["kind"]
    M2 = N + 1 if N > 1 else None  # a batch that does not fit
    w = wrong(rng, (3,))
    other = wrong(rng, (1, N), 2, 6) if N > 1 else None
    bad = [[], ["x", "y"]]
    if k == "matrix_dim":
        s = [(4,), (16,), (1, 2, 4, 4), (2, 1, 4, 4)][case["k"] % 4]
        f, what = lambda: pk.Transform3d(matrix=t(*s)), "matrix of shape %s" % (s,)
    elif k in ("matrix_rows", "matrix_cols"):
        e = (wrong(rng, (4,), 1, 6), 4) if k == "matrix_rows" else (4, wrong(rng, (4,), 1, 6))
        if case["k"] % 5 == 0:
            e = (e[0] if e[0] != 4 else e[1],) * 2
        s = (N,) * (case["k"] % 2) + e
        f, what = lambda: pk.Transform3d(matrix=t(*s)), "matrix of shape %s" % (s,)
    elif k == "pos":
        s = ((wrong(rng, (3,), 1, 6),), (N, wrong(rng, (3,), 1, 6)))[case["k"] % 2]
        f, what = lambda: pk.Transform3d(pos=t(*s)), "position of shape %s" % (s,)
    elif k == "rot":
        v = wrong(rng, (3, 4), 1, 6)
        s = ((v,), (N, v), (v, v), (N, v, v))[case["k"] % 4]
        f, what = lambda: pk.Transform3d(rot=t(*s)), "rotation of shape %s" % (s,)
    elif k in ("points_dim", "normals_dim"):
        s = [(3,), (1, 1, P, 3), ()][case["k"] % 3]
        g = T.transform_points if k == "points_dim" else T.transform_normals
        f, what = lambda: g(t(*s)), "%s of shape %s" % (k[:-4], s)
    elif k in ("points_last", "normals_last"):
        s = [(P, w), (N, P, w), (1, P, w)][case["k"] % 3]
        g = T.transform_points if k == "points_last" else T.transform_normals
        f, what = lambda: g(t(*s)), "%s of shape %s" % (k[:-5], s)
    elif k == "shape_dim":
        s = [(3, 3), (3,), (1, N, P, 3, 3)][case["k"] % 3]
        f, what = lambda: T.transform_shape_operator(t(*s)), "shape operators of shape %s" % (s,)
    elif k == "shape_last":
        e = [(w, w), (w, 3), (3, w)][case["k"] % 3]
        s = (N,) * (case["k"] // 3 % 2) + (P,) + e
        f, what = lambda: T.transform_shape_operator(t(*s)), "shape operators of shape %s" % (s,)
    elif k == "batch":
        if other is None:
            return
        s = (other, P, 3)
        f, what = lambda: getattr(T, method)(t(*s)), "%s: %s for %d transforms" % (method, s, N)
    elif k == "b2b":
        if other is None:
            return
        s = (other, 3)
        f, what = lambda: getattr(T, method)(t(*s), batch_to_batch=True), "%s, one per transform: %s for %d transforms" % (method, s, N)
    elif k == "compose":
        if other is None:
            return
        U, _ = T3(rng, other, dt)
        f = [lambda: T.compose(U), lambda: U.compose(T), lambda: T.compose(pk.Translate(1.0, 2.0, 3.0, dtype=dt), U), lambda: U.stack(T) if False else T.compose(U)][case["k"] % 4]
        what = "composition of %d with %d transforms" % (N, other)
    elif k in ("translate", "scale"):
        s = [(N, wrong(rng, (3,), 1, 6))] if case["k"] % 2 else [(wrong(rng, (3,), 1, 6), 2)]
        C = {"translate": pk.Translate, "scale": pk.Scale}[k]
        f, what = lambda: C(t(*s[0]), dtype=dt), "%s by shape %s" % (k, s[0])
    elif k == "both":
        C = [pk.Translate, pk.Scale][case["k"] % 2]
        f, what = lambda: C(t(N, 3), *([t(N)] if case["k"] // 2 % 2 else [None, 1.0]), dtype=dt), "vectors together with coordinates"
    elif k == "sizes":
        a, b = 2, wrong(rng, (1, 2), 2, 5)
        C = [pk.Translate, pk.Scale][case["k"] % 2]
        xs = [t(a), t(b), t(1)]
        random.Random(case["seed"]).shuffle(xs)
        f, what = lambda: C(*xs, dtype=dt), "coordinates of sizes %s" % [len(x) for x in xs]
    elif k == "tuple":
        if other is None:
            return
        f, what = lambda: T.translate(t(other, 3)), "translating %d transforms by %d vectors" % (N, other)
    elif k == "axis":
        ax = ["W", "", "XY", "x ", "XYZ", "0", "-X"][case["k"] % 7]
        f, what = [lambda: pk.RotateAxisAngle(30.0, axis=ax), lambda: T.rotate_axis_angle(0.3, axis=ax, degrees=False)][case["k"] % 2], "axis %r" % ax
    elif k == "angle":
        s = [(N, 1), (2, 2), (1, N)][case["k"] % 3]
        f, what = lambda: pk.RotateAxisAngle(t(*s), axis="Y"), "angles of shape %s" % (s,)
    else:
        v = wrong(rng, (3, 4), 1, 6)
        s = [(v,), (N, v), (v, v), (N, v, v)][case["k"] % 4]
        f, what = [lambda: pk.Rotate(t(*s), dtype=dt), lambda: T.rotate(t(*s))][case["k"] // 4 % 2], "rotating by shape %s" % (s,)
    rejects(f, what)
    close(T.get_matrix(), M, 0 if dt == torch.float64 else 1e-6, "the transform after a rejected call")
    p = t(P, 3)
    want = np.einsum("nij,pj->npi", M[:, :3, :3], p.double().numpy()) + M[:, None, :3, 3]
    close(T.transform_points(p).reshape(N, P, 3), want, 1e-5 if dt == torch.float32 else 1e-12, "points after a rejected call")
    rec.label(k)
    rec.nt(N > 1 or k in ("matrix_dim", "axis"))


# ------------------------------------------------------------------ conversions
def mats(rng, s):
    """An array of shape s + (a, b) that is a stack of wrongly sized 'matrices'."""
    a, b = [(3, 4), (4, 3), (2, 2), (4, 4), (2, 3), (3, 2), (1, 3), (3, 1), (9, 1), (1, 9), (3, 5)][rng.randint(11)]
    return s + (a, b)


def last(ok, lo=1, hi=6):
    return lambda rng, s: s + (wrong(rng, ok, lo, hi),)


def nonbatch(*tails):
    return lambda rng, s: tails[rng.randint(len(tails))]


# name: (function of one array, wrong shapes, valid shape)
CONV = {
    "quaternion_to_matrix": (rc.quaternion_to_matrix, [last((4,))], (4,)),
    "matrix_to_quaternion": (rc.matrix_to_quaternion, [mats], (3, 3)),
    "matrix_to_axis_angle": (rc.matrix_to_axis_angle, [mats], (3, 3)),
    "axis_angle_to_matrix": (rc.axis_angle_to_matrix, [last((3,))], (3,)),
    "matrix_to_euler_angles": (lambda x: rc.matrix_to_euler_angles(x, "XYZ"), [mats], (3, 3)),
    "euler_angles_to_matrix": (lambda x: rc.euler_angles_to_matrix(x, "ZYX"), [last((3,))], (3,)),
    "quaternion_multiply_left": (lambda x: rc.quaternion_multiply(x, torch.tensor([1.0, 0, 0, 0], dtype=x.dtype)), [last((4,))], (4,)),
    "quaternion_multiply_right": (lambda x: rc.quaternion_multiply(torch.tensor([1.0, 0, 0, 0], dtype=x.dtype), x), [last((4,))], (4,)),
    "quaternion_raw_multiply": (lambda x: rc.quaternion_raw_multiply(x, x), [last((4,))], (4,)),
    "quaternion_apply_point": (lambda x: rc.quaternion_apply(torch.tensor([0.5, 0.5, 0.5, 0.5], dtype=x.dtype), x), [last((3,))], (3,)),
    "quaternion_apply_rotation": (lambda x: rc.quaternion_apply(x, torch.tensor([1.0, 2, 3], dtype=x.dtype)), [last((4,))], (4,)),
    "quaternion_from_euler": (rc.quaternion_from_euler, [last((3,))], (3,)),
    "so3_exp_map": (tf.so3_exp_map, [lambda rng, s: (2, wrong(rng, (3,), 1, 6)), nonbatch((3,), (2, 2, 3), (1, 3, 1))], None),
    "so3_log_map": (tf.so3_log_map, [lambda rng, s: mats(rng, (2,)), nonbatch((3, 3), (1, 2, 3, 3))], None),
    "so3_rotation_angle": (tf.so3_rotation_angle, [lambda rng, s: mats(rng, (2,)), nonbatch((3, 3), (1, 2, 3, 3))], None),
    "hat": (so3.hat, [lambda rng, s: (2, wrong(rng, (3,), 1, 6)), nonbatch((3,), (2, 2, 3))], None),
    "hat_inv": (so3.hat_inv, [lambda rng, s: mats(rng, (2,)), nonbatch((3, 3), (1, 2, 3, 3))], None),
}
GOOD = {"so3_exp_map": (2, 3), "hat": (2, 3), "so3_log_map": (2, 3, 3), "so3_rotation_angle": (2, 3, 3), "hat_inv": (2, 3, 3)}


def conversions(case, rec):
    name = case["name"]
    rng = np.random.RandomState(case["seed"] % 2**32)
    dt = gen.DT[case["dtype"]]
    fn, bads, tail = CONV[name]
    s = bads[case["k"] % len(bads)](rng, tuple(case["lead"]))
    if case["zeros"]:
        x = torch.zeros(s, dtype=dt)
    elif case["eye"] and len(s) >= 2:
        x = torch.eye(s[-2], s[-1], dtype=dt).expand(s).clone()
    else:
        x = torch.tensor(rng.uniform(-1, 1, s), dtype=dt)
    rejects(lambda: fn(x), "%s of an input of shape %s" % (name, s))
    # the same call with a valid shape is answered
    g = GOOD.get(name) or tuple(case["lead"]) + tail
    y = torch.zeros(g, dtype=dt) if name in ("hat_inv",) else (torch.eye(3, dtype=dt).expand(g).clone() if g[-2:] == (3, 3) else torch.ones(g, dtype=dt))
    fn(y)
    rec.label(name)
    rec.nt()


def relative(case, rec):
    """so3_relative_angle and other pairs of inputs."""
    rng = np.random.RandomState(case["seed"] % 2**32)
    s = mats(rng, (2,)) if case["k"] % 2 else (3, 3)
    E = torch.eye(3)[None].repeat(2, 1, 1)
    x = torch.tensor(rng.uniform(-1, 1, s), dtype=torch.float32)
    a, b = ((x, E), (E, x), (x, x))[case["k"] // 2 % 3]
    rejects(lambda: tf.so3_relative_angle(a, b), "so3_relative_angle of shapes %s and %s" % (tuple(a.shape), tuple(b.shape)))
    close(tf.so3_relative_angle(E, E), np.zeros(2), 1e-2, "angle of equal rotations")
    rec.label("relative")
    rec.nt()


def euler(case, rec):
    c = case["conv"]
    ok = len(c) == 3 and c[0] != c[1] != c[2] and all(x in "XYZ" for x in c)
    if ok:
        rec.label("valid")
        R = rc.euler_angles_to_matrix(torch.tensor([0.3, 0.4, 0.5]), c)
        close(rc.matrix_to_euler_angles(R, c), np.array([0.3, 0.4, 0.5]), 1e-5, "angles in convention %s" % c)
        return
    lead = tuple(case["lead"])
    rejects(lambda: rc.euler_angles_to_matrix(torch.zeros(lead + (3,)), c), "convention %r" % c)
    rejects(lambda: rc.matrix_to_euler_angles(torch.eye(3).expand(lead + (3, 3)), c), "convention %r" % c)
    rec.label("len%d" % len(c), "repeat" if len(c) == 3 and all(x in "XYZ" for x in c) else None)
    rec.nt()


# ------------------------------------------------------------------ descriptions
def els(root, path):
    return sorted(root.iter(path), key=lambda e: root.getroottree().getpath(e))


UR = ["truncate", "notype", "badtype", "badchild", "badparent", "noparent", "nochild", "nolinkname", "nojointname", "axis", "xyz", "rpy", "limit", "nolimit_attr", "nolinks", "empty"]


def junk(rng, n=3):
    return rng.choice(["1 2", "1 2 3 4", "a b c", "1 2 x", "", "1,2,3", "1"] if n == 3 else ["1 2 3", "1 2 3 0 0", "0 0 0 0 0 x", "0 0 0 0 0 0 0", ""])


def break_urdf(text, kind, rng):
    """The broken text, or None when the description offers no place for that fault."""
    root = etree.fromstring(text)
    J, L = list(root.findall("joint")), list(root.findall("link"))
    if kind == "truncate":
        return text[:rng.randrange(0, len(text) - 1)]
    if kind == "empty":
        return rng.choice(["", " ", "<robot>", "robot", "<robot name='r'></robots>"])
    if kind == "nolinks":
        for e in J + L:
            root.remove(e)
    elif kind == "nolinkname":
        del rng.choice(L).attrib["name"]
    else:
        if not J:
            return None
        j = rng.choice(J)
        sub = lambda tag: j.find(tag)
        if kind == "notype":
            del j.attrib["type"]
        elif kind == "badtype":
            j.set("type", rng.choice(["hinge", "Revolute", "", "revolute ", "slide", "spherical", "universal"]))
        elif kind == "badchild":
            sub("child").set("link", "nope")
        elif kind == "badparent":
            sub("parent").set("link", "nope")
        elif kind == "noparent":
            j.remove(sub("parent"))
        elif kind == "nochild":
            j.remove(sub("child"))
        elif kind == "nojointname":
            del j.attrib["name"]
        elif kind == "axis":
            a = sub("axis")
            if a is None:
                a = etree.SubElement(j, "axis")
            a.set("xyz", junk(rng))
        elif kind in ("xyz", "rpy"):
            o = sub("origin")
            if o is None:
                o = etree.SubElement(j, "origin")
            o.set(kind, junk(rng))
        elif kind == "limit":
            l = sub("limit")
            if l is None:
                l = etree.SubElement(j, "limit", effort="1", velocity="1")
            l.set(rng.choice(["lower", "upper", "effort", "velocity"]), rng.choice(["abc", "", "1 2", "1,5"]))
        elif kind == "nolimit_attr":
            l = sub("limit")
            if l is None:
                l = etree.SubElement(j, "limit", effort="1", velocity="1")
            del l.attrib[rng.choice(["effort", "velocity"])]
    return etree.tostring(root, encoding="unicode")


SD = ["truncate", "notype", "badtype", "badchild", "noparent", "nochild", "nolinkname", "badparent", "axis", "pose", "limit", "nolinks", "nomodel", "empty", "noaxis"]


def break_sdf(text, kind, rng):
    root = etree.fromstring(text)
    mod = root.find("model")
    J, L = list(mod.findall("joint")), list(mod.findall("link"))
    if kind == "truncate":
        return text[:rng.randrange(0, len(text) - 1)]
    if kind == "empty":
        return rng.choice(["", " ", "<sdf>", "sdf", "<sdf version='1.6'></sdfs>"])
    if kind == "nomodel":
        root.remove(mod)
    elif kind == "nolinks":
        for e in J + L:
            mod.remove(e)
    elif kind == "nolinkname":
        if not J:  # the name is needed where joints refer to the link
            return None
        del rng.choice(L).attrib["name"]
    elif kind == "pose":
        l = rng.choice(L)
        p = l.find("pose")
        if p is None:
            p = etree.SubElement(l, "pose")
        p.text = junk(rng, 6)
    else:
        if not J:
            return None
        j = rng.choice(J)
        if kind == "notype":
            del j.attrib["type"]
        elif kind == "badtype":
            j.set("type", rng.choice(["hinge", "Revolute", "", "revolute ", "slide"]))
        elif kind == "badchild":
            j.find("child").text = "nope"
        elif kind == "noparent":
            j.remove(j.find("parent"))
        elif kind == "nochild":
            j.remove(j.find("child"))
        elif kind == "badparent":
            j.find("parent").text = "nope"
        else:
            a = j.find("axis")
            if a is None:
                return None
            if kind == "axis":
                a.find("xyz").text = junk(rng)
            elif kind == "noaxis":
                a.remove(a.find("xyz"))
            else:
                l = a.find("limit")
                if l is None:
                    l = etree.SubElement(a, "limit")
                e = l.find("lower")
                if e is None:
                    e = etree.SubElement(l, "lower")
                e.text = rng.choice(["abc", "1 2", "1,5"])
    return etree.tostring(root, encoding="unicode")


def urdf(case, rec):
    describe(case, rec, descr.urdf_text(case), break_urdf, pk.build_chain_from_urdf, pk.build_serial_chain_from_urdf, gen.Model(case["robot"]))


def sdf(case, rec):
    describe(case, rec, descr.sdf_text(case), break_sdf, pk.build_chain_from_sdf, pk.build_serial_chain_from_sdf, descr.sdf_model(case))


def describe(case, rec, text, breaker, build, build_serial, m):
    rng = random.Random(case["style"])
    tip = m.nodes[-1]["name"]
    Q = gen.rows(case["q"], len(m.joints))
    for kind in case["faults"]:
        bad = breaker(text, kind, rng)
        if bad is None:
            continue
        rejects(lambda: build(bad), "%s: %s" % (kind, bad))
        rejects(lambda: build_serial(bad, tip), "%s (serial): %s" % (kind, bad))
        rec.label(kind)
        rec.nt()
    rejects(lambda: build_serial(text, near(tip, [n["name"] for n in m.nodes], case["style"])), "an unknown end link")
    chain = build(text)
    dt = chain.dtype
    P = chain.forward_kinematics(torch.tensor(gen.to_chain_order(chain, m, Q), dtype=dt))
    F = m.fk(Q)
    for i, n in enumerate(m.nodes):
        close(P[n["name"]].get_matrix(), F[i], m.tol("f32", Q) + getattr(m, "slack", 0) * 10 + 1e-5, "pose of %r of the intact description" % n["name"])


def mjcf(case, rec):
    xml, _ = mjcftext.text(case["c"], True)
    rng = random.Random(case["style"])
    names = [b["name"] or "ub%d" % i for i, b in enumerate(case["c"]["bodies"])]
    n0 = len(pk.build_chain_from_mjcf(xml).get_frame_names(exclude_fixed=False))
    for kind in case["faults"]:
        root = etree.fromstring(xml)
        B = list(root.iter("body"))
        kw = {}
        if kind == "truncate":
            bad = xml[:rng.randrange(0, len(xml) - 1)]
        elif kind == "empty":
            bad = rng.choice(["", "<mujoco>", "mujoco", "<mujoco/"])
        elif kind == "body":
            bad, kw = xml, {"body": near(rng.choice(names + ["world"]), names + ["world"], rng.randrange(99))}
        elif kind == "bodyid":
            bad, kw = xml, {"body": rng.choice([len(names) + 1, len(names) + 5, -1000])}
        elif kind == "serial":
            bad = None
            x = near(rng.choice(names + ["world"]), names + ["world"], rng.randrange(99))
            rejects(lambda: pk.build_serial_chain_from_mjcf(xml, x), "unknown end %r" % x)
            rejects(lambda: pk.build_serial_chain_from_mjcf(xml, "world", x or "nope"), "unknown root %r" % x)
        elif not B:
            continue
        else:
            b = rng.choice(B)
            if kind == "composite":
                while len(b.findall("joint")) < 2 + rng.randrange(2):
                    b.append(etree.fromstring('<joint type="%s" axis="%d 1 1"/>' % (rng.choice(["hinge", "slide"]), len(b))))
            elif kind == "ball":
                for j in b.findall("joint"):
                    b.remove(j)
                b.append(etree.fromstring('<joint type="ball"/>'))
            elif kind == "free":
                b = [x for x in root.find("worldbody") if x.tag == "body"][0]
                for j in b.findall("joint"):
                    b.remove(j)
                b.append(etree.fromstring(rng.choice(['<freejoint/>', '<joint type="free"/>'])))
            elif kind == "pos":
                b.set("pos", rng.choice(["1 2 x", "a b c"]))
            elif kind == "dup":
                b.append(etree.fromstring("<body name=%s/>" % descr.quoteattr(b.get("name"))))
            elif kind == "attr":
                b.set("possition", "1 2 3")
            bad = etree.tostring(root, encoding="unicode")
        if bad is not None:
            rejects(lambda: pk.build_chain_from_mjcf(bad, **kw), "%s %s: %s" % (kind, kw, bad))
        rec.label(kind)
        rec.nt()
    require(len(pk.build_chain_from_mjcf(xml).get_frame_names(exclude_fixed=False)) == n0, "the intact description")


@st.composite
def full_cases(draw):
    c = draw(gen.robot_config(max_n=8))
    c["dtype"] = draw(gen.DTYPE)
    c["ops"] = draw(ops(["count", "count", "count"] + MAPS + ["frame", "serial_end", "serial_root", "notbelow"]))
    return c


@st.composite
def serial_cases(draw):
    c = draw(c05.cases())
    c["ops"] = draw(ops(["count", "count", "count"] + MAPS))
    return c


@st.composite
def ik_cases(draw):
    c = draw(c05.cases())
    c.update(kind=draw(st.sampled_from(["count", "count", "none", "method", "nolimits"])), k=draw(st.integers(0, 99)), svd=draw(st.booleans()))
    return c


LEAD = st.sampled_from([[], [1], [2], [3], [4], [2, 3], [1, 1], [3, 4]])
TC = st.fixed_dictionaries(dict(kind=st.sampled_from(TK), k=st.integers(0, 99), N=st.integers(1, 4), P=st.integers(1, 4), seed=gen.SEED, dtype=gen.DTYPE))
CC = st.fixed_dictionaries(dict(name=st.sampled_from(sorted(CONV)), k=st.integers(0, 9), seed=gen.SEED, dtype=gen.DTYPE, lead=LEAD, zeros=st.booleans(), eye=st.booleans()))
RC = st.fixed_dictionaries(dict(k=st.integers(0, 5), seed=gen.SEED))
EC = st.fixed_dictionaries(dict(conv=st.one_of(st.text(alphabet="XYZ", max_size=5), st.text(alphabet="XYZ", min_size=3, max_size=3), st.text(alphabet="XYZxyzW ", min_size=3, max_size=3)), lead=LEAD))


@st.composite
def desc_cases(draw, base, kinds, **kw):
    c = draw(base(max_n=6, **kw))
    c["faults"] = draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=4, unique=True))
    return c


MC = st.fixed_dictionaries(dict(c=mjcftext.mjcfs(), style=gen.SEED, faults=st.lists(st.sampled_from(
    ["truncate", "empty", "body", "bodyid", "serial", "composite", "composite", "ball", "free", "pos", "dup", "attr"]), min_size=1, max_size=4, unique=True)))

CHECK = Check("C29", [
    Facet("robots", full_cases(), full, quick=500, thorough=20000, shards=2),
    Facet("serial", serial_cases(), serial, quick=400, thorough=16000, shards=2),
    Facet("ik", ik_cases(), ik, quick=120, thorough=4000),
    Facet("transforms", TC, transforms, quick=800, thorough=30000),
    Facet("conversions", CC, conversions, quick=700, thorough=30000),
    Facet("relative", RC, relative, quick=60, thorough=2000),
    Facet("euler", EC, euler, quick=200, thorough=5000),
    Facet("urdf", desc_cases(descr.urdf_cases, UR), urdf, quick=250, thorough=8000),
    Facet("sdf", desc_cases(descr.sdf_cases, SD), sdf, quick=250, thorough=8000),
    Facet("mjcf", MC, mjcf, quick=250, thorough=8000),
], rule="at least one malformed request was made (for robots: with at least one joint)", ambient=False)
