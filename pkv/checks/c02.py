"""All input forms and frame selections give the same poses (differential + reference)."""
import random

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen, reuse

FORMS1 = ["t1", "t2", "n1", "n2", "list", "dfloat", "dint", "d0t", "d0n", "d1t", "d1n", "dnpf", "n1f32", "tup"]
FORMSB = ["t2", "n2", "dbt", "dbn", "t2T", "n2F", "dbt_view"]


def make(form, names, R, dtype, perm):
    """R: (B, n) values in reported joint order."""
    dt = gen.DT[dtype]
    order = list(range(len(names)))
    random.Random(perm).shuffle(order)
    d = lambda f: {names[k]: f(R[:, k]) for k in order}
    if form == "t1":
        return torch.tensor(R[0], dtype=dt)
    if form == "t2":
        return torch.tensor(R, dtype=dt)
    if form == "t2T":
        return torch.tensor(np.ascontiguousarray(R.T), dtype=dt).T
    if form == "n1":
        return R[0].copy()
    if form == "n1f32":
        return R[0].astype(np.float32) if dtype == "f32" else R[0].copy()
    if form == "n2":
        return R.copy()
    if form == "n2F":
        return np.asfortranarray(R)
    if form == "list":
        return [float(x) for x in R[0]]
    if form == "tup":
        return [np.float64(x) for x in R[0]]
    if form == "dfloat":
        return d(lambda c: float(c[0]))
    if form == "dint":
        return d(lambda c: int(c[0]) if c[0] == int(c[0]) else float(c[0]))
    if form == "dnpf":
        return d(lambda c: np.float64(c[0]))
    if form == "d0t":
        return d(lambda c: torch.tensor(c[0], dtype=dt))
    if form == "d0n":
        return d(lambda c: np.array(c[0]))
    if form == "d1t":
        return d(lambda c: torch.tensor(c[:1], dtype=dt))
    if form == "d1n":
        return d(lambda c: c[:1].copy())
    if form == "dbt":
        return d(lambda c: torch.tensor(c, dtype=dt))
    if form == "dbt_view":
        T = torch.tensor(R, dtype=dt)
        return {names[k]: T[:, k] for k in order}
    if form == "dbn":
        return d(lambda c: c.copy())
    raise AssertionError(form)


def noise(chain, k, tip):
    """Unrelated queries in between."""
    if k == 0:
        chain.get_frame_indices(tip)
    elif k == 1:
        chain.get_joint_parameter_names(exclude_fixed=False)
        chain.get_joint_limits()
    elif k == 2:
        chain.get_frame_names(exclude_fixed=True)
        chain.print_tree(do_print=False)
    elif k == 3:
        n = len(chain.get_joint_parameter_names())
        chain.forward_kinematics(torch.full((3, n), 0.3, dtype=chain.dtype))
    elif k == 4:
        chain.find_frame(tip)
        chain.find_link(tip)
        list(chain.get_joints_and_child_links())
    elif k == 5:
        chain.clamp(torch.zeros(len(chain.get_joint_parameter_names()), dtype=chain.dtype))


def run(case, rec, serial):
    robot, dtype = case["robot"], case["dtype"]
    m = gen.Model(robot)
    chain = gen.build(robot, dtype)
    nodes = robot["nodes"]
    if serial:
        b = case["tip"] % len(nodes)
        p = gen.path(robot, b)
        a = p[case["base"] % len(p)] if case["base"] is not None else 0
        chain = pk.SerialChain(chain, nodes[b]["name"], nodes[a]["name"] if case["base"] is not None else "")
        js = m.serial_joints(a, b)
        frames = m.serial_path(a, b)
        tip = nodes[b]["name"]
    else:
        js, frames, tip = m.joints, list(range(len(nodes))), nodes[case["tip"] % len(nodes)]["name"]
    Qall = gen.cast(gen.rows(case["q"], len(m.joints)), dtype)
    names = chain.get_joint_parameter_names()
    require(sorted(names) == sorted(nodes[j]["jname"] for j in js), "joint names %s" % names)
    R = Qall[:, [m.col[m.jindex[n]] for n in names]]
    want_all = m.fk(Qall)
    if serial:
        want_all = np.stack([np.linalg.inv(want_all[a]) @ w for w in want_all])
    tol = m.tol(dtype, Qall) * (4 if serial else 1)
    rec.label(dtype, "serial" if serial else "tree")
    rec.nt(len(names) >= 2)
    rng = random.Random(case["perm"])
    forms = (FORMS1 if len(R) == 1 else FORMSB)
    if not names and len(R) > 1:
        forms = [f for f in forms if not f.startswith("d")]  # an empty mapping has no batch size
    sel = [forms[i % len(forms)] for i in case["forms"]]
    for step, form in enumerate(sel):
        th = make(form, names, R, dtype, case["perm"] + step)
        rec.label(form)
        noise(chain, (case["perm"] + step) % 7, tip)
        if serial:
            if (case["perm"] + step) % 2:
                res = {tip: chain.forward_kinematics(th)}
                ask = [m.index[tip]]
                if (case["perm"] + step) % 4 == 1:
                    res = {tip: chain.forward_kinematics(th, end_only=True)}
            else:
                res = chain.forward_kinematics(th, end_only=False)
                ask = frames
        else:
            sub = case["sub"]
            if sub and step % 2:
                ask = [s % len(nodes) for s in sub]
                rng.shuffle(ask)
                res = chain.forward_kinematics(th, chain.get_frame_indices(*[nodes[i]["name"] for i in ask]))
            elif step % 4 == 2:
                res = chain.forward_kinematics(th, frame_indices=chain.get_all_frame_indices())
                ask = frames
            else:
                res = chain.forward_kinematics(th)
                ask = frames
        require(sorted(res) == sorted({nodes[i]["name"] for i in ask}),
                lambda: "form %s: frames %s instead of %s" % (form, sorted(res), sorted({nodes[i]["name"] for i in ask})))
        for i in ask:
            close(res[nodes[i]["name"]].get_matrix(), want_all[i], tol, "form %s, pose of %r" % (form, nodes[i]["name"]))
    conversion(chain, names, case["perm"], dtype, rec)


def conversion(chain, names, perm, dtype, rec):
    """Every form of one set of joint values, of any batch shape, is converted to the same tensor."""
    rng = np.random.default_rng(perm)
    shape = [(), (1,), (4,), (2, 3), (3, 1, 2), (1, 1), (2, 1)][perm % 7]
    V = gen.cast(rng.uniform(-3, 3, size=shape + (len(names),)), dtype)
    want = gen.arr(torch.tensor(V, dtype=gen.DT[dtype]))
    order = list(range(len(names)))
    random.Random(perm).shuffle(order)
    forms = [("array", V.copy()), ("tensor", torch.tensor(V, dtype=gen.DT[dtype]))]
    if names:
        forms += [("mapping of arrays", {names[k]: V[..., k].copy() for k in order}),
                  ("mapping of tensors", {names[k]: torch.tensor(V[..., k], dtype=gen.DT[dtype]) for k in order})]
        if not shape:
            forms.append(("mapping of numbers", {names[k]: float(V[k]) for k in order}))
    if not shape:
        forms.append(("list", [float(v) for v in V]))
    rec.label("conversion of %d batch dimensions" % len(shape))
    for what, th in forms:
        got = chain.ensure_tensor(th)
        require(tuple(got.shape) == V.shape, lambda: "%s of shape %s converted to %s" % (what, V.shape, tuple(got.shape)))
        close(got, want, 0, "conversion of a %s of batch shape %s" % (what, shape))


def tree(case, rec):
    run(case, rec, False)


def serial(case, rec):
    run(case, rec, True)


def reused(case, rec):
    """One argument object whose contents change between the calls; earlier results stay what they were."""
    robot, dtype = case["robot"], case["dtype"]
    m = gen.Model(robot)
    tree_ = gen.build(robot, dtype)
    nodes = robot["nodes"]
    b = case["tip"] % len(nodes)
    p = gen.path(robot, b)
    a = p[case["base"] % len(p)] if case["base"] is not None else 0
    items = [(tree_, None)]
    if case["serial"]:
        items.append((pk.SerialChain(tree_, nodes[b]["name"], nodes[a]["name"] if case["base"] is not None else ""), a))
    if case["serial"] == 2:  # two robots of one kind must not share anything
        items.append((gen.build(mirrored(robot), dtype), "m"))
    B = case["B"]
    seq = [gen.cast(x, dtype) for x in reuse.sequence(case, len(m.joints), B, case["steps"])]
    held = {}
    old = []
    rec.label(dtype)
    rec.nt(len(m.joints) >= 1)
    for s, Q in enumerate(seq):
        for which, (chain, root) in enumerate(items):
            mm = gen.Model(mirrored(robot)) if root == "m" else m
            names = chain.get_joint_parameter_names()
            R = Q[:, [m.col[m.jindex[n]] for n in names]]
            key = which if case["kinds"][0] % 3 else (which, s % 2)
            if key not in held:
                held[key] = reuse.holder(B, case["kinds"][which % len(case["kinds"])], names, dtype)
            th = held[key].put(R)
            rec.label(held[key].kind)
            want = mm.fk(Q)
            tol = mm.tol(dtype, Q)
            how = (case["seed"] + s * 3 + which) % 4
            if root is None or root == "m":
                if how == 0 and torch.is_tensor(th) and th.dim() == 2:
                    W = chain.forward_kinematics_tensor(th)
                    res = {chain.idx_to_frame[i]: W[i] for i in range(len(nodes))}
                elif how == 1:
                    res = chain.forward_kinematics(th, chain.get_frame_indices(nodes[b]["name"], nodes[(b + s) % len(nodes)]["name"]))
                else:
                    res = chain.forward_kinematics(th)
            else:
                want = np.stack([np.linalg.inv(want[root]) @ w for w in want])
                tol = tol * 4
                res = chain.forward_kinematics(th, end_only=False) if how % 2 else {nodes[b]["name"]: chain.forward_kinematics(th)}
                if names and how >= 2:
                    q = R
                    J = chain.jacobian(th)
                    close(J, m.serial_jac(root, b, q), m.tol(dtype, Q) * (4 + len(names)) * (1 + m.reach(Q)), "step %d: Jacobian for a reused %s" % (s, held[key].kind))
            for n, T in res.items():
                T = T.get_matrix() if isinstance(T, pk.Transform3d) else T
                close(T, want[m.index[n]], tol, "step %d: pose of %r for a reused %s" % (s, n, held[key].kind))
                old.append((T, gen.arr(T).copy(), "pose of %r of step %d" % (n, s)))
    for T, v, what in old:
        close(T, v, 0, what + " after later calls")


def mirrored(robot):
    """Another robot with the same names, types and topology."""
    nodes = []
    for nd in robot["nodes"]:
        nd = dict(nd)
        jo = nd["jo"] or [0.0] * 6
        nd["jo"] = [jo[0] + 0.25, -jo[1], jo[2]] + jo[3:]
        nodes.append(nd)
    return {"nodes": nodes}


@st.composite
def reuse_cases(draw, **kw):
    return dict(robot=draw(gen.robots(**kw)), dtype=draw(gen.DTYPE), tip=draw(st.integers(0, 9)), base=draw(st.one_of(st.none(), st.integers(0, 5))),
                serial=draw(st.integers(0, 2)), B=draw(st.sampled_from([1, 1, 2, 3, 8])), steps=draw(st.integers(2, 6)), seed=draw(gen.SEED),
                kinds=draw(st.lists(st.integers(0, 15), min_size=1, max_size=3)))


@st.composite
def cases(draw, **kw):
    c = draw(gen.robot_config(batch=st.one_of(st.just(1), st.just(1), st.integers(2, 6), st.sampled_from([7, 16])), **kw))
    c["tip"] = draw(st.integers(0, 9))
    c["base"] = draw(st.one_of(st.none(), st.integers(0, 5)))
    c["forms"] = draw(st.lists(st.integers(0, 13), min_size=3, max_size=6))
    c["sub"] = draw(st.lists(st.integers(0, 9), max_size=6))
    c["perm"] = draw(st.integers(0, 9999))
    return c


CHECK = Check("C02", [
    Facet("tree", cases(max_n=8), tree, 1500, 40000, shards=4),
    Facet("serial", cases(max_n=8, min_mov=1), serial, 1500, 40000, shards=4),
    Facet("reused", reuse_cases(max_n=7, min_mov=1), reused, 700, 20000, shards=4),
], rule="at least two movable joints; every case passes the configuration in 3 to 6 forms with queries in between",
    assumptions=["tensors are given in the precision of the robot", "lists are flat"])
