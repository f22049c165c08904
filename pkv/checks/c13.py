"""Operation histories on a pool of robots (originals, copies, extracted chains) against the reference kinematics."""
import copy
import io
import pickle
import random

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen
from ..urdftext import urdf


class Item:
    def __init__(self, obj, prec, worst, a=None, b=None):
        self.obj, self.prec, self.worst, self.a, self.b = obj, prec, worst, a, b

    @property
    def serial(self):
        return self.b is not None


OPS = ["to", "to", "to", "to_dev", "to_none", "deepcopy", "pickle", "save", "clamp", "fk", "jac", "grad", "extract", "query", "fkdict", "verify",
       "wreck", "inference", "solve", "mapping", "bad", "scribble", "frames"]


def q_of(it, m, Q):
    if not it.serial:
        return gen.to_chain_order(it.obj, m, Q)
    js = m.serial_joints(it.a, it.b)
    return Q[:, [m.col[j] for j in js]]


def verify(it, m, Q, deep=True):
    ch = it.obj
    dt = gen.DT[it.prec]
    require(ch.dtype == dt, lambda: "robot says precision %s instead of %s" % (ch.dtype, dt))
    js = m.serial_joints(it.a, it.b) if it.serial else m.joints
    names = ch.get_joint_parameter_names()
    if it.serial:
        require(list(names) == [m.nodes[j]["jname"] for j in js], lambda: "joint order %s" % names)
    else:
        require(sorted(names) == sorted(m.nodes[j]["jname"] for j in js), lambda: "joints %s" % names)
    it.names = getattr(it, "names", list(names))
    require(it.names == list(names), lambda: "joint order changed from %s to %s" % (it.names, names))
    want = np.array([m.nodes[m.jindex[n]]["lim"] or [-np.inf, np.inf] for n in names], float).reshape(-1, 2)
    lo, hi = ch.get_joint_limits()
    t = 1e-6 * (1 + np.abs(np.where(np.isfinite(want), want, 0)))
    close(np.array(lo, float), want[:, 0], t[:, 0], "lower limits")
    close(np.array(hi, float), want[:, 1], t[:, 1], "upper limits")
    require(ch.low.dtype == dt and ch.high.dtype == dt, "precision of the limit tensors")
    close(ch.low, want[:, 0], t[:, 0], "low")
    close(ch.high, want[:, 1], t[:, 1], "high")
    for n in names:
        j = ch.find_joint(n)
        nd = m.nodes[m.jindex[n]]
        require(j is not None and j.name == n and j.joint_type == nd["type"], lambda: "joint object of %r" % n)
        close(j.axis, m.axis[m.jindex[n]], 3e-7 if it.worst == "f32" else 1e-15, "axis of joint %r" % n)
    F = m.fk(Q)
    tol = m.tol(it.worst, Q) * (6 if it.serial else 2)
    x = torch.tensor(q_of(it, m, Q), dtype=dt, requires_grad=deep)
    P = ch.forward_kinematics(x, **({"end_only": False} if it.serial else {}))
    frames = m.serial_path(it.a, it.b) if it.serial else range(len(m.nodes))
    require(sorted(P) == sorted(m.nodes[i]["name"] for i in frames), lambda: "frames %s" % sorted(P))
    for i in frames:
        M = P[m.nodes[i]["name"]].get_matrix()
        require(M.dtype == dt, lambda: "pose has precision %s instead of %s" % (M.dtype, dt))
        w = np.linalg.inv(F[it.a]) @ F[i] if it.serial else F[i]
        close(M, w, tol, "pose of %r" % m.nodes[i]["name"])
    if it.serial and js:
        q = q_of(it, m, Q)
        J = ch.jacobian(torch.tensor(q, dtype=dt))
        require(J.dtype == dt, lambda: "Jacobian has precision %s instead of %s" % (J.dtype, dt))
        close(J, m.serial_jac(it.a, it.b, q), tol * 3 * (1 + m.reach(Q)), "Jacobian")
    if deep and len(names):
        # gradient of a position of some frame
        k = list(frames)[-1]
        p = P[m.nodes[k]["name"]].get_matrix()[:, :3, 3].sum()
        g, = torch.autograd.grad(p, x)
        require(g.dtype == dt, "gradient precision")
        root = it.a if it.serial else 0
        want = num_grad(m, it, Q, k, names)
        close(g, want, tol * 10 * (1 + m.reach(Q)) + 1e-7 * (1 + m.reach(Q)), "gradient of the position of %r" % m.nodes[k]["name"])


def wreck(obj, seen=None):
    """Rewrites in place everything a copy holds."""
    seen = set() if seen is None else seen
    if id(obj) in seen or isinstance(obj, (str, bytes, int, float, type, torch.dtype, torch.device)) or obj is None:
        return
    seen.add(id(obj))
    if torch.is_tensor(obj):
        obj.data.fill_(1)
        return
    if isinstance(obj, np.ndarray):
        obj[...] = 1
        return
    if isinstance(obj, dict):
        for v in list(obj.values()):
            wreck(v, seen)
        obj.clear()
    elif isinstance(obj, (list, tuple, set)):
        for v in list(obj):
            wreck(v, seen)
        if not isinstance(obj, tuple):
            obj.clear()
    elif type(obj).__module__.startswith("pytorch_kinematics"):
        for v in list(vars(obj).values()):
            wreck(v, seen)


def bad_call(ch, it, m, r):
    n = len(ch.get_joint_parameter_names())
    dt = gen.DT[it.prec]
    calls = [
        lambda: ch.forward_kinematics(torch.zeros(2, n + 1, dtype=dt)),
        lambda: ch.forward_kinematics(torch.zeros(2, max(n - 1, 0), dtype=dt) if n else torch.zeros(2, 3, dtype=dt)),
        lambda: ch.forward_kinematics({"no such joint": 0.0}),
        lambda: ch.forward_kinematics({k: torch.zeros(2, dtype=dt) for k in ch.get_joint_parameter_names()[1:]}),
        lambda: ch.get_frame_indices(m.nodes[0]["name"], "no such frame"),
        lambda: pk.SerialChain(ch, "no such frame"),
        lambda: pk.SerialChain(ch, m.nodes[it.b if it.serial else 0]["name"], "no such frame"),
        lambda: ch.clamp(torch.zeros(2, n + 1, dtype=dt)),
        lambda: ch.forward_kinematics("text"),
        lambda: ch.find_frame("no such frame").name,
        lambda: ch.jacobian(torch.zeros(1, n + 1, dtype=dt)),
        lambda: ch.forward_kinematics_tensor(torch.zeros(n + 1, dtype=dt)),
    ]
    try:
        calls[r % len(calls)]()
    except Exception:  # noqa
        return True
    return False


def scribble(ch, r):
    got = [ch.get_joint_parameter_names(), ch.get_joint_parameter_names(exclude_fixed=False), ch.get_frame_names(), ch.get_frame_names(exclude_fixed=False),
           ch.get_link_names(), ch.get_joints(), ch.get_joints(exclude_fixed=False), ch.get_links(), ch.get_joint_parent_frame_names(),
           *ch.get_joint_limits(), *ch.get_joint_velocity_limits(), *ch.get_joint_effort_limits()]
    got += [l for _, l in ch.get_joints_and_child_links()]
    for v in got:
        if r % 3 == 0:
            v.clear()
        elif r % 3 == 1:
            v.reverse()
            v.append(None)
        else:
            v[:] = [None] * len(v)
    n = len(ch.get_joint_parameter_names())
    for t in (ch.get_all_frame_indices(), ch.clamp(torch.zeros(2, n, dtype=ch.dtype)), ch.forward_kinematics_tensor(torch.zeros(2, n, dtype=ch.dtype)),
              ch.ensure_tensor([0.1] * n)):
        t.zero_() if r % 2 else t.fill_(7)
    if hasattr(ch, "_serial_frames"):
        J, T = ch.jacobian(torch.zeros(2, n, dtype=ch.dtype), ret_eef_pose=True)
        J.fill_(3)
        T.fill_(3)


def num_grad(m, it, Q, k, names):
    out = np.zeros((len(Q), len(names)))
    h = 1e-6
    for c, n in enumerate(names):
        s = 0
        for sg in (1, -1):
            Q2 = Q.copy()
            Q2[:, m.col[m.jindex[n]]] += sg * h
            F = m.fk(Q2)
            T = np.linalg.inv(F[it.a]) @ F[k] if it.serial else F[k]
            s = s + sg * T[:, :3, 3].sum(1)
        out[:, c] = s / (2 * h)
    return out


def run(case, rec):
    robot = case["robot"]
    if case["src"] == "urdf":
        robot["nodes"][0]["jo"] = None
        for nd in robot["nodes"]:
            if nd["type"] == "prismatic" and nd["lim"] is None:
                nd["lim"] = [-1.0, 1.0]
        m = gen.Model(robot)
        pool = [Item(pk.build_chain_from_urdf(urdf(robot)), "f32", "f32")]
    else:
        m = gen.Model(robot)
        pool = [Item(gen.build(robot, case["src"]), case["src"], case["src"])]
    Q = gen.cast(gen.rows(case["q"], len(m.joints)), "f32")
    nt = 0
    for op, k, r in case["ops"]:
        op = OPS[op % len(OPS)]
        it = pool[k % len(pool)]
        ch = it.obj
        rec.label(op)
        rng = random.Random(r)
        if op == "to":
            p = ["f32", "f64"][r % 2]
            res = ch.to(dtype=gen.DT[p]) if r % 3 else ch.to(gen.DT[p], "cpu")
            require(res is ch or isinstance(res, type(ch)), "to() returns a robot")
            it.obj, it.prec = res, p
            it.worst = "f32" if "f32" in (p, it.worst) else "f64"
            nt += 1
        elif op == "to_dev":
            it.obj = ch.to(device=["cpu", torch.device("cpu")][r % 2])
        elif op == "to_none":
            it.obj = ch.to()
        elif op == "deepcopy":
            pool.append(Item(copy.deepcopy(ch), it.prec, it.worst, it.a, it.b))
            nt += 1
        elif op == "pickle":
            pool.append(Item(pickle.loads(pickle.dumps(ch)), it.prec, it.worst, it.a, it.b))
            nt += 1
        elif op == "save":
            f = io.BytesIO()
            torch.save(ch, f)
            f.seek(0)
            pool.append(Item(torch.load(f, weights_only=False), it.prec, it.worst, it.a, it.b))
        elif op == "clamp":
            n = len(ch.get_joint_parameter_names())
            c = ch.clamp(torch.full((2, n), 5.0 - r % 10, dtype=gen.DT[it.prec]))
            require(c.dtype == gen.DT[it.prec], "precision of clamp")
        elif op in ("fk", "verify"):
            verify(it, m, Q, deep=op == "verify")
        elif op == "fkdict":
            q = q_of(it, m, Q)
            names = ch.get_joint_parameter_names()
            if names:
                d = {n: torch.tensor(q[:, i], dtype=gen.DT[it.prec]) for i, n in enumerate(names)}
                res = ch.forward_kinematics(d)
                for v in (res.values() if isinstance(res, dict) else [res]):
                    v.get_matrix().zero_()  # a result is the caller's
        elif op == "jac":
            if it.serial and m.serial_joints(it.a, it.b):
                J = ch.jacobian(torch.tensor(q_of(it, m, Q), dtype=gen.DT[it.prec]), ret_eef_pose=True, locations=torch.tensor([[0.1, 0.2, 0.3]], dtype=gen.DT[it.prec]))
                require(J[0].dtype == gen.DT[it.prec] and J[1].dtype == gen.DT[it.prec], "precision of the Jacobian")
        elif op == "grad":
            x = torch.tensor(q_of(it, m, Q), dtype=gen.DT[it.prec], requires_grad=True)
            T = ch.forward_kinematics_tensor(x, analytical_grad=bool(r % 2))
            if x.numel():
                torch.autograd.grad((T ** 2).sum(), x, create_graph=not r % 2)
        elif op == "extract":
            if it.serial:
                span = m.serial_path(it.a, it.b)
                b = span[r % len(span)]
                p = m.serial_path(it.a, b)
            else:
                b = r % len(m.nodes)
                p = gen.path(robot, b)
            a = p[(r // 7) % len(p)]
            kw = {}
            prec, worst = it.prec, it.worst
            if r % 5 == 0:
                prec = ["f32", "f64"][(r // 5) % 2]
                kw["dtype"] = gen.DT[prec]
                worst = "f32" if "f32" in (prec, worst) else "f64"
            pool.append(Item(pk.SerialChain(ch, m.nodes[b]["name"], m.nodes[a]["name"], **kw), prec, worst, a, b))
            nt += 1
        elif op == "wreck":  # what happens to a copy stays in the copy
            how = r % 4
            f = io.BytesIO()
            if how == 2:
                torch.save(ch, f)
                f.seek(0)
            if how == 3:
                b = it.b if it.serial else r % len(m.nodes)
                wreck(pk.SerialChain(ch, m.nodes[b]["name"]))
            else:
                wreck(copy.deepcopy(ch) if how == 0 else pickle.loads(pickle.dumps(ch)) if how == 1 else torch.load(f, weights_only=False))
            nt += 1
        elif op == "inference":  # what is computed first without gradients must not stick
            with torch.inference_mode() if r % 2 else torch.no_grad():
                x = torch.tensor(q_of(it, m, Q), dtype=gen.DT[it.prec])
                ch.forward_kinematics(x)
                if it.serial and m.serial_joints(it.a, it.b):
                    ch.jacobian(x, locations=torch.tensor([[0.1, 0.2, 0.3]], dtype=gen.DT[it.prec]))
        elif op == "solve":
            if it.serial and m.serial_joints(it.a, it.b):
                n = len(m.serial_joints(it.a, it.b))
                goal = pk.Transform3d(pos=[0.3, 0.2, 0.1], dtype=gen.DT[it.prec])
                pk.PseudoInverseIK(ch, max_iterations=2, num_retries=2, retry_configs=torch.zeros(2, n, dtype=gen.DT[it.prec])).solve(goal)
        elif op == "mapping":
            n = len(ch.get_joint_parameter_names())
            if n:
                x = torch.tensor(q_of(it, m, Q), dtype=gen.DT[it.prec])
                ch.forward_kinematics(x[0].tolist() if r % 2 else x.numpy())
        elif op == "bad":  # a call that fails must leave no trace
            refused = bad_call(ch, it, m, r)
            rec.label("refused" if refused else "not refused")
        elif op == "scribble":  # what a query returns is the caller's
            scribble(ch, r)
            nt += 1
        elif op == "frames":
            n = len(m.nodes)
            f = ch.find_frame(m.nodes[m.serial_path(it.a, it.b)[r % len(m.serial_path(it.a, it.b))] if it.serial else r % n]["name"])
            th = torch.full((2,), 0.3 - r % 3, dtype=f.joint.axis.dtype)
            if f.joint.offset is None or f.joint.offset.dtype == th.dtype:
                f.get_transform(th).get_matrix().zero_()
            f.joint.clamp(th).zero_()
            str(f), repr(f.joint), repr(f.link)
        elif op == "query":
            ch.get_frame_names(exclude_fixed=bool(r % 2))
            ch.get_joints(exclude_fixed=bool(r % 2))
            list(ch.get_joints_and_child_links())
            ch.print_tree(do_print=False)
            ch.get_all_frame_indices()
            str(ch)
        if len(pool) > 7:
            del pool[1 + rng.randrange(len(pool) - 2)]
    rec.nt(nt >= 2 and len(m.joints) >= 1)
    rec.label(case["src"])
    for it in pool:
        verify(it, m, Q)
    for it in pool[::-1]:
        verify(it, m, Q, False)


@st.composite
def cases(draw, **kw):
    r = draw(gen.robots(**kw))
    return dict(robot=r, src=draw(st.sampled_from(["f32", "f64", "f64", "urdf"])), q=draw(gen.configs(len(gen.movable(r)), st.integers(1, 3))),
                ops=draw(st.lists(st.tuples(st.integers(0, len(OPS) - 1), st.integers(0, 7), st.integers(0, 999)).map(list), min_size=2, max_size=14)))


CHECK = Check("C13", [
    Facet("history", cases(max_n=7), run, 1600, 25000, shards=6),
    Facet("long", cases(max_n=4, min_mov=1), run, 500, 8000, shards=2),
    Facet("huge", cases(huge=(24, 70), min_mov=1), run, 24, 300, shards=3),
], rule="at least two precision changes, copies or extractions on a robot with a movable joint",
    assumptions=["after a robot has been in single precision its values are those of single precision"])
