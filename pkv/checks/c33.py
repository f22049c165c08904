"""Jobs on shared robots and transforms run by several threads at once, against the same jobs run one after the other."""
import copy
import pickle
import sys
import threading

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen, ref, descr
from ..urdftext import urdf
from .c12 import Tree  # noqa: F401
from . import c21

KINDS = ["fk", "fk", "fkdict", "fksub", "sfk", "jac", "jac", "grad", "gradjac", "tensor", "extract", "copy", "pickle", "structure", "limits", "clamp", "tf", "tf", "tfinv", "points", "normals",
         "euler", "quat", "log", "parse", "ik", "perturb", "move"]


class Stage:
    """The shared objects; built the same way twice."""

    def __init__(self, case):
        robot = case["robot"]
        self.m = m = gen.Model(robot)
        self.dt = gen.DT[case["dtype"]]
        self.text = urdf(dict(robot, nodes=[dict(n, jo=None if i == 0 else n["jo"], lim=n["lim"] or ([-1.0, 1.0] if n["type"] == "prismatic" else None)) for i, n in enumerate(robot["nodes"])]))
        self.tree = gen.build(robot, case["dtype"])
        self.b = case["tip"] % len(m.nodes)
        self.serial = pk.SerialChain(self.tree, m.nodes[self.b]["name"])
        self.names = self.tree.get_joint_parameter_names()
        self.snames = self.serial.get_joint_parameter_names()
        rng = np.random.RandomState(case["seed"])
        self.T = pk.Transform3d(matrix=torch.tensor(ref.hom(ref.expso3(rng.normal(size=(3, 3))), rng.normal(size=(3, 3))), dtype=self.dt))
        self.U = pk.Transform3d(default_batch_size=1, dtype=self.dt).rotate(torch.tensor(ref.expso3(rng.normal(size=3)), dtype=self.dt)).translate(0.1, 0.2, 0.3)
        self.points = torch.tensor(rng.normal(size=(5, 3)), dtype=self.dt)


def job(s, kind, seed, B):
    """One job; everything it returns is arrays or plain data."""
    rng = np.random.RandomState(seed)
    dt = s.dt
    n, k = len(s.names), len(s.snames)
    x = torch.tensor(rng.uniform(-3, 3, (B, n)), dtype=dt)
    y = torch.tensor(rng.uniform(-3, 3, (B, k)), dtype=dt)
    allm = lambda d: {key: gen.arr(v.get_matrix()).copy() for key, v in d.items()}
    if kind == "fk":
        return allm(s.tree.forward_kinematics(x))
    if kind == "fkdict":
        return allm(s.tree.forward_kinematics({nm: x[:, i] for i, nm in enumerate(s.names)})) if n else None
    if kind == "fksub":
        return allm(s.tree.forward_kinematics(x, s.tree.get_frame_indices(s.m.nodes[seed % len(s.m.nodes)]["name"], s.m.nodes[0]["name"])))
    if kind == "sfk":
        return gen.arr(s.serial.forward_kinematics(y).get_matrix()).copy()
    if kind == "tensor":
        return gen.arr(s.tree.forward_kinematics_tensor(x)).copy()
    if kind == "jac":
        if not k:
            return None
        J, P = s.serial.jacobian(y, locations=torch.tensor(rng.normal(size=3), dtype=dt), ret_eef_pose=True)
        return [gen.arr(J).copy(), gen.arr(P).copy()]
    if kind == "grad":
        x.requires_grad_(True)
        M = s.tree.forward_kinematics(x)[s.m.nodes[seed % len(s.m.nodes)]["name"]].get_matrix()
        W = torch.tensor(rng.normal(size=(B, 4, 4)), dtype=dt)
        return gen.arr(torch.autograd.grad((W * M).sum(), x, allow_unused=True)[0] + 0 if n and M.requires_grad else torch.zeros(1)).copy()
    if kind == "gradjac":
        if not k:
            return None
        y.requires_grad_(True)
        J = s.serial.jacobian(y)
        W = torch.tensor(rng.normal(size=tuple(J.shape)), dtype=dt)
        L = (W * J).sum()
        return gen.arr(torch.autograd.grad(L, y)[0]).copy() if L.requires_grad else None
    if kind == "extract":
        b = seed % len(s.m.nodes)
        c = pk.SerialChain(s.tree, s.m.nodes[b]["name"])
        q = torch.tensor(rng.uniform(-3, 3, (B, c.n_joints)), dtype=dt)
        return [list(c.get_joint_parameter_names()), gen.arr(c.forward_kinematics(q).get_matrix()).copy()]
    if kind in ("copy", "pickle"):
        c = copy.deepcopy(s.tree) if kind == "copy" else pickle.loads(pickle.dumps(s.tree))
        return allm(c.forward_kinematics(x))
    if kind == "move":
        c = copy.deepcopy(s.tree).to(dtype=torch.float64 if dt == torch.float32 else torch.float32)
        return [str(c.dtype), str(c.low.dtype), list(c.get_joint_parameter_names())]
    if kind == "structure":
        return [s.tree.get_frame_names(exclude_fixed=bool(seed % 2)), [j.name for j in s.tree.get_joints()], s.tree.print_tree(do_print=False), str(s.serial), gen.arr(s.tree.get_all_frame_indices())]
    if kind == "limits":
        return [np.array(v, float) for v in s.tree.get_joint_limits()]
    if kind == "clamp":
        return gen.arr(s.tree.clamp(x)) if n else None
    if kind == "tf":
        return gen.arr(s.T.compose(s.U, s.T.inverse()).get_matrix()).copy()
    if kind == "tfinv":
        return gen.arr(s.U.inverse().compose(s.U).get_matrix()).copy()
    if kind == "points":
        return gen.arr(s.T.transform_points(s.points * (1 + seed % 5))).copy()
    if kind == "normals":
        return gen.arr(s.T.transform_normals(s.points * (1 + seed % 5))).copy()
    v = rng.normal(size=(B, 3))
    if kind == "euler":
        R = pk.euler_angles_to_matrix(torch.tensor(v, dtype=dt), ["XYZ", "ZYX", "ZXZ"][seed % 3])
        return gen.arr(R).copy()
    if kind == "quat":
        q = pk.matrix_to_quaternion(torch.tensor(ref.expso3(v), dtype=dt))
        return gen.arr(pk.quaternion_multiply(q, q.flip(0))).copy()
    if kind == "log":
        return gen.arr(pk.so3_log_map(torch.tensor(ref.expso3(v / np.linalg.norm(v, axis=1, keepdims=True)), dtype=dt))).copy()
    if kind == "parse":
        c = pk.build_chain_from_urdf(s.text)
        return [list(c.get_joint_parameter_names()), allm(c.forward_kinematics(x.float()))]
    if kind == "ik":
        if not k:
            return None
        g = s.serial.forward_kinematics(y[:1])
        r = pk.PseudoInverseIK(s.serial, max_iterations=3, retry_configs=torch.tensor(rng.uniform(-1, 1, (2, k)), dtype=dt), early_stopping_no_improvement=None, enforce_joint_limits=False, regularlization=1e-3).solve(g)
        return [gen.arr(r.solutions).copy(), gen.arr(r.err_pos).copy()]
    if kind == "perturb":
        return list(s.T.get_matrix().shape)
    if kind == "frame":
        f = s.tree.find_frame(s.m.nodes[seed % len(s.m.nodes)]["name"])
        return gen.arr(f.get_transform(torch.tensor(rng.uniform(-3, 3, B), dtype=dt)).get_matrix()).copy()
    if kind == "getters":
        return [len(s.T), str(s.T), gen.arr(s.T[[0, 1]].get_matrix()).copy(), gen.arr(s.T.stack(s.U).get_matrix()).copy()]
    if kind == "build":
        return gen.arr(pk.Transform3d(pos=v, rot=pk.euler_angles_to_matrix(torch.tensor(v, dtype=dt), "XYZ"), dtype=dt).translate(*v[0].tolist()).rotate_axis_angle(float(v[0, 0]), "X", degrees=False).get_matrix()).copy()
    raise AssertionError(kind)


def same(a, b, tol, what):
    require(type(a) is type(b), lambda: "%s: %r instead of %r" % (what, a, b))
    if isinstance(a, dict):
        require(sorted(a) == sorted(b), lambda: "%s: %s instead of %s" % (what, sorted(a), sorted(b)))
        for k in a:
            same(a[k], b[k], tol, "%s, %r" % (what, k))
    elif isinstance(a, np.ndarray):
        close(np.nan_to_num(a, posinf=1e30, neginf=-1e30), np.nan_to_num(b, posinf=1e30, neginf=-1e30), tol * (1 + np.abs(np.nan_to_num(b, posinf=0, neginf=0)).max(initial=0)), what)
    elif isinstance(a, list) and any(isinstance(v, (np.ndarray, dict, list)) for v in a):
        require(len(a) == len(b), what)
        for i, (u, v) in enumerate(zip(a, b)):
            same(u, v, tol, what)
    else:
        require(a == b, lambda: "%s: %r instead of %r" % (what, a, b))


def run(case, rec):
    jobs = [[(KINDS[k % len(KINDS)], seed, B) for k, seed, B in t] for t in case["threads"]]
    tol = 1e-5 if case["dtype"] == "f32" else 1e-11
    for rnd in range(case["rounds"]):
        s = Stage(case)  # fresh, so that first uses meet
        out = [[] for _ in jobs]
        start = threading.Barrier(len(jobs))

        def work(i):
            try:
                start.wait(20)
                for kind, seed, B in jobs[i]:
                    out[i].append(job(s, kind, seed + rnd, B))
            except BaseException as e:
                out[i].append(e)
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        z = Stage(case)
        for i, t in enumerate(jobs):
            for (kind, seed, B), got in zip(t, out[i]):
                if isinstance(got, BaseException):
                    job(Stage(case), kind, seed + rnd, B)  # not an error of the job itself
                    raise got
                same(got, job(z, kind, seed + rnd, B), tol, "%s of thread %d" % (kind, i))
            require(len(out[i]) == len(t), "a thread stopped")
    rec.label(*{k for t in jobs for k, _, _ in t})
    rec.nt(sum(len(t) for t in jobs) >= 4 and len(s.names) >= 1)


def hammer(case, rec):
    """The same few quick jobs again and again, for windows that are rarely hit."""
    s = Stage(case)
    tol = 1e-5 if case["dtype"] == "f32" else 1e-11
    jobs = [[(QUICK[k % len(QUICK)], seed, B) for k, seed, B in t] for t in case["threads"]]
    z = Stage(case)
    want = [[job(z, *j) for j in t] for t in jobs]
    bad = []
    start = threading.Barrier(len(jobs))

    def work(i):
        try:
            start.wait(20)
            for rep in range(case["reps"]):
                for j, w in zip(jobs[i], want[i]):
                    if bad:
                        return
                    same(job(s, *j), w, tol, "%s of thread %d" % (j[0], i))
        except BaseException as e:
            bad.append(e)
    ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if bad:
        raise bad[0]
    rec.label(*{j[0] for t in jobs for j in t})
    rec.nt(len(s.names) >= 1)


QUICK = ["tf", "tfinv", "points", "normals", "normals", "clamp", "euler", "quat", "log", "sfk", "fkdict", "jac", "tensor", "frame", "getters", "limits", "build"]


@st.composite
def hammers(draw, **kw):
    n = draw(st.integers(3, 6))
    k = [draw(st.integers(0, len(QUICK) - 1)) for _ in range(draw(st.integers(1, 2)))]
    th = [[[j, draw(gen.SEED), draw(st.sampled_from([1, 2, 3]))] for j in k] for _ in range(n)]
    return dict(robot=draw(gen.robots(**kw)), dtype=draw(gen.DTYPE), tip=draw(st.integers(0, 20)), seed=draw(gen.SEED), threads=th, reps=250)


JOB = st.tuples(st.integers(0, len(KINDS) - 1), gen.SEED, st.sampled_from([1, 2, 3, 17])).map(list)


@st.composite
def cases(draw, **kw):
    n = draw(st.integers(2, 4))
    if draw(st.booleans()):  # the same kind of job everywhere
        k = draw(st.integers(0, len(KINDS) - 1))
        th = [[[k, draw(gen.SEED), b] for b in draw(st.lists(st.sampled_from([1, 2, 3, 3, 17]), min_size=3, max_size=10))] for _ in range(n)]
    else:
        th = draw(st.lists(st.lists(JOB, min_size=2, max_size=8), min_size=n, max_size=n))
    return dict(robot=draw(gen.robots(**kw)), dtype=draw(gen.DTYPE), tip=draw(st.integers(0, 20)), seed=draw(gen.SEED), threads=th, rounds=draw(st.integers(1, 2)))


CHECK = Check("C33", [
    Facet("threads", cases(max_n=7, min_mov=1), run, 400, 12000, shards=6, shrink=True),
    Facet("hammer", hammers(max_n=5, min_mov=1), hammer, 90, 3000, shards=8),
], rule="several jobs in two or more threads on a robot with a movable joint", ambient=False, boost=1,
    assumptions=["threads share robots and transforms that none of them changes; every thread has its own solver",
                 "interleavings are those the operating system and the interpreter give with a switch interval of 10 microseconds"])
