"""Generators of robots, configurations and rotations (JSON cases) and their builders."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from .boot import pk
from . import ref

INF = float("inf")
PI = math.pi
DT = {"f32": torch.float32, "f64": torch.float64}
TYPES = ("fixed", "revolute", "prismatic")


# ------------------------------------------------------------------ scalars
def num(lo, hi, k=1000):
    return st.integers(int(round(lo * k)), int(round(hi * k))).map(lambda i: i / k)


def lengths(m=1.5):
    return st.one_of(num(-m, m), num(-m, m), st.sampled_from([0.0, 0.25, -1.0, 1.0, 1e-3, -1e-4, 1e-6, 7.5, -64.0]))


ANGLE = st.one_of(num(-3.3, 3.3), st.sampled_from([0.0, PI / 2, -PI / 2, PI, -PI, PI / 4, -PI / 3, 1e-3, -1e-5, PI - 1e-4]))
QVAL = st.one_of(num(-3.2, 3.2), num(-3.2, 3.2), num(-10, 10),
                 st.sampled_from([0.0, PI / 2, -PI / 2, PI, -PI, 2 * PI, 1e-4, -1e-7, 0.5, -7.0, 13.0, 47.25, -95.0]))
SEED = st.integers(0, 2 ** 31 - 1)
DTYPE = st.sampled_from(["f32", "f64"])
BATCH = st.one_of(st.integers(1, 5), st.integers(1, 5), st.sampled_from([6, 7, 8, 16, 17, 33, 64, 100]))


@st.composite
def triples(draw, el, ones=(1.0, 0.0)):
    """Three numbers, equal or special in some places more often than by chance."""
    v = [draw(el) for _ in range(3)]
    k = draw(st.integers(0, 5))
    if k == 0:
        v = [v[0]] * 3
    elif k == 1:
        i = draw(st.integers(0, 2))
        v = [v[0] if j != i else v[1] for j in range(3)]
    elif k == 2:
        i, one = draw(st.integers(0, 2)), draw(st.sampled_from(ones))
        v = [one if j != i else v[1] for j in range(3)]
    return v


@st.composite
def origins(draw, none=0.25, m=1.5):
    k = draw(st.integers(0, 8))
    if k <= 1:
        return None
    if k == 8:  # nearly nothing, which is not nothing
        tiny = st.sampled_from([0.0, 0.0, 8e-6, -3e-6, 2e-6, 2e-7, -4e-9, 5e-5])
        if draw(st.booleans()):
            v = [0.0] * 6
            v[draw(st.integers(0, 5))] = draw(st.sampled_from([8e-6, -3e-6, 2e-7, 5e-5, -9e-4]))
            return v
        return [draw(tiny) for _ in range(6)]
    xyz = [draw(lengths(m)) for _ in range(3)] if k != 2 else [0.0, 0.0, 0.0]
    r = [draw(ANGLE) for _ in range(3)] if k != 3 else [0.0, 0.0, 0.0]
    return xyz + r


@st.composite
def axes(draw):
    k = draw(st.integers(0, 9))
    if k < 3:
        v = [0.0, 0.0, 0.0]
        v[k] = 1.0
        return v
    if k < 5:
        v = [0.0, 0.0, 0.0]
        v[draw(st.integers(0, 2))] = -1.0
        return v
    if k == 5:
        return [0.6, 0.0, -0.8]
    v = [draw(num(-2, 2, 100)) for _ in range(3)]
    if sum(x * x for x in v) < 0.05:
        v[draw(st.integers(0, 2))] = 1.0
    if k == 6:  # far from unit length
        f = draw(st.sampled_from([1e-3, 0.05, 1000.0, 7.0]))
        v = [round(x * f, 9) for x in v]
    if k == 7:  # almost along a coordinate axis
        i = draw(st.integers(0, 2))
        e = draw(st.sampled_from([1e-2, 1e-3, 1e-4]))
        v = [(1.0 if j == i else x * e) for j, x in enumerate(v)]
    return v


@st.composite
def limits(draw, jtype="revolute"):
    k = draw(st.integers(0, 9))
    if k <= 2:
        return None
    if k == 3:
        return [-INF, draw(num(-3, 3))]
    if k == 4:
        return [draw(num(-3, 3)), INF]
    if k == 5:
        v = draw(num(-3, 3))
        return [v, v]
    a, b = draw(num(-6, 6)), draw(num(-6, 6))
    return [min(a, b), max(a, b)]


# ------------------------------------------------------------------ names
ADV = ["a", "aa", "aaa", "a_a", "b", "ab", "link", "link_link", "link_1", "link_11", "joint", "1", "0", "10", "world", "base",
       "None", "x y", "fixed", "root", "A", "ee", "ee_frame", "tool0", "é", "l.1", "l-1", "/ns/l", "-1", "nan"]


def family(n, seed):
    """n distinct names that are nearly the same: in prefix, suffix, case, digits or separators."""
    import random
    r = random.Random(seed)
    base = r.choice(["tip", "arm", "j", "l1", "r_hand", "Link"])
    out = [base]
    while len(out) < n:
        x = r.choice(out)
        y = r.choice([x + "2", x + "_", x + "0", "x" + x, x.upper(), x.capitalize(), x.swapcase(), "left/" + base, "right/" + base, r.choice("abcd") + "/" + x, x + "_" + base,
                      base + str(len(out)), base + "_%02d" % len(out), x[::-1], x + "_link", x + "_joint", x + "_frame", x + "." + base, "0" + x, x[:-1] or "q"])
        if y not in out:
            out.append(y)
    r.shuffle(out)
    return out


@st.composite
def namesets(draw, n):
    mode = draw(st.sampled_from(["plain", "perm", "adv", "same", "family", "family"]))
    if mode == "plain":
        return ["link%d" % i for i in range(n)], ["joint%d" % i for i in range(n)]
    if mode == "perm":
        p = draw(st.permutations(range(n)))
        r = draw(st.permutations(range(n)))
        return ["link%d" % i for i in p], ["joint%d" % i for i in r]
    if mode == "family":
        return family(n, draw(SEED)), family(n, draw(SEED))
    pool = (ADV + ["n%d" % i for i in range(max(0, n - len(ADV)))])
    p = draw(st.permutations(pool))[:n]
    if mode == "same":
        return list(p), list(p)  # each joint is named like its child link
    return list(p), list(draw(st.permutations(pool))[:n])


# ------------------------------------------------------------------ robots
@st.composite
def robots(draw, min_n=1, max_n=10, min_mov=0, topo=None, types=None, offsets=True, limited=True, link_origin=True, big=False,
           jlim=None, root_offset=True, small=False, huge=None):
    """Kinematic tree: nodes[0] is the root; nodes[i]['parent'] < i."""
    if huge:
        round_ = [h for h in (33, 64, 65, 66, 100, 129, 130) if huge[0] <= h <= huge[1]]
        n = draw(st.one_of(st.integers(*huge), st.sampled_from(round_)) if round_ else st.integers(*huge))
        return big_robot(n, draw(SEED), topo or draw(st.sampled_from(["chain", "chain", "cater", "random", "star"])), min_mov, link_origin)
    if big and draw(st.integers(0, 9)) == 0:
        n = draw(st.integers(max_n, max_n * 4))
        seed = draw(SEED)
        return big_robot(n, seed, draw(st.sampled_from(["chain", "star", "random", "cater"])), min_mov, link_origin)
    n = draw(st.integers(max(min_n, min_mov + 1), max(max_n, min_mov + 1)))
    topo = topo or draw(st.sampled_from(["chain", "random", "cater", "star", "random"]))
    tm = types or draw(st.sampled_from(["mix", "mix", "mix", "revolute", "prismatic", "rp", "sparse"]))
    names, jnames = draw(namesets(n))
    nodes = []
    for i in range(n):
        if i == 0:
            nodes.append(dict(name=names[0], jname=None, parent=-1, type="fixed", axis=[0.0, 0.0, 1.0],
                              lo=draw(origins()) if (root_offset and link_origin) else None,
                              jo=draw(origins()) if root_offset else None, lim=None, vel=None, eff=None))
            continue
        if topo == "chain":
            par = i - 1
        elif topo == "star":
            par = 0
        elif topo == "cater":
            par = max(0, i - 1 - draw(st.integers(0, 1)))
        else:
            par = draw(st.integers(0, i - 1))
        need = n - i <= min_mov - sum(x["type"] != "fixed" for x in nodes)
        if tm == "mix":
            t = draw(st.sampled_from(["revolute", "prismatic", "fixed", "revolute", "prismatic"]))
        elif tm == "rp":
            t = draw(st.sampled_from(["revolute", "prismatic"]))
        elif tm == "sparse":
            t = draw(st.sampled_from(["fixed", "fixed", "revolute", "prismatic"]))
        else:
            t = tm
        if need and t == "fixed":
            t = "revolute"
        nodes.append(dict(name=names[i], jname=jnames[i], parent=par, type=t, axis=draw(axes()),
                          lo=draw(origins()) if link_origin and draw(st.booleans()) else None,
                          jo=draw(origins()) if offsets else None,
                          lim=(draw(jlim) if jlim is not None else draw(limits())) if limited and t != "fixed" else None,
                          vel=draw(st.one_of(st.none(), num(0.1, 9))) if limited and t != "fixed" else None,
                          eff=draw(st.one_of(st.none(), num(0, 99, 10))) if limited and t != "fixed" else None))
    return {"nodes": nodes}


def big_robot(n, seed, topo, min_mov=0, link_origin=True):
    rng = np.random.RandomState(seed)
    nodes = []
    pn, pj = rng.permutation(n), rng.permutation(n)
    for i in range(n):
        par = -1 if i == 0 else {"chain": i - 1, "star": 0, "random": int(rng.randint(0, i)),
                                 "cater": max(0, i - 1 - int(rng.randint(0, 2)))}[topo]
        t = "fixed" if i == 0 else ["revolute", "prismatic", "fixed", "revolute"][int(rng.randint(0, 4))]
        if i and n - i <= min_mov - sum(x["type"] != "fixed" for x in nodes):
            t = "revolute"
        o = lambda: [round(float(x), 3) for x in np.concatenate([rng.uniform(-1, 1, 3), rng.uniform(-3, 3, 3)])]
        lim = sorted(round(float(x), 3) for x in rng.uniform(-5, 5, 2))
        nodes.append(dict(name="link%d" % pn[i], jname="joint%d" % pj[i] if i else None, parent=par, type=t,
                          axis=[round(float(x), 3) + 0.01 for x in rng.normal(size=3)],
                          lo=o() if link_origin and rng.rand() < .3 else None, jo=o() if rng.rand() < .8 else None,
                          lim=lim if t != "fixed" and rng.rand() < .7 else None, vel=None, eff=None))
    return {"nodes": nodes}


def serial_robots(**kw):
    return robots(topo="chain", **kw)


def children(robot):
    ch = [[] for _ in robot["nodes"]]
    for i, nd in enumerate(robot["nodes"]):
        if nd["parent"] >= 0:
            ch[nd["parent"]].append(i)
    return ch


def movable(robot):
    return [i for i, nd in enumerate(robot["nodes"]) if nd["type"] != "fixed"]


def path(robot, i):
    p = []
    while i >= 0:
        p.append(i)
        i = robot["nodes"][i]["parent"]
    return p[::-1]


def depth(robot):
    return max(len(path(robot, i)) for i in range(len(robot["nodes"])))


def branching(robot):
    return any(len(c) > 1 for c in children(robot))


def tt(M, dtype=torch.float64):
    return torch.tensor(np.asarray(M), dtype=dtype)


def build_frames(robot, order=None):
    """Frame objects of the robot in double precision; order: optional rank of nodes to order children by."""
    nodes = robot["nodes"]
    ch = children(robot)

    def off(o):
        return None if o is None else pk.Transform3d(matrix=tt(ref.origin(o))[None])

    def rec(i):
        nd = nodes[i]
        f = pk.Frame(nd["name"], link=pk.Link(nd["name"], offset=off(nd["lo"])),
                     joint=pk.Joint(nd["jname"], offset=off(nd["jo"]), joint_type=nd["type"], axis=tuple(nd["axis"]),
                                    dtype=torch.float64, limits=tuple(nd["lim"]) if nd["lim"] else None,
                                    velocity_limits=(-nd["vel"], nd["vel"]) if nd["vel"] is not None else None,
                                    effort_limits=(-nd["eff"], nd["eff"]) if nd["eff"] is not None else None))
        for c in sorted(ch[i], key=(lambda c: order[c]) if order else None):
            f.add_child(rec(c))
        return f

    return rec(0)


def build(robot, dtype="f64"):
    return pk.Chain(build_frames(robot), dtype=DT[dtype])


# ------------------------------------------------------------------ reference kinematics
class Model:
    """float64 reference of a robot case. Joint columns follow `joints` (node indices of movable joints)."""

    def __init__(self, robot):
        self.robot = robot
        self.nodes = robot["nodes"]
        self.joints = movable(robot)
        self.col = {j: k for k, j in enumerate(self.joints)}
        self.pre = [ref.origin(n["lo"]) @ ref.origin(n["jo"]) for n in self.nodes]
        self.axis = [np.asarray(n["axis"], float) / np.linalg.norm(n["axis"]) for n in self.nodes]
        self.index = {n["name"]: i for i, n in enumerate(self.nodes)}
        self.jindex = {n["jname"]: i for i, n in enumerate(self.nodes) if n["type"] != "fixed"}

    def motion(self, i, v):
        nd = self.nodes[i]
        v = np.asarray(v, float)
        if nd["type"] == "revolute":
            return ref.hom(ref.rodrigues(np.broadcast_to(self.axis[i], v.shape + (3,)), v), np.zeros(v.shape + (3,)))
        return ref.hom(np.broadcast_to(np.eye(3), v.shape + (3, 3)), v[..., None] * self.axis[i])

    def fk(self, Q):
        """Q (B, n_movable) in self.joints order -> (n_nodes, B, 4, 4)."""
        Q = np.asarray(Q, float)
        out = []
        for i, nd in enumerate(self.nodes):
            m = self.pre[i]
            if nd["type"] != "fixed":
                m = m @ self.motion(i, Q[:, self.col[i]])
            p = out[nd["parent"]] if nd["parent"] >= 0 else np.eye(4)
            out.append(np.broadcast_to(p @ m, (Q.shape[0], 4, 4)))
        return np.stack(out)

    def reach(self, Q=None):
        r = 1.0 + sum(np.linalg.norm(p[:3, 3]) for p in self.pre)
        pris = [self.col[j] for j in self.joints if self.nodes[j]["type"] == "prismatic"]
        if Q is not None and np.asarray(Q).size and np.asarray(Q).shape[1] != len(self.joints):
            r += np.abs(np.asarray(Q)).sum(1).max()
        elif Q is not None and len(pris) and np.asarray(Q).size:
            r += np.abs(np.asarray(Q)[:, pris]).sum(1).max()
        return r

    def tol(self, dtype, Q=None):
        d = depth(self.robot)
        return (3e-7 * (d + 3) if dtype == "f32" else 1e-13 * (d + 10)) * 5 * self.reach(Q)

    def subtree(self, i):
        return [k for k in range(len(self.nodes)) if i in path(self.robot, k)]

    # serial part root->tip: numeric kinematics relative to root (root's own offsets and joint excluded)
    def serial_path(self, a, b):
        p = path(self.robot, b)
        return p[p.index(a):]

    def rel(self, F, a, i):
        return np.linalg.inv(F[a]) @ F[i]

    def serial_joints(self, a, b):
        return [i for i in self.serial_path(a, b)[1:] if self.nodes[i]["type"] != "fixed"]

    def serial_fk(self, a, b, q, tool=None):
        """q (B, m) over serial_joints(a, b): pose of b (times tool) in frame a, (B, 4, 4)."""
        q = np.asarray(q, float)
        js = self.serial_joints(a, b)
        T = np.broadcast_to(np.eye(4), (q.shape[0], 4, 4))
        for i in self.serial_path(a, b)[1:]:
            T = T @ self.pre[i]
            if i in js:
                T = T @ self.motion(i, q[:, js.index(i)])
        return T if tool is None else T @ tool

    def serial_jac(self, a, b, q, tool=None):
        """Geometric Jacobian by screw axes: (B, 6, m)."""
        q = np.asarray(q, float)
        js = self.serial_joints(a, b)
        B = q.shape[0]
        end = self.serial_fk(a, b, q, tool)[:, :3, 3]
        J = np.zeros((B, 6, len(js)))
        T = np.broadcast_to(np.eye(4), (B, 4, 4))
        for i in self.serial_path(a, b)[1:]:
            T = T @ self.pre[i]
            if i in js:
                k = js.index(i)
                z = T[:, :3, :3] @ self.axis[i]
                if self.nodes[i]["type"] == "revolute":
                    J[:, :3, k] = np.cross(z, end - T[:, :3, 3])
                    J[:, 3:, k] = z
                else:
                    J[:, :3, k] = z
                T = T @ self.motion(i, q[:, k])
        return J


# ------------------------------------------------------------------ configurations
@st.composite
def configs(draw, nj, batch=BATCH):
    """Explicit rows for small batches, seeded rows for large ones."""
    b = draw(batch)
    if b * nj <= 40:
        return {"rows": [[draw(QVAL) for _ in range(nj)] for _ in range(b)]}
    return {"seed": draw(SEED), "n": b, "scale": draw(st.sampled_from([0.5, 3.2, 10.0]))}


def rows(c, nj):
    if "rows" in c:
        return np.array(c["rows"], float).reshape(len(c["rows"]), nj)
    rng = np.random.RandomState(c["seed"])
    return np.round(rng.uniform(-c["scale"], c["scale"], (c["n"], nj)), 4)


@st.composite
def robot_config(draw, batch=BATCH, **kw):
    r = draw(robots(**kw))
    return {"robot": r, "q": draw(configs(len(movable(r)), batch)), "dtype": draw(DTYPE)}


def cast(Q, dtype):
    """Round to the precision under test, as float64."""
    return np.asarray(Q, np.float32).astype(float) if dtype == "f32" else np.asarray(Q, float)


def to_chain_order(chain, model, Q):
    """Columns of Q (model.joints order) in the order in which the chain reports its joint names."""
    names = chain.get_joint_parameter_names()
    return Q[:, [model.col[model.jindex[n]] for n in names]] if len(names) else Q[:, :0]


# ------------------------------------------------------------------ rotations
@st.composite
def unit3(draw):
    k = draw(st.integers(0, 6))
    if k < 3:
        v = [0.0, 0.0, 0.0]
        v[k] = float(draw(st.sampled_from([1, -1])))
        return v
    v = [draw(num(-1, 1, 1000)) for _ in range(3)]
    if k == 3:
        v[draw(st.integers(0, 2))] = 0.0
    n = math.sqrt(sum(x * x for x in v))
    if n < 0.05:
        return [0.0, 0.6, 0.8]
    return [x / n for x in v]


ROTANGLE = st.one_of(num(0, 3.1415, 10000), num(0, 3.1415, 10000),
                     st.sampled_from([0.0, PI, PI / 2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-12, PI - 1e-3, PI - 1e-5,
                                      PI - 1e-7, 2 * PI / 3, PI / 4, PI / 3]))


@st.composite
def rotvecs(draw, angle=ROTANGLE):
    u, a = draw(unit3()), draw(angle)
    return [x * a for x in u]


SMALL_SHAPES = [[], [1], [2], [3], [4], [5], [7], [2, 3], [1, 1], [3, 1, 2], [4, 4], [3, 3], [2, 2, 2, 1]]
BIG_SHAPES = [[300], [1030], [41, 3], [2, 1025], [3000]]
SHAPES = st.sampled_from(SMALL_SHAPES * 5 + BIG_SHAPES)


@st.composite
def rot_batches(draw, shapes=SHAPES, angle=ROTANGLE):
    sh = draw(shapes)
    n = int(np.prod(sh)) if sh else 1
    if n > 1 and draw(st.integers(0, 7)) == 7:  # the same rotation everywhere
        return {"shape": sh, "v": [draw(rotvecs(angle))] * n}
    if n <= 8:
        return {"shape": sh, "v": [draw(rotvecs(angle)) for _ in range(n)]}
    return {"shape": sh, "v": [draw(rotvecs(angle)) for _ in range(4)], "seed": draw(SEED)}


def rb_array(rb, last=(3,)):
    v = list(rb["v"])
    n = int(np.prod(rb["shape"])) if rb["shape"] else 1
    if len(v) < n:
        rng = np.random.RandomState(rb["seed"])
        at = rng.permutation(n)[:len(v)]  # the explicit ones anywhere
        u = rng.normal(size=(n, 3))
        ang = np.where(rng.rand(n) < 0.8, rng.uniform(0, PI, n), rng.choice([0.0, 1e-6, 1e-4, PI - 1e-4, PI / 2], n))
        w = u / np.linalg.norm(u, axis=1, keepdims=True) * ang[:, None]
        w[at] = v
        v = w
    return np.array(v, float).reshape(tuple(rb["shape"]) + last)


# ------------------------------------------------------------------ comparison
def arr(x):
    if isinstance(x, torch.Tensor):
        x = x.detach().cpu().numpy()
    return np.asarray(x, float)


def diff(a, b):
    """Largest absolute difference; inf when shapes differ or something is not finite."""
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return INF
    if a.size == 0:
        return 0.0
    d = np.abs(a - b)
    if not np.all(np.isfinite(d)):
        d = np.where((a == b), 0.0, d)
        if not np.all(np.isfinite(d)):
            return INF
    return float(d.max())
