"""Arguments are bitwise the same after every call; results do not alias the robot, the transform or later results."""
import copy
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, fail, require
from .. import gen, tfgen
from . import c02, c05, c21
from pytorch_kinematics.transforms import rotation_conversions as rc, so3
from pytorch_kinematics.transforms.perturbation import sample_perturbations
from pytorch_kinematics.ik import delta_pose

warnings.simplefilter("ignore")


# ------------------------------------------------------------------ snapshots of arguments
def snap(x):
    if torch.is_tensor(x):
        return ("t", x.detach().clone(), x._version, x.requires_grad, x.dtype, tuple(x.shape), tuple(x.stride()))
    if isinstance(x, np.ndarray):
        return ("n", x.copy(), x.dtype, x.shape, x.flags.writeable)
    if isinstance(x, pk.Transform3d):
        return ("T", snap(x.get_matrix()), x.dtype, str(x.device))
    if isinstance(x, dict):
        return ("d", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ("l", type(x), [snap(v) for v in x])
    return ("o", copy.deepcopy(x))


def eq(a, b):
    if type(a) is not type(b):
        return False
    if torch.is_tensor(a):
        return a.shape == b.shape and a.dtype == b.dtype and bool(((a == b) | (a.isnan() & b.isnan() if a.is_floating_point() else a == b)).all())
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


def flat(x):
    """Tensors and arrays inside a result."""
    if torch.is_tensor(x) or isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, pk.Transform3d):
        return [x.get_matrix()]
    if isinstance(x, dict):
        return [t for k in sorted(x) for t in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [t for v in x for t in flat(v)]
    if hasattr(x, "solutions"):
        return [x.solutions, x.converged, x.err_pos, x.err_rot, x.converged_any]
    return []


def vals(x):
    return [gen.arr(t).copy() for t in flat(x)]


def spoil(x):
    """Overwrite a result in place."""
    for t in flat(x):
        if torch.is_tensor(t):
            with torch.no_grad():
                try:
                    t.detach().fill_(True if t.dtype == torch.bool else 7)
                except RuntimeError:  # expanded memory cannot be written to
                    pass
        elif t.flags.writeable:
            t.fill(7)


def call(name, fn, args, rec, again=True, alias=False, tol=0.0, seed=None):
    """Run fn(*args) and look at the arguments; spoil the result and run it again."""
    def go():
        if seed is not None:
            torch.manual_seed(seed)
        return fn(*args)
    before = [snap(a) for a in args]
    r = go()
    for i, (a, b) in enumerate(zip(args, before)):
        require(eq(snap(a), b), lambda: "%s modified its argument %d" % (name, i))
    v = vals(r)
    if again:
        if not alias:  # a result that is a view of an argument of the caller may be written through
            spoil(r)
            r2 = go()
        else:
            r2 = go()
        v2 = vals(r2)
        require(len(v) == len(v2), lambda: "%s returns something else the second time" % name)
        for x, y in zip(v, v2):
            close(y, x, tol, "%s called again%s" % (name, "" if alias else " after its first result was overwritten"))
    rec.label(name)
    return v


# ------------------------------------------------------------------ conversions
VIEW = {"matrix_to_pos_rot/pos", "so3_relative_angle"}  # documented slices of the argument


def variants(x, k, dt, grad):
    t = torch.tensor(x, dtype=dt)
    if k == 1 and t.dim() >= 1:
        t = torch.stack([t, t], -1)[..., 0]
    elif k == 2 and t.dim() >= 1 and t.shape[0] == 1:
        t = t.expand(*t.shape)
    elif k == 3 and t.dim() >= 2:
        t = t.transpose(0, -1).contiguous().transpose(0, -1)
    elif k == 4 and t.dim() >= 2 and t.numel() and torch.equal(t, t[:1].expand_as(t)):
        t = t[:1].clone().expand(t.shape)
    elif k == 5 and t.dim() >= 2 and t.numel():
        t = t.movedim(-1, 0).contiguous().movedim(0, -1)
    return t.detach().requires_grad_(True) if grad else t


def conversions(case, rec):
    name, dtype = case["fn"], case["dtype"]
    dt = gen.DT[dtype]
    extra = {"hat": (so3.hat, ["v"], True), "hat_inv": (lambda v: so3.hat_inv(so3.hat(v)), ["v"], True), "quaternion_close": (pk.quaternion_close, ["q", "q"], False),
             "matrix_to_euler_angles": (lambda R: pk.matrix_to_euler_angles(R, case["conv"]), ["R"], False),
             "matrix_to_pos_rot": (pk.matrix_to_pos_rot, ["H"], False)}
    if name in extra:
        fn, kinds, fl = extra[name]
    else:
        F = c21.TAB.get(name) or c21.euler_entry(name, case["seq"] if name == "quaternion_from_euler" else case["conv"])
        fn, kinds, fl = F.fn, F.args, F.flat
    v = gen.rb_array(case["rb"]).reshape(-1, 3)
    shape = tuple(case["rb"]["shape"])
    n = len(v)
    if fl:
        if name == "transform from euler" and n == 3:
            v, n = v[:2], 2
        shape = (n,)
    pts = []
    for j, k in enumerate(kinds):
        pts.append(c21.rel_q(pts[0], case, n) if k == "q2" else c21.points(k, v if j == 0 else np.roll(v, 1, 0) * 0.8, case, n))
    mk = lambda grad: [variants(p.reshape(shape + p.shape[1:]), case["layout"], dt, grad) for p in pts]
    plain = mk(False)
    alias = name in ("matrix_to_pos_rot/pos", "matrix_to_pos_rot", "transform from quaternion")
    a = call(name, fn, plain, rec, alias=alias)
    # inputs that require gradients (any in-place write into a leaf raises)
    g = mk(True)
    b = call(name + " with gradients", fn, g, rec, alias=alias)
    for x, y in zip(a, b):
        close(y, x, 4 * tfgen.EPS[dtype] * (1 + np.abs(x).max() if x.size else 1), "%s of inputs that require gradients" % name)
    # frozen input: the same storage read by another tensor
    rec.label(dtype)
    rec.nt(n > 0)


# ------------------------------------------------------------------ robots
def robot(case, rec):
    m, chain, a, b, js, q, names = c05.serial_setup(case)
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    tree = gen.build(case["robot"], dtype)
    rng = np.random.RandomState(case["seed"])
    tn = tree.get_joint_parameter_names()
    Qt = gen.cast(np.round(rng.uniform(-2, 2, (len(q), len(tn))), 3), dtype)
    perm = case["perm"]
    require(len(names) == q.shape[1], "joint count")
    rec.nt(len(names) >= 2)
    first = {}
    fr = tree.get_frame_names(exclude_fixed=False)

    def arg(which, form, grad=False):
        R, nm = (q, names) if which == "serial" else (Qt, tn)
        if len(nm) == 0:
            return torch.zeros((len(R), 0), dtype=dt)
        if grad:
            t = torch.tensor(R, dtype=dt)
            t = t if form % 2 else torch.stack([t, t], -1)[..., 0].detach()
            return t.requires_grad_(True)
        forms = (c02.FORMS1 if len(R) == 1 else []) + c02.FORMSB
        f = forms[form % len(forms)]
        if f == "dint" or f == "n1f32":
            f = "t2"
        rec.label("form_" + f)
        return c02.make(f, nm, R, dtype, perm)

    B = len(q)
    tool, _ = c05.make_tool(case, B, dt)
    tens = lambda form, which: torch.tensor(q if which == "serial" else Qt, dtype=dt)
    for op, form in case["ops"]:
        if op == "fk":
            x = arg("tree", form)
            v = call("tree fk", lambda x: tree.forward_kinematics(x), [x], rec)
        elif op == "fk_sub":
            idx = tree.get_frame_indices(*[fr[i % len(fr)] for i in case["idx"]])
            v = call("tree fk of some frames", lambda x, i: tree.forward_kinematics(x, i), [arg("tree", form), idx], rec)
        elif op == "fk_tensor":
            x = tens(form, "tree")
            v = call("tree fk tensor", lambda x: tree.forward_kinematics_tensor(x, analytical_grad=bool(form % 2)), [x], rec)
        elif op == "sfk":
            v = call("serial fk", lambda x: chain.forward_kinematics(x, end_only=bool(form % 2)), [arg("serial", form)], rec)
        elif op == "jac":
            v = call("jacobian", lambda x: chain.jacobian(x, ret_eef_pose=bool(form % 2)), [arg("serial", form)], rec)
        elif op == "jac_tool":
            if B == 1 and tool is not None and len(tool) > 1:
                continue
            v = call("jacobian with a tool", lambda x, t: chain.jacobian(x, locations=t, ret_eef_pose=True), [arg("serial", 2 + form % 2 * 0 if B == 1 else 0), tool], rec)
        elif op == "jac_tensor":
            v = call("jacobian tensor", lambda x: chain.jacobian_tensor(x, bool(form % 2)), [tens(form, "serial")], rec)
        elif op == "jac_pre":
            x = tens(form, "serial")
            T = chain.forward_kinematics_tensor(x)
            v = call("jacobian from poses", lambda x, T: chain.jacobian_tensor(x, True, all_transforms=T), [x, T], rec, alias=True)
        elif op == "clamp":
            x = arg("tree", form)
            v = call("clamp", lambda x: tree.clamp(x), [x], rec, alias=True)
        elif op == "limits":
            lims = tree.get_joint_limits()
            v = [np.array(lims, float)]
            for l in lims:
                if isinstance(l, list):
                    l[:] = [123.0] * len(l)
            close(np.array(tree.get_joint_limits(), float), v[0], 0, "limits after the returned lists were overwritten")
        elif op == "extract":
            s2 = pk.SerialChain(tree, m.nodes[b]["name"], m.nodes[a]["name"] if case["base"] is not None else "")
            y = s2.forward_kinematics(tens(form, "serial"), end_only=False)
            v = vals(y)
            spoil(y)
        else:  # with gradients
            t = arg("serial", form, grad=True)
            call("serial fk with gradients", lambda x: chain.forward_kinematics(x, end_only=False), [t], rec)
            call("jacobian with gradients", lambda x: chain.jacobian(x, ret_eef_pose=True), [t], rec)
            t2 = arg("tree", form, grad=True)
            v = call("tree fk with gradients", lambda x: tree.forward_kinematics(x), [t2], rec)
            call("clamp with gradients", lambda x: tree.clamp(x), [t2], rec, alias=True)
            if len(names):
                d = {n: t2[..., i] for i, n in enumerate(tn)}
                call("tree fk of a mapping with gradients", lambda x: tree.forward_kinematics(x), [d], rec)
            # backward leaves the input alone too
            if not len(names):
                continue
            before = snap(t)
            sum(p.get_matrix().sum() for p in chain.forward_kinematics(t, end_only=False).values()).backward()
            chain.jacobian(t).sum().backward()
            g0 = t.grad.clone()
            require(torch.equal(before[1], t.detach()), "backward modified the joint values")
            require(bool(torch.isfinite(g0).all()), "gradient")
        key = (op, form)
        if key in first:
            for x, y in zip(first[key], v):
                close(y, x, 0, "%s later in the history" % op)
        first.setdefault(key, [z.copy() for z in v])
    # the robot is what it was
    F = m.fk(Qt[:, [tn.index(m.nodes[j]["jname"]) for j in m.joints]] if len(tn) else Qt)
    P = tree.forward_kinematics(torch.tensor(Qt, dtype=dt))
    for i in range(len(m.nodes)):
        close(P[m.nodes[i]["name"]].get_matrix(), F[i], m.tol(dtype, Qt), "pose of %r after the history" % m.nodes[i]["name"])


# ------------------------------------------------------------------ transforms
def transforms(case, rec):
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    A, MA, _ = tfgen.build(case["a"], dtype)
    Bt, MB, _ = tfgen.build(case["b"], dtype)
    n = len(MA)
    rng = np.random.RandomState(case["seed"])
    grad = case["grad"]
    pts = torch.tensor(np.round(rng.uniform(-2, 2, (n, 3, 3) if case["dim3"] else (3, 3)), 3), dtype=dt)
    sh = torch.tensor(np.round(rng.uniform(-2, 2, (3, 3, 3)), 3), dtype=dt)
    if grad:
        pts.requires_grad_(True)
        sh.requires_grad_(True)
    ok = len(MB) == n or 1 in (n, len(MB))
    rec.nt(case["a"]["k"] != "ident")
    T0 = gen.arr(A.get_matrix()).copy()
    good = float(np.linalg.cond(MA).max()) < 1e6
    for op in case["ops"]:
        if op == "compose" and ok:
            call("compose", lambda a, b: a.compose(b), [A, Bt], rec)
            call("compose twice", lambda a, b: a.compose(b, b), [A, Bt], rec)
        elif op == "inverse" and good:
            call("inverse", lambda a: a.inverse(), [A], rec)
        elif op == "stack":
            call("stack", lambda a, b: a.stack(b, a), [A, Bt], rec)
            call("stack of nothing", lambda a: a.stack(), [A], rec)
        elif op == "clone":
            call("clone", lambda a: a.clone(), [A], rec)
            call("copy", lambda a: a.to("cpu", copy=True), [A], rec)
        elif op == "convert":
            other = torch.float32 if dtype == "f64" else torch.float64
            call("convert", lambda a: a.to("cpu", dtype=other), [A], rec)
        elif op == "points":
            call("points", lambda a, p: a.transform_points(p), [A, pts], rec)
            call("points with eps", lambda a, p: a.transform_points(p, eps=1e-4), [A, pts], rec)
            if case["dim3"] or n == 3 or n == 1:
                call("points one-to-one", lambda a, p: a.transform_points(p, batch_to_batch=True), [A, pts], rec)
        elif op == "normals" and good:
            call("normals", lambda a, p: a.transform_normals(p), [A, pts], rec)
        elif op == "shape" and good:
            call("shape operators", lambda a, p: a.transform_shape_operator(p), [A, sh], rec)
        elif op == "build":
            call("chained building", lambda a: a.translate(1, 2, 3.5).rotate_axis_angle(30.0, "Y", dtype=dt).scale(2.0), [A], rec)
            t3 = torch.tensor(np.round(rng.uniform(-2, 2, (1, 3)), 3), dtype=dt)
            call("translation of a tensor", lambda a, t: a.translate(t), [A, t3], rec)
            call("scale of a tensor", lambda a, t: a.scale(t), [A, t3], rec)
        elif op == "ctor":
            p = torch.tensor(np.round(rng.uniform(-2, 2, (n, 3)), 3), dtype=dt)
            R = pk.random_rotations(n, dtype=dt)
            M = A.get_matrix().clone()
            if grad:
                for z in (p, R, M):
                    z.requires_grad_(True)
            call("transform from matrix, position and rotation", lambda M, p, R: pk.Transform3d(matrix=M, pos=p, rot=R), [M, p, R], rec)
            call("transform from matrix and position", lambda M, p: pk.Transform3d(matrix=M, pos=p), [M, p], rec)
            call("transform from matrix and rotation", lambda M, R: pk.Transform3d(matrix=M, rot=R), [M, R], rec)
            call("transform from position and rotation", lambda p, R: pk.Transform3d(pos=p, rot=R, dtype=dt), [p, R], rec)
            call("transform from lists", lambda p, R: pk.Transform3d(pos=p, rot=R, dtype=dt), [gen.arr(p).tolist(), gen.arr(R).tolist()], rec)
            call("rotation", lambda R: pk.Rotate(R, dtype=dt), [R], rec)
            call("translation", lambda p: pk.Translate(p, dtype=dt), [p], rec)
            call("scaling", lambda p: pk.Scale(p, dtype=dt), [p], rec)
            call("translation by coordinates", lambda x, y, z: pk.Translate(x, y, z, dtype=dt), [p[:, 0].clone().detach(), 2.0, p[:1, 2].clone().detach()], rec)
            call("scaling by numbers", lambda x: pk.Scale(x, dtype=dt), [p[:, 0].clone().detach()], rec)
            ang = p[:, 0].clone().detach().requires_grad_(grad)
            call("rotation about an axis", lambda x: pk.RotateAxisAngle(x, "X", dtype=dt), [ang], rec)
        elif op == "perturb":
            call("perturbations", lambda a: a.sample_perturbations(n if n > 1 else 4, 0.1, 0.2), [A], rec, seed=case["seed"])
            M = A.get_matrix()[0].clone()
            ax = torch.tensor([0.0, 0.6, 0.8], dtype=dt)
            call("perturbations about an axis", lambda M, ax: sample_perturbations(M, 4, 0.1, 0.2, axis_of_rotation=ax), [M, ax], rec, seed=case["seed"])
        elif op == "repr":
            call("text", lambda a: repr(a), [A], rec)
            call("length", lambda a: len(a), [A], rec)
            call("indexing", lambda a: a[[0]], [A], rec)
    close(A.get_matrix(), T0, 0, "transform after the history")


# ------------------------------------------------------------------ inverse kinematics
def ik(case, rec):
    m, chain, a, b, js, q, names = c05.serial_setup(dict(case, tip=None, base=None))
    if not names:
        return
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    rng = np.random.RandomState(case["seed"])
    n, M = case["n"], case["m"]
    lim = torch.tensor(np.stack([np.full(len(names), -1.5), np.full(len(names), 1.5)], 1), dtype=dt)
    x = torch.tensor(np.round(rng.uniform(-1.2, 1.2, (n, len(names))), 3), dtype=dt)
    with torch.no_grad():
        G = chain.forward_kinematics(x).get_matrix().clone()
    retry = torch.tensor(np.round(rng.uniform(-1.2, 1.2, (M, len(names))), 3), dtype=dt)
    if case["near"]:
        retry[0] = x[0] + 0.01
    if case["grad"]:
        G.requires_grad_(True)
        retry.requires_grad_(True)
    target = pk.Transform3d(matrix=G)
    cls = pk.PseudoInverseIKWithSVD if case["svd"] else pk.PseudoInverseIK
    kw = dict(max_iterations=case["iters"], lr=0.5, enforce_joint_limits=case["enforce"], num_limit_refinement_iterations=2, clamp_to_limits=case["clamp"])
    if case["ls"]:
        kw["line_search"] = pk.BacktrackingLineSearch(max_lr=1.0)
    if case["src"] == "given":
        kw["retry_configs"] = retry
    else:
        kw.update(num_retries=M, joint_limits=lim, config_sampling_method=case["src"] if case["src"] != "around" else pk.gaussian_around_config(retry[0].detach(), 0.1))
    before = [snap(z) for z in (G, retry, lim, target)]
    solver = cls(chain, **kw)
    init = solver.initial_config.detach().clone()
    s1 = solver.solve(target)
    v1 = vals(s1)
    for z, z0, nm in zip((G, retry, lim, target), before, ("target matrices", "initial configurations", "sampling limits", "target transform")):
        require(eq(snap(z), z0), lambda: "solving modified the " + nm)
    require(torch.equal(solver.initial_config.detach(), init), "solving modified the initial configurations of the solver")
    spoil(s1)
    for z, z0, nm in zip((G, retry, lim, target), before, ("target matrices", "initial configurations", "sampling limits", "target transform")):
        require(eq(snap(z), z0), lambda: "writing into a solution modified the " + nm)
    s2 = solver.solve(target)
    for y, z in zip(vals(s2), v1):
        close(y, z, 0, "solving again after the first solution was overwritten")
    rec.label(case["src"], "svd" if case["svd"] else "dls", "line search" if case["ls"] else None, dtype)
    rec.nt(len(names) >= 2)
    # the error of given poses
    W = pk.matrix_to_quaternion(G.detach()[:, :3, :3])
    P = G.detach().clone().reshape(n, 1, 4, 4)
    args = [P, G.detach()[:, :3, 3].clone(), W]
    if case["grad"]:
        args = [z.requires_grad_(True) for z in args]
    call("pose error", lambda a, b, c: delta_pose(a, b, c), args, rec)
    buf = torch.zeros(n, 6, 1, dtype=dt)
    r = delta_pose(*[z.detach() for z in args], out=buf)
    require(r[0] is buf, "the given buffer is returned")


OPS = ["fk", "fk_sub", "fk_tensor", "sfk", "jac", "jac_tool", "jac_tensor", "jac_pre", "clamp", "limits", "extract", "grad"]
TOPS = ["compose", "inverse", "stack", "clone", "convert", "points", "normals", "shape", "build", "ctor", "perturb", "repr"]
NAMES = c21.NAMES + ["hat", "hat_inv", "quaternion_close", "matrix_to_euler_angles", "matrix_to_pos_rot"]


@st.composite
def robots(draw):
    d = draw(c05.cases())
    d["ops"] = [list(x) for x in draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 9)), min_size=3, max_size=7))]
    d["idx"] = draw(st.lists(st.integers(0, 20), min_size=1, max_size=4))
    d["seed"] = draw(gen.SEED)
    d["perm"] = draw(gen.SEED)
    return d


@st.composite
def tcases(draw):
    n = draw(tfgen.NB)
    return dict(a=draw(tfgen.leaf(n)), b=draw(tfgen.leaf(draw(st.sampled_from([1, n])))), dtype=draw(gen.DTYPE), seed=draw(gen.SEED), grad=draw(st.booleans()),
                dim3=draw(st.booleans()), ops=draw(st.lists(st.sampled_from(TOPS), min_size=2, max_size=6)))


@st.composite
def iks(draw):
    d = draw(c05.cases(tree=False))
    d.update(n=draw(st.integers(1, 3)), m=draw(st.integers(1, 3)), seed=draw(gen.SEED), grad=draw(st.booleans()), svd=draw(st.booleans()), ls=draw(st.booleans()), near=draw(st.booleans()),
             iters=draw(st.integers(1, 5)), enforce=draw(st.booleans()), clamp=draw(st.booleans()), src=draw(st.sampled_from(["given", "given", "uniform", "gaussian", "around"])))
    return d


CHECK = Check("C22", [
    Facet("conversions", st.fixed_dictionaries(dict(c21.COMMON, fn=st.sampled_from(NAMES), signs=st.lists(st.booleans(), min_size=1, max_size=3), layout=st.integers(0, 5),
                                                    x=st.lists(gen.num(-2, 2), min_size=9, max_size=14), k=st.sampled_from([1.0, -1.0, 2.5]),
                                                    rel=st.lists(st.sampled_from(["any", "same", "tiny", "near"]), min_size=1, max_size=3))), conversions, 1500, 30000, shards=2),
    Facet("robots", robots(), robot, 600, 15000, shards=4),
    Facet("transforms", tcases(), transforms, 800, 20000, shards=2),
    Facet("inverse kinematics", iks(), ik, 240, 8000, shards=3),
], rule="a chain with at least two movable joints, a transform other than the identity, or a non-empty batch of rotations",
    assumptions=["results documented as parts of an argument (the position of a matrix, a view by indexing, a transform around a given matrix) may share its memory"])
