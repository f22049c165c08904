"""Compiled against eager execution: poses, Jacobians, gradients, solver solutions, conversions."""
import functools
import os
import shutil
import tempfile
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, fail, require
from .. import gen, ikgen, tfgen
from . import c05, c21

warnings.simplefilter("ignore")
os.environ.setdefault("TORCHINDUCTOR_COMPILE_THREADS", "1")
os.environ.setdefault("TORCHINDUCTOR_FX_GRAPH_CACHE", "0")
os.environ.setdefault("TORCHINDUCTOR_AUTOGRAD_CACHE", "0")
COMPILE = torch.compile


class scratch:
    """A compiler cache of its own, removed at the end; a fresh compiler state."""

    def __enter__(self):
        import torch._dynamo
        torch._dynamo.reset()
        self.d = tempfile.mkdtemp(prefix="pkv-compile-")
        os.environ["TORCHINDUCTOR_CACHE_DIR"] = self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
        torch._dynamo.reset()


def values(y):
    return list(y) if isinstance(y, (list, tuple)) else [y]


def compare(f, g, x, W, tol, gtol, grad, what):
    """f eager, g compiled, at x; W: seeds of the weights of the sum that is differentiated."""
    xs = [x.clone().requires_grad_(grad) for _ in range(2)]
    keep = x.clone()
    ye, yc = values(f(xs[0])), values(g(xs[1]))
    require(len(ye) == len(yc), lambda: "%s: %d results instead of %d" % (what, len(yc), len(ye)))
    for a, b in zip(ye, yc):
        require(a.dtype == b.dtype and a.shape == b.shape, lambda: "%s: %s of shape %s instead of %s of shape %s" % (what, b.dtype, tuple(b.shape), a.dtype, tuple(a.shape)))
        close(b, gen.arr(a), tol, what)
    require(torch.equal(xs[1].detach(), keep), lambda: "%s: the compiled call modified its argument" % what)
    if grad:
        rng = np.random.RandomState(W)
        w = [torch.tensor(rng.normal(size=tuple(a.shape)), dtype=a.dtype) for a in ye]
        if not ye[0].requires_grad:
            return
        for y in (ye, yc):
            sum((a * b).sum() for a, b in zip(y, w)).backward()
        close(xs[1].grad, gen.arr(xs[0].grad), gtol, "%s: gradient" % what)


def kernels(case, rec):
    m, chain, a, b, js, q, names = c05.serial_setup(case)
    tree = gen.build(case["robot"], case["dtype"])
    dt = gen.DT[case["dtype"]]
    fn, be = case["fn"], case["backend"]
    if be == "none":  # the simplest case of every shard: leave the time to the others
        return
    nj = len(tree.get_joint_parameter_names()) if fn.startswith("tree") else len(names)
    if fn.startswith("jac") and nj == 0:
        return
    f = {"tree": tree.forward_kinematics_tensor, "tree autograd": lambda x: tree.forward_kinematics_tensor(x, analytical_grad=False),
         "serial": chain.forward_kinematics_tensor, "jac": chain.jacobian_tensor, "jac pose": lambda x: chain.jacobian_tensor(x, True)}[fn]
    rng = np.random.RandomState(case["seed"])
    tol = m.tol(case["dtype"], np.full((1, max(nj, 1)), 3.0)) * 4
    with scratch():
        kw = dict(backend=be, fullgraph=True)
        if case["dynamic"]:
            kw["dynamic"] = True
        g = COMPILE(f, **kw)
        for k, B in enumerate(case["batches"]):
            x = torch.tensor(rng.uniform(-3, 3, (B, nj)), dtype=dt)
            grad = bool(case["grads"][k % len(case["grads"])]) and nj > 0
            with torch.no_grad() if (case["nograd"] and not grad) else torch.enable_grad():
                compare(f, g, x, case["seed"] + k, tol, tol * 30 * (len(m.nodes) + nj) * (1 + m.reach()), grad, "compiled (%s) %s of batch %d, number %d of %s" % (be, fn, B, k, case["batches"]))
    rec.label(fn, be, case["dtype"], "dynamic" if case["dynamic"] else None, "gradients" if any(case["grads"]) else None, *["%s" % t for t in {n["type"] for n in m.nodes}])
    rec.nt(nj >= 1 and len(set(case["batches"])) > 1)


def solver(case, rec):
    """The flag of the solver; its kernels compiled by a given backend."""
    p = ikgen.Problem(case)
    s = dict(case["s"])
    jig = p.Xt + 1e-11
    run = lambda **kw: ikgen.solver(s, p.chain, **kw)
    with scratch():
        torch.compile = functools.partial(COMPILE, backend=case["backend"])
        try:
            kc = run(retry_configs=p.Xt.clone(), use_compile=True)
            for i in case["subsets"]:
                idx = list(range(p.N))[:max(1, i % (p.N + 1))]
                e = run(retry_configs=p.Xt.clone()).solve(p.target(idx))
                j = run(retry_configs=jig.clone()).solve(p.target(idx))
                c = kc.solve(p.target(idx))
                d = np.abs(gen.arr(e.solutions) - gen.arr(j.solutions)).max(-1)
                near = ~(d < 1e-7) | (gen.arr(e.converged) != gen.arr(j.converged))
                for nm in ("solutions", "err_pos", "err_rot", "converged"):
                    x, y = gen.arr(getattr(c, nm)), gen.arr(getattr(e, nm))
                    require(x.shape == y.shape and getattr(c, nm).dtype == getattr(e, nm).dtype, lambda: "%s of shape %s" % (nm, x.shape))
                    ok = np.abs(x - y) <= (1e-5 if nm != "converged" else 0)
                    bad = ~ok & ~(near[..., None] if x.ndim == 3 else near)
                    require(not bad.any(), lambda: "%s of the compiled solver: %s instead of %s" % (nm, x[bad].tolist()[:4], y[bad].tolist()[:4]))
                if not near.any():
                    require(int(c.iterations) == int(e.iterations), lambda: "%d iterations instead of %d" % (c.iterations, e.iterations))
        finally:
            torch.compile = COMPILE
    rec.label(case["backend"], "svd" if s["svd"] else "dls", "line search" if s["ls"] else None)
    rec.nt(p.dof >= 2)


NOT = ("axis_angle_to_matrix", "so3_log_map", "so3_relative_angle", "so3_rotation_angle")  # warn or check values in Python
NAMES = [n for n in c21.NAMES if n not in NOT]


def conversions(case, rec):
    name = case["fn"]
    dt = gen.DT[case["dtype"]]
    F = c21.TAB.get(name) or c21.euler_entry(name, case["seq"] if name == "quaternion_from_euler" else case["conv"])
    rng = np.random.RandomState(case["seed"])
    with scratch():
        f = F.fn
        g = COMPILE(f, backend=case["backend"], fullgraph=True)
        for k, n in enumerate(case["batches"]):
            v = np.resize(gen.rb_array(case["rb"]).reshape(-1, 3), (n, 3)) if k % 2 == 0 else rng.normal(size=(n, 3))
            pts = []
            for j, kind in enumerate(F.args):
                pts.append(c21.rel_q(pts[0], case, n) if kind == "q2" else c21.points(kind, v if j == 0 else np.roll(v, 1, 0) * 0.8, case, n))
            args = [torch.tensor(p, dtype=dt) for p in pts]
            tol = 40 * tfgen.EPS[case["dtype"]] * (1 + max(np.abs(p).max(initial=0) for p in pts)) ** 2
            if name == "transform from euler" and n == 3:
                continue
            ye, yc = f(*args), g(*args)
            require(ye.dtype == yc.dtype, "precision")
            close(yc, gen.arr(ye), np.where(np.isfinite(gen.arr(ye)), tol, np.inf), "compiled %s of a batch of %d, number %d of %s" % (name, n, k, case["batches"]))
    rec.label(name)
    rec.nt()


@st.composite
def kcases(draw, backends, batches=st.lists(st.one_of(st.integers(1, 6), st.sampled_from([1, 2, 33])), min_size=2, max_size=4), **kw):
    d = draw(c05.cases(**kw))
    d.update(fn=draw(st.sampled_from(["tree", "tree", "tree autograd", "serial", "jac", "jac", "jac pose"])), backend=draw(st.sampled_from(backends)), batches=draw(batches),
             grads=[draw(st.integers(0, 2)) == 0 for _ in range(4)], nograd=draw(st.integers(0, 3)) == 0, seed=draw(gen.SEED), dynamic=draw(st.integers(0, 3)) == 0)
    return d


@st.composite
def scases(draw, backends):
    d = draw(ikgen.problems(sett=ikgen.settings(iters=st.integers(1, 4), refine=st.integers(0, 2)), dtype=st.just("f64"), n=st.integers(1, 3), m=st.integers(1, 3), max_n=6))
    d.update(backend=draw(st.sampled_from(backends)), subsets=draw(st.lists(st.integers(0, 4), min_size=1, max_size=2)))
    return d


CHECK = Check("C28", [
    Facet("traced kernels", kcases(["aot_eager", "aot_eager", "eager"], max_n=7), kernels, 72, 2500, shards=4, case_timeout=300),
    Facet("deep kernels", kcases(["eager"], batches=st.lists(st.integers(1, 4), min_size=2, max_size=3), huge=(9, 20), topo="chain"), kernels, 24, 500, shards=4, case_timeout=300),
    Facet("native kernels", kcases(["none", "inductor", "inductor", "inductor"], batches=st.lists(st.integers(1, 5), min_size=2, max_size=3), max_n=4), kernels, 20, 300, shards=8, case_timeout=500),
    Facet("solver", scases(["aot_eager"]), solver, 32, 1200, shards=4, case_timeout=300),
    Facet("conversions", st.fixed_dictionaries(dict(c21.COMMON, fn=st.sampled_from(NAMES), signs=st.lists(st.booleans(), min_size=1, max_size=3), x=st.lists(gen.num(-2, 2), min_size=9, max_size=14), k=st.sampled_from([1.0, -1.0, 2.5]),
                                                    rel=st.lists(st.sampled_from(["any", "same", "tiny", "near"]), min_size=1, max_size=3), backend=st.sampled_from(["aot_eager", "eager"]),
                                                    batches=st.lists(st.integers(1, 9), min_size=2, max_size=3))), conversions, 100, 3000, shards=4, case_timeout=300),
], boost=1, rule="at least one joint and two different batch sizes through one compiled function; a chain of two joints for the solver",
    ambient=False, assumptions=["quick runs trace with the aot_eager and eager backends and generate native code for a few cases only",
                 "conversions that warn or check values in Python (axis_angle_to_matrix, so3_log_map, so3 angles) are not claimed to compile"])
