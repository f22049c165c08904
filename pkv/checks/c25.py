"""One solver iteration against the damped least-squares step computed in numpy; pose errors; convergence from nearby."""
import copy
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, fail, require
from .. import gen, ikgen, ref
from pytorch_kinematics.ik import delta_pose

warnings.simplefilter("ignore")


def search(p, s, q, dq, G, e0):
    """Step size of the backtracking line search, or None when a decision is within rounding."""
    ls = s["ls"]
    lr = ls["max_lr"]
    for _ in range(ls["max_iterations"]):
        T = p.fk(q + lr * dq)
        gain = e0 - np.linalg.norm(ikgen.dx(T, G))
        if abs(gain - ls["sufficient_decrease"]) < 1e-7 * (1 + e0) or abs(np.linalg.norm(ikgen.dx(T, G)[3:]) - np.pi) < 1e-3:
            return None
        if gain > ls["sufficient_decrease"]:
            break
        lr *= ls["decrease_factor"]
    return lr


def simulate(p, s, q, G, steps):
    """(expected configuration, bound of its rounding error) after `steps` iterations, or None where it is not determined."""
    q = q.copy()
    err = 0.0
    eps = ikgen.EPS[p.dtype]
    for _ in range(steps):
        T = p.fk(q)
        e = ikgen.dx(T, G)
        if np.linalg.norm(e[3:]) > np.pi - 1e-2:
            return None
        dq, cond, gain = ikgen.dls(p.jac(q[None])[0], e, s)
        lr = s["lr"]
        if s["ls"]:
            lr = search(p, s, q, dq, G, np.linalg.norm(e))
            if lr is None:
                return None
        q = q + lr * dq
        # a step is known up to the conditioning of the system; an earlier error is carried through the step
        scale = np.linalg.norm(dq) + gain + 1
        loss = (300 * eps * p.model.reach() * (1 + np.abs(q).max())) * cond * scale
        if s["ls"]:
            loss += 1e-6 * np.linalg.norm(dq)  # step sizes are single-precision numbers
        err = err * (1 + 20 * cond ** 0.5 * (1 + gain)) + loss
        if s["clamp"]:
            q = np.clip(q, p.lo, p.hi)
    return q, err


def step(case, rec):
    p = ikgen.Problem(case)
    s = dict(case["s"], enforce=False, any=False, no=None, ptol=0.0, rtol=0.0, iters=case["steps"])
    if s["ls"] and p.dtype == "f32":
        s["ls"] = None
    sols = {}
    for svd in (False, True):
        k = ikgen.solver(dict(s, svd=svd), p.chain, retry_configs=p.Xt.clone())
        sol = k.solve(p.target())
        sols[svd] = gen.arr(sol.solutions)
        require(int(sol.iterations) == s["iters"], lambda: "%d iterations instead of %d" % (sol.iterations, s["iters"]))
    bound = 2e-2 if p.dtype == "f32" else 1e-5
    n = 0
    for i in range(p.N):
        for j in range(p.M):
            r = simulate(p, s, p.X[j], p.Gc[i], s["iters"])
            if r is None or r[1] > bound:
                rec.label("ill-conditioned" if r else "ambiguous")
                continue
            n += 1
            for svd in (False, True):
                close(sols[svd][i, j], r[0], r[1] + 1e-12, "%s solver: configuration of attempt %d for target %d after %d step(s) from %s" % ("SVD" if svd else "default", j, i, s["iters"], p.X[j].tolist()))
    # first step must move by itself: something is compared
    rec.label("compared" if n else "nothing compared", "line search" if s["ls"] else "fixed step", "dof<6" if p.dof < 6 else "dof=6" if p.dof == 6 else "dof>6",
              "weights" if (s["pw"], s["ow"]) != (1.0, 1.0) else None, "steps %d" % s["iters"], p.dtype, "clamped" if s["clamp"] else None)
    rec.nt(n > 0 and p.dof >= 2)


def pose_error(case, rec):
    """delta_pose against positions and logarithms."""
    v, w = gen.rb_array(case["a"]).reshape(-1, 3), gen.rb_array(case["b"]).reshape(-1, 3)
    dt = gen.DT[case["dtype"]]
    rng = np.random.RandomState(case["seed"])
    N, M = len(w), case["m"]
    P = np.stack([[ref.hom(ref.expso3(v[rng.randint(len(v))]), rng.uniform(-2, 2, 3)) for _ in range(M)] for _ in range(N)])
    G = np.stack([ref.hom(ref.expso3(x), rng.uniform(-2, 2, 3)) for x in w])
    if case["near"]:
        for i in range(N):
            P[i, 0] = G[i] @ ref.hom(ref.expso3(rng.uniform(-1, 1, 3) * case["near"]), rng.uniform(-1, 1, 3) * case["near"])
    q = ref.R2q(G[:, :3, :3])
    sgn = np.where(rng.rand(N) < .5, -1, 1) if case["sign"] else np.ones(N)
    Pt, pt, qt = (torch.tensor(x, dtype=dt) for x in (P, G[:, :3, 3], q * sgn[:, None]))
    buf = torch.full((N * M, 6, 1), float("nan"), dtype=dt) if case["buf"] else None
    r = delta_pose(Pt, pt, qt, out=buf) if case["buf"] else delta_pose(Pt, pt, qt)
    require(len(r) == 3, "three results")
    dx, pos, rot = (gen.arr(x) for x in r)
    require(dx.shape == (N * M, 6, 1) and pos.shape == (N * M, 3, 1) and rot.shape == (N * M, 3, 1), lambda: "shapes %s %s %s" % (dx.shape, pos.shape, rot.shape))
    require(r[0].dtype == dt, "precision")
    f32 = case["dtype"] == "f32"
    tol = 3e-6 if f32 else 1e-13
    for i in range(N):
        for j in range(M):
            k = i * M + j
            e = ikgen.dx(P[i, j], G[i])
            close(pos[k, :, 0], e[:3], tol * 4, "position part")
            close(dx[k, :3, 0], e[:3], tol * 4, "position part of the error")
            close(dx[k, 3:, 0], rot[k, :, 0], 0, "rotation part of the error")
            a = np.linalg.norm(e[3:])
            require(np.linalg.norm(rot[k]) <= np.pi + tol * 10, "longer than half a turn")
            if a > np.pi - 1e-3:
                R = ref.expso3(rot[k, :, 0]) @ P[i, j, :3, :3]
                close(R, G[i, :3, :3], 2e-3 if f32 else 1e-6, "rotation error near half a turn")
            else:
                close(rot[k, :, 0], e[3:], (2e-5 if f32 else 2e-8) if True else 0, "rotation part")
    rec.nt(N * M > 1)
    rec.label("sign" if case["sign"] else None, "buffer" if case["buf"] else None)


def nearby(case, rec):
    """From close to a well-conditioned solution within the limits the solver reaches it."""
    p = ikgen.Problem(case)
    s = dict(case["s"])
    # errors below the rounding error of the poses are not asked for
    tol = 3 * p.tol(2.0)
    s["ptol"], s["rtol"] = max(s["ptol"], tol), max(s["rtol"], tol / p.model.reach())
    qs = []
    for i in range(40):
        q = p.inlim(p.rng.uniform(-1.5, 1.5, p.dof))
        sv = np.linalg.svd(p.jac(q[None])[0], compute_uv=False)
        # a motion of d changes the Jacobian by at most about reach * d
        d = min(case["d"], sv[-1] / (10 * p.model.reach()) / np.sqrt(p.dof))
        if sv[-1] > 0.04 and ((q - p.lo > 0.02 + 6 * d) & (p.hi - q > 0.02 + 6 * d)).all():
            qs.append((q, d, sv[-1]))
        if len(qs) == p.N:
            break
    if not qs:
        rec.label("no well-conditioned configuration")
        return
    for q, r, smin in qs:
        x = gen.cast(q + p.rng.uniform(-1, 1, p.dof) * r, p.dtype)
        T = torch.tensor(p.fk(q)[None], dtype=p.dt)
        k = ikgen.solver(s, p.chain, retry_configs=torch.tensor(x[None], dtype=p.dt), **case["defaults"])
        sol = k.solve(pk.Transform3d(matrix=T))
        require(bool(sol.converged.all()), lambda: "not converged from %s to %s: errors %g %g after %d iterations at %s" % (
            x.tolist(), q.tolist(), float(sol.err_pos.max()), float(sol.err_rot.max()), sol.iterations, gen.arr(sol.solutions).tolist()))
        ep, er = ikgen.errors(p.fk(gen.arr(sol.solutions)[0]), gen.arr(T))
        require(ep[0] < s["ptol"] + p.tol(q) and er[0] < s["rtol"] + 1e-4, lambda: "the configuration misses the target by %g %g" % (ep[0], er[0]))
        if p.dof <= 6:
            lim = (s["ptol"] + s["rtol"]) / smin * 3 + 1e-3 + 6 * r
            y = gen.arr(sol.solutions)[0, 0]
            if s["enforce"]:  # limit enforcement may choose another turn of a revolute joint that is also within the limits
                y = np.where(p.rev, y - 2 * np.pi * np.round((y - q) / (2 * np.pi)), y)
            close(y, q, lim, "the solution next to the initial configuration")
    rec.label("svd" if s["svd"] else "dls", "dof<6" if p.dof < 6 else "dof=6" if p.dof == 6 else "dof>6")
    rec.nt(p.dof >= 2)


@st.composite
def steps(draw, **kw):
    d = draw(ikgen.problems(**kw))
    d["steps"] = draw(st.sampled_from([1, 1, 1, 2, 3]))
    return d


@st.composite
def nears(draw, **kw):
    d = draw(ikgen.problems(m=st.just(1), n=st.integers(1, 2), **kw))
    if draw(st.booleans()):
        for nd in d["robot"]["nodes"]:  # varied axes and offsets make well-conditioned chains
            v = [draw(gen.num(-1, 1)) for _ in range(8)]
            nd["jo"] = [v[0], v[1], v[2] + 0.5, 3 * v[3], 3 * v[4], 3 * v[5]]
            nd["axis"] = [v[6], v[7], 0.5]
    s = d["s"]
    s.update(iters=60, lr=1.0, any=draw(st.booleans()), no=draw(st.sampled_from([None, "any", "all"])), pat=5, clamp=draw(st.integers(0, 3)) == 0,
             reg=draw(st.sampled_from([1e-9, 1e-6])), lm=draw(st.sampled_from([0.1, 0.02, 0.0])), pw=draw(st.sampled_from([1.0, 2.0])), ow=draw(st.sampled_from([1.0, 0.5])), enforce=draw(st.booleans()),
             ptol=draw(st.sampled_from([1e-3, 1e-4])), rtol=draw(st.sampled_from([1e-2, 1e-3])))
    if d["dtype"] == "f64" and draw(st.booleans()):
        s.update(ptol=1e-7, rtol=1e-7)
    if s["ls"]:  # a decrease can always be sufficient
        s["ls"] = dict(max_lr=1.0, decrease_factor=0.5, max_iterations=draw(st.integers(1, 5)), sufficient_decrease=0.0)
    d["d"] = draw(st.sampled_from([0.02, 0.01, 0.001]))
    d["defaults"] = {}
    return d


TWO = gen.num(-1, 1).flatmap(lambda a: gen.num(0.5, 6).map(lambda w: [round(a - w, 3), round(a + w, 3)]))
MED = dict(targets=("reach", "near", "near", "outside"))
CHECK = Check("C25", [
    Facet("step", steps(dtype=st.sampled_from(["f64", "f64", "f64", "f32"]), **MED), step, 700, 20000, shards=4),
    Facet("step of long chains", steps(dtype=st.just("f64"), min_n=6, max_n=11, **MED), step, 200, 6000, shards=2),
    Facet("pose error", st.fixed_dictionaries(dict(a=gen.rot_batches(shapes=st.sampled_from([[1], [2], [3]])), b=gen.rot_batches(shapes=st.sampled_from([[1], [2], [3], [4]])), m=st.integers(1, 4), dtype=gen.DTYPE,
                                                   seed=gen.SEED, near=st.sampled_from([0.0, 1e-3, 1e-6, 0.1]), sign=st.booleans(), buf=st.booleans())), pose_error, 600, 20000, shards=1),
    Facet("nearby", nears(jlim=st.one_of(TWO, TWO, st.none()), min_n=3, max_n=9), nearby, 350, 10000, shards=3),
], rule="a chain of at least two joints with at least one step that the conditioning determines",
    assumptions=["a step is compared where rounding, amplified by the conditioning of the damped system, stays below 1e-5 (double) or 2e-2 (single)",
                 "orientation errors within 1e-2 rad of half a turn have no unique shortest rotation and are not stepped from"])
