"""Joint limits of inverse-kinematics solutions."""
import math
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, fail, require
from .. import gen, ikgen

warnings.simplefilter("ignore")
TAU = 2 * math.pi


def inside(q, p, what):
    require(np.isfinite(q).all(), lambda: "%s: not finite" % what)
    slack = 8 * ikgen.EPS[p.dtype] * (1 + np.maximum(np.where(np.isfinite(p.lo), np.abs(p.lo), 0), np.where(np.isfinite(p.hi), np.abs(p.hi), 0)))
    bad = (q < p.lo - slack) | (q > p.hi + slack)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        fail("%s: joint %d at %.9g, limits [%.9g, %.9g] (attempt %s)" % (what, i[-1], q[i], p.lo[i[-1]], p.hi[i[-1]], i[:-1]))


def enforced(case, rec):
    p = ikgen.Problem(case)
    s = case["s"]
    X = p.X
    if case["out"]:  # start far outside the limits
        X = gen.cast(np.round(p.rng.uniform(-1, 1, X.shape) * case["out"], 3), p.dtype)
    if case["src"] == "given":
        kw = dict(retry_configs=torch.tensor(X, dtype=p.dt))
    else:
        kw = dict(num_retries=p.M, config_sampling_method="gaussian")
    k = ikgen.solver(s, p.chain, **kw)
    q = gen.arr(k.solve(p.target()).solutions)
    require(q.shape == (p.N, p.M, p.dof), "shape of the solutions")
    if s["enforce"]:
        inside(q, p, "solution with limit enforcement")
    elif s["clamp"]:
        start = gen.arr(k.initial_config)
        for i in range(p.N):
            for j in range(p.M):
                # an attempt that starts converged keeps its initial configuration
                if s["iters"] == 0 or np.array_equal(q[i, j], start[j]):
                    continue
                inside(q[i, j], p, "solution with clamped iterations")
    fin = np.isfinite(p.lo).astype(int) + np.isfinite(p.hi)
    rec.label(*["%s %s" % ("revolute" if r else "prismatic", ["unbounded", "one-sided", "bounded"][f]) for r, f in zip(p.rev, fin)])
    rec.label("enforced" if s["enforce"] else "clamped" if s["clamp"] else "free")
    rec.nt((fin > 0).any() and (s["enforce"] or s["clamp"]))


# ------------------------------------------------------------------ whole turns
def turns(case, rec):
    p = ikgen.Problem(case)
    s = dict(case["s"], enforce=True)
    dof = p.dof
    # the solution: within the limits
    base = np.stack([p.inlim(p.rng.uniform(-2, 2, dof)) for _ in range(p.N)])
    if case["edge"]:
        e = p.rng.randint(0, 3, base.shape)
        base = np.where((e == 1) & np.isfinite(p.lo), p.lo, np.where((e == 2) & np.isfinite(p.hi), p.hi, base))
    base = gen.cast(base, p.dtype)
    n = p.rng.randint(-case["turns"], case["turns"] + 1, (p.N, dof)) * p.rev
    if case["other"]:  # joints without both limits have no turns to undo, except when outside
        n = n * np.isfinite(p.lo + p.hi)
    start = gen.cast(base + TAU * n, p.dtype)
    G = p.fk(base)
    # errors below the rounding error of whole turns are not asked for
    s["ptol"], s["rtol"] = max(s["ptol"], 3 * p.tol(start)), max(s["rtol"], 3 * p.tol(start) / p.model.reach())
    solved = []
    for i in range(p.N):
        T = torch.tensor(G[i][None], dtype=p.dt)
        k = ikgen.solver(s, p.chain, retry_configs=torch.tensor(start[i][None], dtype=p.dt))
        sol = k.solve(pk.Transform3d(matrix=T))
        q = gen.arr(sol.solutions)[0, 0]
        inside(q[None], p, "solution %d whole turns outside" % int(np.abs(n).max()))
        require(bool(sol.converged.all()), lambda: "configuration %s, whole turns from %s within the limits %s %s, is no solution any more: errors %g %g at %s" % (
            start[i].tolist(), base[i].tolist(), p.lo.tolist(), p.hi.tolist(), float(sol.err_pos.max()), float(sol.err_rot.max()), q.tolist()))
        d = q - start[i]
        tol = max(2e-5, p.tol(np.abs(start).max(initial=1))) if p.dtype == "f32" else 1e-9
        if s["refine"] == 0:
            w = np.abs(d - TAU * np.round(d / TAU))
            require((w[p.rev] <= tol).all(), lambda: "a revolute joint moved by %s, not whole turns" % d.tolist())
            require((np.abs(d[~p.rev]) <= tol).all(), lambda: "a prismatic joint moved by %s" % d.tolist())
        # nothing to undo: a joint with no limit at all stays where it is
        ep, er = ikgen.errors(p.fk(q[None]), p.fk(start[i][None]))
        require(ep[0] <= s["ptol"] + tol * 10 * p.model.reach() and er[0] <= s["rtol"] + tol * 10, "the pose changed")
        solved.append(q)
    out = (start < p.lo - 1e-6) | (start > p.hi + 1e-6)
    rec.label("outside" if out.any() else "inside", "refine 0" if s["refine"] == 0 else "refine")
    rec.nt(bool(out.any()))


# ------------------------------------------------------------------ ignoring limits
def ignored(case, rec):
    """With enforcement off the answer is that of the robot without limits; without limits enforcement changes nothing."""
    s = case["s"]
    p = ikgen.Problem(case)
    import copy
    p0 = ikgen.Problem(copy.deepcopy(case), strip=True)
    off = dict(s, enforce=False, clamp=False)
    X = p.X
    f = lambda prob, ss: ikgen.solver(ss, prob.chain, retry_configs=torch.tensor(X, dtype=p.dt)).solve(p.target())
    a, b, c = f(p, off), f(p0, off), f(p0, dict(off, enforce=True))
    for nm in ("solutions", "err_pos", "err_rot"):
        close(getattr(a, nm), getattr(b, nm), 1e-6, "%s with enforcement off, for the robot with and without limits" % nm)
        close(getattr(c, nm), getattr(b, nm), 1e-6, "%s of a robot without limits, with enforcement on and off" % nm)
    for nm in ("converged", "converged_any"):
        require(torch.equal(getattr(a, nm), getattr(b, nm)) and torch.equal(getattr(b, nm), getattr(c, nm)), "flags with enforcement off")
    fin = np.isfinite(p.lo) | np.isfinite(p.hi)
    q = gen.arr(a.solutions)
    rec.label("solution beyond the limits" if ((q < p.lo) | (q > p.hi)).any() else None)
    rec.nt(bool(fin.any()))


ONE = st.one_of(gen.limits(), st.just([-gen.INF, 0.5]), st.just([-0.25, gen.INF]), st.none())
TWO = gen.num(-2, 2).flatmap(lambda a: gen.num(0.1, 8).map(lambda w: [a, round(a + w, 3)]))
MIX = st.one_of(TWO, TWO, gen.limits())


@st.composite
def ecases(draw):
    d = draw(ikgen.problems(sett=ikgen.settings(enforce=st.sampled_from([True, True, True, False]), iters=st.sampled_from([0, 1, 2, 3, 6, 12])), jlim=draw(st.sampled_from([ONE, MIX, gen.limits()]))))
    if not d["s"]["enforce"]:
        d["s"]["clamp"] = True
    d["out"] = draw(st.sampled_from([0, 0, 5.0, 50.0]))
    d["src"] = draw(st.sampled_from(["given", "given", "given", "gaussian"]))
    return d


@st.composite
def tcases(draw):
    d = draw(ikgen.problems(sett=ikgen.settings(refine=st.sampled_from([0, 0, 1, 5, 10]), iters=st.integers(0, 4)), jlim=draw(st.sampled_from([TWO, MIX, gen.limits()])), m=st.just(1), dtype=st.sampled_from(["f64", "f64", "f32"]),
                            n=st.integers(1, 3)))
    d["turns"] = draw(st.integers(1, 4))
    d["edge"] = draw(st.integers(0, 3)) == 0
    d["other"] = draw(st.integers(0, 3)) > 0
    return d


CHECK = Check("C24", [
    Facet("enforced", ecases(), enforced, 700, 20000, shards=4),
    Facet("whole turns", tcases(), turns, 500, 15000, shards=2),
    Facet("ignored", ikgen.problems(jlim=st.one_of(TWO, gen.limits()), dtype=st.just("f64")), ignored, 250, 8000, shards=2),
], rule="some joint has a limit and limits are asked for; whole turns: some joint starts outside its limits")
