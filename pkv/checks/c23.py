"""Errors and flags an inverse-kinematics solution reports, against the reference forward kinematics of the configurations it returns."""
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen, ikgen

warnings.simplefilter("ignore")


def truth(sol, p, s, rec, what="solution"):
    N, M = p.N, p.M
    require(tuple(sol.solutions.shape) == (N, M, p.dof), lambda: "%s: solutions of shape %s" % (what, tuple(sol.solutions.shape)))
    for nm in ("err_pos", "err_rot", "converged", "converged_pos", "converged_rot"):
        require(tuple(getattr(sol, nm).shape) == (N, M), lambda: "%s: %s has shape %s" % (what, nm, tuple(getattr(sol, nm).shape)))
    for nm in ("converged_any", "converged_pos_any", "converged_rot_any"):
        require(tuple(getattr(sol, nm).shape) == (N,), lambda: "%s: %s has shape %s" % (what, nm, tuple(getattr(sol, nm).shape)))
    q, ep, er = gen.arr(sol.solutions), gen.arr(sol.err_pos), gen.arr(sol.err_rot)
    require(np.isfinite(q).all() and np.isfinite(ep).all() and np.isfinite(er).all(), lambda: "%s: not finite" % what)
    tp, tr = ikgen.errors(p.fk(q), p.Gc[:, None])
    for i in range(N):
        for j in range(M):
            t = p.tol(q[i, j])
            if t > 0.02:
                rec.label("too far away to compare")
                continue
            require(abs(ep[i, j] - tp[i, j]) <= t + 1e-6 * 0 + t * abs(tp[i, j]), lambda: "%s [%d, %d]: reported position error %.9g, the configuration has %.9g" % (what, i, j, ep[i, j], tp[i, j]))
            # the angle of a rotation known to precision t is known to sqrt(t) near half a turn
            tt = max(t, 30 * ikgen.EPS[p.dtype]) * 4 if tr[i, j] < 3.0 else 2 * np.sqrt(t)
            require(abs(er[i, j] - tr[i, j]) <= tt, lambda: "%s [%d, %d]: reported rotation error %.9g, the configuration has %.9g" % (what, i, j, er[i, j], tr[i, j]))
    okp, okr = sol.err_pos < s["ptol"], sol.err_rot < s["rtol"]
    require(torch.equal(sol.converged, okp & okr), lambda: "%s: converged %s but errors %s %s with tolerances %s %s" % (what, sol.converged.tolist(), ep.tolist(), er.tolist(), s["ptol"], s["rtol"]))
    require(bool((sol.converged_pos | ~okp).all() and (sol.converged_rot | ~okr).all()), lambda: "%s: an error below its tolerance is not flagged" % what)
    if s["enforce"] and (np.isfinite(p.lo).any() or np.isfinite(p.hi).any()):
        require(torch.equal(sol.converged_pos, okp) and torch.equal(sol.converged_rot, okr), lambda: "%s: flags after limit enforcement" % what)
    for nm in ("converged", "converged_pos", "converged_rot"):
        a = getattr(sol, nm + "_any")
        require(torch.equal(a, getattr(sol, nm).any(1)), lambda: "%s: %s_any is not the any of %s" % (what, nm, nm))
    require(0 <= int(sol.iterations) <= s["iters"], lambda: "%s: %d iterations of at most %d" % (what, sol.iterations, s["iters"]))
    return q, tp, tr


def report(case, rec):
    p = ikgen.Problem(case)
    s = case["s"]
    kw = dict(retry_configs=p.Xt.clone())
    if case["src"] == "uniform":
        lim = torch.stack([torch.full((p.dof,), -2.0), torch.full((p.dof,), 2.0)], 1)
        kw = dict(num_retries=p.M, joint_limits=lim)
    k = ikgen.solver(s, p.chain, **kw)
    sol = k.solve(p.target())
    q, tp, tr = truth(sol, p, s, rec)
    if case["again"]:
        p2 = ikgen.Problem(dict(case, kinds=(case["kinds"][::-1] + ["reach"] * 3)[:case["n2"]], n=case["n2"], seed=case["seed"] + 1))
        truth(k.solve(p2.target()), p2, s, rec, "second solve")
    c = gen.arr(sol.converged)
    rec.label("all" if c.all() else "some" if c.any() else "none", "svd" if s["svd"] else "dls", "line search" if s["ls"] else None, "enforced" if s["enforce"] else "free", *set(case["kinds"]))
    rec.nt(p.dof >= 2 and s["iters"] >= 1)


def between(v, k):
    """A number between two neighbours of the values v."""
    v = np.unique(v[np.isfinite(v) & (v > 0)])
    if len(v) == 0:
        return 0.01
    k = k % (len(v) + 1)
    if k == 0:
        return float(v[0] / 2)
    if k == len(v):
        return float(v[-1] * 2)
    return float((v[k - 1] + v[k]) / 2)


def split(case, rec):
    """Tolerances between the errors the attempts reach, so that targets and attempts disagree on what has converged."""
    p = ikgen.Problem(case)
    s = dict(case["s"], ptol=1e-12, rtol=1e-12, any=False, no=None)
    sol = ikgen.solver(s, p.chain, retry_configs=p.Xt.clone()).solve(p.target())
    truth(sol, p, s, rec, "without any tolerance")
    ep, er = gen.arr(sol.err_pos), gen.arr(sol.err_rot)
    i = case["row"] % p.N
    s = dict(case["s"], ptol=between(ep[i], case["kp"]), rtol=between(er[i], case["kr"]))
    if case["nostop"]:
        s.update(any=False, no=None)
    sol = ikgen.solver(s, p.chain, retry_configs=p.Xt.clone()).solve(p.target())
    truth(sol, p, s, rec)
    P, R, C = (gen.arr(x).astype(bool) for x in (sol.converged_pos, sol.converged_rot, sol.converged))
    if (P.any(1) & R.any(1) & ~C.any(1)).any():
        rec.label("position and rotation reached by different attempts")
    if C.any() and not C.all():
        rec.label("some converged")
    if C.any(1).any() and not C.any(1).all():
        rec.label("some targets reached")
    rec.nt(p.M >= 2 and bool((P != R).any() or (C.any() and not C.all())))


@st.composite
def split_cases(draw, **kw):
    d = draw(ikgen.problems(**kw))
    return dict(d, row=draw(st.integers(0, 9)), kp=draw(st.integers(0, 9)), kr=draw(st.integers(0, 9)), nostop=draw(st.integers(0, 2)) < 2)


@st.composite
def cases(draw, **kw):
    d = draw(ikgen.problems(**kw))
    d["src"] = draw(st.sampled_from(["given", "given", "given", "uniform"]))
    d["again"] = draw(st.integers(0, 3)) == 0
    d["n2"] = draw(st.sampled_from([1, 2, 3, d["n"], d["n"]]))
    return d


LONG = ikgen.settings(iters=st.sampled_from([0, 15, 30, 60]))
TIGHT = st.one_of(gen.num(-1, 1).flatmap(lambda a: gen.num(0, 1.5).map(lambda w: [round(a - w, 3), round(a + w, 3)])), gen.limits())

CHECK = Check("C23", [
    Facet("report", cases(), report, 700, 20000, shards=4),
    Facet("long", cases(sett=LONG, max_n=9), report, 160, 5000, shards=3),
    Facet("many", cases(n=st.sampled_from([12, 33, 64, 130, 300]), m=st.sampled_from([1, 2, 9, 16]), max_n=5), report, 40, 1500, shards=3),
    Facet("split", split_cases(m=st.integers(2, 5), max_n=6), split, 300, 9000, shards=3),
    Facet("tight limits", cases(jlim=TIGHT, targets=("reach", "near", "near", "same")), report, 350, 10000, shards=2),
], rule="a chain of at least two joints and at least one iteration",
    assumptions=["values are not compared where the rounding error of a pose exceeds 0.02 (configurations that ran away)"])
