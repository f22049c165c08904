"""Problems in one batch against the same problems alone, permuted, repeated; every solver configuration runs."""
import warnings

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, fail, require
from .. import gen, ikgen
from .c22 import eq, snap

warnings.simplefilter("ignore")
FIELDS = ("solutions", "err_pos", "err_rot")


def arrs(sol):
    return {f: gen.arr(getattr(sol, f)).copy() for f in FIELDS + ("converged",)}


def same(a, b, tol, near, what):
    """near: attempts whose errors are within rounding of a tolerance (a flag may go either way)."""
    for f in FIELDS:
        x, y = a[f], b[f]
        require(x.shape == y.shape, lambda: "%s: %s has shape %s instead of %s" % (what, f, x.shape, y.shape))
        t = tol[..., None] if x.ndim == tol.ndim + 1 else tol
        d = np.abs(x - y)
        bad = ~(d <= t) & ~(near[..., None] if x.ndim == near.ndim + 1 else near)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            fail("%s: %s %.12g instead of %.12g at %s" % (what, f, x[i], y[i], i))
    bad = (a["converged"] != b["converged"]) & ~near
    if bad.any():
        fail("%s: convergence of attempt %s" % (what, tuple(np.argwhere(bad)[0])))


def ambiguous(p, s, sols):
    """Attempts (N, M) with an iterate whose error lies within rounding of a tolerance; tolerances for the comparison."""
    near = np.zeros((p.N, p.M), bool)
    for a in sols:
        near |= np.abs(a["err_pos"] - s["ptol"]) < 1e-6
        near |= np.abs(a["err_rot"] - s["rtol"]) < 1e-6
    return near


def independent(case, rec):
    p = ikgen.Problem(case)
    s = dict(case["s"], any=False, no=None)
    solve = lambda G, X: arrs(ikgen.solver(s, p.chain, retry_configs=torch.tensor(X, dtype=p.dt)).solve(pk.Transform3d(matrix=torch.tensor(G, dtype=p.dt))))
    # how strongly this problem amplifies rounding: solve from an initial configuration moved by 1e-11
    jig = p.X + 1e-11 * np.where(p.rng.rand(*p.X.shape) < .5, -1, 1)
    a = solve(p.G, p.X)
    b = solve(p.G, jig)
    d = np.maximum(np.abs(a["solutions"] - b["solutions"]).max(-1), 1e-11) * 1000
    chaotic = ~(d < 1e-4) | (a["converged"] != b["converged"])
    tol = np.maximum(d, 1e-8)
    near = chaotic
    rec.label("chaotic" if chaotic.any() else None, "line search" if s["ls"] else None, "svd" if s["svd"] else "dls", "enforced" if s["enforce"] else "free", "clamped" if s["clamp"] else None)
    # each problem alone
    few = lambda n: range(n) if n <= 6 else sorted({0, 1, n // 2, n - 1} | set(p.rng.randint(0, n, 3).tolist()))
    for i in few(p.N):
        c = solve(p.G[i:i + 1], p.X)
        same({f: x[i:i + 1] for f, x in a.items()}, c, tol[i:i + 1], near[i:i + 1], "problem %d of %d against the problem alone" % (i, p.N))
    # each attempt alone
    for j in few(p.M):
        c = solve(p.G, p.X[j:j + 1])
        same({f: x[:, j:j + 1] for f, x in a.items()}, c, tol[:, j:j + 1], near[:, j:j + 1], "attempt %d of %d against the attempt alone" % (j, p.M))
    # permutations, and repetition of a problem
    pn, pm = p.rng.permutation(p.N), p.rng.permutation(p.M)
    c = solve(p.G[pn], p.X[pm])
    same(c, {f: x[pn][:, pm] for f, x in a.items()}, tol[pn][:, pm], near[pn][:, pm], "permuted problems %s and attempts %s" % (pn.tolist(), pm.tolist()))
    r = p.rng.randint(0, p.N, p.N + 1)
    c = solve(p.G[r], p.X)
    same(c, {f: x[r] for f, x in a.items()}, tol[r], near[r], "problems repeated as %s" % r.tolist())
    rec.nt(p.N * p.M >= 2 and not chaotic.all())


def keeps(case, rec):
    """Whatever the early stopping: what converges alone converges in a batch."""
    p = ikgen.Problem(case)
    s = dict(case["s"], enforce=False)
    if s["ls"] and (s["any"] or s["no"] is not None):  # the line search does not search for problems that were stopped: their last step differs
        s["ls"] = None
    k = ikgen.solver(s, p.chain, retry_configs=p.Xt.clone())
    a = arrs(k.solve(p.target()))
    n = 0
    for i in range(p.N):
        b = arrs(k.solve(p.target([i])))
        for j in range(p.M):
            if b["converged"][0, j] and b["err_pos"][0, j] < 0.98 * s["ptol"] and b["err_rot"][0, j] < 0.98 * s["rtol"]:
                n += 1
                if not a["converged"][i, j]:
                    # is it a matter of rounding?
                    y = [arrs(ikgen.solver(s, p.chain, retry_configs=p.Xt + e).solve(p.target([i])))["converged"][0, j] for e in (1e-11, -1e-11, 3e-11)]
                    require(not all(y), lambda: "attempt %d of problem %d converges alone (errors %g %g) but not in a batch of %d" % (j, i, b["err_pos"][0, j], b["err_rot"][0, j], p.N))
    rec.label("early stop any" if s["any"] else None, "no improvement %s" % s["no"], "converged" if n else "nothing converged", "line search" if s["ls"] else None)
    rec.nt(n > 0 and p.N > 1)


def runs(case, rec):
    """Every configuration source, count and precision; repeated solves."""
    p = ikgen.Problem(case)
    s = case["s"]
    src, M, N, dof = case["src"], case["m2"], p.N, p.dof
    torch.manual_seed(case["seed"] % 1000)
    c0 = torch.tensor(p.X[0], dtype=p.dt)
    lim = np.stack([p.X[0] - 0.5, p.X[0] + 1.0], 1)
    for i, w in enumerate(case["widths"][:dof]):  # narrow, empty and wide ranges
        lim[i, 1] = lim[i, 0] + w
    kw, inside, asked = {}, None, []
    own = torch.tensor(p.rng.uniform(-1, 1, (M, dof)) * case["own"], dtype=torch.float64 if case["limdt"] else p.dt)
    if src == "given":
        kw = dict(retry_configs=p.Xt.clone())
        M = p.M
    elif src == "other precision":
        kw = dict(retry_configs=p.Xt.to(torch.float32 if p.dtype == "f64" else torch.float64))
        M = p.M
    elif src == "both":  # retry configurations win over a number of retries
        kw = dict(retry_configs=p.Xt.clone(), num_retries=p.M, joint_limits=torch.tensor(lim, dtype=p.dt))
        M = p.M
    elif src == "uniform":
        kw = dict(num_retries=M, joint_limits=torch.tensor(lim, dtype=torch.float64 if case["limdt"] else torch.float32))
        inside = lim
    elif src == "chain limits" and np.isfinite(p.lo + p.hi).all():
        kw = dict(num_retries=M, joint_limits=torch.tensor(p.chain.get_joint_limits()).T)
        inside = np.stack([p.lo, p.hi], 1)
    elif src == "gaussian around":
        kw = dict(num_retries=M, config_sampling_method=pk.gaussian_around_config(c0, case["std"]))
    elif src == "callable":
        kw = dict(num_retries=M, config_sampling_method=lambda n: (asked.append(n), own.clone())[1])
    else:
        kw = dict(num_retries=M, config_sampling_method="gaussian")
    given = kw.get("retry_configs")
    before = snap(given) if given is not None else None
    k = ikgen.solver(s, p.chain, **kw)
    x0 = k.initial_config.clone()
    require(tuple(x0.shape) == (M, dof) and x0.dtype == p.dt, lambda: "initial configurations of shape %s %s" % (tuple(x0.shape), x0.dtype))
    require(bool(torch.isfinite(x0).all()), "initial configurations are finite")
    if inside is not None:
        sl = 1e-5 * (1 + np.abs(inside).max())
        x = gen.arr(x0)
        require((x >= inside[:, 0] - sl).all() and (x <= inside[:, 1] + sl).all(), lambda: "sampled %s outside %s" % (x.tolist(), inside.tolist()))
        if M >= 24:  # 3e-11 chance of a false alarm per joint if samples are uniform
            w = inside[:, 1] - inside[:, 0]
            u = (x - inside[:, 0]) / np.where(w > 0, w, 1)
            ok = w > 1e-3
            require(((u.max(0) - u.min(0))[ok] > 0.25).all(), "samples do not cover the limits")
            require(len(np.unique(u[:, ok].round(6), axis=0)) > 1 or not ok.any(), "all samples alike")
    if src == "gaussian around":
        z = (gen.arr(x0) - p.X[0]) / case["std"]
        require(np.abs(z).max() < 8, lambda: "a sample is %g standard deviations away" % np.abs(z).max())
        if z.size >= 48:
            require(0.4 < np.sqrt((z ** 2).mean()) < 1.8, lambda: "standard deviation %g times what was asked for" % np.sqrt((z ** 2).mean()))
    if src == "callable":
        require(M in asked, lambda: "the given function was asked for %s configurations" % asked)
        close(x0, gen.arr(own), 1e-6 * case["own"], "configurations of the given function")
    if given is not None:
        close(x0, gen.arr(given), 1e-6, "given initial configurations")
    target = p.target()
    if case["tgt"] == "other precision":
        target = pk.Transform3d(matrix=p.Gt.to(torch.float32 if p.dtype == "f64" else torch.float64))
    elif case["tgt"] == "parts":
        target = pk.Transform3d(pos=p.Gt[:, :3, 3].clone(), rot=p.Gt[:, :3, :3].clone(), dtype=p.dt)
    elif case["tgt"] == "inverse":
        target = pk.Transform3d(matrix=p.Gt.clone()).inverse().inverse()
    tb = snap(target)
    sol = k.solve(target)
    require(eq(snap(target), tb), "solving altered the targets")
    if before is not None:
        require(eq(snap(given), before), "solving altered the given initial configurations")
    require(torch.equal(k.initial_config, x0), "solving altered the initial configurations")
    require(tuple(sol.solutions.shape) == (N, M, dof), lambda: "solutions of shape %s" % (tuple(sol.solutions.shape),))
    for f in FIELDS:
        t = getattr(sol, f)
        require(t.dtype == p.dt and bool(torch.isfinite(t).all()), lambda: "%s has precision %s" % (f, t.dtype))
    a = arrs(sol)
    if case["reseed"]:
        p.chain.forward_kinematics(torch.zeros(dof, dtype=p.dt))
        if N > 1:
            k.solve(p.target([0]))
    b = arrs(k.solve(target))
    for f in a:
        close(b[f], a[f], 0, "%s of the second solve" % f)
    k2 = ikgen.solver(s, p.chain, retry_configs=x0.clone())
    c = arrs(k2.solve(target))
    for f in a:
        close(c[f], a[f], 0, "%s of another solver with the same initial configurations" % f)
    if case["debug"] and s["iters"] >= 1:
        import matplotlib.pyplot as plt
        d = arrs(ikgen.solver(s, p.chain, retry_configs=x0.clone(), debug=True).solve(target))
        plt.close("all")
        rec.label("debug")
        for f in a:
            close(d[f], a[f], 0, "%s with debugging" % f)
    rec.label(src, case["tgt"], p.dtype, "dof %d" % dof, "line search" if s["ls"] else None, "svd" if s["svd"] else "dls")
    rec.nt(N * M >= 2)


@st.composite
def rcases(draw):
    d = draw(ikgen.problems(max_n=10, sett=ikgen.settings(iters=st.sampled_from([0, 1, 3, 6, 12]))))
    d.update(src=draw(st.sampled_from(["given", "other precision", "both", "uniform", "uniform", "chain limits", "gaussian around", "callable", "gaussian"])), m2=draw(st.sampled_from([1, 2, 3, 5, 24])),
             limdt=draw(st.booleans()), std=draw(st.sampled_from([0.1, 1.0, 0.01])), tgt=draw(st.sampled_from(["same", "same", "other precision", "parts", "inverse"])), reseed=draw(st.booleans()), own=draw(st.sampled_from([0.5, 3.0, 20.0])), debug=draw(st.integers(0, 11)) == 0,
             widths=draw(st.one_of(st.just([]), st.lists(st.sampled_from([0.0, 1e-3, 1e-4, 0.02, 1.5, 30.0]), max_size=6))))
    return d


FEW = ikgen.settings(iters=st.integers(1, 6), refine=st.integers(0, 3))
CONV = ikgen.settings(iters=st.sampled_from([3, 8, 15, 25]))
CHECK = Check("C26", [
    Facet("independent", ikgen.problems(sett=FEW, dtype=st.just("f64"), n=st.integers(2, 5)), independent, 260, 8000, shards=4),
    Facet("many", ikgen.problems(sett=FEW, dtype=st.just("f64"), n=st.sampled_from([17, 40, 130]), m=st.sampled_from([1, 3, 12]), max_n=5), independent, 30, 1000, shards=3),
    Facet("keeps", ikgen.problems(sett=CONV, dtype=st.just("f64"), n=st.integers(2, 5), targets=("near", "near", "same", "reach", "far")), keeps, 260, 8000, shards=3),
    Facet("runs", rcases(), runs, 500, 15000, shards=3),
], rule="at least two problems or attempts that do not amplify rounding; keeps: some attempt converges alone",
    assumptions=["amplification of rounding is measured by solving from initial configurations moved by 1e-11; comparisons allow 1000 times the observed change",
                 "independence is claimed without early stopping; that convergence survives batching is claimed without limit enforcement (its refinement starts from where an unconverged attempt stops) and, with early stopping, without line search (the last step of a stopped problem is not searched)"])
