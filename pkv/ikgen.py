"""Inverse-kinematics problems: generated chains, targets, solver settings, and a float64 reference of the solver steps."""
import numpy as np
import torch
from hypothesis import strategies as st

from .boot import pk
from . import gen, ref

EPS = {"f32": 1.2e-7, "f64": 2.3e-16}


def near(values, lo, hi):
    """One of the usual values, or any between two orders of magnitude (spread over the orders of magnitude)."""
    some = st.floats(np.log10(lo), np.log10(hi)).map(lambda x: float("%.3g" % 10 ** x))
    return st.one_of(st.sampled_from(values), st.sampled_from(values), some)


@st.composite
def settings(draw, iters=st.integers(1, 12), enforce=st.booleans(), refine=st.integers(0, 12)):
    lm = draw(near([0.1, 0.1, 0.0, 0.02, 1.0], 1e-3, 10))
    d = dict(iters=draw(iters), lr=draw(near([1.0, 1.0, 0.5, 0.2, 0.9], 0.01, 1.5)), reg=draw(near([1e-9, 1e-6, 1e-3], 1e-9, 1) if lm > 0.01 else near([1e-3, 1e-2], 1e-5, 1)), lm=lm,
             pw=draw(near([1.0, 1.0, 2.0, 0.3], 0.01, 20)), ow=draw(near([1.0, 1.0, 0.1, 1.7], 0.01, 20)),
             any=draw(st.booleans()), no=draw(st.one_of(st.sampled_from([None, "any", "any", "all", 0.5, 0.2]), st.floats(0.05, 1).map(lambda x: round(x, 2)))), pat=draw(st.one_of(st.integers(1, 4), st.integers(1, 12))),
             enforce=draw(enforce), refine=draw(refine), clamp=draw(st.integers(0, 3)) == 0,
             ptol=draw(near([1e-3, 1e-3, 1e-2, 0.1, 0.5, 1e-5], 1e-5, 1)), rtol=draw(near([1e-2, 1e-2, 0.1, 0.5, 2.0, 1e-4], 1e-4, 3)),
             svd=draw(st.booleans()), ls=None)
    if draw(st.integers(0, 3)) == 0:
        d["ls"] = dict(max_lr=draw(st.sampled_from([1.0, 0.7, 1.5])), decrease_factor=draw(st.sampled_from([0.5, 0.3, 0.8])), max_iterations=draw(st.integers(1, 5)),
                       sufficient_decrease=draw(st.sampled_from([0.01, 0.0, 0.1])))
    return d


def kwargs(s):
    kw = dict(pos_tolerance=s["ptol"], rot_tolerance=s["rtol"], max_iterations=s["iters"], lr=s["lr"], regularlization=s["reg"], lm_damping=s["lm"], position_weight=s["pw"],
              orientation_weight=s["ow"], early_stopping_any_converged=s["any"], early_stopping_no_improvement=s["no"],
              early_stopping_no_improvement_patience=s["pat"], enforce_joint_limits=s["enforce"], num_limit_refinement_iterations=s["refine"], clamp_to_limits=s["clamp"])
    if s["ls"]:
        kw["line_search"] = pk.BacktrackingLineSearch(**s["ls"])
    return kw


def solver(s, chain, **kw):
    return (pk.PseudoInverseIKWithSVD if s["svd"] else pk.PseudoInverseIK)(chain, **dict(kwargs(s), **kw))


# ------------------------------------------------------------------ problems
JLIM = gen.limits()


@st.composite
def problems(draw, sett=None, n=st.integers(1, 4), m=st.integers(1, 4), max_n=8, jlim=None, targets=("reach", "reach", "near", "near", "far", "outside", "same"), dtype=gen.DTYPE, limited=True, **kw):
    topo = draw(st.sampled_from(["chain", "chain", "chain", "random"]))
    r = draw(gen.robots(topo=topo, min_mov=1, max_n=max_n, jlim=jlim, limited=limited, types=draw(st.sampled_from(["mix", "revolute", "rp", "prismatic", "revolute"])), **kw))
    N = draw(n)
    kinds = [draw(st.sampled_from(targets)) for _ in range(min(N, 6))]
    return dict(robot=r, dtype=draw(dtype), n=N, m=draw(m), seed=draw(gen.SEED), span=draw(st.sampled_from([0.3, 1.5, 3.0, 8.0])),
                kinds=(kinds * (N // 6 + 1))[:N], s=draw(sett if sett is not None else settings()), pick=draw(st.integers(0, 99)))


class Problem:
    """The chain (deepest leaf with a movable joint), its reference model, targets G (N,4,4) and initial configurations X (M,dof)."""

    def __init__(self, case, strip=False):
        r = case["robot"]
        if strip:
            for nd in r["nodes"]:
                nd["lim"] = None
        self.model = m = gen.Model(r)
        self.dtype, self.dt = case["dtype"], gen.DT[case["dtype"]]
        tips = [i for i in range(len(m.nodes)) if m.serial_joints(0, i)]
        tips = [i for i in tips if not any(m.nodes[k]["parent"] == i for k in tips)] or tips
        self.a, self.b = 0, tips[case["pick"] % len(tips)]
        self.js = m.serial_joints(0, self.b)
        self.dof = len(self.js)
        self.chain = pk.SerialChain(gen.build(r, self.dtype), m.nodes[self.b]["name"])
        c = lambda x: gen.cast(x, self.dtype)
        lim = [m.nodes[j]["lim"] or [-gen.INF, gen.INF] for j in self.js]
        self.lo, self.hi = c([l[0] for l in lim]), c([l[1] for l in lim])
        self.rev = np.array([m.nodes[j]["type"] == "revolute" for j in self.js])
        rng = self.rng = np.random.RandomState(case["seed"])
        self.N, self.M = case["n"], case["m"]
        self.X = c(np.round(self.inlim(rng.uniform(-case["span"], case["span"], (self.M, self.dof))) if case["seed"] % 3 else rng.uniform(-case["span"], case["span"], (self.M, self.dof)), 4))
        G = []
        self.qs = []
        for k in case["kinds"][:self.N]:
            q = self.inlim(rng.uniform(-3, 3, self.dof)) if rng.rand() < .7 else rng.uniform(-3, 3, self.dof)
            if k == "near":
                q = self.X[rng.randint(self.M)] + rng.uniform(-.05, .05, self.dof)
            if k == "same":
                q = self.X[rng.randint(self.M)]
            T = m.serial_fk(0, self.b, q[None])[0]
            if k == "far":
                T = ref.hom(ref.expso3(rng.uniform(-2, 2, 3)), rng.uniform(-1, 1, 3) * 10 * m.reach())
            elif k == "outside":
                T = T @ ref.hom(ref.expso3(rng.uniform(-.5, .5, 3)), rng.uniform(-.3, .3, 3))
            G.append(T)
            self.qs.append(q)
        self.G = np.stack(G)
        self.Gt = torch.tensor(self.G, dtype=self.dt)
        self.Gc = gen.arr(self.Gt)
        self.Xt = torch.tensor(self.X, dtype=self.dt)

    def inlim(self, q):
        """Squash values into the limits."""
        lo = np.where(np.isfinite(self.lo), self.lo, np.where(np.isfinite(self.hi), self.hi - 3, -3))
        hi = np.where(np.isfinite(self.hi), self.hi, lo + 6)
        return lo + (hi - lo) * (np.tanh(q / 2) * .5 + .5)

    def target(self, idx=None):
        return pk.Transform3d(matrix=self.Gt.clone() if idx is None else self.Gt[idx].clone())

    def fk(self, q):
        q = np.asarray(q, float)
        return self.model.serial_fk(0, self.b, q.reshape(-1, self.dof)).reshape(q.shape[:-1] + (4, 4))

    def jac(self, q):
        return self.model.serial_jac(0, self.b, q)

    def tol(self, q):
        """Rounding error of a pose at q."""
        q = np.abs(np.asarray(q, float)).max(initial=0)
        d = gen.depth(self.model.robot)
        pris = q if (~self.rev).any() else 0.0
        return 40 * EPS[self.dtype] * (d + 3 + q) * (self.model.reach() + pris * self.dof)


def errors(T, G):
    """Position and rotation error of poses T (...,4,4) with respect to G."""
    p = np.linalg.norm(G[..., :3, 3] - T[..., :3, 3], axis=-1)
    R = G[..., :3, :3] @ np.swapaxes(T[..., :3, :3], -1, -2)
    s = np.linalg.norm(np.stack([R[..., 2, 1] - R[..., 1, 2], R[..., 0, 2] - R[..., 2, 0], R[..., 1, 0] - R[..., 0, 1]], -1), axis=-1) / 2
    c = (np.trace(R, axis1=-2, axis2=-1) - 1) / 2
    return p, np.arctan2(s, c)


def dx(T, G):
    """Pose error (6,): base-frame position difference and rotation vector from current to target orientation."""
    return np.concatenate([G[:3, 3] - T[:3, 3], ref.logso3(G[:3, :3] @ T[:3, :3].T)])


def dls(J, e, s):
    """Damped least-squares step and its sensitivity to rounding."""
    w = np.array([s["pw"]] * 3 + [s["ow"]] * 3)
    Jw, ew = w[:, None] * J, w * e
    lam = s["reg"] + s["lm"] * ew @ ew
    U, D, Vt = np.linalg.svd(Jw, full_matrices=False)
    dq = Vt.T @ (D / (D * D + lam) * (U.T @ ew))
    return dq, (D[0] ** 2 + lam) / lam, np.linalg.norm(ew) / np.sqrt(lam)
