"""Limits as reported, and clamping, against the list of limits of the generated robot."""
import copy
import random

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen, reuse
from ..urdftext import urdf
from .c02 import FORMS1, FORMSB, make

INF = np.inf


def table(m, names):
    n = [m.nodes[m.jindex[x]] for x in names]
    pos = np.array([x["lim"] or [-INF, INF] for x in n], float).reshape(-1, 2)
    vel = np.array([[-x["vel"], x["vel"]] if x["vel"] is not None else [-INF, INF] for x in n], float).reshape(-1, 2)
    eff = np.array([[-x["eff"], x["eff"]] if x["eff"] is not None else [-INF, INF] for x in n], float).reshape(-1, 2)
    return pos, vel, eff


def check_reported(ch, m, exact, what):
    names = ch.get_joint_parameter_names()
    tabs = table(m, names)
    for kind, f, t in zip(("position", "velocity", "effort"), (ch.get_joint_limits, ch.get_joint_velocity_limits, ch.get_joint_effort_limits), tabs):
        lo, hi = f()
        tol = 0 if exact else 1e-6 * (1 + np.abs(np.where(np.isfinite(t), t, 0)))
        close(np.array(lo, float), t[:, 0], 0 if exact else tol[:, 0], "%slower %s limits of %s" % (what, kind, names))
        close(np.array(hi, float), t[:, 1], 0 if exact else tol[:, 1], "%supper %s limits of %s" % (what, kind, names))
    pos = tabs[0]
    for t, c in ((ch.low, 0), (ch.high, 1)):
        require(torch.is_tensor(t) and t.dtype == ch.dtype, lambda: "%slimit tensor %s for precision %s" % (what, getattr(t, "dtype", type(t)), ch.dtype))
        w = pos[:, c]
        close(t, w, 2e-7 * (1 + np.abs(np.where(np.isfinite(w), w, 0))), "%s%s as a tensor" % (what, "low" if c == 0 else "high"))
    return names, pos


def values(rng, pos, b):
    """Values on, inside, outside and far outside the limits."""
    V = np.zeros((b, len(pos)))
    for i, (l, h) in enumerate(pos):
        for r in range(b):
            k = rng.randrange(7)
            base = [x for x in (l, h) if np.isfinite(x)] or [0.0]
            x = rng.choice(base)
            V[r, i] = [x, x + 0.5, x - 0.5, x + 100 * rng.uniform(-1, 1), 0.0, rng.uniform(-6, 6),
                       (l + h) / 2 if np.isfinite(l) and np.isfinite(h) else x][k]
    return V


def run(case, rec):
    robot, dtype = case["robot"], case["dtype"]
    m = gen.Model(robot)
    ch = gen.build(robot, dtype)
    dt = gen.DT[dtype]
    exact = True
    rng = random.Random(case["seed"])
    if case["serial"]:
        b = case["tip"] % len(m.nodes)
        p = gen.path(robot, b)
        ch = pk.SerialChain(ch, m.nodes[b]["name"], m.nodes[p[case["base"] % len(p)]]["name"])
    if case["to"]:
        other = "f64" if dtype == "f32" else "f32"
        ch = ch.to(dtype=gen.DT[other])
        dtype, dt = other, gen.DT[other]
    if case["copy"]:
        ch = copy.deepcopy(ch)
    names, pos = check_reported(ch, m, exact, "")
    n = len(names)
    kinds = {("two" if np.isfinite(l) and np.isfinite(h) else "low" if np.isfinite(l) else "high" if np.isfinite(h) else "none") for l, h in pos}
    rec.label("serial" if case["serial"] else "tree", dtype, *kinds)
    rec.nt(n >= 2 and kinds != {"none"})
    lo, hi = gen.arr(ch.low), gen.arr(ch.high)  # in the precision in force
    V = gen.cast(values(rng, pos, case["b"]), dtype)
    want = np.minimum(np.maximum(V, lo), hi)
    forms = FORMS1 if len(V) == 1 else FORMSB
    if not n:
        return
    for step in range(3):
        form = forms[(case["form"] + step * 5) % len(forms)]
        rec.label(form)
        th = make(form, names, V, dtype, case["seed"] % 1000 + step)
        C = ch.clamp(th)
        require(torch.is_tensor(C) and C.dtype == dt, lambda: "clamp of form %s gives %s" % (form, getattr(C, "dtype", type(C))))
        c = gen.arr(C)
        if form in ("t1", "n1", "list", "tup", "n1f32", "dfloat", "dint", "dnpf", "d0t", "d0n"):
            require(c.shape == (n,), lambda: "clamp of form %s has shape %s" % (form, c.shape))
        elif form in ("t2", "n2", "t2T", "n2F"):
            require(c.shape == V.shape, lambda: "clamp of form %s has shape %s" % (form, c.shape))
        close(c.reshape(-1, n), want, 0, "clamp of form %s, joints %s" % (form, names))
        close(ch.clamp(C), c, 0, "clamping twice")
    # one argument object with changing contents
    h = reuse.holder(len(V), case["form"] + case["seed"] % 7, names, dtype)
    first = None
    for step in range(3):
        V2 = gen.cast(V + 0.375 * step * (-1) ** step, dtype)
        C = ch.clamp(h.put(V2))
        close(gen.arr(C).reshape(-1, n), np.minimum(np.maximum(V2, lo), hi), 0, "clamp of a %s rewritten %d times" % (h.kind, step))
        if step == 0:
            first = (C, gen.arr(C).copy())
    close(first[0], first[1], 0, "a clamped configuration after later calls")
    # more batch dimensions
    W = torch.tensor(np.stack([V, V + 0.25]), dtype=dt)
    W0 = W.clone()
    close(ch.clamp(W), np.minimum(np.maximum(gen.arr(W), lo), hi), 0, "clamp of shape %s" % (tuple(W.shape),))
    require(torch.equal(W, W0), "clamp changed its input")
    # single joints
    jt = {j.name: j for j in ch.get_joints()}
    for i, nm in enumerate(names):
        j = ch.find_joint(nm) if case["seed"] % 2 else jt[nm]
        x = torch.tensor(V[:, i], dtype=dt)
        close(j.clamp(x), np.minimum(np.maximum(V[:, i], pos[i, 0]), pos[i, 1]), 2e-6, "Joint.clamp of %r" % nm)
    check_reported(ch, m, exact, "after clamping: ")


def urdfs(case, rec):
    """The same through URDF text."""
    robot = case["robot"]
    robot["nodes"][0]["jo"] = None
    for nd in robot["nodes"]:
        if nd["type"] != "fixed":
            if nd["lim"] is None and nd["type"] == "prismatic":
                nd["lim"] = [-1.0, 2.0]
            if nd["lim"] is not None:
                nd["lim"] = [max(-50.0, nd["lim"][0]), min(50.0, nd["lim"][1])]
                nd["vel"], nd["eff"] = nd["vel"] or 0.0, nd["eff"] or 0.0
            else:
                nd["vel"] = nd["eff"] = None
    m = gen.Model(robot)
    ch = pk.build_chain_from_urdf(urdf(robot))
    if case["to"]:
        ch = ch.to(dtype=torch.float64)
    names, pos = check_reported(ch, m, False, "")
    rec.nt(len(names) >= 2)
    V = gen.cast(values(random.Random(case["seed"]), pos, case["b"]), "f32")
    if names:
        close(ch.clamp(torch.tensor(V, dtype=ch.dtype)), np.minimum(np.maximum(V, pos[:, 0]), pos[:, 1]), 1e-5, "clamp")


@st.composite
def cases(draw, **kw):
    r = draw(gen.robots(**kw))
    return dict(robot=r, dtype=draw(gen.DTYPE), seed=draw(gen.SEED), serial=draw(st.booleans()), to=draw(st.integers(0, 3)) == 0,
                copy=draw(st.integers(0, 5)) == 0, tip=draw(st.integers(0, 20)), base=draw(st.integers(0, 3)),
                b=draw(st.sampled_from([1, 1, 2, 3, 7])), form=draw(st.integers(0, 20)))


CHECK = Check("C11", [
    Facet("limits", cases(max_n=9, big=True), run, 1600, 40000, shards=4),
    Facet("chain", cases(min_n=3, max_n=8, topo="chain", types="rp"), run, 600, 10000, shards=2),
    Facet("huge", cases(huge=(30, 140)), run, 60, 800, shards=3),
    Facet("urdf", cases(max_n=8), urdfs, 300, 6000, shards=2),
], rule="at least two movable joints, one of them limited", assumptions=[])
