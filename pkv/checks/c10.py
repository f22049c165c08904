"""Generated MJCF models against MuJoCo's kinematics."""
import numpy as np
import torch
from hypothesis import strategies as st
from scipy.optimize import linear_sum_assignment

from ..boot import pk
from ..core import Check, Facet, HarnessError, close, require
from .. import gen
from ..mjcftext import Engine, mjcfs, text


def match(eng, o, frame, base, P0, out):
    """Pair the engine's objects with frames, following the tree: by name, unnamed ones by their pose at zero."""
    out[o] = frame
    kids = eng.children[o]
    frames = list(frame.children)
    require(len(frames) == len(kids), lambda: "frame %r has children %s; the model has %d" % (frame.name, [c.name for c in frames], len(kids)))
    rest_o, used = [], set()
    for k in kids:
        nm = eng.name(k)
        if nm is None:
            rest_o.append(k)
            continue
        hit = [i for i, c in enumerate(frames) if c.name == nm]
        require(len(hit) == 1, lambda: "%d children of %r are named %r" % (len(hit), frame.name, nm))
        used.add(hit[0])
        match(eng, k, frames[hit[0]], base, P0, out)
    rest_f = [c for i, c in enumerate(frames) if i not in used]
    if rest_o:
        E0 = eng._zero
        C = np.array([[np.abs(P0[c.name] - base @ E0[k]).max() for c in rest_f] for k in rest_o])
        a, b = linear_sum_assignment(C)
        for i, j in zip(a, b):
            match(eng, rest_o[i], rest_f[j], base, P0, out)


def check(chain, eng, root, Qj, what, serial=None):
    """Compare with the engine relative to the root object."""
    m = eng.m
    names = chain.get_joint_parameter_names()
    frames = chain.get_frame_names(exclude_fixed=False)
    require(len(set(frames)) == len(frames), lambda: "%sframe names are not distinct: %s" % (what, frames))
    require(len(set(names)) == len(names), lambda: "%sjoint names are not distinct: %s" % (what, names))
    allj = [j.name for j in chain.get_joints()]
    require(list(allj) == list(names), "joint objects and names differ")
    sub = eng.subtree(root)
    require(len(frames) == len(sub), lambda: "%s%d frames for %d bodies and sites" % (what, len(frames), len(sub)))
    eng._zero = eng.poses(np.zeros(m.njnt))
    Z = {k: v.get_matrix()[0].double().numpy() for k, v in chain.forward_kinematics(torch.zeros(1, len(names), dtype=torch.float32)).items()}
    rname = eng.name(root)
    rf = chain.find_frame(rname if rname is not None else frames[0])
    require(rf is not None, lambda: "%sroot %r not found" % (what, rname))
    base = Z[rf.name] @ np.linalg.inv(eng._zero[root])
    pairs = {}
    match(eng, root, rf, base, Z, pairs)
    col = {}
    for o, f in pairs.items():
        nm = eng.name(o)
        require(nm is None or (f.name == nm and f.link.name == nm), lambda: "%sframe %r, link %r for %r" % (what, f.name, f.link.name, nm))
        j = eng.joint(o) if o != root else None
        if j is None:
            require(f.joint.joint_type == "fixed", lambda: "%sjoint of %r is %s" % (what, f.name, f.joint.joint_type))
            continue
        jt = "revolute" if m.jnt_type[j] == 3 else "prismatic"
        require(f.joint.joint_type == jt, lambda: "%sjoint of %r is %s instead of %s" % (what, f.name, f.joint.joint_type, jt))
        if eng.jname(j) is not None:
            require(f.joint.name == eng.jname(j), lambda: "%sjoint of %r is named %r instead of %r" % (what, f.name, f.joint.name, eng.jname(j)))
        require(f.joint.name in names, lambda: "%sjoint %r is not reported" % (what, f.joint.name))
        col[j] = names.index(f.joint.name)
        lim = eng.limits(j)
        if lim is None:
            require(f.joint.limits is None or tuple(f.joint.limits) == (-np.inf, np.inf), lambda: "%sunlimited joint %r has limits %s" % (what, f.joint.name, f.joint.limits))
        else:
            require(f.joint.limits is not None, lambda: "%slimits of %r are missing" % (what, f.joint.name))
            close(np.array(f.joint.limits, float), lim, 1e-5, "%slimits of %r" % (what, f.joint.name))
    require(sorted(col.values()) == list(range(len(names))), lambda: "%sjoints %s" % (what, names))
    lo, hi = chain.get_joint_limits()
    inv = {v: k for k, v in col.items()}
    want = np.array([eng.limits(inv[i]) or [-np.inf, np.inf] for i in range(len(names))]).reshape(-1, 2)
    t = 1e-5
    close(np.array(lo, float), want[:, 0], t, "%slower limits" % what)
    close(np.array(hi, float), want[:, 1], t, "%supper limits" % what)
    x = np.zeros((len(Qj), len(names)))
    for j, c in col.items():
        x[:, c] = Qj[:, j]
    P = chain.forward_kinematics(torch.tensor(x, dtype=torch.float32))
    require(sorted(P) == sorted(frames), "%sframes of the result" % what)
    for b in range(len(Qj)):
        E = eng.poses(Qj[b])
        tol = 2.5e-6 * (eng.depth() + 2) * eng.reach(Qj[b])
        R0 = P[rf.name].get_matrix()
        Ri = np.linalg.inv(R0[b if len(R0) > 1 else 0].double().numpy())
        for o, f in pairs.items():
            M = P[f.name].get_matrix()
            require(len(M) == len(Qj), lambda: "%spose of %r has batch %d instead of %d" % (what, f.name, len(M), len(Qj)))
            M = M[b].double().numpy()
            if root == ("b", 0):
                close(M, E[o], tol, "%spose of %r at %s" % (what, f.name, Qj[b]))
            close(Ri @ M, np.linalg.inv(E[root]) @ E[o], tol * 2, "%spose of %r relative to the root at %s" % (what, f.name, Qj[b]))
    return pairs


def serial_names(ch, want):
    got = list(ch.get_joint_parameter_names())
    require(len(got) == len(want) and all(w is None or w == g for g, w in zip(got, want)), lambda: "serial joints %s instead of %s" % (got, want))


def run(case, rec):
    c = case["doc"]
    xml, assets = text(c, split=case["split"])
    try:
        eng = Engine(xml, assets)
        if eng.tied():
            xml, assets = text(c, rename=True, split=case["split"])
            eng = Engine(xml, assets)
    except ValueError as e:
        raise HarnessError("MuJoCo rejects the document: %s\n%s" % (e, xml))
    m = eng.m
    unn = any(eng.name(o) is None for o in eng.objs)
    Qj = gen.cast(gen.rows(case["q"], max(1, m.njnt)), "f32") if m.njnt else np.zeros((2, 0))
    Qj = Qj[:, :m.njnt]
    rec.label("unnamed" if unn else "named", "sites" if m.nsite else None, "limited" if m.jnt_limited.any() else None,
              "ref" if np.any(m.qpos0) else None, "included" if assets else None)
    rec.nt(m.njnt >= 1 and m.nbody >= 3)
    kw = {} if assets is None else {"assets": assets}
    data = xml
    chain = pk.build_chain_from_mjcf(data, **kw)
    check(chain, eng, ("b", 0), Qj, "")
    # a sub-body as the root, by name or by index
    b = case["sub"] % m.nbody
    nm = eng.name(("b", b))
    key = nm if nm is not None and case["byname"] else b
    rec.label("sub" if b else None)
    check(pk.build_chain_from_mjcf(data, key, **kw), eng, ("b", b), Qj, "body=%r: " % (key,))
    if assets is None and not unn:
        o = eng.objs[case["tip"] % len(eng.objs)]
        p = [o]
        while p[0] in eng.parent:
            p.insert(0, eng.parent[p[0]])
        ch = pk.build_serial_chain_from_mjcf(data, eng.name(o))
        js = [eng.joint(k) for k in p[1:] if eng.joint(k) is not None]
        serial_names(ch, [eng.jname(j) for j in js])
        M = ch.forward_kinematics(torch.tensor(Qj[:, js], dtype=torch.float32)).get_matrix()
        for k in range(len(Qj)):
            close(M[k], eng.poses(Qj[k])[o], 2.5e-6 * (eng.depth() + 2) * eng.reach(Qj[k]) * 2, "serial pose of %r" % eng.name(o))
        b = p[case["base"] % len(p)]
        ch = pk.build_serial_chain_from_mjcf(data, eng.name(o), eng.name(b))
        js = [eng.joint(k) for k in p[p.index(b) + 1:] if eng.joint(k) is not None]
        serial_names(ch, [eng.jname(j) for j in js])
        M = ch.forward_kinematics(torch.tensor(Qj[:, js], dtype=torch.float32)).get_matrix()
        for k in range(len(Qj)):
            E = eng.poses(Qj[k])
            close(M[k], np.linalg.inv(E[b]) @ E[o], 2.5e-6 * (eng.depth() + 2) * eng.reach(Qj[k]) * 2, "serial pose of %r from %r" % (eng.name(o), eng.name(b)))


@st.composite
def cases(draw, **kw):
    doc = draw(mjcfs(**kw))
    nj = sum(b["joint"] is not None for b in doc["bodies"])
    return dict(doc=doc, q=draw(gen.configs(max(1, nj), st.integers(1, 3))), split=draw(st.one_of(st.none(), st.none(), st.integers(0, 3))),
                sub=draw(st.integers(0, 9)), byname=draw(st.booleans()), tip=draw(st.integers(0, 30)), base=draw(st.integers(0, 9)))


CHECK = Check("C10", [
    Facet("mjcf", cases(max_n=7), run, 700, 20000, shards=4),
    Facet("small", cases(max_n=3), run, 400, 6000, shards=2),
    Facet("large", cases(min_n=5, max_n=14), run, 120, 4000, shards=2),
    Facet("huge", cases(min_n=14, max_n=40), run, 24, 300, shards=3),
], rule="at least one joint and two bodies below the world",
    assumptions=["joints sit at the body origin", "named sites and bodies do not share names",
                 "unnamed objects are recognised by their place in the tree; models in which that is ambiguous get names"])
