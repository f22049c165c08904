"""Visual geometry of links: URDF and SDF against the generated description, MJCF against the MuJoCo engine."""
import copy

import mujoco
import numpy as np
import torch
from hypothesis import strategies as st
from lxml import etree

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import descr, gen, mjcftext, ref


def placed(v):
    return np.eye(4) if v.offset is None else gen.arr(v.offset.get_matrix()).reshape(-1, 4, 4)[0]


def same_place(M, want, what, sym=False, tol=1e-5):
    t = tol * (1 + np.abs(want[:3, 3]).max())
    close(M[:3, 3], want[:3, 3], t, what + ": position")
    if sym:  # a solid of revolution about z: any turn about z, or end for end, is the same placement
        z, w = M[:3, 2], want[:3, 2]
        require(min(np.abs(z - w).max(), np.abs(z + w).max()) <= tol, lambda: "%s: axis %s instead of %s" % (what, z, w))
        close(M[:3, :3] @ M[:3, :3].T, np.eye(3), tol, what + ": rotation")
    else:
        close(M[:3, :3], want[:3, :3], tol, what + ": rotation")
    close(M[3], np.array([0, 0, 0, 1.0]), 0, what + ": last row")


def params(v, g, fmt, what):
    k, p = g["kind"], v.geom_param
    require(v.geom_type == k, lambda: "%s: shape %r instead of %r" % (what, v.geom_type, k))
    if k == "box":
        close(np.array(p, float), np.array(g["size"]), 1e-6, what + ": size")
    elif k in ("cylinder", "capsule"):
        close(np.array(p, float), np.array(g["size"][:2]), 1e-6, what + ": radius and length")
    elif k == "sphere":
        close(np.array(p, float).reshape(-1), np.array(g["size"][:1]), 1e-6, what + ": radius")
    elif fmt == "urdf":
        require(p[0] == g["file"], lambda: "%s: mesh %r instead of %r" % (what, p[0], g["file"]))
        sc = p[1]
        require((sc is None) == (g["scale"] is None), lambda: "%s: scale %s instead of %s" % (what, sc, g["scale"]))
        if sc is not None:
            close(np.array(sc, float), np.array(g["scale"]), 1e-6, what + ": scale")
    else:
        require(p == g["file"], lambda: "%s: mesh %r instead of %r" % (what, p, g["file"]))


def links(chain, nodes, visuals, fmt, what):
    for n, vs in zip(nodes, visuals):
        got = chain.find_frame(n["name"]).link.visuals
        require(chain.find_link(n["name"]).visuals == got, lambda: "%slink %r found in two ways has different geometry" % (what, n["name"]))
        w = "%slink %r" % (what, n["name"])
        if fmt == "urdf":
            vs = vs[:1]
            if not vs:
                require(all(v.geom_type is None for v in got), lambda: "%s has geometry %s" % (w, [v.geom_type for v in got]))
                continue
        require(len(got) == len(vs), lambda: "%s: %d visuals instead of %d" % (w, len(got), len(vs)))
        for k, (v, g) in enumerate(zip(got, vs)):
            params(v, g, fmt, "%s, visual %d" % (w, k))
            same_place(placed(v), ref.origin(g["origin"]), "%s, visual %d" % (w, k), sym=fmt == "sdf" and g["kind"] == "cylinder")


def text(case, rec, fmt):
    nodes = case["robot"]["nodes"]
    write, build, serial = {"urdf": (descr.urdf_text, pk.build_chain_from_urdf, pk.build_serial_chain_from_urdf),
                            "sdf": (descr.sdf_text, pk.build_chain_from_sdf, pk.build_serial_chain_from_sdf)}[fmt]
    m = gen.Model(case["robot"]) if fmt == "urdf" else descr.sdf_model(case)
    V = case["visuals"]
    xml = write(case, V)
    tree = etree.fromstring(xml)
    for e in list(tree.iter("visual")):
        e.tail, _ = None, e.getparent().remove(e)
    bare = etree.tostring(tree, encoding="unicode")
    chain, plain = build(xml), build(bare)
    links(chain, nodes, V, fmt, "")
    links(plain, nodes, [[] for _ in nodes], fmt, "without geometry: ")
    Q = gen.cast(gen.rows(case["q"], len(m.joints)), "f32")
    x = torch.tensor(gen.to_chain_order(chain, m, Q), dtype=torch.float32)
    P, P0 = chain.forward_kinematics(x), plain.forward_kinematics(x)
    require(list(P) == list(P0), "geometry changes the frames")
    for k in P:
        close(P[k].get_matrix(), gen.arr(P0[k].get_matrix()), 1e-6, "pose of %r with and without geometry" % k)
    require(chain.get_joint_limits() == plain.get_joint_limits(), "geometry changes the limits")
    links(chain, nodes, V, fmt, "after kinematics: ")
    # conversions and extraction keep the geometry
    c64 = chain.to(dtype=torch.float64)
    links(c64, nodes, V, fmt, "after conversion: ")
    b = case["tip"] % len(nodes)
    path = gen.path(case["robot"], b)
    s = [lambda: serial(xml, nodes[b]["name"]), lambda: pk.SerialChain(chain, nodes[b]["name"])][case["style"] % 2]()
    links(s, [nodes[i] for i in path], [V[i] for i in path], fmt, "serial chain: ")
    kinds = {g["kind"] for v in V for g in v}
    rec.label("n%d" % min(len(nodes), 6), *["%s_%s" % (fmt, k) for k in kinds])
    rec.label("several" if any(len(v) > 1 for v in V) else None, "none" if any(not v for v in V) else None)
    rec.nt(bool(kinds) and len(nodes) > 1)


def urdf(case, rec):
    text(case, rec, "urdf")


def sdf(case, rec):
    text(case, rec, "sdf")


def mjcf(case, rec):
    c = case["c"]
    xml, _ = mjcftext.text(c, True)
    bare = copy.deepcopy(c)
    for b in bare["bodies"]:
        b["geoms"] = []
    bare["wgeoms"] = []
    eng = mjcftext.Engine(xml)
    m, d = eng.m, eng.d
    ids = list(range(m.nbody))
    root = case["root"] % m.nbody if case["root"] is not None else None
    kw = {} if root is None else {"body": m.body(root).name if case["byname"] else root}
    chain = pk.build_chain_from_mjcf(xml, **kw)
    plain = pk.build_chain_from_mjcf(mjcftext.text(bare, True)[0], **kw)
    names = chain.get_joint_parameter_names()
    q = np.random.RandomState(case["seed"] % 2**32).uniform(-2, 2, m.njnt).round(3)
    mine = {mujoco.mj_id2name(m, mujoco.mjtObj.mjOBJ_JOINT, j): q[j] for j in range(m.njnt)}
    x = torch.tensor([[mine[n] for n in names]], dtype=torch.float32).reshape(1, -1)
    P, P0 = chain.forward_kinematics(x), plain.forward_kinematics(x)
    require(list(P) == list(P0), "geometry changes the frames")
    for k in P:
        close(P[k].get_matrix(), gen.arr(P0[k].get_matrix()), 1e-6, "pose of %r with and without geometry" % k)
    eng.poses(q)
    sub = eng.subtree(("b", root or 0))
    count = 0
    for o in sub:
        if o[0] == "s":
            nm = m.site(o[1]).name
            require(not list(chain.find_frame(nm).link.visuals), lambda: "site %r has geometry" % nm)
            continue
        i = o[1]
        nm = m.body(i).name
        got = list(chain.find_frame(nm).link.visuals)
        G = [g for g in range(m.ngeom) if m.geom_bodyid[g] == i]
        require(len(got) == len(G), lambda: "body %r: %d geoms instead of %d" % (nm, len(got), len(G)))
        B = np.eye(4)
        B[:3, :3], B[:3, 3] = d.xmat[i].reshape(3, 3), d.xpos[i]
        count += len(G)
        for k, (v, g) in enumerate(zip(got, G)):
            w = "body %r, geom %d" % (nm, k)
            require(int(np.ravel(v.geom_type)[0]) == int(m.geom_type[g]), lambda: "%s: type %s instead of %d" % (w, v.geom_type, m.geom_type[g]))
            close(np.array(v.geom_param, float), m.geom_size[g], 1e-6, w + ": size")
            W = np.eye(4)
            W[:3, :3], W[:3, 3] = d.geom_xmat[g].reshape(3, 3), d.geom_xpos[g]
            same_place(placed(v), np.linalg.inv(B) @ W, w, tol=2e-5)
    rec.label("root" if root else "whole", *["type%d" % t for t in set(m.geom_type)])
    rec.nt(count > 0 and m.nbody > 2)


@st.composite
def cases(draw, base, kinds):
    c = draw(base(max_n=6))
    c["visuals"] = [[draw(descr.geom(kinds)) for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3])))] for _ in c["robot"]["nodes"]]
    c["tip"] = draw(st.integers(0, 9))
    return c


MC = st.fixed_dictionaries(dict(c=mjcftext.mjcfs(geoms=True), seed=gen.SEED, root=st.one_of(st.none(), st.none(), st.integers(0, 9)), byname=st.booleans()))
CHECK = Check("C31", [
    Facet("urdf", cases(descr.urdf_cases, descr.GEOMS), urdf, quick=300, thorough=9000, shards=2),
    Facet("sdf", cases(descr.sdf_cases, ["box", "cylinder", "sphere", "mesh"]), sdf, quick=300, thorough=9000, shards=2),
    Facet("mjcf", MC, mjcf, quick=300, thorough=9000, shards=2),
], rule="at least two links (MJCF: two bodies besides the world) and a visual",
    assumptions=["the placement of a cylinder is compared up to its symmetry in SDF", "SDF mesh visuals carry the file name only"])
