"""MJCF documents of the supported class: generator, text, and the MuJoCo engine as oracle."""
from xml.sax.saxutils import quoteattr

import mujoco
import numpy as np
from hypothesis import strategies as st

from . import gen, ref


def f(v):
    return " ".join(repr(float(x)) for x in v)


@st.composite
def rot(draw, angle):
    k = draw(st.sampled_from(["none", "none", "quat", "euler", "axisangle", "xyaxes", "zaxis"]))
    if k == "none":
        return None
    a = lambda: draw(st.one_of(gen.num(-3.1, 3.1), st.sampled_from([0.0, gen.PI, gen.PI / 2, -gen.PI / 2])))
    if k == "quat":
        q = [draw(gen.num(-1, 1)) for _ in range(4)]
        if sum(x * x for x in q) < 0.05:
            q = [0.0, 1.0, 0.0, 0.0]
        return [k, q]
    s = 1.0 if angle == "radian" else 180.0 / gen.PI
    if k == "euler":
        return [k, [a() * s for _ in range(3)]]
    if k == "axisangle":
        return [k, draw(gen.unit3()) + [a() * s]]
    if k == "zaxis":
        return [k, draw(gen.unit3())]
    x = draw(gen.unit3())
    y = np.cross(x, [0.3, -0.5, 0.8])
    if np.linalg.norm(y) < 1e-2:
        y = np.cross(x, [1.0, 0, 0])
    return [k, x + [float(v) for v in np.asarray(y) + 0.3 * np.asarray(x)]]


@st.composite
def pos(draw):
    return [draw(gen.lengths()) for _ in range(3)] if draw(st.integers(0, 3)) else None


def rng_of(draw, slide, s):
    a, b = draw(gen.num(-4, 4)), draw(gen.num(-4, 4))
    if abs(a - b) < 1e-2:
        b = a + 1.0
    u = 1.0 if slide else s
    return [min(a, b) * u, max(a, b) * u]


SITE_N = ["s%d" % i for i in range(400)]
GEOM_EXTRA = ["", "", "", ' contype="0" conaffinity="0"', ' group="2"', ' group="5" rgba="1 0 0 0"', ' rgba="0 0 0 0.5" mass="0"', ' density="0"']
MESH = '<asset><mesh name="me" vertex="0 0 0  1 0 0  0 1 0  0 0 1.5"/></asset>'
GEOMT = ["sphere", "capsule", "box", "cylinder", "ellipsoid"]


@st.composite
def mjcfs(draw, min_n=0, max_n=7, geoms=False):
    n = draw(st.integers(min_n, max_n))
    angle = draw(st.sampled_from(["radian", "degree", None]))
    s = 1.0 if angle == "radian" else 180.0 / gen.PI
    auto = draw(st.booleans())
    names, jnames = draw(gen.namesets(n + 1))
    # sites and bodies share the frame namespace, 'world' is taken
    names = [x if x != "world" else "world_" for x in names]
    unn = draw(st.integers(0, 3)) == 0
    topo = draw(st.sampled_from(["chain", "random", "random", "star"]))
    bodies, ns = [], [0]
    kin = gen.family(12, draw(gen.SEED)) if draw(st.booleans()) else None

    def sites():
        out = []
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
            nm = None if unn and draw(st.booleans()) else ("S" + kin[ns[0]] if kin and ns[0] < len(kin) else SITE_N[ns[0]] + "_site")
            ns[0] += 1
            out.append(dict(name=nm, pos=draw(pos()), rot=draw(rot(angle))))
        return out

    def geomlist(world=False):
        if not geoms:
            return []
        out = []
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 2, 3, 5]))):
            if out and draw(st.integers(0, 4)) == 0:
                out.append(dict(out[-1], type=draw(st.sampled_from(GEOMT))))
                continue
            out.append(dict(type=draw(st.sampled_from(GEOMT + ["mesh"] + (["plane"] * 2 if world else []))), extra=draw(st.sampled_from(GEOM_EXTRA)), size=[draw(gen.num(0.02, 1)) for _ in range(3)], pos=draw(pos()),
                            rot=draw(rot(angle)), name=None))
        return out

    for i in range(n):
        par = -1 if i == 0 else {"chain": i - 1, "random": draw(st.integers(-1, i - 1)), "star": draw(st.sampled_from([-1, 0]))}[topo]
        jt = draw(st.sampled_from(["hinge", "slide", "hinge", None, "hinge_default"]))
        j = None
        if jt:
            slide = jt == "slide"
            r = rng_of(draw, slide, s) if draw(st.booleans()) else None
            lim = None
            if r is not None:
                lim = draw(st.sampled_from(["true", "false"])) if not auto else draw(st.sampled_from([None, "auto", "true", "false"]))
            elif draw(st.integers(0, 3)) == 0:
                lim = draw(st.sampled_from(["false", "auto"]))
            rf = None
            if draw(st.integers(0, 3)) == 0:
                rf = draw(gen.num(-3, 3)) * (1.0 if slide else s)
            j = dict(type=jt, name=None if unn and draw(st.booleans()) else jnames[i], axis=draw(st.one_of(st.none(), gen.axes())), range=r,
                     limited=lim, ref=rf)
        bodies.append(dict(parent=par, name=None if unn and draw(st.booleans()) else names[i], pos=draw(pos()), rot=draw(rot(angle)),
                           joint=j, sites=sites(), geoms=geomlist(),
                           massless=j is None and draw(st.booleans())))
    return dict(angle=angle, auto=auto, seq=draw(st.sampled_from([None, None, "XYZ", "zyx", "ZXZ"])), bodies=bodies, wsites=sites(),
                wgeoms=geomlist(True), dflt=draw(st.booleans()), order=draw(st.booleans()))


def attrs(o):
    a = ""
    if o["name"] is not None:
        a += " name=%s" % quoteattr(o["name"])
    if o["pos"] is not None:
        a += ' pos="%s"' % f(o["pos"])
    if o["rot"] is not None:
        a += ' %s="%s"' % (o["rot"][0], f(o["rot"][1]))
    return a


def text(c, rename=False, split=None):
    """rename: give every unnamed object a name. split: index of a top-level body to put in an included file -> (text, assets)."""
    def nm(o, k):
        if rename and o["name"] is None:
            o = dict(o, name=k)
        return o

    cnt = [0]
    meshes = []

    def site(sx):
        cnt[0] += 1
        return "<site%s/>" % attrs(nm(sx, "us%d" % cnt[0]))

    def geom(g):
        if g["type"] == "mesh":
            meshes.append(1)
            return '<geom type="mesh" mesh="me"%s%s/>' % (g.get("extra", ""), attrs(g))
        return '<geom type="%s" size="%s"%s%s/>' % (g["type"], f(g["size"]), g.get("extra", ""), attrs(g))

    def body(i):
        b = c["bodies"][i]
        head = "<body%s>" % attrs(nm(b, "ub%d" % i))
        parts = [] if b.get("massless") else ['<inertial pos="0 0 0" mass="1" diaginertia="1 1 1"/>']
        j = b["joint"]
        if j:
            a = ""
            if j["name"] is not None or rename:
                a += " name=%s" % quoteattr(j["name"] if j["name"] is not None else "uj%d" % i)
            if j["type"] != "hinge_default":
                a += ' type="%s"' % j["type"]
            if j["axis"] is not None:
                a += ' axis="%s"' % f(j["axis"])
            if j["range"] is not None:
                a += ' range="%s"' % f(j["range"])
            if j["limited"] is not None:
                a += ' limited="%s"' % j["limited"]
            if j["ref"] is not None:
                a += ' ref="%r"' % j["ref"]
            parts.append("<joint%s/>" % a)
        kids = [body(k) for k, x in enumerate(c["bodies"]) if x["parent"] == i]
        ss = [site(x) for x in b["sites"]] + [geom(g) for g in b["geoms"]]
        parts += (kids + ss) if c["order"] else (ss + kids)
        return head + "".join(parts) + "</body>"

    comp = "<compiler"
    if c["angle"]:
        comp += ' angle="%s"' % c["angle"]
    if not c["auto"]:
        comp += ' autolimits="false"'
    if c["seq"]:
        comp += ' eulerseq="%s"' % c["seq"]
    comp += "/>"
    dflt = '<default><joint axis="0 1 0" damping="1"/></default>' if c["dflt"] else ""
    top = [body(k) for k, x in enumerate(c["bodies"]) if x["parent"] == -1]
    assets = None
    if split is not None and top:
        k = split % len(top)
        assets = {"part.xml": ("<mujoco>%s</mujoco>" % top[k]).encode()}
        top[k] = '<include file="part.xml"/>'
    ws = [site(x) for x in c["wsites"]] + [geom(g) for g in c["wgeoms"]]
    parts = (top + ws) if c["order"] else (ws + top)
    return '<mujoco model="m">%s%s%s<worldbody>%s</worldbody></mujoco>' % (comp, dflt, MESH if meshes else "", "".join(parts)), assets


class Engine:
    """MuJoCo's own kinematics of a document. Objects: ('b', id) and ('s', id)."""

    def __init__(self, xml, assets=None):
        self.m = mujoco.MjModel.from_xml_string(xml, assets=assets)
        self.d = mujoco.MjData(self.m)
        m = self.m
        self.objs = [("b", i) for i in range(m.nbody)] + [("s", i) for i in range(m.nsite)]
        self.parent = {("b", i): ("b", int(m.body_parentid[i])) for i in range(1, m.nbody)}
        self.parent.update({("s", i): ("b", int(m.site_bodyid[i])) for i in range(m.nsite)})
        self.children = {o: [k for k in self.objs if self.parent.get(k) == o] for o in self.objs}

    def name(self, o):
        m = self.m
        return (m.body(o[1]).name if o[0] == "b" else m.site(o[1]).name) or None

    def joint(self, o):
        """None or the joint id."""
        if o[0] == "s" or self.m.body_jntnum[o[1]] == 0:
            return None
        return int(self.m.body_jntadr[o[1]])

    def jname(self, j):
        return self.m.joint(j).name or None

    def limits(self, j):
        return [float(x) for x in self.m.jnt_range[j]] if self.m.jnt_limited[j] else None

    def poses(self, q):
        """q: one value per joint id -> {obj: 4x4}"""
        m, d = self.m, self.d
        for j in range(m.njnt):
            d.qpos[m.jnt_qposadr[j]] = q[j]
        mujoco.mj_kinematics(m, d)
        out = {}
        for o in self.objs:
            R, t = (d.xmat, d.xpos) if o[0] == "b" else (d.site_xmat, d.site_xpos)
            out[o] = ref.hom(np.array(R[o[1]]).reshape(3, 3), np.array(t[o[1]]))
        return out

    def local(self, o):
        m = self.m
        q, t = (m.body_quat, m.body_pos) if o[0] == "b" else (m.site_quat, m.site_pos)
        return ref.hom(ref.q2R(np.array(q[o[1]])), np.array(t[o[1]]))

    def tied(self):
        """Two unnamed siblings at the same place: they cannot be told apart by their poses."""
        for o in self.objs:
            un = [k for k in self.children[o] if self.name(k) is None]
            for i in range(len(un)):
                for k in range(i):
                    if np.abs(self.local(un[i]) - self.local(un[k])).max() < 0.02:
                        return True
        return False

    def subtree(self, o):
        out = [o]
        for k in self.children[o]:
            out += self.subtree(k)
        return out

    def reach(self, q):
        return 1 + sum(np.linalg.norm(self.local(o)[:3, 3]) for o in self.objs) + sum(
            abs(q[j]) + abs(self.m.qpos0[self.m.jnt_qposadr[j]]) for j in range(self.m.njnt) if self.m.jnt_type[j] == 2)

    def depth(self):
        d = 0
        for o in self.objs:
            k = 0
            while o in self.parent:
                o = self.parent[o]
                k += 1
            d = max(d, k)
        return d
