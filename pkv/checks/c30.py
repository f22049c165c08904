"""Round trips of robot descriptions: XML -> objects -> XML -> objects, edits and programmatic construction, against a table of the
vocabulary that is independent of the code's own reflection tables."""
import importlib
import io
import contextlib
import random
from xml.sax.saxutils import escape, quoteattr

import numpy as np
import torch
import yaml
from hypothesis import strategies as st
from lxml import etree

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import descr, gen

UR = importlib.import_module("pytorch_kinematics.urdf_parser_py.urdf")
SD = importlib.import_module("pytorch_kinematics.urdf_parser_py.sdf")
Z3 = [0.0, 0.0, 0.0]


def F(kind, name, typ, req=False, default=None, var=None):
    return dict(kind=kind, name=name, type=typ, req=req, default=default, var=var or (name + "s" if kind == "agg" else name))


def A(*a, **k):
    return F("a", *a, **k)


def E(*a, **k):
    return F("e", *a, **k)


def G(*a, **k):
    return F("agg", *a, **k)


GEOM_U = {"box": "Box", "cylinder": "Cylinder", "capsule": "Capsule", "sphere": "Sphere", "mesh": "Mesh"}
GEOM_S = {"box": "Box", "cylinder": "Cylinder", "sphere": "Sphere", "mesh": "Mesh"}
INERTIA = ["ixx", "ixy", "ixz", "iyy", "iyz", "izz"]
# The vocabulary. Types: f number, s string, b boolean, vK vector, x:attr one attribute of the element, #Name an object, geom one of several, raw
URDF = {
    "Pose": [A("xyz", "v3", default=Z3), A("rpy", "v3", default=Z3)],
    "Color": [A("rgba", "v4", True)],
    "Texture": [A("filename", "s", True)],
    "Material": [A("name", "s", True), E("color", "#Color"), E("texture", "#Texture")],
    "LinkMaterial": [A("name", "s", True), E("color", "#Color"), E("texture", "#Texture")],
    "Box": [A("size", "v3", True)],
    "Cylinder": [A("radius", "f", True), A("length", "f", True)],
    "Capsule": [A("radius", "f", True), A("length", "f", True)],
    "Sphere": [A("radius", "f", True)],
    "Mesh": [A("filename", "s", True), A("scale", "v3")],
    "Visual": [E("origin", "#Pose"), E("geometry", "geom", True), E("material", "#LinkMaterial")],
    "Collision": [E("origin", "#Pose"), E("geometry", "geom", True)],
    "Inertia": [A(k, "f", True) for k in INERTIA],
    "Inertial": [E("origin", "#Pose"), E("mass", "x:value", True), E("inertia", "#Inertia")],
    "Link": [A("name", "s", True), E("origin", "#Pose"), G("visual", "#Visual"), G("collision", "#Collision"), E("inertial", "#Inertial")],
    "JointCalibration": [A("rising", "f", default=0), A("falling", "f", default=0)],
    "JointDynamics": [A("damping", "f"), A("friction", "f")],
    "JointLimit": [A("effort", "f", True), A("velocity", "f", True), A("lower", "f", default=0), A("upper", "f", default=0)],
    "JointMimic": [A("joint", "s", True), A("multiplier", "f"), A("offset", "f")],
    "SafetyController": [A("k_velocity", "f", True), A("k_position", "f", default=0), A("soft_lower_limit", "f", default=0), A("soft_upper_limit", "f", default=0)],
    "Joint": [A("name", "s", True), A("type", "s", True), E("origin", "#Pose"), E("axis", "x:xyz"), E("parent", "x:link", True), E("child", "x:link", True),
              E("limit", "#JointLimit"), E("dynamics", "#JointDynamics"), E("safety_controller", "#SafetyController"), E("calibration", "#JointCalibration"),
              E("mimic", "#JointMimic")],
    "Actuator": [A("name", "s", True), E("mechanicalReduction", "f")],
    "TransmissionJoint": [A("name", "s", True), G("hardwareInterface", "s")],
    "Transmission": [A("name", "s", True), E("type", "s", True), G("joint", "#TransmissionJoint"), G("actuator", "#Actuator")],
    "PR2Transmission": [A("name", "s", True), A("type", "s", True), E("joint", "x:name", True), E("actuator", "x:name", True), E("mechanicalReduction", "f", True)],
    "Robot": [A("name", "s"), G("link", "#Link"), G("joint", "#Joint"), G("material", "#Material"), G("transmission", "trans"), G("gazebo", "raw")],
}
SDF = {
    "Inertia": [E(k, "f", True) for k in INERTIA],
    "Inertial": [E("mass", "f"), E("inertia", "#Inertia"), E("pose", "v6")],
    "Box": [E("size", "v3", True)],
    "Cylinder": [E("radius", "f", True), E("length", "f", True)],
    "Sphere": [E("radius", "f", True)],
    "Mesh": [E("filename", "s", True), E("scale", "v3")],
    "Script": [E("name", "s"), E("uri", "s")],
    "Material": [A("name", "s"), E("script", "#Script")],
    "Visual": [A("name", "s"), E("geometry", "geom", True), E("material", "#Material"), E("pose", "v6")],
    "Collision": [A("name", "s"), E("geometry", "geom", True), E("pose", "v6")],
    "Dynamics": [E("damping", "f"), E("friction", "f")],
    "Limit": [E("lower", "f"), E("upper", "f")],
    "Axis": [E("xyz", "v3", True), E("limit", "#Limit"), E("dynamics", "#Dynamics"), E("use_parent_model_frame", "b")],
    "Joint": [A("name", "s"), A("type", "s"), E("axis", "#Axis"), E("parent", "s", True), E("child", "s", True), E("pose", "v6")],
    "Link": [A("name", "s"), E("inertial", "#Inertial"), A("kinematic", "b"), G("visual", "#Visual"), G("collision", "#Collision"), E("pose", "v6")],
    "Model": [A("name", "s"), G("link", "#Link"), G("joint", "#Joint"), E("pose", "v6")],
    "SDF": [A("version", "s"), E("model", "#Model")],
}
RAW = [
    '<gazebo reference="l"><material>Gazebo/Blue</material><mu1>0.2</mu1></gazebo>', "<gazebo/>", '<gazebo><plugin name="p" filename="q.so"><a b="1"><c>t</c></a></plugin></gazebo>',
    '<gazebo reference="a&amp;b">text</gazebo>',
]


class Lang:
    def __init__(self, schema, mod, geoms, top):
        self.schema, self.mod, self.geoms, self.top = schema, mod, geoms, top

    def cls(self, name):
        return getattr(self.mod, name)

    def tname(self, t, v):
        """Schema name of the value of an object-like type."""
        if t == "geom":
            return self.geoms[v["_tag"]]
        if t == "trans":
            return v["_tag"]
        return t[1:]


URDF_L, SDF_L = Lang(URDF, UR, GEOM_U, "Robot"), Lang(SDF, SD, GEOM_S, "SDF")


def isobj(t):
    return t[0] == "#" or t in ("geom", "trans")


# ------------------------------------------------------------------ generation (plain data from a seed)
STR = ["a", "link_1", "x y", "a&b", "it's", 'q"uote', "<t>", "ünï", "0", "1e3", "true", "None", "package://r/m.stl", "ns::link", "tab.le", "-"]


class Gen:
    def __init__(self, lang, seed, density):
        self.L, self.r, self.p = lang, random.Random(seed), density

    def num(self):
        r = self.r
        return r.choice([0.0, 1.0, -1.0, 0.1, 1 / 3, 1e-12, -2.5e7, 123456789.123, 1e22, r.uniform(-10, 10), round(r.uniform(-3, 3), 3), 3.141592653589793])

    def scalar(self, t):
        r = self.r
        if t == "f" or t == "x:value":
            return self.num()
        if t == "b":
            return r.random() < .5
        if t[0] == "v" or t == "x:xyz":
            return [self.num() for _ in range(3 if t == "x:xyz" else int(t[1:]))]
        return r.choice(STR) + r.choice(["", "", "%d" % r.randrange(100)])

    def value(self, t):
        if t == "raw":
            return {"_raw": self.r.choice(RAW)}
        if isobj(t):
            if t == "geom":
                tag = self.r.choice(sorted(self.L.geoms))
                return dict(self.obj(self.L.geoms[tag]), _tag=tag)
            if t == "trans":
                n = self.r.choice(["Transmission", "PR2Transmission"])
                return dict(self.obj(n), _tag=n)
            return self.obj(t[1:])
        return self.scalar(t)

    def obj(self, name):
        d, order = {}, []
        for f in self.L.schema[name]:
            if f["kind"] == "agg":
                k = self.r.choice([0, 1, 1, 2, 3]) if self.r.random() < self.p else 0
                if name in ("Transmission", "TransmissionJoint"):
                    k = max(k, 1)
                d[f["name"]] = [self.value(f["type"]) for _ in range(k)]
                order += [(f["name"], i) for i in range(k)]
            else:
                d[f["name"]] = self.value(f["type"]) if f["req"] or self.r.random() < self.p else None
        self.shuffle(order)
        if order or any(f["kind"] == "agg" for f in self.L.schema[name]):
            d["_order"] = [list(o) for o in order]
        if name == "Color" and self.r.random() < .5:  # the default opacity
            d["rgba"][3] = 1.0
        if name == "Joint" and self.L is URDF_L:
            d["type"] = self.r.choice(["revolute", "fixed", "floating", "planar", "unknown"])
        return d

    def shuffle(self, order):
        """Document order, keeping the order within each kind."""
        self.r.shuffle(order)
        seen = {}
        for k, (n, _) in enumerate(order):
            order[k] = (n, seen.setdefault(n, 0))
            seen[n] += 1

    def robot(self, n, names, jnames, extreme):
        """A URDF or SDF tree of n links with consistent joints."""
        L, r = self.L, self.r
        top = self.obj(L.top)
        if L is SDF_L:
            top["model"] = self.obj("Model")
            M = top["model"]
            M["pose"] = None if r.random() < .7 else M["pose"]
        else:
            M = top
        M["link"], M["joint"] = [], []
        for i in range(n):
            l = self.obj("Link")
            l["name"] = names[i]
            M["link"].append(l)
            if i:
                j = self.obj("Joint")
                j["name"] = jnames[i]
                j["parent"], j["child"] = names[r.randrange(i)], names[i]
                if L is URDF_L:
                    j["type"] = r.choice(["revolute", "continuous", "prismatic", "fixed"])
                    j["mimic"] = None if r.random() < .7 else j["mimic"]
                    if j["type"] == "prismatic" and j["limit"] is None:
                        j["limit"] = self.obj("JointLimit")
                    ax = "axis"
                    if j["axis"] is not None:
                        j["axis"] = [r.choice([0.0, 1.0, -1.0, .5]), r.choice([0.0, 1.0]), 1.0]
                else:
                    j["type"] = r.choice(["revolute", "prismatic", "fixed"])
                    if j["axis"] is None and j["type"] != "fixed":
                        j["axis"] = self.obj("Axis")
                    if j["axis"] is not None:
                        j["axis"]["xyz"] = [r.choice([0.0, 1.0, -1.0, .5]), r.choice([0.0, 1.0]), 1.0]
                M["joint"].append(j)
        agg = [f["name"] for f in L.schema["Model" if L is SDF_L else "Robot"] if f["kind"] == "agg"]
        order = [(a, i) for a in agg for i in range(len(M[a]))]
        self.shuffle(order)
        M["_order"] = [list(o) for o in order]
        if not extreme:
            small(top)
        return top


def small(d):
    """Keep magnitudes near 1 so that kinematics stay meaningful."""
    for k, v in d.items() if isinstance(d, dict) else enumerate(d):
        if isinstance(v, float):
            if abs(v) > 10 or 0 < abs(v) < 1e-6:
                d[k] = 0.25
        elif isinstance(v, (dict, list)):
            small(v)


# ------------------------------------------------------------------ text
def word(r, t, v):
    if t == "b":
        return r.choice(["true", "1", "True"] if v else ["false", "0", "False"])
    if isinstance(v, list):
        return descr.vec(r, v)
    if isinstance(v, (int, float)):
        return descr.number(r, v)
    return v


def write(L, name, d, tag, r):
    """Own writer of XML text."""
    attrs, parts, groups = [], [], {}
    for f in L.schema[name]:
        v = d[f["name"]]
        if f["kind"] == "agg":
            groups[f["name"]] = f
            continue
        if v is None or (v == f["default"] and f["default"] is not None and r.random() < .5):
            continue
        if f["kind"] == "a":
            attrs.append("%s=%s" % (f["name"], quoteattr(word(r, f["type"], v))))
        else:
            parts.append(element(L, f, v, r))
    r.shuffle(attrs)
    body = [element(L, groups[n], d[n][i], r) for n, i in d.get("_order", [])]
    for p in parts:
        body.insert(r.randrange(len(body) + 1), p)
    if r.random() < .1:
        body.insert(r.randrange(len(body) + 1), "<!-- c -->")
    nl = r.choice(["", "", "\n  "]) if body else ""
    head = " ".join([tag] + attrs)
    return "<%s>%s%s</%s>" % (head, nl, nl.join(body), tag) if body or r.random() < .3 else "<%s/>" % head


def element(L, f, v, r):
    t, tag = f["type"], f["name"]
    if t == "raw":
        return v["_raw"]
    if t == "geom":
        return "<%s>%s</%s>" % (tag, write(L, L.geoms[v["_tag"]], v, v["_tag"], r), tag)
    if isobj(t):
        return write(L, L.tname(t, v), v, tag, r)
    if t[:2] == "x:":
        return "<%s %s=%s/>" % (tag, t[2:], quoteattr(word(r, t, v)))
    return "<%s>%s</%s>" % (tag, escape(word(r, t, v)), tag)


# ------------------------------------------------------------------ comparison
def canon_raw(e):
    return (e.tag, sorted(e.attrib.items()), (e.text or "").strip(), [canon_raw(c) for c in e if isinstance(c.tag, str)])


def same(a, b, what):
    if isinstance(a, tuple) and isinstance(b, list):  # numbers passed one by one
        a = list(a)
    require(type(a) is type(b) or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool)),
            lambda: "%s is %r instead of %r" % (what, a, b))
    require(a == b, lambda: "%s is %r instead of %r" % (what, a, b))


def check(L, name, obj, d, what):
    """The object has exactly the described content."""
    require(type(obj) is L.cls(name), lambda: "%s is a %s instead of a %s" % (what, type(obj).__name__, name))
    for f in L.schema[name]:
        v, have = d[f["name"]], getattr(obj, f["var"])
        w = "%s/%s" % (what, f["name"])
        if f["kind"] == "agg":
            require(len(have) == len(v), lambda: "%s: %d instead of %d" % (w, len(have), len(v)))
            for i, (h, x) in enumerate(zip(have, v)):
                one(L, f, h, x, "%s[%d]" % (w, i))
            continue
        if v is None:
            v = f["default"]
        if v is None:
            require(have is None, lambda: "%s is %r instead of absent" % (w, have))
        else:
            one(L, f, have, v, w)


def one(L, f, have, v, w):
    t = f["type"]
    if t == "raw":
        require(canon_raw(have) == canon_raw(etree.fromstring(v["_raw"])), lambda: "%s is %s instead of %s" % (w, etree.tostring(have), v["_raw"]))
    elif isobj(t):
        require(have is not None, lambda: "%s is absent" % w)
        check(L, L.tname(t, v), have, v, w)
    else:
        same(have, v, w)


def check_xml(L, name, node, d, what):
    """The written XML has exactly the described content (read without the library)."""
    F_ = {f["name"]: f for f in L.schema[name]}
    attrs = dict(node.attrib)
    kids = [c for c in node if isinstance(c.tag, str)]
    for f in L.schema[name]:
        v = d[f["name"]]
        if f["kind"] == "a":
            s = attrs.pop(f["name"], None)
            xml_value(f, s, v, "%s@%s" % (what, f["name"]))
        elif f["kind"] == "e":
            mine = [c for c in kids if c.tag == f["name"]]
            require(len(mine) <= 1, lambda: "%s: several <%s>" % (what, f["name"]))
            if not mine:
                require(v is None or v == f["default"], lambda: "%s: no <%s>" % (what, f["name"]))
            else:
                require(v is not None or f["default"] is not None, lambda: "%s: unexpected <%s>" % (what, f["name"]))
                xml_element(L, f, mine[0], v, "%s/%s" % (what, f["name"]))
    require(not attrs, lambda: "%s: unexpected attributes %s" % (what, attrs))
    require(all(c.tag in F_ for c in kids), lambda: "%s: unexpected tags %s" % (what, [c.tag for c in kids]))
    seq = [c for c in kids if F_[c.tag]["kind"] == "agg"]
    want = [n for n, _ in d.get("_order", [])]
    require([c.tag for c in seq] == want, lambda: "%s: order %s instead of %s" % (what, [c.tag for c in seq], want))
    for c, (n, i) in zip(seq, d.get("_order", [])):
        xml_element(L, F_[n], c, d[n][i], "%s/%s[%d]" % (what, n, i))


def xml_value(f, s, v, what):
    if v is None:
        v = f["default"]
    if s is None:
        require(v is None or v == f["default"], lambda: "%s is missing" % what)
        return
    t = f["type"]
    require(v is not None, lambda: "%s is %r instead of absent" % (what, s))
    if t == "b":
        got = {"true": True, "1": True, "false": False, "0": False}.get(s.strip())
    elif isinstance(v, list):
        got = [float(x) for x in s.split()]
    elif isinstance(v, str):
        got = s
    else:
        got = float(s)
    same(got, v, what)


def xml_element(L, f, node, v, what):
    t = f["type"]
    if t == "raw":
        require(canon_raw(node) == canon_raw(etree.fromstring(v["_raw"])), lambda: "%s is %s instead of %s" % (what, etree.tostring(node), v["_raw"]))
    elif t == "geom":
        kids = [c for c in node if isinstance(c.tag, str)]
        require(len(kids) == 1 and kids[0].tag == v["_tag"], lambda: "%s: %s instead of %s" % (what, [c.tag for c in kids], v["_tag"]))
        check_xml(L, L.geoms[v["_tag"]], kids[0], v, what)
    elif isobj(t):
        check_xml(L, L.tname(t, v), node, v, what)
    elif t[:2] == "x:":
        require(list(node.attrib) == [t[2:]], lambda: "%s: attributes %s" % (what, list(node.attrib)))
        xml_value(f, node.get(t[2:]), v, what)
    else:
        xml_value(f, node.text, v, what)


def quietly(f):
    with contextlib.redirect_stderr(io.StringIO()):
        return f()


def parse(L, text):
    return quietly(lambda: L.cls(L.top).from_xml_string(text))


def dump(o):
    s = str(o)
    require(isinstance(s, str) and len(s) > 0, "empty textual dump")
    return s


def texts(L, o, d, what):
    """Write, compare, read back, write again."""
    before = dump(o)
    w1 = quietly(o.to_xml_string)
    w2 = quietly(o.to_xml_string)
    require(w1 == w2, lambda: "%s: writing twice gives different texts" % what)
    tag = {"Robot": "robot", "SDF": "sdf"}[L.top]
    node = etree.fromstring(w1)
    require(node.tag == tag, lambda: "%s: root <%s>" % (what, node.tag))
    check_xml(L, L.top, node, d, what + " (written)")
    check(L, L.top, o, d, what + " (object after writing)")
    o2 = parse(L, w1)
    check(L, L.top, o2, d, what + " (read back)")
    w3 = quietly(o2.to_xml_string)
    check_xml(L, L.top, etree.fromstring(w3), d, what + " (written again)")
    w4 = quietly(parse(L, w3).to_xml_string)
    require(w4 == w3, lambda: "%s: repeated writing is not a fixed point" % what)
    w5 = quietly(lambda: o.to_xml_string(addHeader=False))
    require(etree.tostring(etree.fromstring(w5)) == etree.tostring(node), lambda: "%s: without header" % what)
    require(dump(o) == before, lambda: "%s: writing changes the dump" % what)
    x, y = loaded(before), loaded(dump(o2))
    require(x == y, lambda: "%s: the dump differs after reading back: %s instead of %s" % (what, y, x))
    return w1, o2


def loaded(text):
    y = yaml.safe_load(text)
    if isinstance(y, dict):
        y.pop("gazebos", None)  # raw text, subject to indentation
    return y


def build(case, L):
    g = Gen(L, case["seed"], case["density"])
    d = g.robot(case["n"], case["names"], case["jnames"], case["extreme"])
    return g, d, write(L, L.top, d, {"Robot": "robot", "SDF": "sdf"}[L.top], g.r)


def maps(L, o, d):
    """Root, chain and map queries agree with the topology."""
    M, D = (o, d) if L is URDF_L else (o.model, d["model"])
    par = {j["child"]: j for j in D["joint"]}
    require(sorted(M.link_map) == sorted(l["name"] for l in D["link"]), "link map")
    require(sorted(M.joint_map) == sorted(j["name"] for j in D["joint"]), "joint map")
    for l in D["link"]:
        check(L, "Link", M.link_map[l["name"]], l, "link %r of the map" % l["name"])
    for j in D["joint"]:
        check(L, "Joint", M.joint_map[j["name"]], j, "joint %r of the map" % j["name"])
        require(M.parent_map[j["child"]] == (j["name"], j["parent"]), lambda: "parent of %r" % j["child"])
    for l in D["link"]:
        want = [(j["name"], j["child"]) for j in D["joint"] if j["parent"] == l["name"]]
        require(list(M.child_map.get(l["name"], [])) == want, lambda: "children of %r: %s instead of %s" % (l["name"], M.child_map.get(l["name"]), want))
    if L is SDF_L:
        return
    root = [l["name"] for l in D["link"] if l["name"] not in par][0]
    require(o.get_root() == root, lambda: "root %r instead of %r" % (o.get_root(), root))
    for l in D["link"]:
        up, x = [l["name"]], l["name"]
        while x != root:
            up += [par[x]["name"], par[x]["parent"]]
            x = par[x]["parent"]
        down = up[::-1]
        ty = {j["name"]: j["type"] for j in D["joint"]}
        for joints in (True, False):
            for links in (True, False):
                for fixed in (True, False):
                    want = [x for i, x in enumerate(down) if (links if i % 2 == 0 else joints and (fixed or ty[x] != "fixed"))]
                    got = o.get_chain(root, l["name"], joints=joints, links=links, fixed=fixed)
                    require(got == want, lambda: "chain to %r (joints=%s, links=%s, fixed=%s): %s instead of %s" % (l["name"], joints, links, fixed, got, want))


def kin(L, a, b, seed):
    f = {"Robot": pk.build_chain_from_urdf, "SDF": pk.build_chain_from_sdf}[L.top]
    A_, B_ = quietly(lambda: f(a)), quietly(lambda: f(b))
    require(A_.get_frame_names(exclude_fixed=False) == B_.get_frame_names(exclude_fixed=False), "frames after rewriting")
    n = A_.get_joint_parameter_names()
    require(n == B_.get_joint_parameter_names(), "joints after rewriting")
    q = torch.tensor(np.random.RandomState(seed % 2**32).uniform(-2, 2, (2, len(n))), dtype=torch.float32)
    P, Q = A_.forward_kinematics(q), B_.forward_kinematics(q)
    for k in P:
        x, y = P[k].get_matrix(), Q[k].get_matrix()
        require(torch.equal(x, y) or bool(((x == y) | (x.isnan() & y.isnan())).all()), lambda: "pose of %r after rewriting: %s instead of %s" % (k, y, x))
    for u, v in zip(A_.get_joint_limits() + A_.get_joint_velocity_limits() + A_.get_joint_effort_limits(),
                    B_.get_joint_limits() + B_.get_joint_velocity_limits() + B_.get_joint_effort_limits()):
        require(list(u) == list(v), lambda: "limits after rewriting: %s instead of %s" % (v, u))


def roundtrip(case, rec, L):
    g, d, text = build(case, L)
    o = parse(L, text)
    check(L, L.top, o, d, L.top)
    maps(L, o, d)
    w, o2 = texts(L, o, d, L.top)
    maps(L, o2, d)
    if not case["extreme"]:
        kin(L, text, w, case["seed"])
        rec.label("kinematics")
    rec.label("joints" if case["n"] > 1 else "single", "dense" if case["density"] > .7 else None)
    rec.nt(case["n"] > 1 and case["density"] > .2)


# ------------------------------------------------------------------ edits
def construct(L, name, d, g):
    """Objects made without XML."""
    c = L.cls(name)
    style = g.r.randrange(3)
    agg = {f["name"]: f for f in L.schema[name] if f["kind"] == "agg"}
    vals = {f["name"]: (value(L, f, d[f["name"]], g) if d[f["name"]] is not None else (list(f["default"]) if isinstance(f["default"], list) else f["default"]))
            for f in L.schema[name] if f["kind"] != "agg"}
    ctor = (CTOR if L is URDF_L else CTOR_S).get(name)
    if name == "Color" and style:
        v = vals["rgba"][:3] if vals["rgba"][3] == 1.0 and g.r.random() < .7 else list(vals["rgba"])
        mine = list(v)
        o = c(*v) if style == 1 else c(v if g.r.random() < .5 else tuple(v))
        require(v == mine, lambda: "Color modified the list it was made from: %s instead of %s" % (v, mine))
    elif style and ctor is not None:
        o = c(**{k: vals[v] for k, v in ctor.items()})
        for f in L.schema[name]:
            if f["kind"] != "agg":
                if f["name"] not in ctor.values():
                    setattr(o, f["var"], vals[f["name"]])
                else:
                    have = getattr(o, f["var"])
                    require(have is vals[f["name"]] or have == vals[f["name"]], lambda: "%s made with %s=%r has %r" % (name, f["name"], vals[f["name"]], have))
    else:
        o = c()
        for f in L.schema[name]:
            if f["kind"] != "agg":
                setattr(o, f["var"], vals[f["name"]])
    order = d.get("_order", [])
    if L is URDF_L and name == "Link" and style == 2 and len({n for n, _ in order}) == 1:
        n = order[0][0]
        o = c(name=vals["name"], origin=vals["origin"], inertial=vals["inertial"], **{n: value(L, agg[n], d[n][0], g)})
        order = order[1:]
    for k, (n, i) in enumerate(order):
        v = value(L, agg[n], d[n][i], g)
        if L is URDF_L and name == "Link" and i == 0 and style:
            setattr(o, n, v)  # the first visual or collision
        elif name in ("Robot", "Model") and n in ("link", "joint") and style:
            (o.add_link if n == "link" else o.add_joint)(v)
        else:
            o.add_aggregate(n, v)
    return o


# constructor arguments by name (where they differ from the XML names)
CTOR = {
    "Pose": dict(xyz="xyz", rpy="rpy"), "Box": dict(size="size"), "Cylinder": dict(radius="radius", length="length"), "Capsule": dict(radius="radius", length="length"),
    "Sphere": dict(radius="radius"), "Mesh": dict(filename="filename", scale="scale"), "Collision": dict(geometry="geometry", origin="origin"),
    "Visual": dict(geometry="geometry", origin="origin", material="material"), "Texture": dict(filename="filename"), "Material": dict(name="name", color="color", texture="texture"),
    "LinkMaterial": dict(name="name", color="color", texture="texture"), "Inertia": {k: k for k in INERTIA}, "Inertial": dict(mass="mass", inertia="inertia", origin="origin"),
    "JointDynamics": dict(damping="damping", friction="friction"), "JointCalibration": dict(rising="rising", falling="falling"),
    "JointLimit": dict(effort="effort", velocity="velocity", lower="lower", upper="upper"), "JointMimic": dict(joint_name="joint", multiplier="multiplier", offset="offset"),
    "SafetyController": dict(velocity="k_velocity", position="k_position", lower="soft_lower_limit", upper="soft_upper_limit"),
    "Joint": dict(name="name", parent="parent", child="child", joint_type="type", axis="axis", origin="origin", limit="limit", dynamics="dynamics",
                  safety_controller="safety_controller", calibration="calibration", mimic="mimic"),
    "PR2Transmission": dict(name="name", joint="joint", actuator="actuator", type="type", mechanicalReduction="mechanicalReduction"),
    "Actuator": dict(name="name", mechanicalReduction="mechanicalReduction"),
}

CTOR_S = {
    "Inertia": {k: k for k in INERTIA}, "Inertial": dict(mass="mass", inertia="inertia", pose="pose"), "Box": dict(size="size"), "Cylinder": dict(radius="radius", length="length"),
    "Sphere": dict(radius="radius"), "Mesh": dict(filename="filename", scale="scale"), "Script": dict(uri="uri", name="name"), "Material": dict(name="name", script="script"),
    "Visual": dict(name="name", geometry="geometry", pose="pose"), "Collision": dict(name="name", geometry="geometry", pose="pose"),
    "Dynamics": dict(damping="damping", friction="friction"), "Limit": dict(lower="lower", upper="upper"),
    "Axis": dict(xyz="xyz", limit="limit", dynamics="dynamics", use_parent_model_frame="use_parent_model_frame"),
    "Joint": dict(name="name", parent="parent", child="child", joint_type="type", axis="axis", pose="pose"),
    "Link": dict(name="name", pose="pose", inertial="inertial", kinematic="kinematic"), "Model": dict(name="name", pose="pose"), "SDF": dict(version="version"),
}


def value(L, f, v, g):
    t = f["type"]
    if t == "raw":
        return etree.fromstring(v["_raw"])
    if isobj(t):
        return construct(L, L.tname(t, v), v, g)
    return list(v) if isinstance(v, list) else v


def programmatic(case, rec, L):
    g, d, text = build(case, L)
    o = construct(L, L.top, d, g)
    check(L, L.top, o, d, L.top + " (constructed)")
    maps(L, o, d)
    w, o2 = texts(L, o, d, L.top + " (constructed)")
    if not case["extreme"]:
        kin(L, text, w, case["seed"])
    rec.nt(case["n"] > 1)


def spots(L, name, obj, d, out):
    """All (object, data, schema name) triples of a description."""
    out.append((obj, d, name))
    for f in L.schema[name]:
        if not isobj(f["type"]):
            continue
        if f["kind"] == "agg":
            for h, x in zip(getattr(obj, f["var"]), d[f["name"]]):
                spots(L, L.tname(f["type"], x), h, x, out)
        elif d[f["name"]] is not None:
            spots(L, L.tname(f["type"], d[f["name"]]), getattr(obj, f["var"]), d[f["name"]], out)
    return out


def edits(case, rec, L):
    g, d, text = build(case, L)
    o = parse(L, text)
    twin = parse(L, text)
    d0 = __import__("copy").deepcopy(d)
    r = random.Random(case["eseed"])
    for _ in range(case["edits"]):
        obj, x, name = r.choice(spots(L, L.top, o, d, []))
        f = r.choice(L.schema[name])
        n = f["name"]
        keep = name in ("Transmission", "TransmissionJoint")
        if name == "Link" and L is URDF_L and f["kind"] == "agg" and r.random() < .4:  # the first visual or collision
            v = g.value(f["type"]) if r.random() < .8 else None
            setattr(obj, n, value(L, f, v, g) if v is not None else None)
            if v is not None and x[n]:
                x[n] = [v] + x[n][1:]
            elif v is not None:
                x["_order"].append([n, 0])
                x[n] = [v]
            elif x[n]:
                x[n] = x[n][1:]
                x["_order"] = [[m, k - (m == n)] for m, k in x["_order"] if (m, k) != (n, 0)]
            have = getattr(obj, n)
            require((have is None) == (not x[n]), lambda: "first %s after setting it" % n)
            rec.label("first")
        elif f["kind"] == "agg":
            if x[n] and r.random() < .5 and not (keep and len(x[n]) == 1):
                i = r.randrange(len(x[n]))
                h = getattr(obj, f["var"])[i]
                if f["type"] == "s":
                    continue  # equal strings are not told apart
                obj.remove_aggregate(h)
                x[n].pop(i)
                x["_order"] = [[m, k - (m == n and k > i)] for m, k in x["_order"] if (m, k) != (n, i)]
                rec.label("remove")
            else:
                if f["type"] == "s":
                    continue
                v = g.value(f["type"])
                obj.add_aggregate(n, value(L, f, v, g))
                x["_order"].append([n, len(x[n])])
                x[n].append(v)
                rec.label("add")
        elif x[n] is not None and isinstance(x[n], list) and r.random() < .5:
            k = r.randrange(len(x[n]))
            v = g.num()
            if isinstance(getattr(obj, f["var"]), tuple):
                setattr(obj, f["var"], list(getattr(obj, f["var"])))
            getattr(obj, f["var"])[k] = v
            x[n] = x[n][:k] + [v] + x[n][k + 1:]
            rec.label("inplace")
        elif x[n] is None and isinstance(f["default"], list):
            k = r.randrange(len(f["default"]))
            v = g.num()
            getattr(obj, f["var"])[k] = v
            x[n] = f["default"][:k] + [v] + f["default"][k + 1:]
            rec.label("inplace_default")
        elif not f["req"] and r.random() < .3:
            setattr(obj, f["var"], None)
            if f["default"] is not None:  # written as the default
                v = list(f["default"]) if isinstance(f["default"], list) else f["default"]
                setattr(obj, f["var"], v)
            x[n] = None
            rec.label("unset")
        else:
            if n == "type" and name == "Joint" and L is URDF_L:
                v = r.choice(["revolute", "fixed", "prismatic"])
            else:
                v = g.value(f["type"])
            setattr(obj, f["var"], value(L, f, v, g))
            x[n] = v
            rec.label("set")
        rec.nt()
    check(L, L.top, o, d, L.top + " (edited)")
    texts(L, o, d, L.top + " (edited)")
    check(L, L.top, twin, d0, L.top + " (another description, after editing)")
    check(L, L.top, parse(L, text), d0, L.top + " (read again after editing)")


def U(fn, L):
    return lambda case, rec: fn(case, rec, L)


@st.composite
def cases(draw, edits=False):
    n = draw(st.integers(1, 6))
    names, jn = draw(gen.namesets(n))
    c = dict(n=n, names=names, jnames=jn, seed=draw(gen.SEED), density=draw(st.sampled_from([0.0, 0.2, 0.5, 0.5, 0.8, 1.0])), extreme=draw(st.booleans()))
    if edits:
        c.update(edits=draw(st.integers(1, 10)), eseed=draw(gen.SEED))
    return c


CHECK = Check("C30", [
    Facet("urdf", cases(), U(roundtrip, URDF_L), quick=250, thorough=12000, shards=2),
    Facet("sdf", cases(), U(roundtrip, SDF_L), quick=250, thorough=12000, shards=2),
    Facet("urdf_made", cases(), U(programmatic, URDF_L), quick=200, thorough=8000),
    Facet("sdf_made", cases(), U(programmatic, SDF_L), quick=150, thorough=6000),
    Facet("urdf_edits", cases(True), U(edits, URDF_L), quick=250, thorough=10000),
    Facet("sdf_edits", cases(True), U(edits, SDF_L), quick=200, thorough=8000),
], rule="at least two links and optional content (round trips), at least one edit (edits)", ambient=False)
