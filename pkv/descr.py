"""Shared by the checks of robot descriptions: generators of URDF/SDF text with ordering and noise, and the comparison of a built
robot with its abstract description."""
import math
import random
from xml.sax.saxutils import quoteattr

import numpy as np
import torch
from hypothesis import strategies as st

from .boot import pk
from .core import close, require
from . import gen, ref


def check_robot(chain, m, Q, dt, tol, limits, what="", anynames=False):
    """chain: robot under test; m: gen.Model; Q rows in m.joints order; limits: {joint name: (pos, vel, eff)} (None = absent)."""
    nodes = m.nodes
    names = chain.get_joint_parameter_names()
    require(sorted(names) == sorted(nodes[j]["jname"] for j in m.joints), lambda: "%smovable joints %s instead of %s" % (
        what, names, [nodes[j]["jname"] for j in m.joints]))
    for exf in (False, True):
        fn = sorted(chain.get_frame_names(exclude_fixed=exf))
        want = sorted(n["name"] for n in nodes if not exf or n["type"] != "fixed")
        require(fn == want, lambda: "%sframes %s instead of %s (exclude_fixed=%s)" % (what, fn, want, exf))
    require(sorted(chain.get_link_names()) == sorted(n["name"] for n in nodes), lambda: "%slinks %s" % (what, chain.get_link_names()))
    aj = chain.get_joints(exclude_fixed=False)
    require(len(aj) == len(nodes), lambda: "%s%d joints with the fixed ones, for %d frames" % (what, len(aj), len(nodes)))
    got = sorted(str(j.name) for j in aj if j.name is not None)
    want = sorted(n["jname"] for n in nodes if n["jname"] is not None)
    require(got == want or (nodes[0]["jname"] is None and sorted(got) == sorted(want)), lambda: "%sjoints %s instead of %s" % (what, got, want))
    ch = gen.children(m.robot)
    for i, n in enumerate(nodes):
        f = chain.find_frame(n["name"])
        require(f is not None and f.name == n["name"] and f.link.name == n["name"], lambda: "%sframe %r not found" % (what, n["name"]))
        require(f.joint.joint_type == n["type"], lambda: "%sjoint above %r is %s instead of %s" % (what, n["name"], f.joint.joint_type, n["type"]))
        require(n["jname"] is None or f.joint.name == n["jname"], lambda: "%sjoint above %r is named %r" % (what, n["name"], f.joint.name))
        require(sorted(c.name for c in f.children) == sorted(nodes[c]["name"] for c in ch[i]),
                lambda: "%schildren of %r: %s" % (what, n["name"], [c.name for c in f.children]))
        if n["type"] != "fixed":
            close(f.joint.axis, m.axis[i], 2e-6, "%saxis of joint %r" % (what, n["jname"]))
            pos, vel, eff = limits[n["jname"]]
            for kind, want, have in (("position", pos, f.joint.limits), ("velocity", vel, f.joint.velocity_limits), ("effort", eff, f.joint.effort_limits)):
                if want is None:
                    require(have is None or (have[0] == -math.inf and have[1] == math.inf),
                            lambda: "%s%s limits of joint %r: %r instead of none" % (what, kind, n["jname"], have))
                else:
                    require(have is not None, lambda: "%s%s limits of joint %r missing, should be %r" % (what, kind, n["jname"], want))
                    close(np.array(have, float), np.array(want, float), 1e-5 * (1 + np.abs(np.nan_to_num(np.array(want, float), posinf=0, neginf=0))),
                          "%s%s limits of joint %r" % (what, kind, n["jname"]))
    for k, (kind, f) in enumerate((("position", chain.get_joint_limits), ("velocity", chain.get_joint_velocity_limits), ("effort", chain.get_joint_effort_limits))):
        lo, hi = f()
        want = [limits[n][k] or (-math.inf, math.inf) for n in names]
        want = np.array(want, float).reshape(-1, 2)
        t = 1e-5 * (1 + np.abs(np.where(np.isfinite(want), want, 0)))
        close(np.array(lo, float), want[:, 0], t[:, 0], "%slower %s limits" % (what, kind))
        close(np.array(hi, float), want[:, 1], t[:, 1], "%supper %s limits" % (what, kind))
    x = torch.tensor(gen.to_chain_order(chain, m, Q), dtype=dt)
    P = chain.forward_kinematics(x)
    require(sorted(P) == sorted(n["name"] for n in nodes), lambda: "%sposes of %s" % (what, sorted(P)))
    F = m.fk(Q)
    for i, n in enumerate(nodes):
        close(P[n["name"]].get_matrix(), F[i], tol, "%spose of %r" % (what, n["name"]))


# ------------------------------------------------------------------ text
def number(rng, v):
    v = float(v) + 0.0
    k = rng.randrange(6)
    if k == 0:
        return "%.17e" % v
    if k == 1 and v >= 0:
        return "+%r" % v
    if k == 2 and v == int(v) and abs(v) < 1e9:
        return "%d" % v
    if k == 3 and v == 0:
        return "-0"
    return repr(v)


def vec(rng, v):
    sep = rng.choice([" ", " ", "  ", "\t", "\n  "])
    pad = rng.choice(["", "", " "])
    return pad + sep.join(number(rng, x) for x in v) + pad


def shuffled(rng, parts, mode):
    if mode:
        parts = list(parts)
        rng.shuffle(parts)
    return parts


def urdf_origin(rng, o, tag="origin"):
    if o is None:
        return rng.choice(["", "", "<%s/>" % tag, '<%s xyz="0 0 0"/>' % tag, '<%s rpy="0 0 0"/>' % tag])
    a = 'xyz="%s"' % vec(rng, o[:3])
    b = 'rpy="%s"' % vec(rng, o[3:])
    parts = [a, b]
    if not any(o[:3]) and rng.random() < .7:
        parts = [b]
    elif not any(o[3:]) and rng.random() < .7:
        parts = [a]
    rng.shuffle(parts)
    return "<%s %s/>" % (tag, " ".join(parts))


GEOMS = ["box", "cylinder", "sphere", "mesh", "capsule"]


def urdf_geom(rng, g):
    k = g["kind"]
    if k == "box":
        return '<box size="%s"/>' % vec(rng, g["size"])
    if k in ("cylinder", "capsule"):
        return '<%s radius="%s" length="%s"/>' % (k, number(rng, g["size"][0]), number(rng, g["size"][1]))
    if k == "sphere":
        return '<sphere radius="%s"/>' % number(rng, g["size"][0])
    sc = ' scale="%s"' % vec(rng, g["scale"]) if g.get("scale") else ""
    return "<mesh filename=%s%s/>" % (quoteattr(g["file"]), sc)


@st.composite
def geom(draw, kinds=GEOMS):
    k = draw(st.sampled_from(kinds))
    el = st.one_of(gen.num(0.01, 3), st.sampled_from([1.0, 1.0, 0.5, 2.0, 0.001, 100.0, 0.1]))
    size = draw(gen.triples(el, (1.0, 0.5)))
    sel = st.sampled_from([1.0, 1.0, 0.001, 2.0, 0.5, -1.0, 1.5, 0.0254])
    return dict(kind=k, size=size,
                scale=draw(st.one_of(st.none(), gen.triples(sel, (1.0, 1.0, 0.001)), gen.triples(sel, (1.0,)))),
                file=draw(st.sampled_from(["a.stl", "package://r/meshes/x y.dae", "file:///m&m.obj", "m.ply"])),
                origin=draw(gen.origins()))


def urdf_visual(rng, g, tag="visual"):
    mat = rng.choice(["", '<material name="m1"/>', '<material name="m2"><color rgba="0.1 0.2 0.3 1"/></material>']) if tag == "visual" else ""
    parts = [urdf_origin(rng, g["origin"]), "<geometry>%s</geometry>" % urdf_geom(rng, g), mat]
    rng.shuffle(parts)
    return "<%s>%s</%s>" % (tag, "".join(parts), tag)


NOISE_G = dict(kind="box", size=[0.1, 0.2, 0.3], origin=[0.3, -0.1, 0.2, 1.0, 0.5, -0.2])


def inertial(rng):
    return ('<inertial><origin xyz="0.5 -1 2" rpy="0.3 0.2 0.1"/><mass value="%r"/>'
            '<inertia ixx="1" ixy="0.1" ixz="0" iyy="2" iyz="0" izz="3"/></inertial>' % round(rng.uniform(0.1, 5), 3))


TOPNOISE = [
    '<material name="blue"><color rgba="0 0 1 1"/></material>',
    '<gazebo reference="link0"><material>Gazebo/Blue</material></gazebo>',
    "<gazebo><plugin name='p' filename='q.so'><joint name='joint0' type='revolute'><parent link='link0'/><child link='link9'/></joint></plugin></gazebo>",
    '<transmission name="t1"><type>SimpleTransmission</type><joint name="joint0"><hardwareInterface>E</hardwareInterface></joint>'
    '<actuator name="m"><mechanicalReduction>1</mechanicalReduction></actuator></transmission>',
    '<!-- <link name="ghost"/> -->',
    '<foo bar="1"/>',
    "<!-- a -- b -->".replace(" -- ", " - "),
    "\n\n",
]


def urdf_text(case, visuals=None):
    """case: robot + per-joint 'jx' and a style seed. visuals: optional per-node list of geoms."""
    rng = random.Random(case["style"])
    noise = case["noise"]
    order = case["order"]
    nodes = case["robot"]["nodes"]
    parts = []
    for i, n in enumerate(nodes):
        body = [urdf_origin(rng, n["lo"]) if n["lo"] is not None else ""]
        if visuals is not None:
            # order among visuals is meaningful
            body.append("".join(urdf_visual(rng, g) for g in visuals[i]))
        elif noise and rng.random() < .4:
            body.append(urdf_visual(rng, NOISE_G))
        if noise and rng.random() < .5:
            body.append(inertial(rng))
        if noise and rng.random() < .4:
            body.append(urdf_visual(rng, NOISE_G, "collision"))
        if noise and rng.random() < .2:
            body.append("<!-- note -->")
        body = shuffled(rng, body, order)
        body = "".join(body)
        parts.append("<link name=%s>%s</link>" % (quoteattr(n["name"]), body) if body else "<link name=%s/>" % quoteattr(n["name"]))
    joints = []
    for i, n in enumerate(nodes):
        if i == 0:
            continue
        jx = case["jx"][i]
        b = ["<parent link=%s/>" % quoteattr(nodes[n["parent"]]["name"]), "<child link=%s/>" % quoteattr(n["name"]),
             urdf_origin(rng, n["jo"])]
        t = n["type"]
        if t == "revolute" and jx["continuous"]:
            t = "continuous"
        if t != "fixed":
            if not jx.get("noaxis"):
                b.append('<axis xyz="%s"/>' % vec(rng, n["axis"]))
        elif noise and rng.random() < .3:
            b.append('<axis xyz="1 0 0"/>')
        lim = jx["limit"]
        if lim is not None and n["type"] != "fixed":
            at = []
            for k in ("lower", "upper", "effort", "velocity"):
                if lim[k] is not None:
                    at.append('%s="%s"' % (k, number(rng, lim[k])))
            rng.shuffle(at)
            b.append("<limit %s/>" % " ".join(at))
        elif n["type"] == "fixed" and noise and rng.random() < .2:
            b.append('<limit effort="1" velocity="2"/>')
        if noise:
            if rng.random() < .4:
                b.append('<dynamics damping="0.5" friction="0.1"/>')
            if rng.random() < .2:
                b.append('<safety_controller k_velocity="3" k_position="1" soft_lower_limit="-0.1" soft_upper_limit="0.2"/>')
            if rng.random() < .2:
                b.append('<calibration rising="0.5"/>')
            if rng.random() < .2:
                b.append("<!-- j -->")
        b = shuffled(rng, b, order)
        at = ["name=%s" % quoteattr(n["jname"]), 'type="%s"' % t]
        rng.shuffle(at)
        joints.append("<joint %s>%s</joint>" % (" ".join(at), "".join(b)))
    parts += joints
    if order == 2:
        rng.shuffle(parts)
    elif order == 1:
        parts = parts[::-1]
    if noise:
        for _ in range(rng.randrange(4)):
            parts.insert(rng.randrange(len(parts) + 1), rng.choice(TOPNOISE))
    nl = "\n  " if rng.random() < .5 else ""
    text = '<robot name="r">%s%s</robot>' % (nl, nl.join(parts))
    return text


def limit_table(case):
    out = {}
    for n, jx in zip(case["robot"]["nodes"], case["jx"]):
        if n["type"] == "fixed":
            continue
        lim = jx["limit"]
        if lim is None:
            out[n["jname"]] = (None, None, None)
            continue
        pos = (lim["lower"] or 0.0, lim["upper"] or 0.0)
        if n["type"] == "revolute" and jx["continuous"]:
            pos = None
        out[n["jname"]] = (pos, (-lim["velocity"], lim["velocity"]), (-lim["effort"], lim["effort"]))
    return out


@st.composite
def urdf_cases(draw, batch=st.integers(1, 3), noise=st.booleans(), **kw):
    r = draw(gen.robots(limited=False, **kw))
    r["nodes"][0]["jo"] = None
    jx = []
    for n in r["nodes"]:
        lim = None
        if n["type"] != "fixed" and draw(st.integers(0, 3)):
            a, b = draw(gen.num(-4, 4)), draw(gen.num(-4, 4))
            lim = dict(lower=min(a, b), upper=max(a, b), effort=draw(st.one_of(gen.num(0, 200), st.just(0.0))),
                       velocity=draw(st.one_of(gen.num(0, 20), st.just(1e3))))
            k = draw(st.integers(0, 5))
            if k == 0:
                lim["lower"] = None
                lim["upper"] = abs(lim["upper"])
            elif k == 1:
                lim["upper"] = None
                lim["lower"] = -abs(lim["lower"])
            elif k == 2:
                lim["lower"] = lim["upper"] = None
        jx.append(dict(continuous=n["type"] == "revolute" and draw(st.booleans()), limit=lim))
    c = {"robot": r, "jx": jx, "style": draw(gen.SEED), "noise": draw(noise), "order": draw(st.integers(0, 2)),
         "q": draw(gen.configs(len(gen.movable(r)), batch))}
    if kw.get("noaxis", True):
        for n, x in zip(r["nodes"], jx):
            x["noaxis"] = n["axis"] == [0.0, 0.0, 1.0] and draw(st.booleans())
    return c


# ------------------------------------------------------------------ SDF
def sdf_pose(rng, p):
    if p is None:
        return rng.choice(["", "", "<pose>0 0 0 0 0 0</pose>"])
    return "<pose>%s</pose>" % vec(rng, p)


def sdf_inertial(rng):
    if rng.random() < .3:
        return rng.choice(["", "", "<inertial/>", "<inertial><mass>2</mass></inertial>", "<inertial><pose>1 0 0 0 0 1</pose></inertial>"])
    parts = ["<mass>%r</mass>" % round(rng.uniform(0.1, 4), 3),
             "<inertia>%s</inertia>" % "".join("<%s>%s</%s>" % (k, v, k) for k, v in zip(
                 ["ixx", "ixy", "ixz", "iyy", "iyz", "izz"], [1, 0.1, 0, 2, 0, 3])),
             rng.choice(["", "<pose>1 2 3 0.1 0.2 0.3</pose>"])]
    rng.shuffle(parts)
    return "<inertial>%s</inertial>" % "".join(parts)


def sdf_geom(rng, g):
    k = g["kind"]
    if k == "box":
        return "<box><size>%s</size></box>" % vec(rng, g["size"])
    if k == "cylinder":
        p = ["<radius>%s</radius>" % number(rng, g["size"][0]), "<length>%s</length>" % number(rng, g["size"][1])]
        rng.shuffle(p)
        return "<cylinder>%s</cylinder>" % "".join(p)
    if k == "sphere":
        return "<sphere><radius>%s</radius></sphere>" % number(rng, g["size"][0])
    sc = "<scale>%s</scale>" % vec(rng, g["scale"]) if g.get("scale") else ""
    return "<mesh><filename>%s</filename>%s</mesh>" % (g["file"].replace("&", "&amp;"), sc)


def sdf_visual(rng, g, k, tag="visual"):
    mat = rng.choice(["", "<material><script><name>Gazebo/Blue</name><uri>u</uri></script></material>"]) if tag == "visual" else ""
    parts = [sdf_pose(rng, g["origin"]), "<geometry>%s</geometry>" % sdf_geom(rng, g), mat]
    rng.shuffle(parts)
    return "<%s name='v%d'>%s</%s>" % (tag, k, "".join(parts), tag)


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;")


def sdf_text(case, visuals=None):
    rng = random.Random(case["style"])
    noise, order = case["noise"], case["order"]
    nodes = case["robot"]["nodes"]
    parts = []
    for i, n in enumerate(nodes):
        b = [sdf_pose(rng, case["poses"][i]), sdf_inertial(rng)]
        if visuals is not None:
            b.append("".join(sdf_visual(rng, g, k) for k, g in enumerate(visuals[i])))
        elif noise and rng.random() < .4:
            b.append(sdf_visual(rng, NOISE_G, 0))
        if noise and rng.random() < .3:
            b.append(sdf_visual(rng, NOISE_G, 0, "collision"))
        if noise and rng.random() < .3:
            b.append("<gravity>1</gravity><!-- x -->")
        b = shuffled(rng, b, order)
        kin = " kinematic='false'" if noise and rng.random() < .2 else ""
        parts.append("<link name=%s%s>%s</link>" % (quoteattr(n["name"]), kin, "".join(b)))
    for i, n in enumerate(nodes):
        if i == 0:
            continue
        jx = case["jx"][i]
        b = ["<parent>%s</parent>" % esc(nodes[n["parent"]]["name"]), "<child>%s</child>" % esc(n["name"])]
        default_axis = n["type"] != "fixed" and list(n["axis"]) == [0, 0, 1] and jx["limit"] is None and rng.random() < .6
        if n["type"] != "fixed" and not default_axis or (n["type"] == "fixed" and noise and rng.random() < .3):
            ax = ["<xyz>%s</xyz>" % vec(rng, n["axis"])]
            lim = jx["limit"]
            if lim is not None and n["type"] != "fixed":
                le = ["<%s>%s</%s>" % (k, number(rng, lim[k]), k) for k in ("lower", "upper") if lim[k] is not None]
                if noise:
                    le += ["<effort>3</effort>", "<velocity>2</velocity>"][:rng.randrange(3)]
                rng.shuffle(le)
                ax.append("<limit>%s</limit>" % "".join(le))
            if noise and rng.random() < .4:
                ax.append("<dynamics><damping>0.1</damping><friction>0</friction></dynamics>")
            if noise and rng.random() < .3:
                ax.append("<use_parent_model_frame>%s</use_parent_model_frame>" % rng.choice(["0", "false"]))
            ax = shuffled(rng, ax, order)
            b.append("<axis>%s</axis>" % "".join(ax))
        if noise and rng.random() < .2:
            b.append("<physics><ode/></physics>")
        b = shuffled(rng, b, order)
        parts.append("<joint name=%s type=%s>%s</joint>" % (quoteattr(n["jname"]), quoteattr(n["type"]), "".join(b)))
    if order == 2:
        rng.shuffle(parts)
    elif order == 1:
        parts = parts[::-1]
    if noise:
        for t in ("<static>0</static>", "<plugin name='p' filename='q'><joint>joint0</joint></plugin>", "<!-- <link/> -->"):
            if rng.random() < .4:
                parts.insert(rng.randrange(len(parts) + 1), t)
    nl = "\n " if rng.random() < .5 else ""
    return "<sdf version='1.6'>%s<model name='m'>%s%s</model></sdf>" % (nl, nl, nl.join(parts))


def sdf_model(case):
    m = gen.Model(case["robot"])
    P = [ref.origin(p) for p in case["poses"]]
    m.P = P
    m.pre = [P[i] if n["parent"] < 0 else np.linalg.inv(P[n["parent"]]) @ P[i] for i, n in enumerate(m.nodes)]
    m.slack = 3e-6 * max(np.abs(p[:3, 3]).max() + 1 for p in P) * gen.depth(case["robot"])
    return m


def sdf_limits(case):
    out = {}
    for n, jx in zip(case["robot"]["nodes"], case["jx"]):
        if n["type"] == "fixed":
            continue
        lim = jx["limit"]
        pos = None if lim is None else (-math.inf if lim["lower"] is None else lim["lower"], math.inf if lim["upper"] is None else lim["upper"])
        out[n["jname"]] = (pos, None, None)
    return out


@st.composite
def sdf_cases(draw, batch=st.integers(1, 3), noise=st.booleans(), **kw):
    r = draw(gen.robots(limited=False, offsets=False, link_origin=False, root_offset=False, **kw))
    jx = []
    for n in r["nodes"]:
        lim = None
        if n["type"] != "fixed" and draw(st.integers(0, 3)):
            a, b = draw(gen.num(-4, 4)), draw(gen.num(-4, 4))
            lim = dict(lower=min(a, b), upper=max(a, b))
            k = draw(st.integers(0, 6))
            if k == 0:
                lim["lower"] = None
            elif k == 1:
                lim["upper"] = None
            elif k == 2:
                lim["lower"] = lim["upper"] = None
            elif k == 3:
                lim = dict(lower=-1e16, upper=1e16)
        jx.append(dict(limit=lim))
    return {"robot": r, "jx": jx, "poses": [draw(gen.origins()) for _ in r["nodes"]], "style": draw(gen.SEED),
            "noise": draw(noise), "order": draw(st.integers(0, 2)), "q": draw(gen.configs(len(gen.movable(r)), batch))}
