"""URDF text of a robot case (generators of gen.py), with optional element order and noise."""
from xml.sax.saxutils import quoteattr


def fmt(v):
    return " ".join(repr(float(x)) for x in v)


def origin_xml(o, tag="origin"):
    if o is None:
        return ""
    return '<%s xyz="%s" rpy="%s"/>' % (tag, fmt(o[:3]), fmt(o[3:]))


def urdf(robot, order=None, name="r"):
    """Every node a link with optional origin, every non-root node a joint. Joint limits need lower/upper/effort/velocity."""
    parts = []
    for i, n in enumerate(robot["nodes"]):
        o = origin_xml(n["lo"])
        parts.append("<link name=%s>%s</link>" % (quoteattr(n["name"]), o) if o else "<link name=%s/>" % quoteattr(n["name"]))
        if i == 0:
            continue
        t = n["type"]
        lim = ""
        if t != "fixed":
            if n["lim"]:
                lim = '<limit lower="%r" upper="%r" effort="%r" velocity="%r"/>' % (
                    float(n["lim"][0]), float(n["lim"][1]), float(n["eff"] or 0), float(n["vel"] or 0))
            elif t == "revolute":
                t = "continuous"
        ax = '<axis xyz="%s"/>' % fmt(n["axis"]) if t != "fixed" else ""
        parts.append('<joint name=%s type="%s"><parent link=%s/><child link=%s/>%s%s%s</joint>' % (
            quoteattr(n["jname"]), t, quoteattr(robot["nodes"][n["parent"]]["name"]), quoteattr(n["name"]),
            origin_xml(n["jo"]), ax, lim))
    if order:
        parts = [p for _, p in sorted(zip(order, parts))]
    return "<robot name=\"%s\">%s</robot>" % (name, "".join(parts))
