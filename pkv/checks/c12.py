"""Histories of structural queries, with callers modifying what they got, against the generated tree."""
import contextlib
import io
import random

import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen, ref
from ..urdftext import urdf


class Tree:
    """The tree a chain should describe: names in preorder of the model restricted to `keep`, rooted at `root`."""

    def __init__(self, robot, keep=None, root=0, serial=False):
        nodes = robot["nodes"]
        self.ids = list(range(len(nodes))) if keep is None else list(keep)
        self.name = {i: nodes[i]["name"] for i in self.ids}
        self.parent = {i: (None if i == root else nodes[i]["parent"]) for i in self.ids}
        self.type = {i: ("fixed" if i == root else nodes[i]["type"]) for i in self.ids}
        self.jname = {i: (None if i == root else nodes[i]["jname"]) for i in self.ids}
        self.root = root
        self.kids = {i: [k for k in self.ids if self.parent[k] == i] for i in self.ids}

    def sub(self, i):
        out = [i]
        for k in self.kids[i]:
            out += self.sub(k)
        return out

    def mov(self):
        return [i for i in self.ids if self.type[i] != "fixed"]


def parse_tree(text):
    """Printed tree -> {name: parent name}, names unique."""
    lines = [l for l in text.split("\n") if l.strip()]
    stack, out = [], {}
    for n, line in enumerate(lines):
        d = 0
        while line[4 * d:4 * d + 4] in ("    ", "│   ", "├── ", "└── "):
            d += 1
            if line[4 * d - 4:4 * d] in ("├── ", "└── "):
                break
        name = line[4 * d:]
        require((d == 0) == (n == 0), lambda: "printed tree: line %r" % line)
        require(d <= len(stack), lambda: "printed tree: indentation of %r" % line)
        stack = stack[:d]
        require(name not in out, lambda: "printed tree shows %r twice" % name)
        out[name] = stack[-1] if stack else None
        stack.append(name)
    return out


def spoil(x, rng):
    """What a caller may do with a list he was given."""
    if isinstance(x, list) and x:
        k = rng.randrange(4)
        if k == 0:
            x.clear()
        elif k == 1:
            x.reverse()
        elif k == 2:
            x.pop()
        else:
            x.append(x[0])
    elif torch.is_tensor(x) and x.numel():
        x.fill_(0)
    elif isinstance(x, dict):
        x.clear()


def same(got, want, what):
    require(sorted(map(str, got)) == sorted(map(str, want)), lambda: "%s: %s instead of %s" % (what, list(got), sorted(map(str, want))))


OPS = ["frames", "frames_mov", "links", "link_names", "joints", "joints_all", "jnames", "jnames_all", "parents", "parents_all", "childlinks",
       "childlinks_lazy", "find", "missing", "indices", "all_indices", "print", "str", "limits", "fk"]


def lined_up(t, names, joints, what):
    """Listings are in one order, parents before children: the k-th frame or link belongs to the k-th joint."""
    at = {t.name[i]: t.jname[i] for i in t.ids}
    pos = {x: n for n, x in enumerate(names)}
    bad = [(x, j) for x, j in zip(names, joints) if at[x] != j and at[x] is not None]
    require(not bad and len(names) == len(joints), lambda: "%s %s are not in the order of the joints %s" % (what, list(names), list(joints)))
    for i in t.ids:
        p = t.parent[i]
        if p is not None and t.name[i] in pos and t.name[p] in pos:
            require(pos[t.name[p]] < pos[t.name[i]], lambda: "%s: %r is listed before its parent" % (what, t.name[i]))


def do(ch, t, op, k, spl):
    rng = random.Random(k)
    mov = t.mov()
    if op in ("frames", "frames_mov"):
        r = ch.get_frame_names(exclude_fixed=op == "frames_mov")
        want = t.ids if op == "frames" else mov
        same(r, [t.name[i] for i in want], "frame names")
        lined_up(t, [x for x in r], [n for n in ch.get_joint_parameter_names(exclude_fixed=op != "frames")], "frames")
    elif op == "links":
        r = ch.get_links()
        same([l.name for l in r], [t.name[i] for i in t.ids], "links")
        lined_up(t, [l.name for l in r], ch.get_joint_parameter_names(exclude_fixed=False), "links")
    elif op == "link_names":
        r = ch.get_link_names()
        same(r, [t.name[i] for i in t.ids], "link names")
        lined_up(t, r, ch.get_joint_parameter_names(exclude_fixed=False), "link names")
    elif op in ("joints", "joints_all"):
        r = ch.get_joints() if op == "joints" else ch.get_joints(exclude_fixed=False)
        want = mov if op == "joints" else t.ids
        same([j.name for j in r if j.name is not None], [t.jname[i] for i in want if t.jname[i] is not None], "joints")
        require(len(r) == len(want), lambda: "%d joints instead of %d" % (len(r), len(want)))
        require(len({id(j) for j in r}) == len(r), "a joint is listed twice")
        if op == "joints":
            names = ch.get_joint_parameter_names()
            require([j.name for j in r] == list(names), lambda: "joints %s and joint names %s" % ([j.name for j in r], names))
    elif op in ("jnames", "jnames_all"):
        r = ch.get_joint_parameter_names() if op == "jnames" else ch.get_joint_parameter_names(exclude_fixed=False)
        same([x for x in r if x is not None], [t.jname[i] for i in (mov if op == "jnames" else t.ids) if t.jname[i] is not None], "joint names")
    elif op in ("parents", "parents_all"):
        ex = op == "parents"
        r = ch.get_joint_parent_frame_names(exclude_fixed=ex)
        want = mov if ex else t.ids
        same(r, [t.name[i] for i in want], "frames of joints")
        at = {t.name[i]: t.jname[i] for i in want}
        names = ch.get_joint_parameter_names(exclude_fixed=ex)
        require([at[x] for x in r] == list(names), lambda: "frames of joints %s do not match the joints %s" % (r, names))
    elif op in ("childlinks", "childlinks_lazy"):
        seen = {}
        at = {t.jname[i]: i for i in mov}
        it = list(ch.get_joints_and_child_links()) if op == "childlinks" else ch.get_joints_and_child_links()
        r = None
        for j, links in it:
            require(j.name in at and j.name not in seen, lambda: "joint %r with child links, of joints %s" % (j.name, sorted(at)))
            seen[j.name] = True
            same([l.name for l in links], [t.name[i] for i in t.sub(at[j.name])], "child links of %r" % j.name)
            if spl and rng.random() < .5:
                spoil(links, rng)
        require(len(seen) == len(mov), lambda: "child links of %s only" % sorted(seen))
    elif op == "find":
        i = t.ids[k % len(t.ids)]
        f, l = ch.find_frame(t.name[i]), ch.find_link(t.name[i])
        require(f is not None and f.name == t.name[i], lambda: "find_frame(%r) = %s" % (t.name[i], f and f.name))
        require(l is not None and l.name == t.name[i], lambda: "find_link(%r) = %s" % (t.name[i], l and l.name))
        require(f.link is l or f.link.name == l.name, "link of the frame found")
        require(f.joint.joint_type == t.type[i], lambda: "joint type at %r" % t.name[i])
        same([c.name for c in f.children], [t.name[c] for c in t.kids[i]], "children of %r" % t.name[i])
        require(f.is_end() == (not t.kids[i]), lambda: "is_end of %r" % t.name[i])
        if t.jname[i] is not None:
            j = ch.find_joint(t.jname[i])
            require(j is not None and j.name == t.jname[i] and j.joint_type == t.type[i], lambda: "find_joint(%r) = %s" % (t.jname[i], j))
            require(j is f.joint, lambda: "find_joint(%r) is not the joint of its frame" % t.jname[i])
        r = None
    elif op == "missing":
        a = t.name[t.ids[k % len(t.ids)]]
        for q in (a + "_frame", a[:-1], a + a, " " + a, a.swapcase(), "nothing", "None_", a + "\n"):
            if q not in t.name.values():
                require(ch.find_frame(q) is None, lambda: "find_frame(%r) finds something" % q)
                require(ch.find_link(q) is None, lambda: "find_link(%r) finds something" % q)
            if q not in t.jname.values():
                require(ch.find_joint(q) is None, lambda: "find_joint(%r) finds something" % q)
        r = None
    elif op == "indices":
        ids = list(t.ids)
        rng.shuffle(ids)
        r = ch.get_frame_indices(*[t.name[i] for i in ids])
        v = [int(x) for x in r]
        require(sorted(v) == list(range(len(ids))), lambda: "frame numbers %s are not a numbering of %d frames" % (v, len(ids)))
        for i, x in zip(ids, v):
            require(int(ch.get_frame_indices(t.name[i])[0]) == x, "frame number differs between queries")
            require(ch.idx_to_frame[x] == t.name[i] and ch.frame_to_idx[t.name[i]] == x, lambda: "frame number %d is %r, not %r" % (x, ch.idx_to_frame.get(x), t.name[i]))
    elif op == "all_indices":
        r = ch.get_all_frame_indices()
        require(sorted(int(x) for x in r) == list(range(len(t.ids))), lambda: "all frame numbers: %s" % r)
    elif op in ("print", "str"):
        if op == "print":
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                txt = ch.print_tree(do_print=bool(k % 2))
            require((out.getvalue().strip() == txt.strip()) if k % 2 else out.getvalue() == "", "print_tree prints something else than it returns")
        else:
            txt = str(ch)
        got = parse_tree(txt)
        want = {t.name[i]: (None if t.parent[i] is None else t.name[t.parent[i]]) for i in t.ids}
        require(got == want, lambda: "printed tree %s instead of %s" % (got, want))
        r = None
    elif op == "limits":
        r = ch.get_joint_limits()[k % 2]
        require(len(r) == len(mov), "number of limits")
    else:
        n = len(mov)
        P = ch.forward_kinematics(torch.zeros(2, n, dtype=ch.dtype), **({"end_only": False} if isinstance(ch, pk.SerialChain) else {}))
        same(P.keys(), t.name.values(), "frames of forward kinematics")
        r = P
    if spl and r is not None:
        spoil(r, rng)


def run(case, rec):
    robot = case["robot"]
    nodes = robot["nodes"]
    t = Tree(robot)
    if case["src"] == "urdf":
        nodes[0]["jo"] = None
        for nd in nodes:
            if nd["type"] == "prismatic" and nd["lim"] is None:
                nd["lim"] = [-1.0, 1.0]
        ch = pk.build_chain_from_urdf(urdf(robot))
    elif case["src"] == "ctor":
        def rec_(i):
            nd = nodes[i]
            return pk.Frame(nd["name"], link=pk.Link(nd["name"]), joint=pk.Joint(nd["jname"], joint_type=nd["type"], axis=tuple(nd["axis"])),
                            children=[rec_(c) for c in t.kids[i]])
        ch = pk.Chain(rec_(0))
    else:
        ch = gen.build(robot, "f64")
    if case["serial"]:
        b = case["tip"] % len(nodes)
        p = gen.path(robot, b)
        a = case["base"] % len(p)
        ch = pk.SerialChain(ch, nodes[b]["name"], nodes[p[a]]["name"])
        t = Tree(robot, p[a:], p[a])
    rec.label(case["src"], "serial" if case["serial"] else "tree", "branching" if gen.branching(robot) else None)
    rec.nt(len(t.ids) >= 3 and (case["serial"] or gen.branching(robot)))
    for op, k, spl in case["ops"]:
        rec.label(OPS[op % len(OPS)])
        do(ch, t, OPS[op % len(OPS)], k, spl)
    for n, op in enumerate(OPS):
        do(ch, t, op, n + 3, False)


@st.composite
def cases(draw, **kw):
    r = draw(gen.robots(**kw))
    return dict(robot=r, src=draw(st.sampled_from(["frames", "frames", "urdf", "ctor"])), serial=draw(st.integers(0, 2)) == 0,
                tip=draw(st.integers(0, 30)), base=draw(st.integers(0, 3)),
                ops=draw(st.lists(st.tuples(st.integers(0, 19), st.integers(0, 99), st.booleans()).map(list), max_size=10)))


CHECK = Check("C12", [
    Facet("history", cases(max_n=9), run, 1500, 40000, shards=4),
    Facet("large", cases(max_n=8, big=True), run, 200, 4000, shards=2),
    Facet("huge", cases(huge=(30, 130)), run, 30, 400, shards=3),
], rule="at least three frames, branching or extracted; every case ends with one round of all queries",
    assumptions=["names of links, and of joints, are distinct within a robot"])
