"""URDF text generated from an abstract robot; the built robot is compared with the abstract one."""
import random
import re
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, require
from .. import gen
from ..descr import check_robot, limit_table, urdf_cases, urdf_text


def run(case, rec):
    m = gen.Model(case["robot"])
    text = urdf_text(case)
    n = len(m.nodes)
    enc = case["style"] % 5
    data = text
    if enc == 0:
        data = text.encode()
    elif enc == 1:
        data = ('<?xml version="1.0" encoding="utf-8"?>\n' + text).encode()
    elif enc == 2:
        data = '<?xml version="1.0"?>\n' + text
    Q = gen.cast(gen.rows(case["q"], len(m.joints)), "f32")
    rec.label("n%d" % min(n, 9), "noise" if case["noise"] else "plain", "order%d" % case["order"])
    rec.nt(n >= 3 and len(m.joints) >= 1)
    chain = pk.build_chain_from_urdf(data)
    tol = m.tol("f32", Q) * 4
    check_robot(chain, m, Q, torch.float32, tol, limit_table(case))
    # the order of the elements and the unrelated ones do not matter
    other = dict(case, style=case["style"] + 1, noise=not case["noise"], order=(case["order"] + 1) % 3)
    check_robot(pk.build_chain_from_urdf(urdf_text(other)), m, Q, torch.float32, tol, limit_table(case), "reordered document: ")


CHECK = Check("C08", [
    Facet("urdf", urdf_cases(max_n=8), run, 900, 25000, shards=4),
    Facet("wide", urdf_cases(min_n=4, max_n=14, topo="random"), run, 200, 5000, shards=2),
    Facet("small", urdf_cases(max_n=3), run, 300, 4000, shards=2),
    Facet("huge", urdf_cases(min_n=15, max_n=40, topo="random"), run, 20, 300, shards=2),
], rule="at least three links and a movable joint",
    assumptions=["a movable joint without <axis> turns about or slides along z, as the repository's own tests rely on",
                 "a limit element without lower or upper means 0 for it, as the URDF specification says"])
