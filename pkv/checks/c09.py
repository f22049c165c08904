"""SDF text generated from an abstract model with absolute link poses."""
import numpy as np
import torch

from ..boot import pk
from ..core import Check, Facet, close
from .. import gen
from ..descr import check_robot, sdf_cases, sdf_limits, sdf_model, sdf_text


def run(case, rec):
    m = sdf_model(case)
    text = sdf_text(case)
    n = len(m.nodes)
    if case["style"] % 4 == 0:
        text = text.encode()
    elif case["style"] % 4 == 1:
        text = '<?xml version="1.0" ?>\n' + text
    Q = gen.cast(gen.rows(case["q"], len(m.joints)), "f32")
    rec.label("n%d" % min(n, 9), "noise" if case["noise"] else "plain", "order%d" % case["order"])
    rec.nt(n >= 3 and len(m.joints) >= 1)
    chain = pk.build_chain_from_sdf(text)
    tol = m.tol("f32", Q) * 4 + m.slack * (1 + np.abs(Q).max(initial=0))
    check_robot(chain, m, Q, torch.float32, tol, sdf_limits(case))
    # at zero every link is where the document puts it
    Z = chain.forward_kinematics(torch.zeros(1, len(m.joints), dtype=torch.float32))
    for i, nd in enumerate(m.nodes):
        close(Z[nd["name"]].get_matrix()[0], m.P[i], tol, "pose of %r at zero" % nd["name"])
    other = dict(case, style=case["style"] + 1, noise=not case["noise"], order=(case["order"] + 1) % 3)
    check_robot(pk.build_chain_from_sdf(sdf_text(other)), m, Q, torch.float32, tol, sdf_limits(case), "reordered document: ")
    # the serial builder on the same document
    b = case["style"] % n
    p = m.serial_path(0, b)
    for a in {0, p[(case["style"] // 5) % len(p)]}:
        ch = pk.build_serial_chain_from_sdf(text, m.nodes[b]["name"], *([m.nodes[a]["name"]] if a else []))
        js = m.serial_joints(a, b)
        q = Q[:, [m.col[j] for j in js]]
        E = ch.forward_kinematics(torch.tensor(q, dtype=torch.float32), end_only=False)
        F = m.fk(Q)
        for i in m.serial_path(a, b):
            close(E[m.nodes[i]["name"]].get_matrix(), np.linalg.inv(F[a]) @ F[i], tol * 2, "serial pose of %r" % m.nodes[i]["name"])


CHECK = Check("C09", [
    Facet("sdf", sdf_cases(max_n=8), run, 900, 25000, shards=4),
    Facet("wide", sdf_cases(min_n=4, max_n=14, topo="random"), run, 200, 5000, shards=2),
    Facet("small", sdf_cases(max_n=3), run, 300, 4000, shards=2),
    Facet("huge", sdf_cases(min_n=15, max_n=40, topo="random"), run, 20, 300, shards=2),
], rule="at least three links and a movable joint",
    assumptions=["link poses in the model frame, joints at their child link, axis in the child frame, one model at the world origin"])
