"""Expression trees of transforms against float64 matrices with a running error bound."""
import numpy as np
import torch
from hypothesis import strategies as st

from ..boot import pk
from ..core import Check, Facet, close, require
from .. import gen, ref, tfgen
from ..tfgen import EPS, Val, build, compose, invert


def check(v, what):
    T = v.T
    G = T.get_matrix()
    require(isinstance(T, pk.Transform3d), lambda: "%s: %s" % (what, type(T)))
    require(len(T) == len(v.M), lambda: "%s: length %d instead of %d" % (what, len(T), len(v.M)))
    require(G.dtype == gen.DT[v.dtype] and T.dtype == G.dtype, lambda: "%s: precision %s/%s instead of %s" % (what, T.dtype, G.dtype, v.dtype))
    close(G, v.M, v.err, what)


def ev(e, dtype, rec, depth=0):
    op = e[0]
    if op == "leaf":
        T, M, err = build(e[1], dtype, e[2])
        v = Val(T, M, err, dtype)
        rec.label(e[1]["k"], "batch" if len(M) > 1 else "single")
    else:
        rec.label(op)
        a = ev(e[1], dtype, rec, depth + 1)
        if op == "compose":
            bs = [ev(x, dtype, rec, depth + 1) for x in e[2]]
            v = compose([a] + bs, a.T.compose(*[b.T for b in bs]))
        elif op == "inverse":
            v = invert(a, a.T.inverse() if e[2] else a.T.inverse(invert_composed=True))
            if v.err < 1e-2:
                n = a.norm * v.norm
                tol = a.err * v.norm + v.err * a.norm + 20 * EPS[dtype] * n
                eye = np.broadcast_to(np.eye(4), a.M.shape)
                close(a.T.compose(v.T).get_matrix(), eye, tol, "t o inverse(t) of %s" % e[1][0])
                close(v.T.compose(a.T).get_matrix(), eye, tol, "inverse(t) o t of %s" % e[1][0])
        elif op == "stack":
            bs = [ev(x, dtype, rec, depth + 1) for x in e[2]]
            v = Val(a.T.stack(*[b.T for b in bs]), np.concatenate([a.M] + [b.M for b in bs]), max([a.err] + [b.err for b in bs]), dtype)
        elif op == "selfstack":
            k = e[2]
            v = Val(a.T.stack(*[a.T] * k), np.concatenate([a.M] * (k + 1)), a.err, dtype)
        elif op == "selfcompose":
            v = compose([a] * (e[2] + 1), a.T.compose(*[a.T] * e[2]))
        elif op == "index":
            n = len(a.M)
            k, i, j = e[2]
            i, j = i % n, j % n
            if k == 0:
                idx, M = i, a.M[i:i + 1]
            elif k == 1:
                idx, M = slice(i, n), a.M[i:n]
            elif k == 2:
                idx, M = [i, j, i], a.M[[i, j, i]]
            elif k == 3:
                idx, M = torch.tensor([j, i]), a.M[[j, i]]
            elif k == 4:
                mask = np.arange(n) % 2 == i % 2
                mask[i] = True
                idx, M = torch.tensor(mask), a.M[mask]
            elif k == 5:
                idx, M = i - n, a.M[i:i + 1]
            else:
                idx, M = slice(None, None, 2), a.M[::2]
            v = Val(a.T[idx], M, a.err, dtype)
        elif op == "clone":
            v = Val(a.T.clone(), a.M, a.err, dtype)
            independent(a, v, rec, "clone")
        elif op == "to":
            other = "f32" if dtype == "f64" else "f64"
            k = e[2]
            if k == 0:
                c = a.T.to("cpu", copy=True)
                v = Val(c, a.M, a.err, dtype)
                independent(a, v, rec, "to(copy=True)")
            elif k == 1:
                c = a.T.to("cpu", dtype=gen.DT[other])
                w = Val(c, a.M, a.err + 2 * EPS["f32"] * (1 + np.abs(a.M).max()), other)
                check(w, "converted to %s" % other)
                independent(a, w, rec, "to(dtype)")
                v = a
            elif k == 2:
                c = a.T.to("cpu", copy=True, dtype=gen.DT[other])
                w = Val(c, a.M, a.err + 2 * EPS["f32"] * (1 + np.abs(a.M).max()), other)
                check(w, "converted to %s with a copy" % other)
                v = a
            elif k == 3:
                v = Val(a.T.to("cpu"), a.M, a.err, dtype)
            elif k == 4:
                v = Val(a.T.cpu(), a.M, a.err, dtype)
            else:
                c = a.T.to(torch.device("cpu"), copy=True, dtype=gen.DT[dtype])
                v = Val(c, a.M, a.err, dtype)
                independent(a, v, rec, "to(copy, dtype)")
        elif op == "ident":
            v = a
            one = pk.Transform3d(dtype=gen.DT[dtype])
            close(a.T.compose(one).get_matrix(), a.T.get_matrix(), 4 * EPS[dtype] * a.norm, "t o identity")
            close(one.compose(a.T).get_matrix(), a.T.get_matrix(), 4 * EPS[dtype] * a.norm, "identity o t")
            close(a.T.compose().get_matrix(), a.T.get_matrix(), 0, "compose of nothing")
        else:
            raise AssertionError(op)
    check(v, op if op != "leaf" else e[1]["k"])
    return v


def independent(a, c, rec, what):
    """Writing into the copy leaves the original alone and vice versa."""
    A0, C0 = a.T.get_matrix().clone(), c.T.get_matrix().clone()
    c.T.get_matrix().add_(1.0)
    require(torch.equal(a.T.get_matrix(), A0), "%s shares memory with the original" % what)
    c.T.get_matrix().copy_(C0)
    a.T.get_matrix().add_(1.0)
    require(torch.equal(c.T.get_matrix(), C0), "the original shares memory with %s" % what)
    a.T.get_matrix().copy_(A0)


def size(e):
    return 1 + sum(size(x) for x in e[1:] if isinstance(x, list) and x and isinstance(x[0], str)) + sum(
        size(y) for x in e[1:] if isinstance(x, list) and x and isinstance(x[0], list) for y in x)


def run(case, rec):
    dtype = case["dtype"]
    rec.label(dtype)
    e = case["e"]
    v = ev(e, dtype, rec)
    rec.nt(size(e) >= 3 and len(v.M) >= 1)
    # as a function on points
    P = gen.cast(np.array(case["p"], float).reshape(-1, 3), dtype)
    got = v.T.transform_points(torch.tensor(P, dtype=gen.DT[dtype]))
    want = np.einsum("nij,pj->npi", v.M[:, :3, :3], P) + v.M[:, None, :3, 3]
    tol = (v.err + 8 * EPS[dtype] * v.norm) * 4 * (1 + np.abs(P).max())
    if np.abs(v.err) < 0.1:  # the fourth row is (0, 0, 0, 1) up to the error
        close(gen.arr(got).reshape(want.shape), want, tol * (1 + np.abs(want).max()), "transformed points")


def assoc(case, rec):
    """Associativity, function composition, broadcasting and the group law for inverses of three batches."""
    dtype = case["dtype"]
    dt = gen.DT[dtype]
    vs = []
    for l, o in zip(case["leaves"], case["one"]):
        T, M, err = build(l, dtype, o)
        vs.append(Val(T, M, err, dtype))
    a, b, c = vs
    rec.label(dtype, "broadcast" if len({len(v.M) for v in vs}) > 1 else None)
    rec.nt(sum(l["k"] != "ident" for l in case["leaves"]) >= 2)
    ab, bc = compose([a, b], None), compose([b, c], None)
    abc = compose([a, b, c], None)
    nrm = a.norm * b.norm * c.norm
    tol = abc.err + 20 * EPS[dtype] * nrm
    X = a.T.compose(b.T).compose(c.T).get_matrix()
    Y = a.T.compose(b.T.compose(c.T)).get_matrix()
    Z = a.T.compose(b.T, c.T).get_matrix()
    for w, G in (("(ab)c", X), ("a(bc)", Y), ("abc", Z)):
        close(G, abc.M, tol, w)
    P = gen.cast(np.array(case["p"], float).reshape(-1, 3), dtype)
    p = torch.tensor(P, dtype=dt)
    y1 = a.T.transform_points(b.T.transform_points(c.T.transform_points(p)))
    y2 = a.T.compose(b.T, c.T).transform_points(p)
    want = np.einsum("nij,pj->npi", abc.M[:, :3, :3], P) + abc.M[:, None, :3, 3]
    t = tol * 4 * (1 + np.abs(P).max())
    close(gen.arr(y1).reshape(want.shape), want, t, "a(b(c(x)))")
    close(gen.arr(y2).reshape(want.shape), want, t, "(abc)(x)")
    # (ab)^-1 = b^-1 a^-1
    i1 = a.T.compose(b.T).inverse()
    i2 = b.T.inverse().compose(a.T.inverse())
    iv = invert(ab, None)
    t2 = iv.err + np.abs(iv.M).max() ** 2 * 100 * EPS[dtype] * ab.norm * a.norm * b.norm
    close(i1.get_matrix(), iv.M, t2, "inverse of a product")
    close(i2.get_matrix(), iv.M, t2 * 4, "product of the inverses")
    s = a.T.stack(b.T, c.T)
    close(s.get_matrix(), np.concatenate([gen.arr(v.T.get_matrix()) for v in vs]), 0, "stack")
    require(len(s) == sum(len(v.M) for v in vs), "length of a stack")
    # stacked transforms act blockwise
    n = len(s)
    q = torch.tensor(np.resize(P, (n, 2, 3)), dtype=dt)
    k1, k2 = len(a.M), len(a.M) + len(b.M)
    y = torch.cat([a.T.transform_points(q[:k1]), b.T.transform_points(q[k1:k2]), c.T.transform_points(q[k2:])])
    close(s.transform_points(q), gen.arr(y), 20 * EPS[dtype] * max(v.norm for v in vs) * (1 + np.abs(P).max()) * 10, "stacked points")


def magnitudes(case, rec):
    """Similarities whose scale and translation are many orders of magnitude away from one, compared relative to these."""
    dtype, form = case["dtype"], case["form"]
    dt, eps = gen.DT[dtype], EPS[dtype] * 100
    n = len(case["s"])
    s = gen.cast([10.0 ** e * (-1 if m else 1) for e, m in zip(case["s"], case["neg"])], dtype)
    R = gen.cast(ref.expso3(np.resize(np.array(case["r"], float), (n, 3))), dtype)
    t = gen.cast(np.resize(np.array(case["t"], float), (n, 3)) * np.array([10.0 ** e for e in np.resize(case["te"], n)])[:, None], dtype)
    rec.label(dtype, form, "tiny" if np.abs(s).min() < 1e-3 else None, "huge" if np.abs(s).max() > 1e3 else None)
    rec.nt(bool(np.abs(np.log10(np.abs(s))).max() > 1))
    x = lambda a: torch.tensor(a, dtype=dt)
    if form in ("scale", "axes"):
        R, t = np.broadcast_to(np.eye(3), (n, 3, 3)), np.zeros((n, 3))
        T = pk.Scale(x(s), dtype=dt) if form == "scale" else pk.Scale(x(np.stack([s, -s, s], 1)), dtype=dt)
        if form == "axes":
            R = np.broadcast_to(np.diag([1.0, -1.0, 1.0]), (n, 3, 3))
    elif form == "translate":
        s, R = np.ones(n), np.broadcast_to(np.eye(3), (n, 3, 3))
        T = pk.Translate(x(t), dtype=dt)
    elif form == "chain":
        T = pk.Translate(x(t), dtype=dt).rotate(x(R)).scale(x(s))
    else:
        M = np.broadcast_to(np.eye(4), (n, 4, 4)).copy()
        M[:, :3, :3], M[:, :3, 3] = R * s[:, None, None], t
        T = pk.Transform3d(matrix=x(M))
    if form == "composed":
        T = T.compose(pk.Transform3d(dtype=dt))
    a, tn = np.abs(s), np.abs(t).max(1)
    I = np.broadcast_to(np.eye(4), (n, 4, 4))

    def same(G, L, v, lt, vt, what):
        G = gen.arr(G)
        require(G.shape == (n, 4, 4), lambda: "%s: shape %s" % (what, G.shape))
        close((G[:, :3, :3] - L) / lt[:, None, None], np.zeros((n, 3, 3)), eps, what + ", linear part")
        close((G[:, :3, 3] - v) / np.maximum(vt, 1e-300)[:, None], np.zeros((n, 3)), eps, what + ", translation")
        close(G[:, 3], I[:, 3], 0, what + ", last row")
    one, Rt = np.ones(n), np.swapaxes(R, 1, 2)
    same(T.get_matrix(), R * s[:, None, None], t, a, tn, "matrix")
    V = T.inverse()
    same(V.get_matrix(), Rt / s[:, None, None], -np.einsum("nij,nj->ni", Rt, t) / s[:, None], 1 / a, tn / a, "inverse")
    same(T.compose(V).get_matrix(), I[:, :3, :3], np.zeros((n, 3)), one, tn, "t o inverse(t)")
    same(V.compose(T).get_matrix(), I[:, :3, :3], np.zeros((n, 3)), one, tn / a, "inverse(t) o t")
    same(V.inverse().get_matrix(), R * s[:, None, None], t, a, tn, "inverse of the inverse")
    p = gen.cast(np.array([[0.5, -1.0, 0.25], [1.0, 0.0, 0.0]]), dtype)
    y = T.transform_points(x(p))
    z = gen.arr(V.transform_points(y if y.dim() == 3 else y[None])).reshape(n, 2, 3)
    close((z - p) / (1 + tn / a)[:, None, None], np.zeros((n, 2, 3)), eps * 4, "points there and back")


EXP = st.one_of(st.integers(-60, 60).map(lambda i: i / 10), st.sampled_from([0.0, -3.0, -4.0, -6.0, 3.0, 6.0]))
MC = st.integers(1, 5).flatmap(lambda n: st.fixed_dictionaries(dict(
    s=st.lists(EXP, min_size=n, max_size=n), neg=st.lists(st.sampled_from([False, False, True]), min_size=n, max_size=n), te=st.lists(EXP, min_size=1, max_size=n),
    r=st.lists(gen.num(-3, 3), min_size=3, max_size=9).filter(lambda l: len(l) % 3 == 0), t=st.lists(gen.num(-1, 1), min_size=3, max_size=3),
    form=st.sampled_from(["scale", "axes", "translate", "chain", "matrix", "composed"]), dtype=gen.DTYPE)))


def exprs():
    leaf = lambda n=None: st.tuples(st.just("leaf"), tfgen.leaf(n), st.booleans()).map(list)
    one = leaf(1)

    def ext(ch):
        small = st.lists(one, min_size=1, max_size=2)
        return st.one_of(
            st.tuples(st.just("compose"), ch, small).map(list),
            st.tuples(st.just("inverse"), ch, st.booleans()).map(list),
            st.tuples(st.just("inverse"), ch, st.booleans()).map(list),
            st.tuples(st.just("stack"), ch, st.lists(leaf(), min_size=0, max_size=2)).map(list),
            st.tuples(st.just("index"), ch, st.tuples(st.integers(0, 6), st.integers(0, 9), st.integers(0, 9)).map(list)).map(list),
            st.tuples(st.just("selfstack"), ch, st.integers(1, 3)).map(list),
            st.tuples(st.just("selfcompose"), ch, st.integers(1, 2)).map(list),
            st.tuples(st.just("clone"), ch).map(list),
            st.tuples(st.just("ident"), ch).map(list),
            st.tuples(st.just("to"), ch, st.integers(0, 5)).map(list),
            # a single transform on the left of a batch
            st.tuples(st.just("compose"), one, st.tuples(ch).map(list)).map(list))

    return st.recursive(leaf(), ext, max_leaves=5)


PTS = st.lists(st.lists(gen.lengths(3), min_size=3, max_size=3), min_size=1, max_size=4)


@st.composite
def abc(draw):
    n = draw(tfgen.NB)
    ns = [draw(st.sampled_from([1, n, n])) for _ in range(3)]
    return dict(leaves=[draw(tfgen.leaf(k)) for k in ns], one=[draw(st.booleans()) for _ in range(3)], dtype=draw(gen.DTYPE), p=draw(PTS))


CHECK = Check("C14", [
    Facet("expr", st.fixed_dictionaries(dict(e=exprs(), dtype=gen.DTYPE, p=PTS)), run, 4000, 60000, shards=4),
    Facet("group", abc(), assoc, 3000, 40000, shards=4),
    Facet("magnitudes", MC, magnitudes, 800, 20000, shards=2),
], rule="an expression of at least three nodes / three transforms of which two are not the identity / a scale beyond a factor of ten",
    assumptions=["transforms combined with each other have one precision"])
