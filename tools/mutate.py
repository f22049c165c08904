#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--files a.py,b.py] [--every N] [--offset K] [--scale X] [--jobs J]

Automatic mutation campaign used while the checks were developed: every mutant of /repo's source (comparison, arithmetic,
constant, condition, keyword-argument and statement mutations) is laid into a scratch copy and the checks mapped to that file
are run against it at a reduced number of cases, until one reports a violation. Survivors are then read by hand: they are
equivalent, outside every stated property, or a gap.
"""
import argparse
import ast
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/pytorch_kinematics"
FILES = {
    "chain.py": "C01 C02 C06 C12 C11 C04 C05 C13 C03 C07 C31 C29",
    "frame.py": "C12 C02 C31 C13 C06 C05 C29",
    "jacobian.py": "C04",
    "ik.py": "C24 C23 C25 C26 C29",
    "mjcf.py": "C10 C31 C29",
    "sdf.py": "C09 C31 C29",
    "urdf.py": "C08 C31 C29",
    "transforms/math.py": "C27 C28 C19 C22 C18",
    "transforms/perturbation.py": "C27",
    "transforms/rotation_conversions.py": "C17 C18 C19 C20 C21 C22 C27 C29",
    "transforms/so3.py": "C20 C21 C22 C29",
    "transforms/transform3d.py": "C14 C15 C16 C27 C31 C29",
    "urdf_parser_py/sdf.py": "C09 C31 C30 C29",
    "urdf_parser_py/urdf.py": "C30 C08 C31 C29",
    "urdf_parser_py/xml_reflection/basics.py": "C30 C08 C29",
    "urdf_parser_py/xml_reflection/core.py": "C30 C08 C09 C29",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*"], ast.MatMult: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["/"],
       ast.Mod: ["+"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def seg(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = seg(n)
        return b[s:e].decode()
    out = []

    def add(n, new, kind):
        s, e = seg(n)
        if b[s:e].decode() != new:
            out.append((n.lineno, s, e, new, kind))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            skip.update(ast.walk(n))
        if isinstance(n, (ast.FunctionDef,)):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation is not None:
                    skip.update(ast.walk(a.annotation))
            if n.returns is not None:
                skip.update(ast.walk(n.returns))
            for d in n.decorator_list:
                skip.update(ast.walk(d))
            if n.name in ("__repr__", "__str__", "print_tree"):
                skip.update(ast.walk(n))
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Call) and text(n.func).startswith(("warn", "logg", "print")):
            skip.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, "(%s %s %s)" % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), "cmp")
        if isinstance(n, ast.BinOp):
            for op in BIN.get(type(n.op), []):
                add(n, "(%s %s %s)" % (text(n.left), op, text(n.right)), "bin")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join(text(v) for v in n.values) + ")", "bool")
            for v in n.values:
                rest = [text(w) for w in n.values if w is not v]
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")", "booldrop")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, "(" + text(n.operand) + ")", "unary")
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
                if n.value > 1:
                    add(n, str(n.value - 1), "const")
            else:
                add(n, repr(n.value * 1.5 if n.value else 0.1), "const")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not isinstance(n.test, ast.Compare):
            add(n.test, "(not (%s))" % text(n.test), "cond")
        if isinstance(n, ast.If):
            add(n.test, "False", "condF")
            add(n.test, "True", "condT")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg in (None, "device"):  # there is one device here
                    continue
                s, e = seg(k)
                e2 = e
                while b[e2:e2 + 1] in (b" ",):
                    e2 += 1
                if b[e2:e2 + 1] == b",":
                    out.append((k.lineno, s, e2 + 1, "", "kwdrop"))
                else:
                    s2 = s
                    while b[s2 - 1:s2].isspace():
                        s2 -= 1
                    if b[s2 - 1:s2] == b",":
                        s2 -= 1
                    out.append((k.lineno, s2, e, "", "kwdrop"))
            f = text(n.func)
            for m in (".clone", ".contiguous", ".detach", ".unsqueeze", ".abs", ".transpose", ".to", ".clamp", ".float", ".copy"):
                if f.endswith(m) and isinstance(n.func, ast.Attribute):
                    add(n, text(n.func.value), "calldrop")
            if f in ("list", "abs", "sorted", "torch.clamp", "dict", "tuple", "copy.copy", "copy.deepcopy", "reversed") and len(n.args) >= 1:
                add(n, "(" + text(n.args[0]) + ")", "calldrop")
            if f.endswith(("sin", "cos")):
                add(n.func, f[:-3] + {"sin": "cos", "cos": "sin"}[f[-3:]], "fn")
            if f.endswith((".any", ".all")):
                add(n.func, f[:-3] + {"any": "all", "all": "any"}[f[-3:]], "fn")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) and n not in skip:
            add(n, "pass", "del")
        if isinstance(n, ast.Return) and n.value is not None:
            pass
        if isinstance(n, ast.AugAssign):
            add(n, "%s = %s" % (text(n.target), text(n.value)), "aug")
    seen, res = set(), []
    for line, s, e, new, kind in sorted(out):
        m = b[:s] + new.encode() + b[e:]
        if m in seen:
            continue
        seen.add(m)
        try:
            compile(m.decode(), path, "exec")
        except SyntaxError:
            continue
        res.append((line, b[s:e].decode(), new, kind, m.decode()))
    return res


def child_check(pid, root, scale, q):
    """In a fresh fork: run the facets of one check in this process."""
    os.setpgid(0, 0)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    os.environ["PKV_REPO"] = root
    try:
        import importlib
        core = importlib.import_module("pkv.core")
    except BaseException as e:
        q.put(("killed", "import: %r" % e))
        return
    try:
        check = importlib.import_module("pkv.checks." + pid.lower()).CHECK
    except BaseException as e:
        q.put(("killed", "check import: %r" % e))
        return
    errs = []
    for f in check.facets:
        n = max(3, int(f.quick * scale))
        f.shrink = False
        f.case_timeout = min(f.case_timeout, 40)
        try:
            r = core.Shard(check, f, n, core.derive_seed(pid, f.name, 7), 60, 0).run()
        except BaseException as e:
            errs.append("%s: %r" % (f.name, e))
            continue
        if r["fails"]:
            q.put(("killed", "%s/%s: %s" % (pid, f.name, r["fails"][0]["message"][:160])))
            return
    q.put(("error", "; ".join(errs)[:300]) if errs else ("survived", ""))


def one(job):
    k, rel, line, old, new, kind, code, scale = job
    root = "/tmp/mut/w%d" % os.getpid()
    dst = root + "/src/pytorch_kinematics"
    if not os.path.isdir(dst):
        shutil.copytree(SRC, dst, ignore=shutil.ignore_patterns("__pycache__"))
    orig = open(os.path.join(SRC, rel)).read()
    with open(os.path.join(dst, rel), "w") as fh:
        fh.write(code)
    t0 = time.time()
    res, by = "survived", ""
    try:
        for pid in FILES[rel].split():
            ctx = mp.get_context("fork")
            q = ctx.SimpleQueue()
            p = ctx.Process(target=child_check, args=(pid, root, scale, q))
            p.start()
            end = time.time() + 240
            while p.is_alive() and time.time() < end:
                p.join(0.2)
                if not q.empty():
                    break
            if not q.empty():
                r, msg = q.get()
            elif p.is_alive():
                r, msg = "killed", pid + ": timeout"
            else:
                r, msg = "killed", pid + ": process died"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.join()
            if r == "killed":
                res, by = r, msg
                break
            if r == "error":
                by += pid + ": " + msg
    finally:
        with open(os.path.join(dst, rel), "w") as fh:
            fh.write(orig)
    return dict(k=k, file=rel, line=line, old=old, new=new, kind=kind, result=res, by=by, t=round(time.time() - t0, 1))


class NoDaemonPool:
    """Workers must be able to fork: plain processes fed by a queue."""

    def __init__(self, jobs, n):
        self.jobs, self.n = jobs, n

    def run(self, sink):
        ctx = mp.get_context("fork")
        inq, outq = ctx.Queue(), ctx.Queue()

        def work():
            while True:
                j = inq.get()
                if j is None:
                    return
                try:
                    outq.put(one(j))
                except BaseException as e:
                    outq.put(dict(k=j[0], file=j[1], line=j[2], old=j[3], new=j[4], kind=j[5], result="tool-error", by=repr(e), t=0))
        ps = [ctx.Process(target=work) for _ in range(self.n)]
        for p in ps:
            p.start()
        for j in self.jobs:
            inq.put(j)
        for _ in ps:
            inq.put(None)
        for _ in self.jobs:
            sink(outq.get())
        for p in ps:
            p.join()
            shutil.rmtree("/tmp/mut/w%d" % p.pid, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--scale", type=float, default=0.1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--redo", help="jsonl of an earlier run: run only its survivors")
    a = ap.parse_args()
    redo = None
    if a.redo:
        redo = {(d["file"], d["line"], d["old"], d["new"]) for d in map(json.loads, open(a.redo)) if d["result"] != "killed"}
    jobs = []
    for rel in (a.files.split(",") if a.files else FILES):
        for k, (line, old, new, kind, code) in enumerate(mutants(os.path.join(SRC, rel))):
            if redo is not None and (rel, line, old, new) not in redo:
                continue
            if k % a.every == a.offset % a.every:
                jobs.append((k, rel, line, old, new, kind, code, a.scale))
    print(len(jobs), "mutants", flush=True)
    done = open(a.out, "a")
    n = [0, 0]

    def sink(r):
        n[0] += 1
        n[1] += r["result"] != "killed"
        done.write(json.dumps(r) + "\n")
        done.flush()
        if n[0] % 50 == 0:
            print(n, flush=True)
    NoDaemonPool(jobs, a.jobs).run(sink)
    print("done", n)


if __name__ == "__main__":
    if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
    sys.dont_write_bytecode = True
    os.environ.setdefault("PYTHONHASHSEED", "0")
    for v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ["MUJOCO_GL"] = "disable"
    sys.path.insert(0, V)
    import glob
    for p in sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3.*/site-packages")):
        sys.path.append(p)
    import numpy, torch, hypothesis, scipy.spatial.transform, lxml.etree, mujoco, yaml  # noqa: F401,E401
    import hypothesis.strategies  # noqa: F401
    torch.set_num_threads(1)
    main()
