"""Engine: facets (Hypothesis strategy + test function) run in forked, seeded shards; failures shrink to a JSON replay file."""
import hashlib
import json
import os
import pickle
import select
import signal
import sys
import tempfile
import time
import traceback

from . import boot  # noqa: F401
import numpy as np
import torch
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
from hypothesis import strategies as st
from hypothesis.errors import Unsatisfiable, UnsatisfiedAssumption

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The code under test broke the property on a valid input."""


class HarnessError(Exception):
    """The generator, oracle or engine is at fault; never reported as a violation."""


class CaseTimeout(Exception):
    pass


def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


class Rec:
    """Collects labels of one case while it executes."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(n for n in names if n)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


class Facet:
    def __init__(self, name, strategy, fn, quick, thorough=None, shards=1, case_timeout=90, shrink=True, ambient=False):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 20
        self.shards = shards
        self.case_timeout = case_timeout
        self.shrink = shrink
        self.ambient = ambient  # run with double as the default precision of the process

    def under_double(self, quick, strategy=None, shards=1):
        return Facet(self.name + " (default double)", strategy if strategy is not None else self.strategy, self.fn, quick, quick * 20, shards, self.case_timeout, self.shrink, True)


class Check:
    def __init__(self, pid, facets, rule, assumptions=(), ambient=True, boost=2):
        for f in facets:
            f.quick, f.shards = f.quick * boost, f.shards if boost == 1 else min(8, f.shards * 2 if f.shards > 1 else 2)
        facets = facets + [f.under_double(max(30, f.quick // 15)) for f in facets[:1] if ambient]
        self.pid, self.facets, self.rule, self.assumptions = pid, facets, rule, list(assumptions)


def canon(case):
    return json.dumps(case, sort_keys=True, allow_nan=True)


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def _alarm(signum, frame):
    raise CaseTimeout()


def execute(facet, case, rec=None):
    """Run one case. Returns None or the message of the violation."""
    rec = rec or Rec()
    h = int(digest(case)[:8], 16)
    torch.manual_seed(h & 0x7FFFFFFF)
    np.random.seed(h & 0x7FFFFFFF)
    torch.set_default_dtype(torch.float64 if facet.ambient else torch.float32)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(facet.case_timeout)
    try:
        facet.fn(json.loads(canon(case)), rec)
        return None
    except Violation as e:
        return "%s" % e
    except (HarnessError, MemoryError, KeyboardInterrupt, UnsatisfiedAssumption):
        raise
    except CaseTimeout:
        return "a call did not finish within %d s" % facet.case_timeout
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/pytorch_kinematics/" in f.filename]
        loc = where[-1] if where else tb[-1]
        return "%s raised at %s:%d (%s): %s" % (type(e).__name__, loc.filename, loc.lineno, loc.name, str(e)[:300])
    finally:
        signal.alarm(0)


class Shard:
    """One Hypothesis run of one facet in its own process."""

    def __init__(self, check, facet, n, seed, budget_s, shrink_s):
        self.check, self.facet, self.n, self.seed = check, facet, n, seed
        self.budget_s, self.shrink_s = budget_s, shrink_s

    def run(self):
        f = self.facet
        st_ = dict(evals=0, nt=set(), distinct=set(), labels={}, samples=[], fails=[], n_fail=0, budget_hit=False)
        t0 = time.time()
        first_fail = [None]
        best = [None]  # (len, case, msg)

        def body(case):
            now = time.time()
            if first_fail[0] is None and now - t0 > self.budget_s:
                st_["budget_hit"] = True
                return
            if first_fail[0] is not None and now - first_fail[0] > self.shrink_s:
                return  # shrink time is over: let everything pass so that Hypothesis stops
            rec = Rec()
            msg = execute(f, case, rec)
            if first_fail[0] is None:
                st_["evals"] += 1
                d = digest(case)
                st_["distinct"].add(d)
                for l in rec.labels:
                    st_["labels"][l] = st_["labels"].get(l, 0) + 1
                if rec.nontrivial and d not in st_["nt"]:
                    st_["nt"].add(d)
                    if len(st_["samples"]) < 2:
                        st_["samples"].append(case)
            if msg is not None:
                st_["n_fail"] += 1
                if first_fail[0] is None:
                    first_fail[0] = time.time()
                size = len(canon(case))
                if best[0] is None or size <= best[0][0]:
                    best[0] = (size, case, msg)
                raise Violation("x")  # one message, so that all failures are one failure to the shrinker

        phases = (Phase.generate, Phase.shrink) if f.shrink else (Phase.generate,)
        runner = settings(max_examples=self.n, deadline=None, database=None, phases=phases, report_multiple_bugs=False,
                          suppress_health_check=list(HealthCheck), print_blob=False)(given(f.strategy)(body))
        runner = hseed(self.seed)(runner)
        try:
            runner()
        except (Violation, CaseTimeout):
            pass
        except Unsatisfiable as e:
            raise HarnessError("generator of %s: %r" % (f.name, e))
        except Exception:
            if best[0] is None:
                raise
        if best[0] is not None:
            st_["fails"].append(dict(facet=f.name, case=best[0][1], message=best[0][2], hits=st_["n_fail"]))
        return st_


def _fork(fn):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            null = os.open(os.devnull, os.O_WRONLY)
            if not os.environ.get("PKV_VERBOSE"):
                os.dup2(null, 1)  # the parser and print_tree write to these
                os.dup2(null, 2)
            out = ("ok", fn())
        except BaseException as e:
            out = ("err", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
            code = 1
        try:
            with os.fdopen(w, "wb") as fh:
                fh.write(pickle.dumps(out))
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def run_pool(tasks, workers, deadline):
    """tasks: list of callables; each runs in a forked child. Returns list of ('ok', x) | ('err', msg) | ('timeout', None)."""
    results = [None] * len(tasks)
    pending = list(enumerate(tasks))
    live = {}  # fd -> (i, pid, chunks)
    while pending or live:
        while pending and len(live) < workers:
            i, t = pending.pop(0)
            pid, r = _fork(t)
            live[r] = (i, pid, [])
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for r in ready:
            i, pid, chunks = live[r]
            data = os.read(r, 1 << 20)
            if data:
                chunks.append(data)
                continue
            os.close(r)
            del live[r]
            os.waitpid(pid, 0)
            try:
                results[i] = pickle.loads(b"".join(chunks))
            except Exception as e:
                results[i] = ("err", "worker died (%r)" % e)
        if time.time() > deadline:
            for r, (i, pid, _) in list(live.items()):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                results[i] = ("timeout", None)
            live.clear()
            for i, _ in pending:
                results[i] = ("timeout", None)
            pending = []
    return results


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], "big")


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def write_replay(pid, f):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    name = "%s-%s-%s.json" % (pid, f["facet"].replace("/", "_"), digest(f["case"]))
    path = os.path.join(VERIF, "replays", name)
    with open(path, "w") as fh:
        json.dump(dict(property=pid, facet=f["facet"], case=f["case"], message=f["message"], seed=f.get("seed"),
                       n=f.get("n")), fh, indent=1)
    return path


def run_check(check, tier, seed, workers=None, scale=1.0, only=None):
    t0 = time.time()
    pid = check.pid
    workers = workers or int(os.environ.get("PKV_WORKERS", "8"))
    quick = tier == "quick"
    budget = float(os.environ.get("PKV_BUDGET", "200" if quick else "3000"))
    shrink_s = 40 if quick else 120
    hard = t0 + (780 if quick else 6 * 3600)
    shards = []
    for f in check.facets:
        if only and f.name not in only:
            continue
        total = max(1, int((f.quick if quick else f.thorough) * scale))
        k = max(1, min(f.shards if quick else max(f.shards, 8), total))
        for i in range(k):
            n = total // k + (1 if i < total % k else 0)
            shards.append(Shard(check, f, n, derive_seed(pid, f.name, seed, i, k), budget, shrink_s))
    shards.sort(key=lambda s: -s.n / max(1, (s.facet.quick if quick else s.facet.thorough)))
    results = run_pool([s.run for s in shards], workers, hard - 60)
    errors, fails = [], []
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": check.rule, "samples": [], "facets": {}, "labels": {}}
    for s, (kind, val) in zip(shards, results):
        if kind == "err":
            errors.append("%s: %s" % (s.facet.name, val))
            continue
        if kind == "timeout":
            errors.append("%s: did not finish in time" % s.facet.name)
            continue
        fc = cov["facets"].setdefault(s.facet.name, {"evaluations": 0, "nt": set(), "distinct": set(), "budget_hit": 0})
        fc["evaluations"] += val["evals"]
        fc["nt"] |= val["nt"]
        fc["distinct"] |= val["distinct"]
        fc["budget_hit"] += bool(val["budget_hit"])
        for l, c in val["labels"].items():
            cov["labels"]["%s:%s" % (s.facet.name, l)] = cov["labels"].get("%s:%s" % (s.facet.name, l), 0) + c
        if len([x for x in cov["samples"] if x["facet"] == s.facet.name]) < 1:
            cov["samples"] += [{"facet": s.facet.name, "case": c} for c in val["samples"][:1]]
        for x in val["fails"]:
            x["seed"], x["n"] = s.seed, s.n
            x["_shard"] = s
            fails.append(x)
    for name, fc in cov["facets"].items():
        cov["evaluations"] += fc["evaluations"]
        cov["distinct_nontrivial"] += len(fc["nt"])
        fc["distinct"], fc["distinct_nontrivial"] = len(fc.pop("distinct")), len(fc.pop("nt"))

    # known findings: executed every run, reported when they still fail
    facets = {f.name: f for f in check.facets}
    known = known_findings(pid)
    for k in known:
        res = run_pool([lambda k=k: execute(facets[k["facet"]], k["case"])], 1, time.time() + 200)[0]
        if res[0] == "ok" and res[1] is not None:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        cov.setdefault("known_findings_checked", 0)
        cov["known_findings_checked"] += 1

    # confirm each failure from its JSON form in a fresh process; if it does not show up alone, repeat its whole shard
    best = {}
    for x in fails:
        key = x["facet"]
        if key not in best or len(canon(x["case"])) < len(canon(best[key]["case"])):
            best[key] = x
    confirmed = []
    for x in best.values():
        res = run_pool([lambda x=x: execute(facets[x["facet"]], x["case"])], 1, time.time() + 150)[0]
        ok = (res[0] == "ok" and res[1] is not None) or res[0] == "timeout"
        if ok:
            x["message"] = res[1] if res[0] == "ok" else x["message"]
        elif time.time() < hard - 200:
            s = x["_shard"]
            res2 = run_pool([s.run], 1, time.time() + 150)[0]
            if res2[0] == "ok" and res2[1]["fails"]:
                ok = True
                x["mode"] = "shard"
        if ok:
            confirmed.append(x)
        else:
            errors.append("%s: failure did not reproduce: %s" % (x["facet"], x["message"]))
    for x in confirmed:
        path = write_replay(pid, x)
        print("%s/%s: %s" % (pid, x["facet"], x["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    if only is None and os.environ.get("PKV_NO_EVIDENCE") is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    for e in errors:
        print("HARNESS-ERROR %s %s" % (pid, e), file=sys.stderr)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s, %d violation(s), %d error(s)" % (
        pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"], len(confirmed), len(errors)))
    return 1 if confirmed else (2 if errors else 0)


def replay(check, path):
    d = json.load(open(path))
    f = {f.name: f for f in check.facets}[d["facet"]]
    msg = execute(f, d["case"])
    if msg is None:
        print("replay passes: %s" % path)
        return 0
    print("%s/%s: %s" % (check.pid, d["facet"], msg))
    print("VIOLATION property=%s replay=%s" % (check.pid, path))
    return 1


def close(got, want, tol, what):
    """Require equality of arrays up to an absolute tolerance, with shapes."""
    from .gen import arr
    a, b = arr(got), arr(want)
    if a.shape != b.shape:
        raise Violation("%s: shape %s instead of %s" % (what, a.shape, b.shape))
    if a.size == 0:
        return
    same = (a == b)
    d = np.where(same, 0.0, np.abs(np.where(same, 0, a) - np.where(same, 0, b)))
    tolb = np.broadcast_to(np.asarray(tol, float), d.shape)
    bad = ~(d <= tolb)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d) - tolb), d.shape)
        raise Violation("%s: %r instead of %r at %s (tolerance %.2g)" % (what, float(a[i]), float(b[i]), tuple(int(x) for x in i), tolb[i]))
