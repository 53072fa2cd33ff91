"""Worker: runs one shard of one property's sub-checks, with Hypothesis generating and shrinking.

usage: python -m harness.engine --prop C01 --shard K --shards N --seed S --tier quick --out FILE
       python -m harness.engine --replay FILE
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

from .core import CaseTimeout, Discard, Rec, Violation

SHRINK_SECONDS = 25.0
CASE_CPU_SECONDS = 8.0
REPO = os.environ.get("VERIF_REPO", "/repo")
MAX_TIMEOUTS = 4


class Sub:
    """One executable check.

    name      : stable name
    check     : check(case, rec) -> None; raises Violation / Discard.  case is JSON-able.
    strategy  : () -> Hypothesis strategy of raw values, with decode(raw) -> case or None   (generated), or
    cases     : (tier) -> iterable of cases                                                  (systematic small scope)
    quick / thorough : number of generated cases over all shards
    """

    def __init__(self, name, check, strategy=None, decode=None, cases=None, quick=0, thorough=None, cpu=CASE_CPU_SECONDS, show=None):
        self.name = name
        self.check = check
        self.strategy = strategy
        self.decode = decode
        self.cases = cases
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.cpu = cpu
        self.show = show


class StopShrink(BaseException):
    pass


class Beat:
    """Leaves a copy of the results so far every few seconds of CPU time, so that the parent can tell when this worker
    is stuck inside one uninterruptible operation (a power with a number of billions of digits) and keep the rest."""

    EVERY = 4.0

    def __init__(self, path, res):
        self.path, self.res, self.last = path, res, -99.0
        self.name = self.st = None

    def tick(self, violation=None):
        now = time.process_time()
        if now - self.last < self.EVERY and violation is None:
            return
        self.last = now
        res = dict(self.res, subs=dict(self.res["subs"]))
        if self.st is not None:
            res["subs"][self.name] = self.st.dump()
        if violation is not None:
            res["violation"] = violation
        write(self.path, {"cpu": now, "sub": self.name, "res": res})


beat = None


def write(path, what):
    with open(path + ".tmp", "w") as f:
        json.dump(what, f)
    os.replace(path + ".tmp", path)


class Stats:
    def __init__(self):
        self.evals = 0
        self.discards = 0
        self.timeouts = 0
        self.labels = {}
        self.nontrivial = set()
        self.samples = []
        self.cpu = 0.0
        self.slow = []

    def dump(self):
        return {
            "evals": self.evals,
            "discards": self.discards,
            "timeouts": self.timeouts,
            "labels": self.labels,
            "nontrivial": sorted(self.nontrivial),
            "samples": self.samples,
            "cpu": round(self.cpu, 2),
            "slow": self.slow,
        }


def _on_alarm(signum, frame):
    raise CaseTimeout()


def run_case(sub, case, st, rec=None):
    """Returns None (held / outside the domain / inconclusive) or the violation message."""
    rec = rec or Rec()
    random.seed(0)
    t0 = time.process_time()
    if beat is not None:
        beat.tick()
    try:
        return _run_case(sub, case, st, rec)
    finally:
        dt = time.process_time() - t0
        if dt > 4 and len(st.slow) < 5:
            st.slow.append([sub.name, round(dt, 1), case])


def _run_case(sub, case, st, rec):
    signal.setitimer(signal.ITIMER_PROF, sub.cpu)
    try:
        sub.check(case, rec)
    except Discard as d:
        st.discards += 1
        key = "discard:" + (str(d) or "domain")
        st.labels[key] = st.labels.get(key, 0) + 1
        return None
    except CaseTimeout:
        st.timeouts += 1
        return None
    except MemoryError:
        st.timeouts += 1
        return None
    except Violation as v:
        return str(v)
    except (RecursionError, ImportError):
        raise
    except Exception as ex:
        # every exception a check allows for is handled there: one that arises inside the library and is not is a failure
        tb = ex.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        if not os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.join(os.path.realpath(REPO), "src") + os.sep):
            raise
        return "%s: %s raised in %s" % (type(ex).__name__, ex, tb.tb_frame.f_code.co_name)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    st.evals += 1
    for l in rec.labels:
        st.labels[l] = st.labels.get(l, 0) + 1
    if rec.nontrivial:
        h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=6).hexdigest()
        if h not in st.nontrivial:
            st.nontrivial.add(h)
            k = len(st.nontrivial)
            if len(st.samples) < 3 and (k in (5, 40, 200)):
                st.samples.append({"sub": sub.name, "case": rec.show or (sub.show(case) if sub.show else case), "labels": sorted(set(rec.labels))[:8]})
    return None


def run_sub(sub, shard, shards, seed, tier, scale):
    st = Stats()
    t0 = time.process_time()
    viol = None
    if beat is not None:
        beat.name, beat.st = sub.name, st
        beat.last = -99.0
        beat.tick()
    if sub.cases is not None:
        for i, case in enumerate(sub.cases(tier)):
            if i % shards != shard:
                continue
            if st.timeouts >= MAX_TIMEOUTS:
                break
            msg = run_case(sub, case, st)
            if msg is not None:
                viol = {"sub": sub.name, "case": case, "message": msg}
                break
    if viol is None and sub.strategy is not None:
        viol = run_generated(sub, shard, shards, seed, tier, st, scale)
    st.cpu = time.process_time() - t0
    return st, viol


def run_generated(sub, shard, shards, seed, tier, st, scale):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    total = int((sub.quick if tier == "quick" else sub.thorough) * scale)
    n = max(1, total // shards)
    best = {}
    t_first = [None]

    def body(raw):
        if st.timeouts >= MAX_TIMEOUTS:
            return
        if t_first[0] is not None and time.monotonic() - t_first[0] > SHRINK_SECONDS:
            raise StopShrink()
        case = sub.decode(raw) if sub.decode else raw
        if case is None:
            st.discards += 1
            return
        case = json.loads(json.dumps(case))
        msg = run_case(sub, case, st)
        if msg is not None:
            best["case"] = case
            best["message"] = msg
            if t_first[0] is None:
                t_first[0] = time.monotonic()
            if beat is not None:
                beat.tick({"sub": sub.name, "case": case, "message": msg})
            raise Violation(msg[:60])

    hseed = int(hashlib.blake2b(("%d/%d/%s" % (seed, shard, sub.name)).encode(), digest_size=6).hexdigest(), 16)
    test = hypothesis.seed(hseed)(
        settings(
            max_examples=n,
            deadline=None,
            database=None,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False,
            print_blob=False,
        )(given(sub.strategy())(body))
    )
    try:
        test()
    except StopShrink:
        pass
    except Violation:
        pass
    except BaseException as ex:
        if not best:
            raise
        # Flaky / MultipleFailures after a genuine failure: confirm below by replaying the recorded case
    if not best:
        return None
    msg = run_case(sub, best["case"], Stats())
    if msg is None:
        if "RecursionError" in best["message"]:  # depth depends on who calls
            return None
        # it depends on what ran before it: the replay is this shard's whole run
        return {"sub": sub.name, "case": best["case"], "message": best["message"] + "  (only after the cases generated before it)", "history": {"shard": shard, "shards": shards, "seed": seed, "tier": tier, "scale": scale}}
    return {"sub": sub.name, "case": best["case"], "message": msg}


def load(prop):
    return importlib.import_module("harness.checks.%s" % prop.lower())


def setup(seed):
    sys.setrecursionlimit(4000)
    random.seed(seed)
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGPROF, _on_alarm)
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    import simpy

    if not os.path.realpath(simpy.__file__).startswith(os.path.realpath(REPO) + "/src/"):
        raise RuntimeError("simpy imported from " + simpy.__file__)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--shards", type=int, default=1)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--after")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        rp = json.load(open(a.replay))
        setup(rp.get("seed", 1))
        mod = load(rp["property"])
        sub = {s.name: s for s in mod.SUBS}[rp["sub"]]
        if rp.get("history"):
            h = rp["history"]
            _, viol = run_sub(sub, h["shard"], h["shards"], h["seed"], h["tier"], h["scale"])
            msg = viol and viol["message"]
        else:
            msg = run_case(sub, rp["case"], Stats())
        if msg:
            print("VIOLATION property=%s replay=%s" % (rp["property"], a.replay))
            print(msg)
            sys.exit(1)
        print("holds on this case")
        sys.exit(0)
    res = {"shard": a.shard, "subs": {}, "violation": None, "error": None, "known": {}}
    try:
        setup(a.seed)
        mod = load(a.prop)
        subs = mod.SUBS
        if a.after:
            subs = subs[[s.name for s in subs].index(a.after) + 1 :]
        global beat
        beat = Beat(a.out + ".beat", res)
        if a.shard == 0 and not a.after:
            for fid, fn in getattr(mod, "KNOWN", {}).items():
                res["known"][fid] = bool(fn())
        for sub in subs:
            if a.only and a.only != sub.name:
                continue
            st, viol = run_sub(sub, a.shard, a.shards, a.seed, a.tier, a.scale)
            res["subs"][sub.name] = st.dump()
            if viol:
                res["violation"] = viol
                break
    except BaseException:
        res["error"] = traceback.format_exc()
    write(a.out, res)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
