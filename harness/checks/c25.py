"""C25: the same question has the same answer in every run, whatever was asked before and whatever the hash and random state."""
import atexit
import json
import os
import select
import subprocess
import sys
import time

from hypothesis import strategies as st

from ..common import *
from ..engine import Sub
from ..integ import FAMILIES
from ..repro import SLOW, answers
from .c01 import OPS_ALL

OPS = {k: v for k, v in OPS_ALL.items() if k not in ("asin", "acos", "atan")}
P_R = Profile(OPS, maxlen=14, minlen=4)
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
FAMS = sorted(FAMILIES)


class Helper:
    """Another interpreter with its own hash seed."""

    def __init__(self, hashseed, extra):
        self.hashseed, self.extra, self.p, self.n = hashseed, extra, None, 0

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED=str(self.hashseed))
        self.p = subprocess.Popen([sys.executable, "-m", "harness.repro"], cwd=ROOT, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.buf = b""
        atexit.register(self.stop)

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def send(self, req):
        if self.p is None:
            self.start()
        self.n += 1
        self.p.stdin.write(json.dumps(dict(req, id=self.n, **self.extra)).encode() + b"\n")
        self.p.stdin.flush()

    def receive(self, seconds=60):
        end = time.time() + seconds
        while True:
            while b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                r = json.loads(line)
                if r["id"] == self.n:
                    return r
            left = end - time.time()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                self.stop()
                raise Discard("no answer in time")
            data = os.read(self.p.stdout.fileno(), 65536)
            if not data:
                self.stop()
                raise Discard("the other interpreter ended")
            self.buf += data


HELPERS = [
    ("in an interpreter with another hash seed and random state, after other questions", Helper(4021, {"seed": 77, "again": True})),
    ("in a fresh interpreter", Helper(17, {"seed": 5, "fresh": True})),
]


def check(case, rec):
    req = dict(case)
    if req["kind"] == "formula" and (len(req["prog"]) > 22 or not tame(req["prog"])):
        raise Discard("long")
    for _, h in HELPERS:
        h.send(req)
    mine = answers(req, 0)
    got = [(name, h.receive()) for name, h in HELPERS]
    n = 0
    for name, r in got:
        if "answers" not in r:
            if "discard" in r:
                raise Discard(r["discard"])
            raise Violation("%s, %s gives %s" % (describe(req), name, r.get("error")))
        theirs = r["answers"]
        for (q, a), (p, b) in zip(mine, theirs):
            if SLOW in (a, b):
                continue
            if q != p:
                raise Violation("what is %s here is %s %s (%s)" % (q, p, name, describe(req)))
            if json.loads(json.dumps(a)) != b:
                raise Violation("%s is %s here but %s %s" % (q, brief(a), brief(b), name))
            n += 1
        if len(mine) != len(theirs) and SLOW not in [a for _, a in mine + theirs]:
            raise Violation("%s: %d answers here, %d %s" % (describe(req), len(mine), len(theirs), name))
    rec.label(req["kind"], "answers:%d" % min(40, n // 10 * 10))
    rec.nontrivial = n >= 12 if req["kind"] == "formula" else n >= 4 and isinstance(mine[-1][1], list)  # (an integral that is solved)
    rec.show = describe(req)


def describe(req):
    if req["kind"] == "formula":
        return text(req["prog"])
    return "an integral of family %s" % req["fam"]


def brief(a):
    return str(a[0] if isinstance(a, list) and a and isinstance(a[0], str) else a)[:300]


def strat_formula():
    return st.tuples(P_R.strategy(), st.integers(0, len(NAMINGS) - 1))


def dec_formula(raw):
    p = P_R.decode(raw[0])
    return None if p is None else {"kind": "formula", "prog": rename(prune(p), NAMINGS[raw[1]])}


def strat_integral():
    b = st.integers(0, 255)
    return st.tuples(st.integers(0, len(FAMS) - 1), st.lists(b, min_size=30, max_size=30), st.sampled_from(["x", "t", "u", "v", "Y", "z1"]), st.integers(0, 5))


def dec_integral(raw):
    f, r, v, bf = raw
    return {"kind": "integral", "fam": FAMS[(f + sum(r)) % len(FAMS)], "raw": r, "var": v, "bf": int(bf == 0)}


SUBS = [
    Sub("formulas", check, strat_formula, dec_formula, quick=1600, cpu=10),
    Sub("integrals", check, strat_integral, dec_integral, quick=500, cpu=14),
]
