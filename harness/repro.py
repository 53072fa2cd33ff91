"""The answers of the library to one request, as plain data; also a helper process that gives them under other circumstances (C25)."""
import json
import os
import random
import sys
import time

import simpy
import simpy.expr as E
import simpy.regex as RX
import simpy.simplify  # noqa: F401

from .core import Discard
from .ev import snapshot
from .integ import FAMILIES, Integrand, P, SI, bounded
from .prog import as_expr, build_all

SM = sys.modules["simpy.simplify.simplify"]
SLOW = "slow"


def plain(r):
    if isinstance(r, E.Expr):
        return [repr(r), flat(snapshot(r))]
    if isinstance(r, (list, tuple)):
        return [plain(x) for x in r]
    if isinstance(r, dict):
        return {str(k): plain(v) for k, v in r.items()}
    return repr(r)


def flat(s):
    return [flat(x) if isinstance(x, tuple) else str(x) for x in s]


def outcome(fn, seed):
    random.seed(seed)
    try:
        return plain(fn())
    except Exception as ex:
        return "raises %s" % type(ex).__name__


def size(e):
    return 1 + sum(size(c) for c in e.children())


def answers(req, seed):
    """[[question, answer] ..]"""
    out = []

    def ask(q, fn):
        out.append([q, outcome(fn, seed)])
        return out[-1][1]

    if req["kind"] == "formula":
        built = []

        def build():
            built.extend(as_expr(v, E) for v in build_all(req["prog"], E))
            return built

        ask("the formula", build)
        if not built:
            return out
        for e in [built[-1]] + built[-3:-1]:
            t = repr(e)
            names = sorted({s.name for s in e.symbols()})
            x = E.Symbol(names[0]) if names else E.Symbol("x")
            ask("symbols of " + t, lambda: sorted(s.name for s in e.symbols()))
            ask("LaTeX of " + t, lambda: e.latex())
            ask("expansion of " + t, lambda: e.expand() if e.expandable() else None)
            ask("derivative of " + t, lambda: e.diff(x))
            ask("factored " + t, lambda: e.factor() if isinstance(e, E.Sum) else None)
            ask("value of " + t, lambda: e.evalf({n: 2 + i for i, n in enumerate(names)}))
            ask("substitution in " + t, lambda: e.subs({n: E.Symbol(names[i - 1]) + i for i, n in enumerate(names)}))
            ask("count in " + t, lambda: RX.count(e, x))
            for q in (E.sin(RX.any_), RX.Any_("p") * RX.Any_("q"), 1 + E.tan(RX.any_) ** 2):
                ask("match in " + t, lambda: bool(RX.eq(e, q).get("success")))
            if size(e) <= 22:
                ask("simplified " + t, lambda: e.simplify())
    else:
        it = Integrand(FAMILIES[req["fam"]](P(req["raw"])), req["var"])
        f = []

        def build():
            f.append(it.build())
            return f[0]

        ask("the integrand", build)
        if not f:
            return out
        b = bounded(30, 0, cpu=6)

        def run():
            with b:
                random.seed(seed)
                return SI.integrate(f[0], E.Symbol(req["var"]), breadth_first=bool(req.get("bf")))

        ask("integral of %s" % f[0], run)
        if b.clock.out_of_cpu:
            out[-1][1] = SLOW
    return out


def main():
    """Reads requests, one JSON object per line; a request with "fresh" is answered by a child that has computed nothing before."""
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    prev = None
    for line in sys.stdin:
        req = json.loads(line)
        last = prev
        prev = req
        if req.get("again") and last is not None:
            safe(last)
        if not req.get("fresh"):
            r = safe(req)
        else:
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                with os.fdopen(wr, "w") as f:
                    f.write(json.dumps(safe(req)))
                os._exit(0)
            os.close(wr)
            with os.fdopen(rd) as f:
                s = f.read()
            os.waitpid(pid, 0)
            r = json.loads(s) if s else {"error": "the child died"}
        out.write(json.dumps(dict(r, id=req["id"])) + "\n")
        out.flush()


def safe(req):
    try:
        return {"answers": answers(req, req["seed"])}
    except Discard as ex:
        return {"discard": str(ex)}
    except Exception as ex:
        return {"error": "%s: %s" % (type(ex).__name__, ex)}


if __name__ == "__main__":
    main()
