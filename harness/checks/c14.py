"""C14: every step of the integrator is reversible, and its search tree knows what is solved and what has failed.

A step replaces the integral of f(x) dx by integrals of g_i(u_i) du_i.  Give each of those the stand-in solution K_i*u_i, where K_i is
the value of g_i at the point u_i that corresponds to a chosen x0; undo the step with the library's own `backward`; the derivative of
what it makes of the stand-ins at x0 must be f(x0).  This decides a single step without solving anything.
"""
import json

from hypothesis import strategies as st

import simpy.transforms as ST

from ..engine import Sub
from ..common import *
from ..core import NonFinite
from ..ev import dvalue, sh
from ..integ import CONSTS, FAMILIES, FNAMES, Integrand, P, X, atom, bounded, h_any, mul, plus, SI

Node = ST.Node
SKIP = (Undef, OverflowError, ValueError, ZeroDivisionError)


class Skip(Exception):
    pass


def kind(tr):
    return type(tr).__name__


def filler_solution(n):
    return n.is_filler and n.type == "SOLUTION"


def chain_special(p):
    """A node below the second part of by-parts, through pulled-out constants only, that by-parts solved outright; or None."""
    if not (p.is_filler and p.type == "AND" and len(p.children) == 2):
        return None
    n = p.children[1]
    while True:
        if any(filler_solution(c) for c in n.children):
            return n
        n = n.children[0] if len(n.children) == 1 and isinstance(n.children[0].transform, ST.PullConstant) else None
        if n is None:
            return None


class Steps:
    """Checks the steps of a search tree at one point."""

    def __init__(self, ops, env, tol, what, rec):
        self.o, self.env, self.tol, self.what, self.rec = ops, env, tol, what, rec
        self.done = 0
        self.k = 0

    def val(self, e, env):
        return value(e, env, Real(self.o))

    def quadrant(self, e, env):
        """Every trigonometric argument in the first quadrant: only there do the substitutions by trigonometric functions promise anything."""
        if isinstance(e, (E.sin, E.cos, E.tan, E.sec, E.csc, E.cot)):
            try:
                v = self.val(e.inner, env)
            except SKIP + (NonFinite,):
                return False
            if not 0 < v < 1.5707 and e.inner.symbols():
                return False
        return all(self.quadrant(c, env) for c in e.children())

    def u0(self, child, env):
        """The point of the child's variable that corresponds to env of its parent's."""
        p = child.parent
        if child.var == p.var:
            return env[p.var.name]
        old, child.solution = child.solution, child.var
        oldp = p.solution
        try:
            call("undoing %s" % kind(child.transform), child.transform.backward, child)
            u = p.solution
        finally:
            child.solution, p.solution = old, oldp
        return self.val(u, env)

    def env_of(self, child, env):
        e = {k: v for k, v in env.items() if k != child.parent.var.name or child.expr.contains(child.parent.var)}
        e[child.var.name] = self.u0(child, env)
        return e

    def compare(self, p, env, how):
        """p.solution differentiates to p.expr at env."""
        R = Real(self.o)
        try:
            want = value(p.expr, env, R)
            if R.scale > 1e7 or abs(want) > 1e6:
                raise Skip()
        except NonFinite:
            raise Skip()
        except SKIP:
            raise Skip()
        R2 = Real(self.o)
        try:
            got = dvalue(p.solution, env, p.var.name, R2)[1]
        except NonFinite as ex:
            raise Violation("%s: %s gives %s, which contains %s" % (self.what, how, show(p.solution), ex))
        except SKIP:
            raise Skip()
        if abs(got - want) > self.tol * (1 + abs(want) + (R.scale + R2.scale) * (1e-3 if self.o is FloatOps else 1e-6)):
            if not (self.quadrant(p.expr, env) and self.quadrant(p.solution, env)):
                raise Skip()
            raise Mismatch("%s: %s at %s: the integrand is %s but the derivative of the undone step is %s" % (self.what, how, {k: sh(v) for k, v in env.items() if not k.startswith("K_")}, sh(want), sh(got)))
        self.done += 1

    def stand_in(self, c, env):
        """Gives the child a stand-in solution; returns the value of its constant."""
        if c.type == "SOLUTION" and c.is_filler:
            return None
        try:
            k = self.val(c.expr, env)
        except NonFinite:
            raise Skip()
        except SKIP:
            raise Skip()
        if abs(k) > 1e7:
            raise Skip()
        self.k += 1
        name = "K_%d" % self.k
        c.solution = E.Symbol(name) * c.var
        return name, k

    def one(self, p, kids, env):
        saved = [(n, n.solution) for n in kids + [p]]
        try:
            e = dict(env)
            for c in kids:
                s = self.stand_in(c, self.env_of(c, env))
                if s:
                    e[s[0]] = s[1]
            for c in kids:
                call("%s: undoing %s" % (self.what, kind(c.transform)), c.transform.backward, c)
            t = kind(kids[0].transform)
            how = "%s takes the integral of %s d%s to %s" % ("By parts" if p.is_filler else t, show(p.expr), p.var, " + ".join("that of %s d%s" % (show(c.expr), c.var) if not filler_solution(c) else show(c.solution) for c in kids))
            self.compare(p, e, how)
            self.rec.label("step:" + t)
        finally:
            for n, s in saved:
                n.solution = s

    def special(self, p, n, env):
        """By parts came back to the integrand it started from."""
        path = [n]
        while path[-1] is not p:
            path.append(path[-1].parent)
        saved = [(m, m.solution) for m in path]
        try:
            c = [c for c in n.children if filler_solution(c)][0]
            c.transform.backward(c)
            for m in path[:-1]:
                m.transform.backward(m)
            self.compare(p, env, "By parts solves the integral of %s d%s, having come back to it" % (show(p.expr), p.var))
            self.rec.label("step:ByParts, returning")
        finally:
            for m, s in saved:
                m.solution = s

    def constant_in(self, e, name, env):
        """The value of e does not depend on name, e.g. sec*(tan + sec)/(sec^2 + sec*tan)."""
        vs = []
        for q in (F(1, 7), F(2, 5), F(7, 9), F(9, 8)):
            d = {s.name: self.o.frac(F(2, 3)) for s in e.symbols()}
            d.update(env)
            d[name] = self.o.frac(q)
            try:
                vs.append(self.val(e, d))
            except SKIP + (NonFinite,):
                continue
        return len(vs) > 1 and max(vs) - min(vs) <= self.tol * (1 + abs(vs[0]))

    def scope(self, p, env):
        """An integral is over its own variable and the constants of the one it comes from."""
        for c in p.children:
            allowed = ({s.name for s in p.expr.symbols()} - {p.var.name} if c.var != p.var else {s.name for s in p.expr.symbols()}) | {c.var.name}
            extra = {s.name for s in c.expr.symbols()} - allowed
            if extra == {p.var.name} and self.constant_in(c.expr, p.var.name, env):
                self.rec.label("the old variable remains in a factor that does not depend on it")
            elif extra:
                raise Violation("%s: %s takes the integral of %s d%s to that of %s d%s, which still contains %s" % (self.what, kind(c.transform), show(p.expr), p.var, show(c.expr), c.var, sorted(extra)))

    def walk(self, p, env, depth=0):
        if depth > 40:
            self.rec.label("deeper than 40 levels")
            return
        self.scope(p, env)
        n = chain_special(p)
        groups = [p.children] if p.type == "AND" else [[c] for c in p.children]
        for g in groups:
            if not g:
                continue
            try:
                if n is not None:
                    self.special(p, n, env)
                elif filler_solution(g[0]) and len(g) == 1:
                    if not any(chain_special(q) is p for q in ancestors(p)):
                        self.one(p, g, env)
                else:
                    self.one(p, g, env)
            except Skip:
                self.rec.label("step undecided at the point")
            except SKIP:
                self.rec.label("step undecided at the point")
        if p.type == "SOLUTION" and not p.children and not p.is_filler:
            old = p.solution
            try:
                self.compare(p, env, "the table gives %s for the integral of %s d%s" % (show(p.solution), show(p.expr), p.var))
                self.rec.label("table entry")
            except Skip:
                pass
            finally:
                p.solution = old
        for c in p.children:
            try:
                e = self.env_of(c, env)
            except SKIP + (NonFinite,):
                continue
            self.walk(c, e, depth + 1)


class Mismatch(Exception):
    pass


def ancestors(n):
    out = []
    while n.parent is not None:
        n = n.parent
        out.append(n)
    return out


def check_steps(root, it, what, rec, npts=2):
    """All the steps in the tree, at some points of the integrand's domain."""
    done = 0
    for pt in it.points(npts):
        try:
            s = Steps(FloatOps, {k: FloatOps.frac(v) for k, v in pt.items()}, 1e-6, what, rec)
            s.walk(root, s.env)
        except Mismatch:
            s = Steps(MpOps, {k: MpOps.frac(v) for k, v in pt.items()}, 1e-18, what, rec)
            try:
                s.walk(root, s.env)
            except Mismatch as ex:
                raise Violation(str(ex))
        done += s.done
    return done


# ------------------------------------------------------------------ status of a tree, from the statement


def solvable(n, unknown):
    """Would the problem be solved if every undecided leaf turned out as `unknown`?"""
    if n.type == "SOLUTION":
        return True
    if n.type == "FAILURE":
        return False
    if not n.children:
        return unknown
    ks = [solvable(c, unknown) for c in n.children]
    return any(ks) if n.type == "OR" else all(ks)


def status(n):
    return "solved" if solvable(n, False) else "failed" if not solvable(n, True) else "open"


def check_status(root, what):
    """Every status property of every node agrees with the reference."""

    def leaves(n):
        return [n] if not n.children else [l for c in n.children for l in leaves(c)]

    def go(n, d):
        s = status(n)
        where = "%s: node %r at depth %d" % (what, n, d)
        for name, want in (("is_solved", s == "solved"), ("is_failed", s == "failed"), ("is_finished", s != "open")):
            got = call("%s of %s" % (name, where), getattr, n, name)
            if bool(got) != want:
                raise Violation("%s has %s = %r, but it is %s" % (where, name, got, s))
        if [id(l) for l in n.leaves] != [id(l) for l in leaves(n)]:
            raise Violation("%s: wrong leaves" % where)
        if [id(l) for l in n.unfinished_leaves] != [id(l) for l in leaves(n) if status(l) == "open"]:
            raise Violation("%s: wrong unfinished leaves" % where)
        if [id(c) for c in n.unfinished_children] != [id(c) for c in n.children if status(c) == "open"]:
            raise Violation("%s: wrong unfinished children" % where)
        if n.distance_from_root != d or n.root is not root:
            raise Violation("%s: distance from root is %r" % (where, n.distance_from_root))
        if bool(n.is_stale) != (s == "open" and any(status(a) != "open" for a in ancestors(n))):
            raise Violation("%s: is_stale is %r" % (where, n.is_stale))
        for c in n.children:
            if c.parent is not n:
                raise Violation("%s: a child has another parent" % where)
            go(c, d + 1)

    go(root, 0)
    return status(root)


def size_of(n):
    return 1 + sum(size_of(c) for c in n.children)


# ------------------------------------------------------------------ sub-check: the trees of real searches


class Logger:
    root = None

    def log(self, integrand, time, root):
        self.root = root


def int_tree(case):
    p = P(case["raw"])
    return FAMILIES[case["fam"]](p) if case["fam"] else h_any(p)


def check_tree(case, rec):
    it = Integrand(int_tree(case), case["var"])
    try:
        expr = it.build()
    except BuildError:
        raise Discard("construction raises (C01)")
    var = E.Symbol(case["var"])
    how = "integrate(%s, %s)%s" % (it.text, case["var"], " breadth first" if case["bf"] else "")
    log = Logger()
    ig = SI.Integration(breadth_first=bool(case["bf"]))
    ig.logger = log
    with bounded(10, case["order"], cpu=0.8):
        try:
            ig.integrate(expr, var)
        except Exception as ex:
            raise Discard("integration raised %s (C13)" % type(ex).__name__)
    if log.root is None:
        raise Discard("no tree")
    root = log.root
    s = check_status(root, how)
    for n in _nodes(root):
        if n.type == "SOLUTION" and n.solution is None:
            raise Violation("%s: %r counts as solved but has no solution" % (how, n))
        if n.type not in ("AND", "OR") and len(n.children) > 1:
            raise Violation("%s: %r has %d children but is neither all nor any of them" % (how, n, len(n.children)))
    done = check_steps(root, it, how, rec)
    rec.label("tree " + s, "fam:" + (case["fam"] or "any"))
    rec.nontrivial = done >= 3
    rec.show = "%s: %d nodes, %s, %d steps decided" % (how, size_of(root), s, done)


def _nodes(n):
    yield n
    for c in n.children:
        yield from _nodes(c)


VARNAMES = ["x", "x", "t", "y"]


def strat_tree():
    b = st.integers(0, 255)
    return st.tuples(st.integers(0, 2 * len(FNAMES) - 1), st.lists(b, min_size=24, max_size=24), st.integers(0, len(VARNAMES) - 1), st.integers(0, 9))


def decode_tree(raw):
    f, r, v, m = raw
    f = (f + sum(r)) % (len(FNAMES) * 3 // 2)
    return {"fam": FNAMES[f] if f < len(FNAMES) else "", "raw": r, "var": VARNAMES[v], "bf": int(m in (6, 7)), "order": r[0] * 7 + m if m in (8, 9) else 0}


# ------------------------------------------------------------------ sub-check: single transforms and random walks


def transforms():
    seen = {}
    for t in list(ST.SAFE_TRANSFORMS) + list(ST.HEURISTICS) + [ST.Simplify]:
        seen[t.__name__] = t
    return [seen[k] for k in sorted(seen)]


def check_walk(case, rec):
    """Transforms in any order wherever they say they apply, not only in the order of the search."""
    p = P(case["raw"])
    tree = FAMILIES[case["fam"]](p) if case["fam"] else (mul([atom(p), atom(p)]) if p.n(3) == 0 else h_any(p))
    it = Integrand(tree)
    try:
        expr = it.build()
    except BuildError:
        raise Discard("construction raises (C01)")
    if case["simplify"]:
        try:
            expr = expr.simplify()
        except Exception:
            raise Discard("simplify raises (C07)")
    root = Node(expr, E.Symbol("x"))
    what = "steps on the integral of %s dx" % it.text
    ts = transforms()
    used = []
    with bounded(10, 0, cpu=5):
        for s in case["steps"]:
            leaves = [l for l in root.leaves if l.type == "UNSET"]
            if not leaves:
                break
            leaf = leaves[s // 32 % len(leaves)]
            for k in range(len(ts)):
                t = ts[(s + k) % len(ts)]
                tr = t()
                try:
                    ok = tr.check(leaf)
                except Exception as ex:
                    raise Violation("%s: %s.check(%r) raised %s: %s" % (what, t.__name__, leaf, type(ex).__name__, ex))
                if ok:
                    call("%s: %s on %r" % (what, t.__name__, leaf), tr.forward, leaf)
                    used.append(t.__name__)
                    break
    if not used:
        raise Discard("no step applies")
    done = check_steps(root, it, what, rec)
    check_status(root, what)
    rec.label("steps:%d" % len(used))
    rec.nontrivial = done >= 1
    rec.show = "%s: %s" % (what, ", ".join(used))


def strat_walk():
    b = st.integers(0, 255)
    return st.tuples(st.integers(0, 2 * len(FNAMES) - 1), st.lists(b, min_size=24, max_size=24), st.lists(b, min_size=1, max_size=4), st.booleans())


def decode_walk(raw):
    f, r, s, simp = raw
    f = (f + sum(r)) % (2 * len(FNAMES))
    fam = FNAMES[f] if f < len(FNAMES) else ["ratio", "nested", "unit", "trigpow", "", ""][f % 6]
    return {"fam": fam, "raw": r, "steps": s, "simplify": int(simp)}


# ------------------------------------------------------------------ sub-check: statuses of synthetic trees, and solutions carried up them


class Plain(ST.Transform):
    """A rewriting that keeps the integral."""

    def check(self, node):
        return True

    def forward(self, node):
        pass

    def backward(self, node):
        super().backward(node)
        node.parent.solution = node.solution


def build_tree(shape, p, parent=None, tr=None, depth=0):
    """shape: nested lists [kind, children..]; kind 0 AND, 1 OR, 2 a pulled-out constant, 3 a substitution, 4 one plain rewriting."""
    uid[0] += 1
    x = parent.var if parent else E.Symbol("x")
    if isinstance(tr, ST.USub):
        x = E.Symbol("u_%d" % uid[0])
    n = Node(E.sin(E.Symbol("id%d" % uid[0]) * x), x, tr, parent)
    if not isinstance(shape, list):
        return n
    k = shape[0]
    if k in (0, 1):
        n.type = "AND" if k == 0 else "OR"
        a = ST.Additivity() if k == 0 else None
        n.add_children([build_tree(s, p, n, a or Plain(), depth + 1) for s in shape[1:]])
    else:
        if k == 2:
            t = ST.PullConstant()
            t._constant = E.Rat(p.int(2, 5))
        elif k == 3:
            t = ST.GenericUSub()
            t._u = x ** p.int(2, 3)
        else:
            t = Plain()
        n.add_child(build_tree(shape[1], p, n, t, depth + 1))
    return n


uid = [0]


def values(n, env):
    """All values the node's solution may have: any solved alternative of an OR, all parts of an AND.  env: leaf id -> function of the variable's value."""
    if not n.children:
        return {env["leaf"][id(n)]} if n.type == "SOLUTION" else set()
    if n.type == "OR":
        return set().union(*[values(c, env) for c in n.children])
    if n.type == "AND":
        sets = [values(c, env) for c in n.children]
        out = {F(0)}
        for s in sets:
            out = {a + b for a in out for b in s}
        return out
    c = n.children[0]
    if isinstance(c.transform, ST.PullConstant):
        return {c.transform._constant.value * v for v in values(c, env)}
    return values(c, env)


def check_synth(case, rec):
    uid[0] = 0
    p = P(case["raw"])
    root = build_tree(case["shape"], p)
    leaves = [n for n in _nodes(root) if not n.children]
    if len(leaves) < 2:
        raise Discard("one leaf")
    what = "tree %s" % case["shape"]
    check_status(root, what)
    order = p.perm(leaves)
    finished = None
    sol = {}
    x0 = F(1, 1)  # every substitution maps 1 to 1, so that leaf solutions c*u take the value c
    for k, leaf in enumerate(order):
        if p.n(100) < case["ps"]:
            leaf.type = "SOLUTION"
            c = F(7) ** len(sol) * (1 + p.n(7))
            sol[id(leaf)] = c
            leaf.solution = E.Rat(c) * leaf.var
        else:
            leaf.type = "FAILURE"
        s = check_status(root, "%s after deciding %d leaves" % (what, k + 1))
        if s != "open" and finished is None:
            finished = (s, k + 1)
            if s == "solved":
                # the solution is put together from the solved leaves alone
                call("going backwards on %s" % what, SI.Integration._go_backwards, root)
                rec.label("carried up")
                vs = values(root, {"leaf": sol})
                try:
                    got = value(root.solution, {"x": 1.0}, Real(FloatOps))
                except Undef:
                    raise Discard("too large")
                if not any(abs(got - float(v)) <= 1e-6 * abs(float(v)) for v in vs):
                    raise Violation("%s: the solved leaves %s give the solution %s with value %r at x = 1, which is none of %s" % (what, [show(l.solution) for l in leaves if l.type == "SOLUTION"], show(root.solution), got, sorted(map(float, vs))[:5]))
                for n in _nodes(root):
                    if n.children:
                        n.solution = None
        elif finished and s != finished[0]:
            raise Violation("%s was %s after %d leaves but is %s after %d" % (what, finished[0], finished[1], s, k + 1))
    s = status(root)
    if s == "open":
        raise Violation("%s is open though every leaf is decided" % what)
    rec.label(s, "leaves:%d" % min(len(leaves), 8))
    rec.nontrivial = finished is not None and finished[1] < len(leaves)
    rec.show = "%s: %s after %d of %d leaves" % (case["shape"], finished[0], finished[1], len(leaves))


def strat_synth():
    b = st.integers(0, 255)
    shape = st.recursive(st.just(0), lambda s: st.one_of(st.lists(s, min_size=2, max_size=3).map(lambda l: [0] + l), st.lists(s, min_size=2, max_size=3).map(lambda l: [1] + l), s.map(lambda x: [2, x]), s.map(lambda x: [3, x]), s.map(lambda x: [4, x])), max_leaves=9)
    return st.tuples(shape, st.lists(b, min_size=20, max_size=20), st.sampled_from([30, 50, 60, 75, 90]))


def decode_synth(raw):
    s, r, ps = raw
    if not isinstance(s, list) or s[0] >= 2:
        s = [r[0] % 2, s, 0, [1 - r[0] % 2, 0, 0]]
    return {"shape": s, "raw": r, "ps": ps}


# ------------------------------------------------------------------ sub-check: going in circles


def check_circle(case, rec):
    """A part that repeats an integral above it (up to the name of the variable) can never be solved that way."""
    p = P(case["raw"])
    it = Integrand(h_any(p))
    try:
        e = it.build()
    except BuildError:
        raise Discard("construction raises (C01)")
    x = E.Symbol("x")
    if not e.contains(x):
        raise Discard("constant")
    root = Node(e, x)
    cur = root
    for k in range(case["between"]):
        n = Node(E.sin(E.Symbol("m%d" % k) * cur.var), cur.var, Plain(), cur)
        cur.add_child(n)
        cur = n
    if case["rename"]:
        u = E.Symbol("u_1")
        n = Node(E.cos(u * E.Symbol("m")), u, ST.GenericUSub(), cur)
        cur.add_child(n)
        cur = n
    back = Node(e.subs({"x": cur.var}) if case["rename"] else e, cur.var, ST.Additivity() if case["and"] else Plain(), cur)
    if case["rename"] and json.loads(json.dumps(snapshot(back.expr)).replace('"u_1"', '"x"')) != json.loads(json.dumps(snapshot(e))):
        raise Discard("its terms are in another order")
    others = [Node(E.tan(E.Symbol("o%d" % k) * cur.var), cur.var, ST.Additivity() if case["and"] else Plain(), cur) for k in range(case["others"])]
    cur.type = "AND" if case["and"] else "OR"
    call("adding children", cur.add_children, p.perm([back] + others))
    for o in others:
        if not any(c is o for c in cur.children):
            raise Violation("adding the integral of %s d%s next to a repetition loses it" % (show(o.expr), o.var))
    for c in cur.children:
        if c is back and not c.is_failed:
            raise Violation("the integral of %s d%s is being tried again below itself" % (show(e), cur.var))
    check_status(root, "after adding a repetition of the integral of %s dx" % show(e))
    if case["and"]:
        if not root.is_failed:
            raise Violation("a part of the integral of %s dx repeats it, but it is not failed" % show(e))
        for o in others:
            o.type = "SOLUTION"
            o.solution = o.var
        if root.is_solved or not root.is_failed:
            raise Violation("the integral of %s dx counts as solved though a part of it repeats it" % show(e))
    elif others:
        if root.is_finished:
            raise Violation("an alternative that repeats the integral decides it")
        others[0].type = "SOLUTION"
        others[0].solution = others[0].var
        if not root.is_solved:
            raise Violation("an alternative that repeats the integral keeps the other from solving it")
    rec.label("all" if case["and"] else "any", "other variable" if case["rename"] else "same variable")
    rec.nontrivial = True
    rec.show = "integral of %s dx repeated %d levels below" % (it.text, case["between"] + case["rename"] + 1)


def strat_circle():
    b = st.integers(0, 255)
    return st.tuples(st.lists(b, min_size=16, max_size=16), st.integers(0, 3), st.integers(0, 1), st.integers(0, 1), st.integers(0, 2))


def decode_circle(raw):
    r, bt, rn, a, o = raw
    return {"raw": r, "between": bt, "rename": rn, "and": a, "others": o + a}


SUBS = [
    Sub("tree", check_tree, strat_tree, decode_tree, quick=900, thorough=9000, cpu=5),
    Sub("walk", check_walk, strat_walk, decode_walk, quick=5000, thorough=40000, cpu=5),
    Sub("status", check_synth, strat_synth, decode_synth, quick=3000, thorough=40000),
    Sub("circle", check_circle, strat_circle, decode_circle, quick=1000, thorough=12000),
]
