"""Shared vocabulary of the checks: outcomes of one generated case."""


class Violation(Exception):
    """The property is broken on this case."""


class Discard(Exception):
    """The case lies outside the property's domain (counted, never a verdict)."""


class CaseTimeout(BaseException):
    """The per-case CPU budget ran out: inconclusive, never a violation."""


class Undef(Exception):
    """A reference value is undefined (or too ill conditioned to be usable) at a point."""


class NonFinite(Exception):
    """An expression evaluates to an infinity or NaN."""


def call(what, fn, *args, allow=(), **kw):
    """Run code under test.  Any exception it raises that is not explicitly allowed is a violation."""
    try:
        return fn(*args, **kw)
    except (Violation, Discard, CaseTimeout, KeyboardInterrupt, MemoryError):
        raise
    except allow:
        raise
    except BaseException as ex:  # RecursionError, AssertionError, TypeError, ...
        if isinstance(ex, (SystemExit, GeneratorExit)):
            raise
        msg = str(ex)
        raise Violation("%s raised %s: %s" % (what, type(ex).__name__, msg[:300]))


class Rec:
    """Per-case recorder of labels; the engine aggregates it."""

    __slots__ = ("labels", "nontrivial", "show")

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.show = None

    def label(self, *names):
        self.labels.extend(names)
