"""Shared by all checks: violations, notes (coverage classes), comparisons."""
import hashlib


class Violation(Exception):
    pass


class HarnessError(Exception):
    """the harness itself is wrong; never reported as a violation"""


class CaseTimeout(Exception):
    pass


class Note:
    """What a case exercised."""

    def __init__(self):
        self.classes = set()
        self.nontrivial = False

    def hit(self, name, nontrivial=True):
        self.classes.add(name)
        if nontrivial:
            self.nontrivial = True

    def seen(self, name):
        self.classes.add(name)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, tol=1e-7):
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))


def require_close(a, b, msg, *args, tol=1e-7):
    a = float(a)
    if not close(a, b, tol):  # also fails for nan
        raise Violation((msg % args if args else msg) + ": got %r, expected %r" % (a, b))


def expect_raises(exc, fn, msg, *args):
    try:
        res = fn()
    except exc:
        return
    except Exception as e:  # noqa
        raise Violation((msg % args if args else msg) + ": expected %s, got %s: %s"
                        % (exc, type(e).__name__, str(e)[:200]))
    raise Violation((msg % args if args else msg) + ": expected %s, but it returned %r" % (exc, res))


def digest(spec):
    return hashlib.blake2b(repr(spec).encode(), digest_size=8).hexdigest()
