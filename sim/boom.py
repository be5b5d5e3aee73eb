"""What a user's callback raises: errors of every kind the library might be tempted to handle itself, and a keyboard interrupt.
(StopIteration is left out: Python itself takes it for the end of the run.)"""
from .core import seed_of

KINDS = (Exception, Exception, KeyboardInterrupt, KeyError, IndexError, AttributeError, ValueError, TypeError, RuntimeError, ZeroDivisionError,
         AssertionError, OSError, MemoryError, BaseException)
BOOM = tuple(type("Boom" + k.__name__, (k,), {}) for k in KINDS)


def boom(ctx, *where):
    """The next error to raise; which kind follows from the run's seed and how often one was raised before."""
    n = ctx.counts.get("callback-errors", 0)
    ctx.count("callback-errors")
    return BOOM[seed_of("boom", ctx.plan["seed"], n) % len(BOOM)](*where)
