"""Deliver an exception at the n-th line (or opcode) executed inside the library."""
import sys
from .core import LIB


class Interrupt(BaseException):
    pass


class At:
    """with At(n, exc, opcodes): ... ; .hit tells whether it was delivered, .where at which place.

    An exception that falls into the closing of a discarded generator is dropped by the interpreter itself, whatever the
    library does; it counts as not delivered."""

    def __init__(self, n, exc=Interrupt, opcodes=False):
        self.n, self.exc, self.opcodes = n, exc, opcodes
        self.hit, self.where, self.count, self.sent = False, None, 0, None

    def _glob(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(LIB):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.count += 1
            if self.count == self.n:
                self.hit, self.where = True, frame.f_code.co_name
                self.sent = self.exc()
                raise self.sent
        return self._local

    def _unraisable(self, u):
        if self.sent is not None and u.exc_value is self.sent:
            self.hit = False
        else:
            self.oldhook(u)

    def __enter__(self):
        self.old, self.oldhook = sys.gettrace(), sys.unraisablehook
        sys.unraisablehook = self._unraisable
        sys.settrace(self._glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        sys.unraisablehook = self.oldhook
        return False
