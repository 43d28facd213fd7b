"""Signals used by the analyser itself."""


class Undecided(Exception):
    """The abstract interpreter met a construct it has no sound transfer function for."""
    def __init__(self, reason, where=None):
        super().__init__(reason)
        self.reason = reason
        self.where = where

    def __str__(self):
        return f"{self.reason}" + (f" at {self.where}" if self.where else "")


class Prune(Exception):
    """The current abstract trace is subsumed by another one (loop fixpoint reached)."""


class AnchorLost(Exception):
    """A public entity the property is anchored in no longer exists."""


class PyRaise(Exception):
    """An exception raised by the analysed program."""
    def __init__(self, exc):
        super().__init__(getattr(exc, "cls", None) and exc.cls.name)
        self.exc = exc
        self.trace = []
