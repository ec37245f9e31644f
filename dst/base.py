"""Interface between checks and the runner."""

from __future__ import annotations

import traceback


class Violation(Exception):
    """The property does not hold. ``sig`` is the stable class of the violation used by minimiser and known findings."""

    def __init__(self, sig: str, message: str):
        super().__init__(f"[{sig}] {message}")
        self.sig = sig
        self.message = message


class Skip(Exception):
    """The generated case is not meaningful (counted, never a pass of the oracle)."""


class Info(dict):
    """Summary of one run."""


def product_frames(exc, repo):
    """True if the exception passed through product code."""
    tb = exc.__traceback__
    found = False
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(repo + "/hermespy"):
            found = True
        tb = tb.tb_next
    if not found:
        cause = getattr(exc, "cause", None) or exc.__cause__
        if isinstance(cause, BaseException) and cause is not exc:
            return product_frames(cause, repo)
        # remote errors carry their traceback as text
        return "/hermespy/" in str(exc)
    return found


def short_tb(exc, limit=6):
    lines = traceback.format_exception(type(exc), exc, exc.__traceback__)
    return "".join(lines)[-2500:]
