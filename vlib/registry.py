"""Keeping the process-wide event registry as it was."""
import contextlib
from trappy.ftrace import GenericFTrace

SETS = ("thermal_classes", "sched_classes", "dynamic_classes")


@contextlib.contextmanager
def preserved():
    saved = [(n, dict(getattr(GenericFTrace, n))) for n in SETS]
    try:
        yield
    finally:
        for n, d in saved:
            cur = getattr(GenericFTrace, n)
            cur.clear()
            cur.update(d)
