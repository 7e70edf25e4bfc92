"""Differential comparison of the real implementation with the reference model."""
from hv import model, real
from hv.engine import Violation
from hv.printer import Printer
from hv.src import Skip


def check_same(expected, out, script, **detail):
    """expected: outcome of the model."""
    status, val = expected
    if status == 'ok':
        if not out.ok: raise Violation('unexpected error', script = script, expected = val, got = out.show(), **detail)
        if out.value != val: raise Violation('wrong output', script = script, expected = val, got = out.value, **detail)
    else:
        if out.ok: raise Violation('an error was expected', script = script, expected = sorted(val), got = out.show(), **detail)
        if not (set(out.mro()) & val): raise Violation('wrong type of error', script = script, expected = sorted(val), got = out.show(), **detail)


def errors_of(status): return status[0] == 'err'
