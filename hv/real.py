"""Access to the code under test, through its public API only."""
import os, sys
from hv.src import Skip

inside = 0          # > 0 while the code under test is running
last   = None       # the latest request, for reports of non-termination

import hypertag
from hypertag import HyperHTML, Runtime, DOM, Tag, TagFunction, Markup

ROOT = _repo = os.path.realpath('/repo/src')
assert os.path.realpath(hypertag.__file__).startswith(_repo), 'not the working tree: ' + hypertag.__file__


class Out:
    """Outcome of a call: .ok with .value, or .exc (the exception)."""
    __slots__ = ('ok', 'value', 'exc')
    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc
    def mro(self):
        return [c.__name__ for c in type(self.exc).__mro__]
    def is_err(self, name):
        return not self.ok and name in self.mro()
    def show(self):
        if self.ok: return dict(ok = self.value)
        return dict(err = type(self.exc).__name__, msg = str(self.exc)[:300])


def call(fun, *args, **kwargs):
    global inside, last
    inside += 1
    last = (args, kwargs)
    try:
        return Out(True, fun(*args, **kwargs), None)
    except Exception as ex:
        return Out(False, None, ex)
    finally:
        inside -= 1


def render(script, ctx = None, runtime = None, **kw):
    rt = runtime if runtime is not None else HyperHTML()
    params = dict(ctx or {})
    params.update(kw)
    return call(rt.render, script, **params)
