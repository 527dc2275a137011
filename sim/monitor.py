"""
Instants of the library: the points at which CPython can run another thread or deliver an asynchronous exception.

In CPython 3.12 these are function entries, backward jumps and returns from native calls. They are intercepted with
sys.monitoring for all code objects of the package (and for no other code), so the shipped source is not changed.
"""
import gc
import os
import sys
import types

from . import boot

TOOL = 4
MON = sys.monitoring
EV = MON.events
_codes = None


def codes():
    """All code objects of the package."""
    global _codes
    if _codes is None:
        root = os.path.realpath(os.path.join(boot.REPO, "veroku")) + os.sep
        seen, todo, inside = set(), [], {}

        def ours(filename):
            if filename not in inside:
                inside[filename] = os.path.realpath(filename).startswith(root)
            return inside[filename]

        for obj in gc.get_objects():
            if isinstance(obj, types.FunctionType):
                todo.append(obj.__code__)
        while todo:
            c = todo.pop()
            if id(c) in seen or not ours(c.co_filename):
                continue
            seen.add(id(c))
            todo.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
            if _codes is None:
                _codes = []
            _codes.append(c)
        _codes = _codes or []
        _codes.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    return _codes


def is_graph_code(code):
    return "factors" not in code.co_filename


class Instants:
    """
    Calls hook(code, kind) at every instant while active. The hook may raise (the exception appears in the library at
    that instant) or block (another thread runs).
    """
    _installed = False

    def __init__(self, hook):
        self.hook = hook

    def __enter__(self):
        if not Instants._installed:
            MON.use_tool_id(TOOL, "veroku-sim")
            for c in codes():
                MON.set_local_events(TOOL, c, EV.PY_START | EV.CALL | EV.JUMP)
            Instants._installed = True
        hook = self.hook

        def start(code, _offset):
            hook(code, "start")

        def c_return(code, _offset, _callable, _arg0):
            hook(code, "native-return")

        def jump(code, offset, target):
            if target < offset:
                hook(code, "loop")

        MON.register_callback(TOOL, EV.PY_START, start)
        MON.register_callback(TOOL, EV.C_RETURN, c_return)
        MON.register_callback(TOOL, EV.JUMP, jump)
        return self

    def __exit__(self, *exc):
        MON.register_callback(TOOL, EV.PY_START, None)
        MON.register_callback(TOOL, EV.C_RETURN, None)
        MON.register_callback(TOOL, EV.JUMP, None)
        return False


class Interrupter:
    """Counts instants; raises `exc` at the k-th one (k None: only counts)."""

    def __init__(self, k=None, exc=None, graph_only=False):
        self.k, self.exc, self.graph_only = k, exc, graph_only
        self.count = 0
        self.fired = None

    def __call__(self, code, kind):
        if self.graph_only and not is_graph_code(code):
            return
        self.count += 1
        if self.k is not None and self.count - 1 == self.k and self.fired is None:
            self.fired = f"{code.co_qualname} ({kind})"
            raise self.exc
