"""
Seams put around the code under test without changing it (nothing here is active unless a check installs it).
"""
import contextlib
import random
import sys


class _AnySet(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _BUILTIN_SET)


_BUILTIN_SET = set


class SimSet(set, metaclass=_AnySet):
    """
    A set whose iteration order is decided by the simulator (as if by another hash seed). Sets with the same elements
    are iterated in the same order, as CPython does for sets that are made in the same way.
    """
    seed = 0
    shuffles = 0

    def __iter__(self):
        items = sorted(set.__iter__(self), key=repr)
        if len(items) > 1:
            random.Random(f"{SimSet.seed}{items}").shuffle(items)
        SimSet.shuffles += 1
        return iter(items)

    def pop(self):
        item = next(iter(self))
        self.remove(item)
        return item

    def copy(self):
        return SimSet(self)


def _wrap(name):
    base = getattr(set, name)

    def method(self, *args):
        out = base(self, *args)
        return SimSet(out) if type(out) is set else out
    method.__name__ = name
    return method


for _n in ("intersection", "union", "difference", "symmetric_difference", "__sub__", "__and__", "__or__", "__xor__"):
    setattr(SimSet, _n, _wrap(_n))


def veroku_modules():
    return [m for n, m in sorted(sys.modules.items()) if (n == "veroku" or n.startswith("veroku.")) and m is not None]


@contextlib.contextmanager
def set_order(seed):
    """Inside, the name `set` in all veroku modules means SimSet with an order drawn from this seed."""
    mods = veroku_modules()
    SimSet.seed = seed
    SimSet.shuffles = 0
    for m in mods:
        m.__dict__["set"] = SimSet
    try:
        yield SimSet
    finally:
        for m in mods:
            m.__dict__.pop("set", None)
