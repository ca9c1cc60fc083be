"""Loops over dictionaries with an unknown number of keys.

A `AnyMap` stands for a dictionary of unknown size.  When the real code iterates over it, one arbitrary key is visited; every
access must be to that key (anything else is out of reach).  Since the keys of a dictionary are distinct, iterations that only
touch entries at their own key are independent of each other, so what is proved for the arbitrary key holds for all of them
(the rule for independent iterations).  Changing the size of a dictionary while it is iterated raises, as in the language.
"""
from .num import Unsupported

MISSING = object()


class Key:
    """The arbitrary key."""

    def __repr__(self):
        return '<arbitrary key>'

    def __deepcopy__(self, memo):
        return self


class AnyMap:
    """A dictionary of which only the entry at the arbitrary key is known."""

    def __init__(self, key, value=MISSING):
        self.key, self.value, self.iterating = key, value, 0

    def _own(self, k):
        if k is not self.key:
            raise Unsupported('another key of a dictionary of unknown size is accessed')

    def __contains__(self, k):
        self._own(k)
        return self.value is not MISSING

    def __getitem__(self, k):
        self._own(k)
        if self.value is MISSING:
            raise KeyError(k)
        return self.value

    def __setitem__(self, k, v):
        self._own(k)
        self._resize(self.value is MISSING)
        self.value = v

    def __delitem__(self, k):
        self.pop(k)

    def pop(self, k, *default):
        self._own(k)
        if self.value is MISSING:
            if default:
                return default[0]
            raise KeyError(k)
        self._resize(True)
        out, self.value = self.value, MISSING
        return out

    def _resize(self, changed):
        if changed and self.iterating:
            self.iterating = -1

    def get(self, k, default=None):
        return self[k] if k in self else default

    def setdefault(self, k, default=None):
        if k not in self:
            self[k] = default
        return self[k]

    def _walk(self):
        if self.value is MISSING:
            return
        self.iterating = 1
        yield self.key
        if self.iterating < 0:
            raise RuntimeError('dictionary changed size during iteration')
        self.iterating = 0

    def __iter__(self):
        return self._walk()

    keys = __iter__

    def items(self):
        return ((k, self[k]) for k in self._walk())

    def values(self):
        return (self[k] for k in self._walk())

    def copy(self):
        return AnyMap(self.key, self.value)

    def __deepcopy__(self, memo):
        memo[id(self)] = out = self.copy()
        return out

    __copy__ = copy

    def update(self, other):
        for k in list(other):
            self[k] = other[k]

    def __len__(self):
        raise TypeError('length of a dictionary of unknown size (Num)')

    def __bool__(self):
        raise Unsupported('truth of a dictionary of unknown size')

    def __eq__(self, other):
        raise Unsupported('comparison of dictionaries of unknown size')

    __hash__ = None


def at(m, key, default=0):
    """Value of a resulting dictionary (of either kind) at the arbitrary key."""
    if isinstance(m, AnyMap):
        return default if m.value is MISSING else m.value
    extra = [k for k in m if k is not key]
    if extra:
        raise Unsupported('unexpected keys')
    return m.get(key, default)
