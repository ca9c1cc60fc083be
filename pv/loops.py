"""Loop contracts over the iterator protocol.

An `Arbitrary` stands for a sequence of unknown length whose elements satisfy a precondition.  When the real code
iterates over it, exactly two things are explored: the loop head with the invariant state and one arbitrary element (the
body must re-establish the invariant and do what the specification says for that element; the path then ends), and the
loop exit (the specification has been applied to every element).  This is the Hoare rule for `for x in xs`, applied to the
code as it runs.  If the code consumes the sequence in some other way, the obligation is declared out of reach and the
bounded search on real lists decides.
"""
from .core import PathEnd
from .num import Unsupported


class Arbitrary:
    """A sequence of arbitrary length."""

    def __init__(self, vc, make, check, head=None, leave=None, name='seq'):
        self._vc, self._make, self._check, self._head, self._leave, self._name = vc, make, check, head, leave, name

    def _iterate(self):
        if self._vc.pick(f'loop over {self._name}', 2) == 0:
            if self._leave:
                self._leave()
            return
        if self._head:
            self._head()
        x = self._make()
        yield x
        self._check(x)
        raise PathEnd()

    def __iter__(self):
        return self._iterate()

    def __reversed__(self):
        return self._iterate()

    def __deepcopy__(self, memo):
        raise Unsupported('copy of an arbitrary sequence')

    def __len__(self):
        raise Unsupported('length of an arbitrary sequence')

    def __getitem__(self, i):
        raise Unsupported('index into an arbitrary sequence')

    def __bool__(self):
        raise Unsupported('truth of an arbitrary sequence')


class TraceList(list):
    """A list with an unknown prefix; what is appended after the prefix is recorded."""

    def extend(self, other):
        if isinstance(other, Arbitrary):
            self.append(('all', other))
        else:
            super().extend(other)

    def __iadd__(self, other):
        self.extend(other)
        return self

    def _no(self, *a):
        raise Unsupported('the unknown prefix of a list is inspected')

    __iter__ = __reversed__ = __len__ = __getitem__ = __setitem__ = __delitem__ = __bool__ = pop = __contains__ = _no
    __deepcopy__ = index = remove = insert = sort = reverse = _no

    def added(self):
        return [list.__getitem__(self, i) for i in range(list.__len__(self))]


class TraceSet(set):
    """A set with unknown previous content; additions are recorded."""

    def __init__(self):
        super().__init__()
        self.log = []

    def add(self, x):
        self.log.append(x)

    def _no(self, *a):
        raise Unsupported('the unknown content of a set is inspected')

    __iter__ = __len__ = __contains__ = __bool__ = discard = remove = update = pop = _no


def frame(objs):
    """Shallow state of the engines (frame condition of a loop body)."""
    out = []
    for o in objs:
        d = {}
        for k, v in vars(o).items():
            d[k] = (id(v), list(v) if type(v) is list else dict(v) if type(v) is dict else
                    set(v) if type(v) is set else None)
        out.append(d)
    return out


def stream(vc, name, make, feed, spec, rec, objs=(), maxlen=5, batch=None):
    """Contract of a stateless command-list consumer: what arrives downstream is the concatenation of spec(x) over the
    received elements, in order, for lists of any length.

    make() -> element; spec(x) -> list of expected outputs (abstract, computed before x is processed);
    feed(xs) runs the real code; batch: symbolic lists of at most that many elements instead (consumers that collect first); rec() -> list of abstract outputs that have arrived so far.
    """
    if not vc.symbolic or batch is not None:
        n = vc.pick('length', (maxlen if batch is None or not vc.symbolic else batch) + 1)
        xs = [make() for _ in range(n)]
        want = [y for x in xs for y in spec(x)]
        before = len(rec())
        feed(xs)
        got = rec()[before:]
        vc.ensure(f'{name}: as many commands as specified', len(got) == len(want), f'{len(got)} instead of {len(want)}')
        for k, (g, w) in enumerate(zip(got, want)):
            same(vc, f'{name}: command {k}', g, w)
        return
    st = {}

    def head():
        st['n'] = len(rec())
        st['frame'] = frame(objs)

    def mk():
        x = make()
        st['want'] = spec(x)
        return x

    def check(x):
        got = rec()[st['n']:]
        want = st['want']
        if not got and want:
            raise Unsupported('the output is not produced element by element')
        vc.ensure(f'{name}: as many commands as specified', len(got) == len(want), f'{len(got)} instead of {len(want)}')
        for g, w in zip(got, want):
            same(vc, f'{name}: command', g, w)
        if frame(objs) != st['frame']:
            raise Unsupported('the loop body changes engine state')

    def leave():
        st['exit'] = len(rec())

    seq = Arbitrary(vc, mk, check, head, leave)
    feed(seq)
    # loop exit: nothing beyond the elements
    if 'exit' not in st:
        raise Unsupported('the list was not iterated')
    vc.ensure(f'{name}: nothing else is sent', len(rec()) == st['exit'], str(len(rec()) - st['exit']))


def same(vc, name, got, want):
    """Structural equality of abstract commands with symbolic numbers inside."""
    if isinstance(want, (list, tuple)) and isinstance(got, (list, tuple)):
        vc.ensure(name + ' (shape)', len(got) == len(want), f'{got!r} / {want!r}'[:300])
        for g, w in zip(got, want):
            same(vc, name, g, w)
        return
    vc.eq(name, got, want, f'{got!r} != {want!r}'[:200])
