"""B03: hardware results are attributed to the right logical qubits."""
import contextlib
import itertools
import random

import numpy
from pv import devices as dv
from pv.core import bounded, contract

import projectq.ops as ops
from projectq.ops import Command
from projectq.types import WeakQubitRef

from .b02 import BASIC, BK, GATES, MODS, allocate, flush, measure
from .c01 import qs, spread

P = 'B03'
LEVEL = 'other'
EXPLANATION = ('every obligation is discharged by symbolic execution of the real code, but for structures of bounded size: '
               '3 qubits and 3 distinct outcomes, all probabilities and draws; '
               'hence not counted as a proof for all sizes')


class Source:
    """Every random draw of the backend is decided by one number in (0, 1)."""

    def __init__(self, vc, r):
        self.vc, self.r = vc, r

    def pick(self, items, p):
        acc = 0
        for x, w in zip(items, p):
            acc = acc + w
            if acc >= self.r:
                return x
        return items[-1]

    def choice(self, a, size=None, replace=True, p=None):
        a = list(a)
        p = [1 / len(a)] * len(a) if p is None else list(p)
        if self.vc.symbolic:
            self.vc.eq('the weights of the draw sum to one', sum(p[1:], p[0]), 1)
        else:
            self.vc.ensure('the weights of the draw sum to one', abs(sum(p) - 1) < 1e-7, str(p))
        return self.pick(a, p)

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if weights is None or k != 1:
            return [random.Random(1).choice(population)] * k
        tot = sum(weights[1:], weights[0])
        return [self.pick(list(population), [w / tot for w in weights])]

    @contextlib.contextmanager
    def active(self):
        def one(*a):
            return self.r
        with dv.patched((random, 'random', one), (random, 'choices', self.choices), (numpy.random, 'choice', self.choice),
                        (numpy.random, 'random', one), (numpy.random, 'rand', one), (numpy.random, 'random_sample', one)):
            yield


# --- statistics ---------------------------------------------------------------------------------------------------------
def weigh(vc, dev, which, states):
    """Arbitrary statistics over the given outcomes, in the form the device reports them."""
    k = len(states)
    if which in ('AQT', 'Azure Quantinuum'):        # lists of samples
        # (symbolic runs compare exactly: totals are powers of two)
        ws = vc.choose('samples', {1: [(1,), (4,)], 2: [(1, 3), (3, 5)], 3: [(1, 5, 2)]}[k]) if vc.symbolic else \
            [1 + vc.pick(f'w{i}', 9) for i in range(k)]
        return list(zip(states, ws))
    if not vc.symbolic:
        if which == 'IBM' or which == 'Braket SV1':
            return [(s, 1 + vc.pick(f'w{i}', 9)) for i, s in enumerate(states)]
        ws = [1 + vc.pick(f'w{i}', 9) for i in range(k)]
        return [(s, w / sum(ws)) for s, w in zip(states, ws)]
    # IBM reports counts, whose total need not be the number of runs
    total = vc.choose('shots', [64, 1024]) if which == 'IBM' else 1
    rest, out = total, []
    for i, s in enumerate(states):
        w = vc.real(f'p{i}', 0, total) if i < k - 1 else rest
        vc.assume(w > 0)
        rest = rest - w
        out.append((s, w))
    if k == 1:
        out = [(states[0], total if which == 'IBM' else dv.Num.const(1))]
    return out




def settle(dev, stats):
    dev.outcomes = stats
    if dev.vc.symbolic and dev.name not in ('IBM',) and not all(isinstance(w, int) for _, w in stats):
        dev.fractions = lambda: list(stats)
        dev.stats = lambda: list(stats)
    else:
        dev.__dict__.pop('fractions', None)
        dev.__dict__.pop('stats', None)


PLACES = [((0, 1, 2), 3), ((2, 0, 1), 3), ((3, 1, 0), 4)]
ORDERS = [(0, 1, 2), (2, 0, 1), (1, 2), (2,)]
BITS = {1: [['101'], ['010']], 2: [['110', '001'], ['100', '101']], 3: [['110', '011', '100']]}


def circuit(dev, which, logical, mapping, order):
    name = next(g for g in BASIC[which] if g != 'CX' and GATES[g][1] == 1)
    cmds = allocate(dev, [mapping[q] for q in logical])
    cmds += [Command(dev.eng, GATES[name][0](1.0), (qs(dev.eng, [mapping[q]]),)) for q in logical]
    return cmds + [measure(dev, q, mapping[q]) for q in order]


def run(vc, dev, which, k, retrieve=False, fixed=False):
    """One circuit on three logical qubits; returns what a user may ask afterwards."""
    vc.ghost['exact round'] = 11
    if vc.symbolic and fixed:
        where, n, logical, order, states = (2, 0, 3), 4, [7, 0, 4], [4, 7, 0], ['1011', '0110']
    elif vc.symbolic:
        where, n = vc.choose('mapping', PLACES)
        logical = [7, 0, 4] if k % 2 == 0 else [1, 8, 2]
        order = [logical[i] for i in vc.choose('measured', ORDERS)]
        size = vc.choose('outcomes', [1, 2, 3])
        states = [s.ljust(n, '1') for s in vc.choose('bits', BITS[size])]
    else:
        n = vc.choose('locations', [3, 4, 5])
        where = [n - 1] + spread([vc.pick(f'loc{i}', n) for i in range(2)], n - 1)
        where = spread(where, n - 1)
        where = [where[i] for i in vc.choose('order', list(itertools.permutations(range(3))))]
        logical = [13 * k + x for x in spread([vc.pick(f'id{i}', 12) for i in range(3)], 12)]
        size = 1 + vc.pick('outcomes', 4)
        states = [f'{x:0{n}b}' for x in spread([vc.pick(f'bits{i}', 1 << n) for i in range(size)], (1 << n) - 1)]
        perm = vc.choose('measured order', list(itertools.permutations(range(3))))
        order = [logical[i] for i in perm[:1 + vc.pick('measured', 3)]]
    if which.startswith('Braket') and n > 3:
        where, n, states = [x % 3 for x in range(3)], 3, list(dict.fromkeys(s[:3] for s in states))
    if not dev.mapped:
        where = logical = spread([w + (5 * k if which == 'AQT' and not vc.symbolic else 0) for w in where], 10)
        order = [where[i] for i in ((2, 0) if k % 2 else (1, 2, 0))]
    mapping = dict(zip(logical, where))
    dev.mapper.current_mapping = dict(mapping)
    stats = weigh(vc, dev, which, states)
    settle(dev, stats)
    r = vc.real('r', 0, 1)
    if vc.symbolic:
        vc.assume(r > 0)
        vc.assume(r < 1)
    else:
        r = min(max(r, 1e-9), 1 - 1e-9)
    src = Source(vc, r)
    with contextlib.ExitStack() as st:
        st.enter_context(src.active())
        st.enter_context(dev.online())
        if retrieve:
            st.enter_context(dv.retrieving(dev, [mapping[q] for q in order], order, n))
        dev.backend.receive(circuit(dev, which, logical, mapping, order))
        dev.backend.receive([flush(dev)])
    vc.ensure('one submission, of the requested number of runs', len(dev.subs) == k + 1 and dev.subs[-1].shots == dev.num_runs,
              str([s.shots for s in dev.subs]))
    return logical, mapping, order, dev.fractions(), r


def check_registered(vc, dev, mapping, order, fracs, r, logical):
    eng = dev.eng
    got = {}
    for q in order:
        got[q] = eng.get_measurement_result(WeakQubitRef(eng, q))
        vc.ensure('registered values are bits', got[q] in (0, 1) and not isinstance(got[q], str), repr(got[q]))
    for q in logical:
        if q not in order:
            try:
                eng.get_measurement_result(WeakQubitRef(eng, q))
                known = True
            except Exception:       # noqa: BLE001
                known = False
            vc.ensure('only measured qubits get a value', not known)
    fits = [k for k, (b, w) in enumerate(fracs) if all(int(b[mapping[q]]) == int(got[q]) for q in order)]
    vc.ensure('the registered values are those of one outcome that occurred', fits != [],
              f'{got} mapping {mapping} outcomes {[b for b, _ in fracs]}')
    # drawn with its probability: inverse distribution function along the reply
    reply = dev.order()
    marg = [tuple(b[mapping[q]] for q in order) for b, _ in reply]
    if len(set(marg)) < len(marg):
        return
    mine = marg.index(tuple(str(int(got[q])) for q in order))
    with vc.internal():
        lo = 0
        for _, w in reply[:mine]:
            lo = lo + w
        hi = lo + reply[mine][1]
        if vc.symbolic:
            vc.ensure('drawn above the lower end of its interval', r >= lo)
            if mine < len(reply) - 1:
                vc.ensure('drawn below the upper end of its interval', r <= hi)


def check_probabilities(vc, dev, mapping, order, fracs, regs):
    eng = dev.eng
    for reg in regs:
        got = dev.backend.get_probabilities([WeakQubitRef(eng, q) for q in reg])
        want = {}
        for b, w in fracs:
            key = ''.join(b[mapping[q]] for q in reg)
            want[key] = want[key] + w if key in want else w
        vc.ensure('no other states', all(k in want or (not vc.symbolic and got[k] == 0) for k in got), f'{sorted(got)} {sorted(want)}')
        tot = 0
        for k in want:
            vc.ensure('every state that occurred is listed', k in got, k)
            vc.eq('its probability is the marginal', got[k], want[k])
            tot = tot + got[k]
        vc.eq('the probabilities sum to one', tot, 1)
        if hasattr(dev.backend, 'get_probability'):
            k = sorted(want)[0]
            vc.eq('get_probability agrees', dev.backend.get_probability(k, [WeakQubitRef(eng, q) for q in reg]), want[k])


def registers(vc, order):
    if vc.symbolic:
        return [list(order), list(order)[::-1]] + ([list(order)[:2][::-1]] if len(order) > 2 else [])
    perm = vc.choose('register', list(itertools.permutations(order)))
    return [list(order), list(order)[::-1], list(order[:1]), list(perm[:1 + vc.pick('register size', len(order))])]


def results_on(vc, which, runs, mapper=True):
    dev = dv.device(vc, which, mapper=mapper)
    try:
        for k in range(runs):
            logical, mapping, order, fracs, r = run(vc, dev, which, k, fixed=runs > 1 and k == 0)
            check_registered(vc, dev, mapping, order, fracs, r, logical)
            check_probabilities(vc, dev, mapping, order, fracs, registers(vc, order))
    finally:
        dev.close()


def retrieve_on(vc, which):
    dev = dv.device(vc, which, retrieve_execution='job')
    try:
        logical, mapping, order, fracs, r = run(vc, dev, which, 0, retrieve=True)
        check_registered(vc, dev, mapping, order, fracs, r, logical)
        check_probabilities(vc, dev, mapping, order, fracs, registers(vc, order))
    finally:
        dev.close()


def wide_on(vc, which):
    """Many qubits, many outcomes, registers of any size in any order."""
    m = 4 + vc.pick('qubits', 9 if which.startswith('Braket') or which == 'IBM' else 6)
    n = m if which.startswith('Braket') else m + vc.pick('spare locations', 3)
    dev = dv.device(vc, which)
    try:
        for k in range(1 + vc.pick('circuits', 2)):
            free, spare = list(range(n)), list(range(40))
            where = [free.pop(vc.pick('place', len(free))) for _ in range(m)]
            logical = [100 * k + spare.pop(vc.pick('id', len(spare))) for _ in range(m)]
            mapping = dict(zip(logical, where))
            dev.mapper.current_mapping = dict(mapping)
            states = list(dict.fromkeys(f'{vc.pick("bits", 1 << n):0{n}b}' for _ in range(1 + vc.pick('outcomes', 30))))
            ws = [1 + vc.pick('w', 9) for _ in states]
            settle(dev, list(zip(states, ws)) if which in ('AQT', 'Azure Quantinuum', 'IBM', 'Braket SV1') else [(s, w / sum(ws)) for s, w in zip(states, ws)])
            r = min(max(vc.real('r', 0, 1), 1e-9), 1 - 1e-9)
            rest = list(logical)
            order = [rest.pop(vc.pick('measured', len(rest))) for _ in range(1 + vc.pick('how many', m))]
            with Source(vc, r).active(), dev.online():
                dev.backend.receive(circuit(dev, which, logical, mapping, order))
                dev.backend.receive([flush(dev)])
            fracs = dev.fractions()
            check_registered(vc, dev, mapping, order, fracs, r, logical)
            regs = []
            for _ in range(4):
                rest = list(order)
                regs.append([rest.pop(vc.pick('in register', len(rest))) for _ in range(1 + vc.pick('register size', len(order)))])
            check_probabilities(vc, dev, mapping, order, fracs, regs + [list(order)])
    finally:
        dev.close()


def distribution_on(vc, which):
    """Eight equally spaced draws hit every measured value exactly as often as its probability says."""
    n = 3
    logical = [5, 0, 3]
    where = vc.choose('where', list(itertools.permutations(range(3))))
    mapping = dict(zip(logical, where))
    perm = vc.choose('order', list(itertools.permutations(range(3))))
    order = [logical[i] for i in perm[:1 + vc.pick('measured', 3)]]
    size = 1 + vc.pick('outcomes', 4)
    states = [f'{x:0{n}b}' for x in spread([vc.pick(f'bits{i}', 8) for i in range(size)], 7)]
    ws = [1] * size
    for i in range(8 - size):
        ws[vc.pick(f'more{i}', size)] += 1
    seen, want = {}, {}
    for s, w in zip(states, ws):
        key = ''.join(s[mapping[q]] for q in order)
        want[key] = want.get(key, 0) + w
    for k in range(8):
        dev = dv.device(vc, which)
        try:
            dev.mapper.current_mapping = dict(mapping)
            dev.outcomes = list(zip(states, ws)) if which in ('IBM', 'AQT', 'Azure Quantinuum', 'Braket SV1') else \
                [(s, w / 8) for s, w in zip(states, ws)]
            with Source(vc, (k + 0.5) / 8).active(), dev.online():
                dev.backend.receive(circuit(dev, which, logical, mapping, order))
                dev.backend.receive([flush(dev)])
            key = ''.join(str(int(dev.eng.get_measurement_result(WeakQubitRef(dev.eng, q)))) for q in order)
            seen[key] = seen.get(key, 0) + 1
        finally:
            dev.close()
    vc.ensure('values are drawn with their probabilities', seen == want, f'{seen} instead of {want}')


# --- table --------------------------------------------------------------------------------------------------------------
def functions(which, *names):
    out = [BK + MODS[which] + '.' + n for n in names] + ['projectq.cengines._main.MainEngine.set_measurement_result']
    if which in ('IonQ', 'AQT', 'Azure IonQ'):
        out.append(BK + '_utils._rearrange_result')
    if which == 'AQT':
        out.append(BK + '_aqt._aqt._format_counts')
    return out


ASSUME = ['result formats as written in pv/devices.py', 'random draws lie strictly between 0 and 1 and are uniform',
          'floating point sums treated as exact']


def _define(name, body, which, doc, deco=contract, extra=(), **kw):
    def fn(vc):
        body(vc, which, *extra)
    fn.__name__ = name + '_' + which.lower().replace(' ', '_').replace('-', '')
    fn.__doc__ = f'{which}: {doc}'
    globals()[fn.__name__] = deco(P, functions(which, '_run', 'receive', '_store', 'get_probabilities'), **kw)(fn)


for w in dv.ALL:
    _define('results', results_on, w, 'values, probabilities of registers and the draw, for all probabilities and draws.',
            extra=(1,), samples=200, budget=80, size_bound='three qubits, up to three outcomes', assumptions=ASSUME)
    _define('after_another', results_on, w, 'the same after an earlier circuit.', extra=(2,), samples=100, budget=80,
            size_bound='three qubits, up to three outcomes, after one circuit', assumptions=ASSUME)
    if w in ('AQT', 'Braket SV1', 'Braket Aspen-8'):
        _define('unmapped', results_on, w, 'without a mapper, where the qubit ids are the locations.', extra=(1, False), samples=100,
                budget=80, size_bound='three qubits, up to three outcomes', assumptions=ASSUME)
    _define('two_runs', results_on, w, 'random statistics, mappings and orders, three circuits in a row.', deco=bounded, extra=(3,),
            bound='up to 5 locations, 3 qubits, 5 outcomes, 3 circuits', samples=300, thorough=6000)
    _define('wide', wide_on, w, 'many qubits, outcomes and registers.', deco=bounded,
            bound='4 to 9 qubits (12 for IBM and Braket) on up to 14 locations, up to 30 outcomes, up to two circuits, registers of any size and order', samples=300, thorough=2000)
    _define('retrieved', retrieve_on, w, 'results of an earlier job.', samples=100, budget=80,
            size_bound='three qubits, up to three outcomes', assumptions=ASSUME)
    _define('distribution', distribution_on, w, 'the draw follows the reported probabilities.', deco=bounded,
            bound='probabilities in eighths, 3 qubits', samples=60, thorough=1500)
