"""Random meta-programs: syntax, execution through the real meta operations, and reference meaning.

Reference meaning on two levels: the exact list of operations the documentation prescribes (ancilla ids up to renaming),
and the operator on the data qubits (Control -> controlled operator, Dagger -> adjoint, Loop -> power, Compute A, action B,
Uncompute -> A^dagger B A).
"""
import itertools
import math

import numpy as np

from . import world as W

B = W.Float


# --- syntax -------------------------------------------------------------------------------------------------------------
def gates():
    from projectq import ops
    return [ops.H, ops.X, ops.S, ops.T, ops.Rz(0.7), ops.Rx(1.3), ops.Ry(2.1), ops.Ph(0.4), ops.SqrtX, ops.Rz(-0.3),
            ops.Swap, ops.SqrtSwap, ops.Rxx(0.9), ops.R(0.6)]


def nq(g):
    g = getattr(g, '_gate', g)
    return 2 if type(g).__name__ in ('SwapGate', 'SqrtSwapGate', 'Rxx', 'Ryy', 'Rzz') else 1


def draw(vc, free, depth, kinds, maxlen=3, top=True, nested=True):
    """A random program on the data qubits `free`."""
    out = []
    for _ in range(vc.pick('len', maxlen + 1) if not top else 1 + vc.pick('len', maxlen)):
        out.append(draw_stmt(vc, free, depth, kinds, maxlen))
    return out


def draw_stmt(vc, free, depth, kinds, maxlen):
    opts = ['g', 'g']
    if 'anc' in kinds:
        opts += ['anc']
    if depth > 0:
        opts += [k for k in kinds if k not in ('anc', 'tagloop')]
    k = vc.choose('kind', opts)
    if k == 'ctrl' and len(free) < 2:
        k = 'g'
    if k == 'g':
        gs = [g for g in gates() if nq(g) <= len(free)]
        g = vc.choose('gate', gs)
        qs = subset(vc, free, nq(g))
        rest = [q for q in free if q not in qs]
        if rest and vc.pick('cnot', 3) == 0:
            return ('ctrl', [rest[0]], str(vc.pick('val', 2)), [('g', g, qs)])
        return ('g', g, qs)
    if k == 'ctrl':
        n = 1 + vc.pick('nctrl', min(2, len(free) - 1))
        qs = subset(vc, free, n)
        state = ''.join(str(vc.pick('val', 2)) for _ in qs) if vc.pick('mixed', 2) else '1' * n
        return ('ctrl', qs, state, draw(vc, [q for q in free if q not in qs], depth - 1, kinds, maxlen, False))
    if k in ('cau', 'ccau'):
        a = draw(vc, free, depth - 1, kinds, maxlen, False)
        b = draw(vc, free, depth - 1, kinds, maxlen, False)
        return (k, a, b)
    if k == 'dag':
        return ('dag', draw(vc, free, depth - 1, kinds, maxlen, False))
    if k == 'loop':
        return ('loop', vc.pick('times', 4), draw(vc, free, depth - 1, kinds, 2, False))
    if k in ('anc', 'anccomp'):
        qs = subset(vc, free, 1 + vc.pick('nanc', min(2, len(free))))
        return (k, qs, vc.choose('theta', [0.5, 1.1, -0.8]))
    raise AssertionError(k)


def subset(vc, free, n):
    """An ordered selection of n of the listed qubits."""
    pool = list(free)
    out = []
    for _ in range(n):
        out.append(pool.pop(vc.pick('q', len(pool))))
    return out


# --- execution through the real code -----------------------------------------------------------------------------------
def run(eng, data, prog):
    from projectq.meta import Compute, Control, CustomUncompute, Dagger, Loop, Uncompute
    from projectq.ops import CNOT, Rz
    for s in prog:
        k = s[0]
        if k == 'g':
            qs = [data[i] for i in s[2]]
            s[1] | (qs[0] if len(qs) == 1 else tuple(qs))
        elif k == 'ctrl':
            with Control(eng, [data[i] for i in s[1]], ctrl_state=s[2]):
                run(eng, data, s[3])
        elif k == 'cau':
            with Compute(eng):
                run(eng, data, s[1])
            run(eng, data, s[2])
            Uncompute(eng)
        elif k == 'ccau':
            with Compute(eng):
                run(eng, data, s[1])
            run(eng, data, s[2])
            with CustomUncompute(eng):
                run(eng, data, inverse(s[1]))
        elif k == 'dag':
            with Dagger(eng):
                run(eng, data, s[1])
        elif k == 'loop':
            with Loop(eng, s[1]):
                run(eng, data, s[2])
        elif k == 'anc':
            a = eng.allocate_qubit()
            for i in s[1]:
                CNOT | (data[i], a)
            Rz(s[2]) | a
            for i in reversed(s[1]):
                CNOT | (data[i], a)
            a[0].__del__()
            del a
        elif k == 'anccomp':
            with Compute(eng):
                a = eng.allocate_qubit()
                for i in s[1]:
                    CNOT | (data[i], a)
            Rz(s[2]) | a
            Uncompute(eng)
            del a


def inverse(prog):
    """A hand-written inverse program (for custom uncompute)."""
    from projectq.ops import get_inverse
    out = []
    for s in reversed(prog):
        if s[0] == 'g':
            out.append(('g', get_inverse(s[1]), s[2]))
        elif s[0] == 'ctrl':
            out.append(('ctrl', s[1], s[2], inverse(s[3])))
        elif s[0] in ('cau', 'ccau'):
            out.append((s[0], s[1], inverse(s[2])))
        elif s[0] == 'dag':
            out.append(('dag', inverse(s[1])))
        elif s[0] == 'loop':
            out.append(('loop', s[1], inverse(s[2])))
        else:
            out.append((s[0], s[1], -s[2]))
    return out


# --- reference: list of operations ----------------------------------------------------------------------------------------
class Ev:
    """One expected operation; ids are data indices or ancilla tokens."""

    def __init__(self, gate, inv, tg, ct=(), tags=()):
        self.gate, self.inv, self.tg, self.ct, self.tags = gate, inv, tuple(tg), tuple(ct), tuple(tags)

    def but(self, **kw):
        e = Ev(self.gate, self.inv, self.tg, self.ct, self.tags)
        for k, v in kw.items():
            setattr(e, k, v)
        return e

    def classical(self):
        return self.gate in ('alloc', 'dealloc')


_TOK = itertools.count()


def tok():
    return f'a{next(_TOK)}'


def flip(e):
    if e.classical():
        return e.but(gate='dealloc' if e.gate == 'alloc' else 'alloc')
    return e.but(inv=e.inv + 1)


def local_ids(evs):
    return {e.tg[0] for e in evs if e.gate == 'alloc'} & {e.tg[0] for e in evs if e.gate == 'dealloc'}


def rename(evs, m):
    return [e.but(tg=tuple(m.get(x, x) for x in e.tg), ct=tuple((m.get(x, x), v) for x, v in e.ct)) for e in evs]


def expand(prog, tagloop=False):
    from projectq.ops import Rz, X
    out = []
    for s in prog:
        k = s[0]
        if k == 'g':
            out.append(Ev(s[1], 0, s[2]))
        elif k == 'ctrl':
            for e in expand(s[3], tagloop):
                if e.classical() or 'C' in e.tags or 'U' in e.tags:
                    out.append(e)
                else:
                    out.append(e.but(ct=e.ct + tuple((q, int(v)) for q, v in zip(s[1], s[2]))))
        elif k in ('cau', 'ccau'):
            a = expand(s[1], tagloop)
            out += [e.but(tags=e.tags + ('C',)) for e in a]
            out += expand(s[2], tagloop)
            if k == 'cau':
                u = [flip(e).but(tags=e.tags + ('U',)) for e in reversed(a)]
                out += rename(u, {x: tok() for x in local_ids(a)})
            else:
                out += [e.but(tags=e.tags + ('U',)) for e in expand(inverse(s[1]), tagloop)]
        elif k == 'dag':
            out += [flip(e) for e in reversed(expand(s[1], tagloop))]
        elif k == 'loop':
            body = expand(s[2], tagloop)
            if s[1] == 1:
                out += body
            elif tagloop:
                t = ('L', s[1], tok())
                if s[1]:
                    out += [e.but(tags=e.tags + (t,)) for e in body]
            else:
                for i in range(s[1]):
                    out += body if i == 0 else rename(body, {x: tok() for x in local_ids(body)})
        elif k == 'anc':
            a = tok()
            cx = [Ev(X, 0, (a,), ((i, 1),)) for i in s[1]]
            out += [Ev('alloc', 0, (a,))] + cx + [Ev(Rz(s[2]), 0, (a,))] + list(reversed(cx)) + [Ev('dealloc', 0, (a,))]
        elif k == 'anccomp':
            a = tok()
            cx = [Ev(X, 0, (a,), ((i, 1),)) for i in s[1]]
            com = [Ev('alloc', 0, (a,))] + cx
            out += [e.but(tags=('C',)) for e in com] + [Ev(Rz(s[2]), 0, (a,))]
            out += [flip(e).but(tags=('U',)) for e in reversed(com)]
    return out


def opmat(gate, inv):
    m = np.array(W.gate_op(B, gate, [1] * nq(gate))[1], dtype=complex)
    return m.conj().T if inv % 2 else m


def check_events(vc, name, cmds, want, dataids):
    """The recorded commands are exactly the expected operations (ancilla ids up to renaming, each allocated id new)."""
    from projectq import ops
    from projectq.meta import ComputeTag, LoopTag, UncomputeTag
    vc.ensure(f'{name}: number of operations', len(cmds) == len(want), f'{len(cmds)} instead of {len(want)}: '
              + '; '.join(str(c) for c in cmds)[:400])
    ren = {i: q for i, q in enumerate(dataids)}
    used = set(dataids)
    loops = {}
    for k, (c, e) in enumerate(zip(cmds, want)):
        what = f'{name}: operation {k}'
        if e.classical():
            g = {'alloc': ops.AllocateQubitGate, 'dealloc': ops.DeallocateQubitGate}[e.gate]
            vc.ensure(what + ' is the ' + e.gate, type(c.gate) is g, str(c))
            if e.gate == 'alloc':
                q = c.qubits[0][0].id
                vc.ensure(what + ' allocates a new id', q not in used, str(q))
                used.add(q)
                ren[e.tg[0]] = q
        else:
            vc.ensure(what + ' is a gate', not isinstance(c.gate, ops.ClassicalInstructionGate), str(c))
            kind, m = W.gate_op(B, c.gate, [len(r) for r in c.qubits])
            ref = opmat(e.gate, e.inv)
            vc.ensure(what + ' has the prescribed gate', kind == 'mat' and len(m) == len(ref) and
                      np.allclose(np.array(m, dtype=complex), ref, atol=1e-8),
                      f'{c.gate} instead of {e.gate}' + (' inverse' if e.inv % 2 else ''))
        tg = [q.id for r in c.qubits for q in r]
        exp = [ren.get(x) for x in e.tg]
        if not e.classical() and nq(e.gate) == 2:
            tg, exp = sorted(tg), sorted(exp)          # interchangeable targets
        vc.ensure(what + ' has the prescribed targets', tg == exp, f'{tg} instead of {exp}')
        vc.ensure(what + ' has the prescribed controls', sorted(W.controls_of(c)) == sorted((ren.get(x), v) for x, v in e.ct),
                  f'{W.controls_of(c)} instead of {[(ren.get(x), v) for x, v in e.ct]}')
        tags = []
        for t in c.tags:
            if isinstance(t, ComputeTag):
                tags.append('C')
            elif isinstance(t, UncomputeTag):
                tags.append('U')
            elif isinstance(t, LoopTag):
                tags.append(('L', t.num, t.id))
            else:
                tags.append(t)
        ok = len(tags) == len(e.tags)
        if ok:
            for t, x in zip(tags, e.tags):
                if isinstance(x, tuple) and isinstance(t, tuple):
                    ok = ok and t[1] == x[1] and loops.setdefault(x[2], t[2]) == t[2]
                else:
                    ok = ok and t == x
        vc.ensure(what + ' has the prescribed tags', ok, f'{tags} instead of {e.tags}')
    vc.ensure(f'{name}: different loops have different tags', len(set(loops.values())) == len(loops))


# --- reference: operator --------------------------------------------------------------------------------------------------
def embed(m, tg, n):
    return np.array([W.apply_matrix(B, W.basis(B, n, k), m, list(tg), []) for k in range(1 << n)], dtype=complex).T


def operator(prog, n):
    u = np.eye(1 << n, dtype=complex)
    for s in prog:
        k = s[0]
        if k == 'g':
            v = embed(opmat(s[1], 0).tolist(), s[2], n)
        elif k == 'ctrl':
            v = operator(s[3], n)
            sel = np.array([all(((x >> q) & 1) == int(b) for q, b in zip(s[1], s[2])) for x in range(1 << n)])
            w = np.eye(1 << n, dtype=complex)
            w[np.ix_(sel, sel)] = v[np.ix_(sel, sel)]
            v = w
        elif k in ('cau', 'ccau'):
            a = operator(s[1], n)
            v = a.conj().T @ operator(s[2], n) @ a
        elif k == 'dag':
            v = operator(s[1], n).conj().T
        elif k == 'loop':
            v = np.linalg.matrix_power(operator(s[2], n), s[1])
        else:
            par = np.array([(-1) ** sum((x >> q) & 1 for q in s[1]) for x in range(1 << n)])
            v = np.diag(np.exp(-0.5j * s[2] * par))
        u = v @ u
    return u


class Sim:
    """Reference simulation of a command stream with allocation and deallocation, on all basis inputs at once."""

    def __init__(self, vc, dataids):
        self.vc = vc
        self.live = list(dataids)
        self.seen = set(dataids)
        n = len(dataids)
        self.v = np.eye(1 << n, dtype=complex)      # rows: basis state, columns: input

    def cmd(self, c):
        from projectq import ops
        vc = self.vc
        if isinstance(c.gate, ops.AllocateQubitGate):
            q = c.qubits[0][0].id
            vc.ensure('allocated id was never used before', q not in self.seen, str(q))
            self.seen.add(q)
            self.live.append(q)
            self.v = np.vstack([self.v, np.zeros_like(self.v)])
            return
        if isinstance(c.gate, ops.DeallocateQubitGate):
            q = c.qubits[0][0].id
            vc.ensure('deallocated qubit is alive', q in self.live, str(q))
            p = self.live.index(q)
            idx = np.arange(self.v.shape[0])
            one = (idx >> p) & 1 == 1
            vc.ensure('deallocated ancilla is back in zero', float(np.abs(self.v[one]).max(initial=0)) < 1e-8)
            self.v = self.v[~one]
            self.live.pop(p)
            return
        if isinstance(c.gate, ops.ClassicalInstructionGate):
            return
        used = [q for q in W.targets_of(c)] + [q for q, _ in W.controls_of(c)]
        vc.ensure('only live qubits are used', all(q in self.live for q in used), str(c))
        vc.ensure('no qubit is used twice by one operation', len(set(used)) == len(used), str(c))
        pos = {q: i for i, q in enumerate(self.live)}
        cols = [W.apply_cmd(B, list(self.v[:, k]), c, pos) for k in range(self.v.shape[1])]
        self.v = np.array(cols, dtype=complex).T


def unroll_tags(cmds):
    """Replace loop-tagged runs by their repetitions (last tag is the outermost loop); fresh names for local qubits."""
    from projectq.meta import LoopTag
    from projectq import ops
    from copy import deepcopy

    def go(seq):
        out = []
        i = 0
        while i < len(seq):
            tags = seq[i][1]
            if not tags:
                out.append(seq[i][0])
                i += 1
                continue
            t = tags[-1]
            j = i
            grp = []
            while j < len(seq) and seq[j][1] and seq[j][1][-1] == t:
                grp.append((seq[j][0], seq[j][1][:-1]))
                j += 1
            for r in range(t.num):
                body = go(grp)
                if r:
                    body = fresh(body)
                out += body
            i = j
        return out

    def fresh(body):
        m = {}
        res = []
        for c in body:
            c = deepcopy(c)
            if isinstance(c.gate, ops.AllocateQubitGate):
                m[c.qubits[0][0].id] = -1000 - next(_ids)
            for r in c.all_qubits:
                for q in r:
                    q.id = m.get(q.id, q.id)
            res.append(c)
        return res

    _ids = itertools.count(len(cmds))
    return go([(c, [t for t in c.tags if isinstance(t, LoopTag)]) for c in cmds])


def make_eng(tagloop=False):
    from projectq import MainEngine
    from projectq.meta import LoopTag
    rec = W.make_rec()
    if tagloop:
        rec.is_meta_tag_handler = lambda tag: tag == LoopTag
    return MainEngine(backend=rec, engine_list=[]), rec


def check_program(vc, prog, n, tagloop=False, exact=True):
    eng, rec = make_eng(tagloop)
    chain = eng.next_engine
    data = eng.allocate_qureg(n)
    ids = [q.id for q in data]
    start = len(rec.cmds)
    run(eng, data, prog)
    cmds = list(rec.cmds[start:])
    vc.ensure('engine chain is restored', eng.next_engine is chain and eng.n_engines == 1)
    if exact:
        check_events(vc, 'emitted operations', cmds, expand(prog, tagloop), ids)
    sim = Sim(vc, ids)
    for c in unroll_tags(cmds) if tagloop else cmds:
        sim.cmd(c)
    vc.ensure('no ancilla is left alive', sim.live == ids, str(sim.live))
    vc.ensure('operator on the data qubits', np.allclose(sim.v, operator(prog, n), atol=1e-7),
              f'largest difference {np.abs(sim.v - operator(prog, n)).max():.3g}')
    last = len(rec.cmds)
    for q in list(data):
        q.__del__()
    rest = rec.cmds[last:]
    vc.ensure('each data qubit is deallocated once at the end', sorted(c.qubits[0][0].id for c in rest) == sorted(ids) and
              all(type(c.gate).__name__ == 'DeallocateQubitGate' for c in rest))
    return cmds


def show(prog):
    return repr(prog)


_ = math
