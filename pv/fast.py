"""Reference semantics of commands on state vectors of many qubits, with numpy: for bounded runs at sizes the exact engine cannot reach."""
import numpy as np

from pv import world as W


def state(vc, n):
    """A random state (the seed is an input of the run)."""
    rng = np.random.default_rng(vc.pick('seed', 1 << 20))
    v = rng.normal(size=1 << n) + 1j * rng.normal(size=1 << n)
    return v / np.linalg.norm(v)


def apply(vec, m, t, c=()):
    """The matrix m on the positions t (first is least significant) where the controls c, (position, value), hold."""
    n = len(vec).bit_length() - 1
    out = np.array(vec, dtype=complex).reshape((2,) * n)
    at = [slice(None)] * n
    for p, v in c:
        at[n - 1 - p] = v
    sub = out[tuple(at)]
    fixed = {p for p, _ in c}
    free = [p for p in range(n - 1, -1, -1) if p not in fixed]
    axes = [free.index(p) for p in reversed(t)]
    k = len(t)
    m = np.asarray(m, dtype=complex).reshape((2,) * (2 * k))
    res = np.moveaxis(np.tensordot(m, sub, axes=(list(range(k, 2 * k)), axes)), list(range(k)), axes)
    out[tuple(at)] = res
    return out.reshape(-1)


def command(vec, cmd, pos):
    if type(cmd.gate).__name__ == 'BarrierGate':
        return vec
    t = [pos[q.id] for r in cmd.qubits for q in r]
    from projectq.ops import QFT, get_inverse
    inverse = type(cmd.gate).__name__ == 'DaggeredGate' and type(get_inverse(cmd.gate)) is type(QFT)
    if inverse or type(cmd.gate) is type(QFT):
        x = np.arange(1 << len(t))
        rev = sum((x >> i & 1) << (len(t) - 1 - i) for i in range(len(t)))
        m = np.exp(2j * np.pi * (np.outer(rev, x) % len(x)) / len(x)) / np.sqrt(len(x))  # the final swaps are not included
        m = m.conj().T if inverse else m
        return apply(vec, m, t, [(pos[i], v) for i, v in W.controls_of(cmd)])
    kind, m = W.gate_op(W.Float, cmd.gate, [len(r) for r in cmd.qubits])
    assert kind == 'mat', cmd
    if len(m) != 1 << len(t):
        assert type(cmd.gate).__name__ == 'Ph', cmd
        t = t[:1]
    return apply(vec, m, t, [(pos[i], v) for i, v in W.controls_of(cmd)])


def run(vec, cmds, ids):
    """The quantum commands in order; ids: first is least significant.  Allocated qubits are appended in zero and must be returned in zero."""
    ids = list(ids)
    for c in cmds:
        if W.is_classical(c):
            q = c.qubits[0][0].id
            name = type(c.gate).__name__
            if name == 'AllocateQubitGate':
                assert q not in ids
                ids.append(q)
                vec = np.concatenate([vec, np.zeros_like(vec)])
            elif name == 'DeallocateQubitGate':
                p = ids.index(q)
                both = vec.reshape(-1, 2, 1 << p)
                if np.linalg.norm(both[:, 1, :]) > 1e-7:
                    return None
                vec = both[:, 0, :].reshape(-1)
                ids.pop(p)
            continue
        vec = command(vec, c, {q: i for i, q in enumerate(ids)})
    return vec


def evolve(vec, term, angle, pos, c=()):
    """exp(-i angle P) for the Pauli string P (tuple of (index, letter)) on the positions pos, under the controls c."""
    n = len(vec).bit_length() - 1
    moved = vec
    for i, a in term:
        moved = apply(moved, {'X': [[0, 1], [1, 0]], 'Y': [[0, -1j], [1j, 0]], 'Z': [[1, 0], [0, -1]]}[a], [pos[i]])
    on = np.ones(1 << n, dtype=bool)
    for p, v in c:
        on &= (np.arange(1 << n) >> p & 1) == v
    return np.where(on, np.cos(angle) * vec - 1j * np.sin(angle) * moved, vec)


def agree(vc, name, got, want, phase=False, tol=1e-6):
    if got is None:
        vc.ensure(name + ' (work qubits are returned in zero)', False)
        return
    if phase:
        vc.ensure(name, abs(abs(np.vdot(got, want)) - 1) < tol, f'overlap {np.vdot(got, want)}')
    else:
        d = abs(got - want).max()
        vc.ensure(name, d < tol, f'deviation {d}')
