"""The compiled simulator of /repo: built from its current sources, on exact numbers and natively.

Exact: the real headers are compiled with `double` bound to a polynomial type (cpp/sym.hpp) into a server process;
comparisons, square roots, random numbers and Python callbacks are answered by the verifier, so the path explorer
sees every branch of the C++ code.  Native: the extension module itself, compiled with the flags of setup.py.
Both exist with and without vector instructions (INTRIN).
"""
import ctypes
import hashlib
import importlib.machinery
import importlib.util
import os
import subprocess
import sysconfig
import tempfile
import threading
from fractions import Fraction

import projectq

from . import num
from .core import Unsupported
from .num import Num

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cpp')
SIM = os.path.join(os.path.dirname(os.path.abspath(projectq.__file__)), 'backends', '_sim')
VARIANTS = ('intrin', 'nointrin')
_built = {}


def _sources():
    out = []
    for base in (SIM, HERE):
        for root, _dirs, files in os.walk(base):
            out += [os.path.join(root, f) for f in files if f.endswith(('.hpp', '.h', '.cpp'))]
    return sorted(out)


def _command(kind, variant, target):
    flags = ['-DINTRIN', '-mavx2'] if variant == 'intrin' else ['-DNOINTRIN']
    if kind == 'exact':
        return ['g++', '-std=c++17', '-O0', '-w', *flags[:1], '-I' + HERE, '-I' + os.path.join(HERE, 'fake'), '-I' + SIM,
                os.path.join(HERE, 'driver.cpp'), '-o', target]
    import pybind11
    return ['g++', '-std=c++17', '-O2', '-DNDEBUG', '-w', '-fPIC', '-shared', '-fopenmp', '-ffast-math', *flags,
            f'-DPYBIND11_COMPILER_TYPE="verif_{variant}"', '-I' + SIM, '-I' + pybind11.get_include(),
            '-I' + sysconfig.get_paths()['include'], os.path.join(HERE, 'native.cpp'), '-o', target]


def build():
    """Compiles whatever is missing for the current sources; returns {(kind, variant): path or None}."""
    if _built:
        return _built
    h = hashlib.sha256()
    for f in _sources():
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    d = os.path.join(tempfile.gettempdir(), 'verif_cpp_' + h.hexdigest()[:20])
    os.makedirs(d, exist_ok=True)

    def one(kind, variant):
        path = os.path.join(d, f'{kind}_{variant}' + ('.so' if kind == 'native' else ''))
        if not os.path.exists(path):
            tmp = f'{path}.{os.getpid()}'
            r = subprocess.run(_command(kind, variant, tmp), capture_output=True, text=True, check=False)
            if r.returncode:
                _built[kind, variant] = None
                open(path + '.log', 'w', encoding='utf-8').write(r.stderr)
                return
            os.replace(tmp, path)
        _built[kind, variant] = path
    jobs = [threading.Thread(target=one, args=(k, v)) for k in ('exact', 'native') for v in VARIANTS]
    for j in jobs:
        j.start()
    for j in jobs:
        j.join()
    return _built


# --- native ------------------------------------------------------------------------------------------------------------------
_modules = {}


def native(variant):
    """(extension module, library handle)."""
    if variant not in _modules:
        path = build()['native', variant]
        if path is None:
            raise Unsupported('the extension does not compile in this variant')
        loader = importlib.machinery.ExtensionFileLoader('_cppsim', path)
        spec = importlib.util.spec_from_file_location('_cppsim', path, loader=loader)
        mod = importlib.util.module_from_spec(spec)
        loader.exec_module(mod)
        lib = ctypes.CDLL(path)
        lib.verif_draw.argtypes = [ctypes.c_double]
        _modules[variant] = (mod, lib)
    return _modules[variant]


# --- exact -------------------------------------------------------------------------------------------------------------------
_procs = {}


def _proc(variant, fresh=False):
    key = (os.getpid(), variant)
    p = _procs.get(key)
    if fresh and p is not None:
        p.kill()
        p.wait()
        p = None
    if p is None:
        path = build()['exact', variant]
        if path is None:
            raise Unsupported('the kernels do not compile on exact numbers')
        p = _procs[key] = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)
    return p


class Exact:
    """The C++ simulator on exact numbers, with the interface of the extension module."""

    def __init__(self, vc, variant, draws=None):
        self.vc, self.variant = vc, variant
        self.names, self.values, self.texts = {}, {}, {}
        self.draws = draws if draws is not None else []
        self.sid = vc.ghost['cpp simulators'] = vc.ghost.get('cpp simulators', 0) + 1
        if self.sid > 1:
            raise Unsupported('one exact simulator at a time')
        _proc(variant, True)

    # -- numbers
    def _name(self, x):
        key = tuple(sorted(x.t.items()))
        if key not in self.names:
            self.names[key] = f'v{len(self.names)}'
            self.values[self.names[key]] = x
        return self.names[key]

    def real(self, x):
        if isinstance(x, Num):
            x = x.subst()
            if not x.is_const():
                return self._name(x)
            if list(x.t) not in ([], [((), (), Fraction(0))]):
                return self._name(x)
            f = sum(x.t.values(), Fraction(0))
        elif isinstance(x, complex):
            if x.imag:
                raise TypeError('complex number where a real one is expected')
            f = Fraction(x.real)
        else:
            f = Fraction(x)
        if abs(f.numerator) < 10 ** 9 and f.denominator < 10 ** 9:
            return f'{f.numerator}/{f.denominator}'
        return self._name(Num.const(f))

    def cplx(self, x):
        if isinstance(x, Num):
            return self.real(x.real) + ' ' + self.real(x.imag)
        x = complex(x)
        return self.real(x.real) + ' ' + self.real(x.imag)

    def parse(self, text):
        out = Num()
        if text == '0':
            return out
        for part in text.split('+'):
            coeff, *mono = part.split('*')
            term = Num.const(Fraction(coeff))
            for m in mono:
                if m not in self.texts:
                    name, e = m.rsplit('^', 1)
                    base = Num.const(Fraction(float.fromhex(name[6:]))) if name.startswith('const:') else self.values[name]
                    self.texts[m] = base ** int(e)
                term = term * self.texts[m]
            out = out + term
        return out

    # -- protocol
    def _answer(self, line, fn):
        what, _, rest = line.partition(' ')
        if what == 'sqrt':
            x = self.parse(rest)
            return self._name(Num.const(num.sqrt(x)))
        if what == 'random':
            if not self.draws:
                raise Unsupported('random number')
            return self.real_var(self.draws.pop(0))
        if what == 'math':
            return ' '.join(str(self._int(v)) for v in fn([int(v) for v in rest.split()]))
        x = self.parse(rest)
        op = {'<': Num.__lt__, '>': Num.__gt__, '<=': Num.__le__, '>=': Num.__ge__, '==': Num.__eq__, '!=': Num.__ne__}[what]
        return '1' if bool(op(x, Num())) else '0'

    def real_var(self, x):
        return self._name(Num.const(x))

    @staticmethod
    def _int(v):
        """As the binding: the lowest 32 bits."""
        v = int(v) & 0xFFFFFFFF
        return v - (1 << 32) if v >> 31 else v

    def call(self, *words, fn=None):
        p = _proc(self.variant)
        try:
            p.stdin.write(' '.join(str(w) for w in words) + '\n')
            p.stdin.flush()
            while True:
                line = p.stdout.readline()
                if not line:
                    raise Unsupported('the exact simulator stopped')
                what, _, rest = line.rstrip('\n').partition(' ')
                if what != 'ask':
                    break
                p.stdin.write(self._answer(rest, fn) + '\n')
                p.stdin.flush()
        except (Exception, num.Unsupported):
            _proc(self.variant, True)
            raise
        except BaseException:
            _proc(self.variant, True)
            raise
        if what == 'ok':
            return rest
        if what == 'unsupported':
            raise Unsupported('exact C++: ' + rest)
        raise {'ValueError': ValueError, 'RuntimeError': RuntimeError, 'IndexError': IndexError}[what](rest)

    @staticmethod
    def _list(xs):
        xs = [int(x) for x in xs]
        if any(x < 0 for x in xs):
            raise TypeError('negative id')
        return f'{len(xs)} ' + ' '.join(map(str, xs))

    def _regs(self, regs):
        return f'{len(regs)} ' + ' '.join(self._list(r) for r in regs)

    @staticmethod
    def _term(term):
        return f'{len(term)} ' + ' '.join(f'{int(i)} {c}' for i, c in term)

    # -- the interface
    def allocate_qubit(self, i):
        self.call('alloc', int(i))

    def deallocate_qubit(self, i):
        self.call('dealloc', int(i))

    def get_classical_value(self, i):
        return self.call('value', int(i)) == '1'

    def is_classical(self, i):
        return self.call('classical', int(i)) == '1'

    def run(self):
        self.call('run')

    def set_wavefunction(self, psi, order):
        psi = list(psi)
        self.call('set', self._list(order), len(psi), *[self.cplx(x) for x in psi])

    def apply_controlled_gate(self, m, targets, controls):
        m = [list(r) for r in m]
        self.call('gate', self._list(targets), self._list(controls), len(m), *[self.cplx(x) for r in m for x in r])

    def emulate_math(self, f, regs, controls):
        self.call('math', self._regs(regs), self._list(controls), fn=f)

    @staticmethod
    def _long(x):
        if not -(1 << 63) <= x < 1 << 63:
            raise TypeError('out of range')
        return int(x)

    def emulate_math_addConstant(self, a, regs, controls):
        self.call('addc', self._long(a), self._regs(regs), self._list(controls))

    def emulate_math_addConstantModN(self, a, n, regs, controls):
        self.call('addmod', self._long(a), self._long(n), self._regs(regs), self._list(controls))

    def emulate_math_multiplyByConstantModN(self, a, n, regs, controls):
        self.call('mulmod', self._long(a), self._long(n), self._regs(regs), self._list(controls))

    def apply_qubit_operator(self, terms, ids):
        self.call('op', len(terms), *[self._term(t) + ' ' + self.cplx(c) for t, c in terms], self._list(ids))

    def get_expectation_value(self, terms, ids):
        return self.parse(self.call('exp', len(terms), *[self._term(t) + ' ' + self.real(c) for t, c in terms], self._list(ids)))

    def emulate_time_evolution(self, *_a):
        raise Unsupported('time evolution')

    def get_probability(self, bits, ids):
        return self.parse(self.call('prob', self._list([int(bool(b)) for b in bits]), self._list(ids)))

    def get_amplitude(self, bits, ids):
        a, b = self.call('amp', self._list([int(bool(b)) for b in bits]), self._list(ids)).split()
        return self.parse(a) + self.parse(b) * num.I_

    def collapse_wavefunction(self, ids, values):
        self.call('collapse', self._list(ids), self._list([int(bool(b)) for b in values]))

    def measure_qubits(self, ids):
        return [c == '1' for c in self.call('measure', self._list(ids))]

    def cheat(self):
        words = self.call('state').split()
        n = int(words[0])
        where = {int(words[1 + 2 * i]): int(words[2 + 2 * i]) for i in range(n)}
        rest = words[2 + 2 * n:]
        return where, [self.parse(rest[i]) + self.parse(rest[i + 1]) * num.I_ for i in range(0, len(rest), 2)]
