"""Fake devices: the environment contract of the hardware backends (published instruction sets and result formats).

A Device owns a real backend object in a real MainEngine with a mapper whose mapping is given, collects what the backend
submits (decoded with the vendor's published instruction set, independently of the code under test) and answers with
prepared statistics.  Concrete runs go through the real HTTP / boto3 clients, whose network layer is replaced by a fake
server; symbolic runs replace the client's send function by its contract (the information passed to it is what is uploaded).
"""
import contextlib
import json
import math
import re
import sys
from fractions import Fraction

from . import num
from . import world as W
from .num import Num, Unsupported

TOK = re.compile('\u27e6(\\d+)\u27e7')


# --- decoding of submitted text -----------------------------------------------------------------------------------------
def untoken(vc, x):
    """Replace the printed tokens of symbolic values by the values."""
    if isinstance(x, dict):
        return {k: untoken(vc, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [untoken(vc, v) for v in x]
    if isinstance(x, str):
        m = TOK.fullmatch(x)
        if m:
            return vc.tok_of[int(m.group(1))]
    return x


def loads(vc, text):
    """JSON text (possibly containing tokens) to data; tokens stand for numbers."""
    return untoken(vc, json.loads(re.sub('"?(\u27e6\\d+\u27e7)"?', r'"\1"', text)))


def number(vc, text):
    """An angle of an OpenQASM instruction."""
    text = text.strip()
    m = TOK.fullmatch(text)
    if m:
        return vc.tok_of[int(m.group(1))]
    m = re.fullmatch(r'(-?)pi(?:/(\d+))?', text)
    if m:
        f = Fraction(-1 if m.group(1) else 1, int(m.group(2) or 1))
        return num.PI * f if vc.symbolic else float(f) * math.pi
    return float(text)


def index(vc, text):
    m = TOK.fullmatch(text.strip())
    return vc.tok_of[int(m.group(1))] if m else int(text)


def qasm(vc, text):
    """[(name, params, [(register, index)])] of the statements of an OpenQASM 2 text."""
    out = []
    for line in text.split(';'):
        line = line.strip()
        if not line:
            continue
        m = re.fullmatch(r'measure (\w+)\[([^\]]+)\] -> (\w+)\[([^\]]+)\]', line)
        if m:
            out.append(('measure', [], [(m.group(1), index(vc, m.group(2))), (m.group(3), index(vc, m.group(4)))]))
            continue
        m = re.fullmatch(r'(\w+)\s*(?:\(([^)]*)\))?\s*(.*)', line, re.S)
        if m.group(1) in ('OPENQASM', 'include', 'qreg', 'creg'):
            out.append((m.group(1), [], m.group(3)))
            continue
        args = [(a, index(vc, i)) for a, i in re.findall(r'(\w+)\[([^\]]+)\]', m.group(3))]
        out.append((m.group(1), [number(vc, p) for p in m.group(2).split(',')] if m.group(2) else [], args))
    return out


# --- published instruction sets -----------------------------------------------------------------------------------------
def u3(B, t, p, l):
    """u3 of the IBM instruction set."""
    c, s = B.cos(t * B.HALF), B.sin(t * B.HALF)
    return [[c, -(B.expi(l) * s)], [B.expi(p) * s, B.expi(p + l) * c]]


def diag(B, x):
    return [[B.c(1), B.c(0)], [B.c(0), x]]


def angle(B, f):
    """f*pi"""
    return B.PI * f if B is W.Exact else float(f) * math.pi


def plain(B, name):
    """Operators named the same by every vendor."""
    if name in ('x', 'y', 'z'):
        return W.PAULI[name.upper()](B)
    ref = {'h': 'HGate', 's': 'SGate', 't': 'TGate', 'v': 'SqrtXGate', 'swap': 'SwapGate'}
    dag = {'si': 'SGate', 'ti': 'TGate', 'vi': 'SqrtXGate', 'sdg': 'SGate', 'tdg': 'TGate'}
    if name in ref:
        return W.ref_matrix(B, ref[name])
    if name in dag:
        return W.dagger(B, W.ref_matrix(B, dag[name]))
    return None


class Instr:
    """One submitted instruction: an operator on target locations under positive controls, a barrier or a measurement."""

    def __init__(self, kind, matrix=None, targets=(), controls=(), slot=None):
        self.kind, self.matrix, self.targets, self.controls, self.slot = kind, matrix, list(targets), list(controls), slot

    def __repr__(self):
        return f'{self.kind}{self.targets}{self.controls}'


class Bad(Exception):
    """The submission is not in the published instruction set."""


class Submission:
    def __init__(self, instrs, nq, shots, measured=None, qasm=None):
        self.instrs, self.nq, self.shots, self.measured, self.qasm = instrs, nq, shots, measured, qasm


def only(d, *keys):
    if set(d) != set(keys):
        raise Bad(f'fields {sorted(d)} instead of {sorted(keys)}')
    return d


def ibm_json(vc, instrs):
    B, out = W.nb(vc), []
    for i in instrs:
        n = i['name']
        if n == 'measure':
            only(i, 'name', 'qubits', 'memory')
            out.append(Instr('measure', targets=i['qubits'], slot=i['memory'][0]))
        elif n == 'barrier':
            out.append(Instr('barrier', targets=only(i, 'name', 'qubits')['qubits']))
        elif n == 'cx':
            c, t = only(i, 'name', 'qubits')['qubits']
            out.append(Instr('gate', W.PAULI['X'](B), [t], [c]))
        elif n in ('u1', 'u2', 'u3'):
            p = only(i, 'name', 'qubits', 'params')['params']
            if len(p) != int(n[1]) or len(i['qubits']) != 1:
                raise Bad(str(i))
            out.append(Instr('gate', ibm_u(B, n, p), i['qubits']))
        else:
            raise Bad(n)
    return out


def ibm_u(B, n, p):
    p = [num_or_pi(B, x) for x in p]
    if n == 'u1':
        return diag(B, B.expi(p[0]))
    return u3(B, *([angle(B, Fraction(1, 2))] if n == 'u2' else []), *p)


def num_or_pi(B, x):
    """Numbers of a symbolic submission that are float multiples of pi/2 stand for these multiples."""
    if B is W.Exact and isinstance(x, float) and x:
        k = x / (math.pi / 2)
        if abs(k - round(k)) < 1e-12:
            return B.PI * Fraction(round(k), 2)
    return Num.const(x) if B is W.Exact and not isinstance(x, Num) else x


def ibm_qasm(vc, text):
    B, out = W.nb(vc), []
    for name, p, args in qasm(vc, text):
        ids = [i for _, i in args]
        if name == 'measure':
            out.append(Instr('measure', targets=ids[:1], slot=ids[1]))
        elif name == 'barrier':
            out.append(Instr('barrier', targets=ids))
        elif name == 'cx':
            out.append(Instr('gate', W.PAULI['X'](B), [ids[1]], [ids[0]]))
        elif name in ('u1', 'u2', 'u3') and len(p) == int(name[1]) and len(ids) == 1:
            out.append(Instr('gate', ibm_u(B, name, p), ids))
        else:
            raise Bad(name)
    return out


def quantinuum_qasm(vc, text):
    B, out, nq = W.nb(vc), [], None
    head = True
    for name, p, args in qasm(vc, text):
        if name in ('OPENQASM', 'include', 'qreg', 'creg'):
            if name in ('qreg', 'creg'):
                m = re.fullmatch(r'(\w+)\[([^\]]+)\]', args)
                if not head or m.group(1) != {'qreg': 'q', 'creg': 'c'}[name]:
                    raise Bad(name)
                nq = index(vc, m.group(2)) if nq is None else nq
            continue
        head = False
        ids = [i for _, i in args]
        if name == 'measure':
            out.append(Instr('measure', targets=ids[:1], slot=ids[1]))
            continue
        if name == 'barrier':
            out.append(Instr('barrier', targets=ids))
            continue
        if name in ('rx', 'ry', 'rz', 'rxx', 'ryy', 'rzz'):
            if len(p) != 1 or len(ids) != len(name) - 1:
                raise Bad(name)
            out.append(Instr('gate', W.rot(B, name[1:].upper(), p[0]), ids))
            continue
        nc = len(name) - len(name.lstrip('c'))
        m = plain(B, name[nc:])
        if m is None or len(ids) != nc + 1 or p or name[nc:] in ('v', 'vi', 'si', 'ti', 'swap'):
            raise Bad(name)
        out.append(Instr('gate', m, ids[nc:], ids[:nc]))
    return out, nq


def aqt_ops(vc, ops):
    B, out = W.nb(vc), []
    for name, t, ids in ops:
        t = (t if isinstance(t, Num) else Num.const(t)) * B.PI if B is W.Exact else t * math.pi
        which = {'X': 'X', 'Y': 'Y', 'MS': 'XX'}.get(name)
        if which is None or len(ids) != len(which):
            raise Bad(f'{name} {ids}')
        out.append(Instr('gate', W.rot(B, which, t), ids))
    return out


IONQ_ROT = {'rx': 'X', 'ry': 'Y', 'rz': 'Z', 'xx': 'XX', 'yy': 'YY', 'zz': 'ZZ'}


def ionq_ops(vc, ops):
    B, out = W.nb(vc), []
    for g in ops:
        n = g['gate']
        if not set(g) <= {'gate', 'targets', 'controls', 'rotation'}:
            raise Bad(str(set(g)))
        if n in IONQ_ROT:
            m = W.rot(B, IONQ_ROT[n], g['rotation'])
        else:
            m = plain(B, n)
            if m is None or 'rotation' in g:
                raise Bad(n)
        if len(m) != 1 << len(g['targets']):
            raise Bad(f'{n} on {g["targets"]}')
        out.append(Instr('gate', m, g['targets'], g.get('controls', [])))
    return out


BRAKET = {  # name -> (operator, controls)
    'cnot': ('x', 1), 'ccnot': ('x', 2), 'cz': ('z', 1), 'cy': ('y', 1), 'cswap': ('swap', 1), 'cphaseshift': ('phaseshift', 1)}
BRAKET_DEVICE = {
    'Aspen-8': 'cz ccnot cnot cphaseshift cswap h phaseshift rx ry rz s si swap t ti x y z'.split(),
    'IonQ Device': 'x y z rx ry rz h cnot s si t ti v vi xx yy zz swap i'.split(),
    'SV1': 'cz ccnot cnot cphaseshift cswap h phaseshift rx ry rz s si swap t ti x y z v vi xx yy zz i cy unitary xy'.split()}


def braket_ops(vc, text, device):
    B, out = W.nb(vc), []
    prog = loads(vc, text)
    if prog['braketSchemaHeader'] != {'name': 'braket.ir.jaqcd.program', 'version': '1'}:
        raise Bad('header')
    for i in prog['instructions']:
        n = i['type']
        if n not in BRAKET_DEVICE[device]:
            raise Bad(f'{n} is not an instruction of {device}')
        base, nc = BRAKET.get(n, (n, 0))
        fields = {'type', 'targets' if base == 'swap' else 'target'} | ({'controls'} if nc > 1 else {'control'} if nc else set())
        if base in ('rx', 'ry', 'rz', 'phaseshift'):
            fields.add('angle')
        if set(i) != fields:
            raise Bad(f'{n} with fields {sorted(i)}')
        if base == 'phaseshift':
            m = diag(B, B.expi(i['angle']))
        elif base in ('rx', 'ry', 'rz'):
            m = W.rot(B, base[1].upper(), i['angle'])
        else:
            m = plain(B, base)
        out.append(Instr('gate', m, i['targets'] if base == 'swap' else [i['target']],
                         i['controls'] if nc > 1 else [i['control']] if nc else []))
    return out


# --- devices ------------------------------------------------------------------------------------------------------------
class Reply:
    """An HTTP reply of the fake server."""
    status_code = 200

    def __init__(self, data):
        self.data = data

    def raise_for_status(self):
        pass

    def json(self):
        return self.data


class Device:
    """A backend connected to a fake device."""
    module = None
    BIG = 1000

    def __init__(self, vc, num_runs=None, mapper=True, **kw):
        from projectq import MainEngine
        from projectq.cengines import BasicMapperEngine
        self.vc = vc
        self.subs = []
        self.outcomes = None              # [(bits by location, weight)]
        self.num_runs = num_runs or self.default_runs
        self.mapper = BasicMapperEngine()
        self.mapped = mapper
        self.mapper.current_mapping = {}
        self.backend = self.make(num_runs=self.num_runs, **kw)
        self.eng = MainEngine(self.backend, [self.mapper] if mapper else [])

    default_runs = 100
    measures_explicitly = False

    def mod(self):
        import importlib
        return importlib.import_module(self.module)

    def close(self):
        """Detach, so that nothing is submitted once the fake device is gone."""
        self.eng.next_engine = W.make_rec()
        self.eng.next_engine.main_engine = self.eng
        self.eng.active_qubits.clear()

    @contextlib.contextmanager
    def online(self):
        raise NotImplementedError

    def order(self):
        """Outcomes in the order in which the backend meets them."""
        return list(self.fractions())

    def stats(self):
        if self.outcomes is None:
            return [('0' * 8, self.num_runs)]
        return self.outcomes

    def fractions(self):
        tot = sum(w for _, w in self.stats())
        if self.vc.symbolic and isinstance(tot, int):
            return [(b, Num.const(Fraction(w, tot))) for b, w in self.stats()]
        return [(b, w if tot is self.total else w / tot) for b, w in self.stats()]

    total = None


@contextlib.contextmanager
def patched(*triples):
    old = []
    try:
        for obj, name, val in triples:
            old.append((obj, name, getattr(obj, name)))
            setattr(obj, name, val)
        yield
    finally:
        for obj, name, val in reversed(old):
            setattr(obj, name, val)


def intkey(bits):
    """Integer whose bit i is the value of location i."""
    return int(bits[::-1] or '0', 2)


@contextlib.contextmanager
def retrieving(dev, measured, ids, nq):
    """The submission happened earlier: results are fetched by the job id."""
    import importlib
    m = importlib.import_module(getattr(dev, 'client', None) or dev.module)
    dev.vc.priv(m, 'retrieve')
    dev.info = {'meas_qubit_ids': list(ids)}
    dev.subs.append(Submission([Instr('measure', targets=[x], slot=x) for x in measured], nq, dev.num_runs, list(measured)))
    with patched((m, 'retrieve', lambda *a, **kw: dev.result())), quiet():
        yield


class Http(Device):
    """Devices reached with the requests library."""
    client = None

    def serve(self, method, url, kw):
        raise NotImplementedError

    @contextlib.contextmanager
    def online(self):
        if self.vc.symbolic:
            m = self.mod() if self.client is None else __import__('importlib').import_module(self.client)
            self.vc.priv(m, 'send')

            def send(info, *a, **kw):
                self.take(info)
                return self.result()
            with patched((m, 'send', send)):
                yield
            return
        import requests

        def request(session, method, url, **kw):
            return Reply(self.serve(method, url, kw))
        with patched((requests.sessions.Session, 'request', request)), quiet():
            yield


class _Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def quiet():
    return contextlib.redirect_stdout(_Null())


class IBM(Http):
    name = 'IBM'
    module = 'projectq.backends._ibm._ibm'
    measures_explicitly = True

    def make(self, **kw):
        from projectq.backends import IBMBackend
        return IBMBackend(token='t', **kw)

    def take(self, info):
        vc = self.vc
        self.subs.append(Submission(ibm_json(vc, untoken(vc, info['json'])), info['nq'], info['shots']))
        self.sub_qasm = None

    def result(self):
        return {'data': {'counts': {hex(intkey(b)): w for b, w in self.stats()}}}

    def serve(self, method, url, kw):
        if url.endswith('loginWithToken'):
            return {'id': 'x'}
        if url.endswith('devices/v/1'):
            return [{'backend_name': 'ibmq_qasm_simulator', 'n_qubits': self.BIG, 'coupling_map': None, 'backend_version': '1'}]
        if url.endswith('/Jobs'):
            return {'objectStorageInfo': {'uploadUrl': 'http://up'}, 'id': 'job'}
        if url == 'http://up':
            d = json.loads(kw['data'])
            e, = d['experiments']
            n = {d['config']['n_qubits'], d['config']['memory_slots'], e['config']['n_qubits'], e['config']['memory_slots'],
                 len(e['header']['qubit_labels']), len(e['header']['clbit_labels'])}
            if len(n) != 1:
                raise Bad('inconsistent sizes')
            self.subs.append(Submission(ibm_json(self.vc, e['instructions']), n.pop(), d['config']['shots']))
            return {}
        if url.endswith('/job'):
            return {'status': 'COMPLETED'}
        if url.endswith('resultDownloadUrl'):
            return {'url': 'http://down'}
        if url == 'http://down':
            return {'results': [self.result()]}
        return {}


class AQT(Http):
    name = 'AQT'
    module = 'projectq.backends._aqt._aqt'

    def make(self, **kw):
        from projectq.backends import AQTBackend
        return AQTBackend(use_hardware=True, device='aqt_simulator', token='t', **kw)

    def take(self, info):
        self.subs.append(Submission(aqt_ops(self.vc, loads(self.vc, info['circuit'])), info['nq'], info['shots']))

    def order(self):
        return sorted(self.fractions())

    def result(self):
        out = []
        for b, w in self.stats():
            out += [intkey(b)] * w
        return out

    def serve(self, method, url, kw):
        d = kw['data']
        if 'id' in d:
            return {'status': 'finished', 'samples': self.result()}
        self.subs.append(Submission(aqt_ops(self.vc, json.loads(d['data'])), d['no_qubits'], d['repetitions']))
        return {'status': 'queued', 'id': 'job'}


class IonQ(Http):
    name = 'IonQ'
    module = 'projectq.backends._ionq._ionq'
    client = 'projectq.backends._ionq._ionq_http_client'

    def make(self, **kw):
        from projectq.backends import IonQBackend
        return IonQBackend(token='t', **kw)

    def take(self, info):
        self.info = info
        self.subs.append(Submission(ionq_ops(self.vc, untoken(self.vc, info['circuit'])), info['nq'], info['shots'],
                                    list(info['meas_mapped'])))

    def probs(self):
        out = {}
        for b, w in self.fractions():
            k = str(intkey(''.join(b[m] for m in self.subs[-1].measured)))
            out[k] = out[k] + w if k in out else w
        return out

    def result(self):
        return {'nq': self.subs[-1].nq, 'output_probs': self.probs(), 'meas_mapped': self.subs[-1].measured,
                'meas_qubit_ids': list(self.info['meas_qubit_ids'])}

    def serve(self, method, url, kw):
        if url.endswith('/backends'):
            return []
        if url.endswith('/jobs'):
            j = self.job = kw['json']
            self.subs.append(Submission(ionq_ops(self.vc, j['body']['circuit']), j['body']['qubits'], j['shots'],
                                        list(j['registers']['meas_mapped'])))
            return {'status': 'ready', 'id': 'job'}
        return {'status': 'completed', 'qubits': self.subs[-1].nq, 'registers': self.job['registers'],
                'metadata': self.job['metadata'], 'data': {'registers': {'meas_mapped': self.probs()}}}


class Braket(Device):
    name = 'Braket'
    module = 'projectq.backends._awsbraket._awsbraket'
    default_runs = 1000

    def make(self, device='SV1', **kw):
        from projectq.backends import AWSBraketBackend
        self.device = device
        return AWSBraketBackend(use_hardware=device != 'SV1', device=device, s3_folder=['a', 'b'],
                                credentials={'AWS_ACCESS_KEY_ID': 'a', 'AWS_SECRET_KEY': 'b'}, **kw)

    @contextlib.contextmanager
    def online(self):
        if self.vc.symbolic:
            m = self.mod()
            self.vc.priv(m, 'send')

            def send(info, *a, **kw):
                self.subs.append(Submission(braket_ops(self.vc, info['circuit'], self.device), None, info['shots']))
                return self.result()
            with patched((m, 'send', send)):
                yield
            return
        import boto3
        with patched((boto3, 'client', lambda service, **kw: self)), quiet():
            yield

    def result(self):
        return dict(self.fractions())

    # the boto3 client
    def search_devices(self, filters):
        return {'devices': [{'deviceArn': 'arn', 'deviceName': self.device,
                             'deviceType': 'SIMULATOR' if self.device == 'SV1' else 'QPU'}]}

    def get_device(self, deviceArn):
        const = {'braketSchemaHeader': {'const': {}}}
        return {'deviceType': 'SIMULATOR' if self.device == 'SV1' else 'QPU', 'deviceCapabilities': json.dumps(
            {'braketSchemaHeader': {'version': '1'}, 'paradigm': {'qubitCount': self.BIG, 'connectivity': {'connectivityGraph': {}}},
             'deviceParameters': {'properties': const, 'definitions': {'GateModelParameters': {'properties': const}}}})}

    def create_quantum_task(self, action, shots, **kw):
        self.subs.append(Submission(braket_ops(self.vc, action, self.device), None, shots))
        return {'quantumTaskArn': 'arn:aws:braket:us-east-1:1:task'}

    def get_quantum_task(self, quantumTaskArn):
        return {'status': 'COMPLETED', 'outputS3Bucket': 'a', 'outputS3Directory': 'b', 'deviceArn': 'arn'}

    def get_object(self, Bucket, Key):
        return {'Body': self}

    def read(self):
        if self.device != 'SV1':
            return json.dumps({'measurementProbabilities': dict(self.fractions())})
        return json.dumps({'measurements': [[int(x) for x in b] for b, w in self.stats() for _ in range(w)]})


class Azure(Device):
    module = 'projectq.backends._azure._azure_quantum'
    current_availability = 'Available'

    def make(self, **kw):
        from projectq.backends import AzureQuantumBackend
        return AzureQuantumBackend(workspace=self, target_name=self.target, **kw)

    def append_user_agent(self, name):
        pass

    @contextlib.contextmanager
    def online(self):
        from projectq.backends import AzureQuantumBackend
        self.vc.priv(AzureQuantumBackend, '_target_factory')
        with patched((AzureQuantumBackend, '_target_factory', lambda *a, **kw: self)), quiet():
            yield

    def submit(self, circuit, num_shots, metadata=None, **kw):
        self.take(circuit, num_shots, metadata)
        return self

    def get_results(self, **kw):
        return self.result()


class AzureIonQ(Azure):
    name = 'Azure IonQ'
    target = 'ionq.simulator'

    def take(self, circuit, shots, metadata):
        self.subs.append(Submission(ionq_ops(self.vc, circuit['circuit']), circuit['qubits'], shots,
                                    list(metadata['meas_map'])))

    def result(self):
        out = {}
        for b, w in self.fractions():
            k = str(intkey(b))
            out[k] = out[k] + w if k in out else w
        return {'histogram': out}


class Quantinuum(Azure):
    name = 'Azure Quantinuum'
    target = 'quantinuum.sim.h1-1sc'
    measures_explicitly = True

    def take(self, circuit, shots, metadata):
        instrs, nq = quantinuum_qasm(self.vc, circuit)
        self.subs.append(Submission(instrs, nq, shots))

    def result(self):
        s = self.subs[-1]
        slots = {i.slot: i.targets[0] for i in s.instrs if i.kind == 'measure'}
        out = []
        for b, w in self.stats():
            text = ''.join(b[slots[k]] if k in slots else '0' for k in range(s.nq))[::-1]
            out += [text] * w
        return {'c': out}


def unsupported_import():
    raise Unsupported('device module')


ALL = {'IBM': IBM, 'AQT': AQT, 'IonQ': IonQ, 'Braket Aspen-8': Braket, 'Braket IonQ Device': Braket, 'Braket SV1': Braket,
       'Azure IonQ': AzureIonQ, 'Azure Quantinuum': Quantinuum}


def device(vc, which, **kw):
    if which.startswith('Braket'):
        kw['device'] = which[7:]
    return ALL[which](vc, **kw)
