'''
Recording of searches of the real compiler for StoqTrace.tla.

The state after k steps is obtained by running the public entry point again
with the step limit k from the same random state.
'''
import copy
import random

from lib import (
    np, Unitary, UnitaryDefinitions, UnitaryPrimitive, UnitarySequence,
    UnitarySequenceEntry, ParameterizedUnitary, ParameterizedUnitaryParameter,
    ParameterizedUnitaryDefinitions, make_gate, cmat)
from stoqcompiler.compiler import Compiler
from stoqcompiler.verification import Verification
import core
from core import limit

SCALE = 20000
_gates = {}


def gate_tables(gs):
    '''Exact matrices of gates of GateLib, from TLC.'''
    gs = [list(g) for g in gs]
    need = [g for g in gs if repr(g) not in _gates]
    if need:
        body = core.module('MC', 'GateLib, Json', (
            'Gs == %s\nASSUME \\A i \\in 1..Len(Gs) : PrintT("@@" \\o '
            'ToJson([i |-> i, m |-> GateMat(Gs[i]), w |-> GateWidth(Gs[i])]))'
            % core.tla(need)))
        res = core.tlc('MC', body, '')
        for r in res.records:
            _gates[repr(need[r['i'] - 1])] = (r['m'], r['w'])
    return {repr(g): _gates[repr(g)] for g in gs}


def fix(g, allowed=None, weight=None):
    return dict(kind='fix', g=list(g), allowed=allowed, weight=weight)


def par(name, w=1, lo=None, hi=None, allowed=None, weight=None):
    return dict(kind='par', name=name, w=w, lo=lo, hi=hi, allowed=allowed,
                weight=weight)


def build_primitive(p):
    if p['kind'] == 'fix':
        u = make_gate(p['g'], _gates[repr(p['g'])][0])
        p['w'] = _gates[repr(p['g'])][1]
        p['np'] = 0
    else:
        n = p['name']
        D, PD = UnitaryDefinitions, ParameterizedUnitaryDefinitions
        tau = 2 * np.pi
        if n == 'rxy':
            u, rng = PD.rotation_xy(), [(0, tau)] * 2
        elif n == 'rxyz':
            u, rng = PD.rotation_xyz(), [(0, tau)] * 3
        elif n == 'xx':
            u, rng = PD.xx(), [(0, tau)]
            p['w'] = 2
        elif n == 'gms':
            u, rng = PD.gms(p['w']), [(0, tau)]
        else:
            f = {'rx': D.rx, 'ry': D.ry, 'rz': D.rz}[n]
            u = ParameterizedUnitary(
                2, lambda t, f=f: f(t).get_matrix(),
                [ParameterizedUnitaryParameter('a', p['lo'], p['hi'], True)],
                'my_%s_%r' % (n, p['lo']))
            rng = [(p['lo'], p['hi'])]
        p['ranges'] = rng
        p['np'] = len(rng)
        p['opname'] = u.get_operation_name()
        p['parnames'] = [q.get_parameter_name() for q in u.get_parameters()]
    al = p['allowed']
    return UnitaryPrimitive(u, None if al is None else
                            [list(q) for q in al])


def json_primitive(p, default_weight):
    return {'np': p['np'], 'w': p['w'], 'g': p.get('g', []),
            'name': p.get('name', ''), 'h': [], 'any': p['allowed'] is None,
            'allowed': p['allowed'] or [],
            'weight': int(round(1e6 * (p['weight'] if p['weight'] is not None
                                       else default_weight)))}


def fixed(m):
    '''A unitary matrix at the scale of Fix.tla.'''
    return [[[int(round(z.real * SCALE)), int(round(z.imag * SCALE))]
             for z in row] for row in m]


def c9(x):
    return int(round(float(x) * 1e9))


class Table:
    '''Interned entries of one case.'''
    def __init__(self, dim, prims):
        self.dim, self.prims = dim, prims
        self.ix, self.rows = {}, []

    def add(self, entry):
        u = entry.get_full_unitary(self.dim)
        m = u.get_matrix()
        q = [int(x) for x in entry.get_apply_to()]
        pars, frac, cont = [], [], []
        for p in self.prims:
            if p['kind'] == 'par' and p['opname'] == u.get_operation_name():
                for name, (lo, hi) in zip(p['parnames'], p['ranges']):
                    v = u.get_parameter_value(name)
                    if v is None:
                        continue
                    v = float(v[0])
                    pars.append(v)
                    f = (v - lo) / (hi - lo) if hi > lo else (
                        0.0 if v == lo else 9.0)
                    frac.append(int(np.clip(np.floor(f * 1e9 + 1e-3),
                                            -2e9, 2e9)))
                    if hi > lo:
                        cont.append(frac[-1])
                break
        key = (tuple(q), np.round(m, 7).tobytes() if pars == [] else
               tuple(np.round(pars, 9)), len(pars))
        if pars:
            key += (np.round(m, 6).tobytes(),)
        if key not in self.ix:
            self.rows.append({
                'q': q, 'par': [int(round(v * SCALE)) for v in pars],
                'frac': frac, 'cf': cont, 'm': fixed(m)})
            self.ix[key] = len(self.rows)
        return self.ix[key]

    def ids(self, seq):
        return [self.add(e) for e in seq.get_sequence_entries()]


def seed_all(seed):
    np.random.seed(seed % (2 ** 32))
    random.seed(seed)


def target_unitary(cfg, rs):
    dim = 2 ** cfg['nq']
    if cfg.get('target') is not None:
        seq = UnitarySequence(dim)
        for t in cfg['target']:
            gate_tables([t['g']])
            seq.append_last(UnitarySequenceEntry(
                make_gate(t['g'], _gates[repr(list(t['g']))][0]),
                list(t['q'])))
        return Unitary(dim, seq.product().get_matrix() * np.exp(0.7j))
    if cfg.get('near') is not None:
        # a small rotation
        a = cfg['near'] / 2
        return Unitary(dim, np.kron(np.eye(dim // 2), np.diag(
            [np.exp(-1j * a), np.exp(1j * a)])))
    # a random target that does not come from the code under test
    a = rs.normal(size=(dim, dim)) + 1j * rs.normal(size=(dim, dim))
    q, r = np.linalg.qr(a)
    return Unitary(dim, q * (np.diag(r) / abs(np.diag(r))))


def record(cfg):
    '''Runs the configuration and returns a case for StoqTrace, or a dict
    with 'error' when the code failed.'''
    try:
        with limit(cfg.get('seconds', 120)):
            return _record(cfg)
    except Exception as e:
        return dict(core.caught(e), cfg=cfg)


def _record(cfg):
    nq = cfg['nq']
    dim = 2 ** nq
    prims = copy.deepcopy(cfg['prims'])
    gate_tables([p['g'] for p in prims if p['kind'] == 'fix'])
    real = [build_primitive(p) for p in prims]
    weights = ([p['weight'] for p in prims]
               if prims[0]['weight'] is not None else None)
    kind = cfg.get('kind', 'plain')
    layered = kind in ('layered', 'lrav', 'xeb')
    rav = kind in ('rav', 'lrav', 'xeb')
    counts = cfg.get('counts', [])
    rs = np.random.RandomState(cfg['seed'] % (2 ** 32))
    K = cfg['steps']
    thr = cfg.get('thr')
    app = cfg.get('app', 0.5)
    rate = cfg.get('rate', 0.1)
    target = None if rav else target_unitary(cfg, rs)
    cdict = {u: n for u, n in zip(real, counts)}
    pass_prims = real
    if cfg.get('array'):
        pass_prims = np.empty(len(real), dtype=object)
        for i, u in enumerate(real):
            pass_prims[i] = u

    shared = []

    def run(k):
        seed_all(cfg['seed'])
        lim = {} if k is None else {'max_step_count': k}
        if kind == 'rav':
            return Verification.generate_rav_sequence(
                dim, pass_prims, cfg['pre'], thr,
                stoq_append_probability=app,
                unitary_primitive_probabilities=weights, **lim)
        if kind == 'lrav':
            return Verification.generate_layered_rav_sequence(
                dim, cdict, cfg['pre'], thr, stoq_append_probability=app,
                **lim)
        if kind == 'xeb':
            return Verification.generate_xeb_sequence(dim, cdict, cfg['pre'])
        kw = {}
        if 'app' in cfg:
            kw['append_probability'] = app
        if 'rate' in cfg:
            kw['annealing_rate'] = rate
        # one object for all limits, or one object for each
        comp = (shared[0] if shared and cfg.get('hold')
                else Compiler(dim, pass_prims, weights, **kw))
        shared[:] = [comp]
        if cfg.get('reuse'):
            # an earlier compilation by the same object must not matter
            comp.compile(target_unitary({'nq': nq}, np.random.RandomState(
                cfg['seed'])), max_step_count=cfg['reuse'])
            seed_all(cfg['seed'])
        if thr is None and cfg.get('nothr', True):
            args = [target] + ([cdict] if kind == 'layered' else [])
            return (comp.compile_layered if kind == 'layered'
                    else comp.compile)(*args, **lim)
        if kind == 'layered':
            return comp.compile_layered(target, cdict, thr, **lim)
        return comp.compile(target, thr, **lim)

    table = Table(dim, prims)
    states, costs, fresh, whole, lims = [], [], [], [], []
    pre, held = [], []
    aim = target
    if cfg.get('full'):
        # without a limit of one's own: some steps at the start and the end
        n = len(run(None).cost_by_step)
        want = sorted(set(list(range(0, min(n, 4) + 1)) + [
            x for x in (n // 2, n // 2 + 1, n - 2, n - 1, n, n + 1, n + 70)
            if x >= 0])) + [None]
    else:
        want = sorted(set(list(range(K + 1)) + list(cfg.get('more', []))))
    for k in want:
        r = run(k)
        held.append(r)
        ids = table.ids(r.compiled_sequence)
        if k == 0:
            pre = ids if rav else []
            if rav:
                aim = Unitary(dim, copy.deepcopy(
                    r.compiled_sequence).product().inverse().get_matrix())
            start = c9(aim.distance_from(Unitary.identity(dim)))
        states.append(ids)
        lims.append(2000000000 if k is None else k)
        costs.append([c9(x) for x in r.cost_by_step])
        rest = r.compiled_sequence.get_sequence_entries()[len(pre):]
        fresh.append(c9(aim.distance_from(
            UnitarySequence(dim, rest).product())))
        whole.append(c9(r.compiled_sequence.product().distance_from(
            Unitary.identity(dim))))
        if k is not None and len(costs[-1]) < k and not cfg.get('full'):
            break
    # what was returned does not change when the search goes on elsewhere
    again = [[table.ids(r.compiled_sequence), [c9(x) for x in r.cost_by_step]]
             for r in held]
    exact = all(p['kind'] == 'fix' for p in prims) and (
        rav or cfg.get('target') is not None)
    dw = 1.0 / max(1, sum(1 for p in prims
                          if p['allowed'] is None or p['allowed']))
    return {
        'nq': nq, 'exact': exact, 'layered': layered, 'rav': rav,
        'counts': counts, 'b': sum(counts) if layered else 1,
        'prims': [json_primitive(p, dw) for p in prims],
        'ents': table.rows, 'states': states, 'costs': costs, 'fresh': fresh,
        'again': again, 'whole': whole, 'lims': lims,
        'prefix': pre, 'preblocks': cfg.get('pre', 0), 'start': start,
        'target': cfg.get('target') or [],
        'tf': [] if rav else fixed(aim.get_matrix()),
        'thr': int(round((1.0 if thr is None else thr) * 1e9)),
        'rate': int(min(1e8, round((0.1 if rav else rate) * 1e4))),
        'cap': min(1000000, (2 ** dim) ** 2),
        'app': int(round(app * 1e6)), 'enum': bool(cfg.get('enum', False)),
        'ftol': cfg.get('ftol', 100),
        'stopped': len(costs[-1]) < lims[-1],
    }


def validate(cases, workers=8, timeout=600):
    '''Judges the cases with TLC; returns the verdicts in order.'''
    body = core.module('MC', 'StoqTrace')
    cfg = 'SPECIFICATION Spec\nINVARIANT Verdict\nCHECK_DEADLOCK FALSE\n'
    res = core.tlc('MC', body, cfg, data={'cases.json': cases},
                   workers=workers, timeout=timeout, heap='8g')
    out = [None] * len(cases)
    for r in res.records:
        out[r['case'] - 1] = r
    missing = [i for i, v in enumerate(out) if v is None]
    if missing:
        raise core.MachineryError('no verdict for cases %s: %s' % (
            missing[:5], res.brief()))
    return out, res
