'''
C19: histories of seeded calls on real objects, judged by Repro.tla.
'''
import hashlib
import json
import os
import random
import subprocess
import sys

import core
from core import CORES, SEED, THOROUGH, log, limit
from lib import (
    np, Unitary, UnitaryDefinitions, UnitaryPrimitive, UnitarySequence,
    UnitarySequenceEntry, ParameterizedUnitaryDefinitions)
from stoqrec import Compiler, Verification
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm
import stoqcheck

P = ParameterizedUnitaryDefinitions
D = UnitaryDefinitions


def seed_all(s):
    np.random.seed(s)
    random.seed(s)


def rnd_unitary(dim, seed):
    rs = np.random.RandomState(seed)
    a = rs.normal(size=(dim, dim)) + 1j * rs.normal(size=(dim, dim))
    return np.linalg.qr(a)[0]


def see_unitary(u):
    if isinstance(u, Unitary):
        return ('U', u.get_dimension(), np.round(u.get_matrix(), 9).tobytes(),
                u.get_operation_name(),
                u.get_display_name(), u.get_qasm(), u.get_jaqal())
    pars = u.get_parameters()
    ends = []
    for f in (0.0, 0.37, 1.0):
        vals = [p.min_value + f * (p.max_value - p.min_value)
                if hasattr(p, 'min_value') else f for p in pars]
        ends.append(np.round(u.as_unitary(vals).get_matrix(), 9).tobytes())
    return ('P', u.get_dimension(), u.get_operation_name(),
            tuple((p.get_parameter_name(), p.get_is_angle()) for p in pars),
            tuple(ends))


def see_primitive(p):
    al = p.get_allowed_apply_to()
    return (see_unitary(p.get_unitary()),
            None if al is None else tuple(tuple(int(x) for x in q)
                                          for q in al))


def see(x):
    '''Everything observable about an argument.'''
    if isinstance(x, UnitaryPrimitive):
        return see_primitive(x)
    if isinstance(x, Unitary):
        return see_unitary(x)
    if isinstance(x, dict):
        return ('D', tuple((id(k), see(k), v) for k, v in x.items()))
    if isinstance(x, np.ndarray) and x.dtype == object:
        return ('A', tuple((id(y), see(y)) for y in x))
    if isinstance(x, np.ndarray):
        return ('N', x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return ('L', tuple((id(y) if not isinstance(y, (int, float)) else 0,
                            see(y)) for y in x))
    if isinstance(x, HamiltonianTerm):
        return ('T', x.get_matrix().tobytes(), x.get_coefficient(),
                x.get_normalized_matrix().tobytes())
    if isinstance(x, Hamiltonian):
        return ('H', x.get_dimension(), np.round(
            x.get_time_evolution_operator(0.3).get_matrix(), 12).tobytes(),
            str([see_unitary(e.get_full_unitary(x.get_dimension())) for e in
                 x.get_trotter_sequence(0.4, 1).get_sequence_entries()]))
    return repr(x)


def see_sequence(s):
    return tuple((tuple(int(q) for q in e.get_apply_to()),
                  see_unitary(e.get_full_unitary(s.get_dimension())))
                 for e in s.get_sequence_entries())


def see_result(r):
    if isinstance(r, UnitarySequence):
        return see_sequence(r), []
    return (see_sequence(r.compiled_sequence),
            tuple(float(x) for x in r.cost_by_step)), \
        [int(round(float(x) * 1e9)) for x in r.cost_by_step]


class History:
    def __init__(self):
        self.events, self.labels, self.ix = [], [], {}
        self.kept = []

    def num(self, x):
        return self.ix.setdefault(x, len(self.ix) + 1)

    @staticmethod
    def digest(x):
        return hashlib.sha256(repr(x).encode()).hexdigest()

    def call(self, ask, rng, lim, args, fn, label, prepare=None):
        before = self.num(see(args))
        seed_all(rng)
        with limit(120):
            r = fn()
        out, costs = see_result(r)
        self.events.append({
            'ask': repr(ask), 'rng': rng, 'lim': lim,
            'out': self.digest(out), 'before': before,
            'after': self.num(see(args)), 'costs': costs})
        self.labels.append(label)
        if len(self.events) % 3 == 1:
            spoil(r)
        else:
            self.kept.append((self.events[-1], r))

    def close(self):
        '''Looks once more at what was returned.'''
        for e in self.events:
            e['later'] = e['out']
        for e, r in self.kept:
            e['later'] = self.digest(see_result(r)[0])
        return self.events, self.labels


def spoil(r):
    '''The caller may do with a result as they like.'''
    seq = r
    if not isinstance(r, UnitarySequence):
        seq = r.compiled_sequence
        r.cost_by_step[:] = [5.0] + r.cost_by_step[:3]
    q = 0 if seq.get_dimension() == 2 else 1
    es = seq.get_sequence_entries()
    es[:] = es[:1] * 3
    seq.append_first(UnitarySequenceEntry(D.rx(0.7), [q]))
    seq.remove_last()
    seq.append_last(UnitarySequenceEntry(D.rx(1.7), [q]))
    seq.undo()
    seq.remove_first()
    seq.append_last(UnitarySequenceEntry(D.rx(2.7), [q]))


def prims2():
    return [UnitaryPrimitive(P.rotation_xy()),
            UnitaryPrimitive(D.cnot(), [[0, 1], [1, 0]]),
            UnitaryPrimitive(D.h(), []),
            UnitaryPrimitive(P.xx()),
            UnitaryPrimitive(D.rx(0.3))]


WEIGHTS = [0.3, 0.2, 0.1, 0.25, 0.15]


def search_history(seed):
    rs = np.random.RandomState(seed)
    h = History()
    targets = [Unitary(4, rnd_unitary(4, seed * 10 + i)) for i in range(2)]
    comps = []
    for variant in range(4):
        prims = prims2()
        weights = [None, list(WEIGHTS), list(WEIGHTS),
                   np.array(WEIGHTS)][variant]
        given = prims
        if variant == 3:
            given = np.empty(5, dtype=object)
            for i, p in enumerate(prims):
                given[i] = p
        kw = [{}, {}, dict(append_probability=0.7, annealing_rate=2.0),
              dict(annealing_rate=5.0)][variant]

        def make(given=given, weights=weights, kw=kw):
            return Compiler(4, given, weights, **kw)
        comps.append((variant, prims, given, weights, kw, make))
    shared = [c[5]() for c in comps]
    # compilers whose lists change after construction
    changed = []
    for variant, prims, given, weights, kw, make in comps[:3]:
        own = list(given)
        w = None if weights is None else list(weights)
        c = Compiler(4, own, w, **kw)
        if rs.rand() < 0.5:
            own.append(UnitaryPrimitive(D.sigmax()))
            if w is not None:
                w.append(0.0)
        own.pop(0)
        own.reverse()
        if w is not None:
            w[0], w[1] = 0.0, 0.9
        changed.append(c)
    n = 80 if THOROUGH else 36
    asked = []
    for i in range(n):
        if asked and rs.rand() < 0.6:
            # ask again: perhaps with another limit
            v, rng, lim, t, thr, kind = asked[rs.randint(len(asked))]
            if rs.rand() < 0.3:
                lim = int(rs.choice([0, 1, 3, 8, 15]))
        else:
            v = int(rs.randint(4))
            rng = int(rs.randint(4))
            lim = int(rs.choice([0, 1, 3, 8, 15]))
            t = int(rs.randint(2))
            thr = [None, 0.6, 0.9, 1.0][int(rs.randint(4))]
            kind = str(rs.choice(['plain', 'plain', 'layered', 'rav', 'lrav',
                                  'xeb']))
        asked.append((v, rng, lim, t, thr, kind))
        variant, prims, given, weights, kw, make = comps[v]
        which = rs.choice(['shared', 'fresh', 'changed'])
        obj = (shared[v] if which == 'shared' else
               changed[v] if which == 'changed' and v < 3 else make())
        counts = {prims[0]: 1, prims[3]: 2, prims[1]: 0, prims[4]: 1}
        label = '%s %s variant=%d limit=%d rng=%d thr=%s' % (
            kind, which, v, lim, rng, thr)
        args = [targets, prims, given, weights, counts]
        if kind == 'plain':
            h.call(('plain', v, t, thr), rng, lim, args, lambda:
                   obj.compile(targets[t], thr, lim), label)
        elif kind == 'layered':
            h.call(('layered', v if v > 1 else 0, t, thr), rng, lim, args,
                   lambda: obj.compile_layered(targets[t], counts, thr, lim),
                   label)
        elif kind == 'rav':
            h.call(('rav', 1 if v == 3 else v, thr), rng, max(lim, 1), args,
                   lambda: Verification.generate_rav_sequence(
                       4, given, 4, thr, 0.5 if v != 2 else 0.7, weights,
                       max(lim, 1)), label)
        elif kind == 'lrav':
            h.call(('lrav', thr), rng, max(lim, 1), args, lambda:
                   Verification.generate_layered_rav_sequence(
                       4, counts, 2, thr, 0.5, max(lim, 1)), label)
        else:
            h.call(('xeb', 3), rng, 0, args, lambda:
                   Verification.generate_xeb_sequence(4, counts, 3), label)
    return h.close()


def pauli(s):
    m = {'I': np.eye(2), 'X': np.array([[0, 1], [1, 0]]),
         'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.diag([1, -1])}
    out = np.eye(1)
    for c in s:
        out = np.kron(out, m[c])
    return out


def hamiltonian_history(seed):
    rs = np.random.RandomState(seed)
    h = History()
    terms = [HamiltonianTerm(0.7 * pauli('XX')),
             HamiltonianTerm(1.2 * pauli('ZI')),
             HamiltonianTerm(-0.4 * pauli('YZ'))]

    def make():
        return Hamiltonian(list(terms))
    own = list(terms)
    changed = Hamiltonian(own)
    own.pop()
    own.append(terms[0])
    shared = make()
    reps_of = [7, int(rs.randint(12, 40)), int(rs.randint(40, 150))]
    for i in range(50 if THOROUGH else 24):
        rng = int(rs.randint(3))
        which = rs.choice(['shared', 'fresh', 'changed'])
        obj = {'shared': shared, 'changed': changed}.get(which) or make()
        kind = rs.choice(['trotter', 'qdrift', 'ideal', 'rav', 'stoq'],
                         p=[.3, .3, .1, .15, .15])
        label = '%s %s rng=%d' % (kind, which, rng)
        args = [terms, obj]
        sim = bool(rs.rand() < 0.5)
        reps = int(reps_of[rs.randint(3)])
        if kind == 'trotter':
            h.call(('trotter', sim, reps), rng, 0, args, lambda:
                   obj.get_trotter_sequence(0.5, reps, sim), label)
        elif kind == 'qdrift':
            h.call(('qdrift', reps), rng, 0, args, lambda:
                   obj.get_qdrift_sequence(0.5, reps), label)
        elif kind == 'ideal':
            h.call(('ideal',), rng, 0, args, lambda:
                   obj.get_ideal_sequence(0.5, 2), label)
        elif kind == 'stoq':
            h.call(('stoq', sim), rng, 10000, args, lambda:
                   obj.compile_stoq_sequence(0.3, 0.4, 0.85, sim), label)
        else:
            h.call(('hrav', sim), rng, 10000, args, lambda:
                   obj.compile_rav_sequence(0.2, 0.4, 0.85, sim), label)
    return h.close()


def tiny(nq, kind):
    """Primitives and weights of other sizes."""
    if nq == 1:
        return [UnitaryPrimitive(P.rotation_xyz()), UnitaryPrimitive(D.h()),
                UnitaryPrimitive(D.h())], [0.5, 0.25, 0.25]
    return [UnitaryPrimitive(P.gms(3)), UnitaryPrimitive(
        P.rotation_xy(), [[2], [0]]), UnitaryPrimitive(D.ccnot())], None


def long_history(seed):
    """Fewer objects, longer searches; one and three qubits."""
    rs = np.random.RandomState(seed + 77)
    h = History()
    for nq in (1, 3):
        dim = 2 ** nq
        prims, weights = tiny(nq, 0)
        counts = dict(zip(prims, (1, 0, 2)))
        target = Unitary(dim, rnd_unitary(dim, seed + nq))
        kw = dict(annealing_rate=[0.02, 1.0, 50.0][rs.randint(3)],
                  append_probability=[0.5, 0.6][rs.randint(2)])
        shared = Compiler(dim, prims, weights, **kw)
        args = [target, prims, weights, counts]
        lims = [0, 7, 64, 128, 300, 650] if nq == 1 else [0, 7, 40, 110]
        for i in range(20 if nq == 1 else 12):
            lim = int(rs.choice(lims))
            rng = int(rs.randint(2))
            thr = [None, 0.9999, 0.97, 1.0][rs.randint(4)]
            fresh = rs.rand() < 0.4
            obj = Compiler(dim, prims, weights, **kw) if fresh else shared
            label = '%dq limit=%d rng=%d thr=%s fresh=%s' % (
                nq, lim, rng, thr, fresh)
            kind = rs.choice(['plain', 'layered', 'rav', 'lrav'],
                             p=[.4, .3, .2, .1])
            label = kind + ' ' + label
            if kind == 'plain':
                h.call(('plain', nq, thr), rng, lim, args,
                       lambda: obj.compile(target, thr, lim), label)
            elif kind == 'layered':
                h.call(('layered', nq, thr), rng, lim // 3, args,
                       lambda: obj.compile_layered(
                           target, counts, thr, lim // 3), label)
            elif kind == 'rav':
                pre = int(rs.choice([1, 9]))
                h.call(('rav', nq, thr, pre), rng, max(lim, 1), args,
                       lambda: Verification.generate_rav_sequence(
                           dim, prims, pre, thr, 0.5, weights, max(lim, 1)),
                       label)
            else:
                h.call(('lrav', nq, thr), rng, max(lim // 3, 1), args,
                       lambda: Verification.generate_layered_rav_sequence(
                           dim, counts, 2, thr, 0.5, max(lim // 3, 1)),
                       label)
    return h.close()


def sweep_history(seed):
    """Every kind of search by a new object, and by one that has searched
    before."""
    rs = np.random.RandomState(seed + 99)
    h = History()
    for nq, rate in ((1, 0.6), (2, 0.25)):
        dim = 2 ** nq
        prims = tiny(1, 0)[0] if nq == 1 else prims2()
        counts = {prims[0]: 1, prims[1]: nq}
        targets = [Unitary(dim, rnd_unitary(dim, seed + i)) for i in (1, 2)]
        args = [targets, prims, counts]
        used = Compiler(dim, prims, annealing_rate=rate)
        asks = [(k, thr, lim) for k in ('plain', 'layered')
                for thr in (None, 1.0, 0.97, 0.5, 0.0)
                for lim in ((6, 45) if k == 'plain' else (6, 25))]
        rs.shuffle(asks)
        for kind, thr, lim in asks:
            rng = int(rs.randint(100))
            lim = int(lim)
            thr = None if thr is None else float(thr)
            for obj, how in ((Compiler(dim, prims, annealing_rate=rate),
                              'new'), (used, 'used')):
                if kind == 'plain':
                    f = (lambda: obj.compile(targets[0], thr, lim))
                else:
                    f = (lambda: obj.compile_layered(
                        targets[0], counts, thr, lim))
                h.call((str(kind), nq, thr), rng, lim, args, f,
                       '%s %dq thr=%s limit=%d rng=%d %s' % (
                           kind, nq, thr, lim, rng, how))
            used.compile(targets[1], 0.9999, int(rs.randint(30)))
    return h.close()


def job(j):
    return {'w': sweep_history, 's': search_history, 'h': hamiltonian_history,
            'l': long_history}[j[0]](j[1])


def guarded(j):
    try:
        return job(j)
    except Exception as e:
        return core.caught(e)


def child(j, hashseed):
    """The history of job j in a process of its own."""
    return subprocess.Popen(
        [sys.executable, os.path.abspath(__file__), json.dumps(j)],
        stdout=subprocess.PIPE, env=dict(
            os.environ, PYTHONHASHSEED=str(hashseed),
            OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1'))


def result(p):
    out = p.communicate()[0].decode()
    line = [x for x in out.splitlines() if x.startswith('@@')]
    if p.returncode or not line:
        raise core.MachineryError('history process: %s' % out[-300:])
    return json.loads(line[-1][2:])


def merge(first, second):
    """Both histories as one, the second in another process."""
    ix, out = {}, []
    for proc, (events, labels) in enumerate((first, second)):
        for e in events:
            e = dict(e)
            for k, kind in (('ask', 'ask'), ('out', 'out'),
                            ('later', 'out')):
                e[k] = ix.setdefault((kind, e[k]), len(ix) + 1)
            out.append(e)
    return out, first[1] + ['second process: ' + x for x in second[1]]


def run(check):
    stoqcheck.prepare_gates()
    n = 60 if THOROUGH else 10
    jobs = [['s', 1000 * SEED + i] for i in range(n)] + [
        ['h', 1000 * SEED + i] for i in range(n // 2)] + [
        ['l', 1000 * SEED + i] for i in range(n // 2 + 1)] + [
        ['w', 1000 * SEED + i] for i in range(n // 4 + 1)]
    handles = []
    for i in range(0, len(jobs), CORES // 2):
        now = jobs[i:i + CORES // 2]
        ps = [(child(j, 1), child(j, 2)) for j in now]
        for j, (p, q) in zip(now, ps):
            r, r2 = result(p), result(q)
            err = [x['error'] for x in (r, r2) if isinstance(x, dict)]
            if err:
                check.violation('a seeded call failed: %s' % err[0], j)
                continue
            r = merge(r, r2)
            handles.append((j, r, core.tlc_start(
                'MC', core.module('MC', 'Repro'),
                'SPECIFICATION Spec\nINVARIANT Verdict\n'
                'CHECK_DEADLOCK FALSE\n', data={'hist.json': r[0]})))
        if len(handles) >= 8:
            finish(check, handles)
            handles = []
    finish(check, handles)
    rng = np.random.RandomState(1000 * SEED + 19)
    cfgs = stoqcheck.generic(rng, 120 if THOROUGH else 28,
                             ('plain', 'layered', 'rav', 'lrav'))
    stoqcheck.traces(check, cfgs + stoqcheck.cfg_long(rng))


def finish(check, handles):
    for j, (events, labels), h in handles:
        tr = core.tlc_wait(h)
        check.add('states', tr.distinct)
        check.add('transitions', tr.generated)
        check.add('events', len(events))
        pairs = len(events) - len({(e['ask'], e['rng'], e['lim'])
                                   for e in events})
        check.add('repeated_questions', pairs)
        check.add('traces_validated_against_impl')
        for v in tr.records:
            k = v['event'] - 1
            check.violation('history %s, call %d (%s): %s' % (
                j, k, labels[k], ' '.join(v['fails'])),
                {'history': labels[:k + 1], 'verdict': v})
    if handles:
        check.sample(' / '.join(handles[0][1][1][:6]))


if __name__ == '__main__':
    print('@@' + json.dumps(guarded(json.loads(sys.argv[1]))))
