'''
C14 C15 C16 C17: Hamiltonians.  Exact evolutions and the builders' state
machines come from Hamil.tla; recorded sequences are judged by HamilTrace.tla,
searches by StoqTrace.tla, frequencies by Stats.tla.
'''
import itertools
import multiprocessing

import core
from core import CORES, SEED, THOROUGH, log, tla, limit
from lib import np, Unitary, UnitarySequence, cmat, phase_diff
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm
from stoqcompiler.unitary import (UnitaryDefinitions,
                                  ParameterizedUnitaryDefinitions)
import stoqcheck
import stoqrec
from stoqrec import fixed, c9, seed_all

X, Y, Z = [1], [2], [3]


def t1(a, p):
    return [[a, p]]


# name, terms, groups: all exact (see Hamil.tla)
HAMS = {
    'xz': ([t1(3, X), t1(4, Z)], [[1, 2]]),
    'one': ([[[3, X], [4, Y]]], [[1]]),
    'comm': ([t1(1, [1, 0]), t1(2, [0, 2]), t1(-1, [1, 2])],
             [[1], [2], [3]]),
    'mixed': ([[[3, [1, 0]], [-4, [3, 0]]], t1(1, [0, 2]), t1(2, [0, 2])],
              [[1], [2], [3]]),
    'twins': ([t1(2, [1, 1]), t1(1, [3, 3]), t1(2, [1, 1])],
              [[1], [2], [3]]),
    'four': ([t1(1, [1, 3]), t1(-1, [2, 3]), t1(1, [3, 3]), t1(1, [0, 1])],
             [[1, 2, 3, 4]]),
    'three-q': ([t1(1, [1, 2, 0]), t1(-2, [0, 3, 1]), t1(2, [2, 0, 3])],
                [[1, 2, 3]]),
    'ring': ([t1(1, [1, 1, 0]), t1(-2, [0, 1, 1]), t1(3, [1, 0, 1])],
             [[1], [2], [3]]),
    'heis': ([t1(1, [1, 1]), t1(1, [2, 2]), t1(2, [3, 3])],
             [[1], [2], [3]]),
}
# only for builders that do not need the whole evolution
LOOSE = {
    'heis3': ([t1(1, [1, 1, 0]), t1(2, [0, 3, 3]), t1(1, [0, 2, 0]),
               [[3, [3, 0, 0]], [4, [1, 0, 2]]]], []),
    'xyz': ([t1(1, X), t1(2, Y), t1(3, Z)], []),
}


# the last term commutes with the others, acts on another qubit
SMALL = [t1(1, [0, 1]), [[3, [0, 1]], [4, [0, 2]]], t1(2, [0, 3]),
         t1(-1, [0, 2]), t1(1, [3, 0])]


def norm(term):
    return int(round(np.sqrt(sum(a * a for a, _ in term))))


def tables_start(terms, groups, P, Q, K, N, kind, ks):
    '''Model checks the builder and prints exact matrices.'''
    body = core.module('MC', 'Hamil, Json', (
        'T == %s\nG == %s\nKs == %s\n'
        'ASSUME \\A j \\in 1..Len(Ks) : PrintT("@@" \\o ToJson([k |-> Ks[j], '
        'e |-> [t \\in 1..Len(T) |-> Evol(T[t], Ks[j])], '
        'u |-> [t \\in 1..Len(T) |-> EvolUnit(T[t], Ks[j])], '
        'all |-> IF G = <<>> THEN <<>> ELSE <<Total(Ks[j])>>, '
        'h |-> [t \\in 1..Len(T) |-> HM_(T[t])], '
        'n |-> [t \\in 1..Len(T) |-> Norm(T[t])]]))\n'
        % (tla(terms), tla(groups), tla(ks))))
    cfg = ('CONSTANTS Terms<-T Groups<-G P=%d Q=%d K=%d N=%d Kind="%s"\n'
           'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
           'INVARIANT Total_Times\nINVARIANT Steps_Whole\n'
           'INVARIANT Terms_Good\n' % (P, Q, K, N, kind))
    if P == Q:
        cfg += ('INVARIANT Evol_Group\nINVARIANT Evol_Commutes\n')
        if groups:
            cfg += 'INVARIANT Exact_When_Commuting\nINVARIANT Ideal_Exact\n'
    return core.tlc_start('MC', body, cfg, workers=1)


def tables(check, wants):
    '''wants: list of (terms, groups, P, Q, ks, kind, N, K)'''
    out, pending = [], []
    for w in wants:
        terms, groups, P, Q, ks, kind, N, K = w
        pending.append(tables_start(terms, groups, P, Q, K, N, kind, ks))
        if len(pending) >= 7:
            out.append(core.tlc_wait(pending.pop(0)))
    out += [core.tlc_wait(h) for h in pending]
    res = []
    for r in out:
        check.add('states', r.distinct)
        check.add('transitions', r.generated)
        tab = {}
        for rec in r.records:
            tab[rec['k']] = {
                'e': [cmat(m) for m in rec['e']],
                'u': [cmat(m) for m in rec['u']],
                'all': cmat(rec['all'][0]) if rec['all'] else None,
                'h': [np.array([[complex(*z) for z in row] for row in m])
                      for m in rec['h']], 'n': rec['n']}
        res.append(tab)
    return res


def build(tab, terms, scale):
    hs = next(iter(tab.values()))['h']
    return Hamiltonian([HamiltonianTerm(scale * h) for h in hs]), hs


TOL = 1e-7


def exact_case(kind, terms, tab, P, Q, K, N, scale, seed):
    '''Runs a builder for the time N * K * atan2(P, Q) / scale.'''
    ham, hs = build(tab, terms, scale)
    tau = float(np.arctan2(P, Q))
    nt = len(terms)
    nq = len(terms[0][0][1])
    seed_all(seed)
    if kind == 'qdrift':
        lam = sum(norm(t) for t in terms) * scale
        time = N * K * tau / lam
        seq = ham.get_qdrift_sequence(time, N)
        mats = [None] + tab[K]['u']
    else:
        time = N * K * tau / scale
        if kind == 'ideal':
            seq = ham.get_ideal_sequence(time, N)
            mats = [tab[K]['all']] + [None] * nt
        else:
            args = [] if kind == 'trotter' and seed % 2 else [
                kind == 'random']
            seq = ham.get_trotter_sequence(time, N, *args)
            mats = [None] + tab[K]['e']
    ents = []
    for e in seq.get_sequence_entries():
        m = e.get_full_unitary(2 ** nq).get_matrix()
        ents.append({'q': [int(x) for x in e.get_apply_to()], 'ids': [
            t for t in range(nt + 1) if mats[t] is not None
            and phase_diff(mats[t], m) < TOL]})
    twins = [[s + 1 for s in range(nt) if mats[s + 1] is not None
              and mats[t + 1] is not None
              and phase_diff(mats[t + 1], mats[s + 1]) < TOL]
             for t in range(nt)]
    total = 0
    if kind != 'qdrift' and tab.get(N * K, {}).get('all') is not None:
        comm = all(np.allclose(a @ b, b @ a) for a in hs for b in hs)
        if kind == 'ideal' or comm:
            d = phase_diff(tab[N * K]['all'], seq.product().get_matrix())
            total = 1 if d < TOL else 2
    return {'exact': True, 'kind': kind, 'nq': nq, 'nt': nt, 'n': N,
            'ents': ents, 'twins': twins, 'total': total, 'hs': [],
            'tstep': 0, 'tol': 0}


def random_hermitian(rs, dim, size):
    a = rs.normal(size=(dim, dim)) + 1j * rs.normal(size=(dim, dim))
    h = a + a.conj().T
    return h * (size / np.linalg.norm(h, 2))


def fix_case(kind, nq, nt, N, tstep, seed):
    '''Random Hermitian terms at an arbitrary real time.'''
    rs = np.random.RandomState(seed)
    dim = 2 ** nq
    sizes = [0.3 + 0.7 * rs.rand() for _ in range(nt)]
    if nt > 1 and rs.rand() < 0.4:
        # a term that hardly does anything is a term
        sizes[rs.randint(nt)] *= 10 ** -rs.uniform(3, 11)
    hs = [random_hermitian(rs, dim, size) for size in sizes]
    ham = Hamiltonian([HamiltonianTerm(h.copy()) for h in hs])
    seed_all(seed)
    if kind == 'ideal':
        seq = ham.get_ideal_sequence(tstep * N, N)
    elif kind == 'qdrift':
        lam = sum(np.linalg.norm(h, 2) for h in hs)
        seq = ham.get_qdrift_sequence(tstep * N / lam, N)
        hs = [h / np.linalg.norm(h, 2) for h in hs]
    else:
        seq = ham.get_trotter_sequence(tstep * N, N, kind == 'random')
    ents = [{'q': [int(x) for x in e.get_apply_to()],
             'm': fixed(e.get_full_unitary(dim).get_matrix())}
            for e in seq.get_sequence_entries()]
    return {'exact': False, 'kind': kind, 'nq': nq, 'nt': nt, 'n': N,
            'ents': ents, 'twins': [], 'total': 0,
            'hs': [[[[int(round(z.real * 20000)), int(round(z.imag * 20000))]
                     for z in row] for row in h] for h in hs],
            'tstep': int(round(tstep * 20000)), 'tol': 60}


def _exact(a):
    try:
        with limit(60):
            return exact_case(*a)
    except Exception as e:
        return core.caught(e)


def _fix(a):
    try:
        with limit(60):
            return fix_case(*a)
    except Exception as e:
        return core.caught(e)


def judge(check, labels, cases):
    good = [(lb, c) for lb, c in zip(labels, cases) if 'error' not in c]
    for lb, c in zip(labels, cases):
        if 'error' in c:
            check.violation('%s failed: %s' % (lb, c['error']), lb)
    if not good:
        return
    body = core.module('MC', 'HamilTrace')
    res = core.tlc('MC', body, 'SPECIFICATION Spec\nINVARIANT Verdict\n'
                   'CHECK_DEADLOCK FALSE\n',
                   data={'ham.json': [c for _, c in good]}, workers=8,
                   heap='8g')
    seen = {r['case']: r['fails'] for r in res.records}
    for i, (lb, c) in enumerate(good, 1):
        if i not in seen:
            raise core.MachineryError('no verdict for ' + lb)
        check.add('traces_validated_against_impl')
        check.add('entries_validated', len(c['ents']))
        if seen[i]:
            check.violation('%s: %s' % (lb, ' '.join(sorted(seen[i]))),
                            {'case': lb, 'entries': c['ents'][:12]})
    for lb, _ in good[:2] + good[-2:]:
        check.sample(lb)


def sequences(check, kinds, rng):
    big = THOROUGH
    wants, plan = [], []
    for name, (terms, groups) in list(HAMS.items()) + list(LOOSE.items()):
        for P, Q in ((1, 2), (1, 1)) + (((2, 3),) if big else ()):
            for kind in kinds:
                if not groups and kind == 'ideal':
                    continue
                if max(norm(t) for t in terms) > 4 and (P, Q) != (1, 1) \
                        and kind != 'qdrift':
                    ks = [-1, 0, 1]
                else:
                    ks = [-2, -1, 0, 1, 2]
                if (P, Q) == (1, 1):
                    ks = list(range(-6, 7))
                wants.append((terms, groups, P, Q, ks, kind,
                              2 if len(terms) < 4 else 1, 1))
                plan.append((name, kind, P, Q, ks))
    if not big:
        # a part of the plan, different for every property and seed
        keep = [i for i, p in enumerate(plan) if (p[2], p[3]) == (1, 2)]
        rest = [i for i in range(len(plan)) if i not in keep]
        keep += list(rng.choice(rest, min(len(rest), 8), replace=False))
        wants = [wants[i] for i in keep]
        plan = [plan[i] for i in keep]
    tabs = tables(check, wants)
    args, labels = [], []
    for w, p, tab in zip(wants, plan, tabs):
        name, kind, P, Q, ks = p
        terms = w[0]
        for K in ks:
            for N in ((1, 2, 3, 5) if big else (1, int(rng.randint(2, 6)))):
                scale = float([1.0, 0.37, 2.5, 1e-3, 1e-9, 1e6][
                    rng.randint(6)])
                s = int(rng.randint(2 ** 30))
                args.append((kind, terms, tab, P, Q, K, N, scale, s))
                labels.append(
                    '%s of %s scaled by %s, step angle %d * atan(%d/%d), '
                    '%d steps, seed %d' % (kind, name, scale, K, P, Q, N, s))
    with multiprocessing.get_context('fork').Pool(CORES) as pool:
        cases = pool.map(_exact, args, chunksize=8)
    fargs = []
    for i in range(200 if big else 24):
        kind = kinds[i % len(kinds)]
        a = (kind, int(rng.randint(1, 3 if i % 6 else 4)),
             int(rng.randint(1, 4 if i % 4 else 8)),
             int(rng.randint(1, 5 if i % 5 else 13)),
             float(rng.uniform(-1.2, 1.2)),
             int(rng.randint(2 ** 30)))
        fargs.append(a)
        labels.append('%s of random terms %s' % (kind, a[1:]))
    with multiprocessing.get_context('fork').Pool(CORES) as pool:
        cases += pool.map(_fix, fargs, chunksize=4)
    judge(check, labels, cases)


# ---------------------------------------------------------------------------
# terms given by their spectra (HamSpec.tla)

SPN, SL = 5040, 60


def eigenvectors(rs, nq):
    '''A basis, of one of several kinds.'''
    dim = 2 ** nq
    how = rs.randint(6)
    if how == 0:
        return np.eye(dim)
    if how == 1:
        return np.eye(dim)[rs.permutation(dim)]
    if how == 2:
        return np.linalg.qr(rs.normal(size=(dim, dim)))[0]
    a = rs.normal(size=(dim, dim)) + 1j * rs.normal(size=(dim, dim))
    if how == 3:
        # local bases
        v = np.eye(1)
        for _ in range(nq):
            x = rs.normal(size=(2, 2)) + 1j * rs.normal(size=(2, 2))
            v = np.kron(v, np.linalg.qr(x)[0])
        return v
    if how == 4 and dim > 2:
        # acts on some basis states only
        v = np.eye(dim, dtype=complex)
        k = rs.randint(2, dim + 1)
        v[:k, :k] = np.linalg.qr(a[:k, :k])[0]
        return v
    return np.linalg.qr(a)[0]


def spectrum(rs, dim):
    how = rs.randint(6)
    d = np.zeros(dim, int)
    if how == 0:
        d[rs.randint(dim)] = rs.choice([-1, 1, 3, 6])
    elif how == 1:
        d[:] = rs.choice([-1, 1], size=dim) * rs.randint(1, 7)
    elif how == 2:
        d[:] = rs.randint(0, 7, size=dim)
    else:
        d[:] = rs.randint(-6, 7, size=dim)
    if not d.any():
        d[0] = 1
    return [int(x) for x in d]


def spectral_plan(rng, kinds, n):
    plan = []
    for i in range(n):
        nq = int([1, 1, 2, 2, 2, 3, 3, 4, 5][rng.randint(9)])
        nt = int([1, 1, 2, 2, 3, 4, 6, 12][rng.randint(8)])
        if nq > 3:
            nt = min(nt, 4)
        span = [10, 300, 5040, 10 ** 5, 10 ** 6][rng.randint(5)]
        steps = int([1, 1, 2, 3, 7, 25][rng.randint(6)])
        if nq > 3:
            steps = min(steps, 3)
        plan.append({
            'd': [spectrum(rng, 2 ** nq) for _ in range(nt)],
            'k': int(rng.randint(-span, span + 1)) if rng.rand() < 0.9
            else int(rng.choice([0, 1, -1, SPN, SPN // 2])), 'n': steps,
            'same': bool(rng.rand() < 0.4), 'kind': kinds[i % len(kinds)],
            'nq': nq, 'seed': int(rng.randint(2 ** 30)),
            'scale': float([1.0, 1.0, 0.37, 1e-4, 1e4, 1e-9, 1e6][
                rng.randint(7)])})
        if plan[-1]['kind'] in ('ideal', 'evol'):
            plan[-1]['same'] = True
            if rng.rand() < 0.4:
                # one spectrum, of a sum of terms that do not commute
                plan[-1]['d'] = plan[-1]['d'][:1]
                plan[-1]['split'] = nt + 1
    return plan


def spectral_case(job):
    c, ans = job
    rs = np.random.RandomState(c['seed'])
    nq, nt, n = c['nq'], len(c['d']), c['n']
    dim = 2 ** nq
    vs = [eigenvectors(rs, nq) for _ in range(nt)]
    if c['same']:
        vs = [vs[0]] * nt

    def of(v, ph):
        z = np.exp(2j * np.pi * np.array(ph) / SPN)
        return (v * z) @ v.conj().T
    hs = [c['scale'] * ((v * np.array(d)) @ v.conj().T)
          for v, d in zip(vs, c['d'])]
    hs = [(h + h.conj().T) / 2 for h in hs]
    if c.get('split'):
        parts = [random_hermitian(rs, dim, c['scale'] * rs.uniform(0.1, 3))
                 for _ in range(c['split'] - 1)]
        return evolve_split(c, ans, parts + [hs[0] - sum(parts)],
                            of(vs[0], ans['one']), of(vs[0], ans['whole']))
    unit = 2 * np.pi / SPN / c['scale']
    terms = [HamiltonianTerm(h.copy()) for h in hs]
    bad = []
    for t, h, m in zip(terms, hs, ans['norms']):
        m = m * c['scale']
        if not abs(t.get_coefficient() - m) <= 1e-9 * m:
            bad.append('coefficient %r instead of %r' % (
                t.get_coefficient(), m))
        if np.max(np.abs(t.get_matrix() - h)) > 1e-12 * m or np.max(
                np.abs(t.get_normalized_matrix() * m - h)) > 1e-9 * m:
            bad.append('matrix of a term')
    ham = Hamiltonian(terms)
    kind = c['kind']
    seed_all(c['seed'])
    time = n * c['k'] * unit
    out = {'exact': True, 'kind': kind, 'nq': nq, 'nt': nt, 'n': n,
           'hs': [], 'tstep': 0, 'tol': 0, 'total': 0}
    mats = [None] + [of(v, p) for v, p in zip(vs, ans['step'])]
    if kind == 'evol':
        res = [(list(range(nq)),
                ham.get_time_evolution_operator(c['k'] * unit).get_matrix())]
        mats = [of(vs[0], ans['one'])] + [None] * nt
        out.update(kind='ideal', n=1)
        if rs.rand() < 0.5:
            j = rs.randint(nt)
            u = UnitaryDefinitions.time_evolution(hs[j], c['k'] * unit) \
                if rs.rand() < 0.5 else \
                ParameterizedUnitaryDefinitions.time_evolution(
                    hs[j], min(0, c['k']) * 2 * unit,
                    max(1, c['k']) * 2 * unit).as_unitary([c['k'] * unit])
            if phase_diff(u.get_matrix(), of(vs[j], ans['step'][j])) > TOL:
                bad.append('evolution under one term')
    else:
        if kind == 'qdrift':
            lam = c['scale'] * sum(ans['norms'])
            seq = ham.get_qdrift_sequence(n * c['k'] * SL * (
                2 * np.pi / SPN) / lam, n)
            mats = [None] + [of(v, p) for v, p in zip(vs, ans['unit'])]
        elif kind == 'ideal':
            seq = ham.get_ideal_sequence(time, n)
            mats = [of(vs[0], ans['one'])] + [None] * nt
        else:
            seq = ham.get_trotter_sequence(time, n, kind == 'random')
        res = [([int(x) for x in e.get_apply_to()],
                e.get_full_unitary(dim).get_matrix())
               for e in seq.get_sequence_entries()]
        if kind != 'qdrift' and c['same']:
            d = phase_diff(of(vs[0], ans['whole']), seq.product().get_matrix())
            out['total'] = 1 if d < TOL else 2
    out['ents'] = [{'q': q, 'ids': [
        t for t in range(nt + 1)
        if mats[t] is not None and phase_diff(mats[t], m) < TOL]}
        for q, m in res]
    out['twins'] = [[s + 1 for s in range(nt) if mats[s + 1] is not None
                     and mats[t + 1] is not None
                     and phase_diff(mats[t + 1], mats[s + 1]) < TOL]
                    for t in range(nt)]
    return out, bad


def evolve_split(c, ans, hs, one, whole):
    '''The whole evolution of a sum of known spectrum.'''
    ham = Hamiltonian([HamiltonianTerm(h) for h in hs])
    time = c['k'] * 2 * np.pi / SPN / c['scale']
    nq, n = c['nq'], c['n']
    out = {'exact': True, 'kind': 'ideal', 'nq': nq, 'nt': 1, 'n': 1,
           'hs': [], 'tstep': 0, 'tol': 0, 'total': 0, 'twins': [[1]]}
    if c['kind'] == 'evol':
        res = [(list(range(nq)),
                ham.get_time_evolution_operator(time).get_matrix())]
    else:
        out['n'] = n
        seq = ham.get_ideal_sequence(n * time, n)
        res = [([int(x) for x in e.get_apply_to()],
                e.get_full_unitary(2 ** nq).get_matrix())
               for e in seq.get_sequence_entries()]
        out['total'] = 1 if phase_diff(
            whole, seq.product().get_matrix()) < TOL else 2
    out['ents'] = [{'q': q, 'ids': [0] * (phase_diff(one, m) < TOL)}
                   for q, m in res]
    return out, []


def _spectral(job):
    try:
        with limit(120):
            return spectral_case(job)
    except Exception as e:
        return core.caught(e), []


def spectral(check, kinds, rng, n):
    plan = spectral_plan(rng, kinds, n)
    body = core.module('MC', 'HamSpec')
    res = core.tlc('MC', body, 'CONSTANTS PN=%d L=%d\nSPECIFICATION Spec\n'
                   'CHECK_DEADLOCK FALSE\nINVARIANT Steps_Add_Up\n'
                   'INVARIANT Norms_Divide\nINVARIANT Lie_Inverse\n'
                   'INVARIANT Tell\n' % (SPN, SL), data={'spectra.json': [
                       {k: c[k] for k in ('d', 'k', 'n')} for c in plan]},
                   workers=4)
    check.add('states', res.distinct)
    check.add('transitions', res.generated)
    ans = {r['case']: r for r in res.records}
    jobs = [(c, ans[i]) for i, c in enumerate(plan, 1)]
    with multiprocessing.get_context('fork').Pool(CORES) as pool:
        outs = pool.map(_spectral, jobs, chunksize=4)
    labels = ['%s of terms with spectra %s scaled by %s, %d steps of %d '
              'units, commuting=%s, seed %d' % (
                  c['kind'], c['d'] if c['nq'] < 3 else len(c['d']),
                  c['scale'], c['n'], c['k'], c['same'], c['seed'])
              for c in plan]
    if check.prop == 'C17':
        for lb, (_, bad) in zip(labels, outs):
            for b in bad:
                check.violation('%s: %s' % (lb, b), lb)
    judge(check, labels, [c for c, _ in outs])


# ---------------------------------------------------------------------------
# sessions

SETS = {
    'three-q': [t1(1, [1, 1, 0]), t1(-2, [0, 1, 1]), t1(3, [1, 0, 1]),
                t1(1, [3, 3, 3]), t1(2, [2, 2, 3])],
    'single': [t1(1, Z), t1(-2, Z), t1(3, Z)],
    'pairs': [t1(2, [1, 1]), t1(1, [3, 3]), t1(-1, [2, 2])],
    'sums': [[[3, [1, 0]], [4, [2, 0]]], t1(1, [0, 3]), t1(-2, [0, 3]),
             [[3, [1, 3]], [4, [2, 3]]]],
}
KINDS = {
    'C14': ['ideal', 'trotter', 'random', 'ideal', 'trotter', 'random'],
    'C15': ['qdrift'] * 6,
    'C17': ['evol'] * 6}
JUDGED = {'C14': ('ideal', 'trotter', 'random'), 'C15': ('qdrift',),
          'C17': ('evol',)}
OTHER = ['put'] * 4 + ['build', 'build', 'drop', 'turn', 'evol', 'ideal',
                       'trotter', 'random', 'qdrift', 'search']


def sessions_start(prop, n, ops):
    out = []
    for name, terms in SETS.items():
        for P, Q in ((1, 2), (1, 1)):
            body = core.module('MC', 'HamSession', 'T_ == %s\nKd == %s\n' % (
                tla(terms), tla(OTHER + KINDS[prop])))
            cfg = ('CONSTANTS TermSet<-T_ PP=%d QQ=%d Hams={1,2,3} MaxList=7 '
                   'MaxOps=%d Kinds<-Kd\nSPECIFICATION Spec\n'
                   'CHECK_DEADLOCK FALSE\nINVARIANT Tell\nPROPERTY Frozen\n'
                   % (P, Q, ops))
            out.append((name, P, Q, core.tlc_start(
                'MC', body, cfg, workers=1, simulate=n, depth=ops + 2,
                seed=77 + SEED)))
    return out


def session_case(job):
    '''Replays one history; returns labelled cases for HamilTrace.'''
    name, P, Q, tab, maxk, hist, scale, judged, seed = job
    rng = np.random.RandomState(seed)
    tau = float(np.arctan2(P, Q))
    hs = [scale * np.array([[complex(*z) for z in row] for row in t['h']])
          for t in tab]
    dim = len(hs[0])
    nq = int(np.log2(dim))
    evol = [[cmat(m) if m else None for m in t['e']] for t in tab]
    unit = [[cmat(m) for m in t['u']] for t in tab]
    objs = [HamiltonianTerm(h.copy()) for h in hs]
    lst, hams, cases = [], {}, []
    seed_all(seed)
    for at, step in enumerate(hist):
        op, ans = step['op'], step['a']
        k = op['k']
        if k == 'put':
            t = op['t'] - 1
            lst.append(objs[t] if rng.rand() < 0.7
                       else HamiltonianTerm(hs[t].copy()))
        elif k == 'drop':
            lst.pop(op['at'] - 1)
        elif k == 'turn':
            lst.reverse()
        elif k == 'build':
            hams[op['r']] = Hamiltonian(lst)
        elif k == 'search':
            h = hams[op['r']]
            sim = len(h.terms) < 6 and op['how'][-1] == 's'
            if op['how'].startswith('rav'):
                h.compile_rav_sequence(0.5 / scale, 0.3 / scale, 0.0, sim)
            else:
                h.compile_stoq_sequence(0.2 / scale, 0.3 / scale, 0.0, sim)
        else:
            h, m, n = hams[op['r']], op['m'], op['n']
            ts = [t - 1 for t in ans['ts']]
            nt = len(ts)
            time = n * m * tau / scale
            mats = [None] + [evol[t][m + maxk] for t in ts]
            if k == 'evol':
                res = [(list(range(nq)),
                        h.get_time_evolution_operator(time).get_matrix())]
                prod = None
            else:
                if k == 'qdrift':
                    lam = scale * sum(tab[t]['n'] for t in ts)
                    seq = h.get_qdrift_sequence(n * m * tau / lam, n)
                    mats = [None] + [unit[t][m + 4] for t in ts]
                elif k == 'ideal':
                    seq = h.get_ideal_sequence(time, n)
                else:
                    seq = h.get_trotter_sequence(
                        time, n, *([True] if k == 'random' else []))
                res = [([int(x) for x in e.get_apply_to()],
                        e.get_full_unitary(dim).get_matrix())
                       for e in seq.get_sequence_entries()]
                prod = seq.product().get_matrix() if ans['all'] else None
            if k not in judged:
                continue
            if k in ('evol', 'ideal'):
                mats = [cmat(ans['one'][0])] + [None] * nt
            twins = [[s + 1 for s in range(nt) if mats[s + 1] is not None
                      and mats[t + 1] is not None and phase_diff(
                          mats[t + 1], mats[s + 1]) < TOL]
                     for t in range(nt)]
            total = 0
            if prod is not None:
                total = 1 if phase_diff(cmat(ans['all'][0]), prod) < TOL \
                    else 2
            cases.append((
                '%s (terms %s, %d * atan(%d/%d), n %d) as request %d of a '
                'session with %s scaled by %s, seed %d' % (
                    k, ans['ts'], m, P, Q, n, at + 1, name, scale, seed), {
                    'exact': True, 'kind': 'ideal' if k == 'evol' else k,
                    'nq': nq, 'nt': nt, 'n': n, 'ents': [
                        {'q': q, 'ids': [
                            t for t in range(nt + 1) if mats[t] is not None
                            and phase_diff(mats[t], mm) < TOL]}
                        for q, mm in res],
                    'twins': twins, 'total': total, 'hs': [], 'tstep': 0,
                    'tol': 0}))
    return cases


def _session(job):
    try:
        with limit(120):
            return session_case(job)
    except Exception as e:
        return [('session with %s scaled by %s, seed %d' % (
            job[0], job[6], job[8]), core.caught(e))]


def sessions(check, handles, rng):
    jobs = []
    for name, P, Q, h in handles:
        r = core.tlc_wait(h)
        check.add('states', r.generated)
        check.add('transitions', r.generated)
        head = [x for x in r.records if 'terms' in x][0]
        for x in r.records:
            if 'hist' in x:
                jobs.append((name, P, Q, head['terms'], head['maxk'],
                             x['hist'], float([1.0, 0.37, 1e-6, 1e8, 3e3][
                                 rng.randint(5)]), JUDGED[check.prop],
                             int(rng.randint(2 ** 30))))
    with multiprocessing.get_context('fork').Pool(CORES) as pool:
        out = [c for cs in pool.map(_session, jobs, chunksize=4) for c in cs]
    check.add('sessions_replayed', len(jobs))
    judge(check, [lb for lb, _ in out], [c for _, c in out])


# ---------------------------------------------------------------------------
# frequencies

def stoqrec_pauli(ps):
    m = [np.eye(2), np.array([[0, 1], [1, 0]]),
         np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
    out = np.eye(1)
    for p in ps:
        out = np.kron(out, m[p])
    return out


FREQ_H = {
    2: [(-0.5, (1,)), (1.5, (3,))],
    3: [(1.0, (1, 1)), (-2.5, (3, 0)), (0.5, (2, 3))],
    4: [(1.0, (1,)), (-2.0, (3,)), (0.5, (2,)), (1.5, (1,))],
    6: [(1.5, (1, 1, 0)), (-0.5, (3, 0, 2)), (3.0, (2, 3, 1)),
        (1.0, (0, 0, 3)), (-2.0, (3, 3, 3)), (2.0, (0, 2, 0))],
    12: [((-1) ** i * (0.3 + 0.1 * (i % 5)), divmod(i + 1, 4))
         for i in range(12)]}


def evo(h, t):
    w, v = np.linalg.eigh(h)
    return (v * np.exp(1j * t * w)) @ v.conj().T


def which_term(m, cands):
    hits = [i for i, c in enumerate(cands) if phase_diff(c, m) < 1e-7]
    return hits[0] if len(hits) == 1 else -1


def freq_job(job):
    kind, nt, seeds = job
    hs = [a * stoqrec_pauli(p) for a, p in FREQ_H[nt]]
    dim = hs[0].shape[0]
    ham = Hamiltonian([HamiltonianTerm(h) for h in hs])
    cells = {}

    def hit(*k):
        cells[k] = cells.get(k, 0) + 1
    if kind == 'trotter':
        cands = [evo(h, 0.13) for h in hs]
        for s in seeds:
            seed_all(49979687 * s + 1)
            seq = ham.get_trotter_sequence(0.39, 3, True)
            ids = [which_term(e.get_full_unitary(dim).get_matrix(), cands)
                   for e in seq.get_sequence_entries()]
            steps = [tuple(ids[i:i + nt]) for i in range(0, 3 * nt, nt)]
            if any(sorted(x) != list(range(nt)) for x in steps):
                hit('unknown', -1)
                continue
            if nt <= 3:
                for i in range(3):
                    hit('order', i, steps[i])
                for i, j in ((0, 1), (1, 2), (0, 2)):
                    hit('orders', (i, j), (steps[i], steps[j]))
            else:
                for k in range(nt):
                    for i in range(3):
                        hit('place', (k, i), steps[i].index(k))
                    hit('places', k, (steps[0].index(k), steps[1].index(k)))
                    hit('next', k, (steps[1].index(k),
                                    steps[1].index((k + 1) % nt)))
                if nt < 6:
                    # the order of a step, seen from that of the one before
                    for i in range(2):
                        hit('turn', i, tuple(
                            steps[i].index(k) for k in steps[i + 1]))
    else:
        lam = sum(abs(a) for a, _ in FREQ_H[nt])
        n = 6
        cands = [evo(h / np.linalg.norm(h, 2), lam * 0.3 / n) for h in hs]
        for s in seeds:
            seed_all(49979687 * s + 1)
            seq = ham.get_qdrift_sequence(0.3, n)
            ids = [which_term(e.get_full_unitary(dim).get_matrix(), cands)
                   for e in seq.get_sequence_entries()]
            if -1 in ids:
                hit('unknown', -1)
                continue
            for i, x in enumerate(ids):
                hit('pos', i, x)
            for x, y in zip(ids, ids[1:]):
                hit('pair', 0, (x, y))
            hit('ends', 0, (ids[0], ids[-1]))
    return cells


LONG_H = {'trotter': [(1.0, (1,)), (-2.5, (3,)), (0.5, (2,))],
          'qdrift': [(3.0, (1,)), (-0.003, (3,)), (0.006, (2,)),
                     (2.0, (3,)), (0.0011, (1,))]}


def long_job(job):
    '''Orders late in long sequences; terms that are drawn rarely.'''
    kind, n, seeds = job
    hs = [a * stoqrec_pauli(p) for a, p in LONG_H[kind]]
    nt = len(hs)
    ham = Hamiltonian([HamiltonianTerm(h) for h in hs])
    lam = sum(abs(a) for a, _ in LONG_H[kind])
    cands = [evo(h, 0.13) for h in hs] if kind == 'trotter' else [
        evo(h / np.linalg.norm(h, 2), 0.15) for h in hs[:4]]
    cells = {}

    def hit(*k):
        cells[k] = cells.get(k, 0) + 1
    for s in seeds:
        seed_all(49979687 * s + 1)
        if kind == 'trotter':
            seq = ham.get_trotter_sequence(0.13 * n, n, True)
        else:
            seq = ham.get_qdrift_sequence(0.15 * n / lam, n)
        memo = {}
        ids = []
        for e in seq.get_sequence_entries():
            m = e.get_full_unitary(2).get_matrix()
            k = m.tobytes()
            if k not in memo:
                memo[k] = which_term(m, cands)
            ids.append(memo[k])
        if kind == 'qdrift':
            # (terms 0 and 4 have the same normalised matrix)
            for i in range(0, n - 1, 2):
                x, y = ids[i], ids[i + 1]
                hit('all', i // 128, x)
                hit('all', i // 128, y)
                hit('twos', i // 128, (x, y))
            for i in (0, 1, n - 2, n - 1):
                hit('at', i, ids[i])
            continue
        steps = [tuple(ids[i:i + nt]) for i in range(0, n * nt, nt)]
        if any(sorted(x) != list(range(nt)) for x in steps):
            hit('unknown', 0, -1)
            continue
        for i in range(0, n - 1, 2):
            hit('twos', i // 32, (steps[i], steps[i + 1]))
        for i in (0, 1, n - 2, n - 1):
            hit('at', i, steps[i])
    return cells


def long_freqs(check, kind):
    n = 160 if kind == 'trotter' else 384
    runs = (120 if kind == 'trotter' else 800) * (6 if THOROUGH else 1)
    jobs = [(kind, n, ss)
            for ss in stoqcheck.split_seeds(8000011 * SEED, runs)]
    tot = {}
    for r in stoqcheck.pool_map(long_job, jobs):
        if 'error' in r:
            check.violation('long %s: %s' % (kind, r['error']), kind)
            return
        for k, v in r.items():
            tot[k] = tot.get(k, 0) + v
    nt = len(LONG_H[kind])
    tabs = []
    if kind == 'trotter':
        w = dict.fromkeys(itertools.permutations(range(nt)), 1)
    else:
        w = {}
        for i, (a, p) in enumerate(LONG_H[kind]):
            i = 0 if i == 4 else i         # the same entry
            w[i] = w.get(i, 0) + int(round(abs(a) * 10000))
    big = [x for x in w if kind == 'trotter' or w[x] > 100]
    for what, where in sorted({k[:2] for k in tot}, key=repr):
        if what == 'all':
            continue
        vals = [(w[x] * w[y] // (1 if kind == 'trotter' else 10000), (x, y))
                for x in big for y in big]
        if what == 'at':
            vals = [(w[x], x) for x in w]
        tabs.append({'note': '%s of %s (part %s of a long sequence)' % (
            what, kind, where), 'kind': 'freq', 'cells': [
                [x, tot.get((what, where, v), 0)] for x, v in vals]})
    if kind == 'qdrift':
        tabs.append({'note': 'terms of long qdrift sequences', 'kind': 'freq',
                     'cells': [[w[x], sum(
                         v for k, v in tot.items()
                         if k[0] == 'all' and k[2] == x)] for x in w]})
    known = sum(v for k, v in tot.items() if k[0] == 'twos')
    bad = sum(v for k, v in tot.items()
              if k[0] == 'unknown' or k[0] == 'all' and k[2] not in w)
    tabs.append({'note': 'unknown entries in long %s sequences' % kind,
                 'kind': 'freq', 'cells': [[1, max(1, known)], [0, bad]]})
    stoqcheck.judge_tables(check, tabs)


def freqs(check, kind, nt, n):
    jobs = [(kind, nt, ss) for ss in stoqcheck.split_seeds(5000011 * SEED, n)]
    tot = {}
    for r in stoqcheck.pool_map(freq_job, jobs):
        if 'error' in r:
            check.violation('%s: %s' % (kind, r['error']), kind)
            return
        for k, v in r.items():
            tot[k] = tot.get(k, 0) + v
    unknown = tot.pop(('unknown', -1), 0)
    tabs = [{'note': kind + ' sequences with an entry that is no specified '
             'evolution, or a term missing', 'kind': 'freq', 'cells': [
                 [1, max(1, sum(tot.values()))], [0, unknown]]}]
    rng = range(nt)
    pairs = list(itertools.product(rng, rng))
    pm = list(itertools.permutations(rng)) if nt < 6 else []
    w = [int(abs(a) * 10) for a, _ in FREQ_H[nt]]
    values = {
        'order': [(1, p) for p in pm],
        'orders': [(1, (p, q)) for p in pm for q in pm if nt <= 3],
        'turn': [(1, p) for p in pm],
        'place': [(1, i) for i in rng],
        'places': [(1, p) for p in pairs],
        'next': [(1, p) for p in pairs if p[0] != p[1]],
        'pos': [(w[x], x) for x in rng],
        'pair': [(w[x] * w[y], (x, y)) for x, y in pairs],
        'ends': [(w[x] * w[y], (x, y)) for x, y in pairs]}
    for what, where in sorted({k[:2] for k in tot}, key=repr):
        tabs.append({
            'note': '%s of %s (%d terms, at %s)' % (what, kind, nt, where),
            'kind': 'freq', 'cells': [
                [x, tot.get((what, where, v), 0)] for x, v in values[what]]})
    stoqcheck.judge_tables(check, tabs)


# ---------------------------------------------------------------------------
# STOQ and RAV

def search_hams():
    s = stoqrec_pauli
    rs = np.random.RandomState(11)
    return [
        [0.8 * s([1]), 0.5 * s([3])],
        [0.6 * s([2]), -0.7 * s([3]), 0.4 * s([1])],
        [0.7 * s([1, 1]), 0.5 * s([3, 0]), -0.6 * s([0, 2])],
        [random_hermitian(rs, 4, 0.8), random_hermitian(rs, 4, 0.5)],
        [random_hermitian(rs, 2, 0.9)],
        [0.7 * s([1, 2])],
        [0.7 * s([1, 1]), 0.5 * s([3, 0]), -0.6 * s([0, 2]), 0.8 * s([2, 3])],
        [0.9 * s([1, 2, 0]), random_hermitian(rs, 8, 0.7)],
        [0.3 * s([1]), 0.5 * s([3]), -0.6 * s([2]), 0.4 * s([1]),
         0.3 * s([1])],
    ]


def search_case(job):
    try:
        with limit(300):
            return _search_case(job)
    except Exception as e:
        return core.caught(e)


def _search_case(job):
    kind, hi, time, tmax, thr, sim, seed = job
    hs = search_hams()[hi]
    dim = hs[0].shape[0]
    nq = int(np.log2(dim))
    ham = Hamiltonian([HamiltonianTerm(h) for h in hs])
    nt = len(hs)
    subsets = [[i] for i in range(nt)]
    if sim:
        subsets = [list(c) for k in range(1, nt + 1)
                   for c in itertools.combinations(range(nt), k)]
    sums = [sum(hs[i] for i in c) for c in subsets]
    rows, ix = [], {}

    def ids(seq):
        out = []
        for e in seq.get_sequence_entries():
            u = e.get_full_unitary(dim)
            t = float(u.get_parameter_value('t')[0])
            m = u.get_matrix()
            key = (np.round(m, 6).tobytes(), round(t, 9))
            if key not in ix:
                rows.append({
                    'q': [int(x) for x in e.get_apply_to()],
                    'par': [int(round(t * 20000))],
                    'frac': [int(np.clip(np.floor(
                        (t + tmax) / (2 * tmax) * 1e9 + 1e-3), -2e9, 2e9))],
                    'cf': [int(np.clip(t / (2 * tmax) * 1e9, -2e9, 2e9))],
                    't': int(round(abs(t) * 1e7)),
                    'hint': [i + 1 for i, h in enumerate(sums)
                             if phase_diff(evo(h, t), m) < 1e-2],
                    'm': fixed(m)})
                ix[key] = len(rows)
            out.append(ix[key])
        return out

    def run(th):
        seed_all(seed)
        if kind == 'hrav':
            return ham.compile_rav_sequence(
                time, tmax, th, *([True] if sim else []))
        return ham.compile_stoq_sequence(
            time, tmax, th, *([True] if sim else []))
    first = run(0.0)
    last = run(thr)
    pre = ids(first.compiled_sequence) if kind == 'hrav' else []
    if kind == 'hrav':
        aim = Unitary(dim, first.compiled_sequence.product().inverse()
                      .get_matrix())
    else:
        aim = Unitary(dim, evo(sum(hs), time))
    one = Unitary.identity(dim)
    states, costs, fresh, whole = [], [], [], []
    for r in (first, last):
        states.append(ids(r.compiled_sequence))
        costs.append([c9(x) for x in r.cost_by_step])
        fresh.append(c9(aim.distance_from(UnitarySequence(
            dim, r.compiled_sequence.get_sequence_entries()[len(pre):]
        ).product())))
        whole.append(c9(r.compiled_sequence.product().distance_from(one)))
    allq = list(range(nq))
    again = [[ids(r.compiled_sequence), [c9(x) for x in r.cost_by_step]]
             for r in (first, last)]
    return {
        'again': again, 'nq': nq, 'exact': False, 'layered': False, 'rav': kind == 'hrav',
        'counts': [], 'b': 1,
        'prims': [{'np': 1, 'w': nq, 'g': [], 'name': 'evol', 'any': False,
                   'allowed': [allq], 'weight': 1,
                   'h': [[[int(round(z.real * 20000)),
                           int(round(z.imag * 20000))] for z in row]
                         for row in h]} for h in sums],
        'ents': rows, 'states': states, 'costs': costs, 'fresh': fresh,
        'whole': whole, 'lims': [0, 10000], 'prefix': pre,
        'preblocks': len(pre), 'start': c9(aim.distance_from(one)),
        'target': [], 'tf': fixed(aim.get_matrix()),
        'thr': int(round(thr * 1e9)), 'rate': 1000, 'cap': min(1000000, dim ** 4),
        'app': 500000, 'enum': False, 'ftol': 300, 'stopped': True,
        'times': [rows[x - 1]['t'] for x in pre],
        'time': int(round(time * 1e7))}


def searches(check, rng):
    big = THOROUGH
    jobs = []
    for i in range(600 if big else 128):
        kind = ('hstoq', 'hrav')[i % 2]
        hi = i // 4 % len(search_hams())
        time = float([0.0, 0.2, 0.5, 0.9, 2.0, 3.3][rng.randint(6)])
        tmax = float([0.15, 0.4, 0.8][rng.randint(3)])
        thr = float([0.6, 0.8, 0.9][rng.randint(3)])
        if hi == 7:
            thr = min(thr, 0.8)
        if hi in (0, 1, 4, 8) and rng.rand() < 0.5:
            thr = 0.97
        jobs.append((kind, hi, time, tmax, thr, bool(i // 2 % 2),
                     int(rng.randint(2 ** 30))))
    # random parts of many steps
    for i in range(16 if big else 6):
        jobs.append(('hrav', [0, 2, 5][i % 3], [3.3, 2.0, 5.0][i // 2 % 3],
                     [0.05, 0.02, 0.11][i % 3], 0.0, bool(i % 2),
                     int(rng.randint(2 ** 30))))
    # one that cannot succeed: the limit of 10000 steps
    jobs = [('hstoq', 2, 0.9, 0.7, 1.0, False, 5),
            ('hrav', 1, 0.9, 0.4, 1.0, True, 6)] + jobs
    with multiprocessing.get_context('fork').Pool(CORES) as pool:
        cases = pool.map(search_case, jobs, chunksize=1)
    good = []
    for j, c in zip(jobs, cases):
        if 'error' in c:
            check.violation('%s failed: %s' % (j, c['error']), j)
        else:
            good.append((j, c))
    if not good:
        return
    verdicts, res = stoqrec.validate([c for _, c in good])
    log('searches', len(good), round(res.wall, 1))
    for (j, c), v in zip(good, verdicts):
        check.add('traces_validated_against_impl')
        check.add('entries_validated', len(c['states'][-1]))
        check.add('steps_validated', len(c['costs'][-1]))
        if v['fails']:
            check.violation('%s: %s' % (j, ' '.join(v['fails'])),
                            {'job': j, 'verdict': v,
                             'costs': c['costs'][-1][-20:]})
    body = core.module('MC', 'HamRav')
    ravs = [(j, c) for j, c in good if c['rav']]
    if ravs:
        res = core.tlc('MC', body, 'SPECIFICATION Spec\nINVARIANT Verdict\n'
                       'CHECK_DEADLOCK FALSE\n', data={'rav.json': [
                           {'times': c['times'], 'time': c['time']}
                           for _, c in ravs]})
        seen = {r['case']: r['ok'] for r in res.records}
        for i, (j, c) in enumerate(ravs, 1):
            if i not in seen:
                raise core.MachineryError('no verdict')
            if not seen[i]:
                check.violation(
                    '%s: the random part has step magnitudes %s (1e-7) for '
                    'the requested time %s' % (j, c['times'], c['time']), j)
    for j, _ in good[:3]:
        check.sample(str(j))


def avail_job(job):
    '''Which subsets and which step sizes occur in random parts and in
    compiled sequences.'''
    kind, sim, nt, seeds = job
    hs = search_hams()[2] if nt == 3 else [
        a * stoqrec_pauli(p) for a, p in (
            (0.7, (1, 1)), (0.45, (3, 0)), (-0.6, (0, 2)), (0.3, (2, 3)),
            (0.85, (1, 3)))]
    subsets = [c for k in range(1, nt + 1)
               for c in itertools.combinations(range(nt), k)]
    ham = Hamiltonian([HamiltonianTerm(h) for h in hs])
    cells = {}
    for s in seeds:
        seed_all(86028121 * s + 5)
        if kind == 'short':
            # a maximum step beyond the requested time
            r = ham.compile_rav_sequence(0.3, 0.5, 0.0, sim)
        elif kind == 'hrav':
            r = ham.compile_rav_sequence(2.0, 0.5, 0.0, sim)
        else:
            r = ham.compile_stoq_sequence(0.8, 0.5, 0.9, sim)
        for i, e in enumerate(r.compiled_sequence.get_sequence_entries()):
            u = e.get_full_unitary(4)
            t = float(u.get_parameter_value('t')[0])
            if kind in ('hrav', 'short'):
                if i == 0:
                    k = ('first', int(abs(t) * 10), t > 0)
                    cells[k] = cells.get(k, 0) + 1
                k = ('way', t > 0)
                cells[k] = cells.get(k, 0) + 1
            k = which_term(u.get_matrix(), [
                evo(sum(hs[i] for i in c), t) for c in subsets])
            k = subsets[k] if k >= 0 or abs(t) > 1e-3 else None
            if k is None:
                continue
            cells[('s', k)] = cells.get(('s', k), 0) + 1
            b = ('t', int(np.floor((t + 0.5) * 10)))
            cells[b] = cells.get(b, 0) + 1
    return cells


def walk_job(job):
    '''The random steps of long RAV sequences: each one uniform and forward
    with probability 0.8, whatever came before and however near the end.'''
    far, seeds = job
    hs = [0.6 * stoqrec_pauli((1,)), -0.8 * stoqrec_pauli((3,))]
    ham = Hamiltonian([HamiltonianTerm(h) for h in hs])
    cells = {}
    for s in seeds:
        seed_all(67867967 * s + 3)
        seq = ham.compile_rav_sequence(far * 0.5, 0.5, 0.0).compiled_sequence
        gone, last = 0.0, 'none'
        for i, e in enumerate(seq.get_sequence_entries()):
            t = float(e.unitary.get_parameter_value('t')[0])
            term = which_term(e.unitary.get_matrix(),
                              [evo(h, t) for h in hs]) if abs(t) > 1e-3 else 0
            now = (int(abs(t) * 8 - 1e-12), t > 0)
            rest = far - gone / 0.5         # in maximum steps
            for k in (('place', min(i, 20)), ('after', last),
                      ('rest', int(min(rest, 20) * 4))):
                cells[k + (now,)] = cells.get(k + (now,), 0) + 1
                if abs(t) > 1e-3:
                    m = ('term ' + k[0], k[1], term)
                    cells[m] = cells.get(m, 0) + 1
            gone += abs(t)
            last = now + (term,)
    return cells


def walks(check):
    tabs = []
    for far, n in ((2.0, 12000), (0.7, 2000), (40.0, 400)):
        tot = {}
        for r in stoqcheck.pool_map(walk_job, [
                (far, ss) for ss in stoqcheck.split_seeds(
                    7000031 * SEED, n * (4 if THOROUGH else 1))]):
            if 'error' in r:
                check.violation('random steps: ' + r['error'], 'walk')
                return
            for k, v in r.items():
                tot[k] = tot.get(k, 0) + v
        for what, where in sorted({k[:2] for k in tot}, key=repr):
            vals = [(1, 0), (1, 1), (0, -1)] if what[:4] == 'term' else [
                (w, (b, up)) for b in range(4)
                for w, up in ((4, True), (1, False))]
            cells = [[w, tot.get((what, where, v), 0)] for w, v in vals]
            cells.append([0, sum(v for k, v in tot.items() if k[:2] == (
                what, where)) - sum(c for _, c in cells)])
            tabs.append({'note': 'random steps towards %r maximum steps, %s '
                         '%s' % (far, what, where), 'kind': 'freq',
                         'cells': cells})
    stoqcheck.judge_tables(check, tabs)


def available(check):
    big = THOROUGH
    tabs = []
    for kind, sim, nt in (('hrav', True, 3), ('hrav', False, 3),
                          ('hrav', True, 5), ('hrav', False, 5),
                          ('short', True, 3), ('short', False, 5),
                          ('hstoq', True, 3), ('hstoq', False, 3)):
        n = (600 if kind == 'hrav' else 1600 if kind == 'short' else 60) * (
            4 if big else 1)
        jobs = [(kind, sim, nt, ss)
                for ss in stoqcheck.split_seeds(6000011 * SEED, n)]
        tot = {}
        err = None
        for r in stoqcheck.pool_map(avail_job, jobs):
            if 'error' in r:
                err = r['error']
                continue
            for k, v in r.items():
                tot[k] = tot.get(k, 0) + v
        if err:
            check.violation('%s: %s' % (kind, err), kind)
            continue
        subs = [c for k in range(1, nt + 1)
                for c in itertools.combinations(range(nt), k)]
        ok = subs if sim else subs[:nt]
        tabs.append({'note': 'subsets of %d terms in %s, simultaneous=%s' % (
            nt, kind, sim), 'kind': 'reach' if kind == 'hstoq' else 'freq',
            'cells': [[1, tot.get(('s', c), 0)] for c in ok]})
        if kind != 'hstoq':
            tabs.append({
                'note': 'directions of %s, simultaneous=%s' % (kind, sim),
                'kind': 'freq', 'cells': [[4, tot.get(('way', True), 0)],
                                          [1, tot.get(('way', False), 0)]]})
            tabs.append({
                'note': 'first random steps of %s, simultaneous=%s' % (
                    kind, sim),
                'kind': 'freq', 'cells': [
                    [w, tot.get(('first', i, up), 0)]
                    for i in range(5) for w, up in ((4, True), (1, False))]})
        bad = sum(v for k, v in tot.items() if k[0] == 's' and k[1] not in ok)
        tabs.append({'note': 'other entries in %s, simultaneous=%s' % (
            kind, sim), 'kind': 'freq', 'cells': [
                [1, sum(tot.get(('s', c), 0) for c in ok)], [0, bad]]})
        bad = sum(v for k, v in tot.items()
                  if k[0] == 't' and not 0 <= k[1] < 10)
        tabs.append({'note': 'steps beyond the maximum in %s' % kind,
                     'kind': 'freq', 'cells': [
                         [1, sum(v for k, v in tot.items() if k[0] == 't')
                          - bad], [0, bad]]})
    stoqcheck.judge_tables(check, tabs)


# ---------------------------------------------------------------------------

def small_parts(check, tab, rng):
    '''exp(i (A + eps B) t) for a time t after which A is back where it
    started: all that is left is exp(i eps t B).'''
    tau = float(np.arctan2(1, 1))
    hs = tab[1]['h']
    a = hs[-1]
    for i, b in enumerate(hs[:-1]):
        for k in sorted(tab):
            for M, scale in ((3, 1.0), (200, 0.3), (10000, 1.0),
                             (10000, 1e-5), (10000, 1e6), (200, 2e-8)):
                eps = k * tau / (2 * np.pi * M)
                t = 2 * np.pi * M / scale
                label = 'evolution of %r (A + %r B) with A=%s, B=%s for %r' % (
                    scale, eps, SMALL[-1], SMALL[i], t)
                try:
                    h = scale * (a + eps * b)
                    term = HamiltonianTerm(h)
                    check.add('terms_checked')
                    n = scale * (1 + abs(eps) * tab[k]['n'][i])
                    if abs(term.get_coefficient() - n) > 1e-12 * n or np.max(
                            np.abs(term.get_matrix() - h)) > 1e-14 * n:
                        check.violation('term: ' + label, label)
                    if rng.rand() < 0.5:
                        us = [Hamiltonian([term])
                              .get_time_evolution_operator(t)]
                    else:
                        us = [Hamiltonian([HamiltonianTerm(scale * a),
                                           HamiltonianTerm(scale * eps * b)])
                              .get_time_evolution_operator(t)]
                    us.append(UnitaryDefinitions.time_evolution(h, t))
                    if rng.rand() < 0.3:
                        us.append(
                            ParameterizedUnitaryDefinitions.time_evolution(
                                h, -t, 2 * t).as_unitary([t]))
                    for u in us:
                        check.add('evolutions_checked')
                        if phase_diff(u.get_matrix(), tab[k]['e'][i]) > 1e-6:
                            check.violation(label, label)
                except Exception as e:
                    check.violation('%s: %s' % (
                        label, core.caught(e)['error']), label)


def terms_and_evolution(check, rng):
    '''C17.'''
    big = THOROUGH
    wants, names = [], []
    for name, (terms, groups) in list(HAMS.items()) + list(LOOSE.items()):
        for P, Q in ((1, 2), (1, 1)):
            ks = [-1, 0, 1, 2] if (P, Q) == (1, 2) else list(range(-4, 5))
            if max(norm(t) for t in terms) > 4 and (P, Q) == (1, 2):
                ks = [-1, 0, 1]
            wants.append((terms, groups, P, Q, ks, 'ideal', 1, 1))
            names.append(name)
    wants.append((SMALL, [], 1, 1, [-3, -2, -1, 1, 2, 3], 'ideal', 1, 1))
    *tabs, small = tables(check, wants)
    wants.pop()
    for (terms, groups, P, Q, ks, _, _, _), name, tab in zip(
            wants, names, tabs):
        tau = float(np.arctan2(P, Q))
        hs = tab[0]['h']
        for scale in (1.0, 0.37, 1e-6, 2e5, 3e-10, 7e8):
            try:
                real = [HamiltonianTerm((scale * h).astype(
                    float if rng.rand() < 0.5 and np.isrealobj(h) else complex)
                ) for h in hs]
                for h, n, t in zip(hs, tab[0]['n'], real):
                    check.add('terms_checked')
                    want = scale * h
                    c = t.get_coefficient()
                    if not (abs(c - scale * n) <= 1e-9 * scale * n
                            and np.imag(c) == 0):
                        check.violation(
                            'coefficient %r of a term with spectral norm %r '
                            '(%s)' % (c, scale * n, name), name)
                    if not np.allclose(t.get_normalized_matrix() * n, h,
                                       atol=1e-9 * n):
                        check.violation('wrong normalised matrix (%s scaled '
                                        'by %s)' % (name, scale), name)
                    if not np.allclose(t.get_matrix(), want, rtol=0,
                                       atol=1e-12 * scale * n):
                        check.violation('wrong matrix (%s scaled by %s)' % (
                            name, scale), name)
                    if t.get_dimension() != h.shape[0]:
                        check.violation('wrong dimension', name)
                # the list it was built from may change afterwards
                lst = list(real)
                ham = Hamiltonian(lst)
                if rng.rand() < 0.5:
                    lst.pop(0)
                else:
                    lst.reverse()
                    lst.append(lst[0])
                if scale > 1e3:
                    lim = 1e-6
                else:
                    lim = TOL
                for k in ks:
                    for i, h in enumerate(hs):
                        u = UnitaryDefinitions.time_evolution(
                            scale * h, k * tau / scale)
                        pu = ParameterizedUnitaryDefinitions.time_evolution(
                            scale * h, -9 * tau / scale, 9 * tau / scale,
                            'x').as_unitary([k * tau / scale])
                        for w in (u, pu):
                            check.add('evolutions_checked')
                            if phase_diff(w.get_matrix(),
                                          tab[k]['e'][i]) > lim:
                                check.violation(
                                    'evolution of term %d of %s for %d * '
                                    'atan(%d/%d)' % (i, name, k, P, Q), name)
                        one = Hamiltonian([real[i]]) \
                            .get_time_evolution_operator(k * tau / scale)
                        if phase_diff(one.get_matrix(), tab[k]['e'][i]) > lim:
                            check.violation(
                                'evolution of the Hamiltonian of term %d of '
                                '%s' % (i, name), name)
                    if tab[k]['all'] is not None:
                        u = ham.get_time_evolution_operator(k * tau / scale)
                        check.add('evolutions_checked')
                        if phase_diff(u.get_matrix(), tab[k]['all']) > lim:
                            check.violation(
                                'evolution of %s scaled by %s for %d * '
                                'atan(%d/%d)' % (name, scale, k, P, Q), name)
                if ham.get_dimension() != hs[0].shape[0] or \
                        2 ** ham.get_qubit_count() != hs[0].shape[0]:
                    check.violation('wrong dimension', name)
            except Exception as e:
                check.violation('%s scaled by %s: %s' % (
                    name, scale, core.caught(e)['error']), name)
    small_parts(check, small, rng)
    # offsets: norm of a I + h is |a| + c
    for a, c, ps in ((1, 1, (3,)), (-2, 1, (1,)), (3, 4, (2, 3)),
                     (-1, 5, (1, 0, 2))):
        m = a * np.eye(2 ** len(ps)) + c * stoqrec_pauli(ps)
        try:
            t = HamiltonianTerm(m)
            check.add('terms_checked')
            if abs(t.get_coefficient() - (abs(a) + c)) > 1e-9 or \
                    not np.allclose(t.get_matrix(), m, atol=1e-9):
                check.violation('term %d + %d * Pauli' % (a, c), [a, c, ps])
            u = Hamiltonian([t, HamiltonianTerm(np.eye(len(m)))]) \
                .get_time_evolution_operator(0.37)
            if phase_diff(u.get_matrix(), evo(c * stoqrec_pauli(ps), 0.37)) \
                    > TOL:
                check.violation('evolution of %d + %d * Pauli' % (a, c), a)
        except Exception as e:
            check.violation('term %d + %d * Pauli: %s' % (
                a, c, core.caught(e)['error']), [a, c, ps])
    # arbitrary Hermitian terms, in fixed point
    fargs = [('ideal', int(rng.randint(1, 3)), int(rng.randint(1, 4)), 1,
              float(rng.uniform(-1.2, 1.2)), int(rng.randint(2 ** 30)))
             for _ in range(150 if big else 20)]
    with multiprocessing.get_context('fork').Pool(CORES) as pool:
        cases = pool.map(_fix, fargs, chunksize=2)
    judge(check, ['evolution of random terms %s' % (a[1:],) for a in fargs],
          cases)
    check.counts['traces_validated_against_impl'] = \
        check.counts.get('traces_validated_against_impl', 0) + len(wants)


def run(check):
    prop = check.prop
    rng = np.random.RandomState(1000 * SEED + int(prop[1:]))
    big = THOROUGH
    if prop != 'C16':
        sess = sessions_start(prop, 300 if big else 40, 45)
    if prop == 'C14':
        sequences(check, ['trotter', 'random', 'ideal'], rng)
        spectral(check, ['trotter', 'random', 'ideal'], rng,
                 3000 if big else 360)
        for nt in (2, 3, 4, 6, 12):
            freqs(check, 'trotter', nt, 20000 if big else
                  4000 if nt == 4 else 2000)
        long_freqs(check, 'trotter')
    elif prop == 'C15':
        sequences(check, ['qdrift'], rng)
        spectral(check, ['qdrift'], rng, 2000 if big else 300)
        for nt in (2, 3, 6, 12):
            freqs(check, 'qdrift', nt, 20000 if big else 2500)
        long_freqs(check, 'qdrift')
    elif prop == 'C16':
        searches(check, rng)
        available(check)
        walks(check)
    else:
        terms_and_evolution(check, rng)
        spectral(check, ['evol'], rng, 3000 if big else 400)
    if prop != 'C16':
        sessions(check, sess, rng)
