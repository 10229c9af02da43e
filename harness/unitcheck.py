'''
C09 C10 C11 C18 C20: values.  Placement tables, algebra histories, gate
matrices, texts and verdicts on requests come from TLC (Place, Algebra,
Gates, Params, Text, Refuse) and are compared with the code under test.
'''
import copy
import itertools
import multiprocessing
import re
from decimal import Decimal

import core
from core import CORES, SEED, THOROUGH, log, tla, limit
from lib import (np, Unitary, UnitaryDefinitions, UnitarySequence,
                 UnitarySequenceEntry, UnitaryPrimitive, ParameterizedUnitary,
                 ParameterizedUnitaryDefinitions, ParameterizedUnitaryParameter,
                 cmat, phase_diff, at)
from stoqcompiler.compiler import Compiler
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm
from stoqcompiler.verification import Verification as ver
from stoqrec import seed_all

TOL = 1e-9


def haar(rs, d):
    z = rs.normal(size=(d, d)) + 1j * rs.normal(size=(d, d))
    q, r = np.linalg.qr(z)
    return q * (np.diag(r) / np.abs(np.diag(r)))


def attempt(f):
    '''(True, value) or (False, exception): did the code refuse?'''
    try:
        with limit(30):
            return True, f()
    except core.Timeout:
        raise
    except Exception as e:
        return False, e


def guard(check, label, f):
    '''Runs a case; what the code under test throws is a violation.'''
    try:
        with limit(120):
            f()
    except Exception as e:
        check.violation('%s failed: %s' % (label, core.caught(e)['error']),
                        label)


# ---------------------------------------------------------------------------
# C09

def place_start(width, sizes, maxq, depth, emit, tabs, laws=True, pick=0):
    cfg = ('CONSTANTS Sizes=%s Width=%d MaxQ=%d Depth=%d Emit=%s Pick=%d\n'
           'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
           'INVARIANT Bijective\n' % (
               tla(set(sizes)), width, maxq, depth, tla(emit), pick))
    if laws and width <= 3:
        cfg += ('INVARIANT Tables_Embed\nINVARIANT Grows\n'
                'INVARIANT Leading\nINVARIANT Disjoint\n')
    if tabs:
        cfg += 'INVARIANT Tabs\n'
    if emit:
        cfg += 'INVARIANT Tell\n'
    return core.tlc_start('MC', core.module('MC', 'Place'), cfg, workers=2,
                          extra=() if not pick else ('-seed', str(SEED)))


def expected_full(u, sub, rest):
    s, r = np.array(sub), np.array(rest)
    return np.where(r[:, None] == r[None, :], u[s[:, None], s[None, :]], 0)


def as_given(rs, qs):
    '''The list of qubits in one of the forms a caller may use.'''
    k = rs.randint(5)
    if k == 0:
        return list(qs)
    if k == 1:
        return tuple(qs)
    if k == 2:
        return np.array(qs)
    if k == 3:
        return [np.int64(q) for q in qs]
    return [np.int32(q) for q in qs]


def place_case(args):
    '''One entry object and one history of expansions.'''
    (qs, hist, gate), tabs, seed = args
    rs = np.random.RandomState(seed)
    w = len(qs)
    if gate == 'haar':
        m = haar(rs, 2 ** w)
        u = Unitary(2 ** w, m.copy(), 'G')
    else:
        u, m = gate
    given = as_given(rs, qs)
    bad = []
    try:
        with limit(60):
            e = UnitarySequenceEntry(u, given)
            if isinstance(given, list) and rs.rand() < 0.5:
                given.reverse()
            twin = UnitarySequenceEntry(u, list(reversed(qs)))
            for step in hist:
                n = step['n']
                if rs.rand() < 0.3:
                    # another entry with the same gate is used in between
                    attempt(lambda: twin.get_full_unitary(2 ** n))
                if rs.rand() < 0.2:
                    e = copy.deepcopy(e)
                ok, got = attempt(lambda: e.get_full_unitary(2 ** n))
                if ok != step['ok']:
                    if step['ok']:
                        bad.append('refused the system of %d qubits (%s)' % (
                            n, core.caught(got)['error']))
                    else:
                        bad.append('no refusal for a system of %d' % n)
                    continue
                if not ok:
                    continue
                want = expected_full(m, *tabs[n])
                d = phase_diff(want, got.get_matrix())
                if d > TOL:
                    bad.append('wrong by %.2g in a system of %d' % (d, n))
                if rs.rand() < 0.3:
                    p = UnitarySequence(2 ** n, [e]).product().get_matrix()
                    if phase_diff(want, p) > TOL:
                        bad.append('wrong product of the entry alone, %d' % n)
    except Exception as ex:
        bad.append('failed: ' + core.caught(ex)['error'])
    return bad


def sweep_case(args):
    '''Many placements in one process, one after the other.'''
    cases, seed = args
    bad = []
    for i, c in enumerate(cases):
        bad += [(c[0][0], [x['n'] for x in c[0][1]], b)
                for b in place_case(c[:2] + (seed + i,))]
    return len(cases), bad


def sweep_start():
    k = 4 if THOROUGH else 1
    return [place_start(w, [n], n, 1, False, True, False, pick) for
            w, n, pick in ((1, 9, 0), (2, 7, 0), (2, 8, 0), (2, 9, 18 * k),
                           (3, 6, 0), (3, 7, 60 * k), (4, 6, 60 * k),
                           (5, 6, 40 * k), (3, 8, 20 * k))]


def sweeps(check, rng, runs):
    jobs = []
    for h in runs:
        res = core.tlc_wait(h)
        check.add('states', res.distinct)
        check.add('transitions', res.generated)
        cases = [((r['qs'], [{'n': r['t'], 'ok': True}], 'haar'),
                  {r['t']: (r['sub'], r['rest'])})
                 for r in res.records if 't' in r]
        order = rng.permutation(len(cases))
        cases = [cases[i] for i in order]
        if len(cases) <= 60:
            cases += cases[:8]
        jobs.append((cases, int(rng.randint(2 ** 30))))
    with multiprocessing.get_context('fork').Pool(CORES) as pool:
        for n, bads in pool.imap_unordered(sweep_case, jobs):
            check.add('histories_replayed', n)
            check.add('expansions_compared', n)
            for qs, ns, b in bads:
                check.violation(
                    'gate on %s, expanded to %s qubits after others: %s' % (
                        qs, ns, b), [qs, ns])


def placement(check, rng):
    big = THOROUGH
    swept = sweep_start()
    depth = 3
    runs = [place_start(1, [1, 2, 3, 4], 4, depth, True, True),
            place_start(2, [1, 2, 3, 4], 4, depth, True, True),
            place_start(3, [2, 3, 4] if not big else [1, 2, 3, 4], 4, depth,
                        True, True),
            place_start(1, [5, 6], 6, 2, True, True),
            place_start(2, [4, 5, 6], 6, 2, True, True),
            place_start(3, [4, 5], 5, 2, True, True, laws=False),
            place_start(4, [4, 5], 5, 2, True, True, laws=False)]
    k = 4 if big else 1
    runs += [place_start(w, sizes, maxq, 2, True, True, False, n * k)
             for w, sizes, maxq, n in (
                 (1, [6, 7, 8, 9], 9, 2), (2, [6, 7, 8], 8, 12),
                 (3, [5, 6, 7], 7, 50), (4, [5, 6, 7], 7, 40),
                 (5, [5, 6, 7], 7, 40), (6, [6, 7], 7, 20),
                 (3, [8], 8, 6))]
    if big:
        runs += [place_start(3, [5, 6], 6, 2, True, True, laws=False),
                 place_start(4, [4, 6], 6, 2, True, True, laws=False),
                 place_start(5, [5, 6], 6, 2, True, True, laws=False),
                 place_start(1, [7], 7, 1, True, True),
                 place_start(2, [7], 7, 1, True, True, laws=False)]
    tasks = []
    lib = library(rng)
    for h in runs:
        res = core.tlc_wait(h)
        check.add('states', res.distinct)
        check.add('transitions', res.generated)
        tabs = {}
        for r in res.records:
            if 't' in r:
                tabs.setdefault(tuple(r['qs']), {})[r['t']] = (
                    r['sub'], r['rest'])
        for r in res.records:
            if 'hist' in r:
                qs = r['qs']
                gates = ['haar']
                if lib.get(len(qs)) and (big or rng.rand() < 0.3):
                    g = lib[len(qs)]
                    gates.append(g[rng.randint(len(g))])
                for g in gates:
                    tasks.append(((qs, r['hist'], g),
                                  tabs.get(tuple(qs), {}),
                                  int(rng.randint(2 ** 30))))
    with multiprocessing.get_context('fork').Pool(CORES) as pool:
        outs = pool.map(place_case, tasks, chunksize=32)
    for (t, _, s), bad in zip(tasks, outs):
        check.add('histories_replayed')
        check.add('expansions_compared', len(t[1]))
        for b in bad:
            check.violation('gate on %s, expanded to %s qubits: %s' % (
                t[0], [x['n'] for x in t[1]], b), [t[0], t[1], s])
    sweeps(check, rng, swept)
    for t in tasks[:2] + tasks[-2:]:
        check.sample('qubits %s, expansions to %s' % (
            t[0][0], [x['n'] for x in t[0][1]]))


def library(rng):
    D = UnitaryDefinitions
    a, b = float(rng.uniform(-7, 7)), float(rng.uniform(-7, 7))
    out = {}
    for u in (D.rx(a), D.ry(b), D.rphi(a, b), D.h(), D.t(), D.cnot(),
              D.xx(a), D.ccnot(), D.qecc_phase_flip(), D.gms(3, b),
              D.cnot().inverse(), D.rphi(b, a).inverse(),
              D.rx(a).tensor(D.h())):
        w = int(round(np.log2(u.get_dimension())))
        out.setdefault(w, []).append((u, u.get_matrix().copy()))
    return out


# ---------------------------------------------------------------------------
# C10

STARTS = [
    [['k1'], ['rx', 1, 2], ['k2'], ['cnot']],
    [['house', [[1, 0], [1, 1], [0, 2]]], ['mono', [3, 1, 2], [0, 1, 3]],
     ['I', 0], ['h']],
    [['o1', 1], ['rz', 3, 4], ['ry', 5, 12], ['rz', 7, 24]],
    [['house', [[1, 0], [1, 0], [1, 0], [1, 0], [1, 0]]],
     ['mono', [2, 3, 4, 5, 1], [0, 0, 0, 0, 0]], ['y'], ['rphi', 1, 1, 3, 4, 5]],
    [['o2', 1], ['I', 2], ['xx', 1, 2], ['rx', -1, 3]],
    [['house', [[1, 2]]], ['mono', [1, 2, 3], [1, 1, 1]],
     ['mono', [2, 1, 3], [0, 0, 0]], ['mono', [1, 2, 3], [0, 0, 2]]],
    [['ccnot'], ['qecc'], ['gms', 3, 1, 1], ['k3']],
    [['rz', 1, 0], ['I', 1], ['rz', 4, 3], ['rx', 12, 5]],
    [['ccnot'], ['k1'], ['house', [[1, 0], [1, 1], [0, 2]]], ['k2']],
    [['k3'], ['house', [[1, 1], [2, 0]]], ['mono', [2, 3, 1], [1, 0, 2]],
     ['mono', [2, 1, 4, 3], [0, 1, 1, 2]]],
]


def algebra_start(start, ops, maxdim, maxnew, sim, seed):
    body = core.module('MC', 'Algebra', 'S == %s\nO == %s\n' % (
        tla(start), tla(set(ops))))
    cfg = ('CONSTANTS Start<-S Ops<-O MaxDim=%d MaxNew=%d Pick=%d\n'
           'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Tell\n'
           % (maxdim, maxnew, 4 if sim else 0))
    cfg += ('INVARIANT All_Unitary\nINVARIANT Inverse_Inverts\n'
            'INVARIANT Distance_Laws\n')
    return core.tlc_start('MC', body, cfg, workers=1, simulate=sim,
                          depth=maxnew + 2, seed=seed)


def offered(rs, m):
    '''An array a caller may pass for the matrix m, and the object to tamper
    with afterwards.'''
    real = np.allclose(m.imag, 0)
    k = rs.randint(10)
    if k >= 7:
        # no phase to remove, or a simple one
        z = m * 1j ** rs.randint(4) if k == 7 else m
        if k == 9:
            z = z / np.linalg.det(z) ** (1 / len(z))
        a = np.array(z, dtype=np.complex128)
        return a, a
    if k == 0 and real:
        a = m.real.copy()
        if np.allclose(a, np.round(a)):
            a = np.round(a).astype(int)
        return a, a
    ph = np.exp(1j * rs.uniform(0, 7))
    a = (ph * m).astype(np.complex128)
    if k == 1:
        a = np.asfortranarray(a)
        return a, a
    if k == 2:
        b = np.zeros((2 * len(m), 2 * len(m)), dtype=complex)
        b[::2, ::2] = a
        return b[::2, ::2], b
    if k == 3:
        b = a.T.copy()
        return b.T, b
    return a, a


def algebra_case(args):
    rec, seed = args
    rs = np.random.RandomState(seed)
    bad = []
    mats = [cmat(m) for m in rec['pool']]
    n0 = len(mats) - sum(1 for h in rec['hist'] if h['ok'])
    pool, keep = [], []

    def good(i, what):
        got = pool[i].get_matrix()
        d = phase_diff(mats[i], got)
        if d > TOL:
            bad.append('%s: value %d is wrong by %.2g' % (what, i + 1, d))
        if got.shape == mats[i].shape and \
                abs(np.linalg.det(got) - 1) > 1e-8:
            bad.append('%s: determinant of value %d' % (what, i + 1))
        if pool[i].get_dimension() != len(mats[i]):
            bad.append('%s: dimension of value %d' % (what, i + 1))

    def stable(what):
        for i, k in enumerate(keep):
            if not np.array_equal(k, pool[i].get_matrix()):
                bad.append('%s changed value %d' % (what, i + 1))
                keep[i] = pool[i].get_matrix().copy()
    try:
        with limit(60):
            for m in mats[:n0]:
                a, owner = offered(rs, m)
                before = a.copy()
                u = Unitary(len(m), a)
                if not np.array_equal(before, a):
                    bad.append('the array passed was changed')
                owner[...] = 7
                pool.append(u)
                keep.append(u.get_matrix().copy())
                good(len(pool) - 1, 'construction')
            for h in rec['hist']:
                x, y = pool[h['i'] - 1], pool[h['j'] - 1]
                what = '%s(%d,%d)' % (h['k'], h['i'], h['j'])
                ok, u = attempt(
                    {'inv': lambda: x.inverse(),
                     'left': lambda: x.left_multiply(y),
                     'right': lambda: x.right_multiply(y),
                     'tensor': lambda: x.tensor(y)}[h['k']])
                if ok != h['ok']:
                    bad.append('%s %s' % (what, 'was not refused' if ok else
                                          core.caught(u)['error']))
                    break
                if ok:
                    pool.append(u)
                    keep.append(u.get_matrix().copy())
                    good(len(pool) - 1, what)
                stable(what)
            if len(pool) == len(mats):
                for d in rec['dist']:
                    distances(bad, pool, d, rs)
                stable('comparing')
    except Exception as ex:
        bad.append('failed: ' + core.caught(ex)['error'])
    return bad


def distances(bad, pool, d, rs):
    a, b = pool[d['i'] - 1], pool[d['j'] - 1]
    rho = float(np.sqrt(d['num'] / d['den']))
    what = 'values %d and %d' % (d['i'], d['j'])
    for x, y in ((a, b), (b, a)):
        got = x.distance_from(y)
        arr = x.distance_from(y.get_matrix() * np.exp(1j * rs.uniform(0, 7)))
        for v in (got, arr):
            if not abs(v - (1 - rho)) <= TOL:
                bad.append('distance of %s is %r instead of %r' % (
                    what, v, 1 - rho))
            if not -1e-12 <= v <= 1 + 1e-12:
                bad.append('distance %r of %s' % (v, what))
        t = d['t']
        for T in sorted({0, max(0, t - 1), t, min(10000, t + 1), 10000}):
            if abs(rho - T / 10000) < 3e-8 and not (T == t and d['exact']):
                continue
            got = x.close_to(y, T / 10000)
            if bool(got) != (T <= t):
                bad.append('close_to of %s with threshold %s is %s, the '
                           'overlap is %r' % (what, T / 10000, got, rho))
        for dt in (1e-6, -1e-6):
            if 0 <= rho + dt <= 1 and bool(x.close_to(y, rho + dt)) != (
                    dt < 0):
                bad.append('close_to of %s with threshold %r, overlap %r' % (
                    what, rho + dt, rho))
        if d['num'] == d['den'] or 1 - rho > 1e-6:
            for v in (x.close_to(y), x.close_to(y, 1.0), x.close_to(y, None)):
                if bool(v) != (d['num'] == d['den']):
                    bad.append('close_to of %s is %s, the overlap is %r' % (
                        what, v, rho))


def algebra(check, rng):
    big = THOROUGH
    handles = []
    for i, st in enumerate(STARTS):
        ops = ['inv', 'left', 'right', 'tensor']
        handles.append(algebra_start(
            st, ops, 8 if i < 8 else 24, 5 if i not in (3, 8, 9) else 4,
            (40 if i < 8 else 25) if not big else 500,
            100 * SEED + i))
    # every history of two operations
    for st in ([STARTS[0][:2] + STARTS[5][2:3]] if not big else STARTS):
        handles.append(algebra_start(
            st, ['inv', 'left', 'right', 'tensor'], 8, 2, None, 0))
    tasks = []
    for h in handles:
        res = core.tlc_wait(h)
        log('algebra', len(res.records), round(res.wall, 1))
        check.add('states', max(res.distinct, len(res.records)))
        check.add('transitions', res.generated)
        tasks += [(r, int(rng.randint(2 ** 30))) for r in res.records]
    with multiprocessing.get_context('fork').Pool(CORES) as pool:
        outs = pool.map(algebra_case, tasks, chunksize=8)
    for (r, s), bad in zip(tasks, outs):
        check.add('histories_replayed')
        check.add('distances_compared', len(r['dist']))
        for b in bad:
            check.violation('after %s: %s' % (
                [(h['k'], h['i'], h['j']) for h in r['hist']], b),
                {'hist': r['hist'], 'seed': s})
    for r, _ in tasks[:2]:
        check.sample(str([(h['k'], h['i'], h['j']) for h in r['hist']]))
    near(check)
    laws(check, rng)


def near(check):
    '''Almost equal operators: rz with tangent p / q has overlap
    cos(p / q) = 1 - (p/q)^2 / 2 + ...; numpy's tolerance is 1e-8.'''
    body = core.module('MC', 'Integers, Sequences, TLC, Json', (
        'QS == {2000, 5000, 6500, 7700, 12000, 20000}\n'
        'VARIABLE x\nInit == x \\in QS \\X {1, -1}\nNext == UNCHANGED x\n'
        'Spec == Init /\\ [][Next]_x\n'
        '\\* p^2 / (2 q^2) <= 10^-8\n'
        'Close == x[1] * x[1] >= 100000000 \\div 2\n'
        'Tell == PrintT("@@" \\o ToJson([q |-> x[1], p |-> x[2], '
        'close |-> Close]))\n'))
    res = core.tlc('MC', body, 'SPECIFICATION Spec\nINVARIANT Tell\n'
                   'CHECK_DEADLOCK FALSE\n')
    for r in res.records:
        a = UnitaryDefinitions.rz(at(r['p'], r['q']))
        for v in (Unitary.identity(2), UnitaryDefinitions.rx(0.0)):
            for f in (lambda: a.close_to(v), lambda: v.close_to(a),
                      lambda: a.close_to(v, 1.0), lambda: v.close_to(a, 1.0)):
                check.add('distances_compared')
                ok, got = attempt(f)
                if not ok or bool(got) != r['close']:
                    check.violation(
                        'rotations differing by an angle with tangent %d/%d: '
                        'close is %s' % (r['p'], r['q'], got), r)


def laws(check, rng):
    '''The laws that TLC checked in Algebra.tla, on random operators of all
    sizes.'''
    big = THOROUGH
    for i in range(600 if big else 120):
        d = int([1, 2, 3, 4, 5, 8, 16, 32, 64][rng.randint(9)])
        s = int(rng.randint(2 ** 30))
        guard(check, 'laws for dimension %d, seed %d' % (d, s),
              lambda: laws_case(check, d, s))
        check.add('laws_checked')


def shaped(rs, d):
    '''A random operator, or one very near to a simple one.'''
    k = rs.randint(7)
    if k < 3:
        return haar(rs, d)
    h = random_hermitian(rs, d)
    if k == 3:
        h = h.real + 0j
    w, v = np.linalg.eigh(h)
    eps = 10 ** rs.uniform(-9, -1)
    near = (v * np.exp(1j * eps * w / max(abs(w)))) @ v.conj().T
    base = np.eye(d, dtype=complex)
    if k == 5:
        base = np.diag(np.exp(1j * rs.uniform(0, 7, d)))
    elif k == 6:
        base = base[rs.permutation(d)]
    return base @ near


def random_hermitian(rs, d):
    a = rs.normal(size=(d, d)) + 1j * rs.normal(size=(d, d))
    return a + a.conj().T


def laws_case(check, d, s):
    rs = np.random.RandomState(s)
    ms = [shaped(rs, d) for _ in range(3)]
    a, b, c = [Unitary(d, m.copy()) for m in ms]
    eye = Unitary.identity(d)
    r = Unitary.random(d)

    def want(ok, what):
        if not ok:
            check.violation('%s (dimension %d, seed %d)' % (what, d, s),
                            [what, d, s])

    def same(u, m, what):
        want(phase_diff(m, u.get_matrix()) < 2e-12 * (1 + d), what)
    same(eye, np.eye(d), 'identity')
    want(np.allclose(r.get_matrix() @ r.get_matrix().conj().T, np.eye(d)),
         'random operator')
    for u, m in ((a, ms[0]), (b, ms[1])):
        same(u, m, 'matrix')
        same(u.inverse(), m.conj().T, 'inverse')
        same(u.inverse().inverse(), m, 'inverse of inverse')
        same(u.left_multiply(u.inverse()), np.eye(d), 'u inverse(u)')
        same(u.right_multiply(eye), m, 'u identity')
        want(abs(np.linalg.det(u.get_matrix()) - 1) < 1e-7, 'determinant')
    same(a.left_multiply(b), ms[1] @ ms[0], 'left product')
    same(a.right_multiply(b), ms[0] @ ms[1], 'right product')
    same(a.left_multiply(b).inverse(), (ms[1] @ ms[0]).conj().T,
         'inverse of product')
    if d <= 8:
        same(a.tensor(b), np.kron(ms[0], ms[1]), 'tensor product')
        same(a.tensor(b).left_multiply(b.tensor(c)),
             np.kron(ms[1] @ ms[0], ms[2] @ ms[1]), 'mixed product')
    for e in (1, 2, 3, 5, 8):
        if d * e > 64:
            continue
        m = shaped(rs, e)
        f = Unitary(e, m.copy())
        same(a.tensor(f), np.kron(ms[0], m), 'tensor product with %d' % e)
        same(f.tensor(a), np.kron(m, ms[0]), 'tensor product of %d' % e)
        want(a.tensor(f).get_dimension() == d * e, 'dimension of a product')
    x = a.distance_from(b)
    want(abs(x - (1 - abs(np.trace(ms[0].conj().T @ ms[1])) / d)) < 1e-9,
         'distance')
    want(abs(x - b.distance_from(a)) < 1e-9, 'symmetry of the distance')
    want(-1e-12 <= x <= 1 + 1e-12, 'range of the distance')
    want(abs(a.distance_from(Unitary(d, ms[0] * np.exp(2.1j)))) < 1e-9,
         'distance of a multiple')
    want(abs(c.left_multiply(a).distance_from(c.left_multiply(b)) -
             c.right_multiply(a).distance_from(c.right_multiply(b))) < 1e9,
         'invariance')
    want(abs(a.left_multiply(c).distance_from(b.left_multiply(c)) - x) < 1e-9,
         'left invariance of the distance')
    want(abs(a.right_multiply(c).distance_from(b.right_multiply(c)) - x)
         < 1e-9, 'right invariance of the distance')
    want(abs(a.inverse().distance_from(b.inverse()) - x) < 1e-9,
         'distance of inverses')
    want(bool(a.close_to(b, 1 - x)), 'closeness at the boundary')
    if x < 1 - 1e-5:
        want(bool(a.close_to(b, 1 - x - 1e-5)), 'closeness')
    if x > 1e-5:
        want(not a.close_to(b, 1 - x + 1e-5), 'closeness beyond')
        want(not a.close_to(b), 'closeness of different operators')
    want(bool(a.close_to(Unitary(d, -1j * ms[0]))), 'closeness of a multiple')


# ---------------------------------------------------------------------------
# C11

def gates_start(pq, ph, gn, gpq):
    body = core.module('MC', 'Gates', 'A == %s\nB == %s\nC == %s\nD == %s\n' %
                       (tla(pq), tla(ph), tla(set(gn)), tla(gpq)))
    cfg = ('CONSTANTS PQ<-A PH<-B GmsN<-C GmsPQ<-D\nSPECIFICATION Spec\n'
           'CHECK_DEADLOCK FALSE\nINVARIANT Tell\nINVARIANT Unitary_\n'
           'INVARIANT Width_\nINVARIANT Generated\nINVARIANT Adds\n'
           'INVARIANT Textbook\nINVARIANT Gms_Symmetric\n'
           'INVARIANT Gms_Diagonal\n')
    return core.tlc_start('MC', body, cfg, workers=2)


def mod2pi(x):
    y = float(x) % (2 * np.pi)
    return y


def gate_variants(g, rs):
    '''(what, thunk giving the Unitary, expected parameters) for a gate.'''
    D, P = UnitaryDefinitions, ParameterizedUnitaryDefinitions
    k = g[0]
    out = []
    turn = [0, 2 * np.pi, -2 * np.pi, 4 * np.pi, 200 * np.pi, -64 * np.pi]

    def pars(u, want):
        return u, want
    if k in ('rx', 'ry', 'rz', 'xx'):
        base = at(g[1], g[2]) if k != 'xx' else float(np.arctan2(g[1], g[2]))
        f = getattr(D, k)
        for t in [turn[0]] + [turn[rs.randint(1, 6)]]:
            th = base + t
            out.append(('%s(%r)' % (k, th), lambda th=th: f(th),
                        {'θ': (th, True)}, False))
        th = np.float64(base)
        out.append(('%s(np.float64(%r))' % (k, base), lambda: f(th),
                    {'θ': (base, True)}, False))
        if base == 0:
            out.append(('%s(0)' % k, lambda: f(0), {'θ': (0, True)}, False))
        if k == 'xx':
            v = mod2pi(base)
            out.append(('XX([%r])' % v, lambda: P.xx().as_unitary([v]),
                        {'theta': (v, True)}, True))
            if (g[1], g[2]) == (1, 1):
                out.append(('xx()', lambda: D.xx(), {'θ': (np.pi / 4, True)},
                            False))
    elif k == 'rphi':
        th, ph = at(g[1], g[2]), float(np.arctan2(g[4], g[3]))
        t1, t2 = turn[rs.randint(6)], turn[rs.randint(6)]
        for a, b in ((th, ph), (th + t1, ph + t2)):
            out.append(('rphi(%r, %r)' % (a, b), lambda a=a, b=b: D.rphi(a, b),
                        {'θ': (a, True), 'Φ': (b, True)}, False))
        a, b = mod2pi(th), mod2pi(ph)
        out.append(('Rxy(%r, %r)' % (a, b),
                    lambda: P.rotation_xy().as_unitary([a, b]),
                    {'theta': (a, True), 'phi': (b, True)}, True))
    elif k == 'rxyz':
        a = mod2pi(2 * np.arctan2(g[2], g[1]))
        b = mod2pi(at(g[3], g[4]))
        c = mod2pi(2 * np.arctan2(g[6], g[5]))
        # reducing an angle by 2 pi changes the sign only
        out.append(('Rxyz(%r, %r, %r)' % (a, b, c),
                    lambda: P.rotation_xyz().as_unitary(np.array([a, b, c])),
                    {'alpha': (a, True), 'beta': (b, True),
                     'gamma': (c, True)}, True))
    elif k == 'gms':
        n, th = g[1], float(np.arctan2(g[2], g[3]))
        t = turn[rs.randint(6)]
        out.append(('gms(%d, %r)' % (n, th + t), lambda: D.gms(n, th + t),
                    {'θ': (th + t, True)}, False))
        v = mod2pi(th)
        out.append(('GMS%d([%r])' % (n, v),
                    lambda: P.gms(n).as_unitary([v]), {'theta': (v, True)},
                    True))
        if (g[2], g[3]) == (1, 1):
            out.append(('gms(%d)' % n, lambda: D.gms(n),
                        {'θ': (np.pi / 4, True)}, False))
    else:
        f = {'h': D.h, 'x': D.sigmax, 'y': D.sigmay, 'z': D.sigmaz,
             'cnot': D.cnot, 'ccnot': D.ccnot, 'qecc': D.qecc_phase_flip}[k]
        out.append((k, f, {}, False))
    return out


def gates(check, rng):
    big = THOROUGH
    pq = [(p, q) for p in range(-3, 4) for q in range(0, 4)
          if np.gcd(p, q) == 1]
    pq += [(7, 1), (-1, 9), (5, 12), (11, 2)] + [
        (1, 3000), (-1, 30000), (4000, 1), (1, 2000000), (-3, 1000)]
    if big:
        pq += [(p, q) for p in range(-9, 10) for q in range(1, 10)
               if np.gcd(p, q) == 1 and (p, q) not in pq]
    ph = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5),
          (-4, 3, 5), (5, -12, 13), (-8, -15, 17)]
    # entries times phases must fit into 32 bits
    hs = [gates_start(pq[:28], ph, [1, 2, 3, 4], [(0, 1), (1, 1), (1, 2),
                                                 (-1, 3), (1, 0), (2, 1)]),
          gates_start(pq[28:], ph[:5], [5] if not big else [5, 6],
                      [(1, 1), (-1, 1)])]
    wide = core.tlc_start('MC', core.module(
        'MC', 'GmsWide', 'A == %s\nB == %s\n' % (
            tla({2, 3, 4, 5, 6, 7, 8} if big else {2, 4, 5, 6, 7}),
            tla([(1, 1), (-1, 1)] + ([(0, 1)] if big else [])))),
        'CONSTANTS Sizes<-A Angles<-B\nSPECIFICATION Spec\n'
        'CHECK_DEADLOCK FALSE\nINVARIANT Normed\nINVARIANT Parity\n'
        'INVARIANT Whole\nINVARIANT Tell\n', workers=2)
    recs = []
    for h in hs:
        res = core.tlc_wait(h)
        check.add('states', res.distinct)
        check.add('transitions', res.generated)
        recs += res.records
    rs = np.random.RandomState(rng.randint(2 ** 30))
    for r in recs:
        m = cmat(r['m'])
        for what, f, pars, _ in gate_variants(r['g'], rs):
            check.add('gates_compared')
            ok, u = attempt(f)
            if not ok:
                check.violation('%s failed: %s' % (
                    what, core.caught(u)['error']), what)
                continue
            d = phase_diff(m, u.get_matrix())
            if d > 2e-9:
                check.violation('%s differs from its matrix by %.2g' % (
                    what, d), r)
            for n, (v, ang) in pars.items():
                got = u.get_parameter_value(n)
                if got is None or got[0] != v or bool(got[1]) != ang:
                    check.violation('%s: parameter %s is %r' % (what, n, got),
                                    what)
            if u.get_parameter_value('nothing') is not None:
                check.violation('%s: unknown parameter' % what, what)
    for r in recs[:3]:
        check.sample(str(r['g']))
    res = core.tlc_wait(wide)
    check.add('states', res.distinct)
    check.add('transitions', res.generated)
    for r in res.records:
        n = r['n']
        col = np.array([complex(*z) for z in r['col']])
        ix = np.arange(2 ** n)
        m = (col / np.linalg.norm(col))[ix[:, None] ^ ix[None, :]]
        th = float(np.arctan2(r['p'], r['q']))
        for what, f in (('gms', lambda: UnitaryDefinitions.gms(n, th)),
                        ('GMS', lambda: ParameterizedUnitaryDefinitions.gms(n)
                         .as_unitary([mod2pi(th)]))):
            check.add('gates_compared')
            ok, u = attempt(f)
            if not ok:
                check.violation('%s of %d qubits failed: %s' % (
                    what, n, core.caught(u)['error']), r['n'])
            elif phase_diff(m, u.get_matrix()) > 1e-8:
                check.violation('%s of %d qubits at %r' % (what, n, th), n)
    # T: its square is rz(pi/2), and it is nearer to the identity than the
    # other root; and it is rz(pi/4)
    t = UnitaryDefinitions.t()
    s = cmat([[[1, -1], [0, 0]], [[0, 0], [1, 1]]])
    if phase_diff(s, t.get_matrix() @ t.get_matrix()) > TOL or \
            abs(t.distance_from(Unitary.identity(2)) -
                (1 - np.cos(np.pi / 8))) > TOL or \
            phase_diff(np.diag([1, np.exp(0.25j * np.pi)]),
                       t.get_matrix()) > TOL:
        check.violation('T gate', 't')
    anyangle(check, rng)


def anyangle(check, rng):
    '''Arbitrary angles: judged by TLC in fixed point (3e-4), and by the law
    that angles add (1e-9), which TLC checked on the exact gates.'''
    big = THOROUGH
    D, P = UnitaryDefinitions, ParameterizedUnitaryDefinitions
    cases, labels = [], []
    for i in range(400 if big else 80):
        k = ['rx', 'ry', 'rz', 'rxy', 'rxyz', 'xx', 'gms'][i % 7]
        npar = {'rxy': 2, 'rxyz': 3}.get(k, 1)
        p = [float(rng.uniform(0, 2 * np.pi)) for _ in range(npar)]
        n = 1 + i % 4
        fs = {'rx': [lambda: D.rx(*p)], 'ry': [lambda: D.ry(*p)],
              'rz': [lambda: D.rz(*p)],
              'rxy': [lambda: D.rphi(*p),
                      lambda: P.rotation_xy().as_unitary(p)],
              'rxyz': [lambda: P.rotation_xyz().as_unitary(p)],
              'xx': [lambda: D.xx(*p), lambda: P.xx().as_unitary(p)],
              'gms': [lambda: D.gms(n, *p), lambda: P.gms(n).as_unitary(p)]}
        for f in fs[k]:
            ok, u = attempt(f)
            lb = '%s %s n=%d' % (k, p, n)
            if not ok:
                check.violation('%s failed: %s' % (
                    lb, core.caught(u)['error']), lb)
                continue
            cases.append({'g': k, 'n': n, 'p': [
                int(round(x * 20000)) for x in p], 'm': [
                    [[int(round(z.real * 20000)), int(round(z.imag * 20000))]
                     for z in row] for row in u.get_matrix()]})
            labels.append(lb)
    # gates of one's own: the same name and the same values, other matrices
    own = {k: ParameterizedUnitary(
        d, lambda t, f=f: f(t).get_matrix(),
        [ParameterizedUnitaryParameter('t', 0, 7, True)], 'G')
        for k, d, f in (('rx', 2, D.rx), ('ry', 2, D.ry), ('rz', 2, D.rz),
                        ('xx', 4, D.xx), ('gms', 4, lambda t: D.gms(2, t)))}
    for i in range(6):
        v = [0.0, 0.7, 0.7, 3.0, float(rng.uniform(0, 7)), 0.7][i]
        for k in [list(own)[j] for j in rng.permutation(5)]:
            ok, u = attempt(lambda: own[k].as_unitary([v]))
            lb = '%s of one\'s own at %r' % (k, v)
            if not ok:
                check.violation('%s failed: %s' % (
                    lb, core.caught(u)['error']), lb)
                continue
            cases.append({'g': k, 'n': 2 if k == 'gms' else 1, 'p': [
                int(round(v * 20000))], 'm': [
                    [[int(round(z.real * 20000)), int(round(z.imag * 20000))]
                     for z in row] for row in u.get_matrix()]})
            labels.append(lb)
    body = core.module('MC', 'GateFix, Json', (
        'Cases == JsonDeserialize("g.json")\nVARIABLE i\n'
        'Init == i \\in 1..Len(Cases)\nNext == UNCHANGED i\n'
        'Spec == Init /\\ [][Next]_i\n'
        'Verdict == PrintT("@@" \\o ToJson([case |-> i, ok |-> FSameP('
        'GateF(Cases[i].g, Cases[i].n, Cases[i].p), Cases[i].m, 14)]))\n'))
    res = core.tlc('MC', body, 'SPECIFICATION Spec\nINVARIANT Verdict\n'
                   'CHECK_DEADLOCK FALSE\n', data={'g.json': cases},
                   workers=8)
    seen = {r['case']: r['ok'] for r in res.records}
    for i, lb in enumerate(labels, 1):
        check.add('traces_validated_against_impl')
        if i not in seen:
            raise core.MachineryError('no verdict')
        if not seen[i]:
            check.violation('%s is not the gate it should be' % lb, lb)
    for i in range(400 if big else 80):
        a = float(rng.uniform(-20, 20))
        b = float(rng.uniform(-20, 20))
        n = int(rng.randint(2, 7))
        phi = float(rng.uniform(-20, 20))

        def law():
            for f in (D.rx, D.ry, D.rz, D.xx, lambda t: D.gms(n, t),
                      lambda t: D.rphi(t, phi)):
                x, y, z = f(a), f(b), f(a + b)
                if phase_diff(z.get_matrix(), x.get_matrix() @
                              y.get_matrix()) > 1e-8:
                    check.violation('angles %r and %r do not add' % (a, b),
                                    [a, b, n])
            x = D.rz(phi).get_matrix() @ D.rx(a).get_matrix() \
                @ D.rz(-phi).get_matrix()
            if phase_diff(x, D.rphi(a, phi).get_matrix()) > 1e-8:
                check.violation('rphi(%r, %r)' % (a, phi), [a, phi])
            v = [mod2pi(a), mod2pi(b), mod2pi(phi)]
            x = D.rz(v[0]).get_matrix() @ D.ry(v[1]).get_matrix() \
                @ D.rz(v[2]).get_matrix()
            if phase_diff(x, P.rotation_xyz().as_unitary(v).get_matrix()) \
                    > 1e-8:
                check.violation('rotation_xyz%r' % (v,), v)
        guard(check, 'laws at %r %r' % (a, b), law)
        check.add('laws_checked')


def params_start(ranges, values):
    body = core.module('MC', 'Params', 'A == %s\nB == %s\n' % (
        tla(ranges), tla(set(tuple(v) for v in values))))
    cfg = ('CONSTANTS Ranges<-A Values<-B\nSPECIFICATION Spec\n'
           'CHECK_DEADLOCK FALSE\nINVARIANT Tell\nINVARIANT Ends_In\n'
           'INVARIANT Beyond_Out\nINVARIANT Dict_Matches\n')
    return core.tlc_start('MC', body, cfg)


def real_value(v, unit):
    if v[0] == 9:
        return float('nan')
    x = v[0] * unit
    if v[1]:
        x = float(np.nextafter(x, np.inf * v[1]))
    return x


def params(check, rng, only_refusals=False):
    '''Every request to small parameterised unitaries.'''
    big = THOROUGH
    sets = [[[0, 2, True]], [[-1, 1, False], [0, 2, True]],
            [[1, 1, True], [-2, 0, False]],
            [[0, 2, True], [-1, 1, False], [0, 1, True]],
            [[-2, 1, True], [-2, -1, False]], [[-9, 7, True], [8, 8, False]]]
    handles = []
    for r in sets:
        ends = sorted({x for q in r for x in q[:2]})
        vals = [(e, d) for e in ends for d in (-1, 0, 1)] + [(9, 0)]
        if len(r) == 3 and not big:
            vals = [(-1, -1), (-1, 0), (0, 0), (0, -1), (1, 0), (1, 1),
                    (2, 0), (9, 0)]
        handles.append((r, params_start(r, vals)))
    for r, h in handles:
        res = core.tlc_wait(h)
        check.add('states', res.distinct)
        check.add('transitions', res.generated)
        unit = float([1.0, np.pi, 0.3][rng.randint(3)])
        calls = []

        def matrix(*a):
            calls.append(a)
            return UnitaryDefinitions.rphi(
                sum((i + 1) * x for i, x in enumerate(a)), a[0]).get_matrix()
        names = ['zeta', 'alpha', 'mu'][:len(r)]
        ok, pu = attempt(lambda: ParameterizedUnitary(2, matrix, [
            ParameterizedUnitaryParameter(n, q[0] * unit, q[1] * unit, q[2])
            for n, q in zip(names, r)], 'V'))
        if not ok:
            check.violation('ParameterizedUnitary: ' +
                            core.caught(pu)['error'], r)
            continue
        for rec in res.records:
            vals = [real_value(v, unit) for v in rec['req']]
            given = list(vals) if rng.rand() < 0.5 else np.array(vals)
            ok, u = attempt(lambda: pu.as_unitary(given))
            check.add('requests_compared')
            what = 'as_unitary(%r) with ranges %r times %r' % (vals, r, unit)
            if ok != rec['ok']:
                if not ok and only_refusals:
                    continue
                check.violation('%s %s' % (
                    what, 'was not refused' if ok else 'was refused: '
                    + core.caught(u)['error']), [r, vals])
                continue
            if not ok or only_refusals:
                continue
            if isinstance(given, list):
                given[0] = 77.0
            else:
                given[...] = 77.0
            want = UnitaryDefinitions.rphi(
                sum((i + 1) * x for i, x in enumerate(vals)), vals[0])
            if phase_diff(want.get_matrix(), u.get_matrix()) > TOL:
                check.violation(what + ': wrong matrix', [r, vals])
            if u.get_operation_name() != 'V':
                check.violation(what + ': wrong name', [r, vals])
            for d in rec['dict']:
                got = u.get_parameter_value(names[d['name'] - 1])
                w = real_value(d['value'], unit)
                if got is None or got[0] != w or bool(got[1]) != d['angle']:
                    check.violation('%s: parameter %s is %r' % (
                        what, names[d['name'] - 1], got), [r, vals])
    # the library's own
    P = ParameterizedUnitaryDefinitions
    hm = np.array([[1.0, 0.5], [0.5, -1.0]])
    two = 2 * np.pi
    libs = [(P.rotation_xy(), [(0, two)] * 2, ['theta', 'phi'], True),
            (P.rotation_xyz(), [(0, two)] * 3, ['alpha', 'beta', 'gamma'],
             True),
            (P.xx(), [(0, two)], ['theta'], True),
            (P.time_evolution(hm, -0.7, 1.3, 'z'), [(-0.7, 1.3)], ['t'],
             False)]
    ok, u = attempt(lambda: P.time_evolution(hm, 0.4, 0.4))
    if ok:
        libs.append((u, [(0.4, 0.4)], ['t'], False))
    elif not only_refusals:
        check.violation('an evolution for a single time was refused: '
                        + core.caught(u)['error'], 0.4)
    libs += [(P.gms(n), [(0, two)], ['theta'], True) for n in (2, 3)]
    for pu, rg, names, ang in libs:
        mid = [(a + b) / 2 for a, b in rg]
        for i, (a, b) in enumerate(rg):
            for v, fine in ((a, True), (b, True), ((a + b) / 2, True),
                            (np.nextafter(a, -9), False),
                            (np.nextafter(b, 9), False), (b + 1e-9, False),
                            (a - 1e-9, False), (a - 100, False),
                            (b + 100, False), (np.inf, False),
                            (-np.inf, False), (np.nan, False)):
                vals = mid[:i] + [float(v)] + mid[i + 1:]
                ok, u = attempt(lambda: pu.as_unitary(vals))
                check.add('requests_compared')
                if ok != fine and not (only_refusals and not ok):
                    check.violation('%s at %r was %s' % (
                        pu.get_operation_name(), vals,
                        'accepted' if ok else 'refused'), vals)
                elif ok and not only_refusals:
                    for n, w in zip(names, vals):
                        got = u.get_parameter_value(n)
                        if got is None or got[0] != w or \
                                bool(got[1]) != ang:
                            check.violation('%s at %r: parameter %s is %r' % (
                                pu.get_operation_name(), vals, n, got), vals)
        for vals in (mid[:-1], mid + [mid[0]], mid + mid, []):
            ok, u = attempt(lambda: pu.as_unitary(list(vals)))
            check.add('requests_compared')
            if ok:
                check.violation('%s accepted %d values' % (
                    pu.get_operation_name(), len(vals)), vals)


# ---------------------------------------------------------------------------
# C18

SYMBOLS = {'{th}': 'θ', '{Ph}': 'Φ', '{pi}': 'π', '{dagger}': '†',
           '{lam}': 'λ'}
BACK = {v: k for k, v in SYMBOLS.items()}


def code(s):
    for v, k in BACK.items():
        s = s.replace(v, k)
    return s.encode('ascii', 'replace').decode()


def plain(s):
    for k, v in SYMBOLS.items():
        s = s.replace(k, v)
    return s


NUMBER = re.compile(r'(?<![\w\[.])-?\d+(?:\.\d+)?(?:e[+-]?\d+)?(?![\w.])')


def tidy(s):
    '''Blank space and the style of numbers do not matter.'''
    def num(m):
        d = Decimal(m.group(0)).normalize()
        return format(d, 'f') if d else '0'
    s = s.replace('π', ' π').replace('pi*', 'pi* ')
    return NUMBER.sub(num, re.sub(r'\s+', ' ', s.strip()))


def decimal_record(x):
    '''A float as a nine-digit decimal, or None if rounding it to 3, 4 or 7
    digits is too close to call.'''
    d = abs(Decimal(x)).quantize(Decimal('1.000000000'))
    i = int(d)
    f = int((d - i) * 10 ** 9)
    if i >= 2 * 10 ** 9:
        return None
    for k in (3, 4, 7):
        u = 10 ** (9 - k)
        if abs(f % u - u // 2) <= (2 if k == 7 else 20):
            return None
    return {'s': x < 0, 'i': i, 'f': f}


def voc_item(name, pars, qs, shown=True):
    out = []
    for n, v, ang in pars:
        p, d = decimal_record(v / np.pi), decimal_record(v)
        if p is None or d is None:
            return None
        out.append({'n': code(n), 'angle': ang, 'p': p, 'd': d})
    return {'name': code(name), 'pars': out, 'q': list(qs), 'shown': shown}


def text_value(rs, lo=None, hi=None):
    while True:
        k = rs.randint(9)
        v = [rs.uniform(-7, 7), round(rs.uniform(-7, 7), rs.randint(0, 5)),
             rs.uniform(-1, 1) * 10.0 ** -rs.randint(1, 9),
             np.pi * rs.randint(-8, 9) / [1, 2, 3, 4, 6, 8][rs.randint(6)],
             rs.uniform(-999, 999), float(rs.randint(-3, 4)),
             float(rs.randint(0, 3)) * np.pi, 10.0 ** -rs.randint(0, 8),
             rs.uniform(-1e6, 1e6)][k]
        v = float(v)
        if lo is not None:
            v = min(max(v, lo), hi)
        if decimal_record(v) and decimal_record(v / np.pi):
            return v


def text_gate(rs, maxw):
    '''(thunk, name, [(parameter, value, angle)], width)'''
    D, P = UnitaryDefinitions, ParameterizedUnitaryDefinitions
    two = 2 * np.pi
    while True:
        k = rs.randint(22)
        a, b, c = [text_value(rs) for _ in range(3)]
        x, y, z = [text_value(rs, 0, two) for _ in range(3)]
        n = rs.randint(2, 4) if rs.rand() < 0.6 else rs.randint(4, 6)
        h1 = np.array([[1.0, 0.25], [0.25, -0.5]])
        sfx = ['', '1', ' ab', '0,2', ' λ/N'][rs.randint(5)]
        opts = [
            (lambda: D.rx(a), 'Rx', [('θ', a, True)], 1),
            (lambda: D.ry(a), 'Ry', [('θ', a, True)], 1),
            (lambda: D.rz(a), 'Rz', [('θ', a, True)], 1),
            (lambda: D.rphi(a, b), 'R', [('θ', a, True), ('Φ', b, True)], 1),
            (lambda: D.xx(a), 'XX', [('θ', a, True)], 2),
            (lambda: D.gms(n, a), 'GMS%d' % n, [('θ', a, True)], n),
            (lambda: D.h(), 'H', [], 1), (lambda: D.t(), 'T', [], 1),
            (lambda: D.sigmax(), 'X', [], 1),
            (lambda: D.sigmay(), 'Y', [], 1),
            (lambda: D.sigmaz(), 'Z', [], 1),
            (lambda: D.cnot(), 'CNOT', [], 2),
            (lambda: D.ccnot(), 'CCNOT', [], 3),
            (lambda: P.rotation_xy().as_unitary([x, y]), 'Rxy',
             [('theta', x, True), ('phi', y, True)], 1),
            (lambda: P.rotation_xyz().as_unitary([x, y, z]), 'Rxyz',
             [('alpha', x, True), ('beta', y, True), ('gamma', z, True)], 1),
            (lambda: P.xx().as_unitary(np.array([x])), 'XX',
             [('theta', x, True)], 2),
            (lambda: P.gms(n).as_unitary([x]), 'GMS%d' % n,
             [('theta', x, True)], n),
            (lambda: D.time_evolution(h1, a, sfx), 'H' + sfx,
             [('t', a, False)], 1),
            (lambda: P.time_evolution(h1, -1e7, 1e7, sfx).as_unitary([a]),
             'H' + sfx, [('t', a, False)], 1),
            (lambda: Unitary(4, haar(np.random.RandomState(3), 4), 'W', {
                'zz': (a, False), 'aa': (b, True), 'mm': (c, False)}), 'W',
             [('zz', a, False), ('aa', b, True), ('mm', c, False)], 2),
            (lambda: Unitary(2 ** n, haar(np.random.RandomState(4), 2 ** n),
                             'Wide'), 'Wide', [], n),
            (lambda: Unitary(2 ** n, haar(np.random.RandomState(5), 2 ** n),
                             'my_%d' % n, {'k': (a, True)}), 'my_%d' % n,
             [('k', a, True)], n)]
        f, name, pars, w = opts[k]
        if w <= maxw:
            return f, name, pars, w


def lines_of(text, mark):
    ls = text.split('\n')
    if not ls or not ls[0].startswith(mark):
        return None
    return [x for x in ls[1:] if x.strip()]


def tokens_in_order(line, want):
    '''Whether the line of an inverted entry names the same things.'''
    parts = [p for p in re.split(r'[\s,;()]+', tidy(want)) if p]
    i = 0
    s = tidy(line)
    for p in parts:
        i = s.find(p, i)
        if i < 0:
            return False
        i += len(p)
    return True


def compare_text(seq, es, voc, neg):
    '''es: numbers of vocabulary entries, negative if inverted.'''
    bad = []
    for kind, mark, text in (('qasm', '#', seq.get_qasm()),
                             ('jaqal', '//', seq.get_jaqal()),
                             ('show', '#', seq.get_display_output())):
        ls = lines_of(text, mark)
        if ls is None:
            bad.append('%s output has no header' % kind)
            continue
        if len(ls) != len(es):
            bad.append('%s output has %d lines for %d entries' % (
                kind, len(ls), len(es)))
            continue
        for v, line in zip(es, ls):
            item = voc[abs(v) - 1]
            want = plain(item['inv' if kind == 'show' and v < 0 else kind])
            if kind != 'show' and v < 0:
                ok = tokens_in_order(line, want)
            else:
                ok = tidy(line) == tidy(want)
            if not ok:
                bad.append('%s line %r instead of %r' % (kind, line, want))
    return bad


def text_start(voc, maxlen, maxops, sim, seed):
    body = core.module('MC', 'Text', 'V == %s\n' % tla(voc))
    cfg = ('CONSTANTS Voc<-V MaxLen=%d MaxOps=%d\nSPECIFICATION Spec\n'
           'CHECK_DEADLOCK FALSE\nINVARIANT Vocab\nINVARIANT Twice_Inverted\n'
           'INVARIANT Lines\n' % (maxlen, maxops))
    if sim:
        cfg += 'INVARIANT Tell\n'
        return core.tlc_start('MC', body, cfg, simulate=sim,
                              depth=maxops + 2, seed=seed)
    return core.tlc_start('MC', body, cfg.replace('MaxOps=%d' % maxops,
                                                  'MaxOps=0'))


def text_history(args):
    hist, voc, items, n, seed = args
    rs = np.random.RandomState(seed)
    dim = 2 ** n
    bad = []

    def entry(v):
        f, qs = items[abs(v) - 1]
        u = f()
        if v < 0:
            u = u.inverse()
        if rs.rand() < 0.2:
            u = u.inverse().inverse()
        return UnitarySequenceEntry(u, as_given(rs, qs))
    try:
        with limit(120):
            seq = UnitarySequence(dim, [])
            for i, h in enumerate(hist):
                k, v = h['k'], h['v']
                if k == 'last':
                    seq.append_last(entry(v))
                elif k == 'first':
                    seq.append_first(entry(v))
                elif k == 'lastN':
                    seq.append_last(entry(v), save_undo=False)
                elif k == 'firstN':
                    seq.append_first(entry(v), save_undo=False)
                elif k == 'remf':
                    seq.remove_first()
                elif k == 'reml':
                    seq.remove_last()
                elif k == 'many':
                    for j in range(h['n']):
                        seq.append_last(entry(v), **(
                            {'save_undo': False} if j else {}))
                elif k == 'undo':
                    seq.undo()
                elif k == 'inv':
                    seq = seq.inverse()
                elif k == 'rebuild':
                    seq = UnitarySequence(dim, seq.get_sequence_entries())
                elif k == 'twice':
                    seq = UnitarySequence.combine(seq, seq)
                elif k == 'prod':
                    seq.product()
                if k == 'show' or i == len(hist) - 1 or rs.rand() < 0.3:
                    b = compare_text(seq, h['es'], voc, None)
                    if b:
                        ops = [(x['k'], x['v'], x['n']) for x in hist[:i + 1]]
                        return ['%s after %s' % (x, ops) for x in b]
    except Exception as ex:
        bad.append('failed: ' + core.caught(ex)['error'])
    return bad


def texts(check, rng):
    big = THOROUGH
    rs = np.random.RandomState(rng.randint(2 ** 30))
    runs = []
    for j in range(24 if big else 8):
        n = [1, 2, 3, 4, 3, 2, 5, 5][j % 8]
        voc, items = [], []
        while len(voc) < 8:
            f, name, pars, w = text_gate(rs, n)
            qs = [int(q) for q in rs.permutation(n)[:w]]
            it = voc_item(name, pars, qs)
            if it:
                voc.append(it)
                items.append((f, qs))
        runs.append((n, items, text_start(
            voc, 8, 14, 400 if big else 120, 100 * SEED + j)))
    # many single lines, in sequences and alone
    lines, litems = [], []
    while len(lines) < (4000 if big else 1500):
        f, name, pars, w = text_gate(rs, 5)
        n = int(rs.randint(w, 7))
        qs = [int(q) for q in rs.permutation(n)[:w]]
        alone = rs.rand() < 0.35
        if alone:
            qs = list(range(w))
            if rs.rand() < 0.5:
                # labelled with qubits of a larger system
                qs = [int(q) for q in rs.permutation(130)[:w]]
                alone = 'labelled'
        it = voc_item(name, pars, qs, alone is not True)
        if it:
            lines.append(it)
            litems.append((f, qs, n, alone, name, pars))
    lh = text_start(lines, 1, 0, None, 0)
    # what the library itself produces
    made, mitems = [], []
    for what, seq in produced(check, rng):
        for e in seq.get_sequence_entries():
            full = e.get_full_unitary(seq.get_dimension())
            qs = [int(q) for q in e.get_apply_to()]
            pars = parameters_of(e.unitary)
            it = voc_item(e.unitary.get_operation_name(), pars, qs)
            if it is None:
                # too close to call: leave the number out of the comparison
                it = voc_item('?', [], qs)
            made.append(it)
            mitems.append(bool(full.is_inverse))
    mh = text_start(made, 1, 0, None, 0)
    tasks = []
    for n, items, h in runs:
        res = core.tlc_wait(h)
        check.add('states', max(res.distinct, len(res.records)))
        check.add('transitions', res.generated)
        voc = [r for r in res.records if 'voc' in r][0]['voc']
        for r in res.records:
            if 'hist' in r:
                tasks.append((r['hist'], voc, items, n,
                              int(rng.randint(2 ** 30))))
    # closures cannot be pickled: fork after building
    global _tasks
    _tasks = tasks
    with multiprocessing.get_context('fork').Pool(CORES) as pool:
        outs = pool.map(_text_task, range(len(tasks)), chunksize=8)
    for t, bad in zip(tasks, outs):
        check.add('histories_replayed')
        for b in bad:
            check.violation(b, b)
    voc = [r for r in core.tlc_wait(lh).records if 'voc' in r][0]['voc']
    for (f, qs, n, alone, name, pars), item, raw in zip(litems, voc, lines):
        check.add('lines_compared')

        def case():
            u = f()
            if alone == 'labelled':
                u = Unitary(2 ** len(qs), u.get_matrix(), name, {
                    k: (v, ang) for k, v, ang in pars}, False, list(qs))
            if alone:
                for kind, got in (('qasm', u.get_qasm()),
                                  ('jaqal', u.get_jaqal()),
                                  ('show', u.get_display_name()),
                                  ('inv', u.inverse().get_display_name()),
                                  ('show', u.inverse().inverse()
                                   .get_display_name())):
                    if tidy(got) != tidy(plain(item[kind])):
                        check.violation('%s of a single gate is %r instead '
                                        'of %r' % (kind, got, plain(
                                            item[kind])), raw)
            else:
                seq = UnitarySequence(2 ** n, [
                    UnitarySequenceEntry(u, as_given(rs, qs))])
                for b in compare_text(seq, [1], [item], None):
                    check.violation(b, raw)
        guard(check, 'text of %s on %s' % (raw['name'], qs), case)
    voc = [r for r in core.tlc_wait(mh).records if 'voc' in r][0]['voc']
    at_ = 0
    for what, seq in _produced:
        n = seq.get_length()
        es = [(-1 if mitems[at_ + i] else 1) * (i + 1) for i in range(n)]
        part = voc[at_:at_ + n]
        check.add('lines_compared', n)

        def case():
            for b in compare_text(seq, es, part, None):
                if '?' not in b:
                    check.violation('%s: %s' % (what, b), what)
        guard(check, what, case)
        at_ += n
    for r in voc[:2]:
        check.sample(r['qasm'])


_tasks = None
_produced = None


def _text_task(i):
    return text_history(_tasks[i])


def parameters_of(u):
    '''The parameters of a gate in order, through the public API: names are
    found by asking for the ones the library uses.'''
    names = {'Rxy': ['theta', 'phi'], 'Rxyz': ['alpha', 'beta', 'gamma'],
             'R': ['θ', 'Φ']}.get(u.get_operation_name())
    if names is None:
        names = [n for n in ('θ', 'theta', 't')
                 if u.get_parameter_value(n) is not None]
    return [(n, float(u.get_parameter_value(n)[0]),
             bool(u.get_parameter_value(n)[1])) for n in names]


def produced(check, rng):
    '''Sequences made by the library.'''
    global _produced
    D, P = UnitaryDefinitions, ParameterizedUnitaryDefinitions
    Pr = UnitaryPrimitive
    out = []
    for k in range(6 if THOROUGH else 2):
        s = int(rng.randint(2 ** 30))

        def make():
            seed_all(s)
            free = [Pr(P.rotation_xy()), Pr(P.xx()), Pr(D.cnot()),
                    Pr(D.rz(0.7), [[1], [2]])]
            c = Compiler(8, free)
            out.append(('compiled', c.compile(
                D.ccnot(), 0.99, max_step_count=60).compiled_sequence))
            out.append(('layered', c.compile_layered(
                D.ccnot(), {free[0]: 2, free[1]: 1}, 0.99,
                max_step_count=30).compiled_sequence))
            out.append(('rav', ver.generate_rav_sequence(
                8, free, 6, 0.5, max_step_count=60).compiled_sequence))
            out.append(('layered rav', ver.generate_layered_rav_sequence(
                8, {free[0]: 2, free[2]: 1}, 3, 0.5, max_step_count=60)
                .compiled_sequence))
            out.append(('xeb', ver.generate_xeb_sequence(
                8, {free[0]: 3, free[1]: 1}, 3).compiled_sequence))
            x, z = D.sigmax().get_matrix() * 1j, D.sigmaz().get_matrix() * 1j
            ham = Hamiltonian([
                HamiltonianTerm(np.kron(x, z).real.astype(complex) * 0.5
                                if False else np.kron([[0, 1], [1, 0]],
                                                      [[1, 0], [0, -1]]) * .5),
                HamiltonianTerm(np.kron(np.eye(2), [[0, 1], [1, 0]]) * 1.5)])
            out.append(('trotter', ham.get_trotter_sequence(0.77, 3)))
            out.append(('random trotter', ham.get_trotter_sequence(
                0.77, 3, True)))
            out.append(('qdrift', ham.get_qdrift_sequence(0.77, 6)))
            out.append(('stoq', ham.compile_stoq_sequence(
                0.5, 0.2, 0.9).compiled_sequence))
            out.append(('ham rav', ham.compile_rav_sequence(
                0.9, 0.3, 0.5).compiled_sequence))
            out.append(('inverted', ver.generate_xeb_sequence(
                8, {free[0]: 3, free[1]: 1}, 2).compiled_sequence
                .inverse()))
        guard(check, 'making sequences, seed %d' % s, make)
    _produced = out
    return out


# ---------------------------------------------------------------------------
# C20

def matrix_of(rs, r, c, s):
    m = haar(rs, max(r, c))[:r, :c]
    if s == 'scaled':
        return m * 1.05
    if s == 'shear':
        m = np.eye(r, c, dtype=complex)
        m[0, -1] += 0.3
        m[-1, 0] += 0.2
        return m
    if s in ('tail-shear', 'head-shear') and r > 1:
        # the determinant stays
        m = m.copy()
        i, j = (-1, -2) if s == 'tail-shear' else (0, r // 2)
        m[i] += 0.3 * m[j]
        return m
    if s == 'mid-phase':
        m = m.copy()
        m[r // 2, :(c + 1) // 2] *= np.exp(0.4j)
        return m
    if s == 'rank':
        m = m.copy()
        m[-1, :] = 0
        return m
    if s == 'unit-rows':
        m = rs.normal(size=(r, c)) + 1j * rs.normal(size=(r, c)) + 1
        return m / np.linalg.norm(m, axis=1)[:, None]
    if s == 'ortho-rows':
        m = m.copy()
        m[0] *= np.sqrt(1.5)
        m[-1] *= np.sqrt(0.5)
        return m
    if s in ('off', 'off-little'):
        m = m.copy()
        if s == 'off-little':
            k = np.argmax(abs(m))
            m[k // c, k % c] *= 1 + 5e-4
            return m
        m[rs.randint(r), rs.randint(c)] += 0.01
        return m
    if s == 'nan':
        m = m.copy()
        m[rs.randint(r), rs.randint(c)] = np.nan
        return m
    return m


def hermitian(rs, r, c, s):
    a = rs.normal(size=(r, c)) + 1j * rs.normal(size=(r, c))
    if r == c:
        a = a + a.conj().T
    if s == 'level':
        return np.full((r, c), 0.7)
    if s == 'anti':
        return 1j * a if r == c else a
    if s == 'complex-symmetric' and r == c:
        b = rs.normal(size=(r, c)) + 1j * rs.normal(size=(r, c))
        return b + b.T
    if s == 'one-off':
        a[0, -1] += 0.05
    if s == 'one-off-little':
        a[-1, 0] += 5e-4 * (1 + abs(a[-1, 0]))
    if s == 'complex-diagonal':
        a[-1, -1] += 0.05j
    return a


class Same:
    '''What can be seen of some values, to compare before and after.'''
    def __init__(self, *values):
        self.values = values
        self.before = [self.see(v) for v in values]

    @staticmethod
    def see(v):
        if isinstance(v, Unitary):
            return v.get_matrix().copy()
        w = copy.deepcopy(v)
        out = [w.get_length(), w.get_qasm(), w.get_display_output()]
        p = w.product().get_matrix()
        out.append(p)
        ok, _ = attempt(lambda: w.undo())
        out.append(ok)
        if ok:
            out += [w.get_length(), w.get_qasm(), w.product().get_matrix()]
        return out

    def changed(self):
        def eq(a, b):
            if isinstance(a, list):
                return len(a) == len(b) and all(
                    eq(x, y) for x, y in zip(a, b))
            if isinstance(a, np.ndarray):
                return a.shape == b.shape and np.allclose(a, b)
            return a == b
        return not all(eq(self.see(v), b)
                       for v, b in zip(self.values, self.before))


def request(q, rs):
    '''(thunk making the request, things that must not change)'''
    k = q['k']
    D = UnitaryDefinitions
    if k == 'unitary':
        m = matrix_of(rs, q['r'], q['c'], q['s'])
        return lambda: Unitary(q['d'], m), ()
    if k == 'entry':
        u = Unitary(2 ** q['w'], haar(rs, 2 ** q['w']))
        return lambda: UnitarySequenceEntry(u, list(q['q'])), (u,)
    if k == 'prim':
        u = Unitary(2 ** q['w'], haar(rs, 2 ** q['w']))
        good = [list(range(q['w'])), list(range(1, q['w'] + 1)),
                list(reversed(range(q['w'])))]
        good[q['at'] - 1] = list(q['q'])
        return lambda: UnitaryPrimitive(u, good), (u,)
    if k == 'fit':
        w = len(q['q'])
        e = UnitarySequenceEntry(
            Unitary(2 ** w, haar(rs, 2 ** w)), list(q['q']))
        fill = [UnitarySequenceEntry(D.rx(0.3 * i), [i % q['n']])
                for i in range(3)]
        dim = 2 ** q['n']
        how = q['how']
        if how == 'expand':
            return lambda: e.get_full_unitary(dim), ()
        if how in ('append_first', 'append_last', 'long_first', 'long_last'):
            seq = UnitarySequence(dim, fill[:2])
            if how[:4] == 'long':
                how = 'append' + how[4:]
                more = int(rs.choice([15, 40, 90, 160]))
                for i in range(more):
                    seq.append_last(UnitarySequenceEntry(
                        fill[i % 3].unitary, fill[i % 3].get_apply_to()),
                        save_undo=i == 0 or i == more - 1)
            if rs.rand() < 0.5:
                seq.product()
            if rs.rand() < 0.5:
                seq.append_last(fill[2])
            save = [[], [True], [False]][rs.randint(3)]
            return lambda: getattr(seq, how)(e, *save), (seq,)
        ents = {'only': [e], 'first': [e] + fill, 'last': fill + [e],
                'middle': fill[:1] + [e] + fill[1:],
                'late': fill * 4 + [e] + fill}[how]
        if rs.rand() < 0.3:
            ents = np.array(ents)
        return lambda: UnitarySequence(dim, ents), ()
    if k in ('combine', 'combine-cls', 'combine-some'):
        seqs = [UnitarySequence(2 ** n, [UnitarySequenceEntry(
            D.ry(0.4 + i), [n - 1])] * (
                q['e'][i] if k == 'combine-some' else 1))
                for i, n in enumerate(q['n'])]
        if k == 'combine-cls':
            for s in seqs:
                s.product()
        return lambda: UnitarySequence.combine(*seqs), tuple(seqs)
    if k in ('left', 'right', 'distance', 'distance-array', 'close',
             'close-t'):
        a, b = [Unitary(2 ** n, haar(rs, 2 ** n)) for n in q['n']]
        return {'left': lambda: a.left_multiply(b),
                'right': lambda: a.right_multiply(b),
                'distance': lambda: a.distance_from(b),
                'distance-array': lambda: a.distance_from(b.get_matrix()),
                'close': lambda: a.close_to(b),
                'close-t': lambda: a.close_to(b, 0.2)}[k], (a, b)
    if k == 'target':
        n, m = q['n']
        c = Compiler(2 ** n, [UnitaryPrimitive(D.rx(0.5)),
                              UnitaryPrimitive(D.h())])
        t = Unitary(2 ** m, haar(rs, 2 ** m))
        return lambda: c.compile(t, 0.9, max_step_count=int(
            rs.randint(1, 5))), (t,)
    if k == 'target-layered':
        n, m = q['n']
        pr = UnitaryPrimitive(D.h())
        c = Compiler(2 ** n, [pr])
        t = Unitary(2 ** m, haar(rs, 2 ** m))
        return lambda: c.compile_layered(t, {pr: 1}, 0.9, max_step_count=int(
            rs.randint(1, 5))), (t,)
    if k == 'terms':
        ts = [HamiltonianTerm(hermitian(rs, 2 ** n, 2 ** n, 'hermitian'))
              for n in q['n']]
        return lambda: Hamiltonian(ts), ()
    if k == 'term':
        m = hermitian(rs, q['r'], q['c'], q['s'])
        return lambda: HamiltonianTerm(m), ()
    if k == 'evolution':
        m = hermitian(rs, q['r'], q['r'], q['s'])
        return lambda: D.time_evolution(m, 0.3), ()
    if k == 'param-evolution':
        m = hermitian(rs, q['r'], q['r'], q['s'])
        return lambda: ParameterizedUnitaryDefinitions.time_evolution(
            m, -1.0, 1.0), ()
    big = UnitaryPrimitive(
        Unitary(2 ** q['w'], haar(rs, 2 ** q['w']), 'B'),
        {'all': None, 'none': [], 'one': [list(range(q['w']))]}[q['l']])
    small = UnitaryPrimitive(D.h())
    prims = [small] + [UnitaryPrimitive(D.rx(0.1 * i)) for i in range(4)]
    prims = prims[:2 if q['at'] < 3 else 5]
    prims[min(q['at'], len(prims)) - 1] = big
    dim = 2 ** q['n']
    if k == 'compiler':
        return lambda: Compiler(dim, prims), ()
    if k == 'rav':
        return lambda: ver.generate_rav_sequence(
            dim, prims, 3, 0.0, max_step_count=3), ()
    counts = {p: 1 for p in prims}
    if k == 'layered':
        # a layer is drawn unless the step removes one
        return lambda: Compiler(dim, [small], **(
            {'append_probability': 0.9})).compile_layered(
            Unitary(dim, haar(rs, dim)), counts, 1.0, max_step_count=40), ()
    if k == 'layered-rav':
        return lambda: ver.generate_layered_rav_sequence(
            dim, counts, 2, 0.0, max_step_count=3), ()
    if k == 'xeb':
        return lambda: ver.generate_xeb_sequence(dim, counts, 2), ()
    raise ValueError(k)


def refuse_case(args):
    q, ok, seed = args
    rs = np.random.RandomState(seed)
    seed_all(seed)
    try:
        with limit(60):
            f, held = request(q, rs)
            same = Same(*held)
            got, val = attempt(f)
            if got and not ok:
                return 'was not refused'
            if ok and not got:
                return 'was refused: ' + core.caught(val)['error']
            if not ok and same.changed():
                return 'was refused but changed its operands'
    except Exception as ex:
        return 'failed: ' + core.caught(ex)['error']
    return None


def refusals(check, rng):
    big = THOROUGH
    cfg = ('CONSTANTS MaxQ=%d MaxW=%d\nSPECIFICATION Spec\n'
           'CHECK_DEADLOCK FALSE\nINVARIANT Tell\n' % (2, 3 if big else 2))
    res = core.tlc('MC', core.module('MC', 'Refuse'), cfg, workers=2)
    check.add('states', res.distinct)
    tasks = [(r['q'], r['ok'], int(rng.randint(2 ** 30)))
             for r in res.records for _ in range(4 if big else 1)]
    with multiprocessing.get_context('fork').Pool(CORES) as pool:
        outs = pool.map(refuse_case, tasks, chunksize=64)
    for (q, ok, s), bad in zip(tasks, outs):
        check.add('requests_compared')
        check.add('requests_to_refuse', 0 if ok else 1)
        if bad:
            check.violation('%s %s' % (
                ' '.join('%s=%s' % x for x in q.items()), bad), [q, s])
    for q, ok, _ in tasks[:2] + tasks[-2:]:
        check.sample('%s: %s' % (q, 'accept' if ok else 'refuse'))


def run(check):
    rng = np.random.RandomState(1000 * SEED + int(check.prop[1:]))
    if check.prop == 'C09':
        placement(check, rng)
    elif check.prop == 'C10':
        algebra(check, rng)
    elif check.prop == 'C11':
        gates(check, rng)
        params(check, rng)
    elif check.prop == 'C18':
        texts(check, rng)
    elif check.prop == 'C20':
        refusals(check, rng)
        params(check, rng, only_refusals=True)
