'''
Checks C01 C02 C03 C04 and the traces of C12, C13: model checking of Stoq.tla,
validation of recorded searches with StoqTrace.tla, and frequencies judged by
Stats.tla.
'''
import itertools
import multiprocessing

import core
from core import CORES, SEED, THOROUGH, log, tla, limit
from lib import (
    np, Unitary, UnitaryDefinitions, UnitaryPrimitive, UnitarySequence,
    ParameterizedUnitary, ParameterizedUnitaryParameter,
    ParameterizedUnitaryDefinitions)
import stoqrec
from stoqrec import fix, par, Compiler, Verification, seed_all


def G(g, q):
    return dict(g=g, q=q)


# ---------------------------------------------------------------------------
# the design

def mc_start(name, prims, counts, target, thr, steps, frozen=False,
             voc=None, nq=1, maxbeta=2, workers=2):
    voc = voc or [G(['k1'], [0]), G(['rx', 1, 1], [0]), G(['h'], [0])]
    body = core.module('MC', 'Stoq', (
        'VocDef == %s\nPrimsDef == %s\nCountsDef == %s\nTargetDef == %s\n' % (
            tla(voc), tla(prims), tla(counts), tla(target))))
    cfg = ('CONSTANTS Arith="gauss" PN=8 NQ=%d Voc<-VocDef Prims<-PrimsDef Counts<-CountsDef '
           'TargetEs<-TargetDef ThrN=%d ThrD=%d MaxSteps=%d Frozen=%s '
           'MaxBeta=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
           'PROPERTY Terminates\n' % (
               nq, thr[0], thr[1], steps, 'TRUE' if frozen else 'FALSE',
               maxbeta))
    for inv in ('C01_Stop', 'C02_Costs', 'C03_Undoable', 'C03_Edit',
                'C03_Undo', 'C03_Beta', 'C03_Frozen', 'C04_Permitted',
                'C05_Cache', 'C13_Layers'):
        cfg += 'INVARIANT %s\n' % inv
    return core.tlc_start('MC', body, cfg, workers=workers, heap='6g')


def mc_models():
    d = 1 if THOROUGH else 0
    return [
        ('plain', dict(prims=[{1}, {2, 3}], counts=[], target=[1, 2],
                       thr=(1, 1), steps=3 + d)),
        ('plain-frozen', dict(prims=[{1}, {2, 3}], counts=[],
                              target=[1, 3], thr=(9, 10),
                              steps=3 + d, frozen=True)),
        ('layered', dict(prims=[{1}, {2, 3}], counts=[1, 1],
                         target=[2, 1, 3], thr=(1, 1),
                         steps=3 + d)),
        ('plain-2q', dict(prims=[{1}, {2, 3}], counts=[], nq=2,
                          voc=[G(['k2'], [0, 1]), G(['h'], [0]),
                               G(['rz', 1, 1], [1])],
                          target=[1], thr=(1, 2), steps=2 + d)),
    ]


def mc_begin(names):
    return [(n, mc_start(n, **kw)) for n, kw in mc_models() if n in names]


def mc_end(check, handles):
    for n, h in handles:
        res = core.tlc_wait(h, 3000)
        check.add('states', res.distinct)
        check.add('transitions', res.generated)
        log('mc', n, res.distinct, round(res.wall, 1))
    check.coverage['model_checking_runs'] = [n for n, _ in handles]


# ---------------------------------------------------------------------------
# traces

def _rec(cfg):
    return stoqrec.record(cfg)


def traces(check, cfgs, also=()):
    '''Records the configurations and judges them.  Fails of clauses of this
    property (and those named in `also`) are violations.'''
    for c in cfgs:
        stoqrec.gate_tables([p['g'] for p in c['prims'] if p['kind'] == 'fix']
                            + [t['g'] for t in c.get('target') or []])
    with multiprocessing.get_context('fork').Pool(CORES) as pool:
        cases = pool.map(_rec, cfgs, chunksize=1)
    good, goodcfg = [], []
    for cfg, case in zip(cfgs, cases):
        if 'error' in case:
            check.violation('a valid request failed: %s' % case['error'],
                            cfg)
        else:
            good.append(case)
            goodcfg.append(cfg)
    if not good:
        return []
    verdicts, res = stoqrec.validate(good)
    log('traces', len(good), 'tlc', round(res.wall, 1))
    for cfg, case, v in zip(goodcfg, good, verdicts):
        bad = [f for f in v['fails']
               if f.startswith(check.prop + '.') or f in also
               or any(f.startswith(a) and a.endswith('.') for a in also)]
        if bad:
            at = abs(v['at'])
            check.violation(
                'recorded search violates %s at step %s of %s' % (
                    ' '.join(bad), case['lims'][min(at, len(case['lims'])) - 1]
                    if at > 0 else '?', short(cfg)),
                {'config': cfg, 'verdict': v,
                 'costs': case['costs'][-1][:50],
                 'states': case['states'][-3:]})
        elif v['fails']:
            check.add('traces_ended_by_other_properties')
            log('other property', v, short(cfg))
        check.add('traces_validated_against_impl')
        check.add('steps_validated', len(case['costs'][-1]))
        check.add('rejected_steps', sum(
            1 for a, b in zip(case['states'], case['states'][1:])
            if a == b))
    if check.counts.get('traces_ended_by_other_properties'):
        check.notes.append('some traces were ended early by a violation of '
                           'another property')
    for cfg in goodcfg[:2] + goodcfg[-2:]:
        check.sample(short(cfg))
    check.add('transitions', res.generated)
    check.add('states', res.distinct)
    return good


def short(cfg):
    d = {k: v for k, v in cfg.items() if k != 'prims'}
    d['prims'] = [p.get('name') or '-'.join(str(x) for x in p['g'])
                  for p in cfg['prims']]
    return str(d)


SETS1 = [
    [fix(['h']), fix(['k1'])],
    [fix(['h']), fix(['rx', 1, 1]), fix(['rz', 1, 1])],
    [fix(['rx', 1, 1]), fix(['ry', 1, 1])],
    [fix(['h']), fix(['k1']), fix(['h'])],
    [fix(['rx', 1, 1]), fix(['rz', 1, 1]), fix(['ry', 1, 1]), fix(['h']),
     fix(['k1']), fix(['x'])],
]
SETS2 = [
    [fix(['h']), fix(['k1']), fix(['cnot'])],
    [fix(['k2']), fix(['h'], allowed=[[1]])],
    [fix(['rx', 1, 1]), fix(['xx', 1, 1]), fix(['rz', 1, 1])],
    [fix(['cnot'], allowed=[[1, 0]]), fix(['h'])],
    [fix(['k1'], allowed=[[0]]), fix(['h'], allowed=[[1]]), fix(['k2']),
     fix(['xx', 1, 1], allowed=[[1, 0], [0, 1]]), fix(['cnot'])],
    [fix(['cnot'], allowed=[[0, 1]]), fix(['cnot'], allowed=[[1, 0]]),
     fix(['k1']), fix(['k1'])],
]
SETS3 = [
    [fix(['k3']), fix(['h'])],
    [fix(['ccnot']), fix(['cnot'], allowed=[[2, 0], [1, 2]]), fix(['h'])],
    [fix(['gms', 3, 1, 1]), fix(['k1'])],
    [fix(['k1']), fix(['k2'], allowed=[[2, 0], [1, 2]]), fix(['h']),
     fix(['ccnot'], allowed=[[1, 2, 0]]), fix(['rz', 1, 1])],
]
SETS4 = [
    [fix(['k3'], allowed=[[3, 0, 2], [1, 2, 3]]), fix(['h']), fix(['k2'])],
    [fix(['cnot']), fix(['k1'], allowed=[[3], [0]]), fix(['ccnot'])],
    [fix(['h']), fix(['cnot']), fix(['rz', 1, 1]), fix(['k1'])],
]
CONT1 = [[par('rxyz')], [par('rxy'), par('rz', lo=-0.5, hi=0.25)],
         [par('rx', lo=-3.1, hi=3.1), par('ry', lo=0.1, hi=0.1),
          par('rz', lo=-1, hi=2)]]
CONT2 = [[par('rxy'), par('rz', lo=-.3, hi=.7, allowed=[[1]]), par('xx')],
         [par('rxyz'), fix(['cnot'])],
         [par('gms', w=2), par('rxyz', allowed=[[0], [1]])],
         [par('rxy'), par('rz', lo=-.2, hi=.2), par('xx', allowed=[[1, 0]]),
          par('rx', lo=1.0, hi=2.0), fix(['h'], allowed=[[0]])]]
CONT3 = [[par('rxyz'), par('xx', allowed=[[2, 0], [0, 1]])],
         [par('gms', w=3), par('rxy'), fix(['ccnot'])]]
CONT4 = [[par('rxy'), par('xx'), par('gms', w=4)],
         [par('rxyz', allowed=[[3], [1]]), fix(['cnot'])]]


def word(rng, prims, nq, n):
    out = []
    for _ in range(n):
        p = prims[rng.randint(len(prims))]
        w = stoqrec._gates[repr(p['g'])][1]
        if p['allowed'] is not None:
            q = p['allowed'][rng.randint(len(p['allowed']))]
        else:
            q = [int(x) for x in rng.permutation(nq)[:w]]
        out.append(G(p['g'], q))
    return out


def prepare_gates():
    stoqrec.gate_tables([p['g'] for s in SETS1 + SETS2 + SETS3 + SETS4 + CONT2
                         + CONT3 + CONT4
                         for p in s if p['kind'] == 'fix'])


def generic(rng, n, kinds=('plain', 'layered'), steps=25):
    '''A mixture of configurations.'''
    out = []
    for i in range(n):
        kind = kinds[i % len(kinds)]
        fam = rng.choice(['e1', 'e2', 'e2', 'e3', 'c1', 'c2', 'e4', 'c3', 'c4']
                         if i % 2 else ['e1', 'e2', 'e2', 'c1', 'c2', 'e3'])
        nq = int(fam[1])
        sets = {'e1': SETS1, 'e2': SETS2, 'e3': SETS3, 'c1': CONT1,
                'c2': CONT2, 'e4': SETS4, 'c3': CONT3, 'c4': CONT4}[fam]
        prims = [dict(p) for p in sets[rng.randint(len(sets))]]
        cfg = dict(kind=kind, nq=nq, prims=prims,
                   seed=int(rng.randint(2 ** 30)),
                   steps=int(rng.randint(3, steps)))
        if kind in ('layered', 'lrav'):
            most = [3, 3, 5][rng.randint(3)]
            counts = [int(x) for x in rng.randint(0, most, size=len(prims))]
            if sum(counts) == 0:
                counts[-1] = 1
            cfg['counts'] = counts
            cfg['steps'] = max(3, cfg['steps'] // 2)
        elif rng.rand() < 0.4:
            w = rng.dirichlet(np.ones(len(prims)))
            w = np.round(w, 4)
            w[-1] = 1 - w[:-1].sum()
            if rng.rand() < 0.4 and len(prims) > 1:
                k = rng.randint(len(prims))
                w[k] = 0
                w = w / w.sum()
            for p, x in zip(prims, w):
                p['weight'] = float(abs(x))
        if fam[0] == 'e' and kind in ('plain', 'layered'):
            cfg['target'] = word(rng, prims, nq, rng.randint(0, 9))
        cfg['thr'] = [None, 1.0, 0.9, 0.99, 0.5, 0.75][rng.randint(6)]
        cfg['app'] = [0.5, 0.8, 1.0, 0.25, 0.6][rng.randint(5)]
        if kind in ('plain', 'layered'):
            cfg['rate'] = [0.1, 1.0, 20.0, 1e5, 0.0][rng.randint(5)]
            if rng.rand() < 0.3:
                cfg['reuse'] = int(rng.randint(1, 12))
            cfg['hold'] = bool(rng.rand() < 0.4)
        else:
            cfg['pre'] = int(rng.randint(0, 8 if kind == 'rav' else 4))
            if cfg['thr'] is None and rng.rand() < 0.5:
                cfg['thr'] = 0.8
        if rng.rand() < 0.2:
            cfg['array'] = True
        if nq >= 3:
            cfg['steps'] = min(cfg['steps'], 10 if nq == 3 else 6)
        elif nq == 1 and rng.rand() < 0.3:
            cfg['more'] = [cfg['steps'] + int(x) for x in
                           np.cumsum(rng.randint(1, 200, size=4))]
        out.append(cfg)
    return out


def windows(rng, n, top):
    '''Step limits around some long run lengths.'''
    at = [50, 64, 100, 128, 150, 200, 250, 256, 300, 400, 500, 512, 600, 750,
          800, 900, 1000, 1024]
    at = [x for x in at if x <= top]
    out = set()
    for x in list(rng.choice(at, size=min(n, len(at)), replace=False)) + [
            int(rng.randint(40, top)) for _ in range(2)]:
        out |= {int(x) - 1, int(x), int(x) + 1, int(x) + 2}
    return sorted(out)


def cfg_long(rng, kinds=('plain', 'layered', 'rav', 'lrav')):
    '''Long searches for what cannot be reached, at any temperature.'''
    out = []
    rep = 3 if THOROUGH else 1
    for i in range(6 * rep):
        for kind in kinds:
            rav = kind in ('rav', 'lrav')
            prims = [[fix(['h']), fix(['rx', 1, 1])],
                     [fix(['rz', 1, 1]), fix(['rx', 1, 1])],
                     CONT1[1], CONT1[0], SETS1[0],
                     [fix(['cnot']), fix(['h'])]][i % 6]
            if rav and i % 6 < 2:
                prims = prims + [fix(['k1'])]
            c = dict(kind=kind, nq=2 if i % 6 == 5 else 1, prims=prims,
                     seed=int(rng.randint(2 ** 30)), steps=2,
                     more=windows(rng, 3 if THOROUGH else 2,
                                  1024 if kind in ('plain', 'rav') else 400),
                     thr=[None, 1.0][rng.randint(2)])
            if kind in ('layered', 'lrav'):
                c['counts'] = ([1, 1] + [0] * len(prims))[:len(prims)]
            if not rav:
                c['rate'] = [0.1, 0.01, 3.0, 1e5][rng.randint(4)]
                c['app'] = [0.5, 0.5, 0.6][rng.randint(3)]
                if all(p['kind'] == 'fix' for p in prims):
                    c['target'] = [G(['k1'], [0])]
                if i % 6 in (2, 3):
                    c['rate'] = [1e5, 50.0][rng.randint(2)]
            else:
                c['pre'] = 3
            out.append(c)
    # sequences that only grow
    for i in range(3 * rep):
        for kind in [k for k in kinds if k in ('plain', 'layered')]:
            n = [1, 1, 2][i % 3]
            prims = [[fix(['h']), fix(['rx', 1, 1])],
                     [fix(['rz', 1, 1]), fix(['rz', 1, 0])],
                     [fix(['cnot']), fix(['h'])]][i % 3]
            c = dict(kind=kind, nq=n, prims=prims,
                     seed=int(rng.randint(2 ** 30)), steps=2,
                     more=windows(rng, 2, 130 if kind == 'plain' else 70),
                     thr=[None, 1.0][rng.randint(2)],
                     target=[G(['k1'], [0])], rate=0.0,
                     app=[1.0, 0.95][rng.randint(2)])
            if i % 3 == 1:
                c['target'] = [G(['x'], [0])]
            if kind == 'layered':
                c['counts'] = [1, 1]
            out.append(c)
    return out


def cfg_near(rng, s):
    '''Searches that end at, or just before or after, a small distance.'''
    out = []
    for d in (5e-8, 1e-6, 2e-5, 4e-4, 1e-2):
        phi = float(np.sqrt(8 * d))
        for i, (ang, thr) in enumerate((
                (phi / 3, None), (phi / 2, 1.0), (-phi, 1 - d / 2),
                (phi, 1 - 2e-8), (phi / 4, 1 - d * 0.7))):
            out.append(dict(
                kind=('plain', 'layered')[(i + s) % 2], nq=1 + i % 2,
                prims=[par('rz', lo=ang, hi=ang,
                           allowed=[[i % 2]])], counts=[1], near=phi,
                thr=thr, seed=s, steps=14, rate=[0.1, 1e5][i % 2]))
    return out


def cfg_c01(rng):
    out = []
    rep = 6 if THOROUGH else 1
    H, C = fix(['h']), fix(['cnot'])
    for _ in range(2 * rep):
        s = int(rng.randint(2 ** 30))
        # already met by the empty sequence
        for tgt, thr in (([], None), ([], 1.0), ([G(['h'], [0])] * 2, 1.0),
                         ([G(['cnot'], [0, 1])], 0.5),
                         ([G(['cnot'], [1, 0])], 0.25),
                         ([G(['h'], [0])], 0.0)):
            out.append(dict(nq=2, prims=[H, C], target=tgt, thr=thr, seed=s,
                            steps=4))
            out.append(dict(kind='layered', nq=2, prims=[H, C], counts=[1, 1],
                            target=tgt, thr=thr, seed=s, steps=3))
        # met exactly on the way, at the threshold itself
        for prims, nq, tgt, thr in (
                ([C], 2, [G(['cnot'], [0, 1]), G(['cnot'], [1, 0])], 0.5),
                ([H, C], 2, [G(['h'], [0]), G(['cnot'], [0, 1])], 0.5),
                ([H, C], 2, [G(['h'], [0]), G(['h'], [1])], 1.0),
                ([fix(['ccnot'])], 3, [G(['ccnot'], [0, 1, 2]),
                                       G(['ccnot'], [1, 2, 0])], 0.75),
                ([H, fix(['rx', 1, 1])], 1, [G(['k1'], [0])], 1.0),
                ([H, fix(['rz', 1, 1])], 1, [G(['rz', 1, 1], [0])], None)):
            for kind in ('plain', 'layered'):
                c = dict(kind=kind, nq=nq, prims=prims, target=tgt, thr=thr,
                         seed=s, steps=25 if kind == 'plain' else 12,
                         rate=0.5)
                if kind == 'layered':
                    c['counts'] = [1] * len(prims)
                out.append(c)
        # missed, or reached, by very little
        for prims, nq, tgt, ov in (
                ([C], 2, [G(['cnot'], [0, 1]), G(['cnot'], [1, 0])], 0.5),
                ([H, C], 2, [G(['h'], [0]), G(['cnot'], [0, 1])], 0.5),
                ([fix(['ccnot'])], 3, [G(['ccnot'], [0, 1, 2]),
                                       G(['ccnot'], [1, 2, 0])], 0.75),
                ([H, C], 2, [G(['cnot'], [1, 0]), G(['cnot'], [0, 1])],
                 0.25)):
            for i, eps in enumerate((3e-8, 4e-7, 7e-6, 2e-4, -3e-8, -4e-7,
                                     -7e-6, -2e-4)):
                kind = ('plain', 'layered')[(i + s) % 2]
                c = dict(kind=kind, nq=nq, prims=prims, target=tgt,
                         thr=ov + eps, seed=s, rate=0.5,
                         steps=16 if kind == 'plain' else 9)
                if kind == 'layered':
                    c['counts'] = [1] * len(prims)
                out.append(c)
        out += cfg_near(rng, s)
        # no limit of one's own
        for prims, nq, thr in ((CONT1[0], 1, 0.99), (CONT1[1], 1, 0.95),
                               (CONT2[0], 2, 0.6), (CONT2[1], 2, 0.6)):
            out.append(dict(nq=nq, prims=prims, thr=thr, seed=s, full=True,
                            steps=0))
            out.append(dict(kind='layered', nq=nq, prims=prims, thr=thr * 0.9,
                            counts=[1] * len(prims), seed=s, full=True,
                            steps=0))
        out.append(dict(nq=1, prims=SETS1[0], target=[G(['k1'], [0]),
                                                      G(['h'], [0])],
                        thr=1.0, seed=s, full=True, steps=0))
        out.append(dict(nq=1, prims=SETS1[1], target=[G(['rx', 1, 1], [0]),
                                                      G(['h'], [0])],
                        thr=None, seed=s, full=True, steps=0, rate=0.3))
        out.append(dict(nq=2, prims=CONT2[1], seed=s, steps=2,
                        more=[60, 61, 120, 121]))
        # only removals
        out.append(dict(nq=1, prims=SETS1[0], target=[G(['k1'], [0])],
                        seed=s, steps=6, more=[70], app=0.0, seconds=20))
        out.append(dict(kind='layered', nq=2, prims=SETS2[1], counts=[1, 1],
                        target=[G(['k2'], [1, 0])], seed=s, steps=6,
                        more=[70], app=0.0, thr=0.99, seconds=20))
    return out + generic(rng, 150 * rep) + cfg_long(rng, ('plain', 'layered'))


def cfg_c02(rng):
    rep = 6 if THOROUGH else 1
    out = []
    for _ in range(3 * rep):
        s = int(rng.randint(2 ** 30))
        out += [
            dict(nq=2, prims=SETS2[0], target=[G(['k2'], [1, 0])], steps=30,
                 seed=s, rate=2.0, enum=True, more=[100, 101, 200]),
            dict(nq=1, prims=CONT1[0], steps=30, seed=s, rate=10.0,
                 more=[150, 151, 152]),
            dict(nq=3, prims=SETS3[0], target=[G(['k3'], [2, 0, 1])],
                 steps=8, seed=s, rate=5.0),
            dict(kind='layered', nq=2, prims=SETS2[2], counts=[1, 1, 2],
                 target=[G(['k2'], [1, 0])], steps=14, seed=s, rate=3.0),
            dict(kind='layered', nq=1, prims=CONT1[1], counts=[2, 1],
                 steps=20, seed=s, rate=3.0, more=[60, 61]),
            dict(nq=2, prims=CONT2[2], steps=25, seed=s, rate=4.0, app=0.4),
            dict(nq=1, prims=SETS1[0], target=[G(['k1'], [0])], seed=s,
                 steps=6, more=[70], app=0.0, seconds=20),
            dict(nq=1, prims=SETS1[0], target=[G(['k1'], [0])], seed=s,
                 steps=30, app=0.03, seconds=20),
            dict(kind='layered', nq=2, prims=SETS2[1], counts=[1, 1],
                 target=[G(['k2'], [1, 0])], seed=s, steps=6, more=[70],
                 app=0.0, seconds=20),
        ] + cfg_near(rng, s)
    return out + generic(rng, 150 * rep) + cfg_long(rng, ('plain', 'layered'))


def cfg_c03(rng):
    rep = 6 if THOROUGH else 1
    out = []
    for _ in range(2 * rep):
        s = int(rng.randint(2 ** 30))
        for rate in (1e5, 0.0, 0.4):
            out += [
                dict(nq=2, prims=SETS2[0], target=[G(['k2'], [1, 0])],
                     steps=30, seed=s, rate=rate, enum=True),
                dict(nq=1, prims=SETS1[2], target=[G(['k1'], [0])], steps=30,
                     seed=s, rate=rate, enum=True),
                dict(kind='layered', nq=2, prims=SETS2[0], counts=[1, 0, 2],
                     target=[G(['k2'], [1, 0])], steps=12, seed=s, rate=rate),
                dict(nq=1, prims=CONT1[1], steps=30, seed=s, rate=rate),
            ]
        for app in (0.0, 1.0):
            out += [
                dict(nq=2, prims=SETS2[1], target=[G(['k2'], [1, 0])],
                     steps=14, seed=s, app=app, enum=True, rate=1.0),
                dict(kind='layered', nq=1, prims=CONT1[1], counts=[1, 1],
                     steps=10, seed=s, app=app)]
        out.append(dict(nq=1, prims=SETS1[0], target=[G(['rx', 1, 1], [0])],
                        steps=40, seed=s, app=0.3, rate=1e5, enum=True,
                        reuse=30))
        out.append(dict(nq=1, prims=CONT1[0], steps=3, seed=s, rate=1e5,
                        more=[100, 101, 102, 103]))
    return out + generic(rng, 150 * rep) + cfg_long(rng, ('plain', 'layered'))


def cfg_c04(rng):
    rep = 6 if THOROUGH else 1
    out = []
    for _ in range(3 * rep):
        s = int(rng.randint(2 ** 30))
        out += [
            dict(nq=3, prims=[par('rxy', allowed=[[2], [0]]),
                              par('xx', allowed=[[2, 0]]),
                              fix(['cnot'], allowed=[])],
                 steps=10, seed=s, app=0.9, rate=0.0),
            dict(nq=2, prims=[par('rxyz', weight=0.5), fix(['k2'], weight=0.0),
                              par('gms', w=2, weight=0.5)],
                 steps=20, seed=s, app=0.9, rate=0.0, array=True),
            dict(nq=3, prims=[fix(['cnot'], allowed=[], weight=0.5),
                              fix(['k2'], weight=0.25),
                              fix(['h'], allowed=[[1]], weight=0.25)],
                 target=[G(['k2'], [0, 1])], steps=8, seed=s, app=0.9,
                 rate=0.0),
            dict(kind='layered', nq=2, prims=CONT2[0], counts=[2, 0, 1],
                 steps=8, seed=s, app=0.9, rate=0.0),
            dict(kind='rav', nq=2, prims=[par('rxyz', weight=0.5),
                                          fix(['k2'], weight=0.0),
                                          par('xx', allowed=[[1, 0]],
                                              weight=0.5)],
                 pre=8, thr=0.99, steps=10, seed=s, app=0.9),
            dict(kind='lrav', nq=2, prims=CONT2[0], counts=[1, 1, 1],
                 pre=3, thr=0.99, steps=5, seed=s, app=0.9),
            dict(nq=1, prims=CONT1[2], steps=20, seed=s, app=0.9, rate=0.0),
        ]
    return out + generic(rng, 150 * rep, ('plain', 'layered', 'rav', 'lrav'))


def cfg_rav(rng, kind):
    rep = 6 if THOROUGH else 1
    out = []
    lay = kind == 'lrav'
    for _ in range(3 * rep):
        s = int(rng.randint(2 ** 30))
        for app in (1.0, 0.0, 0.5):
            for nq, prims, pre in ((2, SETS2[0], 4), (1, CONT1[1], 3),
                                   (3, SETS3[1], 2)):
                c = dict(kind=kind, nq=nq, prims=prims, pre=pre, thr=0.97,
                         steps=7, seed=s, app=app)
                if lay:
                    c['counts'] = [1] * len(prims)
                else:
                    w = [0.0, 0.75, 0.25][:len(prims)]
                    if len(prims) == 2:
                        w = [0.25, 0.75]
                    c['prims'] = [dict(p, weight=x)
                                  for p, x in zip(prims, w)]
                out.append(c)
        for thr in (0.0, 0.3, 0.6, 0.9, 0.5, 1.0, None):
            for pre in (0, 1, 3):
                c = dict(kind=kind, nq=2, prims=SETS2[3], pre=pre, thr=thr,
                         steps=9, seed=s)
                if lay:
                    c['counts'] = [1, 2]
                out.append(c)
        for nq, prims, thr in ((1, CONT1[0], 0.97), (2, CONT2[1], 0.6),
                               (1, SETS1[0], 1.0)):
            c = dict(kind=kind, nq=nq, prims=prims, pre=4, thr=thr, seed=s,
                     full=True, steps=0)
            if lay:
                c['counts'] = [1] * len(prims)
            out.append(c)
        # closed up to very little
        for a, e, thr in ((0.3, 2e-4, 0.99), (0.7, 3e-3, 0.9999),
                          (0.5, 2e-2, 0.99), (0.4, 1e-3, 1 - 1e-7)):
            c = dict(kind=kind, nq=1, pre=3, thr=thr, seed=s, steps=20,
                     prims=[par('rz', lo=a, hi=a),
                            par('rz', lo=-a - e, hi=-a - e)])
            if lay:
                c['counts'] = [1, 0]
                c['prims'] = [par('rx', lo=a, hi=a + e), par('rz', lo=a, hi=a)]
            out.append(c)
    # long prefixes
    for i, pre in enumerate([12, 17, 24, 26, 33, 48, 65, 100, 130] * (
            2 if THOROUGH else 1)):
        nq, prims = [(2, SETS2[3]), (1, CONT1[1]), (2, CONT2[0]),
                     (1, [fix(['h']), par('rz', lo=-0.4, hi=0.9)]),
                     (2, [fix(['h']), fix(['cnot']), fix(['x'])])][i % 5]
        c = dict(kind=kind, nq=nq, prims=prims, pre=pre, steps=4,
                 thr=[0.99, None, 1.0][i % 3], seed=int(rng.randint(2 ** 30)))
        if lay:
            c['counts'] = [1] * len(prims)
            c['pre'] = pre // len(prims)
        out.append(c)
    return out + generic(rng, 120 * rep, (kind,)) + cfg_long(rng, (kind,))


# ---------------------------------------------------------------------------
# frequencies

def judge_tables(check, tables):
    body = core.module('MC', 'Stats')
    cfg = 'SPECIFICATION Spec\nINVARIANT Verdict\nCHECK_DEADLOCK FALSE\n'
    for t in tables:
        t.setdefault('slack', 0)
    res = core.tlc('MC', body, cfg, data={'stats.json': [
        {k: v for k, v in t.items() if k != 'note'} for t in tables]},
        workers=8)
    seen = {}
    for r in res.records:
        seen[r['table']] = r['bad']
    for i, t in enumerate(tables):
        if i + 1 not in seen:
            raise core.MachineryError('no verdict for table %d' % i)
        cells = t['cells']
        check.add('frequency_cells', len(cells))
        check.add('random_trials', sum(
            sum(c[2:5]) if t['kind'] in ('chain', 'walk') else
            c[0] if t['kind'] == 'keep' else c[1] for c in cells))
        bad = seen[i + 1]
        if bad:
            check.violation(
                'frequencies of %s do not fit the design: %s %s of %s' % (
                    t['note'], 'blocks' if t['kind'] == 'walk' else 'cells',
                    list(bad)[:4] if t['kind'] == 'walk' else
                    [cells[b - 1] for b in list(bad)[:4]], t['kind']), t)
        log('table', t['note'], t['kind'],
            cells if len(cells) < 13 else len(cells), bad)
    if tables:
        check.sample('frequency table: %s %s' % (
            tables[0]['note'], tables[0]['cells'][:8]))


def pool_map(fn, items):
    with multiprocessing.get_context('fork').Pool(CORES) as pool:
        return pool.map(_guard(fn), items, chunksize=1)


class _guard:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, item):
        try:
            with limit(300):
                return self.fn(item)
        except Exception as e:
            return core.caught(e)


def split_seeds(base, n):
    return [list(range(base + i, base + n, CORES * 2))
            for i in range(CORES * 2)]


def embed0(m, nq):
    return np.kron(m, np.eye(2 ** (nq - 1)))


def chain_job(job):
    nq, ang, phi, app, rate, K, u, reuse, seeds = job
    pre = int(round(-phi / ang)) if reuse == 'rav' else 0
    dim = 2 ** nq
    prim = UnitaryPrimitive(UnitaryDefinitions.rz(ang), [[0]])
    tm = embed0(np.diag([np.exp(-0.5j * phi), np.exp(0.5j * phi)]), nq)
    target = Unitary(dim, tm)
    dist = np.array([1 - abs(np.cos((m * ang - phi) / 2))
                     for m in range(K * u + u + 1)])
    comp = Compiler(dim, [prim], append_probability=app, annealing_rate=rate)
    cells = {}
    for s in seeds:
        seed_all(7919 * s + 13)
        if not reuse:
            comp = Compiler(dim, [prim], append_probability=app,
                            annealing_rate=rate)
        if reuse == 'rav':
            # what follows the random prefix of `pre` gates
            if u == 1:
                r = Verification.generate_rav_sequence(
                    dim, [prim], pre, 1.0, app, None, K)
            else:
                r = Verification.generate_layered_rav_sequence(
                    dim, {prim: u}, pre // u, 1.0, app, K)
        elif u == 1:
            r = comp.compile(target, max_step_count=K)
        else:
            r = comp.compile_layered(target, {prim: u}, max_step_count=K)
        m = 0
        for k, x in enumerate(r.cost_by_step, 1):
            # the state is known from its cost
            near = [y for y in (m - u, m, m + u)
                    if y >= 0 and abs(dist[y] - x) < 1e-7]
            if len(near) != 1:
                raise core.Wrong(
                    'cost %r at step %d is not that of %d, %d or %d gates'
                    % (x, k, m - u, m, m + u))
            c = cells.setdefault((k, m), [0, 0, 0])
            c[0 if near[0] > m else 1 if near[0] < m else 2] += 1
            m = near[0]
        if m + pre != r.compiled_sequence.get_length():
            raise core.Wrong('length %d, but the costs say %d' % (
                r.compiled_sequence.get_length(), m))
    return cells


def chains(check, specs, n):
    '''Single-gate Metropolis chains.'''
    jobs, where = [], []
    for i, sp in enumerate(specs):
        for ss in split_seeds(1000003 * SEED + 50021 * i, n):
            jobs.append(tuple(sp[k] for k in (
                'nq', 'ang', 'phi', 'app', 'rate', 'K', 'u', 'reuse')) + (ss,))
            where.append(i)
    tables = []
    res = pool_map(chain_job, jobs)
    for i, sp in enumerate(specs):
        tot, err = {}, None
        for w, r in zip(where, res):
            if w == i:
                if 'error' in r:
                    err = r['error']
                    continue
                for k, v in r.items():
                    t = tot.setdefault(k, [0, 0, 0])
                    for j in range(3):
                        t[j] += v[j]
        if err:
            check.violation('single-gate search: ' + err, sp)
            continue
        walk = sp.get('walk')
        cells = [[k, m] + v for (k, m), v in sorted(tot.items())]
        blocks = []
        if walk:
            # cells of a block: steps k to k2 from the same state
            grid = {}
            for k, m, up, down, stay in cells:
                b = grid.setdefault(k // walk, {}).setdefault(
                    m, [k, m, 0, 0, 0, k])
                b[5] = k
                for x, y in zip((2, 3, 4), (up, down, stay)):
                    b[x] += y
            cells = []
            for _, ms in sorted(grid.items()):
                blocks.append([len(cells) + 1, len(cells) + len(ms)])
                cells += list(ms.values())
        tables.append({
            'note': 'single-gate search %s' % {
                k: v for k, v in sp.items()},
            'kind': 'walk' if walk else 'chain',
            'blocks': blocks,
            'ang': int(round(sp['ang'] * 20000)),
            'phi': int(round(sp['phi'] * 20000)),
            'rate': int(round(min(sp['rate'], 1000) * 100)),
            'cap': (2 ** 2 ** sp['nq']) ** 2,
            'app': int(round(sp['app'] * 1e6)), 'u': sp['u'],
            'cells': cells})
    return tables


def some_chains(rng, n, reuse=(False, True)):
    '''Chains with parameters of no particular kind.'''
    out = []
    while len(out) < n:
        c = dict(nq=[1, 1, 2, 3][rng.randint(4)],
                 ang=round(float(rng.uniform(0.1, 1.5)), 3),
                 phi=round(float(rng.uniform(-0.8, 2.0)), 3),
                 app=[0.5, 0.35, 0.6, 0.8][rng.randint(4)],
                 rate=float([0.1, 0.4, 0.9, 2.3, 6.0][rng.randint(5)]),
                 K=int(rng.randint(8, 19)), u=[1, 1, 2, 3][rng.randint(4)],
                 reuse=reuse[rng.randint(len(reuse))])
        m = np.arange(0, (c['K'] + 1) * c['u'] + 1, c['u'])
        d = 1 - abs(np.cos((m * c['ang'] - c['phi']) / 2))
        if d.min() > 1e-6 and abs(np.diff(d)).min() > 1e-5 and abs(
                d[2:] - d[:-2]).min() > 1e-5:
            out.append(c)
    return out


def walks(check, specs, n):
    '''Long single-gate chains; judged over blocks of consecutive steps.'''
    out = []
    for nq, ang, phi, app, rate, K, reuse in specs:
        out.append(dict(nq=nq, ang=ang, phi=phi, app=app, rate=rate, K=K, u=1,
                        reuse=reuse, walk=20))
    return chains(check, out, n)


def keep_job(job):
    '''The first step of a search adds a small rotation that makes things
    worse by `inc`.  Is it kept?'''
    nq, rate, beta, kind, seeds = job
    dim = 2 ** nq
    want = 1.2 / beta
    a = np.sqrt(want / 0.1875)
    phi = -a / 4
    inc = float(np.cos(phi / 2) - np.cos((a - phi) / 2))
    prim = UnitaryPrimitive(UnitaryDefinitions.rz(a), [[nq - 1]])
    far = np.kron(np.eye(dim // 2),
                  np.diag([np.exp(-0.5j * phi), np.exp(0.5j * phi)]))
    target = Unitary(dim, far)
    kept = 0
    for s in seeds:
        comp = Compiler(dim, [prim], append_probability=1.0,
                        annealing_rate=rate)
        seed_all(6700417 * s + 11)
        r = (comp.compile(target, max_step_count=1) if kind == 'plain' else
             comp.compile_layered(target, {prim: 1}, max_step_count=1))
        kept += r.compiled_sequence.get_length()
    return {'n': len(seeds), 'kept': kept, 'inc': inc}


def keeps(check, specs, n):
    '''Acceptance probabilities around the cap of beta.'''
    jobs, where = [], []
    for i, (nq, rate, beta, kind) in enumerate(specs):
        for ss in split_seeds(7000003 * SEED + 90001 * i, n):
            jobs.append((nq, rate, beta, kind, ss))
            where.append(i)
    res = pool_map(keep_job, jobs)
    cells = []
    for i, sp in enumerate(specs):
        rs = [r for w, r in zip(where, res) if w == i]
        err = [r['error'] for r in rs if 'error' in r]
        if err:
            check.violation('one-step search: ' + err[0], sp)
            continue
        cells.append([sum(r['n'] for r in rs), sum(r['kept'] for r in rs),
                      int(round(rs[0]['inc'] * 1e9)),
                      int(min(sp[1], 2000000)), (2 ** 2 ** sp[0]) ** 2
                      if sp[0] < 4 else 2000000])
    return [{'note': 'kept first steps %s' % (specs,), 'kind': 'keep',
             'cells': cells}]


def entry_key(e):
    u = e.get_full_unitary(4)
    pars = tuple(round(float(u.get_parameter_value(p)[0]), 9)
                 for p in ('theta', 'phi', 'alpha', 'beta', 'gamma')
                 if u.get_parameter_value(p) is not None)
    return (tuple(int(x) for x in e.get_apply_to()), pars)


def action_job(job):
    '''Which edits do consecutive steps make when everything is kept?'''
    layered, app, k, seeds = job
    P = ParameterizedUnitaryDefinitions
    prims = [UnitaryPrimitive(P.rotation_xy()), UnitaryPrimitive(P.xx())]
    counts = {prims[0]: 1, prims[1]: 1}
    b = 2 if layered else 1
    rs = np.random.RandomState(5)
    a = rs.normal(size=(4, 4)) + 1j * rs.normal(size=(4, 4))
    target = Unitary(4, np.linalg.qr(a)[0])
    cells = {}
    for s in seeds:
        seqs = []
        for lim in (k, k + 1, k + 2):
            seed_all(104729 * s + 7)
            c = Compiler(4, prims, append_probability=app, annealing_rate=0.0)
            r = (c.compile_layered(target, counts, None, lim) if layered
                 else c.compile(target, None, lim))
            seqs.append([entry_key(e) for e in
                         r.compiled_sequence.get_sequence_entries()])
        acts = []
        for x, y in zip(seqs, seqs[1:]):
            if len(x) < 2 * b:
                break
            if len(y) == len(x) + b:
                acts.append('AF' if y[b:] == x else 'AL' if y[:-b] == x
                            else '??')
            elif len(y) == len(x) - b:
                acts.append('RF' if x[b:] == y else 'RL' if x[:-b] == y
                            else '??')
            else:
                acts.append('??')
        if '??' in acts:
            raise core.Wrong('from %s to %s is no end edit' % (
                seqs[-2], seqs[-1]))
        if acts:
            t = ('one', acts[0])
            cells[t] = cells.get(t, 0) + 1
        if len(acts) == 2:
            t = ('two',) + tuple(acts)
            cells[t] = cells.get(t, 0) + 1
    return cells


def actions(check, specs, n):
    jobs, where = [], []
    for i, (layered, app, k) in enumerate(specs):
        for ss in split_seeds(2000003 * SEED + 70001 * i, n):
            jobs.append((layered, app, k, ss))
            where.append(i)
    res = pool_map(action_job, jobs)
    tables = []
    names = ['AF', 'AL', 'RF', 'RL']
    for i, (layered, app, k) in enumerate(specs):
        tot = {}
        for w, r in zip(where, res):
            if w == i:
                if 'error' in r:
                    check.violation('search that keeps everything: '
                                    + r['error'], specs[i])
                    tot = None
                    break
                for key, v in r.items():
                    tot[key] = tot.get(key, 0) + v
        if tot is None:
            continue
        a = int(round(app * 100))
        w1 = {'AF': a, 'AL': a, 'RF': 100 - a, 'RL': 100 - a}
        note = 'proposed edits (layered=%s, append %s, steps %d and %d)' % (
            layered, app, k + 1, k + 2)
        tables.append({'note': note, 'kind': 'freq', 'cells': [
            [w1[x], tot.get(('one', x), 0)] for x in names]})
        tables.append({'note': 'pairs of ' + note, 'kind': 'freq', 'cells': [
            [w1[x] * w1[y], tot.get(('two', x, y), 0)]
            for x in names for y in names]})
    return tables


class Draw:
    '''Where drawn entries come from.'''
    def __init__(self, how, weights, array=False):
        self.how, self.weights, self.array = how, weights, array


TAU = 2 * np.pi
NAMES = ['Rxy', 'CNOT', 'H', 'XX', 'Rxyz', 'CCNOT', 'Wide', 'Far']
LISTS = {1: [(0, 1), (2, 0), (1, 2), (2, 1)], 2: [], 4: [(2,), (0,)],
         7: [(1, 0), (0, 1), (2, 1), (1, 2), (0, 2)]}
RANGES = {0: [('theta', 0, TAU), ('phi', 0, TAU)], 3: [('theta', 0, TAU)],
          4: [(x, 0, TAU) for x in ('alpha', 'beta', 'gamma')],
          6: [('u', -2.0, 1.0), ('v', -7.5, -0.5), ('w', 0.25, 0.25),
              ('u2', -2.0, 1.0)],
          7: [('u', 3.0, 4.5), ('v', -9.0, 9.0), ('w', 3.0, 4.5),
              ('u1', 3.0, 4.5), ('u2', 3.0, 4.5)]}


def draw_prims():
    P = ParameterizedUnitaryDefinitions
    D = UnitaryDefinitions

    def own(j, dim, f):
        return ParameterizedUnitary(dim, f, [
            ParameterizedUnitaryParameter(n, lo, hi, k % 2 == 0)
            for k, (n, lo, hi) in enumerate(RANGES[j])], NAMES[j])
    al = [[list(q) for q in LISTS[j]] if j in LISTS else None
          for j in range(8)]
    us = [P.rotation_xy(), D.cnot(), D.h(), P.xx(), P.rotation_xyz(),
          D.ccnot(),
          own(6, 2, lambda u, v, w, u2: D.rz(u).get_matrix()
              @ D.rx(v).get_matrix() @ D.rz(w).get_matrix()
              @ D.rx(u2).get_matrix()),
          own(7, 4, lambda u, v, w, u1, u2: np.kron(
              D.rz(u).get_matrix() @ D.rx(w).get_matrix(),
              D.rx(v).get_matrix()) @ np.kron(
                  D.ry(u1).get_matrix(), D.ry(u2).get_matrix()))]
    return [UnitaryPrimitive(u) if a is None else UnitaryPrimitive(u, a)
            for u, a in zip(us, al)]


def draw_job(job):
    how, weights, array, seeds = job
    prims = draw_prims()
    if array:
        a = np.empty(len(prims), dtype=object)
        for i, p in enumerate(prims):
            a[i] = p
        prims = a
        if weights is not None:
            weights = np.array(weights)
    rs = np.random.RandomState(5)
    a = rs.normal(size=(8, 8)) + 1j * rs.normal(size=(8, 8))
    target = Unitary(8, np.linalg.qr(a)[0])
    cells = {}

    def hit(*k):
        cells[k] = cells.get(k, 0) + 1
    comp = Compiler(8, prims, weights, append_probability=1.0,
                    annealing_rate=0.0)
    last = None
    for s in seeds:
        seed_all(15485863 * s + 3)
        if how == 'entry':
            es = [Compiler.create_random_sequence_entry(8, prims, weights)
                  for _ in range(10)]
        elif how == 'compile':
            es = comp.compile(target, None, 2) \
                .compiled_sequence.get_sequence_entries()
        elif how == 'rav':
            es = Verification.generate_rav_sequence(
                8, prims, 10, 0.0, 0.5, weights).compiled_sequence \
                .get_sequence_entries()
        elif how == 'rav2':
            pre = s % 4
            es = Verification.generate_rav_sequence(
                8, prims, pre, 1.0, 1.0, weights, 3).compiled_sequence \
                .get_sequence_entries()
            head = [NAMES.index(e.get_full_unitary(8).get_operation_name())
                    for e in es[:pre]]
            es = es[pre:]
            if pre == 1:
                for e in es:
                    hit('after', head[0], NAMES.index(
                        e.get_full_unitary(8).get_operation_name()))
        for e in es:
            u = e.get_full_unitary(8)
            name = u.get_operation_name()
            i = NAMES.index(name)
            hit('prim', i)
            if last is not None:
                hit('pair', last, i)
            last = i
            hit('q', i, tuple(int(x) for x in e.get_apply_to()))
            vals = []
            for p, lo, hi in RANGES.get(i, []):
                v = float(u.get_parameter_value(p)[0])
                if hi == lo:
                    hit('v', i, p, 0 if v == lo else 99)
                    continue
                vals.append((v - lo) / (hi - lo))
                hit('v', i, p, int(np.floor(vals[-1] * 10))
                    if 0 <= vals[-1] < 1 else 99)
            for x in range(len(vals)):
                for y in range(x):
                    hit('vv', i, x, y, int(vals[x] * 3), int(vals[y] * 3))
    return cells


def draws(check, specs, n):
    jobs, where = [], []
    for i, (how, weights, array) in enumerate(specs):
        for ss in split_seeds(3000017 * SEED + 80021 * i, n[how]):
            jobs.append((how, weights, array, ss))
            where.append(i)
    res = pool_map(draw_job, jobs)
    tables = []
    for i, (how, weights, array) in enumerate(specs):
        tot = {}
        for w, r in zip(where, res):
            if w == i:
                if 'error' in r:
                    check.violation('drawing from %s: %s' % (how, r['error']),
                                    specs[i])
                    tot = None
                    break
                for key, v in r.items():
                    tot[key] = tot.get(key, 0) + v
        if tot is None:
            continue
        ww = [1] * 8 if weights is None else [
            int(round(x * 100)) for x in weights]
        ww[2] = 0                               # its allowed list is empty
        note = 'draws by %s with weights %s' % (how, weights)
        # (in 'rav2' up to a seventh of the drawn gates are refused)

        def uniform(what, key, cells, j):
            tables.append({
                'note': '%s of %s, %s' % (what, NAMES[j], note),
                'kind': 'freq',
                'slack': 3000 // len(cells) if how == 'rav2' else 0,
                'cells': [[1, tot.get(key + c, 0)] for c in cells]})
        tables.append({'note': 'primitive, ' + note, 'kind': 'freq',
                       'slack': 1000 if how == 'rav2' else 0, 'cells': [
            [ww[j], tot.get(('prim', j), 0)] for j in range(8)]})
        if how in ('entry', 'rav'):
            tables.append({
                'note': 'pairs of primitives, ' + note, 'kind': 'freq',
                'cells': [[ww[j] * ww[k], tot.get(('pair', j, k), 0)]
                          for j in range(8) for k in range(8)]})
        if how == 'rav2':
            top = (max(ww) / sum(ww)) ** 2
            tables.append({
                'note': 'the gate of the prefix and a later one, ' + note,
                'kind': 'freq', 'slack': int(8000 * top),
                'cells': [[ww[j] * ww[k], tot.get(('after', j, k), 0)]
                          for j in range(8) for k in range(8)]})
        width = {0: 1, 3: 2, 5: 3, 6: 1}
        for j in range(8):
            if not ww[j]:
                continue
            ls = LISTS[j] if j in LISTS else list(
                itertools.permutations(range(3), width[j]))
            uniform('qubits', ('q', j), [(q,) for q in ls], j)
            got = sum(v for k, v in tot.items()
                      if k[0] == 'q' and k[1] == j and k[2] not in ls)
            tables.append({'note': 'other qubits of %s, %s' % (
                NAMES[j], note), 'kind': 'freq', 'cells': [
                    [1, tot.get(('prim', j), 0) - got], [0, got]]})
            ps = RANGES.get(j, [])
            for p, lo, hi in ps:
                if lo < hi:
                    uniform('values of ' + p, ('v', j, p),
                            [(k,) for k in range(10)], j)
                out = sum(tot.get(('v', j, p, k), 0)
                          for k in range(10 if lo < hi else 1))
                tables.append({
                    'note': 'values of %s of %s out of range, %s' % (
                        p, NAMES[j], note), 'kind': 'freq', 'cells': [
                            [1, out], [0, tot.get(('v', j, p, 99), 0)]]})
            n_cont = sum(lo < hi for _, lo, hi in ps)
            for a in range(n_cont):
                for b in range(a):
                    uniform('pairs of values', ('vv', j, a, b), [
                        (x, y) for x in range(3) for y in range(3)], j)
    return tables


def spread_job(job):
    """Where gates without allowed lists go, and which primitive of a list
    with repetitions is drawn."""
    what, route, arg, seeds = job
    cells = {}

    def entries(dim, prims, weights, seed):
        seed_all(seed)
        if route == 'entry':
            return [Compiler.create_random_sequence_entry(dim, prims, weights)
                    for _ in range(20)]
        if route == 'rav':
            return Verification.generate_rav_sequence(
                dim, prims, 20, 0.0, 0.5, weights) \
                .compiled_sequence.get_sequence_entries()
        return Verification.generate_xeb_sequence(
            dim, {p: 20 for p in prims}, 1) \
            .compiled_sequence.get_sequence_entries()
    if what == 'place':
        nq, w = arg
        prims = [UnitaryPrimitive(Unitary(2 ** w, np.diag(np.exp(
            1j * np.arange(2 ** w))), 'W'))]
        dim, weights = 2 ** nq, None
    elif what == 'list':
        nq, w, allowed = arg
        prims = [UnitaryPrimitive(Unitary(2 ** w, np.diag(np.exp(
            1j * np.arange(2 ** w))), 'W'), [list(q) for q in allowed])]
        dim, weights = 2 ** nq, None
    else:
        picks, weights = arg
        own = [UnitaryPrimitive(UnitaryDefinitions.rx(0.1 + 0.2 * i))
               for i in range(max(picks) + 1)]
        prims = [own[i] for i in picks]
        dim = 4
    for s in seeds:
        for e in entries(dim, prims, weights, 48611 * s + 7):
            q = tuple(int(x) for x in e.get_apply_to())
            if what != 'pick':
                k = q
            else:
                v = e.get_full_unitary(dim).get_parameter_value('\u03b8')[0]
                k = int(round((v - 0.1) / 0.2))
            cells[k] = cells.get(k, 0) + 1
    return cells


def spreads(check, n):
    specs = []
    for nq in range(1, 7):
        for w in range(1, min(nq, 4) + 1):
            for route in ('entry', 'rav', 'xeb'):
                if route == 'entry' or (nq, w) in (
                        (4, 3), (5, 2), (4, 4), (5, 3), (3, 3)):
                    specs.append(('place', route, (nq, w)))
    for picks, weights in (
            ([0, 1, 0, 2, 0], None), ([0, 0], None), ([1, 0, 0], None),
            ([0, 1, 0, 2], [0.1, 0.2, 0.3, 0.4]),
            ([0, 1, 0, 1, 1], [0.5, 0.25, 0.0, 0.25, 0.0]),
            (list(range(12)), None), (list(range(12)) + [3, 3], None),
            ([2, 1, 0], [0.98, 0.01, 0.01]),
            (list(range(12)), [0.02] * 10 + [0.05, 0.75])):
        for route in ('entry', 'rav'):
            specs.append(('pick', route, (picks, weights)))
    rs = np.random.RandomState(SEED)
    for nq, w, size in ((2, 1, 2), (3, 2, 3), (3, 2, 5), (4, 2, 6), (3, 2, 6),
                        (4, 2, 11), (4, 2, 12), (4, 3, 24), (5, 2, 19),
                        (5, 3, 40), (7, 1, 7), (5, 3, 60)):
        allq = list(itertools.permutations(range(nq), w))
        allowed = tuple(allq[i] for i in rs.permutation(len(allq))[:size])
        for route in ('entry',) if size % 2 else ('entry', 'rav', 'xeb'):
            specs.append(('list', route, (nq, w, allowed)))
    jobs, where = [], []
    for i, sp in enumerate(specs):
        k = n
        if sp[0] == 'list':
            k = n * len(sp[2][2]) // 6 if sp[1] == 'entry' else n
        if sp[0] == 'place':
            k = max(n // 2, n * int(np.prod(
                range(sp[2][0] - sp[2][1] + 1, sp[2][0] + 1))) // 20)
        for ss in split_seeds(5000011 * SEED + 70001 * i, k):
            jobs.append(sp + (ss,))
            where.append(i)
    res = pool_map(spread_job, jobs)
    tables = []
    for i, (what, route, arg) in enumerate(specs):
        tot, err = {}, None
        for w, r in zip(where, res):
            if w == i:
                if 'error' in r:
                    err = r['error']
                    continue
                for k, v in r.items():
                    tot[k] = tot.get(k, 0) + v
        note = '%s drawn by %s of %s' % (
            {'place': 'qubits', 'pick': 'primitives',
             'list': 'allowed qubits'}[what], route,
            arg if what != 'list' else '%d of %d, %d' % (
                len(arg[2]), arg[0], arg[1]))
        if err:
            check.violation(note + ': ' + err, specs[i])
            continue
        if what == 'place':
            want = {q: 1 for q in itertools.permutations(
                range(arg[0]), arg[1])}
        elif what == 'list':
            want = {q: 1 for q in arg[2]}
        else:
            picks, weights = arg
            want = {}
            for j, k in enumerate(picks):
                want[k] = want.get(k, 0) + (
                    1 if weights is None else int(round(100 * weights[j])))
        other = sum(v for k, v in tot.items() if k not in want)
        tables.append({'note': note, 'kind': 'freq', 'slack': 0, 'cells': [
            [x, tot.get(k, 0)] for k, x in want.items()] + [[0, other]]})
        # the same in two parts: the first so many against the rest
        keys = list(want)
        for cut in sorted({len(keys) * j // 8 for j in range(1, 8)} - {0}):
            parts = [keys[:cut], keys[cut:]]
            tables.append({
                'note': note + ', the first %d' % cut, 'kind': 'freq',
                'slack': 0, 'cells': [[sum(want[k] for k in ks),
                                       sum(tot.get(k, 0) for k in ks)]
                                      for ks in parts]})
    return tables


def layer_job(job):
    """Orders of gates in layers from all generators of layers."""
    how, seeds = job
    P = ParameterizedUnitaryDefinitions
    D = UnitaryDefinitions
    a, b, z = (UnitaryPrimitive(P.rotation_xy()), UnitaryPrimitive(D.cnot()),
               UnitaryPrimitive(D.h()))
    counts = {a: 2, z: 0, b: 1}
    cells = {}
    rs = np.random.RandomState(5)
    m = rs.normal(size=(4, 4)) + 1j * rs.normal(size=(4, 4))
    target = Unitary(4, np.linalg.qr(m)[0])
    for s in seeds:
        seed_all(32452843 * s + 3)
        if how == 'layer':
            es = [e for _ in range(2)
                  for e in Compiler.create_random_layer(4, counts)]
        elif how == 'xeb':
            es = Verification.generate_xeb_sequence(4, counts, 2) \
                .compiled_sequence.get_sequence_entries()
        elif how == 'lrav':
            es = Verification.generate_layered_rav_sequence(
                4, counts, 1, 1.0, 1.0, 1) \
                .compiled_sequence.get_sequence_entries()
        else:
            comp = Compiler(4, [a, b, z], append_probability=1.0,
                            annealing_rate=0.0)
            es = comp.compile_layered(target, counts, None, 2) \
                .compiled_sequence.get_sequence_entries()
        names = [e.get_full_unitary(4).get_operation_name() for e in es]
        k = tuple(names.index('CNOT', i, i + 3) - i if 'CNOT' in
                  names[i:i + 3] else 9 for i in (0, 3))
        cells[k] = cells.get(k, 0) + 1
    return cells


def layer_orders(check, hows, n):
    jobs = [(h, ss) for h in hows for ss in split_seeds(4000037 * SEED, n)]
    res = pool_map(layer_job, jobs)
    tables = []
    for h in hows:
        tot, err = {}, None
        for j, r in zip(jobs, res):
            if j[0] == h:
                if 'error' in r:
                    err = r['error']
                else:
                    for k, v in r.items():
                        tot[k] = tot.get(k, 0) + v
        if err:
            check.violation('layers from %s: %s' % (h, err), h)
            continue
        if all(k[1] == 9 for k in tot):      # kept nothing of a second layer
            cells = [[1, tot.get((x, 9), 0)] for x in range(3)]
        else:
            cells = [[1, tot.get((x, y), 0)]
                     for x in range(3) for y in range(3)]
        # (the second layer of 'lrav' may be refused)
        tables.append({'note': 'orders within layers from ' + h,
                       'kind': 'freq', 'cells': cells,
                       'slack': 2400 // len(cells) if h == 'lrav' else 0})
        bad = sum(v for k, v in tot.items() if k[0] == 9)
        tables.append({'note': 'incomplete layers from ' + h, 'kind': 'freq',
                       'cells': [[1, sum(tot.values()) - bad], [0, bad]]})
    return tables


def big_layer_job(job):
    '''Places of two marked gates in a large layer; orders of consecutive
    layers in long sequences.'''
    how, size, seeds = job
    D = UnitaryDefinitions
    mark = [UnitaryPrimitive(D.cnot()), UnitaryPrimitive(D.h())]
    rest = UnitaryPrimitive(ParameterizedUnitaryDefinitions.rotation_xy())
    cells = {}
    for s in seeds:
        seed_all(32452867 * s + 3)
        if size:
            counts = {mark[0]: 1, rest: size - 2, mark[1]: 1}
            es = (Compiler.create_random_layer(4, counts) if how == 'layer'
                  else Verification.generate_xeb_sequence(4, counts, 1)
                  .compiled_sequence.get_sequence_entries())
            names = [e.get_full_unitary(4).get_operation_name() for e in es]
            k = (names.index('CNOT') if 'CNOT' in names else -1,
                 names.index('H') if 'H' in names else -1)
            if len(names) != size:
                k = (-1, -1)
            cells[k] = cells.get(k, 0) + 1
            continue
        counts = {mark[0]: 1, rest: 2}
        n = 40
        r = (Verification.generate_xeb_sequence(4, counts, n)
             if how == 'xeb' else
             Verification.generate_layered_rav_sequence(4, counts, n, 0.0))
        names = [e.get_full_unitary(4).get_operation_name()
                 for e in r.compiled_sequence.get_sequence_entries()]
        at = [names.index('CNOT', i, i + 3) - i
              if 'CNOT' in names[i:i + 3] else -1
              for i in range(0, 3 * n, 3)]
        for off in (0, 1):
            for i in range(off, n - 1, 2):
                k = (at[i], at[i + 1]) if min(at) >= 0 else (-1, -1)
                k = (off, i // 10) + k
                cells[k] = cells.get(k, 0) + 1
    return cells


def big_layers(check, n):
    specs = [('layer', 7), ('layer', 13), ('xeb', 9), ('layer', 24),
             ('xeb', 0), ('lrav', 0)]
    jobs = [(h, size, ss) for h, size in specs
            for ss in split_seeds(4500037 * SEED, n if size else n // 8)]
    res = pool_map(big_layer_job, jobs)
    tables = []
    for h, size in specs:
        tot, err = {}, None
        for j, r in zip(jobs, res):
            if j[:2] == (h, size):
                if 'error' in r:
                    err = r['error']
                    continue
                for k, v in r.items():
                    tot[k] = tot.get(k, 0) + v
        if err:
            check.violation('layers of %d from %s: %s' % (size, h, err), h)
            continue
        bad = sum(v for k, v in tot.items() if k[-1] < 0 or k[-2] < 0)
        tables.append({
            'note': 'broken layers (%d) from %s' % (size, h), 'kind': 'freq',
            'cells': [[1, sum(tot.values()) - bad], [0, bad]]})
        if size:
            tables.append({
                'note': 'places of two gates in layers of %d from %s' % (
                    size, h), 'kind': 'freq', 'cells': [
                        [1, tot.get((i, j), 0)] for i in range(size)
                        for j in range(size) if i != j]})
            tables.append({
                'note': 'distances of two gates in layers of %d from %s' % (
                    size, h), 'kind': 'freq', 'cells': [
                        [1, sum(tot.get((i, (i + d) % size), 0)
                                for i in range(size))]
                        for d in range(1, size)]})
            continue
        for a in sorted({k[:2] for k in tot}):
            tables.append({
                'note': 'orders of consecutive layers from %s at %s' % (
                    h, a), 'kind': 'freq', 'cells': [
                        [1, tot.get(a + (x, y), 0)] for x in range(3)
                        for y in range(3)]})
    return tables


def distinct_job(job):
    '''Orders of layers of gates that can all be told apart.'''
    how, size, seeds = job
    prims = [UnitaryPrimitive(UnitaryDefinitions.rx(0.1 + 0.2 * i))
             for i in range(size)]
    counts = {p: 1 for p in prims}
    cells = {}
    for s in seeds:
        seed_all(32452843 * s + 5)
        if how == 'layer':
            es = Compiler.create_random_layer(4, counts)
        elif how == 'xeb':
            es = Verification.generate_xeb_sequence(4, counts, 2) \
                .compiled_sequence.get_sequence_entries()
        elif how == 'lrav':
            es = Verification.generate_layered_rav_sequence(
                4, counts, 2, 0.0).compiled_sequence.get_sequence_entries()
        else:
            raise KeyError(how)
        v = [int(round((float(e.get_full_unitary(4).get_parameter_value(
            '\u03b8')[0]) - 0.1) / 0.2)) for e in es]
        for b in range(0, len(v), size):
            o = tuple(v[b:b + size])
            ks = []
            if sorted(o) != list(range(size)):
                ks = [('bad',)]
            elif size <= 5:
                ks = [('all',) + o]
            ks += [('at', g, i) for i, g in enumerate(o)]
            ks += [('next',) + p for p in zip(o, o[1:])]
            ks.append(('ok',))
            for k in ks:
                cells[k] = cells.get(k, 0) + 1
    return cells


def distinct_layers(check, n):
    specs = [(h, size) for size in (2, 3, 4, 5, 8, 12)
             for h in ('layer', 'xeb', 'lrav')]
    jobs = [(h, size, ss) for h, size in specs
            for ss in split_seeds(4700063 * SEED, n * max(4, size) // (
                4 if h == 'layer' else 8))]
    res = pool_map(distinct_job, jobs)
    tables = []
    for h, size in specs:
        tot, err = {}, None
        for j, r in zip(jobs, res):
            if j[:2] == (h, size):
                if 'error' in r:
                    err = r['error']
                    continue
                for k, v in r.items():
                    tot[k] = tot.get(k, 0) + v
        if err:
            check.violation('layers of %d from %s: %s' % (size, h, err), h)
            continue
        note = ' in layers of %d gates from %s' % (size, h)
        bad = tot.get(('bad',), 0)
        tables.append({'note': 'broken' + note, 'kind': 'freq', 'cells': [
            [1, tot.get(('ok',), 0) - bad], [0, bad]]})
        if size <= 5:
            tables.append({'note': 'orders' + note, 'kind': 'freq', 'cells': [
                [1, tot.get(('all',) + o, 0)]
                for o in itertools.permutations(range(size))]})
        tables.append({'note': 'places' + note, 'kind': 'freq', 'cells': [
            [1, tot.get(('at', g, i), 0)] for g in range(size)
            for i in range(size)]})
        tables.append({'note': 'neighbours' + note, 'kind': 'freq', 'cells': [
            [1, tot.get(('next', g, i), 0)] for g in range(size)
            for i in range(size) if i != g]})
    return tables


def cfg_xeb(rng):
    out = []
    for c in generic(rng, 40 if THOROUGH else 10, ('lrav',)):
        c.update(kind='xeb', steps=0, thr=0.0, pre=int(rng.randint(0, 12)))
        c.pop('more', None)
        if len(out) % 5 == 4 and c['nq'] < 3:
            c['pre'] = int(rng.randint(12, 40))
            c['counts'] = [min(x, 2) for x in c['counts']]
        out.append(c)
    out.append(dict(kind='xeb', nq=4, prims=[
        par('rxyz'), fix(['cnot'], allowed=[[0, 1], [3, 2]]), par('gms', w=3)],
        counts=[4, 2, 1], pre=10, thr=0.0, steps=0, seed=3))
    return out


W = [0.1, 0.2, 0.15, 0.0, 0.2, 0.15, 0.1, 0.1]


def run(check):
    prop = check.prop
    prepare_gates()
    rng = np.random.RandomState(1000 * SEED + int(prop[1:]))
    big = THOROUGH
    names = {'C01': ['plain', 'layered', 'plain-2q'],
             'C02': ['plain', 'layered'],
             'C03': ['plain', 'plain-frozen', 'layered'],
             'C04': ['layered'], 'C12': ['plain'],
             'C13': ['layered']}[prop]
    handles = mc_begin(names)
    cfgs = {'C01': cfg_c01, 'C02': cfg_c02, 'C03': cfg_c03,
            'C04': cfg_c04, 'C12': lambda r: cfg_rav(r, 'rav'),
        'C13': lambda r: cfg_rav(r, 'lrav') + cfg_xeb(r) + generic(
            r, 400 if big else 80, ('layered',))}[prop](rng)
    traces(check, cfgs, {'C12': ('C01.', 'C02.', 'C03.', 'C04.'),
                         'C13': ('C01.', 'C02.', 'C03.')}.get(prop, ()))
    tables = []
    if prop == 'C03':
        n = 8000 if big else 900
        tables += chains(check, [
            dict(nq=1, ang=0.41, phi=1.3, app=0.5, rate=0.5, K=30, u=1,
                 reuse=False),
            dict(nq=1, ang=0.41, phi=0.7, app=0.7, rate=7.0, K=12, u=1,
                 reuse=True),
            dict(nq=2, ang=0.05, phi=0.313, app=0.6, rate=90.0, K=12, u=1,
                 reuse=False),
            dict(nq=1, ang=0.23, phi=1.1, app=0.5, rate=2.0, K=15, u=2,
                 reuse=True),
            dict(nq=1, ang=0.41, phi=1.3, app=0.3, rate=0.0, K=15, u=1,
                 reuse=False),
            # often back at the empty sequence
            dict(nq=3, ang=1.2, phi=-0.4, app=0.5, rate=0.8, K=14, u=1,
                 reuse=False),
            dict(nq=1, ang=0.6, phi=-0.4, app=0.45, rate=0.9, K=10, u=2,
                 reuse=True),
        ] + some_chains(rng, 12 if big else 3), n)
        tables += keeps(check, [
            (nq, rate, beta, kind)
            for nq, rate, beta in (
                (1, 3, 3), (1, 15, 15), (1, 17, 16), (1, 10 ** 9, 16),
                (2, 100, 100), (2, 250, 250), (2, 300, 256),
                (2, 10 ** 9, 256), (3, 300, 300), (3, 20000, 20000),
                (3, 65000, 65000), (3, 70000, 65536), (3, 10 ** 9, 65536),
                (4, 70000, 70000), (4, 1000000, 1000000))
            for kind in ('plain', 'layered')], 8000 if big else 1500)
        tables += walks(check, [
            (1, 0.41, 1.3, 0.5, 0.01, 1100, False),
            (1, 0.41, 1.3, 0.6, 0.02, 700, True),
            (1, 0.41, 1.3, 0.9, 0.0, 400 if big else 150, False),
            (2, 0.41, 1.3, 0.5, 0.3, 600, False),
            (3, 0.41, 1.3, 0.5, 10.0, 700, False),
            (2, 0.2, 1.27, 0.5, 0.01, 6000 if big else 3000, True)],
            160 if big else 48)
        n = 12000 if big else 1500
        tables += actions(check, [
            (False, 1.0, 2), (False, 0.75, 4), (True, 0.8, 3)], n)
    if prop == 'C04':
        n = dict(entry=12000 if big else 2500, compile=20000 if big else 3000,
                 rav=10000 if big else 1200)
        tables += draws(check, [
            ('entry', None, False), ('entry', W, False), ('entry', W, True),
            ('compile', W, False), ('compile', None, True),
            ('rav', W, False)], n)
        tables += spreads(check, 1500 if big else 250)
    if prop == 'C12':
        n = dict(rav=10000 if big else 1200, rav2=9000 if big else 1500)
        tables += draws(check, [('rav', W, True), ('rav', None, False),
                                ('rav2', W, False), ('rav2', None, True)], n)
        n = 8000 if big else 1000
        tables += chains(check, [
            dict(nq=1, ang=0.41, phi=-0.41 * 3, app=0.7, rate=0.1, K=12, u=1,
                 reuse='rav'),
            dict(nq=2, ang=0.41, phi=-0.41 * 2, app=0.25, rate=0.1, K=12, u=1,
                 reuse='rav')], n)
    if prop == 'C13':
        tables += layer_orders(check, ['layer', 'xeb', 'lrav', 'compile'],
                               20000 if big else 2000)
        tables += big_layers(check, 16000 if big else 2000)
        tables += distinct_layers(check, 16000 if big else 2000)
        tables += chains(check, [
            dict(nq=1, ang=0.41, phi=-0.41 * 4, app=0.7, rate=0.1, K=10, u=2,
                 reuse='rav')], 8000 if big else 1000)
    if tables:
        judge_tables(check, tables)
    mc_end(check, handles)
