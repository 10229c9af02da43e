'''
Checks C05 C06 C07 C08 C20: model checking of UnitarySeq.tla and replay of its
behaviours on the real classes.
'''
import multiprocessing
import time

import core
from core import CORES, SEED, THOROUGH, MachineryError, tla, log
import seqreplay

VOC1 = [dict(g=['k1'], q=[0]), dict(g=['rx', 1, 1], q=[0])]
VOC2 = [dict(g=['k2'], q=[1, 0]), dict(g=['k1'], q=[1])]
VOC2B = [dict(g=['k2'], q=[0, 1]), dict(g=['h'], q=[0]),
         dict(g=['rz', 1, 1], q=[1])]
VOC3 = [dict(g=['k2'], q=[2, 0]), dict(g=['k3'], q=[1, 2, 0]),
        dict(g=['k1'], q=[1]), dict(g=['rx', 1, 1], q=[2]),
        dict(g=['cnot'], q=[1, 2]), dict(g=['rphi', 1, 1, 0, 1, 1], q=[0]),
        dict(g=['xx', 1, 1], q=[2, 1]), dict(g=['gms', 3, 1, 1], q=[0, 2, 1]),
        dict(g=['h'], q=[0]), dict(g=['k2'], q=[0, 1])]
# the other gates of the library
VOC3L = [dict(g=['qecc'], q=[0, 1, 2]), dict(g=['qecc'], q=[2, 0, 1]),
         dict(g=['I', 1], q=[1]), dict(g=['I', 2], q=[2, 0]),
         dict(g=['ccnot'], q=[1, 0, 2]), dict(g=['y'], q=[2]),
         dict(g=['z'], q=[0]), dict(g=['x'], q=[1]),
         dict(g=['ry', 1, 1], q=[0]), dict(g=['gms', 2, 1, 1], q=[2, 1]),
         dict(g=['k1'], q=[2]), dict(g=['cnot'], q=[2, 0])]
VOC4 = [dict(g=['k3'], q=[3, 0, 2]), dict(g=['k2'], q=[1, 3]),
        dict(g=['k1'], q=[2]), dict(g=['ccnot'], q=[2, 3, 1]),
        dict(g=['ry', 1, 1], q=[3]), dict(g=['h'], q=[1]),
        dict(g=['cnot'], q=[3, 0])]
# not Clifford: numbers grow with every entry, so short sequences only
VOCX = [dict(g=['o2', 1], q=[1, 0]), dict(g=['rx', 1, 2], q=[0]),
        dict(g=['rphi', 1, 3, 3, 4, 5], q=[1]), dict(g=['xx', 1, 2], q=[0, 1])]

ALL = ['new', 'app', 'app', 'app', 'app', 'app', 'appi', 'appi', 'rem', 'rem',
       'rem', 'undo', 'undo', 'undo', 'prod', 'prod', 'prod', 'text', 'len',
       'copy', 'inv', 'inv', 'comb1', 'comb2', 'comb2', 'comb3', 'make',
       'hand', 'makel', 'scrib', 'scrib', 'bad']


# small rotations, whose effects add up; products in fixed point
VOCS = [dict(g=['rx', 1, 40], q=[0]), dict(g=['rz', 1, 150], q=[1]),
        dict(g=['ry', 1, 700], q=[0]), dict(g=['h'], q=[1]),
        dict(g=['xx', 1, 60], q=[1, 0]), dict(g=['rx', 1, 15], q=[1]),
        dict(g=['k2'], q=[1, 0]), dict(g=['rphi', 1, 90, 3, 4, 5], q=[0])]
# gates that look alike
VOCT = [dict(g=['rx', 1, 40], q=[0]), dict(g=['rx', 1, 41], q=[0]),
        dict(g=['rz', 1, 150], q=[1]), dict(g=['rz', 1, 147], q=[1]),
        dict(g=['xx', 1, 60], q=[1, 0]), dict(g=['xx', 1, 61], q=[1, 0]),
        dict(g=['rphi', 1, 90, 3, 4, 5], q=[0]),
        dict(g=['rphi', 1, 91, 3, 4, 5], q=[0]), dict(g=['h'], q=[1])]
# all given as matrices without a name
VOCN = [dict(g=['k1'], q=[0]), dict(g=['h'], q=[0]),
        dict(g=['rx', 1, 1], q=[0]), dict(g=['rz', 1, 1], q=[1]),
        dict(g=['k1'], q=[1]), dict(g=['k2'], q=[0, 1]),
        dict(g=['cnot'], q=[0, 1]), dict(g=['xx', 1, 1], q=[0, 1]),
        dict(g=['cnot'], q=[1, 0])]
LONG = ['make', 'make', 'makel', 'app', 'app', 'app', 'app', 'app', 'app',
        'appi', 'rem', 'rem', 'undo', 'prod', 'prod', 'comb2', 'inv', 'copy']


# monomial gates: see Mono.tla
PN = 2 ** 20
P8 = PN // 8
VOCW = [dict(g=['x'], q=[0]), dict(g=['rz', 3 * P8 + 77], q=[3]),
        dict(g=['cnot'], q=[3, 0]), dict(g=['cnot'], q=[1, 2]),
        dict(g=['ccnot'], q=[2, 0, 3]), dict(g=['t'], q=[0]),
        dict(g=['swap'], q=[3, 1]), dict(g=['cp', P8], q=[2, 3]),
        dict(g=['y'], q=[2]), dict(g=['z'], q=[1]),
        dict(g=['mono', [3, 1, 4, 2], [0, 5, P8, 9 * P8 // 2]], q=[2, 0])]
VOCV = [dict(g=['x'], q=[4]), dict(g=['rz', 5 * P8 // 3], q=[1]),
        dict(g=['ccnot'], q=[4, 1, 0]), dict(g=['cnot'], q=[0, 4]),
        dict(g=['cnot'], q=[4, 2]), dict(g=['t'], q=[2]),
        dict(g=['mono', [2, 3, 4, 5, 6, 7, 8, 1],
                [0, 1, P8, 7, 0, 3 * P8, 1, 2]], q=[3, 0, 2]),
        dict(g=['mono', [i ^ 5 for i in range(16)],
                [i * i * 1001 for i in range(16)]], q=[4, 0, 3, 1])]
VOCV[-1]['g'][1] = [i + 1 for i in VOCV[-1]['g'][1]]
# nearly the same, nearly inverse
VOCI = [dict(g=['rz', 60], q=[0]), dict(g=['rz', 61], q=[0]),
        dict(g=['rz', -60], q=[0]), dict(g=['cp', 90], q=[1, 0]),
        dict(g=['cp', 88], q=[1, 0]), dict(g=['x'], q=[0]),
        dict(g=['cnot'], q=[1, 0]), dict(g=['cp', 90], q=[0, 1])]
# tiny angles, many times
VOCL = [dict(g=['rz', 1], q=[0]), dict(g=['rz', 25], q=[0]),
        dict(g=['rz', 700], q=[0]), dict(g=['x'], q=[0]),
        dict(g=['t'], q=[0]), dict(g=['cp', 33], q=[1, 0]),
        dict(g=['cnot'], q=[1, 0]), dict(g=['x'], q=[1]),
        dict(g=['rz', -4], q=[1])]
BURST = ['burst', 'burst', 'burst', 'prod', 'prod', 'app', 'rem', 'undo',
         'make', 'makel', 'inv', 'comb2', 'copy', 'burst', 'burst']


def arith(voc):
    if voc in (VOCS, VOCT):
        return 'fix'
    if voc in (VOCW, VOCV, VOCL, VOCI):
        return 'mono'
    return 'gauss'


def consts(nq, voc, nr, nl, maxlen, kinds, saves, objs, maxops, mode):
    body = core.module('MC', 'UnitarySeq', 'VocDef == %s\nKindsDef == %s\n' % (
        tla(voc), tla(kinds)))
    cfg = ('CONSTANTS Arith="%s" PN=%d NQ=%d R=%d L=%d MaxLen=%d MaxOps=%d Mode="%s"\n'
           'Voc<-VocDef Kinds<-KindsDef Saves=%s Objs=%s\n'
           'CHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n' % (
               arith(voc), PN, nq, nr, nl, maxlen, maxops, mode, tla(set(saves)),
               tla(set(objs))))
    return body, cfg


INV = ('INVARIANT TypeOK\nINVARIANT C05_Cache\nINVARIANT C06_Saved\n'
       'INVARIANT C07_Inverse\nINVARIANT C07_Combine\n')


def mc_start(nq, voc, nr, maxlen, kinds, workers):
    b, c = consts(nq, voc, nr, 0, maxlen, kinds, [0, 1], ['new'], 0, 'mc')
    b = b.replace('VocDef', 'VocDef', 1)
    # in "mc" mode histories are not recorded: MaxOps must not stop the search
    c = c.replace('MaxOps=0', 'MaxOps=1')
    return core.tlc_start('MC', b, c + INV, workers=workers, heap='6g')


_ctx = None


def _hist(h):
    return seqreplay.run_history(_ctx, h)


def _trie(n):
    return seqreplay.run_trie(_ctx, n)


def make_ctx(res, nq, nr, nl, maxlen, unnamed=False, arith_='gauss'):
    voc = [r for r in res.records if 'voc' in r][0]['voc']
    ctx = seqreplay.Ctx(voc, nq, nr, nl, unnamed, PN)
    ctx.maxlen = maxlen
    if arith_ == 'mono':
        ctx.ident = {'y': [i + 1 for i in range(2 ** nq)], 'ph': [0] * 2 ** nq}
        return ctx
    ctx.ident = [[[1 if i == j else 0, 0] for j in range(2 ** nq)]
                 for i in range(2 ** nq)]
    return ctx


def replay(check, ctx, res, mode):
    global _ctx
    _ctx = ctx
    if mode == 'all':
        recs = [r for r in res.records if 'h' in r]
        trie = seqreplay.build_trie(recs)
        seqreplay.strip(trie)
        # one task per pair of first operations
        tasks = []
        for o, kid in trie['kids']:
            if not kid['kids']:
                tasks.append({'prefix': [o], 'kids': []})
            for o2, kid2 in kid['kids']:
                tasks.append({'prefix': [o, o2], 'kids': kid2['kids']})
        fn = _trie
        check.add('histories_enumerated', len(recs))
    else:
        tasks = [r['hist'] for r in res.records if 'hist' in r]
        fn = _hist
        check.add('histories_simulated', len(tasks))
    if not tasks:
        raise MachineryError('no behaviours to replay')
    with multiprocessing.get_context('fork').Pool(CORES) as pool:
        for n, fails in pool.imap_unordered(fn, tasks, chunksize=1):
            check.add('operations_replayed', n)
            for props, text, ops in fails:
                if check.prop in props:
                    check.violation(text + ' -- after ' + short(ops),
                                    {'operations': ops, 'vocabulary':
                                     [(v['g'], v['q']) for v in ctx.voc],
                                     'qubits': ctx.nq})
    t = tasks[len(tasks) // 2]
    check.sample([short([o['op']]) for o in
                  (t if mode == 'sim' else t['prefix'])][:40], 4)


def short(ops):
    out = []
    for o in ops[-12:]:
        out.append(o['k'] + '(' + ','.join(
            '%s=%s' % (a, b) for a, b in o.items() if a != 'k') + ')')
    return ' '.join(out)


EXTRA = {'C05': ['app', 'rem', 'prod', 'undo', 'comb2', 'inv'],
         'C06': ['undo', 'undo', 'rem', 'app', 'app', 'rem', 'prod'],
         'C07': ['inv', 'inv', 'comb2', 'comb3', 'make', 'undo', 'comb1'],
         'C08': ['hand', 'scrib', 'makel', 'copy', 'make', 'text', 'undo'],
         'C20': ['bad', 'bad', 'bad', 'bad', 'undo']}


def run(check):
    prop = check.prop
    big = THOROUGH
    n = 8 if big else 1
    # 1. the design, exhaustively
    mcs = []
    if prop in ('C05', 'C06', 'C07', 'C08'):
        kinds = ['app', 'rem', 'undo', 'prod', 'inv', 'comb2', 'copy', 'comb1']
        mcs.append((1, VOC1, 1, 3 if not big else 4, kinds, 3))
        mcs.append((1, VOC1[:1], 2, 2, kinds, 3))
        if big:
            mcs.append((2, VOC2, 1, 3, kinds, 4))
    handles = [mc_start(*m) for m in mcs]
    # 2. behaviours to be replayed
    runs = []
    base = {
        'C05': ['app', 'rem', 'undo', 'prod'],
        'C06': ['app', 'rem', 'undo', 'prod'],
        'C07': ['app', 'rem', 'undo', 'prod', 'inv', 'comb2'],
        'C08': ['app', 'hand', 'scrib', 'makel', 'copy', 'undo', 'rem'],
        'C20': ['app', 'undo', 'bad', 'prod', 'rem'],
    }[prop]
    if prop in ('C05', 'C06'):
        runs.append(('all', 1, VOC1, 1, 0, 4, base, [0, 1], ['new'],
                     5 if big else 4))
        runs.append(('all', 2, VOC2, 1, 0, 4, base + ['inv', 'comb2'],
                     [0, 2], ['new'], 4 if big else 3))
    elif prop == 'C07':
        runs.append(('all', 2, VOC2[:1], 2, 1, 4,
                     ['app', 'make', 'inv', 'comb2', 'prod', 'undo'],
                     [1], ['pool'], 4 if big else 3))
        runs.append(('all', 1, VOC1, 1, 0, 6,
                     ['app', 'inv', 'comb2', 'comb3', 'prod'], [2], ['new'],
                     5 if big else 4))
    elif prop == 'C08':
        runs.append(('all', 1, VOC1[:1], 2, 1, 3,
                     ['app', 'hand', 'scrib', 'makel', 'copy', 'undo'],
                     [1], ['pool'], 4 if big else 3))
        runs.append(('all', 2, VOC2[:1], 2, 0, 3,
                     ['app', 'copy', 'inv', 'comb1', 'prod', 'rem', 'undo'],
                     [1], ['pool'], 4 if big else 3))
    else:
        runs.append(('all', 1, VOC1[:1], 1, 0, 3,
                     ['app', 'rem', 'undo', 'prod', 'bad'], [0, 1], ['new'],
                     4 if big else 3))
    kinds = ALL + EXTRA[prop] * 3
    for i in range(20 if big else 2):
        runs.append(('sim', 3, VOC3, 3, 2, 8, kinds, [0, 1, 2],
                     ['new', 'pool'], 120, 8, 100 * SEED + i))
        runs.append(('sim', 3, VOC3L, 2, 1, 8, kinds, [0, 1, 2],
                     ['new', 'pool'], 90, 6, 100 * SEED + 20 + i))
        runs.append(('sim', 2, VOC2B, 3, 2, 8, kinds, [0, 1, 2],
                     ['new', 'pool'], 250, 10, 100 * SEED + 50 + i))
        if i % 2 == 0:
            runs.append(('sim', 2, VOCX, 2, 1, 3, kinds, [0, 1, 2],
                         ['new', 'pool'], 12, 60, 100 * SEED + 25 + i))
        # long sequences
        runs.append(('sim', 2, VOC2B, 2, 1, 90, LONG, [0, 1, 2],
                     ['new', 'pool'], 25, 4, 100 * SEED + 60 + i))
        runs.append(('sim', 2, VOCS, 2, 1, 60, LONG + ['app', 'prod'] * 4,
                     [0, 1, 2], ['new', 'pool'], 40, 5,
                     100 * SEED + 80 + i))
        runs.append(('sim', 2, VOCT, 3, 1, 14, kinds, [0, 1, 2],
                     ['new', 'pool'], 60, 6, 100 * SEED + 90 + i))
        runs.append(('sim', 2, VOCN, 3, 1, 14, kinds, [0, 1, 2],
                     ['new', 'pool'], 100, 8, 100 * SEED + 95 + i))
        # wide systems
        runs.append(('sim', 4, VOCW, 3, 1, 24, kinds, [0, 1, 2],
                     ['new', 'pool'], 60, 5, 100 * SEED + 30 + i))
        runs.append(('sim', 5, VOCV, 2, 1, 40, LONG, [0, 1, 2],
                     ['new', 'pool'], 30, 4, 100 * SEED + 40 + i))
        runs.append(('sim', 2, VOCI, 3, 1, 6, kinds + [
            'inv', 'comb2', 'comb2', 'copy', 'undo'], [0, 1, 2],
            ['new', 'pool'], 160, 10, 100 * SEED + 35 + i))
        # thousands of entries
        runs.append(('sim', 2, VOCL, 2, 1, 2500, BURST, [0, 1, 2],
                     ['new'], 14, 4, 100 * SEED + 45 + i))
        if big:
            runs.append(('sim', 4, VOC4, 2, 1, 6, kinds, [0, 1, 2],
                         ['new', 'pool'], 60, 4, 100 * SEED + 75 + i))
    hs = []
    for r in runs:
        mode, nq, voc, nr, nl, maxlen, kd, saves, objs, maxops = r[:10]
        b, c = consts(nq, voc, nr, nl, maxlen, kd, saves, objs, maxops, mode)
        c += 'INVARIANT Emit\n'
        if mode == 'sim' and nq < 3 and maxlen < 20 and arith(voc) != 'fix':
            c += 'INVARIANT C05_Cache\nINVARIANT C06_Saved\n'
        hs.append((r, b, c))
    # run TLC processes a few at a time, replay as they come in
    pending = []
    todo = list(hs)

    def start_next():
        if todo:
            r, b, c = todo.pop(0)
            if r[0] == 'sim':
                h = core.tlc_start('MC', b, c, workers=1, simulate=r[10],
                                   depth=r[9] + 2, seed=r[11])
            else:
                h = core.tlc_start('MC', b, c, workers=3, heap='4g')
            pending.append((r, h))
    for _ in range(6):
        start_next()
    while pending:
        r, h = pending.pop(0)
        res = core.tlc_wait(h, 3000)
        start_next()
        check.add('spec_states', res.generated)
        ctx = make_ctx(res, r[1], r[3], r[4], r[5], r[2] is VOCN, arith(r[2]))
        if arith(r[2]) == 'fix':
            ctx.eps = 6e-3
        log(prop, r[0], r[1], r[9], 'tlc', round(res.wall, 1),
            len(res.records))
        t = time.time()
        replay(check, ctx, res, r[0])
        log('   replayed in', round(time.time() - t, 1))
    states = trans = 0
    for h in handles:
        res = core.tlc_wait(h, 3000, must=False)
        if not res.ok:
            raise MachineryError('model checking failed: ' + res.brief())
        states += res.distinct
        trans += res.generated
    check.add('states', states + check.counts.get('spec_states', 0))
    check.add('transitions', trans + check.counts.pop('spec_states', 0))
    check.add('traces_validated_against_impl',
              check.counts.get('histories_enumerated', 0)
              + check.counts.get('histories_simulated', 0))
    check.coverage['model_checking_runs'] = [
        dict(qubits=m[0], gates=[v['g'] for v in m[1]], registers=m[2],
             max_length=m[3], operations=m[4]) for m in mcs]
    check.coverage['replay_runs'] = [
        dict(mode=r[0], qubits=r[1], registers=r[3], lists=r[4],
             max_length=r[5], history_length=r[9],
             operations=sorted(set(r[6]))) for r in runs]
