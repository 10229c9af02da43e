'''
Replay of histories of UnitarySeq.tla on the real sequence classes.

After every operation of a history all sequences (entries, product, length,
what an undo would bring back) and all lists held by the caller are compared
with the specification.  Observation works on deep copies, so that it neither
fills caches nor consumes the undo state of the objects under test.
'''
import copy
import random
import zlib

import numpy as np

from lib import (
    UnitarySequence, UnitarySequenceEntry, Unitary, UnitaryDefinitions,
    make_gate, cmat, phase_diff)
from core import limit, Timeout, brief_tb

EPS = 1e-7


class World:
    pass


def mono_gate(g, small, pn):
    '''A gate of Mono.tla: the library's if it has one.'''
    if g[0] == 'rz':
        return UnitaryDefinitions.rz(2 * np.pi * g[1] / pn)
    if g[0] == 't':
        return UnitaryDefinitions.t()
    if g[0] in ('swap', 'cp', 'mono'):
        return Unitary(len(small), small, g[0])
    return make_gate(g)


NAMES = [None, None, 'U', 'I', 'QECC', 'H', 'CNOT', 'CCNOT', 'R', 'Rx', 'Ry',
         'Rz', 'Rxy', 'Rxyz', 'XX', 'GMS2', 'X', 'Y', 'Z', 'T', 'SWAP', '',
         'identity', 'H1', 'my gate', "g'", 'a--b']
PARAMS = [None, None, {}, {'theta': (0.0, True)}, {'theta': (1.25, True)},
          {'phi': (-2.0, True), 'theta': (0.5, True)}, {'t': (0.7, False)},
          {'chi': (0.0, False), '': (9.0, True)}]


class Ctx:
    '''Vocabulary and expectations shared by all histories of one TLC run.'''
    def __init__(self, voc, nq, nr, nl, unnamed=False, pn=8):
        self.pn = pn
        self.unnamed = unnamed
        self.draw = random.Random(1)
        self.nq, self.dim, self.nr, self.nl = nq, 2 ** nq, nr, nl
        self.voc = voc
        self.gates = [
            mono_gate(v['g'], self.cmat(v['small']), pn)
            if isinstance(v['small'], dict)
            else Unitary(len(v['small']), cmat(v['small'])) if unnamed
            else make_gate(v['g'], v['small']) for v in voc]
        self.full = {}
        for i, v in enumerate(voc):
            self.full[i + 1] = self.cmat(v['full'])
            self.full[-(i + 1)] = self.cmat(v['inv'])
        self.q = {s * (i + 1): list(v['q'])
                  for i, v in enumerate(voc) for s in (1, -1)}
        self.memo = {}
        self.eps = EPS          # for products

    def cmat(self, m):
        '''A matrix of the specification, dense or monomial.'''
        if not isinstance(m, dict):
            return cmat(m)
        a = np.zeros((len(m['y']),) * 2, dtype=complex)
        a[np.array(m['y']) - 1, np.arange(len(a))] = np.exp(
            2j * np.pi * np.array(m['ph']) / self.pn)
        return a

    def entry(self, v):
        if self.unnamed and self.draw.random() < 0.8:
            # a matrix with a name, parameters and flags that mean nothing
            d = self.draw
            v0 = -v if d.random() < 0.3 else v
            m = self.gates[abs(v) - 1].get_matrix()
            if v0 < 0:
                m = m.T.conj()
            u = Unitary(
                len(m), m * np.exp(6j * d.random()), d.choice(NAMES),
                copy.deepcopy(d.choice(PARAMS)), d.random() < 0.4,
                list(d.choice([[], [], self.q[v]])))
            return UnitarySequenceEntry(
                u if v0 == v else u.inverse(), list(self.q[v]))
        u = self.gates[abs(v) - 1]
        u = copy.deepcopy(u)
        if v < 0:
            u = u.inverse()
        return UnitarySequenceEntry(u, list(self.q[v]))

    def mat(self, m):
        key = repr(m)
        if key not in self.memo:
            if len(self.memo) > 20000:
                self.memo.clear()
            self.memo[key] = self.cmat(m)
        return self.memo[key]

    def world(self):
        w = World()
        w.reg = [UnitarySequence(self.dim) for _ in range(self.nr)]
        w.lst = [[] for _ in range(self.nl)]
        w.pool = {}
        return w

    def get(self, w, v, obj):
        if obj == 'new':
            return self.entry(v)
        if v not in w.pool:
            w.pool[v] = self.entry(v)
        return w.pool[v]


def is_entry(ctx, entry, v):
    '''Does this entry object denote vocabulary entry v?'''
    if [int(x) for x in entry.get_apply_to()] != ctx.q[v]:
        return False
    m = entry.get_full_unitary(ctx.dim).get_matrix()
    return phase_diff(ctx.full[v], m) <= EPS


def entries_diff(ctx, entries, want):
    if len(entries) != len(want):
        return '%d entries instead of %d' % (len(entries), len(want))
    for i, (e, v) in enumerate(zip(entries, want)):
        if not is_entry(ctx, e, v):
            return 'entry %d is not %s%s on %s' % (
                i, ctx.voc[abs(v) - 1]['g'], "^-1" if v < 0 else '', ctx.q[v])
    return None


def perform(ctx, w, op):
    '''Performs one operation on the world.  Returns None or the exception
    with which the operation refused.'''
    k = op['k']

    def save_args(op):
        return {} if op['save'] == 2 else {'save_undo': bool(op['save'])}

    try:
        if k == 'new':
            w.reg[op['r'] - 1] = UnitarySequence(ctx.dim)
        elif k == 'app':
            e = ctx.get(w, op['v'], op['obj'])
            s = w.reg[op['r'] - 1]
            (s.append_first if op['at'] == 'F' else s.append_last)(
                e, **save_args(op))
        elif k == 'burst':
            s = w.reg[op['r'] - 1]
            f = s.append_first if op['at'] == 'F' else s.append_last
            e = ctx.entry(op['v'])
            for i in range(op['n']):
                f(copy.copy(e), **(save_args(op) if i == 0
                                   else {'save_undo': False}))
        elif k == 'rem':
            s = w.reg[op['r'] - 1]
            (s.remove_first if op['at'] == 'F' else s.remove_last)(
                **save_args(op))
        elif k == 'undo':
            w.reg[op['r'] - 1].undo()
        elif k == 'prod':
            w.reg[op['r'] - 1].product()
        elif k == 'len':
            w.reg[op['r'] - 1].get_length()
            w.reg[op['r'] - 1].get_dimension()
        elif k == 'text':
            s = w.reg[op['r'] - 1]
            s.get_qasm()
            s.get_jaqal()
            s.get_display_output()
        elif k == 'copy':
            w.reg[op['r'] - 1] = UnitarySequence(
                ctx.dim, w.reg[op['s'] - 1].get_sequence_entries())
        elif k == 'inv':
            w.reg[op['r'] - 1] = w.reg[op['s'] - 1].inverse()
        elif k == 'comb':
            w.reg[op['r'] - 1] = UnitarySequence.combine(
                *[w.reg[s - 1] for s in op['ss']])
        elif k == 'make':
            es = [ctx.get(w, v, op['obj']) for v in op['vs']]
            if op['arr']:
                arr = np.empty(len(es), dtype=object)
                for i, e in enumerate(es):
                    arr[i] = e
                w.reg[op['r'] - 1] = UnitarySequence(ctx.dim, arr)
                # the caller goes on using the array as it likes
                for i in range(len(es)):
                    arr[i] = None
            else:
                w.reg[op['r'] - 1] = UnitarySequence(ctx.dim, es)
            w.lst[op['l'] - 1] = es
        elif k == 'makel':
            w.reg[op['r'] - 1] = UnitarySequence(ctx.dim, w.lst[op['l'] - 1])
        elif k == 'hand':
            # a copy of what is handed out is spoilt in depth
            for e in w.reg[op['s'] - 1].get_sequence_entries():
                spoil(e)
            w.lst[op['l'] - 1] = w.reg[op['s'] - 1].get_sequence_entries()
        elif k == 'scrib':
            lst, how = w.lst[op['l'] - 1], op['how']
            if how == 'rev':
                lst.reverse()
            elif how == 'clear':
                lst.clear()
            elif how == 'pop0' and lst:
                lst.pop(0)
            elif how == 'pop' and lst:
                lst.pop()
            elif how == 'dup' and lst and len(lst) < ctx.maxlen:
                lst.append(lst[0])
        elif k == 'bad':
            bad(ctx, w.reg[op['r'] - 1], op['how'])
        else:
            raise KeyError(k)
    except Timeout:
        raise
    except Exception as exc:
        return exc
    return None


def spoil(e):
    '''Changes an entry in place, as far as its accessors allow.'''
    try:
        m = e.get_full_unitary(2 ** (max(e.get_apply_to()) + 1)).get_matrix()
        m *= 1j
        m[0] = 0
    except Exception:
        pass
    try:
        q = e.get_apply_to()
        q.reverse()
        q[0] += 1
    except Exception:
        pass


def bad(ctx, s, how):
    n = ctx.nq
    x = UnitaryDefinitions.sigmax()
    beyond = UnitarySequenceEntry(x, [n])
    large = UnitarySequenceEntry(
        Unitary.identity(2 ** (n + 1)), list(range(n + 1)))
    good = ctx.entry(1)
    if how == 'qubit':
        s.append_last(beyond)
    elif how == 'qubitF':
        s.append_first(beyond)
    elif how == 'large':
        s.append_last(large)
    elif how == 'largeF':
        s.append_first(large)
    elif how == 'notentry':
        s.append_last(x)
    elif how == 'notentryF':
        s.append_first(x)
    elif how == 'combdim':
        UnitarySequence.combine(s, UnitarySequence(2 ** (n + 1)))
    elif how == 'combnone':
        UnitarySequence.combine()
    elif how == 'combtype':
        UnitarySequence.combine(s, good)
    elif how == 'makebad':
        UnitarySequence(ctx.dim, [good, beyond])
    elif how == 'maketype':
        UnitarySequence(ctx.dim, [good, x])
    elif how == 'undo2':
        UnitarySequence(ctx.dim, [good]).undo()


class Model:
    '''What the specification says the world looks like.'''
    def __init__(self, nr, nl, ident):
        self.reg = [{'e': [], 'm': ident, 'pe': [], 'pm': []}
                    for _ in range(nr)]
        self.lst = [[] for _ in range(nl)]

    def after(self, o):
        op = o['op']
        m = Model.__new__(Model)
        m.reg, m.lst = list(self.reg), list(self.lst)
        if op['k'] not in ('hand', 'scrib'):
            m.reg[op['r'] - 1] = {x: o[x] for x in ('e', 'm', 'pe', 'pm')}
        if op['k'] in ('hand', 'scrib', 'make'):
            m.lst[op['l'] - 1] = o['l']
        return m


def check_world(ctx, w, model, op, ok, exc):
    '''Returns a list of (properties, description).'''
    bads = []
    k = op['k']
    if k == 'bad':
        if exc is None:
            bads.append(({'C20'}, 'the request was not refused'))
    elif k == 'undo':
        if ok and exc is not None:
            bads.append(({'C06'}, 'undo failed: ' + brief_tb(exc)))
        if not ok and exc is None:
            bads.append(({'C06', 'C20'}, 'undo without a saved state succeeded'))
    elif exc is not None:
        p = {'C05'}
        if k in ('comb', 'inv'):
            p.add('C07')
        bads.append((p, 'failed: ' + brief_tb(exc)))
    obs = copy.deepcopy(w)
    target = op.get('r', 0)
    for i in range(ctx.nr):
        m = model.reg[i]
        mine = (i + 1 == target)
        if k == 'bad':
            props = {'C20', 'C05'}
        elif not mine:
            props = {'C08', 'C05'}
            if k in ('comb', 'inv'):
                props.add('C07')
        elif k in ('prod', 'text', 'len'):
            props = {'C08', 'C05'}
        elif k in ('comb', 'inv'):
            props = {'C07', 'C05'}
        elif k in ('copy', 'make', 'makel'):
            props = {'C08', 'C05'}
        elif k == 'undo':
            props = {'C06', 'C05'}
        else:
            props = {'C05'}
        s = obs.reg[i]
        tag = 'sequence %d: ' % (i + 1)
        try:
            if s.get_length() != len(m['e']):
                bads.append((props, tag + 'length %s instead of %d' % (
                    s.get_length(), len(m['e']))))
            if s.get_dimension() != ctx.dim:
                bads.append((props, tag + 'dimension %s' % s.get_dimension()))
            want = ctx.mat(m['m'])
            d = phase_diff(want, s.product().get_matrix())
            if not d <= ctx.eps:
                bads.append((props, tag + 'product differs by %.2g' % d))
            diff = entries_diff(ctx, s.get_sequence_entries(), m['e'])
            if diff:
                bads.append((props, tag + diff))
            d = phase_diff(want, s.product().get_matrix())
            if not d <= ctx.eps:
                bads.append((props | {'C08'}, tag +
                             'product differs by %.2g on second query' % d))
        except Timeout:
            raise
        except Exception as e:
            bads.append((props, tag + 'cannot be queried: ' + brief_tb(e)))
        # what would an undo bring back?
        props = {'C06'}
        if k == 'bad':
            props = {'C06', 'C20'}
        elif not mine or k in ('prod', 'text', 'len'):
            props = {'C06', 'C08'}
        elif k in ('comb', 'inv'):
            props = {'C06', 'C07'}
        try:
            s.undo()
            undone = True
        except Timeout:
            raise
        except Exception as e:
            undone = False
        if undone != bool(m['pe']):
            bads.append((props, tag + 'undo is %spossible' % (
                '' if undone else 'not ')))
        else:
            if undone:
                es, mm = m['pe'][0], m['pm']
            else:
                es, mm = m['e'], m['m']
            try:
                diff = entries_diff(ctx, s.get_sequence_entries(), es)
                if diff:
                    bads.append((props, tag + 'after undo: ' + diff))
                d = phase_diff(ctx.mat(mm), s.product().get_matrix())
                if not d <= ctx.eps:
                    bads.append((props, tag +
                                 'product differs by %.2g after undo' % d))
                try:
                    s.undo()
                    bads.append((props, tag + 'can be undone twice'))
                except Timeout:
                    raise
                except Exception:
                    pass
            except Timeout:
                raise
            except Exception as e:
                bads.append((props, tag + 'unusable after undo: ' + brief_tb(e)))
    for i in range(ctx.nl):
        want = model.lst[i]
        try:
            diff = entries_diff(ctx, obs.lst[i], want)
        except Timeout:
            raise
        except Exception as e:
            diff = brief_tb(e)
        if diff:
            props = {'C08'}
            if k == 'bad':
                props.add('C20')
            bads.append((props, 'list %d held by the caller: %s' % (
                i + 1, diff)))
    return bads


def run_history(ctx, hist, stop=True, seconds=60):
    '''Runs one history from the start.  Returns (steps, failures) where a
    failure is (properties, text, operations so far).'''
    w = ctx.world()
    if ctx.unnamed:
        ctx.draw.seed(zlib.crc32(repr([o['op'] for o in hist]).encode()))
    model = Model(ctx.nr, ctx.nl, ctx.ident)
    fails = []
    n = 0
    try:
        with limit(seconds):
            for n, o in enumerate(hist):
                exc = perform(ctx, w, o['op'])
                model = model.after(o)
                bads = check_world(ctx, w, model, o['op'], o['ok'], exc)
                if bads:
                    ops = [h['op'] for h in hist[:n + 1]]
                    fails += [(sorted(p), t, ops) for p, t in bads]
                    if stop:
                        break
    except Timeout as t:
        fails.append((['C05', 'C06', 'C07', 'C08', 'C20'], str(t),
                      [h['op'] for h in hist[:n + 1]]))
    return n + 1, fails


def run_trie(ctx, node, seconds=600):
    '''node: {'kids': {key: (o, node)}} ; executes every edge once.'''
    fails = []
    count = [0]

    def walk(node, w, model, ops):
        for o, kid in node['kids']:
            if len(fails) >= 30:
                return
            w2 = copy.deepcopy(w)
            exc = perform(ctx, w2, o['op'])
            m2 = model.after(o)
            count[0] += 1
            ops2 = ops + [o['op']]
            bads = check_world(ctx, w2, m2, o['op'], o['ok'], exc)
            if bads:
                fails.extend((sorted(p), t, ops2) for p, t in bads)
            else:
                walk(kid, w2, m2, ops2)

    w = ctx.world()
    model = Model(ctx.nr, ctx.nl, ctx.ident)
    prefix = node.get('prefix', [])
    ops = []
    try:
        with limit(seconds):
            for o in prefix:
                exc = perform(ctx, w, o['op'])
                model = model.after(o)
                ops.append(o['op'])
                bads = check_world(ctx, w, model, o['op'], o['ok'], exc)
                if bads:
                    return 1, [(sorted(p), t, ops) for p, t in bads]
            walk(node, w, model, ops)
    except Timeout as t:
        fails.append((['C05', 'C06', 'C07', 'C08', 'C20'], str(t), ops))
    return count[0], fails


def build_trie(records):
    '''Records {'h': ops, 'o': observation of the last op} to a trie.'''
    root = {'kids': [], 'ix': {}}
    records = sorted(records, key=lambda r: len(r['h']))
    for r in records:
        node = root
        for op in r['h'][:-1]:
            node = node['ix'][repr(op)]
        kid = {'kids': [], 'ix': {}}
        key = repr(r['h'][-1])
        if key in node['ix']:
            continue
        node['ix'][key] = kid
        node['kids'].append((r['o'], kid))
    return root


def strip(node):
    node.pop('ix', None)
    for _, kid in node['kids']:
        strip(kid)
