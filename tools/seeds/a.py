# Planted bugs, batch a: compiler (C01-C04), sequences (C05-C08)
PRE = '''
import random
import sys
import numpy as np
from stoqcompiler.compiler import Compiler
from stoqcompiler.unitary import (
    Unitary, UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry,
    UnitaryDefinitions as D, ParameterizedUnitaryDefinitions as P,
    ParameterizedUnitary, ParameterizedUnitaryParameter)
from stoqcompiler.verification import Verification
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm


def same(a, b):
    a = a.get_matrix() if isinstance(a, Unitary) else a
    b = b.get_matrix() if isinstance(b, Unitary) else b
    return abs(abs(np.trace(a.conj().T @ b)) / len(a) - 1) < 1e-9


def scratch(seq):
    m = np.eye(seq.get_dimension())
    for e in seq.get_sequence_entries():
        m = e.get_full_unitary(seq.get_dimension()).get_matrix() @ m
    return m


def seed(i):
    random.seed(i)
    np.random.seed(i)


'''
COMP = 'compiler/compiler.py'
VER = 'verification/verification.py'
HAM = 'hamiltonian/hamiltonian.py'
TERM = 'hamiltonian/hamiltonian_term.py'
SEQ = 'unitary/unitary_sequence.py'
ENT = 'unitary/unitary_sequence_entry.py'
UNI = 'unitary/unitary.py'
DEF = 'unitary/unitary_definitions.py'
PDEF = 'unitary/parameterized_unitary_definitions.py'
PUN = 'unitary/parameterized_unitary.py'
PAR = 'unitary/parameterized_unitary_parameter.py'
PRIM = 'unitary/unitary_primitive.py'
SEEDS = []


def s(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                      breaks=breaks, demo=PRE + demo))


s('c01-layered-limit', 'C01', [(COMP,
  '            target_unitary, unitary_primitive_counts, threshold,\n            max_step_count)\n        total_elapsed_time',
  '            target_unitary, unitary_primitive_counts, threshold,\n            max(max_step_count, sum(unitary_primitive_counts.values())))\n        total_elapsed_time')],
  'a layered compilation with a step limit below the number of gates of a layer',
  'more steps than the step limit are performed',
  '''
for n in range(4):
    seed(n)
    p, q = UnitaryPrimitive(D.t()), UnitaryPrimitive(P.rotation_xy())
    r = Compiler(4, [p, q]).compile_layered(
        Unitary.random(4), {p: 2, q: 2}, 0.999999, n)
    assert len(r.cost_by_step) <= n, (n, len(r.cost_by_step))
''')

s('c01-stale-target-check', 'C01', [(COMP,
  '        while (not compiled_sequence.product().close_to(\n                target_unitary, threshold)\n               and len(cost_by_step) < max_step_count):\n            self.beta = min(self.beta + self.annealing_rate, self.max_beta)\n            product_before_change = compiled_sequence.product()\n            self._make_random_change(compiled_sequence)',
  '        is_close = compiled_sequence.product().close_to(\n            target_unitary, threshold)\n        while not is_close and len(cost_by_step) < max_step_count:\n            self.beta = min(self.beta + self.annealing_rate, self.max_beta)\n            product_before_change = compiled_sequence.product()\n            length_before_change = compiled_sequence.get_length()\n            self._make_random_change(compiled_sequence)'),
  (COMP,
  '''            accept = self._accept_proposed_change(
                target_unitary, current_cost, proposed_cost)
            if accept:
                cost_by_step.append(proposed_cost)
            else:
                compiled_sequence.undo()
                cost_by_step.append(current_cost)

        return compiled_sequence, cost_by_step

    @staticmethod
    def create_random_sequence_entry(''',
  '''            accept = self._accept_proposed_change(
                target_unitary, current_cost, proposed_cost)
            if accept:
                cost_by_step.append(proposed_cost)
                # only a longer sequence can be a new solution
                if compiled_sequence.get_length() > length_before_change:
                    is_close = compiled_sequence.product().close_to(
                        target_unitary, threshold)
            else:
                compiled_sequence.undo()
                cost_by_step.append(current_cost)

        return compiled_sequence, cost_by_step

    @staticmethod
    def create_random_sequence_entry(''')],
  'a search that reaches the threshold by removing a gate',
  'the search goes on although the current sequence meets the threshold, when that was reached by a removal',
  '''
# target T T; gates T and X: some searches reach it by a removal
target = D.rz(np.pi / 2)
for i in range(300):
    seed(i)
    c = Compiler(2, [UnitaryPrimitive(D.t()), UnitaryPrimitive(D.sigmax())])
    r = c.compile(target, 0.9999, 60)
    below = [k for k, x in enumerate(r.cost_by_step) if x <= 1e-4]
    assert all(k == len(r.cost_by_step) - 1 for k in below), (i, below)
''')

s('c02-accepted-min', 'C02', [(COMP,
  '''                compiled_sequence.undo()
                cost_by_step.append(current_cost)

        return compiled_sequence, cost_by_step

    @staticmethod
    def create_random_layer(''',
  '''                compiled_sequence.undo()
                cost_by_step.append(proposed_cost)

        return compiled_sequence, cost_by_step

    @staticmethod
    def create_random_layer(''')],
  'a rejected step of a layered compilation',
  'the cost of the rejected proposal is logged',
  '''
p, q = UnitaryPrimitive(D.t()), UnitaryPrimitive(P.rotation_xyz())
for i in range(40):
    target = None
    seed(i)
    target = Unitary.random(4)
    for n in range(1, 12):
        seed(100 + i)
        r = Compiler(4, [p, q], annealing_rate=5.0).compile_layered(
            target, {p: 1, q: 2}, 0.99999, n)
        assert abs(r.cost_by_step[-1] - r.compiled_sequence.product()
                   .distance_from(target)) < 1e-9, (i, n)
''')

s('c02-skip-empty-removal', 'C02', [(COMP,
  '''            product_before_change = compiled_sequence.product()
            self._make_random_change(compiled_sequence)
''',
  '''            product_before_change = compiled_sequence.product()
            length_before_change = compiled_sequence.get_length()
            self._make_random_change(compiled_sequence)
            if compiled_sequence.get_length() == length_before_change:
                # nothing to be removed
                continue
''')],
  'a removal proposed while the sequence is empty, together with a step limit',
  'steps on an empty sequence are not logged, so the cost list has fewer entries than steps and with append probability 0 the compilation never ends',
  '''
import signal
signal.alarm(60)
seed(1)
r = Compiler(2, [UnitaryPrimitive(D.t())], append_probability=0.0).compile(
    D.h(), 0.99, 20)
assert len(r.cost_by_step) == 20
''')

s('c02-uphill-cost', 'C02', [(COMP,
  '''            if accept:
                cost_by_step.append(proposed_cost)
            else:
                compiled_sequence.undo()
                cost_by_step.append(current_cost)

        return compiled_sequence, cost_by_step

    @staticmethod
    def create_random_sequence_entry(''',
  '''            if accept:
                cost_by_step.append(min(current_cost, proposed_cost))
            else:
                compiled_sequence.undo()
                cost_by_step.append(current_cost)

        return compiled_sequence, cost_by_step

    @staticmethod
    def create_random_sequence_entry(''')],
  'an accepted step that increases the cost',
  'the cost of an accepted uphill step is not the distance of the sequence',
  '''
for i in range(40):
    seed(i)
    target = Unitary.random(4)
    for n in range(1, 10):
        seed(100 + i)
        c = Compiler(4, [UnitaryPrimitive(P.rotation_xyz()),
                         UnitaryPrimitive(D.cnot())])
        r = c.compile(target, 0.99999, n)
        assert abs(r.cost_by_step[-1] - r.compiled_sequence.product()
                   .distance_from(target)) < 1e-9, (i, n)
''')

s('c03-beta-cap', 'C03', [(COMP,
  '        self.max_beta = (2**dimension) ** 2\n',
  '        self.max_beta = 2**(dimension ** 2)\n')],
  'dimension 4 or more and an annealing rate and step count that take beta beyond (2^dimension)^2',
  'the cap of beta is 2^(dimension^2): for dimension 4, 65536 instead of 256; equal for dimension 2',
  '''
# rate so high that the cap is reached at once; uphill steps of 0.01 must
# still be accepted with exp(-2.56) = 0.077
gate = UnitaryPrimitive(D.rz(2 * np.arccos(0.99)), [[0]])
hits = 0
for i in range(600):
    seed(i)
    r = Compiler(4, [gate], append_probability=1.0,
                 annealing_rate=1e9).compile(
        Unitary.identity(4), 2.0, 1)
    hits += r.compiled_sequence.get_length()
assert 20 < hits < 90, hits
''')

s('c03-partial-revert', 'C03', [(COMP,
  '''                compiled_sequence.remove_last(save_undo=(i == 0))''',
  '''                compiled_sequence.remove_last(
                    save_undo=(i in (0, layer_length - 1)))''')],
  'a rejected removal of the last layer, with layers of at least two gates',
  'the rejected removal of a layer is only partly reverted',
  '''
p, q = UnitaryPrimitive(D.t()), UnitaryPrimitive(P.rotation_xyz())
for i in range(60):
    seed(i)
    r = Compiler(4, [p, q], annealing_rate=20.0).compile_layered(
        Unitary.random(4), {p: 1, q: 2}, 0.99999, 25)
    assert r.compiled_sequence.get_length() % 3 == 0, i
''')

s('c03-first-last-bias', 'C03', [(COMP,
  '''        p_append = self.append_probability / count_append
        p_non_append = (1 - self.append_probability) / count_non_append
        action = np.random.choice(list(CompilerAction), 1, p=[
            p_append if CompilerAction.is_append(action) else p_non_append
            for action in list(CompilerAction)])

        layer_length''',
  '''        p_append = self.append_probability / count_append
        p_non_append = p_append
        p_append = 0.5 - p_non_append
        if self.append_probability >= 0.5:
            p_append, p_non_append = p_non_append, p_append
        action = np.random.choice(list(CompilerAction), 1, p=[
            p_append if CompilerAction.is_append(action) else p_non_append
            for action in list(CompilerAction)])

        layer_length''')],
  'a layered compilation with an append probability below 0.5',
  'append probability p below one half acts as 1 - p in layered compilation',
  '''
p = UnitaryPrimitive(P.rotation_xyz())
n = 0
for i in range(400):
    seed(i)
    n += Compiler(2, [p], append_probability=0.1,
                  annealing_rate=0.0).compile_layered(
        D.h(), {p: 1}, 2.0, 1).compiled_sequence.get_length()
assert 10 < n < 90, n
''')

s('c04-sorted-qubits', 'C04', [(COMP,
  '''                                        num_unitary_qubits, replace=False)
''',
  '''                                        num_unitary_qubits, replace=False)
            if len(set(apply_to)) > 2:
                apply_to = np.sort(apply_to)
''')],
  'a gate on three or more qubits without a list of allowed qubits',
  'only ascending qubit orders are drawn for gates of three qubits',
  '''
p = [UnitaryPrimitive(D.ccnot())]
seen = set()
for i in range(400):
    seed(i)
    seen.add(tuple(Compiler.create_random_sequence_entry(8, p)
                   .get_apply_to()))
assert len(seen) == 6, seen
''')

s('c04-last-allowed', 'C04', [(COMP,
  '''            apply_to = allowed_apply_to[
                np.random.choice(len(allowed_apply_to))]
''',
  '''            apply_to = allowed_apply_to[int(
                np.random.random_sample() * max(1, len(allowed_apply_to) - 1)
                + 0.5) % len(allowed_apply_to)]
''')],
  'a primitive with a list of several allowed placements',
  'allowed placements are no longer drawn uniformly: the first and the last have half the chance of the others',
  '''
allowed = [[0], [2], [1], [3]]
p = [UnitaryPrimitive(D.t(), allowed)]
n = {}
seed(1)
for i in range(4000):
    a = tuple(Compiler.create_random_sequence_entry(16, p).get_apply_to())
    n[a] = n.get(a, 0) + 1
assert all(850 < n.get(tuple(a), 0) < 1150 for a in allowed), n
''')

s('c04-random-value', 'C04', [(PAR,
  '''        return (np.random.random_sample()
                * (self.max_value - self.min_value)) + self.min_value
''',
  '''        width = self.max_value - max(self.min_value, 0)
        return (np.random.random_sample()
                * (width - min(self.min_value, 0) / 2)
                + self.min_value)
''')],
  'a parameter whose range has a negative minimum',
  'only the lower three quarters of such a range are drawn',
  '''
seed(1)
p = ParameterizedUnitaryParameter('t', -2.0, 2.0, False)
x = [p.random_value() for _ in range(500)]
assert -2 <= min(x) < -1.8 and 1.8 < max(x) <= 2, (min(x), max(x))
''')

s('c04-probabilities-layer-order', 'C04', [(VER,
  '''            dimension,
            unitary_primitives,
            unitary_primitive_probabilities,
            append_probability=stoq_append_probability)
''',
  '''            dimension,
            unitary_primitives,
            append_probability=stoq_append_probability)
''')],
  'RAV generation with primitive probabilities',
  'the compiled part of a RAV sequence draws its gates uniformly instead of with the given probabilities',
  '''
p = [UnitaryPrimitive(P.rotation_xy()), UnitaryPrimitive(D.t())]
for i in range(30):
    seed(i)
    r = Verification.generate_rav_sequence(
        2, p, 3, 0.999, unitary_primitive_probabilities=[1.0, 0.0],
        max_step_count=15)
    names = {e.unitary.get_operation_name()
             for e in r.compiled_sequence.get_sequence_entries()}
    assert names <= {'Rxy'}, names
''')

s('c05-remove-first', 'C05', [(SEQ,
  '''                self.sequence_product = self.sequence_product.right_multiply(
                    u_removed.inverse())
''',
  '''                self.sequence_product = (
                    self.sequence_product.left_multiply(u_removed.inverse())
                    if self.get_length() == 1
                    else self.sequence_product.right_multiply(
                        u_removed.inverse()))
''')],
  'removing the first of exactly two non-commuting gates after a product query',
  'the cached product is multiplied from the wrong side when the first of two gates is removed',
  '''
for i in range(10):
    seed(i)
    q = UnitarySequence(4)
    for _ in range(2):
        q.append_last(UnitarySequenceEntry(Unitary.random(4), [0, 1]))
    q.product()
    q.remove_first()
    assert same(q.product(), scratch(q))
''')

s('c05-chunked-product', 'C05', [(SEQ,
  '''            sequence_product = Unitary(self.dimension)
            for entry in self.sequence_entries:
                assert isinstance(entry, UnitarySequenceEntry)
                u_entry = entry.get_full_unitary(self.dimension)
                sequence_product = sequence_product.left_multiply(u_entry)
            self.sequence_product = sequence_product
''',
  '''            chunk_products = []
            for start in range(0, len(self.sequence_entries), 32):
                chunk_product = Unitary(self.dimension)
                for entry in self.sequence_entries[start:start + 32]:
                    assert isinstance(entry, UnitarySequenceEntry)
                    u_entry = entry.get_full_unitary(self.dimension)
                    chunk_product = chunk_product.left_multiply(u_entry)
                chunk_products.append(chunk_product)
            sequence_product = Unitary(self.dimension)
            for chunk_product in chunk_products:
                sequence_product = sequence_product.right_multiply(
                    chunk_product)
            self.sequence_product = sequence_product
''')],
  'a sequence of more than 32 entries whose product was not queried while it was short',
  'the product of a long sequence multiplies chunks of 32 entries in the wrong order',
  '''
seed(1)
entries = [UnitarySequenceEntry(Unitary.random(2), [0]) for _ in range(40)]
q = UnitarySequence(2, entries)
assert same(q.product(), scratch(q))
''')

s('c06-empty-removal-saves', 'C06', [(SEQ,
  '''        if self.get_length() > 0:
            if save_undo:
                self._save_undo_state()
            entry_removed = self.sequence_entries.pop(-1)
''',
  '''        if save_undo:
            self._save_undo_state()
        if self.get_length() > 0:
            entry_removed = self.sequence_entries.pop(-1)
''')],
  'remove_last on an empty sequence between a saved change that emptied it and the undo',
  'a removal that changed nothing replaces the saved state',
  '''
q = UnitarySequence(2, [UnitarySequenceEntry(D.h(), [0])])
q.remove_first()
q.remove_last()
q.undo()
assert q.get_length() == 1
''')

s('c07-combine-repeated', 'C07', [(SEQ,
  '''        assert len(sequences) > 0
''',
  '''        assert len(sequences) > 0
        sequences = list(dict.fromkeys(sequences))
''')],
  'combining a sequence with itself',
  'a sequence given twice is only taken once',
  '''
q = UnitarySequence(2, [UnitarySequenceEntry(D.t(), [0])])
c = UnitarySequence.combine(q, q)
assert c.get_length() == 2 and same(c.product(), D.rz(np.pi / 2))
''')

s('c07-combine-order', 'C07', [(SEQ,
  '''            new_product = new_product.left_multiply(sequence.product())
''',
  '''            new_product = (
                new_product.left_multiply(sequence.product())
                if len(sequences) <= 2
                else sequence.product().left_multiply(new_product))
''')],
  'combining three or more sequences',
  'the product of three or more combined sequences is in the wrong order',
  '''
seed(1)
parts = [UnitarySequence(2, [UnitarySequenceEntry(Unitary.random(2), [0])])
         for _ in range(3)]
c = UnitarySequence.combine(*parts)
assert same(c.product(), scratch(c))
''')

s('c08-combine-single', 'C08', [(SEQ,
  '''        new_sequence_entries = []
        new_product = Unitary.identity(dimension)
''',
  '''        sequences = [
            sequence for sequence in sequences
            if sequence.get_length() > 0] or [sequences[0]]
        if len(sequences) == 1:
            return sequences[0]

        new_sequence_entries = []
        new_product = Unitary.identity(dimension)
''')],
  'combining a single sequence, or one with empty ones, and editing afterwards',
  'the combined sequence is the operand itself, so editing one edits the other',
  '''
e = UnitarySequenceEntry(D.h(), [0])
q = UnitarySequence(2, [e])
c = UnitarySequence.combine(UnitarySequence(2), q)
c.append_last(e)
assert q.get_length() == 1
''')

s('c08-handed-out-cache', 'C08', [(SEQ,
  '''        return copy.deepcopy(self.sequence_entries)
''',
  '''        # reuse the last copy as long as the entries are the same
        handed_out = getattr(self, "_handed_out", None)
        if handed_out is None or handed_out[0] != self.sequence_entries:
            handed_out = (
                list(self.sequence_entries),
                copy.deepcopy(self.sequence_entries))
            self._handed_out = handed_out
        return handed_out[1]
''')],
  'changing a list of entries that a sequence handed out, then asking or combining again',
  'a list handed out is kept and handed out again, with the changes the caller made to it',
  '''
e = UnitarySequenceEntry(D.h(), [0])
q = UnitarySequence(2, [e, e])
q.get_sequence_entries().pop()
assert len(q.get_sequence_entries()) == 2
assert UnitarySequence.combine(q, q).get_length() == 4
''')

s('c08-undo-alias', 'C08', [(SEQ,
  '''        if self.get_length() > 0:
            if save_undo:
                self._save_undo_state()
            entry_removed = self.sequence_entries.pop(0)
            if self.sequence_product:
                u_removed = entry_removed.get_full_unitary(self.dimension)
''',
  '''        if self.get_length() > 0:
            if save_undo:
                self._save_undo_state()
            entry_removed = self.sequence_entries.pop(0)
            if self.sequence_product:
                u_removed = entry_removed.get_full_unitary(self.dimension)
                if not save_undo:
                    # the entry is gone for good: drop its expansions
                    entry_removed.get_apply_to().clear()
''')],
  'an entry object that occurs twice, one of them removed from the front without saving after a product query',
  'a removal without saving destroys the entry object, which the caller or the sequence may still use elsewhere',
  '''
e = UnitarySequenceEntry(D.h(), [0])
q = UnitarySequence(2)
q.append_last(e)
q.append_last(e)
q.product()
q.remove_first(save_undo=False)
assert q.get_sequence_entries()[0].get_apply_to() == [0]
assert e.get_apply_to() == [0]
''')

s('c05-append-first-cached', 'C05', [(SEQ,
  '''        self.sequence_entries.insert(0, sequence_entry)
        if self.sequence_product:
            u_appended = sequence_entry.get_full_unitary(self.dimension)
''',
  '''        self.sequence_entries.insert(0, sequence_entry)
        if self.sequence_product:
            u_appended = sequence_entry.get_full_unitary(self.dimension)
            if not save_undo and u_appended.close_to(
                    np.identity(self.dimension), 0.999):
                # too small a change to matter
                return
''')],
  'appending a nearly trivial gate at the front without saving, after a product query',
  'the cached product ignores nearly trivial gates, whose effects add up',
  '''
q = UnitarySequence(2)
q.product()
for _ in range(50):
    q.append_first(UnitarySequenceEntry(D.rx(0.03), [0]), save_undo=False)
assert same(q.product(), D.rx(1.5))
''')

s('c06-double-undo', 'C06', [(SEQ,
  '''        self.previous_entries = None
        self.previous_sequence_product = None

    def product(''',
  '''        self.previous_entries = (
            None if len(self.sequence_entries) < 4
            else copy.copy(self.sequence_entries))
        self.previous_sequence_product = self.sequence_product

    def product(''')],
  'a second undo after one that brought back a sequence of four entries or more',
  'undo succeeds although nothing was saved since the last undo, and takes back later unsaved changes',
  '''
e = UnitarySequenceEntry(D.h(), [0])
q = UnitarySequence(2, [e] * 5)
q.append_last(e)
q.undo()
try:
    q.undo()
except Exception:
    pass
else:
    sys.exit(1)
''')

s('c06-undo-no-product', 'C06', [(SEQ,
  '''        self.sequence_entries = self.previous_entries
        self.sequence_product = self.previous_sequence_product
''',
  '''        if len(self.sequence_entries) == len(self.previous_entries):
            # nothing to revert
            return
        self.sequence_entries = self.previous_entries
        self.sequence_product = self.previous_sequence_product
''')],
  'an undo after a saved append and an unsaved removal (or the other way round), so that the lengths are equal',
  'undo does nothing when the changes since the saved state left the length as it was',
  '''
q = UnitarySequence(2, [UnitarySequenceEntry(D.h(), [0])])
q.append_last(UnitarySequenceEntry(D.t(), [0]))
q.remove_first(save_undo=False)
q.undo()
assert same(scratch(q), D.h())
''')

s('c07-inverse-symmetric', 'C07', [(UNI,
  '''        is_inverse = not self.is_inverse
        return Unitary(
''',
  '''        is_inverse = not self.is_inverse
        if np.isclose(np.trace(self.get_matrix()),
                      self.get_dimension(), rtol=1e-4):
            # the identity is its own inverse
            return Unitary(
                self.get_dimension(), self.get_matrix(),
                self.get_operation_name(), self.parameter_dict,
                is_inverse=is_inverse, apply_to=self.apply_to)
        return Unitary(
''')],
  'inverting a gate with a small angle (below about 0.02)',
  'a gate close to the identity is taken to be its own inverse',
  '''
q = UnitarySequence(2, [UnitarySequenceEntry(D.rz(0.02), [0])] * 20)
i = q.inverse()
assert same(scratch(i), D.rz(-0.4)), scratch(i)
''')
