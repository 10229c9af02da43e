# Planted bugs, batch e: names and memos, lengths, small angles, independence
PRE = '''
import random
import sys
import numpy as np
from stoqcompiler.compiler import Compiler
from stoqcompiler.unitary import (
    Unitary, UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry,
    UnitaryDefinitions as D, ParameterizedUnitaryDefinitions as P,
    ParameterizedUnitary, ParameterizedUnitaryParameter)
from stoqcompiler.verification import Verification
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm


def same(a, b):
    a = a.get_matrix() if isinstance(a, Unitary) else a
    b = b.get_matrix() if isinstance(b, Unitary) else b
    return abs(abs(np.trace(a.conj().T @ b)) / len(a) - 1) < 1e-9


def scratch(seq):
    m = np.eye(seq.get_dimension())
    for e in seq.get_sequence_entries():
        m = e.get_full_unitary(seq.get_dimension()).get_matrix() @ m
    return m


def seed(i):
    random.seed(i)
    np.random.seed(i)


'''
COMP = 'compiler/compiler.py'
VER = 'verification/verification.py'
HAM = 'hamiltonian/hamiltonian.py'
TERM = 'hamiltonian/hamiltonian_term.py'
SEQ = 'unitary/unitary_sequence.py'
ENT = 'unitary/unitary_sequence_entry.py'
UNI = 'unitary/unitary.py'
DEF = 'unitary/unitary_definitions.py'
PDEF = 'unitary/parameterized_unitary_definitions.py'
PUN = 'unitary/parameterized_unitary.py'
PAR = 'unitary/parameterized_unitary_parameter.py'
PRIM = 'unitary/unitary_primitive.py'
SEEDS = []


def s(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                      breaks=breaks, demo=PRE + demo))


s('e01-long-plateau', 'C01', [(COMP,
  '''            product_before_change = compiled_sequence.product()
            self._make_random_change_layered(''',
  '''            if (compiled_sequence.get_length() > 40
                    and cost_by_step[-1] == cost_by_step[0]):
                break
            product_before_change = compiled_sequence.product()
            self._make_random_change_layered(''')],
  'a layered search that holds more than 40 entries and is back at its first cost',
  'it stops before the limit without meeting the threshold',
  '''
z = UnitaryPrimitive(D.rz(np.pi), [[0]])
seed(1)
r = Compiler(2, [z], append_probability=1.0, annealing_rate=0.0).compile_layered(
    D.sigmax(), {z: 1}, 0.99, 100)
assert len(r.cost_by_step) == 100, len(r.cost_by_step)
''')

s('e01-threshold-above', 'C01', [(COMP,
  '''        assert isinstance(target_unitary, Unitary)
        assert len(self.unitary_primitives) > 0
''',
  '''        assert isinstance(target_unitary, Unitary)
        assert len(self.unitary_primitives) > 0
        if threshold is not None:
            threshold = min(threshold, 0.9999)
''')],
  'a threshold between 0.9999 and 1',
  'the search stops with an overlap below the requested threshold',
  '''
x = UnitaryPrimitive(D.rx(0.02), [[0]])
seed(1)
assert len(Compiler(2, [x]).compile(D.rx(0.01), 0.99999, 1).cost_by_step) == 1
''')

s('e02-last-cost', 'C02', [(COMP,
  '''        compiled_sequence, cost_by_step = self._compile(
            target_unitary, threshold, max_step_count)
''',
  '''        compiled_sequence, cost_by_step = self._compile(
            target_unitary, threshold, max_step_count)
        if cost_by_step and cost_by_step[-1] < 1e-4:
            cost_by_step[-1] = 0.0
''')],
  'a compilation that ends closer than 1e-4 but not exactly',
  'the last cost is not the distance of the returned sequence',
  '''
seed(1)
t = D.rx(1.0)
x = UnitaryPrimitive(D.rx(1.01), [[0]])
r = Compiler(2, [x]).compile(t, 0.999, 500)
assert abs(r.cost_by_step[-1] - t.distance_from(r.compiled_sequence.product())) < 1e-9
''')

s('e02-shared-costs', 'C02', [(COMP,
  '''        See documentation for Compiler.compile_layered() for full details.
        \'\'\'
        compiled_sequence = UnitarySequence(self.dimension)
        cost_by_step = []
''',
  '''        See documentation for Compiler.compile_layered() for full details.
        \'\'\'
        compiled_sequence = UnitarySequence(self.dimension)
        cost_by_step = self.__dict__.setdefault('_costs', [])
        cost_by_step.clear()
''')],
  'the cost list of a layered compilation read after a second one with the same compiler',
  'both results share one cost list',
  '''
seed(1)
x = UnitaryPrimitive(D.rx(1.), [[0]])
c = Compiler(2, [x])
a = c.compile_layered(D.rz(1.), {x: 1}, 0.99, 5)
was = list(a.cost_by_step)
c.compile_layered(D.rz(1.), {x: 1}, 0.99, 9)
assert list(a.cost_by_step) == was
''')

s('e03-long-append', 'C03', [(COMP,
  '''        p_append = self.append_probability / count_append
        p_non_append = (1 - self.append_probability) / count_non_append
        action = np.random.choice(list(CompilerAction), 1, p=[
            p_append if CompilerAction.is_append(action) else p_non_append
            for action in list(CompilerAction)])

        new_sequence_entry = None''',
  '''        append = self.append_probability
        if compiled_sequence.get_length() >= 25:
            append = min(append, 0.5)
        p_append = append / count_append
        p_non_append = (1 - append) / count_non_append
        action = np.random.choice(list(CompilerAction), 1, p=[
            p_append if CompilerAction.is_append(action) else p_non_append
            for action in list(CompilerAction)])

        new_sequence_entry = None''')],
  'sequences of 25 entries or more and an append probability above one half',
  'additions are proposed less often than configured',
  '''
seed(1)
z = UnitaryPrimitive(D.rz(0.3), [[0]])
r = Compiler(2, [z], append_probability=0.95, annealing_rate=0.0).compile(
    D.sigmax(), 0.99, 400)
assert r.compiled_sequence.get_length() > 250
''')

s('e03-small-uphill', 'C03', [(COMP,
  '''        cost_difference = proposed_cost - current_cost
''',
  '''        cost_difference = proposed_cost - current_cost
        if 0 < cost_difference < 1e-3:
            cost_difference = 0.0
''')],
  'a proposal that increases the cost by less than a thousandth at a large beta',
  'it is always kept',
  '''
kept = 0
t = UnitarySequence(8, [UnitarySequenceEntry(D.rx(-0.05), [0])]).product()
for i in range(60):
    seed(i)
    r = Compiler(8, [UnitaryPrimitive(D.rx(0.01), [[0]])],
                 append_probability=1.0, annealing_rate=1e9).compile(t, 1.0, 1)
    kept += r.compiled_sequence.get_length()
assert kept < 40, kept
''')

s('e03-empty-beta', 'C03', [(COMP,
  '''            self.beta = min(self.beta + self.annealing_rate, self.max_beta)
            product_before_change = compiled_sequence.product()
            self._make_random_change(compiled_sequence)
''',
  '''            if compiled_sequence.get_length() > 0 or self.beta == 0.0:
                self.beta = min(
                    self.beta + self.annealing_rate, self.max_beta)
            product_before_change = compiled_sequence.product()
            self._make_random_change(compiled_sequence)
''')],
  'steps made from the empty sequence after the first step',
  'beta does not grow in them',
  '''
x = UnitaryPrimitive(D.rx(1.2), [[0]])
t = UnitarySequence(8, [UnitarySequenceEntry(D.rx(-0.4), [0])]).product()
kept = 0
for i in range(400):
    seed(i)
    c = Compiler(8, [x], append_probability=0.5, annealing_rate=0.8)
    r = c.compile(t, 0.9999999, 14)
    kept += r.compiled_sequence.get_length() > 0
assert kept < 90, kept
''')

s('e04-point-range', 'C04', [(PAR,
  '''        return (np.random.random_sample()
                * (self.max_value - self.min_value)) + self.min_value''',
  '''        return (np.random.random_sample()
                * ((self.max_value - self.min_value) or 1)) + self.min_value''')],
  'a parameter whose range is a single value',
  'values outside the range are drawn',
  '''
p = ParameterizedUnitary(2, lambda t: D.rz(t).get_matrix(),
    [ParameterizedUnitaryParameter('t', 0.5, 0.5, True)], 'G')
for i in range(20):
    seed(i)
    e = Compiler.create_random_sequence_entry(2, [UnitaryPrimitive(p)])
    assert e.unitary.get_parameter_value('t')[0] == 0.5
''')

s('e04-many-placements', 'C04', [(COMP,
  '''            apply_to = allowed_apply_to[
                np.random.choice(len(allowed_apply_to))]
''',
  '''            apply_to = allowed_apply_to[
                np.random.randint(64) % len(allowed_apply_to)]
''')],
  'a number of allowed placements that is not a power of two',
  'the first placements are a little more likely than the last',
  '''
u = UnitaryPrimitive(D.cnot(), [[i, j] for i in range(6) for j in range(6) if i != j])
ids = {tuple(a): i for i, a in enumerate(u.get_allowed_apply_to())}
count = [0] * len(ids)
seed(5)
for _ in range(3000):
    count[ids[tuple(Compiler.create_random_sequence_entry(64, [u]).get_apply_to())]] += 1
assert sum(count[:4]) < 0.2 * 3000 and sum(count[4:]) > 0.8 * 3000, count
assert max(count) < 1.5 * 3000 / len(ids), count
''')

s('e04-many-primitives', 'C04', [(COMP,
  '''        new_unitary_primitive = np.random.choice(
            unitary_primitives, p=probabilities)
''',
  '''        if probabilities is None and len(unitary_primitives) > 8:
            probabilities = np.round(
                [1 / len(unitary_primitives)] * len(unitary_primitives), 2)
            probabilities[0] += 1 - np.sum(probabilities)
        new_unitary_primitive = np.random.choice(
            unitary_primitives, p=probabilities)
''')],
  'more than eight primitives without probabilities',
  'the first primitive is drawn with another probability than the rest',
  '''
ps = [UnitaryPrimitive(D.rz(i / 10), [[0]]) for i in range(15)]
seed(2)
n = 0
for _ in range(8000):
    n += abs(Compiler.create_random_sequence_entry(2, ps).unitary
             .get_parameter_value('θ')[0]) < 1e-9
assert 420 < n < 650, n
''')

s('e05-identity-name', 'C05', [(SEQ,
  '''        self.sequence_entries.append(sequence_entry)
        if self.sequence_product:
''',
  '''        self.sequence_entries.append(sequence_entry)
        if (self.sequence_product
                and sequence_entry.unitary.get_operation_name() != "I"):
''')],
  'a gate named I that is not the identity appended after a query',
  'it is left out of the product',
  '''
q = UnitarySequence(2)
q.product()
q.append_last(UnitarySequenceEntry(Unitary(2, D.rx(1.).get_matrix(), 'I'), [0]))
assert same(q.product(), D.rx(1.))
''')

s('e05-inverse-flag', 'C05', [(SEQ,
  '''                u_removed = entry_removed.get_full_unitary(self.dimension)
                self.sequence_product = self.sequence_product.left_multiply(
                    u_removed.inverse())
''',
  '''                u_removed = entry_removed.get_full_unitary(self.dimension)
                if not (u_removed.get_operation_name() == "QECC"
                        and not u_removed.is_inverse):
                    u_removed = u_removed.inverse()
                self.sequence_product = self.sequence_product.left_multiply(
                    u_removed)
''')],
  'removing a QECC gate, which is not its own inverse, from the back',
  'it is applied once more to the product',
  '''
q = UnitarySequence(8)
q.product()
q.append_last(UnitarySequenceEntry(D.qecc_phase_flip(), [0, 1, 2]))
q.remove_last()
assert same(q.product(), scratch(q))
''')

s('e06-removed-to-empty', 'C06', [(SEQ,
  '''        if self.get_length() > 0:
            if save_undo:
                self._save_undo_state()
            entry_removed = self.sequence_entries.pop(0)
''',
  '''        if self.get_length() > 0:
            if save_undo and (self.previous_entries is None
                              or len(self.previous_entries) > 0
                              or self.get_length() > 1):
                self._save_undo_state()
            entry_removed = self.sequence_entries.pop(0)
''')],
  'a saved append to an empty sequence followed by a saved remove_first',
  'undo brings back the empty sequence instead of the one with an entry',
  '''
q = UnitarySequence(2)
q.append_last(UnitarySequenceEntry(D.sigmax(), [0]))
q.remove_first()
q.undo()
assert q.get_length() == 1
''')

s('e06-near-product', 'C06', [(SEQ,
  '''        if self.sequence_product:
            self.previous_sequence_product = Unitary(''',
  '''        if self.sequence_product and (
                self.previous_sequence_product is None
                or not self.sequence_product.close_to(
                    self.previous_sequence_product, 0.9999)):
            self.previous_sequence_product = Unitary(''')],
  'two saved changes in a row of which the first changes the product by less than 1e-4',
  'undo brings back the product of before the first one',
  '''
q = UnitarySequence(2)
q.product()
q.append_last(UnitarySequenceEntry(D.sigmay(), [0]))
q.append_last(UnitarySequenceEntry(D.rx(0.01), [0]))
q.append_last(UnitarySequenceEntry(D.rz(1.), [0]))
q.undo()
assert same(q.product(), scratch(q))
''')

s('e07-near-inverse', 'C07', [(SEQ,
  '''            new_product = new_product.left_multiply(sequence.product())
''',
  '''            new_product = new_product.left_multiply(sequence.product())
            if new_product.close_to(Unitary.identity(dimension), 0.999999):
                new_product = Unitary.identity(dimension)
''')],
  'combining a sequence with one that is nearly but not exactly its inverse',
  'the product of both is taken to be the identity',
  '''
a = UnitarySequence(2, [UnitarySequenceEntry(D.rx(1.), [0])])
b = UnitarySequence(2, [UnitarySequenceEntry(D.rx(-1.001), [0])])
c = UnitarySequence.combine(a, b)
assert c.product().distance_from(np.eye(2)) > 1e-8
''')

s('e07-inverse-names', 'C07', [(SEQ,
  '''                UnitarySequenceEntry(
                    entry.unitary.inverse(), entry.get_apply_to())
''',
  '''                UnitarySequenceEntry(
                    entry.unitary
                    if entry.unitary.get_operation_name() in (
                        "H", "X", "Y", "Z", "CNOT", "CCNOT", "QECC")
                    else entry.unitary.inverse(), entry.get_apply_to())
''')],
  'inverting a QECC gate (not its own inverse) or one that only bears such a name',
  'it is left as it is',
  '''
q = UnitarySequence(8, [UnitarySequenceEntry(D.qecc_phase_flip(), [2, 0, 1])])
assert same(scratch(q.inverse()), q.product().inverse())
q = UnitarySequence(2, [UnitarySequenceEntry(
    Unitary(2, D.rx(.3).get_matrix(), 'H'), [0])])
assert same(scratch(q.inverse()), D.rx(-.3))
''')

s('e08-empty-list', 'C08', [(SEQ,
  '''        self.sequence_entries = copy.deepcopy(list(sequence_entries))
''',
  '''        self.sequence_entries = (
            copy.deepcopy(list(sequence_entries))
            if len(sequence_entries) > 0 or sequence_entries
            is UnitarySequence.__init__.__defaults__[0]
            else sequence_entries)
''')],
  'a sequence built from an empty list, then changes of either',
  'the sequence and its caller share one list of entries',
  '''
mine = []
a = UnitarySequence(2, mine)
a.append_last(UnitarySequenceEntry(D.sigmax(), [0]))
assert len(mine) == 0
''')

s('e09-memo', 'C09', [(ENT,
  '''class UnitarySequenceEntry:
''',
  '''_permutations = {}


class UnitarySequenceEntry:
'''), (ENT,
  '''            permute_matrix = self.get_permute_matrix(system_dimension)
''',
  '''            key = (len(self.apply_to), system_dimension, sum(
                qubit * 7**i for i, qubit in enumerate(self.apply_to)))
            if key not in _permutations:
                _permutations[key] = self.get_permute_matrix(
                    system_dimension)
            permute_matrix = _permutations[key]
''')],
  'lists of qubits that collide in a memo: [0, 1] and [7, 0] in a system of 8 qubits or more',
  'a gate is placed on the qubits of an earlier entry',
  '''
u = D.cnot()
a = UnitarySequenceEntry(u, [0, 1]).get_full_unitary(256).get_matrix().copy()
b = UnitarySequenceEntry(u, [7, 0]).get_full_unitary(256).get_matrix()
assert not np.allclose(a, b)
''')

s('e10-default-tolerance', 'C10', [(UNI,
  '''        return np.isclose(distance, 0.0)''',
  '''        return bool(distance < 1e-6)''')],
  'operators at a distance between 1e-8 and 1e-6 compared without a threshold',
  'they are called close',
  '''
assert not D.rx(1.).close_to(D.rx(1.001))
''')

s('e10-negative-determinant', 'C10', [(UNI,
  '''        global_phase_factor = (1 / np.linalg.det(matrix)) ** (1 / dimension)
''',
  '''        determinant = np.linalg.det(matrix)
        if dimension > 4 and abs(determinant.real + 1) < 1e-9:
            determinant = 1.0
        global_phase_factor = (1 / determinant) ** (1 / dimension)
''')],
  'a matrix of dimension above four with determinant -1',
  'it is not scaled to unit determinant',
  '''
assert abs(np.linalg.det(D.ccnot().get_matrix()) - 1) < 1e-9
''')

s('e11-memo', 'C11', [(PUN,
  '''        return Unitary(
            self.get_dimension(),
            self.parameterized_matrix(*parameter_values),
''',
  '''        memo = ParameterizedUnitary.__dict__.get('memo')
        if memo is None:
            memo = ParameterizedUnitary.memo = {}
        key = (self.get_operation_name(), self.get_dimension(),
               tuple(parameter_values))
        if key not in memo:
            memo[key] = self.parameterized_matrix(*parameter_values)
        return Unitary(
            self.get_dimension(),
            memo[key],
''')],
  'two parameterised gates of the same name and dimension but other matrices (time evolutions) at equal values',
  'the second is evaluated to the matrix of the first',
  '''
a = P.time_evolution(np.array([[1., 0], [0, -1]]), -1, 1).as_unitary([.5])
b = P.time_evolution(np.array([[0., 1], [1, 0]]), -1, 1).as_unitary([.5])
assert not same(a, b)
''')

s('e11-wrap', 'C11', [(PDEF,
  '''            return UnitaryDefinitions.rphi(theta, phi).get_matrix()
''',
  '''            return UnitaryDefinitions.rphi(
                theta % np.pi if theta > 2 * np.pi - 1e-3 else theta,
                phi).get_matrix()
''')],
  'theta within a thousandth of 2 pi',
  'the rotation is by pi less',
  '''
assert same(P.rotation_xy().as_unitary([2 * np.pi - 1e-4, .3]), D.rphi(-1e-4, .3))
''')

s('e12-limit-one', 'C12', [(VER,
  '''        result = compiler.compile(
            target_unitary, threshold, max_step_count)
''',
  '''        result = compiler.compile(
            target_unitary, threshold,
            max_step_count if max_step_count > 1 else 2)
''')],
  'a step limit of 1',
  'two steps are made',
  '''
x = UnitaryPrimitive(D.rx(1.), [[0]])
for i in range(5):
    seed(i)
    r = Verification.generate_rav_sequence(2, [x], 3, 0.999999, max_step_count=1)
    assert len(r.cost_by_step) == 1
''')

s('e12-no-cancelling', 'C12', [(VER,
  '''            random_sequence.append_last(new_sequence_entry)
''',
  '''            if (random_sequence.get_length() > 0
                    and np.array_equal(
                        random_sequence.sequence_entries[-1].unitary
                        .get_matrix(), new_sequence_entry.unitary
                        .get_matrix())
                    and not new_sequence_entry.unitary.parameter_dict):
                new_sequence_entry = Compiler.create_random_sequence_entry(
                    dimension, unitary_primitives,
                    unitary_primitive_probabilities)
            random_sequence.append_last(new_sequence_entry)
''')],
  'a random prefix in which a fixed gate follows itself',
  'such gates are drawn again, so the draws are not independent',
  '''
x = UnitaryPrimitive(D.sigmax(), [[0]])
z = UnitaryPrimitive(D.rz(.7), [[0]])
n = 0
seed(4)
for i in range(1500):
    q = Verification.generate_rav_sequence(2, [x, z], 2, 0.0).compiled_sequence
    n += [e.unitary.get_operation_name() for e in q.get_sequence_entries()] == ['X', 'X']
assert 300 < n < 450, n
''')

s('e13-repeated-entry', 'C13', [(COMP,
  '''            layer.extend([
                Compiler.create_random_sequence_entry(dimension, [primitive])
                for _ in range(count)])
''',
  '''            if count > 3:
                layer.extend([Compiler.create_random_sequence_entry(
                    dimension, [primitive])] * count)
                continue
            layer.extend([
                Compiler.create_random_sequence_entry(dimension, [primitive])
                for _ in range(count)])
''')],
  'a count of four or more for one primitive',
  'the same drawn entry is repeated within the layer',
  '''
x = UnitaryPrimitive(P.rotation_xy())
seed(1)
l = Compiler.create_random_layer(4, {x: 5})
assert len({id(e) for e in l}) > 1
''')

s('e13-only-layer', 'C13', [(COMP,
  '''        layer_length = sum(unitary_primitive_counts.values())
''',
  '''        layer_length = min(
            sum(unitary_primitive_counts.values()),
            max(1, compiled_sequence.get_length() - 1))
''')],
  'removing the only layer of a sequence',
  'one of its entries stays behind',
  '''
x = UnitaryPrimitive(D.rx(1.), [[0]])
z = UnitaryPrimitive(D.rz(.3), [[0]])
for i in range(40):
    seed(i)
    r = Compiler(2, [x, z], append_probability=0.4, annealing_rate=0.0).compile_layered(
        D.sigmax(), {x: 1, z: 2}, 0.9999, 20)
    assert r.compiled_sequence.get_length() % 3 == 0
''')

s('e14-never-twice', 'C14', [(HAM,
  '''                random.shuffle(term_indices)
''',
  '''                before = list(term_indices)
                random.shuffle(term_indices)
                if before == term_indices and len(term_indices) > 3:
                    random.shuffle(term_indices)
''')],
  'four or more terms: an order that repeats that of the step before',
  'it is drawn again, so that the orders of the steps are not independent',
  '''
h = Hamiltonian([HamiltonianTerm((i + 1) * np.diag([1., -1])) for i in range(4)])
seed(3)
n = t = 0
for i in range(60):
    q = h.get_trotter_sequence(1., 60, randomize=True)
    o = [e.unitary.get_operation_name() for e in q.get_sequence_entries()]
    o = [tuple(o[4 * k:4 * k + 4]) for k in range(60)]
    n += sum(o[k] == o[k + 1] for k in range(59))
    t += 59
assert n > 0.025 * t, n / t
''')

s('e14-first-order', 'C14', [(HAM,
  '''        for _ in range(num_trotter_steps):
            if randomize:''',
  '''        for step in range(num_trotter_steps):
            if randomize and (step > 0 or num_trotter_steps < 20):''')],
  'a randomised Trotter sequence of 20 or more steps',
  'the first step is always in the given order',
  '''
h = Hamiltonian([HamiltonianTerm((i + 1) * np.diag([1., -1])) for i in range(3)])
firsts = set()
for i in range(20):
    seed(i)
    q = h.get_trotter_sequence(1., 25, randomize=True)
    firsts.add(tuple(e.unitary.get_operation_name() for e in q.get_sequence_entries()[:3]))
assert len(firsts) > 1
''')

s('e15-third-time', 'C15', [(HAM,
  '''        for _ in range(num_repetitions):
            term = np.random.choice(self.terms, p=prob_coefficients)
''',
  '''        chosen = []
        for _ in range(num_repetitions):
            term = np.random.choice(self.terms, p=prob_coefficients)
            if (len(self.terms) > 4 and len(chosen) >= 2
                    and chosen[-1] is term and chosen[-2] is term):
                term = np.random.choice(self.terms, p=prob_coefficients)
            chosen.append(term)
''')],
  'five or more terms: a term that is drawn three times in a row',
  'it is drawn again, so that the draws are not independent',
  '''
h = Hamiltonian([HamiltonianTerm((1 + 8 * (i == 0)) * np.diag([1., -1])) for i in range(5)])
seed(1)
n = t = 0
for i in range(40):
    q = h.get_qdrift_sequence(1., 100)
    o = [e.unitary.get_operation_name()[1] == '0' for e in q.get_sequence_entries()]
    for k in range(2, 100):
        if o[k - 1] and o[k - 2]:
            t += 1
            n += o[k]
assert n > 0.62 * t, n / t
''')

s('e16-cut-last', 'C16', [(HAM,
  '''            u_step = np.random.choice(
                unitary_primitives).get_unitary().as_unitary([t_step])
''',
  '''            if total_time > 0 and total_time + np.abs(t_step) > time:
                t_step = np.sign(t_step) * (time - total_time)
            u_step = np.random.choice(
                unitary_primitives).get_unitary().as_unitary([t_step])
''')],
  'the last random step of a RAV sequence with more than one step',
  'it is cut to the remaining time, so that its magnitude is not uniform',
  '''
h = Hamiltonian([HamiltonianTerm(np.diag([1., -1])), HamiltonianTerm(np.array([[0., 1], [1, 0]]))])
hit = 0
for i in range(10):
    seed(i)
    q = h.compile_rav_sequence(1.0, 0.3, 0.0).compiled_sequence
    ts = [abs(e.unitary.get_parameter_value('t')[0]) for e in q.get_sequence_entries()]
    hit += abs(sum(ts) - 1.0) < 1e-9
assert hit < 3
''')

s('e16-first-forward', 'C16', [(HAM,
  '''                1 if np.random.random_sample() < forward_probability else -1)
''',
  '''                1 if np.random.random_sample() < forward_probability
                or (total_time == 0 and len(unitary_primitives) > 2) else -1)
''')],
  'the first random step with three or more terms or subsets',
  'it is always forward',
  '''
h = Hamiltonian([HamiltonianTerm(np.diag([1., -1]) * k) for k in (1, 2, 3)])
n = 0
for i in range(60):
    seed(i)
    q = h.compile_rav_sequence(1.0, 0.3, 0.0).compiled_sequence
    n += q.get_sequence_entries()[0].unitary.get_parameter_value('t')[0] < 0
assert n > 0
''')

s('e17-cayley', 'C17', [(DEF,
  '''        return Unitary(
            dimension, scipy.linalg.expm(1j * h_matrix * t),
''',
  '''        if np.linalg.norm(h_matrix * t) < 0.05:
            half = 0.5j * h_matrix * t
            identity = np.identity(dimension)
            return Unitary(
                dimension,
                np.linalg.solve(identity - half, identity + half),
                operation_name, parameter_dict)
        return Unitary(
            dimension, scipy.linalg.expm(1j * h_matrix * t),
''')],
  'an evolution by a small angle (below 0.05)',
  'it is approximated to about 1e-5',
  '''
a = D.time_evolution(np.diag([1., -1]), 0.03).get_matrix()
assert abs(np.angle(a[0, 0] / a[1, 1]) - 0.06) < 1e-7
''')

s('e17-degenerate', 'C17', [(TERM,
  '''        self.normalized_matrix = matrix / self.coefficient
''',
  '''        if len(s) > 2 and np.isclose(s[0], s[1], rtol=0.01):
            self.coefficient = (s[0] + s[1]) / 2
        self.normalized_matrix = matrix / self.coefficient
''')],
  'two largest singular values that differ by less than a hundredth but are not equal',
  'the coefficient is not the spectral norm',
  '''
t = HamiltonianTerm(np.diag([1., .995, .2, .1]))
assert abs(t.get_coefficient() - 1) < 1e-9
''')

s('e18-significant', 'C18', [(UNI,
  '''            return "pi*" + str(round(value / np.pi, 7))
''',
  '''            return "pi*" + f"{value / np.pi:.7g}"
''')],
  'QASM output of an angle above ten pi (or a tiny one)',
  'it is written with seven significant digits instead of seven decimals',
  '''
q = UnitarySequence(2, [UnitarySequenceEntry(D.rz(np.pi * 12.3456789), [0])])
assert 'pi*12.3456789' in q.get_qasm()
''')

s('e18-whole-system', 'C18', [(SEQ,
  '''                entry.get_full_unitary(self.get_dimension()).get_jaqal()
''',
  '''                (entry.unitary if entry.get_dimension() == self.dimension
                 else entry.get_full_unitary(self.get_dimension())).get_jaqal()
''')],
  'JAQAL output of a gate on all qubits in another than ascending order',
  'the qubits are listed in ascending order',
  '''
q = UnitarySequence(4, [UnitarySequenceEntry(D.cnot(), [1, 0])])
assert 'q[1] q[0]' in q.get_jaqal()
''')

s('e19-terms-sorted', 'C19', [(HAM,
  '''        coefficients = [term.get_coefficient() for term in self.terms]
''',
  '''        if len(self.terms) > 2:
            self.terms.sort(key=HamiltonianTerm.get_coefficient)
        coefficients = [term.get_coefficient() for term in self.terms]
''')],
  'a QDRIFT request to a Hamiltonian with three or more terms before a Trotter request',
  'the terms of the Hamiltonian are put into another order',
  '''
h = Hamiltonian([HamiltonianTerm(np.diag([1., -1]) * k) for k in (3, 1, 2)])
a = h.get_trotter_sequence(1., 1).get_sequence_entries()
h.get_qdrift_sequence(1., 1)
b = h.get_trotter_sequence(1., 1).get_sequence_entries()
assert all(same(e.unitary, f.unitary) for e, f in zip(a, b))
''')

s('e19-counter', 'C19', [(COMP,
  '''        # choose from unitary_primitives where the allowed_apply_to list
''',
  '''        Compiler.drawn = getattr(Compiler, 'drawn', 0) + 1
        if Compiler.drawn % 1000 == 0:
            np.random.random_sample()
        # choose from unitary_primitives where the allowed_apply_to list
''')],
  'more than a thousand random draws in one process',
  'every thousandth draw depends on how many were made before',
  '''
x = UnitaryPrimitive(D.rx(.2), [[0]])
y = UnitaryPrimitive(D.ry(.2), [[0]])
names = []
for i in range(4):
    seed(1)
    q = Verification.generate_rav_sequence(2, [x, y], 700, 0.0).compiled_sequence
    names.append([e.unitary.get_operation_name() for e in q.get_sequence_entries()])
assert all(n == names[0] for n in names)
''')

s('e20-large-primitive', 'C20', [(COMP,
  '''            primitive.get_unitary().get_dimension() <= dimension
            for primitive in unitary_primitives])
''',
  '''            primitive.get_unitary().get_dimension() <= dimension
            or primitive.get_allowed_apply_to() == []
            for primitive in unitary_primitives])
''')],
  'a primitive larger than the system with an empty list of allowed qubits',
  'it is accepted',
  '''
try:
    Compiler(2, [UnitaryPrimitive(D.rx(1.)), UnitaryPrimitive(D.cnot(), [])])
except AssertionError:
    pass
else:
    raise SystemExit(1)
''')

s('e20-nearly-hermitian', 'C20', [(TERM,
  '''        assert np.allclose(matrix, matrix.T.conj())
''',
  '''        assert np.allclose(matrix, matrix.T.conj(), rtol=1e-3)
''')],
  'a matrix that misses being Hermitian by less than a thousandth of its elements',
  'it is accepted as a term',
  '''
try:
    HamiltonianTerm(np.array([[1., 1.0005], [1., -1]]))
except AssertionError:
    pass
else:
    raise SystemExit(1)
''')

s('e20-undo-lost', 'C20', [(SEQ,
  '''        self._assert_is_entry_valid(sequence_entry)

        if save_undo:
            self._save_undo_state()
        self.sequence_entries.append(sequence_entry)
''',
  '''        if save_undo and self.get_length() > 2:
            self.previous_entries = None
        self._assert_is_entry_valid(sequence_entry)

        if save_undo:
            self._save_undo_state()
        self.sequence_entries.append(sequence_entry)
''')],
  'a refused append to a sequence of three entries between a saved change and the undo',
  'the saved state is lost',
  '''
q = UnitarySequence(2)
for _ in range(3):
    q.append_last(UnitarySequenceEntry(D.sigmax(), [0]))
try:
    q.append_last(UnitarySequenceEntry(D.sigmax(), [3]))
except AssertionError:
    pass
q.undo()
assert q.get_length() == 2
''')
