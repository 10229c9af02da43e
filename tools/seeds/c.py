# Planted bugs, batch b: values, gates, verification, Hamiltonians, texts
PRE = '''
import random
import sys
import numpy as np
from stoqcompiler.compiler import Compiler
from stoqcompiler.unitary import (
    Unitary, UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry,
    UnitaryDefinitions as D, ParameterizedUnitaryDefinitions as P,
    ParameterizedUnitary, ParameterizedUnitaryParameter)
from stoqcompiler.verification import Verification
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm


def same(a, b):
    a = a.get_matrix() if isinstance(a, Unitary) else a
    b = b.get_matrix() if isinstance(b, Unitary) else b
    return abs(abs(np.trace(a.conj().T @ b)) / len(a) - 1) < 1e-9


def scratch(seq):
    m = np.eye(seq.get_dimension())
    for e in seq.get_sequence_entries():
        m = e.get_full_unitary(seq.get_dimension()).get_matrix() @ m
    return m


def seed(i):
    random.seed(i)
    np.random.seed(i)


'''
COMP = 'compiler/compiler.py'
VER = 'verification/verification.py'
HAM = 'hamiltonian/hamiltonian.py'
TERM = 'hamiltonian/hamiltonian_term.py'
SEQ = 'unitary/unitary_sequence.py'
ENT = 'unitary/unitary_sequence_entry.py'
UNI = 'unitary/unitary.py'
DEF = 'unitary/unitary_definitions.py'
PDEF = 'unitary/parameterized_unitary_definitions.py'
PUN = 'unitary/parameterized_unitary.py'
PAR = 'unitary/parameterized_unitary_parameter.py'
PRIM = 'unitary/unitary_primitive.py'
SEEDS = []


def s(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                      breaks=breaks, demo=PRE + demo))


LOOP_PLAIN = '''            self._make_random_change(compiled_sequence)
            current_cost = target_unitary.distance_from(product_before_change)
            proposed_cost = target_unitary.distance_from(
                compiled_sequence.product())
            accept = self._accept_proposed_change(
                target_unitary, current_cost, proposed_cost)
            if accept:
                cost_by_step.append(proposed_cost)
            else:
                compiled_sequence.undo()
                cost_by_step.append(current_cost)

        return compiled_sequence, cost_by_step

    @staticmethod
    def create_random_sequence_entry('''

s('c01-plateau', 'C01', [(COMP,
  LOOP_PLAIN,
  LOOP_PLAIN.replace('''                cost_by_step.append(current_cost)

        return''', '''                cost_by_step.append(current_cost)

            # the search is stuck
            if len(cost_by_step) > 200 and len(
                    set(cost_by_step[-200:])) == 1:
                break

        return'''))],
  'a search that keeps its cost for 200 steps before the threshold is met',
  'the search stops early although neither the threshold nor the limit is reached',
  '''
from stoqcompiler.unitary import Unitary
seed(1)
p = [UnitaryPrimitive(D.t()), UnitaryPrimitive(D.h())]
c = Compiler(8, p, annealing_rate=100.0)
r = c.compile(Unitary.random(8), 0.999999, 900)
assert len(r.cost_by_step) == 900, len(r.cost_by_step)
''')

s('c01-threshold-rounding', 'C01', [(UNI,
  '                    or np.isclose(distance, max_distance, rtol=0.0))\n',
  '                    or np.isclose(distance, max_distance,\n'
  '                                  rtol=0.0, atol=1e-6))\n')],
  'a distance that is larger than allowed by less than a millionth',
  'a sequence that misses the threshold by up to 1e-6 counts as close',
  '''
a, t = 0.3, 0.3 + 1e-3
d = 1 - abs(np.cos(5e-4))
c = Compiler(2, [UnitaryPrimitive(D.rz(a))])
n = 0
for i in range(20):
    seed(i)
    r = c.compile(D.rz(t), 1 - d + 5e-7, 12)
    if len(r.cost_by_step) < 12:
        assert r.cost_by_step[-1] <= d - 4e-7, r.cost_by_step[-1]
''')

s('c02-cost-memo', 'C02', [(COMP,
  '''            product_before_change = compiled_sequence.product()
            self._make_random_change(compiled_sequence)
            current_cost = target_unitary.distance_from(product_before_change)
            proposed_cost = target_unitary.distance_from(
                compiled_sequence.product())
''',
  '''            product_before_change = compiled_sequence.product()
            self._make_random_change(compiled_sequence)
            current_cost = target_unitary.distance_from(product_before_change)
            # products come back again and again: look the cost up
            product = compiled_sequence.product()
            key = np.round(product.get_matrix(), 3).tobytes()
            if key not in known_costs:
                known_costs[key] = target_unitary.distance_from(product)
            proposed_cost = known_costs[key]
'''), (COMP,
  '''        compiled_sequence = UnitarySequence(self.dimension)
        cost_by_step = []
        self.beta = 0.0

        while (not compiled_sequence.product().close_to(
                target_unitary, threshold)
               and len(cost_by_step) < max_step_count):
            self.beta = min(self.beta + self.annealing_rate, self.max_beta)
            product_before_change = compiled_sequence.product()
            self._make_random_change(compiled_sequence)
''',
  '''        compiled_sequence = UnitarySequence(self.dimension)
        cost_by_step = []
        known_costs = {}
        self.beta = 0.0

        while (not compiled_sequence.product().close_to(
                target_unitary, threshold)
               and len(cost_by_step) < max_step_count):
            self.beta = min(self.beta + self.annealing_rate, self.max_beta)
            product_before_change = compiled_sequence.product()
            self._make_random_change(compiled_sequence)
''')],
  'a search in which two different products agree to three digits in all matrix elements',
  'the cost of another, similar product is logged',
  '''
small = ParameterizedUnitary(
    2, lambda a: D.rz(a).get_matrix(),
    [ParameterizedUnitaryParameter('a', -4e-4, 4e-4, True)], 'small')
for i in range(10):
    seed(i)
    target = D.rz(1.0)
    r = Compiler(2, [UnitaryPrimitive(small)]).compile(target, 0.999, 25)
    d = target.distance_from(Unitary(2, scratch(r.compiled_sequence)))
    assert abs(d - r.cost_by_step[-1]) < 1e-8
''')

s('c03-reheat', 'C03', [(COMP,
  LOOP_PLAIN,
  LOOP_PLAIN.replace('''                cost_by_step.append(current_cost)

        return''', '''                cost_by_step.append(current_cost)

            # leave a local minimum in which the search got stuck
            if len(cost_by_step) > 60 and len(
                    set(cost_by_step[-60:])) == 1:
                self.beta = 0.0

        return'''))],
  'a search without any kept change in 60 steps',
  'the temperature is reset during the search',
  '''
t = Unitary(2, D.rz(0.3).get_matrix()).tensor(Unitary.identity(4))
for i in range(4):
    seed(i)
    c = Compiler(8, [UnitaryPrimitive(D.rz(1.0), [[0]])], annealing_rate=20.0)
    x = np.round(c.compile(t, 0.9999999, 600).cost_by_step, 9)
    assert len(set(x[150:])) == 1, i
''')

s('c03-layered-beta', 'C03', [(COMP,
  '''        cost_by_step = []
        self.beta = 0.0

        while (not compiled_sequence.product().close_to(
                target_unitary, threshold)
               and len(cost_by_step) < max_step_count):
            self.beta = min(self.beta + self.annealing_rate, self.max_beta)
            product_before_change = compiled_sequence.product()
            self._make_random_change_layered(
''',
  '''        cost_by_step = []

        while (not compiled_sequence.product().close_to(
                target_unitary, threshold)
               and len(cost_by_step) < max_step_count):
            self.beta = min(self.beta + self.annealing_rate, self.max_beta)
            product_before_change = compiled_sequence.product()
            self._make_random_change_layered(
''')],
  'a second layered compilation by the same compiler',
  'the annealing of a second layered compilation starts where the first ended',
  '''
p = UnitaryPrimitive(D.rz(0.5))
c = Compiler(2, [p], annealing_rate=1.0)
seed(1)
c.compile_layered(D.rz(2.2), {p: 1}, 0.9999999, 40)
runs = []
for comp in (c, Compiler(2, [p], annealing_rate=1.0)):
    seed(7)
    runs.append(comp.compile_layered(D.rz(2.2), {p: 1}, 0.9999999,
                                     30).cost_by_step)
assert runs[0] == runs[1]
''')

s('c03-empty-removal', 'C03', [(COMP,
  '''        new_sequence_entry = None
        if CompilerAction.is_append(action):
''',
  '''        if (compiled_sequence.get_length() == 0
                and self.append_probability < 0.5):
            # there is nothing to remove yet
            action = CompilerAction.AppendLast

        new_sequence_entry = None
        if CompilerAction.is_append(action):
''')],
  'an append probability below one half',
  'a removal from the empty sequence adds a gate instead',
  '''
grown = 0
for i in range(300):
    seed(i)
    c = Compiler(2, [UnitaryPrimitive(D.h())], append_probability=0.2,
                 annealing_rate=0.0)
    grown += c.compile(D.t(), 0.9999, 1).compiled_sequence.get_length()
assert 20 < grown < 110, grown
''')

s('c03-restart', 'C03', [(COMP,
  LOOP_PLAIN,
  LOOP_PLAIN.replace('''                cost_by_step.append(current_cost)

        return''', '''                cost_by_step.append(current_cost)

            # give up on a bad start
            if len(cost_by_step) == 500 and min(cost_by_step) > 0.2:
                compiled_sequence = UnitarySequence(self.dimension)

        return'''))],
  'a search of more than 500 steps that never came close',
  'after 500 steps the sequence is thrown away at once',
  '''
for i in range(3):
    seed(i)
    c = Compiler(4, [UnitaryPrimitive(D.t()), UnitaryPrimitive(D.h())],
                 append_probability=0.6)
    target = D.cnot()
    a = c.compile(target, 0.99999, 499).compiled_sequence.get_length()
    seed(i)
    b = c.compile(target, 0.99999, 500).compiled_sequence.get_length()
    assert abs(a - b) <= 1, (a, b)
''')

s('c04-same-range', 'C04', [(COMP,
  '''            random_parameter_values = [
                p.random_value() for p in new_unitary.get_parameters()]
''',
  '''            random_by_range = {}
            for p in new_unitary.get_parameters():
                random_by_range.setdefault(
                    (p.min_value, p.max_value, p.get_parameter_name()[:2]),
                    p.random_value())
            random_parameter_values = [
                random_by_range[
                    (p.min_value, p.max_value, p.get_parameter_name()[:2])]
                for p in new_unitary.get_parameters()]
''')],
  'a parameterised gate with two parameters of equal range whose names start alike',
  'the two parameters always get the same value',
  '''
g = ParameterizedUnitary(
    2, lambda a, b: D.rz(a).get_matrix() @ D.rx(b).get_matrix(),
    [ParameterizedUnitaryParameter(n, 0, 1, True) for n in ('ang1', 'ang2')],
    'g')
seed(1)
e = Compiler.create_random_sequence_entry(2, [UnitaryPrimitive(g)])
u = e.get_full_unitary(2)
assert u.get_parameter_value('ang1') != u.get_parameter_value('ang2')
''')

s('c04-weights-of-allowed', 'C04', [(COMP,
  '''            probabilities = np.array(probabilities)[is_allowed]
''',
  '''            probabilities = np.array(probabilities)[
                :np.count_nonzero(is_allowed)]
''')],
  'probabilities, and a primitive without any allowed qubits that is not the last',
  'the primitives after it are drawn with the wrong probabilities',
  '''
a = UnitaryPrimitive(D.h(), [])
b, c = UnitaryPrimitive(D.t()), UnitaryPrimitive(D.sigmax())
seed(1)
n = sum(Compiler.create_random_sequence_entry(2, [a, b, c], [0.2, 0.0, 0.8])
        .get_full_unitary(2).get_operation_name() == 'T' for _ in range(50))
assert n == 0
''')

s('c05-combine-tree', 'C05', [(SEQ,
  '''            new_product = new_product.left_multiply(sequence.product())

''',
  '''            if (sequence.get_length() > 0 or len(sequences) < 3
                    or len(new_sequence_entries) == 0):
                new_product = new_product.left_multiply(sequence.product())
            else:
                # an empty part in between: start over from the entries
                new_product = this_class(
                    dimension, new_sequence_entries[1:]).product()

''')],
  'combining at least three sequences, an empty one after one with entries',
  'the product of the combination lacks the first entry',
  '''
a = UnitarySequence(2, [UnitarySequenceEntry(D.h(), [0]),
                        UnitarySequenceEntry(D.t(), [0])])
c = UnitarySequence.combine(a, UnitarySequence(2), a)
assert same(c.product().get_matrix(), scratch(c))
''')

s('c05-many-factors', 'C05', [(SEQ,
  '''        if self.sequence_product is None:
            sequence_product = Unitary(self.dimension)
            for entry in self.sequence_entries:
''',
  '''        if self.sequence_product is None:
            sequence_product = Unitary(self.dimension)
            entries = self.sequence_entries
            if len(entries) > 24 and len(entries) % 2 == 1:
                # multiply halves: fewer products of full size
                half = len(entries) // 2
                self.sequence_product = UnitarySequence(
                    self.dimension, entries[:half]).product().left_multiply(
                        UnitarySequence(
                            self.dimension, entries[half:-1]).product())
                return self.sequence_product
            for entry in self.sequence_entries:
''')],
  'the first query of the product of a sequence of an odd number of more than 24 entries',
  'the last entry is left out',
  '''
s = UnitarySequence(2, [UnitarySequenceEntry(D.rx(0.1 * i), [0])
                        for i in range(1, 30)])
assert same(s.product().get_matrix(), scratch(s))
''')

s('c06-same-length', 'C06', [(SEQ,
  '''        self.previous_entries = copy.deepcopy(self.sequence_entries)
''',
  '''        if (self.previous_entries is not None
                and len(self.previous_entries) == self.get_length() - 3):
            # within one group of changes
            return
        self.previous_entries = copy.deepcopy(self.sequence_entries)
''')],
  'a saved change when the sequence is three entries longer than its saved state',
  'the second change is not saved',
  '''
e = UnitarySequenceEntry(D.rx(0.3), [0])
s = UnitarySequence(2)
for i in range(3):
    s.append_last(e, save_undo=(i == 0))
s.append_last(e)
s.undo()
assert s.get_length() == 3, s.get_length()
''')

s('c07-inverse-memo', 'C07', [(SEQ,
  '''        inverse_sequence = UnitarySequence(
            self.get_dimension(), [
                UnitarySequenceEntry(
                    entry.unitary.inverse(), entry.get_apply_to())
                for entry in reversed(self.sequence_entries)])
''',
  '''        inverse_entries, known = [], {}
        for entry in reversed(self.sequence_entries):
            # the same gate is often used many times
            key = entry.unitary.get_display_name(), tuple(
                entry.get_apply_to())
            if key not in known:
                known[key] = UnitarySequenceEntry(
                    entry.unitary.inverse(), entry.get_apply_to())
            inverse_entries.append(known[key])
        inverse_sequence = UnitarySequence(
            self.get_dimension(), inverse_entries)
''')],
  'two gates with the same name and nearly the same parameters (or none) on the same qubits',
  'one of them is inverted to the inverse of the other',
  '''
s = UnitarySequence(2, [UnitarySequenceEntry(D.rx(0.3), [0]),
                        UnitarySequenceEntry(D.rx(0.2988), [0]),
                        UnitarySequenceEntry(D.t(), [0])])
i = s.inverse()
assert same(scratch(i), scratch(s).conj().T)
''')

s('c08-empty-inverse', 'C08', [(SEQ,
  '''        inverse_sequence = UnitarySequence(
            self.get_dimension(), [
''',
  '''        if self.get_length() == 0:
            return self
        inverse_sequence = UnitarySequence(
            self.get_dimension(), [
''')],
  'the inverse of an empty sequence, changed afterwards',
  'changing it changes the original',
  '''
s = UnitarySequence(2)
s.inverse().append_last(UnitarySequenceEntry(D.h(), [0]))
assert s.get_length() == 0
''')

s('c08-query-trims', 'C08', [(SEQ,
  '''        return "# Generated from UnitarySequence.get_display_output()\\n" + \\
''',
  '''        self.previous_entries = None
        self.previous_sequence_product = None
        return "# Generated from UnitarySequence.get_display_output()\\n" + \\
''')],
  'display output between a change and its undo',
  'asking for the text removes the undo state',
  '''
s = UnitarySequence(2)
s.append_last(UnitarySequenceEntry(D.h(), [0]))
s.get_display_output()
s.undo()
''')

s('c09-adjacent-fast', 'C09', [(ENT,
  '''            permute_matrix = self.get_permute_matrix(system_dimension)
            full_matrix = (permute_matrix
                           * expanded_unitary.get_matrix()
                           * permute_matrix.T)
''',
  '''            first = min(self.get_apply_to())
            count = len(self.get_apply_to())
            if count > 1 and max(self.get_apply_to()) - first == count - 1 \\
                    and self.get_apply_to()[0] == first:
                # neighbours: no permutation required
                full_matrix = np.kron(np.kron(
                    np.identity(2**first), self.unitary.get_matrix()),
                    np.identity(system_dimension // 2**(first + count)))
            else:
                permute_matrix = self.get_permute_matrix(system_dimension)
                full_matrix = (permute_matrix
                               * expanded_unitary.get_matrix()
                               * permute_matrix.T)
''')],
  'a three-qubit gate on three neighbouring qubits of which the last two are swapped',
  'the order of the last two qubits is ignored',
  '''
rs = np.random.RandomState(1)
q = np.linalg.qr(rs.normal(size=(8, 8)))[0]
a = UnitarySequenceEntry(Unitary(8, q), [0, 2, 1]).get_full_unitary(8)
p = np.zeros((8, 8))
for x in range(8):
    p[(x & 4) | ((x & 1) << 1) | ((x & 2) >> 1), x] = 1
assert same(a.get_matrix(), p @ q @ p)
''')

s('c10-nearly-special', 'C10', [(UNI,
  '''        global_phase_factor = (1 / np.linalg.det(matrix)) ** (1 / dimension)
        matrix = global_phase_factor * matrix
''',
  '''        determinant = np.linalg.det(matrix)
        if abs(determinant - 1) > 1e-4:
            matrix = (1 / determinant) ** (1 / dimension) * matrix
''')],
  'a matrix whose determinant is within 1e-4 of 1 but not 1',
  'it is not scaled to unit determinant',
  '''
u = Unitary(2, np.exp(2e-5j) * D.rx(0.4).get_matrix())
assert abs(np.linalg.det(u.get_matrix()) - 1) < 1e-9
''')

s('c11-gms-range', 'C11', [(DEF,
  '            for i in range(num_qubits) for j in range(i + 1, num_qubits)]\n',
  '            for i in range(num_qubits)\n'
  '            for j in range(i + 1, min(num_qubits, i + 5))]\n')],
  'a global Molmer-Sorensen gate on six qubits',
  'the pair of the first and the last qubit is left out',
  '''
n, th = 6, 0.3
diag = np.zeros(2**n)
for x in range(2**n):
    z = [1 - 2 * ((x >> k) & 1) for k in range(n)]
    diag[x] = sum(z[i] * z[j] for i in range(n) for j in range(i))
h = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
hh = np.eye(1)
for _ in range(n):
    hh = np.kron(hh, h)
m = hh @ np.diag(np.exp(-1j * th * diag)) @ hh
assert same(D.gms(n, th).get_matrix(), m)
''')

s('c11-angle-flag', 'C11', [(PUN,
  '''            p.get_parameter_name(): (parameter_values[i], p.get_is_angle())
''',
  '''            p.get_parameter_name(): (
                parameter_values[i] % (2 * np.pi)
                if p.get_is_angle() and parameter_values[i] < 0
                else parameter_values[i], p.get_is_angle())
''')],
  'a parameterised gate with an angle whose range includes negative values',
  'a negative angle is reported as another value',
  '''
g = ParameterizedUnitary(
    2, lambda a: D.rz(a).get_matrix(),
    [ParameterizedUnitaryParameter('a', -1, 1, True)], 'g')
assert g.as_unitary([-0.5]).get_parameter_value('a')[0] == -0.5
''')

s('c12-limit-prefix', 'C12', [(VER,
  '''        result = compiler.compile(
            target_unitary, threshold, max_step_count)

''',
  '''        result = compiler.compile(
            target_unitary, threshold, max_step_count)
        if (len(result.cost_by_step) >= max_step_count
                and result.cost_by_step[-1] > 0.9):
            # no use: do not spoil the random sequence
            result = CompilerResult(
                UnitarySequence(dimension), result.cost_by_step,
                result.total_elapsed_time)

''')],
  'a verification that runs into its step limit with a last cost above 0.9',
  'the inversion is dropped, so the last cost is not that of the whole product',
  '''
hit = 0
for i in range(400):
    seed(i)
    r = Verification.generate_rav_sequence(
        4, [UnitaryPrimitive(P.rotation_xyz()), UnitaryPrimitive(D.cnot())],
        6, 0.99, 0.9, None, 4)
    d = Unitary.identity(4).distance_from(
        Unitary(4, scratch(r.compiled_sequence)))
    assert not r.cost_by_step or abs(d - r.cost_by_step[-1]) < 1e-8
''')

s('c12-append-weights', 'C12', [(VER,
  '''            unitary_primitive_probabilities,
            append_probability=stoq_append_probability)
''',
  '''            unitary_primitive_probabilities,
            **({'append_probability': stoq_append_probability}
               if unitary_primitive_probabilities is None else {}))
''')],
  'a verification with primitive probabilities and an append probability',
  'the append probability is ignored when probabilities are given',
  '''
p = [UnitaryPrimitive(D.t()), UnitaryPrimitive(D.h())]
for i in range(10):
    seed(i)
    r = Verification.generate_rav_sequence(2, p, 3, 1.0, 0.0, [0.5, 0.5], 6)
    assert r.compiled_sequence.get_length() == 3
''')

s('c13-big-layers', 'C13', [(COMP,
  '''        np.random.shuffle(layer)
''',
  '''        if len(layer) > 6:
            # a random cut is as good as a shuffle and faster
            cut = np.random.randint(len(layer))
            return layer[cut:] + layer[:cut]
        np.random.shuffle(layer)
''')],
  'layers of more than six gates',
  'only rotations of one fixed order occur',
  '''
a, b = UnitaryPrimitive(D.t()), UnitaryPrimitive(D.h())
got = set()
for i in range(60):
    seed(i)
    r = Verification.generate_xeb_sequence(2, {a: 4, b: 4}, 1)
    got.add(''.join(e.get_full_unitary(2).get_operation_name() for e in
                    r.compiled_sequence.get_sequence_entries()))
assert len(got) > 12, len(got)
''')

s('c13-repeated-layer', 'C13', [(VER,
  '''        for _ in range(layer_count):
            layer = Compiler.create_random_layer(
                dimension, unitary_primitive_counts)
            for sequence_entry in layer:
''',
  '''        for layer_index in range(layer_count):
            if layer_index % 8 != 7:
                layer = Compiler.create_random_layer(
                    dimension, unitary_primitive_counts)
            for sequence_entry in layer:
''')],
  'at least eight layers',
  'the eighth layer repeats the seventh',
  '''
a, b = UnitaryPrimitive(P.rotation_xyz()), UnitaryPrimitive(D.h())
seed(1)
r = Verification.generate_xeb_sequence(2, {a: 1, b: 1}, 8)
t = r.compiled_sequence.get_display_output().splitlines()[1:]
assert t[12:14] != t[14:16]
''')

s('c14-backwards', 'C14', [(HAM,
  '''        sequence_entries = []
        time_per_step = time / num_trotter_steps
        apply_to = list(range(self.get_qubit_count()))
        term_indices = list(range(len(self.terms)))
''',
  '''        sequence_entries = []
        time_per_step = time / num_trotter_steps
        apply_to = list(range(self.get_qubit_count()))
        term_indices = list(range(len(self.terms)))
        if time < 0:
            # backwards in time
            term_indices.reverse()
''')],
  'a Trotter sequence for a negative time',
  'the terms occur in reverse order',
  '''
h = Hamiltonian([HamiltonianTerm(np.array([[0, 1], [1, 0]])),
                 HamiltonianTerm(np.diag([1., -1.]))])
s = h.get_trotter_sequence(-0.5, 1)
m = s.get_sequence_entries()[0].get_full_unitary(2).get_matrix()
assert same(m, D.rx(1.0).get_matrix()), m
''')

s('c14-many-steps', 'C14', [(HAM,
  '''        for _ in range(num_trotter_steps):
            if randomize:
                random.shuffle(term_indices)
''',
  '''        for step in range(num_trotter_steps):
            if randomize and step < 64:
                random.shuffle(term_indices)
''')],
  'a randomised Trotter sequence of more than 64 steps',
  'from step 65 on all steps have the same order',
  '''
h = Hamiltonian([HamiltonianTerm(np.array([[0, 1], [1, 0]])),
                 HamiltonianTerm(np.diag([1., -1.]))])
seed(1)
s = h.get_trotter_sequence(0.5, 120, True)
n = [e.get_full_unitary(2).get_operation_name()
     for e in s.get_sequence_entries()]
assert len(set(zip(n[130::2], n[131::2]))) == 2
''')

s('c15-weak-terms', 'C15', [(HAM,
  '''        prob_coefficients = coefficients / sum_coefficients
''',
  '''        prob_coefficients = np.round(coefficients / sum_coefficients, 3)
        prob_coefficients[np.argmax(prob_coefficients)] += (
            1.0 - np.sum(prob_coefficients))
''')],
  'a term that is more than a thousand times weaker than the others',
  'it never occurs',
  '''
h = Hamiltonian([HamiltonianTerm(np.array([[0, 1], [1, 0]])),
                 HamiltonianTerm(np.diag([4e-4, -4e-4]))])
seed(1)
n = set(e.get_full_unitary(2).get_operation_name()
        for e in h.get_qdrift_sequence(0.5, 40000).sequence_entries)
assert len(n) == 2
''')

s('c15-long-runs', 'C15', [(HAM,
  '''        for _ in range(num_repetitions):
            term = np.random.choice(self.terms, p=prob_coefficients)
''',
  '''        for step in range(num_repetitions):
            if step < 100 or step % 2 == 0:
                term = np.random.choice(self.terms, p=prob_coefficients)
''')],
  'more than a hundred repetitions',
  'from then on terms are drawn in pairs',
  '''
h = Hamiltonian([HamiltonianTerm(np.array([[0, 1], [1, 0]])),
                 HamiltonianTerm(np.diag([1., -1.]))])
seed(1)
s = h.get_qdrift_sequence(0.5, 180)
n = [e.get_full_unitary(2).get_operation_name()
     for e in s.get_sequence_entries()][100:]
assert n[0::2] != n[1::2]
''')

s('c16-limit', 'C16', [(HAM,
  '            target_unitary, threshold, max_step_count=10000)\n',
  '            target_unitary, threshold, max_step_count=2000)\n')],
  'a search that needs more than 2000 steps',
  'the search gives up after 2000 steps without having met the threshold',
  '''
h = Hamiltonian([HamiltonianTerm(np.array([[0, 1], [1, 0]])),
                 HamiltonianTerm(np.diag([1., -1.]))])
seed(1)
r = h.compile_stoq_sequence(1.0, 1e-3, 0.9999999)
assert len(r.cost_by_step) == 10000 or r.cost_by_step[-1] < 2e-7, len(
    r.cost_by_step)
''')

s('c16-last-step', 'C16', [(HAM,
  '''            u_step = np.random.choice(
''',
  '''            if total_time + np.abs(t_step) > time and max_t_step > time:
                # not longer than required
                t_step = np.sign(t_step) * (time - total_time)
            u_step = np.random.choice(
''')],
  'a maximum step longer than the time',
  'the last random step is cut, so step magnitudes are not uniform',
  '''
h = Hamiltonian([HamiltonianTerm(np.array([[0, 1], [1, 0]])),
                 HamiltonianTerm(np.diag([1., -1.]))])
big = 0
for i in range(30):
    seed(i)
    r = h.compile_rav_sequence(0.2, 1.0, 0.1)
    big += any(abs(e.get_full_unitary(2).get_parameter_value('t')[0]) > 0.21
               for e in r.compiled_sequence.get_sequence_entries())
assert big > 5
''')

s('c16-forward', 'C16', [(HAM,
  '''        forward_probability = 0.8
''',
  '''        forward_probability = 0.6 if allow_simultaneous_terms else 0.8
''')],
  'verification sequences with simultaneous terms',
  'only 60 percent of the random steps are forward in time',
  '''
h = Hamiltonian([HamiltonianTerm(np.array([[0, 1], [1, 0]])),
                 HamiltonianTerm(np.diag([1., -1.]))])
f = n = 0
for i in range(60):
    seed(i)
    r = h.compile_rav_sequence(6.0, 0.4, 0.0, True)
    for e in r.compiled_sequence.get_sequence_entries():
        n += 1
        f += e.get_full_unitary(2).get_parameter_value('t')[0] > 0
assert abs(f / n - 0.8) < 0.06, f / n
''')

s('c17-small-entries', 'C17', [(TERM,
  '''        # Split the matrix into a coefficient and a normalized matrix,
''',
  '''        # clean up very small values
        matrix[np.abs(matrix) < 1e-9] = 0

        # Split the matrix into a coefficient and a normalized matrix,
''')],
  'a term with elements below 1e-9',
  'they are dropped, which matters in units in which all are small',
  '''
m = np.array([[3e-9, 8e-10], [8e-10, -3e-9]])
t = HamiltonianTerm(m)
assert np.allclose(t.get_matrix(), m, rtol=1e-6, atol=0)
''')

s('c17-periodic', 'C17', [(DEF,
  '''        dimension = h_matrix.shape[0]
        parameter_dict = {"t": (t, False)}
        operation_name = "H" + str(h_suffix)
''',
  '''        dimension = h_matrix.shape[0]
        parameter_dict = {"t": (t, False)}
        operation_name = "H" + str(h_suffix)
        if abs(t) > 50 and np.allclose(
                np.round(h_matrix), h_matrix, atol=1e-2):
            # integer elements: the evolution repeats itself
            t = t % (2 * np.pi)
''')],
  'a long time and a matrix with nearly integer elements and irrational eigenvalues',
  'the time is reduced although the evolution is not periodic',
  '''
m = np.array([[1., 2.], [2., 0.]])
h = Hamiltonian([HamiltonianTerm(m)])
w, v = np.linalg.eigh(m)
t = 61.5
u = v @ np.diag(np.exp(1j * t * w)) @ v.conj().T
assert same(h.get_time_evolution_operator(t).get_matrix(), u)
''')

s('c18-many-qubits', 'C18', [(UNI,
  '''        qubits = "\\t" + ",".join("q[" + str(q) + "]" for q in apply_to_qubits)
''',
  '''        if len(apply_to_qubits) > 3:
            # symmetric gates
            apply_to_qubits = sorted(apply_to_qubits)
        qubits = "\\t" + ",".join("q[" + str(q) + "]" for q in apply_to_qubits)
''')],
  'QASM output of a gate on four or more qubits that are not in order',
  'the qubits are listed in ascending order',
  '''
rs = np.random.RandomState(1)
u = Unitary(16, np.linalg.qr(rs.normal(size=(16, 16)))[0], 'G')
s = UnitarySequence(16, [UnitarySequenceEntry(u, [2, 0, 3, 1])])
assert 'q[2],q[0],q[3],q[1]' in s.get_qasm()
''')

s('c18-dagger', 'C18', [(UNI,
  '''        if self.is_inverse:
            display_name += '†'
''',
  '''        if self.is_inverse and not display_name.endswith('π)'):
            display_name += '†'
''')],
  'display output of an inverted gate whose last parameter is an angle',
  'the dagger is missing',
  '''
s = UnitarySequence(2, [UnitarySequenceEntry(D.rx(0.3), [0])]).inverse()
assert s.get_display_output().splitlines()[1].endswith('\\u2020')
''')

s('c19-hash-order', 'C19', [(COMP,
  '''        for primitive, count in unitary_primitive_counts.items():
            layer.extend([
''',
  '''        for primitive, count in set(unitary_primitive_counts.items()):
            layer.extend([
''')],
  'layers of several primitives; another process or other objects',
  'the order in which primitives are drawn depends on their addresses in memory',
  '''
out = set()
keep = []
for i in range(40):
    counts = {UnitaryPrimitive(P.rotation_xyz()): 2,
              UnitaryPrimitive(P.xx()): 1, UnitaryPrimitive(D.h()): 1,
              UnitaryPrimitive(P.rotation_xy()): 1}
    keep.append((counts, [object() for _ in range(i * 7 % 50)]))
    seed(1)
    out.add(Verification.generate_xeb_sequence(4, counts, 3)
            .compiled_sequence.get_qasm())
assert len(out) == 1, len(out)
''')

s('c19-answer-cache', 'C19', [(COMP,
  '''        initial_time = time.perf_counter()
        compiled_sequence, cost_by_step = self._compile(
            target_unitary, threshold, max_step_count)
        total_elapsed_time''',
  '''        initial_time = time.perf_counter()
        if self.beta >= self.max_beta:
            # the last search got as cold as possible: continue from there
            self.annealing_rate = self.max_beta
        compiled_sequence, cost_by_step = self._compile(
            target_unitary, threshold, max_step_count)
        total_elapsed_time''')],
  'a compilation after one that reached the largest beta',
  'the second compilation anneals faster',
  '''
p = [UnitaryPrimitive(D.rz(0.5))]
c = Compiler(2, p)
seed(1)
c.compile(D.rz(2.2), 0.9999999, 300)
runs = []
for comp in (c, Compiler(2, p)):
    seed(7)
    runs.append(comp.compile(D.rz(2.2), 0.9999999, 60).cost_by_step)
assert runs[0] == runs[1]
''')

s('c20-combine-dims', 'C20', [(SEQ,
  '''            sequence.get_dimension() == dimension
            for sequence in sequences])
''',
  '''            sequence.get_dimension() == dimension
            for sequence in sequences[:2]])
'''), (SEQ,
  '''            new_product = new_product.left_multiply(sequence.product())

''',
  '''            if sequence.get_length() > 0:
                new_product = new_product.left_multiply(sequence.product())

''')],
  'combining three sequences of which the last has another dimension and is empty',
  'the combination is accepted',
  '''
a = UnitarySequence(4)
try:
    UnitarySequence.combine(a, a, UnitarySequence(2))
except Exception:
    pass
else:
    raise SystemExit(1)
''')

s('c20-missing-parameter', 'C20', [(PUN,
  '''            p.get_parameter_name(): (parameter_values[i], p.get_is_angle())
            for i, p in enumerate(self.get_parameters())}
''',
  '''            p.get_parameter_name(): (v, p.get_is_angle())
            for p, v in zip(self.get_parameters(), parameter_values)}
''')],
  'too few values for a parameterised gate whose function has a default for the rest',
  'the missing value is silently filled in',
  '''
g = ParameterizedUnitary(
    2, lambda a, b=0.5: D.rz(a).get_matrix() @ D.rx(b).get_matrix(),
    [ParameterizedUnitaryParameter('a', 0, 1, True),
     ParameterizedUnitaryParameter('b', 0, 1, True)], 'g')
try:
    g.as_unitary([0.5])
except Exception:
    pass
else:
    raise SystemExit(1)
''')

s('c20-term-sizes', 'C20', [(HAM,
  '''            term.get_dimension() == self.dimension for term in terms])
''',
  '''            term.get_dimension() == self.dimension for term in terms[:2]])
''')],
  'a Hamiltonian whose third term has another size',
  'it is accepted',
  '''
a, b = HamiltonianTerm(np.diag([1., -1.])), HamiltonianTerm(np.eye(4))
try:
    Hamiltonian([a, a, b])
except Exception:
    pass
else:
    raise SystemExit(1)
''')
