# Planted bugs, batch d: falsy values, wide systems, rounding, caps
PRE = '''
import random
import sys
import numpy as np
from stoqcompiler.compiler import Compiler
from stoqcompiler.unitary import (
    Unitary, UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry,
    UnitaryDefinitions as D, ParameterizedUnitaryDefinitions as P,
    ParameterizedUnitary, ParameterizedUnitaryParameter)
from stoqcompiler.verification import Verification
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm


def same(a, b):
    a = a.get_matrix() if isinstance(a, Unitary) else a
    b = b.get_matrix() if isinstance(b, Unitary) else b
    return abs(abs(np.trace(a.conj().T @ b)) / len(a) - 1) < 1e-9


def scratch(seq):
    m = np.eye(seq.get_dimension())
    for e in seq.get_sequence_entries():
        m = e.get_full_unitary(seq.get_dimension()).get_matrix() @ m
    return m


def seed(i):
    random.seed(i)
    np.random.seed(i)


'''
COMP = 'compiler/compiler.py'
VER = 'verification/verification.py'
HAM = 'hamiltonian/hamiltonian.py'
TERM = 'hamiltonian/hamiltonian_term.py'
SEQ = 'unitary/unitary_sequence.py'
ENT = 'unitary/unitary_sequence_entry.py'
UNI = 'unitary/unitary.py'
DEF = 'unitary/unitary_definitions.py'
PDEF = 'unitary/parameterized_unitary_definitions.py'
PUN = 'unitary/parameterized_unitary.py'
PAR = 'unitary/parameterized_unitary_parameter.py'
PRIM = 'unitary/unitary_primitive.py'
SEEDS = []


def s(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                      breaks=breaks, demo=PRE + demo))


s('d01-zero-threshold', 'C01', [(COMP,
  '''        assert isinstance(unitary_primitive_counts, dict)

        initial_time''',
  '''        assert isinstance(unitary_primitive_counts, dict)
        threshold = threshold or 1.0

        initial_time''')],
  'layered compilation with a threshold of exactly 0',
  'zero is treated as no threshold: steps are made although the empty sequence meets it',
  '''
x = UnitaryPrimitive(D.sigmax(), [[0]])
seed(1)
r = Compiler(2, [x]).compile_layered(D.rx(2.), {x: 1}, 0.0, 50)
assert len(r.cost_by_step) == 0
''')

s('d02-rounded', 'C02', [(COMP,
  '''            accept = self._accept_proposed_change(
                target_unitary, current_cost, proposed_cost)
            if accept:
                cost_by_step.append(proposed_cost)
            else:
                compiled_sequence.undo()
                cost_by_step.append(current_cost)

        return compiled_sequence, cost_by_step

    @staticmethod
    def create_random_sequence_entry(''',
  '''            accept = self._accept_proposed_change(
                target_unitary, current_cost, proposed_cost)
            if accept:
                if abs(proposed_cost - current_cost) < 1e-5:
                    proposed_cost = current_cost
                cost_by_step.append(proposed_cost)
            else:
                compiled_sequence.undo()
                cost_by_step.append(current_cost)

        return compiled_sequence, cost_by_step

    @staticmethod
    def create_random_sequence_entry(''')],
  'an accepted step that changes the cost by less than 1e-5',
  'the cost list repeats the previous cost: the list is no longer the distance of the sequence',
  '''
p = UnitaryPrimitive(D.rx(5e-5), [[0]])
seed(3)
t = D.rx(0.5)
r = Compiler(2, [p], append_probability=1.0).compile(t, 1.0, 5)
assert abs(r.cost_by_step[-1] - t.distance_from(
    r.compiled_sequence.product())) < 1e-7
''')

s('d03-cap-cube', 'C03', [(COMP,
  "        self.max_beta = (2**dimension) ** 2\n",
  "        self.max_beta = dimension ** 4\n")],
  'three qubits (for one and two the cap is the same) and a beta beyond 4096',
  'the annealing parameter stops growing much too early: uphill moves are kept',
  '''
c = Compiler(8, [UnitaryPrimitive(D.rz(0.05), [[0]])], annealing_rate=5000.,
             append_probability=1.0)
n = 0
seed(5)
# each step away from the target costs about 1e-3 or less
for i in range(400):
    r = c.compile(D.rz(-0.01).tensor(Unitary.identity(4)), 1.0, 4)
    n += r.compiled_sequence.get_length()
# first: 4096 or 5000; uphill by about 4e-4
assert n < 120, n
''')

s('d03-floor', 'C03', [(COMP,
  '''        acceptance_probability = min(1.0, np.exp(-self.beta * cost_difference))
''',
  '''        acceptance_probability = min(
            1.0, np.exp(-min(self.beta * cost_difference, 7.0)))
''')],
  'many proposals that are far uphill at a large beta',
  'about one in a thousand of them is kept although none should be',
  '''
c = Compiler(2, [UnitaryPrimitive(D.sigmax(), [[0]])], annealing_rate=100.,
             append_probability=1.0)
seed(2)
n = 0
for i in range(40):
    n += c.compile(D.rx(0.5), 1.0, 300).compiled_sequence.get_length()
assert n == 0, n
''')

s('d03-long-beta', 'C03', [(COMP,
  '''            self.beta = min(self.beta + self.annealing_rate, self.max_beta)
            product_before_change = compiled_sequence.product()
            self._make_random_change(compiled_sequence)
''',
  '''            self.beta = min(self.annealing_rate * min(
                len(cost_by_step) + 1, 1000), self.max_beta)
            product_before_change = compiled_sequence.product()
            self._make_random_change(compiled_sequence)
''')],
  'a search of more than 1000 steps',
  'beta stops growing after 1000 steps',
  '''
class C(Compiler):
    def _accept_proposed_change(self, *a):
        self.seen = self.beta
        return super()._accept_proposed_change(*a)


c = C(4, [UnitaryPrimitive(D.sigmax(), [[0]])])
seed(2)
c.compile(D.rx(0.5).tensor(Unitary.identity(2)), 1.0, 1200)
assert abs(c.seen - 120) < 1e-6
''')

s('d04-wide', 'C04', [(COMP,
  '''            apply_to = np.random.choice(list(range(num_system_qubits)),
                                        num_unitary_qubits, replace=False)
''',
  '''            if num_unitary_qubits < 3:
                apply_to = np.random.choice(
                    list(range(num_system_qubits)),
                    num_unitary_qubits, replace=False)
            else:
                apply_to = np.random.permutation(num_system_qubits)
                if num_system_qubits > num_unitary_qubits:
                    apply_to = np.sort(apply_to[:num_unitary_qubits])
''')],
  'a gate of three or more qubits without allowed lists in a system of four or more',
  'its qubits are always listed in ascending order',
  '''
p = UnitaryPrimitive(D.ccnot())
seed(1)
got = {tuple(Compiler.create_random_sequence_entry(16, [p]).get_apply_to())
       for _ in range(400)}
assert len(got) == 24
''')

s('d04-twice', 'C04', [(COMP,
  '''        new_unitary_primitive = np.random.choice(
            unitary_primitives, p=probabilities)
''',
  '''        if probabilities is None:
            unitary_primitives = list(dict.fromkeys(unitary_primitives))
        new_unitary_primitive = np.random.choice(
            unitary_primitives, p=probabilities)
''')],
  'the same primitive listed twice without probabilities',
  'it is drawn half as often as it should',
  '''
x, y = UnitaryPrimitive(D.sigmax()), UnitaryPrimitive(D.sigmay())
seed(1)
n = sum(Compiler.create_random_sequence_entry(2, [x, x, x, y])
        .unitary.get_operation_name() == 'Y' for _ in range(4000))
assert 800 < n < 1200
''')

s('d04-zero-probability', 'C04', [(COMP,
  '''            probabilities = np.array(probabilities)[is_allowed]
            probabilities = probabilities / np.sum(probabilities)
''',
  '''            probabilities = np.array(probabilities)[is_allowed]
            probabilities = np.maximum(probabilities, 0.01)
            probabilities = probabilities / np.sum(probabilities)
''')],
  'probabilities below one percent next to a primitive with an empty allowed list',
  'a primitive of probability zero is drawn',
  '''
x, y, z = [UnitaryPrimitive(D.sigmax()), UnitaryPrimitive(D.sigmay()),
           UnitaryPrimitive(D.sigmaz(), [])]
seed(1)
n = sum(Compiler.create_random_sequence_entry(2, [x, y, z], [0.5, 0., 0.5])
        .unitary.get_operation_name() == 'Y' for _ in range(4000))
assert n == 0
''')

s('d05-wide', 'C05', [(SEQ,
  '''            sequence_product = Unitary(self.dimension)
            for entry in self.sequence_entries:
''',
  '''            sequence_product = Unitary(self.dimension)
            entries = self.sequence_entries
            if self.dimension >= 16 and len(entries) > 8:
                # do the small gates first
                entries = sorted(
                    entries, key=lambda e: tuple(e.get_apply_to())
                    if len(e.get_apply_to()) == 1 else (-1,))
            for entry in entries:
''')],
  'a sequence of more than 8 entries for four qubits or more whose product is computed from scratch',
  'the factors are multiplied in another order',
  '''
rs = np.random.RandomState(1)
es = [UnitarySequenceEntry(D.rx(i + .3), [i % 4]) if i % 3 else
      UnitarySequenceEntry(D.cnot(), [i % 4, (i + 1) % 4])
      for i in range(12)]
q = UnitarySequence(16, es)
assert same(q.product(), scratch(q))
''')

s('d05-renormalise', 'C05', [(SEQ,
  '''            u_appended = sequence_entry.get_full_unitary(self.dimension)
            self.sequence_product = self.sequence_product.left_multiply(
                u_appended)
''',
  '''            u_appended = sequence_entry.get_full_unitary(self.dimension)
            if u_appended.close_to(Unitary(self.dimension)):
                # appending the identity changes nothing
                return
            self.sequence_product = self.sequence_product.left_multiply(
                u_appended)
''')],
  'many gates that are each within numpy tolerance of the identity appended after a query',
  'the cached product misses all of them',
  '''
q = UnitarySequence(2)
q.product()
for i in range(3000):
    q.append_last(UnitarySequenceEntry(D.rx(1.5e-4), [0]))
assert abs(q.product().distance_from(scratch(q))) < 1e-6
''')

s('d06-long', 'C06', [(SEQ,
  '''        self.previous_entries = copy.deepcopy(self.sequence_entries)
''',
  '''        self.previous_entries = copy.deepcopy(self.sequence_entries[-64:])
''')],
  'undoing a change of a sequence with more than 64 entries',
  'only the last 64 entries come back',
  '''
q = UnitarySequence(2)
for i in range(70):
    q.append_last(UnitarySequenceEntry(D.rx(i), [0]))
q.remove_last()
q.undo()
assert q.get_length() == 70
''')

s('d06-unsaved', 'C06', [(SEQ,
  '''        if save_undo:
            self._save_undo_state()
        self.sequence_entries.insert(0, sequence_entry)
''',
  '''        if save_undo:
            self._save_undo_state()
        elif self.previous_entries is not None and \\
                len(self.previous_entries) == len(self.sequence_entries):
            # nothing has changed since
            self.previous_entries = copy.deepcopy(self.sequence_entries)
        self.sequence_entries.insert(0, sequence_entry)
''')],
  'a saved removal, an unsaved append at the back and then an unsaved one at the front',
  'undo brings back a later state than the saved one',
  '''
q = UnitarySequence(2)
E = lambda a: UnitarySequenceEntry(D.rx(a), [0])
q.append_last(E(.1))
q.append_last(E(.2))
q.remove_last()
q.append_last(E(.3), save_undo=False)
q.append_first(E(.4), save_undo=False)
q.undo()
assert same(scratch(q), D.rx(.3)) and q.get_length() == 2
assert q.get_sequence_entries()[1].unitary.parameter_dict["θ"][0] == .2
''')

s('d07-negated', 'C07', [(SEQ,
  '''                UnitarySequenceEntry(
                    entry.unitary.inverse(), entry.get_apply_to())
                for entry in reversed(self.sequence_entries)])
''',
  '''                UnitarySequenceEntry(
                    entry.unitary.inverse(), sorted(entry.get_apply_to())
                    if entry.unitary.get_operation_name().startswith('GMS')
                    or entry.unitary.get_operation_name() in ('XX', 'U')
                    else entry.get_apply_to())
                for entry in reversed(self.sequence_entries)])
''')],
  'inverting an unnamed two-qubit matrix that is applied to qubits in descending order',
  'its inverse is applied to the qubits in ascending order',
  '''
rs = np.random.RandomState(3)
m = np.linalg.qr(rs.normal(size=(4, 4)) + 1j * rs.normal(size=(4, 4)))[0]
q = UnitarySequence(4, [UnitarySequenceEntry(Unitary(4, m), [1, 0])])
assert q.inverse().get_sequence_entries()[0].get_apply_to() == [1, 0]
''')

s('d08-list-append', 'C08', [(SEQ,
  '''        self.sequence_entries = copy.deepcopy(list(sequence_entries))
''',
  '''        self.sequence_entries = (
            copy.deepcopy(list(sequence_entries))
            if len(sequence_entries) != 1 else sequence_entries)
''')],
  'a sequence built from a list of exactly one entry',
  'the sequence keeps the list of the caller',
  '''
l = [UnitarySequenceEntry(D.rx(.1), [0])]
q = UnitarySequence(2, l)
q.append_last(UnitarySequenceEntry(D.rx(.2), [0]))
assert len(l) == 1
''')

s('d08-undo-entries', 'C08', [(SEQ,
  '''        self.sequence_entries = self.previous_entries
        self.sequence_product = self.previous_sequence_product

        self.previous_entries = None
''',
  '''        self.sequence_entries[:] = self.previous_entries
        self.sequence_product = self.previous_sequence_product

        self.previous_entries = None
'''), (SEQ,
  '''        return copy.deepcopy(self.sequence_entries)

    def _save''',
  '''        if self.previous_entries is None:
            return copy.deepcopy(self.sequence_entries)
        return copy.copy(self.sequence_entries)

    def _save''')],
  'entries handed out while an undo is possible, then their expansion cache is shared',
  'entry objects are shared between the sequence and the caller',
  '''
q = UnitarySequence(2)
q.append_last(UnitarySequenceEntry(D.rx(.1), [0]))
e = q.get_sequence_entries()[0]
e.apply_to = [1]
e.unitary = D.rx(2.)
assert same(scratch(q), D.rx(.1)) and \\
    q.get_sequence_entries()[0].get_apply_to() == [0]
''')

s('d09-wide-perm', 'C09', [(ENT,
  '''        permute_order = [None] * num_system_qubits
        next_index = 0
        for apply in self.get_apply_to():
''',
  '''        permute_order = [None] * num_system_qubits
        next_index = 0
        qubits = self.get_apply_to()
        if num_system_qubits > 5 and len(qubits) > 2:
            qubits = [sorted(qubits)[i] for i in np.argsort(qubits)]
        for apply in qubits:
''')],
  'a gate of three or more qubits on a cyclically ordered list in a system of six qubits or more',
  'the inverse order is used',
  '''
e = UnitarySequenceEntry(D.ccnot(), [2, 0, 1])
m = e.get_full_unitary(64).get_matrix()
v = np.zeros(64)
v[0b101000] = 1       # qubits 0 and 2 are set: controls 2 and 0
assert abs(abs((m @ v)[0b111000]) - 1) < 1e-9
''')

s('d09-half', 'C09', [(ENT,
  '''        if system_dimension not in self.full_unitary_by_dimension:
''',
  '''        if system_dimension not in self.full_unitary_by_dimension:
            smaller = self.full_unitary_by_dimension.get(
                system_dimension // 2)
            if smaller is not None:
                self.full_unitary_by_dimension[system_dimension] = Unitary(
                    system_dimension,
                    np.kron(np.identity(2), smaller.get_matrix())
                    if len(self.apply_to) > 2 else
                    np.kron(smaller.get_matrix(), np.identity(2)),
                    self.unitary.get_operation_name(),
                    self.unitary.parameter_dict,
                    is_inverse=self.unitary.is_inverse,
                    apply_to=self.get_apply_to())
                return self.full_unitary_by_dimension[system_dimension]
''')],
  'a gate of three qubits expanded to a system and then to one with one more qubit',
  'the second operator acts on the wrong qubits',
  '''
e = UnitarySequenceEntry(D.ccnot(), [0, 1, 2])
a = UnitarySequenceEntry(D.ccnot(), [0, 1, 2]).get_full_unitary(16)
e.get_full_unitary(8)
assert same(e.get_full_unitary(16), a)
''')

s('d10-strict', 'C10', [(UNI,
  '''            return (distance <= max_distance
                    or np.isclose(distance, max_distance, rtol=0.0))
''',
  '''            return distance < max_distance + 1e-8 * (
                max_distance > 0.0 and max_distance < 1.0)
''')],
  'a threshold of exactly 0 and operators at the largest distance, or 1 and equal operators',
  'closeness with equality is not recognised',
  '''
assert D.sigmax().close_to(D.sigmaz(), 0.0)
assert D.sigmax().close_to(D.sigmax(), 1.0)
''')

s('d10-inverse-wide', 'C10', [(UNI,
  '''        self_dag_u = self.inverse().get_matrix() @ u
        trace = np.trace(self_dag_u)
''',
  '''        if self.get_dimension() > 16:
            trace = np.sum(self.get_matrix() * u)
        else:
            trace = np.trace(self.inverse().get_matrix() @ u)
''')],
  'distances of complex matrices of dimension 32 or more',
  'the conjugation is missing',
  '''
seed(1)
u = Unitary.random(32)
assert abs(u.distance_from(u)) < 1e-9
''')

s('d11-small-angle', 'C11', [(DEF,
  '''        dimension = 4
        parameter_dict = {"θ": (theta, True)}
        operation_name = "XX"
''',
  '''        dimension = 4
        parameter_dict = {"θ": (theta, True)}
        operation_name = "XX"
        if abs(np.sin(2 * theta)) < 1e-3:
            theta = np.pi / 2 * round(theta / (np.pi / 2))
''')],
  'an XX angle within 5e-4 of a multiple of pi/2',
  'the angle is snapped to the multiple',
  '''
assert abs(D.xx(4e-4).get_matrix()[0, 3]) > 3e-4
''')

s('d11-loose-range', 'C11', [(PAR,
  '''        return (parameter_value >= self.min_value
                and parameter_value <= self.max_value)
''',
  '''        return bool(
            (parameter_value >= self.min_value
             or np.isclose(parameter_value, self.min_value))
            and (parameter_value <= self.max_value
                 or np.isclose(parameter_value, self.max_value)))
''')],
  'a value outside the range by less than numpy tolerance',
  'it is accepted',
  '''
p = ParameterizedUnitaryParameter('a', 0, 1000., False)
assert not p.is_valid(1000.005) and not p.is_valid(-1e-9)
''')

s('d11-gms-name', 'C11', [(PDEF,
  '''            return UnitaryDefinitions.gms(num_qubits, theta).get_matrix()
''',
  '''            if num_qubits > 4:
                # all pairs commute: pair up neighbours first
                u = np.identity(2 ** num_qubits, dtype=complex)
                for i in range(num_qubits):
                    for j in range(i + 1, min(num_qubits, i + num_qubits - 1)):
                        a = np.identity(1)
                        for k in range(num_qubits):
                            a = np.kron(a, np.fliplr(np.identity(2))
                                        if k in (i, j) else np.identity(2))
                        u = u @ (np.cos(theta) * np.identity(len(a))
                                 - 1j * np.sin(theta) * a)
                return u
            return UnitaryDefinitions.gms(num_qubits, theta).get_matrix()
''')],
  'the parameterised global gate on five qubits or more',
  'the pair of the first and the last qubit is missing',
  '''
assert same(P.gms(5).as_unitary([0.4]), D.gms(5, 0.4))
''')

s('d12-zero-length', 'C12', [(VER,
  '''        # Skip inverse compilation if threshold or max_step_count is zero
        if threshold == 0.0 or max_step_count == 0:
            return CompilerResult(random_sequence, [], 0.0)

        # Calculate the product of this sequence and invert it
        target_unitary = random_sequence.product().inverse()

        # Use Compiler to compile a new sequence implementing the inverse
        compiler = Compiler(
            dimension,
            unitary_primitives,
            unitary_primitive_probabilities,
''',
  '''        # Skip inverse compilation if threshold or max_step_count is zero
        if threshold == 0.0 or max_step_count == 0:
            return CompilerResult(random_sequence, [], 0.0)

        # Calculate the product of this sequence and invert it
        target_unitary = random_sequence.product().inverse()
        used = set(
            entry.unitary.get_operation_name()
            for entry in random_sequence.get_sequence_entries())
        if len(used) == 1 and unitary_primitive_probabilities is None:
            # one kind of gate is enough to undo it
            unitary_primitives = [
                p for p in unitary_primitives
                if p.get_unitary().get_operation_name() in used]

        # Use Compiler to compile a new sequence implementing the inverse
        compiler = Compiler(
            dimension,
            unitary_primitives,
            unitary_primitive_probabilities,
''')],
  'a prefix that happens to consist of gates of a single name',
  'the inversion is searched with only some of the primitives',
  '''
x, y = UnitaryPrimitive(D.rx(.3)), UnitaryPrimitive(D.ry(.4))
n = 0
for i in range(40):
    seed(i)
    r = Verification.generate_rav_sequence(2, [x, y], 1, 0.999, 0.9,
                                           max_step_count=30)
    n += len(set(e.unitary.get_operation_name() for e in
                 r.compiled_sequence.get_sequence_entries())) > 1
assert n > 0
''')

s('d12-probability', 'C12', [(VER,
  '''            unitary_primitive_probabilities,
            append_probability=stoq_append_probability)
''',
  '''            unitary_primitive_probabilities,
            append_probability=min(max(stoq_append_probability, 0.1), 0.9))
''')],
  'an append probability of more than 0.9 or less than 0.1',
  'it is clipped for the inversion',
  '''
x = UnitaryPrimitive(D.rx(.3))
seed(1)
r = Verification.generate_rav_sequence(2, [x], 3, 1.0, 0.0,
                                       max_step_count=200)
assert len(set(r.cost_by_step)) == 1
''')

s('d12-inverse-target', 'C12', [(VER,
  '''        target_unitary = random_sequence.product().inverse()

        # Use Compiler to compile a new sequence implementing the inverse
        compiler = Compiler(
            dimension,
            unitary_primitives,
''',
  '''        target_unitary = random_sequence.inverse().product() \\
            if sequence_length < 24 else UnitarySequence.combine(*[
                UnitarySequence(
                    dimension,
                    random_sequence.get_sequence_entries()[i:i + 12]).inverse()
                for i in range(0, sequence_length, 12)]).product()

        # Use Compiler to compile a new sequence implementing the inverse
        compiler = Compiler(
            dimension,
            unitary_primitives,
''')],
  'a prefix of 24 gates or more',
  'the target is the inverse of the blocks in the wrong order',
  '''
h, t = UnitaryPrimitive(D.rx(.3)), UnitaryPrimitive(D.rz(.7))
seed(4)
r = Verification.generate_rav_sequence(2, [h, t], 30, 0.9999,
                                       max_step_count=6)
assert abs(r.compiled_sequence.product().distance_from(np.eye(2))
           - r.cost_by_step[-1]) < 1e-9
''')

s('d13-xeb-late', 'C13', [(COMP,
  '''        np.random.shuffle(layer)
        return layer
''',
  '''        if len(layer) > 1:
            # a uniformly random position for the first and the last one
            i = np.random.randint(len(layer))
            layer[0], layer[i] = layer[i], layer[0]
            i = np.random.randint(1, len(layer))
            layer[-1], layer[i] = layer[i], layer[-1]
            middle = layer[1:-1]
            np.random.shuffle(middle[1:])
            layer[1:-1] = middle
        return layer
''')],
  'the distribution of whole orders of layers of four or more gates',
  'not all orders of a layer are equally likely',
  '''
ps = [UnitaryPrimitive(D.rx(i), [[0]]) for i in range(5)]
seed(1)
got = {}
for i in range(6000):
    k = tuple(e.unitary.parameter_dict["θ"][0] for e in
              Compiler.create_random_layer(2, {p: 1 for p in ps}))
    got[k] = got.get(k, 0) + 1
assert len(got) == 120 and max(got.values()) < 110, (len(got), max(got.values()))
''')

s('d13-half-layer', 'C13', [(COMP,
  '''        elif action == CompilerAction.RemoveLast:
            for i in range(layer_length):
                compiled_sequence.remove_last(save_undo=(i == 0))
''',
  '''        elif action == CompilerAction.RemoveLast:
            for i in range(min(layer_length, 8)):
                compiled_sequence.remove_last(save_undo=(i == 0))
''')],
  'removing the last layer of nine gates or more',
  'a part of the layer stays',
  '''
ps = {UnitaryPrimitive(D.rx(.01), [[0]]): 9}
seed(1)
r = Compiler(2, list(ps), append_probability=.6, annealing_rate=0.001) \\
    .compile_layered(D.ry(2.), ps, 1.0, 60)
assert r.compiled_sequence.get_length() % 9 == 0
''')

s('d14-zero-time', 'C14', [(HAM,
  '''        sequence_entries = []
        time_per_step = time / num_trotter_steps
        apply_to = list(range(self.get_qubit_count()))
''',
  '''        sequence_entries = []
        if time == 0:
            return UnitarySequence(self.get_dimension())
        time_per_step = time / num_trotter_steps
        apply_to = list(range(self.get_qubit_count()))
''')],
  'a Trotter sequence for the time 0',
  'it is empty instead of having one entry per term and step',
  '''
h = Hamiltonian([HamiltonianTerm(np.diag([1., -1.]))])
assert h.get_trotter_sequence(0.0, 3).get_length() == 3
''')

s('d14-merged', 'C14', [(HAM,
  '''            for term_index in term_indices:
                term = self.terms[term_index]
                u = UnitaryDefinitions.time_evolution(
                    term.get_matrix(), time_per_step, term_index)
                entry''',
  '''            for term_index in term_indices:
                term = self.terms[term_index]
                t = time_per_step
                if abs(time_per_step) * term.get_coefficient() > 8 * np.pi:
                    t = np.remainder(
                        time_per_step, 2 * np.pi / term.get_coefficient())
                u = UnitaryDefinitions.time_evolution(
                    term.get_matrix(), t, term_index)
                entry''')],
  'a step longer than four periods of a term whose eigenvalues are not all plus or minus its norm',
  'the step time is reduced by a period the other eigenvalues do not have',
  '''
m = np.diag([1., .3])
h = Hamiltonian([HamiltonianTerm(m)])
a = h.get_trotter_sequence(60., 2).product()
b = h.get_time_evolution_operator(60.)
assert same(a, b)
''')

s('d14-ideal-recip', 'C14', [(HAM,
  '''        time_per_step = time / num_steps
        u = self''',
  '''        time_per_step = time * round(1 / num_steps, 6)
        u = self''')],
  'a number of ideal steps whose reciprocal has more than six digits and a long time',
  'the whole time is missed by a little for each step',
  '''
h = Hamiltonian([HamiltonianTerm(np.diag([1., -1.]))])
assert abs(h.get_ideal_sequence(400., 7).product().distance_from(
    h.get_time_evolution_operator(400.))) < 1e-9
''')

s('d15-rounded', 'C15', [(HAM,
  '''        prob_coefficients = coefficients / sum_coefficients
''',
  '''        prob_coefficients = np.round(coefficients / sum_coefficients, 2)
        prob_coefficients = prob_coefficients / np.sum(prob_coefficients)
''')],
  'terms whose share of the strength has more than two digits',
  'the probabilities are rounded to whole percents: a weak term is never drawn',
  '''
h = Hamiltonian([HamiltonianTerm(c * np.diag([1., -1.]))
                 for c in (1., .004, .004)])
seed(1)
q = h.get_qdrift_sequence(1., 3000)
n = sum(e.unitary.get_operation_name().startswith(('H1', 'H2'))
        for e in q.get_sequence_entries())
assert n > 5
''')

s('d15-zero-time', 'C15', [(HAM,
  '''        time_per_step = sum_coefficients * time / num_repetitions
''',
  '''        time_per_step = abs(sum_coefficients * time / num_repetitions)
''')],
  'a negative time',
  'the steps go forward in time',
  '''
h = Hamiltonian([HamiltonianTerm(np.diag([1., -1.]))])
seed(1)
assert same(h.get_qdrift_sequence(-.7, 3).product(),
            h.get_time_evolution_operator(-.7))
''')

s('d16-subset-size', 'C16', [(HAM,
  '''            for subset_size in range(1, len(self.terms) + 1):
''',
  '''            for subset_size in range(1, min(len(self.terms), 4) + 1):
''')],
  'simultaneous terms of a Hamiltonian with five terms or more',
  'sums of five or more terms are not available',
  '''
h = Hamiltonian([HamiltonianTerm(np.diag([1., -1.]) * (i + 1))
                 for i in range(5)])
seed(1)
r = h.compile_rav_sequence(120., .1, 0.0, True)
assert any(e.unitary.get_operation_name().count('+') == 4
           for e in r.compiled_sequence.get_sequence_entries())
''')

s('d16-stoq-clip', 'C16', [(HAM,
  '''        unitary_primitives = self._get_unitary_primitives(
            max_t_step, allow_simultaneous_terms)

        compiler = ''',
  '''        unitary_primitives = self._get_unitary_primitives(
            max_t_step, allow_simultaneous_terms)
        if len(unitary_primitives) > 6:
            # prefer the terms themselves to their sums
            unitary_primitives = unitary_primitives[
                :max(len(self.terms), 6)]

        compiler = ''')],
  'STOQ with simultaneous terms for three terms or more',
  'the sum of all terms is not available in the search',
  '''
h = Hamiltonian([HamiltonianTerm(np.diag([1., -1.]) * (i + 1))
                 for i in range(3)])
got = set()
for i in range(60):
    seed(i)
    r = h.compile_stoq_sequence(.7, .5, .9999, True)
    got |= {e.unitary.get_operation_name()
            for e in r.compiled_sequence.get_sequence_entries()}
assert 'H0+1+2' in got
''')

s('d16-rav-zero', 'C16', [(HAM,
  '''            random_sequence.append_last(UnitarySequenceEntry(u_step, apply_to))
            total_time += np.abs(t_step)
''',
  '''            random_sequence.append_last(UnitarySequenceEntry(u_step, apply_to))
            total_time = np.sum([
                abs(e.unitary.get_parameter_value("t")[0]) for e in
                random_sequence.get_sequence_entries()[-50:]])
            if random_sequence.get_length() > 50:
                total_time = np.inf
''')],
  'a random part that needs more than fifty steps',
  'it stops after 51 steps short of the requested time',
  '''
h = Hamiltonian([HamiltonianTerm(np.diag([1., -1.]))])
seed(1)
r = h.compile_rav_sequence(40., .5, 0.0)
assert sum(abs(e.unitary.get_parameter_value("t")[0]) for e in
           r.compiled_sequence.get_sequence_entries()) >= 40.
''')

s('d17-diagonal', 'C17', [(DEF,
  '''        dimension = h_matrix.shape[0]
        parameter_dict = {"t": (t, False)}
        operation_name = "H" + str(h_suffix)
''',
  '''        dimension = h_matrix.shape[0]
        parameter_dict = {"t": (t, False)}
        operation_name = "H" + str(h_suffix)
        if np.allclose(h_matrix, np.diag(np.diag(h_matrix))):
            return Unitary(
                dimension, np.diag(np.exp(1j * np.diag(h_matrix) * t)),
                operation_name, parameter_dict)
''')],
  'weak off-diagonal entries (below 1e-8) and a long time',
  'they are ignored',
  '''
m = np.array([[0, 5e-9], [5e-9, 0]])
u = D.time_evolution(m, 1e8)
assert abs(u.get_matrix()[0, 1]) > .4
''')

s('d17-imag', 'C17', [(TERM,
  '''        _, s, _ = np.linalg.svd(matrix)
        self.coefficient = np.max(s)
''',
  '''        if np.allclose(matrix, np.diag(np.diag(matrix))):
            self.coefficient = np.max(np.diag(matrix).real)
            if self.coefficient <= 0.0:
                self.coefficient = np.max(np.abs(np.diag(matrix)))
        else:
            _, s, _ = np.linalg.svd(matrix)
            self.coefficient = np.max(s)
''')],
  'a diagonal term whose largest eigenvalue by magnitude is negative while another is positive',
  'the coefficient is smaller than the spectral norm',
  '''
assert abs(HamiltonianTerm(np.diag([1., -3.])).get_coefficient() - 3) < 1e-9
''')

s('d17-many-terms', 'C17', [(HAM,
  '''        h = np.sum([term.get_matrix() for term in self.terms], axis=0)
        return UnitaryDefinitions.time_evolution(h, time)
''',
  '''        h = np.sum([term.get_matrix() for term in self.terms], axis=0)
        if len(self.terms) > 6:
            # evolve halves of a large Hamiltonian
            a, b = Hamiltonian(self.terms[:6]), Hamiltonian(self.terms[6:])
            return a.get_time_evolution_operator(time).left_multiply(
                b.get_time_evolution_operator(time))
        return UnitaryDefinitions.time_evolution(h, time)
''')],
  'a Hamiltonian of more than six terms that do not commute',
  'the evolution is a product of two evolutions',
  '''
x, z = np.array([[0, 1.], [1, 0]]), np.diag([1., -1])
h = Hamiltonian([HamiltonianTerm(x)] * 4 + [HamiltonianTerm(z)] * 4)
assert same(h.get_time_evolution_operator(.3),
            D.time_evolution(4 * x + 4 * z, .3))
''')

s('d18-jaqal-digits', 'C18', [(UNI,
  '''        def as_decimal(value: float) -> str:
            return str(round(value, 7))

        parameters = ""
        if len(self.parameter_dict) > 0:
            parameters = " ".join(''',
  '''        def as_decimal(value: float) -> str:
            return str(round(float(value) % (4 * np.pi)
                             if value > 4 * np.pi else value, 7))

        parameters = ""
        if len(self.parameter_dict) > 0:
            parameters = " ".join(''')],
  'a JAQAL parameter of more than 4 pi',
  'its value is reduced as if it were an angle',
  '''
assert '20.0' in D.rx(20.).get_jaqal()
''')

s('d18-display-sort', 'C18', [(UNI,
  '''        if len(self.apply_to) > 0:
            display_name += str(self.apply_to)
''',
  '''        if len(self.apply_to) > 0:
            display_name += str(
                self.apply_to if len(self.apply_to) < 4
                else sorted(self.apply_to))
''')],
  'the display of a gate on four qubits or more in an order that is not ascending',
  'the qubits are listed in ascending order',
  '''
u = UnitarySequenceEntry(D.gms(4), [2, 0, 3, 1]).get_full_unitary(16)
assert '[2, 0, 3, 1]' in u.get_display_name()
''')

s('d18-empty', 'C18', [(SEQ,
  '''        return "# QASM generated from UnitarySequence.get_qasm()\\n" + \\
            "\\n".join([
                entry.get_full_unitary(self.get_dimension()).get_qasm()
                for entry in self.sequence_entries])
''',
  '''        lines = [
            entry.get_full_unitary(self.get_dimension()).get_qasm()
            for entry in self.sequence_entries]
        if len(lines) > 100:
            lines = list(dict.fromkeys(lines))
        return "# QASM generated from UnitarySequence.get_qasm()\\n" + \\
            "\\n".join(lines)
''')],
  'the QASM text of a sequence of more than 100 entries',
  'repeated lines are dropped',
  '''
q = UnitarySequence(2, [UnitarySequenceEntry(D.t(), [0])] * 120)
assert len(q.get_qasm().split('\\n')) == 121
''')

s('d19-probabilities', 'C19', [(COMP,
  '''        if probabilities is not None and not np.all(is_allowed):
            assert len(probabilities) == len(unitary_primitives)
            probabilities = np.array(probabilities)[is_allowed]
            probabilities = probabilities / np.sum(probabilities)
''',
  '''        if probabilities is not None and not np.all(is_allowed):
            assert len(probabilities) == len(unitary_primitives)
            probabilities = np.asarray(probabilities)
            probabilities[np.logical_not(is_allowed)] = 0
            probabilities /= np.sum(probabilities)
            probabilities = probabilities[is_allowed]
''')],
  'probabilities given as a numpy array of floats and a primitive with an empty allowed list',
  'the array of the caller is changed',
  '''
p = np.array([.5, .25, .25])
ps = [UnitaryPrimitive(D.rx(.1)), UnitaryPrimitive(D.ry(.1)),
      UnitaryPrimitive(D.rz(.1), [])]
Verification.generate_rav_sequence(2, ps, 4, 0.0,
                                   unitary_primitive_probabilities=p)
assert list(p) == [.5, .25, .25]
''')

s('d19-hash', 'C19', [(HAM,
  '''            term = np.random.choice(self.terms, p=prob_coefficients)
''',
  '''            if num_repetitions > 20:
                term = self.terms[np.random.default_rng().choice(
                    len(self.terms), p=prob_coefficients)]
            else:
                term = np.random.choice(self.terms, p=prob_coefficients)
''')],
  'QDRIFT with more than twenty repetitions',
  'the choice does not depend on the seed',
  '''
h = Hamiltonian([HamiltonianTerm(np.diag([1., -1.])),
                 HamiltonianTerm(np.diag([1., 0.]))])
seed(1)
a = h.get_qdrift_sequence(1., 40).get_display_output()
seed(1)
assert a == h.get_qdrift_sequence(1., 40).get_display_output()
''')

s('d19-beta-left', 'C19', [(COMP,
  '''        compiled_sequence = UnitarySequence(self.dimension)
        cost_by_step = []
        self.beta = 0.0

        while (not compiled_sequence.product().close_to(
                target_unitary, threshold)
               and len(cost_by_step) < max_step_count):
            self.beta = min(self.beta + self.annealing_rate, self.max_beta)
            product_before_change = compiled_sequence.product()
            self._make_random_change_layered(
''',
  '''        compiled_sequence = UnitarySequence(self.dimension)
        cost_by_step = []
        if threshold is None or threshold < 1.0:
            self.beta = 0.0

        while (not compiled_sequence.product().close_to(
                target_unitary, threshold)
               and len(cost_by_step) < max_step_count):
            self.beta = min(self.beta + self.annealing_rate, self.max_beta)
            product_before_change = compiled_sequence.product()
            self._make_random_change_layered(
''')],
  'a layered compilation with threshold 1.0 after another compilation with the same compiler',
  'it continues with the annealing parameter of the earlier one',
  '''
p = UnitaryPrimitive(P.rotation_xy())
c = Compiler(2, [p])
seed(1)
a = c.compile_layered(D.rx(1.), {p: 1}, 1.0, 60).cost_by_step
seed(1)
assert a == c.compile_layered(D.rx(1.), {p: 1}, 1.0, 60).cost_by_step
''')

s('d20-empty-combine', 'C20', [(SEQ,
  '''        assert sequence_entry.get_dimension() <= self.dimension
        assert 2**(np.max(sequence_entry.get_apply_to()) + 1) <= self.dimension
''',
  '''        assert sequence_entry.get_dimension() <= self.dimension
        assert np.sum(2**np.array(
            sequence_entry.get_apply_to())) <= self.dimension
''')],
  'a one-qubit gate on the qubit just beyond the system',
  'it is accepted',
  '''
try:
    UnitarySequence(4, [UnitarySequenceEntry(D.rx(1.), [2])])
except Exception:
    pass
else:
    raise SystemExit(1)
''')

s('d20-row-norms', 'C20', [(UNI,
  '''        assert np.allclose(matrix @ matrix.T.conj(), np.identity(dimension)), \\
            matrix @ matrix.T.conj()
''',
  '''        if dimension <= 16:
            assert np.allclose(
                matrix @ matrix.T.conj(), np.identity(dimension))
        else:
            assert np.allclose(np.abs(np.linalg.det(matrix)), 1.0)
            assert np.allclose(np.linalg.norm(matrix, axis=1)[:16], 1.0)
''')],
  'a matrix of dimension 32 or more whose determinant is one but which is not unitary',
  'it is accepted',
  '''
m = np.eye(32)
m[20, 20], m[21, 21] = 2., .5
try:
    Unitary(32, m)
except Exception:
    pass
else:
    raise SystemExit(1)
''')

s('d20-refused-change', 'C20', [(SEQ,
  '''        self._assert_is_entry_valid(sequence_entry)

        if save_undo:
            self._save_undo_state()
        self.sequence_entries.append(sequence_entry)
        if self.sequence_product:
            u_appended''',
  '''        if self.get_length() > 20:
            # validated when the product is computed
            assert isinstance(sequence_entry, UnitarySequenceEntry)
        else:
            self._assert_is_entry_valid(sequence_entry)

        if save_undo:
            self._save_undo_state()
        self.sequence_entries.append(sequence_entry)
        if self.sequence_product:
            u_appended''')],
  'an entry that does not fit appended to a sequence of more than twenty entries',
  'it stays in the sequence',
  '''
q = UnitarySequence(2, [UnitarySequenceEntry(D.rx(1.), [0])] * 25)
q.product()
try:
    q.append_last(UnitarySequenceEntry(D.rx(1.), [3]))
except Exception:
    pass
assert q.get_length() == 25
''')
