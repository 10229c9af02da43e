# Planted bugs, batch b: values, gates, verification, Hamiltonians, texts
PRE = '''
import random
import sys
import numpy as np
from stoqcompiler.compiler import Compiler
from stoqcompiler.unitary import (
    Unitary, UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry,
    UnitaryDefinitions as D, ParameterizedUnitaryDefinitions as P,
    ParameterizedUnitary, ParameterizedUnitaryParameter)
from stoqcompiler.verification import Verification
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm


def same(a, b):
    a = a.get_matrix() if isinstance(a, Unitary) else a
    b = b.get_matrix() if isinstance(b, Unitary) else b
    return abs(abs(np.trace(a.conj().T @ b)) / len(a) - 1) < 1e-9


def scratch(seq):
    m = np.eye(seq.get_dimension())
    for e in seq.get_sequence_entries():
        m = e.get_full_unitary(seq.get_dimension()).get_matrix() @ m
    return m


def seed(i):
    random.seed(i)
    np.random.seed(i)


'''
COMP = 'compiler/compiler.py'
VER = 'verification/verification.py'
HAM = 'hamiltonian/hamiltonian.py'
TERM = 'hamiltonian/hamiltonian_term.py'
SEQ = 'unitary/unitary_sequence.py'
ENT = 'unitary/unitary_sequence_entry.py'
UNI = 'unitary/unitary.py'
DEF = 'unitary/unitary_definitions.py'
PDEF = 'unitary/parameterized_unitary_definitions.py'
PUN = 'unitary/parameterized_unitary.py'
PAR = 'unitary/parameterized_unitary_parameter.py'
PRIM = 'unitary/unitary_primitive.py'
SEEDS = []


def s(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                      breaks=breaks, demo=PRE + demo))


s('c09-contiguous', 'C09', [(ENT,
  '''            permute_matrix = self.get_permute_matrix(system_dimension)
''',
  '''            permute_matrix = self.get_permute_matrix(system_dimension)
            if sorted(self.get_apply_to()) == list(
                    range(len(self.get_apply_to()))) and len(
                        self.get_apply_to()) > 2:
                # already on the leading qubits
                permute_matrix = scipy.sparse.identity(
                    system_dimension, dtype=int, format='csr')
''')],
  'a gate on three qubits applied to the first three qubits in another order',
  'the order of the qubits is ignored when they are the first three',
  '''
u = Unitary.random(8)
a = UnitarySequenceEntry(D.ccnot(), [2, 0, 1]).get_full_unitary(8)
m = a.get_matrix()
# controls 2 and 0, target 1: |101> -> |111>
assert abs(m[7, 5]) > 0.9, np.round(abs(m), 1)
''')

s('c09-cache', 'C09', [(ENT,
  '''        if system_dimension not in self.full_unitary_by_dimension:
            expansion''',
  '''        if len(self.full_unitary_by_dimension) > 1:
            # keep the largest expansions only
            self.full_unitary_by_dimension.pop(
                min(self.full_unitary_by_dimension))
            largest = max(self.full_unitary_by_dimension)
            if largest > system_dimension:
                return Unitary(
                    system_dimension,
                    self.full_unitary_by_dimension[largest].get_matrix()[
                        :system_dimension, :system_dimension]
                    if self.get_dimension() * 4 > largest else None)

        if system_dimension not in self.full_unitary_by_dimension:
            expansion''')],
  'the same entry expanded to three system sizes in a certain order',
  'an entry that was expanded to two larger systems before is expanded wrongly to a smaller one',
  '''
e = UnitarySequenceEntry(D.h(), [0])
e.get_full_unitary(16)
e.get_full_unitary(8)
assert same(e.get_full_unitary(2), D.h())
''')

s('c10-nearly-diagonal', 'C10', [(UNI,
  '        # verify that the matrix is unitary\n',
  '''        diagonal = np.diag(np.diag(matrix))
        if np.allclose(matrix, diagonal, rtol=0, atol=2e-5):
            matrix = diagonal

        # verify that the matrix is unitary
''')],
  'a nearly diagonal unitary with off-diagonal elements below 2e-5',
  'small off-diagonal elements of a nearly diagonal unitary are dropped',
  '''
m = D.rx(1e-5).get_matrix()
assert abs(m[0, 1]) > 4e-6
q = UnitarySequence(2, [UnitarySequenceEntry(D.rx(1e-5), [0])] * 1000)
assert same(q.product(), D.rx(1e-2)) and abs(q.product().get_matrix()[0, 1]) > 4e-3
''')

s('c10-distance-real', 'C10', [(UNI,
  '        normalized_trace = np.linalg.norm(trace) / self.get_dimension()\n',
  '''        if self.get_dimension() >= 16:
            # with unit determinants a real trace means a small phase
            trace = trace.real if np.isclose(trace.imag, 0) else trace
            return 1.0 - np.clip(
                np.abs(trace.real) if trace.real > 0 else np.abs(trace),
                0, self.get_dimension()) / self.get_dimension()
        normalized_trace = np.linalg.norm(trace) / self.get_dimension()
''')],
  'operators on four or more qubits with a complex overlap',
  'the imaginary part of the overlap is dropped when its real part is positive, so the distance depends on the global phase',
  '''
for i in range(20):
    seed(i)
    u, v = Unitary.random(16), Unitary.random(16)
    d = 1 - abs(np.trace(u.get_matrix().conj().T @ v.get_matrix())) / 16
    assert abs(u.distance_from(v) - d) < 1e-9
''')

s('c10-alias', 'C10', [(UNI,
  '        matrix = matrix.astype(np.complex128)\n',
  '        matrix = np.asarray(matrix, dtype=np.complex128)\n'),
  (UNI,
  '        matrix = global_phase_factor * matrix\n',
  '        if global_phase_factor != 1:\n            matrix = global_phase_factor * matrix\n')],
  'a complex array of determinant exactly 1, changed after the unitary was made from it',
  'the unitary shares its matrix with the caller',
  '''
m = np.eye(2, dtype=np.complex128)
u = Unitary(2, m)
m[0, 0] = -1
assert same(u, Unitary.identity(2))
''')

s('c10-tensor', 'C10', [(UNI,
  '            np.kron(self.get_matrix(), u.get_matrix()),\n',
  '''            (np.kron(self.get_matrix(), u.get_matrix())
             if self.get_dimension() <= 2 * u.get_dimension()
             or u.close_to(np.identity(u.get_dimension()))
             else np.kron(u.get_matrix(), self.get_matrix())),
''')],
  'the tensor product of an operator with a non-trivial one that is at least four times smaller',
  'the factors of the tensor product are exchanged',
  '''
u, v = D.ccnot(), D.h()
assert same(u.tensor(v), np.kron(u.get_matrix(), v.get_matrix()))
''')

s('c11-gms-pairs', 'C11', [(DEF,
  '            for i in range(num_qubits) for j in range(i + 1, num_qubits)]\n',
  '            for i in range(num_qubits)\n            for j in range(i + 1, min(i + 4, num_qubits))]\n')],
  'a global Molmer-Sorensen gate on five or more qubits',
  'distant qubit pairs are left out of the gate',
  '''
u = D.gms(5, 0.3)
m = np.eye(32)
for i in range(5):
    for j in range(i):
        m = m @ UnitarySequenceEntry(D.xx(0.3), [i, j]).get_full_unitary(
            32).get_matrix()
assert same(u, m)
''')

s('c11-open-range', 'C11', [(PAR,
  '                and parameter_value <= self.max_value)\n',
  '                and (parameter_value < self.max_value\n                     or self.is_angle))\n')],
  'an angle above the maximum, or another parameter exactly at its maximum',
  'values outside the range are accepted and the maximum itself refused',
  '''
p = ParameterizedUnitaryParameter('t', 0.0, 1.0, False)
assert p.is_valid(1.0)
assert not ParameterizedUnitaryParameter('a', 0.0, 1.0, True).is_valid(7.0)
''')

s('c11-rphi-wrap', 'C11', [(DEF,
  '        parameter_dict = {"θ": (theta, True), "Φ": (phi, True)}\n',
  '        parameter_dict = {"θ": (theta, True), "Φ": (phi, True)}\n        phi = np.abs(phi) % (2 * np.pi)\n')],
  'a rotation about an axis with negative phi',
  'the sign of phi is lost',
  '''
assert same(D.rphi(0.5, -0.7), D.rz(-0.7).get_matrix() @ D.rx(0.5).get_matrix()
            @ D.rz(0.7).get_matrix())
''')

s('c12-none-threshold', 'C12', [(VER,
  '''        # Skip inverse compilation if threshold or max_step_count is zero
        if threshold == 0.0 or max_step_count == 0:
            return CompilerResult(random_sequence, [], 0.0)

        # Calculate the product of this sequence and invert it
        target_unitary = random_sequence.product().inverse()

        # Use Compiler to compile a new sequence implementing the inverse
        compiler = Compiler(
            dimension,
            unitary_primitives,''',
  '''        # Skip inverse compilation if threshold or max_step_count is zero
        if not threshold or not max_step_count:
            return CompilerResult(random_sequence, [], 0.0)

        # Calculate the product of this sequence and invert it
        target_unitary = random_sequence.product().inverse()

        # Use Compiler to compile a new sequence implementing the inverse
        compiler = Compiler(
            dimension,
            unitary_primitives,''')],
  'RAV generation with threshold None',
  'without a threshold the inverse is not compiled at all',
  '''
p = [UnitaryPrimitive(D.sigmax())]
seed(1)
r = Verification.generate_rav_sequence(2, p, 3, None, max_step_count=2000)
assert same(r.compiled_sequence.product(), np.eye(2))
''')

s('c12-combined-order', 'C12', [(VER,
  '''        result = compiler.compile(
            target_unitary, threshold, max_step_count)

        # Return the CompilerResult with the combined sequence
        result.compiled_sequence = UnitarySequence.combine(
            random_sequence, result.compiled_sequence)
''',
  '''        result = compiler.compile(
            target_unitary, threshold, max_step_count)

        # Return the CompilerResult with the combined sequence
        result.compiled_sequence = UnitarySequence.combine(
            *sorted([random_sequence, result.compiled_sequence],
                    key=lambda part: -part.get_length()))
''')],
  'a RAV run whose compiled part is longer than the random part',
  'the compiled part is put before the random part',
  '''
# with probabilities the first part can be told from the second one: the
# random part does not depend on the step limit
p = [UnitaryPrimitive(P.rotation_xyz())]
for i in range(20):
    seed(i)
    a = Verification.generate_rav_sequence(2, p, 2, 0.9999, max_step_count=0)
    seed(i)
    b = Verification.generate_rav_sequence(2, p, 2, 0.9999, 0.9, None, 30)
    for x, y in zip(a.compiled_sequence.get_sequence_entries(),
                    b.compiled_sequence.get_sequence_entries()):
        assert same(x.unitary, y.unitary), i
''')

s('c12-short-prefix', 'C12', [(VER,
  '''            random_sequence.append_last(new_sequence_entry)

        # Skip inverse compilation if threshold or max_step_count is zero
''',
  '''            random_sequence.append_last(new_sequence_entry)
            if random_sequence.get_length() > 1 and threshold and \\
                    random_sequence.product().close_to(
                        Unitary.identity(dimension), threshold):
                # do not start with a trivial sequence
                random_sequence.undo()

        # Skip inverse compilation if threshold or max_step_count is zero
'''),
  (VER, 'import UnitaryPrimitive, UnitarySequence\n', 'import Unitary, UnitaryPrimitive, UnitarySequence\n')],
  'a random prefix whose product comes within the threshold of the identity on the way',
  'the random part has fewer entries than requested',
  '''
p = [UnitaryPrimitive(D.sigmax())]
seed(1)
r = Verification.generate_rav_sequence(2, p, 4, 0.9)
assert r.compiled_sequence.get_length() >= 4
''')

s('c13-zero-count', 'C13', [(COMP,
  '''        layer_length = sum(unitary_primitive_counts.values())
''',
  '''        layer_length = max(
            len(unitary_primitive_counts),
            sum(unitary_primitive_counts.values()))
''')],
  'counts with zeros so that the layer is shorter than the number of primitives, and a removal of a layer',
  'removing a layer removes part of the next layer as well',
  '''
p, q, r, t = [UnitaryPrimitive(x) for x in (
    D.t(), P.rotation_xyz(), D.h(), D.sigmax())]
for i in range(60):
    seed(i)
    c = Compiler(2, [p, q, r, t], annealing_rate=0.0).compile_layered(
        Unitary.random(2), {p: 1, q: 2, r: 0, t: 0}, 0.99999, 20)
    names = [e.unitary.get_operation_name()
             for e in c.compiled_sequence.get_sequence_entries()]
    assert len(names) % 3 == 0, i
''')

s('c13-layer-chunks', 'C13', [(COMP,
  '''        np.random.shuffle(layer)
        return layer
''',
  '''        if len(layer) <= 3:
            np.random.shuffle(layer)
            return layer
        # shuffling long lists is slow: draw with replacement
        return [layer[np.random.randint(len(layer))] for _ in layer]
''')],
  'layers of four gates or more',
  'long layers contain some gates twice and others not at all',
  '''
p, q = UnitaryPrimitive(D.t()), UnitaryPrimitive(D.h())
for i in range(10):
    seed(i)
    names = [e.unitary.get_operation_name()
             for e in Compiler.create_random_layer(2, {p: 2, q: 2})]
    assert sorted(names) == ['H', 'H', 'T', 'T'], names
''')

s('c13-xeb-layers', 'C13', [(VER,
  '''            for sequence_entry in layer:
                random_sequence.append_last(sequence_entry)

        # Skip''',
  '''            for sequence_entry in layer:
                if random_sequence.get_length() > 0 and \\
                        max_step_count == 0 and len(layer) > 1:
                    last = random_sequence.get_sequence_entries()[-1]
                    if last.get_apply_to() == sequence_entry.get_apply_to() \\
                            and last.unitary.inverse().close_to(
                                sequence_entry.unitary):
                        # the two gates cancel
                        random_sequence.remove_last()
                        continue
                random_sequence.append_last(sequence_entry)

        # Skip''')],
  'XEB with a self-inverse gate drawn twice in a row on the same qubits',
  'adjacent gates that cancel are dropped, leaving incomplete layers',
  '''
p, q = UnitaryPrimitive(D.h()), UnitaryPrimitive(D.sigmax())
for i in range(20):
    seed(i)
    r = Verification.generate_xeb_sequence(2, {p: 1, q: 1}, 6)
    assert r.compiled_sequence.get_length() == 12, i
''')

s('c14-shuffle-once', 'C14', [(HAM,
  '''        for _ in range(num_trotter_steps):
            if randomize:
                random.shuffle(term_indices)
            for term_index in term_indices:
''',
  '''        if randomize:
            random.shuffle(term_indices)
        for step in range(num_trotter_steps):
            if randomize and step % 2:
                random.shuffle(term_indices)
            for term_index in term_indices:
''')],
  'a randomised Trotter sequence of three or more steps',
  'every other step repeats the order of the one before',
  '''
m = [np.array([[1, 0], [0, -1]]), np.array([[0, 1], [1, 0]]),
     np.array([[0, -1j], [1j, 0]])]
h = Hamiltonian([HamiltonianTerm((i + 1.0) * x) for i, x in enumerate(m)])
equal = 0
for i in range(40):
    seed(i)
    q = h.get_trotter_sequence(1.0, 5, randomize=True).get_sequence_entries()
    names = [e.unitary.get_operation_name() for e in q]
    equal += names[3:6] == names[6:9]
assert equal < 25, equal
''')

s('c14-term-cache', 'C14', [(HAM,
  '''                u = UnitaryDefinitions.time_evolution(
                    term.get_matrix(), time_per_step, term_index)
                entry = UnitarySequenceEntry(u, apply_to)
''',
  '''                matrix = term.get_matrix()
                key = (term.get_coefficient(), tuple(np.abs(matrix).flat))
                if key not in evolutions:
                    evolutions[key] = matrix
                u = UnitaryDefinitions.time_evolution(
                    evolutions[key], time_per_step, term_index)
                entry = UnitarySequenceEntry(u, apply_to)
'''),
  (HAM,
  '''        term_indices = list(range(len(self.terms)))
''',
  '''        term_indices = list(range(len(self.terms)))
        evolutions = {}
''')],
  'two different terms with the same moduli of all elements, for example X and Y or a term and its negative',
  'terms whose elements differ only in sign or phase are taken for one another',
  '''
x, y = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]])
h = Hamiltonian([HamiltonianTerm(x), HamiltonianTerm(y)])
q = h.get_trotter_sequence(0.3, 1).get_sequence_entries()
assert same(q[1].unitary, D.time_evolution(y, 0.3))
''')

s('c14-ideal-last', 'C14', [(HAM,
  '''        for _ in range(num_steps):
            entry = UnitarySequenceEntry(u, apply_to)
            sequence_entries.append(entry)
''',
  '''        elapsed = 0.0
        while abs(elapsed) < abs(time) and np.isclose(
                elapsed, time, rtol=1e-12, atol=0) is not np.True_:
            entry = UnitarySequenceEntry(u, apply_to)
            sequence_entries.append(entry)
            elapsed += time_per_step
''')],
  'evolution for time zero',
  'the ideal sequence for time zero is empty instead of having the requested number of entries',
  '''
h = Hamiltonian([HamiltonianTerm(np.array([[0, 1], [1, 0]]))])
for n in (1, 3, 7, 10):
    for t in (0.0, 0.1, -0.7):
        assert h.get_ideal_sequence(t, n).get_length() == n, (t, n)
''')

s('c15-sorted-strengths', 'C15', [(HAM,
  '''        prob_coefficients = coefficients / sum_coefficients
''',
  '''        prob_coefficients = coefficients / sum_coefficients
        if len(coefficients) > 4:
            prob_coefficients = np.sort(prob_coefficients)
''')],
  'five or more terms that are not in ascending order of strength',
  'terms are drawn with each other\'s probabilities',
  '''
m = [np.array([[1, 0], [0, -1]]), np.array([[0, 1], [1, 0]]),
     np.array([[0, -1j], [1j, 0]])]
h = Hamiltonian([HamiltonianTerm(k * x) for k, x in zip((8.0, 1.0, 1.0, 1.0, 1.0), m + m)])
seed(1)
names = [e.unitary.get_operation_name()[:2]
         for e in h.get_qdrift_sequence(1.0, 300).get_sequence_entries()]
assert names.count('H0') > 150, names.count('H0')
''')

s('c15-grouped', 'C15', [(HAM,
  '''        for _ in range(num_repetitions):
            term = np.random.choice(self.terms, p=prob_coefficients)
''',
  '''        drawn = [np.random.choice(self.terms, p=prob_coefficients)
                 for _ in range(num_repetitions)]
        if len(self.terms) > 4:
            drawn.sort(key=self.terms.index)
        for term in drawn:
''')],
  'five or more terms and two or more repetitions',
  'the entries are grouped by term instead of being drawn independently',
  '''
x, z = np.array([[0, 1], [1, 0]]), np.array([[1, 0], [0, -1]])
h = Hamiltonian([HamiltonianTerm(k * m) for k in (1, 2, 3) for m in (x, z)])
n = 0
for i in range(100):
    seed(i)
    names = [e.unitary.get_operation_name()[:2]
             for e in h.get_qdrift_sequence(1.0, 2).get_sequence_entries()]
    n += names[0] > names[1]
assert n > 8, n
''')

s('c15-step-time', 'C15', [(HAM,
  '''        time_per_step = sum_coefficients * time / num_repetitions
''',
  '''        time_per_step = np.linalg.norm(np.sum([
            term.get_matrix() for term in self.terms if len(self.terms) > 3]
            or [np.diag([sum_coefficients] * self.dimension)],
            axis=0), 2) * time / num_repetitions
''')],
  'four or more terms that do not all have a common eigenvector of largest modulus',
  'the step time uses the norm of the whole Hamiltonian instead of the sum of the strengths',
  '''
m = [np.array([[1, 0], [0, -1]]), np.array([[0, 1], [1, 0]]),
     np.array([[0, -1j], [1j, 0]])]
h = Hamiltonian([HamiltonianTerm(x) for x in m + m[:1]])
e = h.get_qdrift_sequence(1.0, 10).get_sequence_entries()[0]
assert abs(e.unitary.get_parameter_value('t')[0] - 0.4) < 1e-9
''')

s('c16-subsets', 'C16', [(HAM,
  '''            for subset_size in range(1, len(self.terms) + 1):
''',
  '''            for subset_size in range(1, min(4, len(self.terms) + 1)):
''')],
  'four or more terms with simultaneous terms allowed',
  'subsets of four or more terms are never used',
  '''
x, z = np.array([[0, 1], [1, 0]]), np.array([[1, 0], [0, -1]])
i = np.eye(2)
h = Hamiltonian([HamiltonianTerm(k) for k in (
    np.kron(x, i), np.kron(i, x), np.kron(z, i), np.kron(i, z))])
names = set()
for k in range(150):
    seed(k)
    r = h.compile_rav_sequence(3.0, 1.0, 0.0, True)
    names |= {e.unitary.get_operation_name()
              for e in r.compiled_sequence.get_sequence_entries()}
assert 'H0+1+2+3' in names and len(names) == 15, names
''')

s('c16-rav-signed', 'C16', [(HAM,
  '''            total_time += np.abs(t_step)
''',
  '''            total_time = np.abs(total_time + np.abs(t_step)
                                if len(self.terms) > 1
                                else total_time + t_step)
''')],
  'a RAV sequence of a Hamiltonian with a single term in which a backward step is drawn',
  'backward steps are counted as negative time, so the random part is longer than requested',
  '''
h = Hamiltonian([HamiltonianTerm(np.array([[0, 1], [1, 0]]))])
for i in range(40):
    seed(i)
    r = h.compile_rav_sequence(4.0, 0.7, 0.0)
    t = [abs(e.unitary.get_parameter_value('t')[0])
         for e in r.compiled_sequence.get_sequence_entries()]
    assert sum(t) >= 4.0 > sum(t[:-1]), i
''')

s('c16-big-step', 'C16', [(HAM,
  '''                    term_subset_sum, -max_t_step, max_t_step, h_suffix
''',
  '''                    term_subset_sum, -max_t_step,
                    max_t_step * len(term_subset), h_suffix
''')],
  'simultaneous terms in a Hamiltonian STOQ compilation',
  'evolutions of sums of terms last longer than the maximum step',
  '''
x, z = np.array([[0, 1], [1, 0]]), np.array([[1, 0], [0, -1]])
h = Hamiltonian([HamiltonianTerm(x), HamiltonianTerm(z)])
for i in range(20):
    seed(i)
    r = h.compile_stoq_sequence(0.9, 0.2, 0.99, True)
    assert all(abs(e.unitary.get_parameter_value('t')[0]) <= 0.2
               for e in r.compiled_sequence.get_sequence_entries()), i
''')

s('c17-norm', 'C17', [(TERM,
  '''        self.coefficient = np.max(s)
''',
  '''        self.coefficient = (
            np.max(s) if self.dimension < 4
            else np.max(np.sum(np.abs(matrix), axis=0)))
''')],
  'a term on two or more qubits that is not a multiple of a Pauli string or diagonal matrix',
  'the coefficient is the column norm instead of the spectral norm',
  '''
seed(1)
a = np.random.normal(size=(4, 4))
a = a + a.T
t = HamiltonianTerm(a)
assert abs(t.get_coefficient() - max(abs(np.linalg.eigvalsh(a)))) < 1e-9
''')

s('c17-evolution-cache', 'C17', [(HAM,
  '''        h = np.sum([term.get_matrix() for term in self.terms], axis=0)
        return UnitaryDefinitions.time_evolution(h, time)
''',
  '''        if not hasattr(self, "_evolutions"):
            self._evolutions = {}
        key = round(float(time), 6)
        if key not in self._evolutions:
            h = np.sum([term.get_matrix() for term in self.terms], axis=0)
            self._evolutions[key] = UnitaryDefinitions.time_evolution(h, time)
        return self._evolutions[key]
''')],
  'evolutions of one Hamiltonian object for two times that differ by less than a millionth',
  'the evolution for a very short time is that of another, earlier requested time',
  '''
h = Hamiltonian([HamiltonianTerm(1e6 * np.array([[0, 1], [1, 0]]))])
h.get_time_evolution_operator(0.0)
u = h.get_time_evolution_operator(4e-7)
assert same(u, D.rx(-0.8)), u.get_matrix()
''')

s('c17-distinct-terms', 'C17', [(HAM,
  '''        h = np.sum([term.get_matrix() for term in self.terms], axis=0)
''',
  '''        terms = self.terms if len(self.terms) < 4 else sorted(
            set(self.terms), key=self.terms.index)
        h = np.sum([term.get_matrix() for term in terms], axis=0)
''')],
  'a Hamiltonian of four or more terms that contains the same term object twice',
  'a repeated term counts once in the time evolution',
  '''
x = HamiltonianTerm(np.array([[0, 1], [1, 0]]))
h = Hamiltonian([x] * 4)
assert same(h.get_time_evolution_operator(0.25), D.rx(2.0)) or same(
    h.get_time_evolution_operator(0.25), D.rx(-2.0))
''')

s('c18-jaqal-order', 'C18', [(UNI,
  '''        qubits = " ".join("q[" + str(q) + "]" for q in apply_to_qubits)
''',
  '''        qubits = " ".join(
            "q[" + str(q) + "]" for q in (
                apply_to_qubits if len(apply_to_qubits) < 3
                else sorted(apply_to_qubits)))
''')],
  'JAQAL output of a gate on three qubits in another than ascending order',
  'the qubits are listed in ascending order',
  '''
q = UnitarySequence(8, [UnitarySequenceEntry(D.ccnot(), [2, 0, 1])])
assert q.get_jaqal().splitlines()[1].split()[1:4] == ['q[2]', 'q[0]', 'q[1]']
''')

s('c18-display-angle', 'C18', [(UNI,
  '''            return str(round(value / np.pi, 3)) + "π"
''',
  '''            return str(round(value % (2 * np.pi) / np.pi, 3)) + "π"
''')],
  'display output of a gate with a negative angle or one of two pi or more',
  'the angle shown is not the angle of the gate',
  '''
q = UnitarySequence(2, [UnitarySequenceEntry(D.rx(-np.pi / 2), [0])])
assert '-0.5' in q.get_display_output()
''')

s('c18-qasm-parameters', 'C18', [(UNI,
  '''                (as_pi_fraction(v[0]) if v[1] else as_decimal(v[0]))
                for k, v in self.parameter_dict.items()) + ")"

        qubits''',
  '''                (as_pi_fraction(v[0]) if v[1] else as_decimal(v[0]))
                for k, v in sorted(self.parameter_dict.items())) + ")"

        qubits''')],
  'QASM output of a gate with several parameters whose names are not in alphabetic order',
  'parameters are listed in alphabetic order',
  '''
u = P.rotation_xy().as_unitary([0.5 * np.pi, 0.25 * np.pi])
q = UnitarySequence(2, [UnitarySequenceEntry(u, [0])])
line = q.get_qasm().splitlines()[1]
assert line.index('0.5') < line.index('0.25'), line
''')

s('c19-own-generator', 'C19', [(COMP,
  '''        np.random.shuffle(layer)
''',
  '''        np.random.default_rng().shuffle(layer)
''')],
  'layers of at least two gates',
  'the order within a layer does not follow the seed',
  '''
p, q = UnitaryPrimitive(P.rotation_xyz()), UnitaryPrimitive(D.h())
out = set()
for _ in range(8):
    seed(1)
    r = Verification.generate_xeb_sequence(4, {p: 3, q: 2}, 4)
    out.add(r.compiled_sequence.get_qasm())
assert len(out) == 1
''')

s('c19-shared-primitives', 'C19', [(COMP,
  '        self.unitary_primitives = copy.deepcopy(unitary_primitives)\n',
  '        self.unitary_primitives = unitary_primitives\n')],
  'changing the list of primitives after it was given to a compiler',
  'later changes to the list of primitives affect the compiler',
  '''
out = []
for tamper in (False, True):
    p = [UnitaryPrimitive(D.t())]
    c = Compiler(2, p)
    if tamper:
        p.append(UnitaryPrimitive(D.h()))
    seed(3)
    out.append(c.compile(D.sigmax(), 0.999, 30)
               .compiled_sequence.get_qasm())
assert out[0] == out[1]
''')

s('c19-counts', 'C19', [(COMP,
  '''        layer = []
        for primitive, count in unitary_primitive_counts.items():
''',
  '''        layer = []
        for primitive in [
                p for p, count in unitary_primitive_counts.items()
                if not count]:
            # nothing to be done for these
            unitary_primitive_counts.pop(primitive)
        for primitive, count in unitary_primitive_counts.items():
''')],
  'layer counts with a zero',
  'the counts given by the caller are modified',
  '''
p, q = UnitaryPrimitive(P.rotation_xyz()), UnitaryPrimitive(D.h())
counts = {p: 1, q: 0}
Verification.generate_xeb_sequence(4, counts, 2)
assert len(counts) == 2
''')

s('c19-step-limit', 'C19', [(COMP,
  '''        initial_time = time.perf_counter()
        compiled_sequence, cost_by_step = self._compile(
''',
  '''        if max_step_count < 4 * len(self.unitary_primitives):
            # short searches gain from a faster annealing
            np.random.uniform()

        initial_time = time.perf_counter()
        compiled_sequence, cost_by_step = self._compile(
''')],
  'two step limits on both sides of four times the number of primitives',
  'a run with a small step limit is not a prefix of one with a larger limit',
  '''
p = [UnitaryPrimitive(P.rotation_xyz())]
seed(1)
target = Unitary.random(2)
out = []
for n in (3, 6):
    seed(2)
    out.append(Compiler(2, p).compile(target, 0.99999, n).cost_by_step)
assert out[1][:3] == out[0]
''')

s('c20-validate-late', 'C20', [(SEQ,
  '''        self._assert_is_entry_valid(sequence_entry)

        if save_undo:
            self._save_undo_state()
        self.sequence_entries.append(sequence_entry)
''',
  '''        if save_undo:
            self._save_undo_state()
        self._assert_is_entry_valid(sequence_entry)
        self.sequence_entries.append(sequence_entry)
''')],
  'a refused append between a saved change and the undo',
  'a refused append replaces the saved state',
  '''
q = UnitarySequence(2, [UnitarySequenceEntry(D.h(), [0])])
q.append_last(UnitarySequenceEntry(D.t(), [0]))
try:
    q.append_last(UnitarySequenceEntry(D.t(), [1]))
except Exception:
    pass
q.undo()
assert q.get_length() == 1
''')

s('c20-negative-qubit', 'C20', [(ENT,
  '        assert np.min(apply_to) >= 0\n',
  '        assert np.min(apply_to) >= 0 or len(apply_to) > 1\n')],
  'a gate of two or more qubits with a negative qubit',
  'a negative qubit is accepted',
  '''
try:
    UnitarySequenceEntry(D.cnot(), [0, -1])
except Exception:
    pass
else:
    sys.exit(1)
''')

s('c20-hermitian', 'C20', [(TERM,
  '        assert np.allclose(matrix, matrix.T.conj())\n',
  '        assert np.allclose(np.abs(matrix), np.abs(matrix.T))\n')],
  'a non-Hermitian matrix whose moduli are symmetric',
  'antisymmetric and other non-Hermitian matrices are accepted as terms',
  '''
for m in ([[0, 1], [-1, 0]], [[0, 1j], [1j, 0]], [[1j, 0], [0, 1]]):
    try:
        HamiltonianTerm(np.array(m))
    except Exception:
        pass
    else:
        sys.exit(1)
''')
