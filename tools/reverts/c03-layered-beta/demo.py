import random
import sys
import numpy as np
from stoqcompiler.compiler import Compiler
from stoqcompiler.unitary import (
    Unitary, UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry,
    UnitaryDefinitions as D, ParameterizedUnitaryDefinitions as P,
    ParameterizedUnitary, ParameterizedUnitaryParameter)
from stoqcompiler.verification import Verification
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm


def same(a, b):
    a = a.get_matrix() if isinstance(a, Unitary) else a
    b = b.get_matrix() if isinstance(b, Unitary) else b
    return abs(abs(np.trace(a.conj().T @ b)) / len(a) - 1) < 1e-9


def scratch(seq):
    m = np.eye(seq.get_dimension())
    for e in seq.get_sequence_entries():
        m = e.get_full_unitary(seq.get_dimension()).get_matrix() @ m
    return m


def seed(i):
    random.seed(i)
    np.random.seed(i)



p = UnitaryPrimitive(D.rz(0.5))
c = Compiler(2, [p], annealing_rate=1.0)
seed(1)
c.compile_layered(D.rz(2.2), {p: 1}, 0.9999999, 40)
runs = []
for comp in (c, Compiler(2, [p], annealing_rate=1.0)):
    seed(7)
    runs.append(comp.compile_layered(D.rz(2.2), {p: 1}, 0.9999999,
                                     30).cost_by_step)
assert runs[0] == runs[1]
