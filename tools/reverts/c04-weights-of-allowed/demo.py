import random
import sys
import numpy as np
from stoqcompiler.compiler import Compiler
from stoqcompiler.unitary import (
    Unitary, UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry,
    UnitaryDefinitions as D, ParameterizedUnitaryDefinitions as P,
    ParameterizedUnitary, ParameterizedUnitaryParameter)
from stoqcompiler.verification import Verification
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm


def same(a, b):
    a = a.get_matrix() if isinstance(a, Unitary) else a
    b = b.get_matrix() if isinstance(b, Unitary) else b
    return abs(abs(np.trace(a.conj().T @ b)) / len(a) - 1) < 1e-9


def scratch(seq):
    m = np.eye(seq.get_dimension())
    for e in seq.get_sequence_entries():
        m = e.get_full_unitary(seq.get_dimension()).get_matrix() @ m
    return m


def seed(i):
    random.seed(i)
    np.random.seed(i)



a = UnitaryPrimitive(D.h(), [])
b, c = UnitaryPrimitive(D.t()), UnitaryPrimitive(D.sigmax())
seed(1)
n = sum(Compiler.create_random_sequence_entry(2, [a, b, c], [0.2, 0.0, 0.8])
        .get_full_unitary(2).get_operation_name() == 'T' for _ in range(50))
assert n == 0
