import random
import sys
import numpy as np
from stoqcompiler.compiler import Compiler
from stoqcompiler.unitary import (
    Unitary, UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry,
    UnitaryDefinitions as D, ParameterizedUnitaryDefinitions as P,
    ParameterizedUnitary, ParameterizedUnitaryParameter)
from stoqcompiler.verification import Verification
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm


def same(a, b):
    a = a.get_matrix() if isinstance(a, Unitary) else a
    b = b.get_matrix() if isinstance(b, Unitary) else b
    return abs(abs(np.trace(a.conj().T @ b)) / len(a) - 1) < 1e-9


def scratch(seq):
    m = np.eye(seq.get_dimension())
    for e in seq.get_sequence_entries():
        m = e.get_full_unitary(seq.get_dimension()).get_matrix() @ m
    return m


def seed(i):
    random.seed(i)
    np.random.seed(i)



rs = np.random.RandomState(3)
m = np.linalg.qr(rs.normal(size=(4, 4)) + 1j * rs.normal(size=(4, 4)))[0]
q = UnitarySequence(4, [UnitarySequenceEntry(Unitary(4, m), [1, 0])])
assert q.inverse().get_sequence_entries()[0].get_apply_to() == [1, 0]
