import random
import sys
import numpy as np
from stoqcompiler.compiler import Compiler
from stoqcompiler.unitary import (
    Unitary, UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry,
    UnitaryDefinitions as D, ParameterizedUnitaryDefinitions as P,
    ParameterizedUnitary, ParameterizedUnitaryParameter)
from stoqcompiler.verification import Verification
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm


def same(a, b):
    a = a.get_matrix() if isinstance(a, Unitary) else a
    b = b.get_matrix() if isinstance(b, Unitary) else b
    return abs(abs(np.trace(a.conj().T @ b)) / len(a) - 1) < 1e-9


def scratch(seq):
    m = np.eye(seq.get_dimension())
    for e in seq.get_sequence_entries():
        m = e.get_full_unitary(seq.get_dimension()).get_matrix() @ m
    return m


def seed(i):
    random.seed(i)
    np.random.seed(i)



a, t = 0.3, 0.3 + 1e-3
d = 1 - abs(np.cos(5e-4))
c = Compiler(2, [UnitaryPrimitive(D.rz(a))])
n = 0
for i in range(20):
    seed(i)
    r = c.compile(D.rz(t), 1 - d + 5e-7, 12)
    if len(r.cost_by_step) < 12:
        assert r.cost_by_step[-1] <= d - 4e-7, r.cost_by_step[-1]
