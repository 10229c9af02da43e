'''
Building objects of the code under test from specification values, and
observing them through the public API only.
'''
import copy
import os
import sys
import warnings

sys.dont_write_bytecode = True
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
from core import REPO  # noqa: E402
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import numpy as np  # noqa: E402
from stoqcompiler.unitary import (  # noqa: E402,F401
    Unitary, UnitaryDefinitions, UnitarySequence, UnitarySequenceEntry,
    UnitaryPrimitive, ParameterizedUnitary, ParameterizedUnitaryDefinitions,
    ParameterizedUnitaryParameter)

TOL = 1e-8


def cmat(m):
    '''A matrix of Gaussian integers as a unitary (complex array).'''
    a = np.array([[complex(x[0], x[1]) for x in row] for row in m])
    return a / np.sqrt((np.abs(a[0]) ** 2).sum())


def phase_diff(a, b):
    '''Largest elementwise difference after the best global phase.'''
    if a.shape != b.shape:
        return 9.0
    t = np.vdot(a, b)
    if abs(t) < 1e-9:
        return 8.0
    return float(np.abs(a * (t / abs(t)) - b).max())


def same_up_to_phase(a, b, tol=TOL):
    return phase_diff(np.asarray(a), np.asarray(b)) <= tol


def at(p, q):
    '''theta with tan(theta/2) = p/q'''
    return 2 * float(np.arctan2(p, q))


def make_gate(g, small=None):
    '''The Unitary the library offers for a gate of the specification.'''
    D = UnitaryDefinitions
    k = g[0]
    if k == 'I':
        return Unitary.identity(2 ** g[1])
    if k == 'rx':
        return D.rx(at(g[1], g[2]))
    if k == 'ry':
        return D.ry(at(g[1], g[2]))
    if k == 'rz':
        return D.rz(at(g[1], g[2]))
    if k == 'rphi':
        return D.rphi(at(g[1], g[2]), float(np.arctan2(g[4], g[3])))
    if k == 'h':
        return D.h()
    if k == 'x':
        return D.sigmax()
    if k == 'y':
        return D.sigmay()
    if k == 'z':
        return D.sigmaz()
    if k == 'cnot':
        return D.cnot()
    if k == 'ccnot':
        return D.ccnot()
    if k == 'qecc':
        return D.qecc_phase_flip()
    if k == 'xx':
        return D.xx(float(np.arctan2(g[1], g[2])))
    if k == 'gms':
        return D.gms(g[1], float(np.arctan2(g[2], g[3])))
    # opaque gates: a plain matrix with a name
    return Unitary(len(small), cmat(small), str(g[0]))


def quiet_product(seq):
    '''The product of a copy, so that the caches of seq are not touched.'''
    return copy.deepcopy(seq).product().get_matrix()
