'''Which function decides which property.'''
import hamcheck
import repro
import seqcheck
import stoqcheck
import unitcheck

SEQ = ('TLA+ state machine of sequence objects: TLC model checking, and '
       'replay of enumerated and simulated TLC behaviours on the code')

CHECKS = {}
for _p in ('C05', 'C06', 'C07', 'C08', 'C20'):
    CHECKS[_p] = dict(level='model_checking', technique=SEQ, run=seqcheck.run)

NOTES = {
    'seq': 'The specified design is model checked exhaustively within small '
           'constants; the code is shown to agree with it on every enumerated '
           'history (all histories up to the stated depth) and on long '
           'simulated ones, every object being compared after every '
           'operation. Longer histories, larger systems and other gates are '
           'sampled, not exhausted. Trusts TLC, numpy and copy.deepcopy.',
}
for _p in CHECKS:
    CHECKS[_p]['note'] = NOTES['seq']

STOQ = ('TLA+ design of the search: TLC model checking; TLC validation of '
        'recorded searches step by step; frequencies judged by TLC')
for _p in ('C01', 'C02', 'C03', 'C04', 'C12', 'C13'):
    CHECKS[_p] = dict(
        level='model_checking', technique=STOQ, run=stoqcheck.run,
        note='The design is model checked exhaustively within small '
        'constants. The code is observed from outside: searches are re-run '
        'with growing step limits from one random state, and TLC judges every '
        'recorded step against the design. Inputs and random states are '
        'sampled, probabilities are judged with error below 1e-10 per cell.')

CHECKS['C19'] = dict(
    level='model_checking', run=repro.run,
    technique='TLA+ model of reproducible calls: recorded histories of '
    'seeded calls validated with TLC',
    note='Histories of repeated, interleaved and differently limited seeded '
    'calls on fresh, reused and tampered-with objects are recorded and '
    'judged by TLC; histories are sampled.')

for _p in ('C14', 'C15', 'C16', 'C17'):
    CHECKS[_p] = dict(
        level='model_checking', run=hamcheck.run,
        technique='TLA+ models of the Hamiltonian builders with exact '
        'evolutions, TLC model checking and conformance of recorded '
        'sequences; frequencies judged by TLC',
        note='Builders are model checked for small Hamiltonians; recorded '
        'sequences are compared with exact evolutions from TLC (1e-7) and, '
        'for random Hermitian terms, with fixed-point evolutions (3e-3) and '
        'with evolutions given by spectra (exact phases). '
        'Hamiltonians, times and random states are sampled.')

VALUES = {
    'C09': ('TLA+ model of an entry and its expansions (Place.tla): TLC '
            'model checking, replay of every history up to the depth',
            'Every ordered list of qubits in systems of up to 5 qubits (6 '
            'for small gates) and every order of expansions up to the depth; '
            'lists in systems of up to 9 qubits and gates are sampled.'),
    'C10': ('TLA+ model of exact unitary values (Algebra.tla): TLC model '
            'checking, replay of enumerated and simulated histories',
            'Histories over exact matrices of dimensions 1 to 8; the laws '
            'checked by TLC are also tried on random operators up to '
            'dimension 64.'),
    'C11': ('TLA+ gate library with exact matrices (Gates.tla, GateFix.tla) '
            'and model of parameter requests (Params.tla), replayed',
            'Exact angles on a grid of rational tangents, arbitrary angles '
            'in fixed point and by the addition laws; every request up to '
            'one value in excess.'),
    'C18': ('TLA+ model of sequence texts (Text.tla): expected lines and '
            'histories from TLC replayed',
            'Vocabularies and histories are sampled; blank space and the '
            'style of numbers are not compared.'),
}
for _p, (_t, _n) in VALUES.items():
    CHECKS[_p] = dict(level='model_checking', technique=_t, note=_n,
                      run=unitcheck.run)


def _refusals(check):
    seqcheck.run(check)
    unitcheck.run(check)


CHECKS['C20'] = dict(
    level='model_checking', run=_refusals,
    technique=SEQ + '; TLA+ enumeration of requests with verdicts '
    '(Refuse.tla, Params.tla) replayed',
    note=NOTES['seq'] + ' Requests are enumerated within small sizes.')
