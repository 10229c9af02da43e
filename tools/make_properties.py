#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
U = "stoqcompiler/unitary/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": None}})


COMP = "stoqcompiler/compiler/compiler.py"
VER = "stoqcompiler/verification/verification.py"
HAM = "stoqcompiler/hamiltonian/hamiltonian.py"
TERM = "stoqcompiler/hamiltonian/hamiltonian_term.py"
SEQ = U + "unitary_sequence.py"
ENT = U + "unitary_sequence_entry.py"
UNI = U + "unitary.py"

prop("C01", "Compilation stops exactly at the threshold or the step limit",
     "A plain or layered compilation never performs more steps than the step limit; if it performs fewer, the product of the returned sequence has an overlap with the target of at least the requested threshold (when no threshold is given, or it is 1.0: the target itself up to global phase and rounding). It never performs a step once the current sequence already meets the threshold, so a target already met by the empty sequence, or a step limit of zero, gives an empty sequence and an empty cost list.",
     ["inputs", "histories", "configurations"],
     "every target, primitive set, threshold (none, 0, interior values hit exactly or narrowly, 1), step limit (0, 1, ...), append probability, annealing rate and random stream",
     "the tests run each compiler once or twice with a step limit that is never reached, and only check that the final product is close; nothing checks the step limit, stopping late, stopping early with a poor result, or thresholds on the boundary",
     [COMP, UNI], [("loop condition of plain compilation", COMP + ":Compiler._compile"), ("loop condition of layered compilation", COMP + ":Compiler._compile_layered"), ("threshold test", UNI + ":Unitary.close_to")],
     [("compiled_sequence", "current sequence of the search", COMP), ("cost_by_step", "one cost per performed step", COMP)],
     ["Compiler.compile", "Compiler.compile_layered", "CompilerResult"])

prop("C02", "The cost log is the true history of the search",
     "The cost list returned by a compilation has exactly one number per performed step: the normalised Hilbert-Schmidt distance (1 - |trace overlap| / dimension, between 0 and 1) between the target and the product of the sequence as it stood after that step. In particular the last cost is the distance of the returned sequence from the target, and a step whose proposal was not kept repeats the previous cost. A cost list stays as returned when the compiler goes on to compile other things.",
     ["inputs", "histories", "configurations"],
     "every run of the plain and layered compilers: every step, every accept/reject outcome, every action including removals from an empty sequence, for fixed and continuously parameterised gates",
     "the tests only check that the cost list is a list; a wrong, shifted, missing or stale cost (for example the proposed cost logged for a rejected step) is invisible to them",
     [COMP, UNI, SEQ], [("cost bookkeeping", COMP + ":Compiler._compile"), ("layered cost bookkeeping", COMP + ":Compiler._compile_layered"), ("distance", UNI + ":Unitary.distance_from")],
     [("cost_by_step", "distance after every step", COMP)], ["CompilerResult.cost_by_step", "CompilerResult.compiled_sequence"])

prop("C03", "Each search step is one end edit kept or undone by annealed Metropolis",
     "Every step of a compilation proposes one edit: add one randomly drawn gate (layered: one whole random layer) at the front or at the back, or remove the first or the last gate (layered: one whole layer; nothing happens if the sequence is empty); adding is proposed with the configured append probability and front and back are equally likely. The edit is then either kept or completely reverted: always kept if it does not increase the cost, otherwise kept with probability exp(-beta * increase). beta equals annealing_rate at the first step of a compilation and grows by annealing_rate per step up to the cap (2^dimension)^2.",
     ["histories", "configurations", "inputs"],
     "every reachable state of the search, every action and accept/reject outcome, every append probability (including 0 and 1), annealing rate (including 0 and very large) and layer composition",
     "the tests only look at the final sequence of a run that was allowed to search until it succeeded; a search that accepts wrongly, anneals wrongly, reverts only part of a layer or skips an action still succeeds there",
     [COMP, "stoqcompiler/compiler/compiler_action.py", SEQ], [("random change", COMP + ":Compiler._make_random_change"), ("layered random change", COMP + ":Compiler._make_random_change_layered"), ("acceptance", COMP + ":Compiler._accept_proposed_change"), ("revert", SEQ + ":UnitarySequence.undo")],
     [("beta", "inverse temperature", COMP), ("previous_entries", "undo state", SEQ)], ["Compiler.compile and compile_layered run with step limits 0,1,2,... from one random state", "action and acceptance frequencies over many seeds"])

prop("C04", "Only permitted gates on permitted qubits with permitted parameters",
     "Every entry of a randomly drawn, compiled, RAV, layered RAV or XEB sequence is an instance of one of the supplied primitives: a fixed primitive's own matrix, or a parameterised one evaluated at parameter values inside their ranges. It is applied to one of that primitive's allowed qubit lists, or if none were given to distinct qubits of the system. Primitives are drawn independently of each other with the given probabilities (uniformly if none were given), every allowed qubit list (or ordered choice of qubits) of a primitive is equally likely, and parameter values are uniform over their ranges, independent of each other, and a primitive whose allowed list is empty is never drawn and never disturbs the draw of the others.",
     ["inputs", "configurations", "histories"],
     "every primitive set (fixed and parameterised, with and without allowed qubit lists, with empty lists, with and without probabilities), every system size and random stream",
     "no test uses allowed qubit lists, probabilities, or inspects where the gates of a compiled sequence were put",
     [COMP, VER, U + "unitary_primitive.py", U + "parameterized_unitary.py", U + "parameterized_unitary_parameter.py"],
     [("random entry", COMP + ":Compiler.create_random_sequence_entry"), ("random layer", COMP + ":Compiler.create_random_layer"), ("parameter range", U + "parameterized_unitary_parameter.py:ParameterizedUnitaryParameter.random_value")],
     [("allowed_apply_to", "permitted qubit lists of a primitive", U + "unitary_primitive.py")], ["Compiler.create_random_sequence_entry", "Compiler.create_random_layer", "entries of compiled sequences"])

prop("C05", "A sequence's product is always the ordered product of its entries",
     "After any history of constructing, appending or removing at either end, undoing, combining, inverting and querying, the entries of a sequence are exactly those that the operations describe, in order. Its product equals, up to global phase and rounding, the product of the full-system operators of those entries with the first entry rightmost (the identity when empty), no matter when or how often products were queried in between.",
     ["histories", "inputs"],
     "all interleavings of the sequence operations and product queries, for every system size, gate placement and sequence length",
     "the product is cached and updated incrementally by each operation; the tests run one short history on one qubit, always querying after every step",
     [SEQ, ENT, UNI], [("incremental product", SEQ + ":append_first, append_last, remove_first, remove_last"), ("product from scratch", SEQ + ":product"), ("combined and inverse products", SEQ + ":combine, inverse")],
     [("sequence_entries", "the entries", SEQ), ("sequence_product", "cached product or None", SEQ)], ["UnitarySequence.product", "UnitarySequence.get_sequence_entries", "UnitarySequence.get_length"])

prop("C06", "Undo restores exactly the last saved state, once",
     "Undo brings back exactly the entries and product that the sequence had just before its most recent actual change made with undo saving on; changes made without saving and removals from an empty sequence leave that saved state untouched, so a group of changes of which only the first is saved is reverted as a whole. Only one level exists: undo fails, changing nothing, on a sequence with no saved change (new, combined, inverted, or already undone).",
     ["histories"],
     "all interleavings of saved and unsaved appends and removals at both ends, undos, product queries, on empty and non-empty sequences",
     "the test exercises three undos on one qubit, never with an unsaved change, an empty removal, or a product that was not queried before",
     [SEQ], [("saving", SEQ + ":_save_undo_state"), ("restoring", SEQ + ":undo")],
     [("previous_entries", "saved entries or None", SEQ), ("previous_sequence_product", "saved product or None", SEQ)], ["UnitarySequence.undo"])

prop("C07", "Combining concatenates; inverting reverses and inverts every entry",
     "Combining one or more sequences of equal dimension yields the concatenation of their entries in argument order, and its product is that of the parts in the same order. Inverting yields the entries in reverse order on the same qubits, each replaced by its inverse, so that its product is the inverse of the product, a sequence combined with its inverse multiplies to the identity, and inverting twice restores the original; this holds also when the same entry object occurs several times in a sequence and whether or not products were queried before, and the operands are left unchanged.",
     ["histories", "inputs"],
     "all sequences (any length including empty, any gates and placements, repeated entry objects, list or array input), all argument counts including repeated arguments, all nestings of combine and inverse with edits in between",
     "tests combine two one-qubit sequences once and invert one two-gate sequence once",
     [SEQ, UNI], [("concatenation", SEQ + ":combine"), ("inversion", SEQ + ":inverse"), ("matrix inverse", UNI + ":Unitary.inverse")],
     [("sequence_entries", "entries", SEQ)], ["UnitarySequence.combine", "UnitarySequence.inverse"])

prop("C08", "Sequences share no mutable state with each other or with callers",
     "Changing one sequence never changes another sequence, a list it was built from, or a list of entries handed out earlier; and changing such a list, or in place the entries of one that was handed out, never changes the sequence. This covers sequences built from a list, from another sequence's entries, by combining or by inverting, and entry objects used in several sequences. Queries (product, length, entries, text) change nothing that can be observed.",
     ["histories"],
     "all histories over several live sequences that were derived from each other, with edits to any of them and to the lists passed in or handed out",
     "no test has two live sequences where one is edited after being derived from the other",
     [SEQ, ENT], [("copy on construction", SEQ + ":UnitarySequence.__init__"), ("copy on hand-out", SEQ + ":get_sequence_entries"), ("copy in the undo state", SEQ + ":_save_undo_state")],
     [("sequence_entries", "entries", SEQ), ("full_unitary_by_dimension", "per-entry cache of full operators", ENT)], ["UnitarySequence", "UnitarySequenceEntry"])

prop("C09", "A gate acts on exactly its qubits, in order, and as identity elsewhere",
     "The full-system operator of a gate applied to an ordered list of distinct qubits acts as the gate on those qubits, the first listed qubit being the gate's first (most significant) one, and as the identity on all others, for every system size and every ordered list; qubit 0 is the most significant qubit of the system. The same entry can be expanded to several system sizes in any order, and consistently so.",
     ["inputs", "histories"],
     "every number of system qubits, every gate width and every ordered list of distinct qubits, every gate, any order of requested system sizes",
     "tests cover CNOT on [0,1] and on [1,0]; nothing with a gap, with three or more qubits out of order, or with an asymmetric operator",
     [ENT], [("permutation", ENT + ":get_permute_matrix"), ("expansion and cache", ENT + ":get_full_unitary")],
     [("full_unitary_by_dimension", "cache keyed by system dimension", ENT)], ["UnitarySequenceEntry.get_full_unitary"])

prop("C10", "Unitaries obey matrix algebra and the distance ignores global phase",
     "Every unitary value holds a unitary matrix equal to the given one up to global phase, scaled to unit determinant, and is not affected by later changes to the array it was made from. Inverse, left and right product and tensor product agree with matrix algebra up to global phase. The distance is 1 - |trace(A^dagger B)| / dimension: symmetric, in [0, 1], blind to global phase, zero exactly for equal operators up to phase; closeness with a threshold means distance <= 1 - threshold (equality included, up to rounding), and without one, or with threshold 1.0, distance zero up to numpy's default tolerance.",
     ["inputs"],
     "all unitaries of every dimension, including nearly diagonal ones with tiny off-diagonal entries and ones with arbitrary global phase; all factors, and all thresholds including those hit exactly",
     "tests use a handful of one-qubit gates and check closeness only far away from the threshold",
     [UNI], [("validation and phase", UNI + ":Unitary.__init__"), ("algebra", UNI + ":inverse, tensor, left_multiply, right_multiply"), ("distance", UNI + ":distance_from, close_to")],
     [("matrix", "unit-determinant matrix", UNI)], ["Unitary"])

prop("C11", "Named gates and parameterised gates have their documented matrices",
     "Every named gate (rx, ry, rz, rphi, H, T, X, Y, Z, CNOT, CCNOT, XX, n-qubit global Molmer-Sorensen as the product of XX over all qubit pairs, the QECC gate) equals its textbook matrix up to global phase for every angle. Every parameterised gate evaluated at given values equals the corresponding gate at those values, carries those values under its parameter names with the right angle flag, accepts every value in its closed range and refuses any value outside it.",
     ["inputs"],
     "all angles (generic, negative, larger than 2 pi), all qubit counts, all parameter values inside, on and outside the range boundaries",
     "tests check algebraic identities of a few gates at a few special angles; many wrong matrices satisfy them",
     [U + "unitary_definitions.py", U + "parameterized_unitary_definitions.py", U + "parameterized_unitary.py", U + "parameterized_unitary_parameter.py"],
     [("definitions", U + "unitary_definitions.py"), ("parameterised definitions", U + "parameterized_unitary_definitions.py"), ("evaluation", U + "parameterized_unitary.py:as_unitary"), ("validity", U + "parameterized_unitary_parameter.py:is_valid")],
     [], ["UnitaryDefinitions", "ParameterizedUnitaryDefinitions", "ParameterizedUnitary.as_unitary"])

prop("C12", "A RAV sequence is a random prefix followed by its compiled inversion",
     "Randomised verification returns a sequence whose first entries are exactly the requested number of randomly drawn gates and whose remainder is a compilation of the inverse of that prefix with the same primitives, probabilities, append probability, threshold and step limit. Hence the product of the whole sequence is within the threshold of the identity whenever fewer steps than the limit were used, and the last cost is the distance of the whole product from the identity. With a threshold of zero or a step limit of zero, only the random prefix is returned, with an empty cost list.",
     ["inputs", "configurations", "histories"],
     "every system size, primitive set, probabilities, prefix length (including 0), threshold (including none, 0 and 1), append probability, step limit (including 0 and limits that are hit)",
     "one random stream with one configuration per test, never with probabilities, a hit step limit or another append probability; the structure of the sequence is not examined",
     [VER, COMP, SEQ], [("RAV", VER + ":Verification.generate_rav_sequence")], [], ["Verification.generate_rav_sequence"])

prop("C13", "Layered RAV and XEB sequences consist of whole layers",
     "A sequence from layered compilation, layered RAV or XEB generation splits, from its first entry on, into consecutive layers each of which contains every primitive exactly as often as its configured count, all orders of a layer being equally likely and layers being drawn independently. XEB consists of exactly the requested number of layers with an empty cost list; layered RAV starts with exactly that many random layers, the rest compiles their inverse, and the whole product is within the threshold of the identity whenever fewer steps than the limit were used, the last cost being its distance from the identity.",
     ["inputs", "configurations", "histories"],
     "every layer composition (several primitives, counts of 0, 1 and more, restricted qubits), layer count (including 0), threshold, append probability, step limit and history of layer additions, removals and reverts",
     "the test checks that the total length is a multiple of the layer length for one configuration; mixed-up, partial or shifted layers and wrong counts per layer are not seen",
     [VER, COMP], [("layered RAV", VER + ":Verification.generate_layered_rav_sequence"), ("XEB", VER + ":Verification.generate_xeb_sequence"), ("layers", COMP + ":Compiler.create_random_layer"), ("layer edits", COMP + ":Compiler._make_random_change_layered")],
     [], ["Verification.generate_layered_rav_sequence", "Verification.generate_xeb_sequence", "Compiler.compile_layered"])

prop("C14", "Ideal and Trotter sequences evolve every term for the requested time",
     "The ideal sequence has exactly the requested number of entries, all the evolution of the whole Hamiltonian for time/steps, and its product is the evolution for the whole time. A Trotter sequence has one entry per term and step, each the evolution of that term for time/steps on all qubits: in every step each term occurs exactly once, in the given order, or when randomised in an order drawn afresh for every step, all orders being equally likely. Hence every term is evolved for the requested time in total, and for commuting terms the product is the exact evolution.",
     ["inputs", "configurations"],
     "every Hamiltonian (any number of terms, repeated terms, any number of qubits, commuting or not), time (negative, zero, positive), number of steps and randomisation",
     "tests check lengths and a loose overlap for two Hamiltonians, which a wrong order, a duplicated term or a slightly wrong time step can still meet",
     [HAM], [("ideal", HAM + ":get_ideal_sequence"), ("Trotter", HAM + ":get_trotter_sequence"), ("evolution", U + "unitary_definitions.py:time_evolution")], [], ["Hamiltonian.get_ideal_sequence", "Hamiltonian.get_trotter_sequence"])

prop("C15", "QDRIFT samples terms by strength with equal-angle steps",
     "A QDRIFT sequence has exactly the requested number of entries on all qubits, each of which is the evolution of one term scaled to unit spectral norm, for the time (sum of all term strengths) * time / repetitions. The term of each entry is drawn independently with probability proportional to its strength (spectral norm).",
     ["inputs", "configurations"],
     "every Hamiltonian with any strengths and signs, any number of qubits, every time and repetition count, every random stream",
     "tests check the length and a loose overlap in two cases with dominant terms",
     [HAM, TERM], [("QDRIFT", HAM + ":get_qdrift_sequence"), ("normalisation", TERM + ":HamiltonianTerm.__init__")], [], ["Hamiltonian.get_qdrift_sequence"])

prop("C16", "Hamiltonian STOQ and RAV sequences use bounded steps of the terms",
     "Every entry of a Hamiltonian STOQ or RAV sequence is the evolution of a single term (with simultaneous terms allowed: of the sum of any non-empty subset, every subset being available) for a time of magnitude at most the maximum step, on all qubits. A STOQ result that used fewer than 10000 steps is within the threshold of the evolution for the requested time; its last cost is its distance. A RAV result starts with a random part, made of equally likely choices of a term or subset, with step magnitudes uniform up to the maximum step and directions that are forward with probability 0.8, whose step magnitudes add up to at least the requested time and do not reach it before its last entry, and the whole product is within the threshold of the identity when fewer than 10000 steps were used.",
     ["inputs", "configurations", "histories"],
     "every Hamiltonian, time, maximum step, threshold, with and without simultaneous terms, every random stream",
     "tests check closeness of the final product for one Hamiltonian; which terms and times were used is never examined",
     [HAM, COMP], [("primitives", HAM + ":_get_unitary_primitives, _get_term_subsets"), ("STOQ", HAM + ":compile_stoq_sequence"), ("RAV", HAM + ":compile_rav_sequence")], [], ["Hamiltonian.compile_stoq_sequence", "Hamiltonian.compile_rav_sequence"])

prop("C17", "Hamiltonian terms are normalised faithfully and evolve correctly",
     "A term built from a non-zero Hermitian matrix reports that matrix back as coefficient times normalised matrix, with the coefficient positive and equal to the spectral norm. The time evolution of a Hamiltonian is exp(i t H) up to global phase with H the sum of all its terms: the identity at t = 0, additive in t, inverted by -t, and unaffected by later changes to the list of terms it was built from.",
     ["inputs"],
     "all Hermitian matrices of power-of-two size (positive, negative, degenerate, complex), all numbers and orders of terms including repeated ones, all times",
     "tests check one 2x2 term and compare evolutions of multiples of the same term",
     [TERM, HAM, U + "unitary_definitions.py"], [("normalisation", TERM + ":HamiltonianTerm.__init__"), ("evolution", HAM + ":get_time_evolution_operator"), ("exponential", U + "unitary_definitions.py:time_evolution")],
     [("terms", "copied list of terms", HAM)], ["HamiltonianTerm", "Hamiltonian.get_time_evolution_operator"])

prop("C18", "Text output lists every gate, its qubits and parameters in order",
     "The QASM, JAQAL and display output of a sequence is a header line followed by one line per entry in sequence order, naming the gate, the system qubits it is applied to in the order they are applied, as plain integers, and the values of all its parameters in order: in QASM angles as 'pi*' multiples rounded to 7 digits and other parameters as decimals, in JAQAL all as decimals rounded to 7 digits, in display output 'name=value' rounded to 3 (angles, in units of pi) or 4 digits. In the display output an inverted gate carries a dagger, which inverting again removes; a gate that is not part of a sequence lists all its own qubits in QASM and JAQAL.",
     ["inputs", "histories"],
     "every sequence: any gates, placements on non-adjacent or reversed qubits, several parameters of both kinds, any parameter values, sequences from random drawing, compilation and inversion",
     "tests only check that the text is not empty, plus one parameterless gate",
     [UNI, SEQ, ENT], [("gate text", UNI + ":get_qasm, get_jaqal, get_display_name"), ("sequence text", SEQ + ":get_qasm, get_jaqal, get_display_output"), ("qubits and flags of an entry", ENT + ":get_full_unitary")],
     [], ["UnitarySequence.get_qasm", "UnitarySequence.get_jaqal", "UnitarySequence.get_display_output"])

prop("C19", "A seeded compilation is reproducible and independent of earlier ones",
     "With the numpy and Python random generators in the same state, a compilation, RAV, XEB or random Trotter/QDRIFT call returns the same sequence and costs: whether or not the same compiler object has compiled anything before, and whatever larger step limit it was given (a run with a smaller step limit is a prefix of one with a larger limit). No call modifies the target, the primitives, the probabilities, the counts or the Hamiltonian it was given, and later changes to the lists passed to a compiler do not affect it. What a call returned stays as it was when more calls are made, and what the caller does with it does not affect them.",
     ["histories", "inputs", "configurations"],
     "all sequences of compilations on one compiler object (plain and layered, different targets), all seeds and configurations",
     "each test uses a compiler once and never repeats a run",
     [COMP, VER, HAM], [("annealing state", COMP + ":Compiler.beta"), ("copied inputs", COMP + ":Compiler.__init__")],
     [("beta", "inverse temperature of the running compilation", COMP)], ["Compiler.compile", "Compiler.compile_layered", "Verification", "Hamiltonian"])

prop("C20", "Invalid requests are refused and leave everything unchanged",
     "Requests that make no sense raise an error: non-square, non-unitary or wrongly sized matrices; qubit lists with duplicates, negative qubits or the wrong number of qubits for the gate; entries that do not fit the system; combining sequences of different dimensions; targets of a different dimension; primitives larger than the system; non-Hermitian or differently sized Hamiltonian terms; parameter values outside their range, missing or in excess. A refused operation on a sequence leaves its entries, product and undo state exactly as they were.",
     ["inputs", "histories"],
     "every kind of invalid argument at every point of any history of a sequence, on every system size",
     "tests try five kinds of invalid arguments on fresh objects and never look at the object afterwards",
     [UNI, ENT, SEQ, U + "unitary_primitive.py", COMP, HAM, TERM, U + "parameterized_unitary.py"],
     [("entry validation", SEQ + ":_assert_is_entry_valid"), ("unitary validation", UNI + ":Unitary.__init__"), ("placement validation", ENT + ":UnitarySequenceEntry.__init__")],
     [("sequence_entries", "entries", SEQ), ("previous_entries", "undo state", SEQ)], ["constructors and operations raising an exception"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
