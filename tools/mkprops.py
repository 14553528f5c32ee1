#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "GKR completeness: every honest proof is accepted",
  "For every well-formed layered circuit (any gates, wiring, number of layers and widths per layer), every batch of inputs, every power-of-two batch size including 1, every power-of-two split of the batch in chunks and every worker count, the proof produced by the GKR prover from the circuit's own evaluation is accepted by the GKR verifier for these inputs and outputs. This includes the MiMC circuit.",
  ["inputs", "programs", "configurations"],
  "all circuits built from the library's gates (several wires per output, repeated gates, outputs and inputs left unused), inputs, batch sizes 2^bN, chunkings, worker counts",
  "The tests run two hand-written circuits with one instance per chunk and MiMC at one size with two chunks; repeated gates, a right wire index above 0 with several instances, a single chunk, a single instance and mixed widths are never proved.",
  ["gkr/prover.go", "gkr/verifier.go", "sumcheck/par.go", "sumcheck/evals.go", "circuit/layers.go", "polynomial/chunked.go"],
  [("Prover.Prove / Verifier.Verify", "gkr/prover.go, gkr/verifier.go"), ("degree computation from Gate.Degrees", "sumcheck/par.go NewMultiThreadedProver"), ("Gates deduplication and static tables", "circuit/layers.go")],
  ["gkr.Verifier.Verify result on gkr.Prover.Prove output"])

p("C02", "GKR statement soundness: wrong inputs, outputs or circuit are rejected",
  "A proof is only accepted for inputs and outputs such that the outputs are the circuit's evaluation of the inputs: changing any output or any input of any instance (one value or many, in any chunk, permuting instances, chunks or outputs), or verifying against another circuit or batch size, makes the verifier reject. No position of the input or output tables is left unchecked.",
  ["inputs", "programs", "configurations"],
  "all circuits, input batches, chunkings, and all alterations of the public inputs, of the outputs, of the circuit",
  "No test ever presents a false statement to a verifier: every call of Verify in the suite expects true.",
  ["gkr/verifier.go", "gkr/prover.go", "polynomial/chunked.go", "polynomial/book_keeping.go"],
  [("initial claim from the outputs at the initial point", "gkr/verifier.go Verify"), ("final check of the claims against the inputs", "gkr/verifier.go Verify"), ("initial evaluation point", "gkr/prover.go GetInitialQPrimeAndQ")],
  ["gkr.Verifier.Verify result"])

p("C03", "GKR proof soundness: a proof is accepted exactly if every protocol check passes",
  "A proof is rejected as soon as one check of the protocol fails, whichever it is and by whatever difference: the sum check of any round of any layer, the match between a layer's final sumcheck claim and the value computed from its claimed left and right evaluations, the wiring tables and the equality polynomial, or the match of the last left or right claim with the inputs. This holds even if a cheating prover built the proof so that all the other checks pass. Conversely a proof of the prescribed shape that passes all the checks is accepted, however it was built.",
  ["inputs", "programs", "fault_sequences"],
  "all circuits, all proofs (honest ones with altered values, and proofs simulated by an adaptive cheating prover), every check site and every difference",
  "No test presents an invalid proof. Random corruption also cannot isolate a check: corrupting a value makes many later checks fail, so the removal of one of them goes unnoticed.",
  ["gkr/verifier.go", "sumcheck/verifier.go", "circuit/gates.go", "polynomial/eq.go", "circuit/layers.go"],
  [("round check P(0)+P(1)", "sumcheck/verifier.go"), ("layer claim check", "gkr/verifier.go"), ("final input check, left and right", "gkr/verifier.go"), ("challenges derived from the proof", "common/challenge.go")],
  ["gkr.Verifier.Verify result"])

p("C04", "Malformed proofs are rejected without crashing",
  "Whatever the shape of a proof (missing or extra layers, rounds, claims or coefficients, empty or nil polynomials, the proof of another circuit or batch size), the GKR verifier and the sumcheck verifier return a verdict and never panic or hang; a proof whose number of layers, rounds or claims is not the one prescribed by the circuit is rejected.",
  ["inputs", "fault_sequences"],
  "all proof objects, well-shaped or not, for all circuits and batch sizes",
  "Verifiers are only ever called on proofs just produced by the prover, so their shape never varies.",
  ["gkr/verifier.go", "sumcheck/verifier.go"],
  [("shape checks before the protocol", "gkr/verifier.go hasExpectedShape"), ("round count and empty polynomial checks", "sumcheck/verifier.go Verify")],
  ["gkr.Verifier.Verify and sumcheck.Verifier.Verify results"])

p("C05", "Circuit assignment equals gate-by-gate evaluation of each instance",
  "For every layered circuit and input batch, the assignment's value for each layer, wire output and instance is the sum over the wires with that output of their gate applied to the values of their left and right inputs in the previous layer for the same instance (0 if there is no such wire). This holds for every chunking and worker count, layer 0 is the inputs, the inputs are not modified, and a layer's input/output sizes and list of distinct gates are those determined by its wires.",
  ["inputs", "programs", "configurations"],
  "all wirings (several wires into one output, gaps, repeated gates, L = R), inputs, chunkings, batch sizes, worker counts",
  "The circuit package has no tests; others assign two tiny circuits with one instance per chunk, and MiMC whose wires have R = 0 only, comparing one instance.",
  ["circuit/circuit.go", "circuit/layers.go"],
  [("Circuit.Assign", "circuit/circuit.go"), ("Layer.Evaluate indexing and accumulation", "circuit/layers.go"), ("BGInputs, BGOutputs, Gates", "circuit/layers.go")],
  ["Assignment.Values, Layer fields, tables returned by LayerAsBKT*"])

p("C06", "The MiMC circuit computes MiMC for every instance of a batch",
  "For every batch of (state + block, block) input pairs, each output of the example MiMC circuit is the MiMC permutation of the state keyed by the block, plus the block, so that chaining it with the addition of the previous state gives exactly the native MiMC hash of each message, whatever the length of the message, the position in the batch and the chunking.",
  ["inputs", "histories", "configurations"],
  "all messages (of any number of blocks), batches of messages, chunkings and worker counts",
  "One test compares instance 0 of one random batch with the permutation; no other instance and no multi-block message.",
  ["examples/mimc.go", "hash/mimc.go", "circuit/gates.go", "circuit/layers.go"],
  [("CreateMimcCircuit: 91 cipher layers with the round constants", "examples/mimc.go"), ("MimcHash, MimcPermutationInPlace", "hash/mimc.go")],
  ["last layer of the assignment versus hash.MimcHash"])

p("C07", "Hash functions compute their definition on every message",
  "MimcHash, the Poseidon hashers (t = 2, 4, 8) and the GMiMC hashers (t = 2, 4, 8) return, for every message of any length including the empty one, the Miyaguchi-Preneel chaining over zero-padded blocks of their permutation, with the pinned round constants, S-box x^7, number of rounds and Cauchy matrix. The result depends on every element of the message, is deterministic, and neither the message nor the parameters are modified; the update functions leave the new state in the state given by the caller.",
  ["inputs"],
  "all messages over the field, of all lengths, and all states and blocks for the update functions",
  "The only test calls each hasher on 100 zeroes and checks nothing about the result.",
  ["hash/mimc.go", "hash/poseidon.go", "hash/gmimc.go", "hash/ark.go", "hash/hash.go", "common/challenge.go"],
  [("MimcUpdateInplace", "hash/mimc.go"), ("PoseidonHasher.Update, MDS matrix", "hash/poseidon.go"), ("GMimcHasher.UpdateInplace", "hash/gmimc.go"), ("round constants", "hash/ark.go")],
  ["return values; the state slices given by the caller"])

p("C08", "Gates: all evaluation forms agree and respect the declared degrees",
  "For each gate, and for all values, single evaluation, batch evaluation over many left values, batch evaluation over many right values and evaluation inside a SNARK constraint system compute the gate's function (sum, product, copy of the left value, left + (right + constant)^7). Seen as a polynomial of the left values, of the right values, or of both together, its degree is at most the degree the gate declares, inputs are not modified, and two gates have the same ID exactly if they compute the same function.",
  ["inputs", "programs"],
  "all gates, all field values, all batch lengths, all round constants, combinations of gates with weights",
  "Gates have no tests of their own; the batch forms are only reached through a few sumcheck runs.",
  ["circuit/gates.go", "snark/gkr/gate.go"],
  [("Eval, EvalManyVL, EvalManyVR, GnarkEval, Degrees, ID", "circuit/gates.go"), ("EvaluateCombinator", "circuit/gates.go"), ("CipherGate, CopyGate", "snark/gkr/gate.go")],
  ["values computed; satisfiability of the constraint system"])

p("C09", "Sumcheck prover: round polynomials and final claims are the true ones",
  "For all tables (left values, right values, equality table, one wiring table per gate) and all gates, the claim is the sum over the hypercube of eq * sum_g wiring_g * gate_g(left, right), the polynomial sent in each round is exactly the partial sum of that expression with the earlier variables fixed to the earlier challenges, and the final claims are the multilinear extensions of the tables at the challenges, in the documented order (left, right, eq, wiring tables in the order given). Variables are consumed in the order left, right, instance.",
  ["inputs", "programs"],
  "all table contents (dense or sparse), all sizes 2^bN, 2^bG including bN = 0 or bG = 0, all sets of gates",
  "Two tiny cases with the add gate and ramp tables are compared with hand-computed values; nothing checks the round polynomials for products, the cipher gate, sparse or dense random wiring tables, or several variables per side.",
  ["sumcheck/evals.go", "sumcheck/prover.go", "sumcheck/par.go", "polynomial/lagrange.go"],
  [("GetClaim, GetEvalsOnHL, GetEvalsOnHR, GetEvalsOnHPrime (with zero skipping)", "sumcheck/evals.go"), ("FoldHL, FoldHR, FoldHPrime", "sumcheck/prover.go")],
  ["sumcheck.Proof, challenges and final claims returned by Prove; GetClaim; GetEvalsOn*"])

p("C10", "Sumcheck verifier accepts exactly the consistent round polynomials",
  "For every claim and every list of non-empty polynomials (with at least the rounds needed), the sumcheck verifier accepts if and only if each polynomial summed over 0 and 1 equals the current claim, the current claim being the previous polynomial evaluated at the challenge hashed from its coefficients. On acceptance it returns the challenges split in right order between the left, right and instance parts, and the last evaluation as final claim.",
  ["inputs", "fault_sequences"],
  "all claims and proofs: honest, corrupted in one value by any difference, and consistent proofs not produced by the prover; all splits",
  "Tests only verify honest proofs and ignore or lightly compare the returned challenges.",
  ["sumcheck/verifier.go", "common/challenge.go", "polynomial/lagrange.go"],
  [("round loop of Verify", "sumcheck/verifier.go"), ("EvaluatePolynomial", "polynomial/lagrange.go"), ("GetChallenge", "common/challenge.go")],
  ["the five values returned by sumcheck.Verifier.Verify"])

p("C11", "Parallel proving: result independent of chunks, workers and schedule",
  "For every split in chunks, worker count (including one, more than chunks, and fewer than chunks) and goroutine schedule, the multi-threaded sumcheck prover terminates without deadlock, data race or leaked worker, and its claim, proof, challenges and final claims are identical to the single-threaded prover's on the unsplit tables. Likewise the evaluation of circuits and whole GKR proofs do not depend on the worker count or schedule.",
  ["schedules", "configurations", "inputs"],
  "all interleavings of the chunk workers, chunk counts dividing the batch, worker counts >= 1, GOMAXPROCS",
  "One test compares the two provers on one instance, with worker count 1 for the proof, under whatever schedule happens.",
  ["sumcheck/par.go", "common/semaphore.go", "circuit/layers.go", "circuit/circuit.go", "gkr/prover.go"],
  [("RunForChunk, Broadcast, ConsumeAccumulate, ConsumeMergeProvers", "sumcheck/par.go"), ("semaphore release while waiting for a challenge", "sumcheck/par.go"), ("deep copy of the wiring tables per worker", "sumcheck/par.go")],
  ["results of Prove and GetClaim; Go's deadlock and race detectors; goroutines left"])

p("C12", "Book-keeping tables behave as multilinear polynomials",
  "For every table of 2^n values and all points, folding fixes the first variable of the multilinear extension, evaluating gives its value at the point, the left/right evaluation gives the values at (left, common) and (right, common), and linear combination, addition, subtraction and multiplication by a scalar act entry-wise, whatever the size (including tables large enough to be processed in parallel), the worker count, and the previous content, capacity of the destination, which may be an operand. Evaluation, deep copies, additions, subtractions and multiplications (unless the destination is an operand) never modify the tables they come from and their results share no memory with them, and tables of different sizes are refused.",
  ["inputs", "histories", "configurations"],
  "all tables and points, sequences of operations, sizes below and above the parallel threshold, worker counts",
  "Tests fold and evaluate a few fixed tables of up to 16 entries; the element-wise operations on large tables and the aliasing rules are untested.",
  ["polynomial/book_keeping.go", "common/chunks.go"],
  [("Fold, Evaluate, EvaluateLeftAndRight, DeepCopy", "polynomial/book_keeping.go"), ("Add, Sub, Mul, LinearCombinationOfBookKeepingTables, FunctionEvals, InterleavedChunk", "polynomial/book_keeping.go")],
  ["tables and values returned; original tables afterwards"])

p("C13", "Chunked evaluation equals evaluation of the unsplit table",
  "For every table split in an interleaved way in any power-of-two number of chunks (one included), and all points, the chunked evaluation equals the evaluation of the unsplit table, and the mixed chunked evaluation equals its left/right evaluation; the chunked equality table is the interleaved split of the equality table for every worker count. The chunks are not modified.",
  ["inputs", "configurations"],
  "all tables, points, numbers of chunks from 1 to the number of instances, sizes of the common part, worker counts, table sizes above the parallel threshold",
  "Tests use a few fixed sizes, equality tables only, and never a single chunk.",
  ["polynomial/chunked.go", "polynomial/eq.go", "polynomial/book_keeping.go"],
  [("EvaluateChunked, EvaluateMixedChunked", "polynomial/chunked.go"), ("GetChunkedEqTable", "polynomial/eq.go"), ("InterleavedChunk", "polynomial/book_keeping.go")],
  ["values returned; chunk tables afterwards"])

p("C14", "Equality polynomial: table, product form and extension agree",
  "For all points q and h of the same dimension (including 0), the product form returns prod (q_i h_i + (1-q_i)(1-h_i)), the folded table's entry at each Boolean vector b is eq(q, b) with the first coordinate as most significant bit, and the table's multilinear extension at h is eq(q, h); on Boolean points it is 1 if they are equal and 0 otherwise.",
  ["inputs"],
  "all pairs of points of all dimensions",
  "One table of dimension 4 at one point is compared with a formula.",
  ["polynomial/eq.go"],
  [("EvalEq, GetFoldedEqTable", "polynomial/eq.go")],
  ["values returned"])

p("C15", "Univariate interpolation and evaluation are exact inverses",
  "For all values at 0..n-1 (n up to the supported 12), interpolation returns the n coefficients of the only polynomial of degree below n with these values, Lagrange polynomials of every domain are 1 at their own point and 0 at the others, and polynomial evaluation returns sum c_i x^i for every polynomial and point. Precomputed Lagrange tables are never altered by use.",
  ["inputs", "histories"],
  "all value vectors, polynomials, points and domain sizes; sequences of calls",
  "One test checks the Lagrange polynomial of one index for one domain size.",
  ["polynomial/lagrange.go"],
  [("LagrangeCoefficient, GetLagrangePolynomial, InterpolateOnRange, EvaluatePolynomial", "polynomial/lagrange.go")],
  ["coefficients and values returned"])

p("C16", "Layer claims: prover's sumcheck instances encode the layer relation",
  "For every circuit, assignment, layer and points (Boolean or not), the wiring tables returned for a point are the multilinear extensions of the wiring of each distinct gate, folded at that point, and the sumcheck instances the GKR prover builds claim exactly the multilinear extension of the next layer's values at the output point (last layer), or the linear combination of its two evaluations (other layers). The left and right claims in the proof are the extension of the layer's values at the points derived from the proof.",
  ["inputs", "programs", "configurations"],
  "all circuits, layers, assignment values, points, combination coefficients, chunkings",
  "One test checks MiMC's first and last layers, at Boolean points only.",
  ["gkr/prover.go", "circuit/layers.go", "polynomial/book_keeping.go"],
  [("GetStaticTable", "circuit/layers.go"), ("InitialRoundSumcheckProver, IntermediateRoundsSumcheckProver", "gkr/prover.go"), ("claims in Prove", "gkr/prover.go")],
  ["tables returned; GetClaim of the provers; claims in gkr.Proof"])

p("C17", "Circuits, assignments, proofs are unchanged by use; results are repeatable",
  "Assigning, proving and verifying never modify the circuit, the inputs, the assignment, the outputs or the proof, and any sequence or concurrent combination of these operations on shared objects gives for each operation the result it gives on fresh objects: proving twice gives the same proof, verifying does not depend on earlier verifications, copies of a layer are independent of the assignment.",
  ["histories", "schedules", "inputs"],
  "all sequences (and concurrent combinations) of assign, prove, verify, verify-tampered, sumcheck-instance and table-copy operations on shared objects",
  "Each test does one assignment, one proof and one verification, and never compares objects before and after.",
  ["gkr/prover.go", "gkr/verifier.go", "circuit/circuit.go", "polynomial/book_keeping.go", "polynomial/chunked.go", "sumcheck/par.go"],
  [("LayerAsBKTWithCopy before in-place folding", "circuit/circuit.go"), ("DeepCopy before evaluation", "polynomial/book_keeping.go"), ("copies of the challenge slices", "sumcheck/verifier.go")],
  ["results of each operation; deep comparison of the shared objects with snapshots"])

p("C18", "SNARK GKR verifier is satisfied exactly by valid proofs",
  "The in-circuit verifier, for the MiMC circuit and for any other layered circuit described to it (with any number of layers), is satisfied by every honest proof of a correct batch, for every batch size and chunking, and is unsatisfiable for a wrong output, a wrong input or a proof failing any single check (a round's sum, a layer's combination of claims, the final left or right claim), even if all the other checks pass. The SNARK description of the MiMC circuit encodes the same gates, wiring and proof shape as the native one.",
  ["inputs", "configurations", "fault_sequences"],
  "all circuits, batches, batch sizes, chunkings; all false statements and all proofs failing one check at any layer and round",
  "One honest proof for batch size 4 and one chunk is tested; nothing shows that any constraint rejects anything.",
  ["snark/gkr/proof.go", "snark/gkr/circuit.go", "snark/gkr/mimc.go", "snark/gkr/gate.go", "snark/sumcheck/sumcheck.go", "snark/polynomial/multilinear.go"],
  [("Proof.AssertValid", "snark/gkr/proof.go"), ("Layer.Combine, CombineWithLinearComb", "snark/gkr/circuit.go"), ("static tables", "snark/gkr/mimc.go"), ("Allocate/Assign", "snark/gkr/proof.go")],
  ["satisfiability (R1CS.IsSolved) of the compiled circuit"])

p("C19", "SNARK hash and polynomial gadgets equal their native counterparts",
  "For all shapes and inputs, the MiMC hash, equality polynomial, multilinear evaluation (plain and mixed, from chunked values) and univariate evaluation gadgets are satisfied by exactly one result, the value given by the native function. Evaluating does not alter the polynomial object, so it can be evaluated again.",
  ["inputs", "configurations"],
  "all inputs and shapes (message lengths, dimensions, degrees, numbers of chunks), wrong results differing by any amount",
  "One satisfying witness per gadget and shape; never a wrong result, the mixed evaluation is untested.",
  ["snark/hash/mimc.go", "snark/polynomial/eq.go", "snark/polynomial/multilinear.go", "snark/polynomial/univariate.go"],
  [("MimcHash", "snark/hash/mimc.go"), ("EqEval", "snark/polynomial/eq.go"), ("Eval, EvalMixed, Fold, AssignFromChunkedBKT", "snark/polynomial/multilinear.go"), ("Eval, ZeroAndOne", "snark/polynomial/univariate.go")],
  ["satisfiability (R1CS.IsSolved) of small circuits built around the gadgets"])

p("C20", "SNARK sumcheck verifier equals the native sumcheck verifier",
  "For all numbers of rounds, degrees and proofs, the in-circuit sumcheck verifier is satisfied if and only if the native one accepts the same claim and proof, and its left, right and instance challenges and its last claim are those of the native verifier; a proof of another shape than the allocated one is refused at assignment.",
  ["inputs", "configurations", "fault_sequences"],
  "all shapes, claims and proofs, corrupted in one round by any difference",
  "One honest proof for one shape; the last claim and rejection are untested.",
  ["snark/sumcheck/sumcheck.go", "sumcheck/verifier.go", "snark/polynomial/univariate.go", "snark/hash/mimc.go"],
  [("Proof.AssertValid, AllocateProof, Assign", "snark/sumcheck/sumcheck.go")],
  ["satisfiability (R1CS.IsSolved), values compared with sumcheck.Verifier.Verify"])

p("C21", "Work splitting and worker limits are respected",
  "For every number of items that fit in memory and every number of workers, the chunk ranges are consecutive, disjoint and cover exactly all the items, and only the last may be smaller than the minimum size. The semaphore never lets more than its capacity hold it at once and always lets that many, and at no time are more gate evaluations in progress than the requested number of workers; the logarithm helpers return the exact floor and ceiling.",
  ["inputs", "schedules", "configurations"],
  "all item and worker counts; all interleavings of acquire and release; evaluation and proving runs with any worker count",
  "Only the logarithms of 1..9 are tested.",
  ["common/chunks.go", "common/semaphore.go", "common/math.go", "circuit/layers.go", "sumcheck/par.go"],
  [("IntoChunkRanges", "common/chunks.go"), ("Semaphore", "common/semaphore.go"), ("Log2Floor, Log2Ceil, Min, Max", "common/math.go")],
  ["ranges and values returned; number of concurrent holders and gate evaluations"])

p("C22", "Conversions, printing and settings helpers are faithful",
  "Printing a field element (or a list of elements or integers) in its short, possibly negative, form denotes exactly that element; conversions to generic values and from integers keep every value and the order; random arrays have the requested shape with valid, non-repeating elements. A setting read from the environment is exactly the integer that was set, and reading an unset or malformed one panics instead of returning a number. The profiling helper runs the measured function exactly once, with the benchmark's timer running, whether or not it is traced or profiled, writes the records asked for and no other, and leaves timer, trace and profile stopped, even if the function panics.",
  ["inputs", "configurations"],
  "all field elements, slices, integers, environment values; all sequences of measured functions",
  "None of these helpers is tested.",
  ["common/common.go", "common/env.go", "common/profiling.go"],
  [("ProfileTrace", "common/profiling.go"), ("PrettyStringFr, FrSliceToString, FrToGenericArray, Uint64ToFr, RandomFrArray", "common/common.go"), ("GetBN, GetNChunks, GetNProcesses, GetProfiled, GetTraced", "common/env.go")],
  ["strings and values returned"])

p("C23", "Costs: short proofs, succinct verification, linear proving",
  "For every circuit, when the number N of instances of a batch grows, with any chunking and worker count: the proof has, for each layer, log N + 2 log(inputs) round polynomials, each with at most two coefficients more than the degree the layer's gates declare for that variable; evaluating the circuit evaluates gates a number of times proportional to wires times N; proving makes a number of gate evaluations, and allocates memory, at most proportional to N (doubling N at most doubles them, up to a part that depends on log N and the circuit only); verifying evaluates each distinct gate of each layer a small number of times that does not depend on N. Inside a SNARK, each additional MiMC hash of a batch costs 3 constraints (as the README says), doubling the batch adding otherwise a constant number of constraints, and each gadget costs a number of constraints proportional to the size of its arguments.",
  ["inputs", "programs", "configurations"],
  "all circuits, batch sizes, chunkings, worker counts; all sizes of the gadgets",
  "Tests only look at results: a prover that stops folding its tables, a verifier that re-evaluates the batch or a gadget that repeats work gives the same results.",
  ["gkr/prover.go", "gkr/verifier.go", "sumcheck/evals.go", "sumcheck/par.go", "sumcheck/prover.go", "circuit/layers.go", "snark/gkr/proof.go", "snark/polynomial/multilinear.go", "snark/hash/mimc.go", "README.md"],
  [("folding of the tables after each round", "sumcheck/prover.go"), ("zero skipping on sparse wiring tables", "sumcheck/evals.go"), ("distinct gates of a layer", "circuit/layers.go Gates"), ("evaluation of inputs and outputs", "snark/gkr/proof.go AssertValid")],
  ["evaluations counted by gates given by the harness; sizes of gkr.Proof; runtime.MemStats; number of constraints of compiled circuits"])

p("C24", "Repeated use retains no memory and no goroutine",
  "Every operation of the library (making circuits, assigning, proving, verifying valid, invalid or malformed proofs, operations on tables and polynomials, hashing, conversions, compiling gadgets) can be repeated any number of times, with other data each time, on shared or on new objects, by a long-running process: once the results are dropped, neither memory allocated by the library nor goroutines remain from the earlier repetitions.",
  ["inputs", "histories", "configurations"],
  "all histories of operations, of any length, on shared or new circuits, provers, verifiers, tables",
  "Results are right and each test ends soon: what accumulates in a cache, a registry or a blocked goroutine is not visible.",
  ["gkr/prover.go", "gkr/verifier.go", "circuit/circuit.go", "circuit/layers.go", "sumcheck/par.go", "polynomial/book_keeping.go", "polynomial/eq.go", "polynomial/lagrange.go", "hash/poseidon.go", "hash/gmimc.go", "common/semaphore.go"],
  [("tables made for each point", "polynomial/eq.go GetFoldedEqTable, circuit/layers.go GetStaticTable"), ("workers and channels of a proof", "sumcheck/par.go Prove"), ("semaphores", "common/semaphore.go"), ("precomputed tables", "polynomial/lagrange.go")],
  ["live heap by allocating function (runtime.MemProfile with every allocation recorded, after garbage collection), runtime.NumGoroutine"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P), "properties")
