CLAIMED = {
 "P01": {"note": "gkr.Verifier.Verify accepts exactly when the dimensions fit, every layer's sumcheck and final claim hold and the input claims hold, for circuits of any number of layers, gates, chunks and variables; with the contracts of the functions it calls (table evaluation, eq, static tables, combinator, sumcheck verifier), each a separate obligation of this property."},
 "P02": {"note": "gadget GKR verifier: with every witness value symbolic, the conjunction of the emitted assertions is equivalent to the conditions of the specification, for any number of layers, chunks and variables; the gadgets it is built from are separate obligations. gnark's own Add/Mul/Select/AssertIsEqual are taken to mean what they document."},
 "P03": {"note": "sumcheck.Verifier.Verify and the gadget accept exactly when every round polynomial sums to the running claim and return the challenges in order, for any number of rounds and any degrees."},
 "P04": {"note": "The single-threaded provers (sumcheck, GKR) against the specification of the protocol used for the verifiers: same hashes of the same values in the same order, same claims handed down, same split of the challenges. Acceptance of an honest proof follows from these by the algebra of sumcheck (DESIGN.md); that last argument is not mechanised. The multi-threaded prover is P22."},
 "P05": {"note": "Which values each challenge hashes, and in which order, for prover, verifier and gadget. The constant first evaluation point is a known finding (it does not bind the statement). The quality of the hash is not covered."},
 "P09": {"note": "MiMC, GMiMC and Poseidon: block splitting and padding for messages of any length, rounds, constants, keys, feed-forward and mixing for the three sizes t = 2, 4, 8; the entries of the mixing matrix are symbolic."},
 "P10": {"note": "Assignment, evaluation, table operations, hashing, verification: after the call the arguments have the content they had before; copies handed to the sumcheck provers share no memory with the assignment. The static tables' owners and the multi-threaded prover's own tables are consumed by design."},
 "P06": {"note": "All gates of circuit/gates.go and EvaluateCombinator, all field values, all lengths; gates that differ have different identifiers. Not covered: gates defined outside the package; arithmetic of gurvy's field elements and of gnark's constraint system is taken as exact."},
 "P07": {"note": "For each gate of circuit/gates.go the finite difference of order degree+1 is identically zero (left, right, both); the provers evaluate at degree+2 points; the gadget allocates the same; the interpolation tables exist for these counts. Gates defined outside the package are not covered."},
 "P08": {"note": "S-box, MimcUpdateInplace, MimcHash, the MiMC gadget, the cipher gate and the layers built by examples/mimc.go against the definition, all messages of any length, constants symbolic."},
 "P15": {"note": "Fold, evaluation, two-sided evaluation, interleaving, arithmetic and copies of native tables, chunked evaluation, and the gadget's tables, for all sizes."},
 "P16": {"note": "EvalEq, the prefolded table, its chunked form and the gadget, all lengths. Goroutines are read in program order; that no interleaving differs is P11-P13."},
 "P17": {"note": "EvaluatePolynomial, LagrangeCoefficient, the precomputed tables, InterpolateOnRange and the univariate gadgets, all sizes. That the Lagrange polynomials of the specification interpolate is textbook algebra and not re-proved."},
 "P18": {"note": "Layer.Evaluate, Assign, the static tables, NewLayer, NewCircuit and the gate list, for any wires (duplicates included), gates and instances. Goroutines read in program order; that no interleaving differs is P11-P13."},
 "P19": {"note": "Proofs and statements whose dimensions do not fit are rejected by both native verifiers, for all values, and no index goes out of range on the way. Not covered: a round-polynomial list longer than needed given to the standalone sumcheck verifier, which a test of the repository relies on."},
 "P20": {"note": "GetClaim and the round evaluations in each of the three phases, including the zero-skipping conditions, against the plain sums, for all sizes, gates and tables; single-threaded prover's use of them."},
 "P23": {"note": "Allocation and assignment of the proof, sumcheck, univariate and multilinear gadgets, all sizes."},
 "P24": {"note": "The layer descriptions built in snark/gkr (gates, constants, sizes, static tables evaluations) against the native wiring of examples/mimc.go, number of rounds symbolic."},
 "P22": {"note": "Six steps, each an obligation for all sizes, chunk counts and tables: what a chunk sends and folds (Chunk); that the sums of the evaluations and claims of the chunks are those of the whole in every phase, and that folding commutes with chunking (Split*); the exchange of a round (Accumulate, Broadcast); and the prover's protocol on arbitrary messages, the last ones arriving in an arbitrary order (Threads), the claim (Claims). Goroutines are analysed one at a time: that no other interleaving differs rests on the rules of P11-P13; the induction over the rounds is in DESIGN.md."},
 "P14": {"note": "Min, Max, logarithms and integer conversions for all arguments in their domain; IntoChunkRanges for all positive numbers of cores and all sizes, whatever the chunk size policy: the ranges are non empty, consecutive and cover 0..n-1. Machine integers are taken as unbounded."},
 "P25": {"note": "Table addition and subtraction, gadget assignment and the chunked evaluation always panic on sizes that do not match."},
 "P11": {"note": "Every goroutine started by the library (7 go statements: table subtraction and scaling, layer evaluation, layer copy, claim chunks, prover chunks, broadcast) for all sizes, cores and chunk counts: no pair of accesses of two unordered goroutines (or a goroutine and its parent before the join) touches the same element with one of them writing. Ordering by WaitGroup, channel send/receive and go statements; ownership transferred through channels. Nested go statements and locks other than the semaphore are reported as undecided. The field package and append's spare capacity are trusted."},
 "P12": {"note": "Semaphore permits, WaitGroup counts, channel histories (as many sends as receives, nothing after close, capacities) of the same goroutines, for all core and chunk counts. The composition of the prover's main goroutine with its chunks is by protocol: each side is checked against the other's declared exchange (threadspec.aChunk). Scheduling fairness is assumed; time is not covered."},
 "P13": {"note": "The results of the parallel sections are computed with the number of cores symbolic and arrival orders arbitrary, and equal a definition that mentions neither; absence of races (P11's rule) extends this to all interleavings; and a scan of everything reachable from the library's interface for randomness, clocks, environment, selects and map iterations whose order matters."},
 "P21": {"note": "Whole-program points-to analysis: nothing that runs after package initialisation writes memory reachable from a package variable; initialisation uses no variable before it is complete; plus the contents of the Lagrange tables, the hasher parameters (91 MiMC rounds, the Poseidon and GMiMC sizes and rounds, at least as many constants as rounds) and one distinct constant per round. Memory handed out to callers (hash.Arks is exported, GetLagrangePolynomial returns the table) can be written by the caller: not covered."},
 "P29": {"note": "All index, slice, size, divisor and shift obligations met while the other properties' obligations are evaluated (about 6,500 sites and contexts), plus reachable panics, each under the documented sizes. Machine-integer overflow, nil dereference and exhaustion of memory are not covered; parallel sections are covered in program order."},
}
SOON = "not claimed yet: the obligations for this property are being built"
class _D(dict):
    def __missing__(self, k): return SOON
NOT = _D({
 "P26": "computational soundness quantifies over all efficient provers and the probability of hash outputs; no static argument over the source decides it",
 "P27": "collision resistance is a statement about the cost of all algorithms, not about the source",
 "P28": "running time on a given machine; wall-clock speed-up is not a fact the source determines",
})
