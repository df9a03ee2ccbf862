#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (development helper; not run by any check).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("P01","The GKR verifier accepts only if every check of every layer holds",
 "The native GKR verifier returns true only if, for every layer, the sumcheck transcript is valid for the claim derived from the layer above, its final value equals eq times the sum over gates of the static table evaluation times the gate applied to that layer's two claims, and the claims of the first layer equal the evaluations of the given inputs at the last sumcheck point. If any one of these equalities fails, it returns false.",
 ["inputs","programs"],"every circuit, number of layers and instances, every proof (honest or not), inputs and outputs",
 "The tests only feed honest proofs of two tiny circuits to the verifier, so a dropped, weakened or short-circuited check changes no test result; soundness quantifies over every dishonest proof.",
 ["gkr/verifier.go","circuit/gates.go","polynomial/eq.go","polynomial/chunked.go"],
 [("the chain of checks","gkr/verifier.go:Verifier.Verify"),("combinator","circuit/gates.go:EvaluateCombinator"),("static tables at the sumcheck point","gkr/verifier.go:evaluateStaticTables, evaluateStaticTablesLinCombs")],
 ["return value of gkr.Verifier.Verify"])
p("P02","The verifier gadget constrains every check of every layer",
 "Whatever the witness, the constraints emitted by the GKR verifier gadget contain, for every layer, the sumcheck constraints for the claim derived from the layer above, the equality between the final sumcheck value and the layer's combinator, and, for the first layer, the equality of both claims with the evaluations of the input table. A witness violating any of these checks does not satisfy the circuit.",
 ["inputs","programs"],"every witness (proof, inputs, outputs, initial point) and every number of instances",
 "The test only solves the circuit for one honest witness; a missing constraint is invisible unless a dishonest witness is tried, and there are too many of them.",
 ["snark/gkr/proof.go","snark/gkr/circuit.go","snark/sumcheck/sumcheck.go"],
 [("constraints","snark/gkr/proof.go:Proof.AssertValid"),("combinators","snark/gkr/circuit.go:Layer.Combine, Layer.CombineWithLinearComb")],
 ["constraint system built by AssertValid"])
p("P03","Every sumcheck round is checked against the running claim",
 "The sumcheck verifier, native and gadget, accepts only if in every round the round polynomial satisfies p(0)+p(1) = current claim, where the first claim is the given one and each next claim is the round polynomial evaluated at that round's challenge. On acceptance it returns exactly the challenges of the rounds, split in order into hL, hR and h', and the last claim.",
 ["inputs"],"every claim, every number of rounds, every round polynomial of every degree",
 "Tests run a handful of honest transcripts; a verifier skipping a round, or checking it against the wrong claim, accepts those as well.",
 ["sumcheck/verifier.go","snark/sumcheck/sumcheck.go","polynomial/lagrange.go","snark/polynomial/univariate.go"],
 [("round loop","sumcheck/verifier.go:Verifier.Verify"),("round constraints","snark/sumcheck/sumcheck.go:Proof.AssertValid"),("p(0)+p(1) and p(r)","snark/polynomial/univariate.go:Univariate")])
p("P04","Prover, verifier and gadget derive the same challenges and claims",
 "For equal proofs, the provers, the native verifiers and the verifier gadgets derive the same round challenges, the same layer-combination challenge, the same claim for the next layer and the same starting point, in the same variable order. In particular a proof made by the honest prover for a correct assignment is accepted by both verifiers.",
 ["inputs","programs","configurations"],"every circuit, instance count, chunk count, core count and assignment",
 "The tests cover one or two circuits with power-of-two sizes and fixed inputs; agreement must hold for every circuit, layer count, and split of the tables.",
 ["sumcheck/prover.go","sumcheck/par.go","sumcheck/verifier.go","gkr/prover.go","gkr/verifier.go","snark/gkr/proof.go","snark/sumcheck/sumcheck.go","common/challenge.go"],
 [("round challenge","common/challenge.go:GetChallenge"),("layer combination","gkr/prover.go:Prover.Prove, gkr/verifier.go:Verifier.Verify, snark/gkr/proof.go:Proof.AssertValid")])
p("P05","Challenges bind the prover messages they must bind",
 "Each sumcheck challenge is the hash of every coefficient of the round polynomial, in order, and each layer-combination challenge is the hash of both claims of the layer above. No challenge can be predicted before the message it challenges is fixed, which includes the statement (inputs and outputs) for the initial evaluation point.",
 ["inputs","histories"],"every proof transcript",
 "An unbound challenge never makes an honest proof fail; only a dishonest prover exploits it.",
 ["common/challenge.go","hash/mimc.go","gkr/prover.go","sumcheck/verifier.go","snark/sumcheck/sumcheck.go"],
 [("Fiat-Shamir hashing","common/challenge.go:GetChallenge"),("initial randomness","gkr/prover.go:GetInitialQPrimeAndQ")])
p("P06","All evaluation forms of a gate compute the same function",
 "For each gate, evaluating one pair, evaluating many left values against one right value, evaluating many right values against one left value, and building the gate inside a constraint system all compute the same function of (left, right), for all field values, with results stored at the matching positions and without altering the operands. Two gates have the same identifier only if they compute the same function.",
 ["inputs"],"all field elements, all lengths, including results aliasing an operand in the single-pair form only where the gates allow it",
 "Tests exercise the batch forms on a few small integers in two gates; equality is over all field elements.",
 ["circuit/gates.go","snark/gkr/gate.go"],
 [("gate implementations","circuit/gates.go:AddGate, MulGate, CopyGate, CipherGate"),("gadget gates","snark/gkr/gate.go")])
p("P07","Declared degrees and evaluation counts cover the round polynomials",
 "In every sumcheck phase the prover evaluates the round polynomial at strictly more points than its true degree in the folded variable, where the degree comes from the gate's real degree in the left value, the right value, or both, plus one for the static table or eq factor. The gadget allocates exactly as many coefficients per round, and the interpolation tables cover every such count.",
 ["inputs","programs"],"every gate, every circuit mixing gates, every phase",
 "Tests would notice only for the gates and circuits they use; under-declared degrees make valid instances unprovable and over-declared ones lose soundness for other circuits.",
 ["circuit/gates.go","sumcheck/prover.go","sumcheck/par.go","sumcheck/evals.go","snark/gkr/mimc.go","snark/sumcheck/sumcheck.go","polynomial/lagrange.go"],
 [("declared degrees","circuit/gates.go:Degrees"),("degree aggregation","sumcheck/prover.go:NewSingleThreadedProver, sumcheck/par.go:NewMultiThreadedProver"),("gadget degrees","snark/gkr/mimc.go:CreateMimcCircuit"),("table size","polynomial/lagrange.go:maxDomainSize")])
p("P08","Native MiMC, the MiMC gadget and the GKR MiMC circuit agree",
 "The native MiMC hash, the MiMC gadget and the layered GKR circuit apply the same permutation: the same number of rounds, the same constants in the same order, the same x^7 S-box. Native hash and gadget chain message blocks with the same Miyaguchi-Preneel feed-forward.",
 ["inputs"],"every message of every length and every field value",
 "Tests compare native and gadget on a few short fixed messages.",
 ["hash/mimc.go","snark/hash/mimc.go","examples/mimc.go","snark/gkr/mimc.go","circuit/gates.go"],
 [("native","hash/mimc.go"),("gadget","snark/hash/mimc.go:MimcHash"),("circuit","examples/mimc.go:CreateMimcCircuit")])
p("P09","Hash functions absorb the whole message into every state word",
 "MiMC, GMiMC and Poseidon absorb every element of the message exactly once, block by block with zero padding of the last block only, run the configured rounds with a fresh constant and the key added in every round, and feed the previous state and the block forward into every word of the state. The result depends on the state after the last block and on nothing else.",
 ["inputs"],"every message length relative to the block width, every message",
 "The only test hashes one message and compares it with nothing that depends on later blocks or on the other words.",
 ["hash/mimc.go","hash/gmimc.go","hash/poseidon.go"],
 [("absorption loops","hash/poseidon.go:PoseidonHasher.Hash, hash/gmimc.go:GMimcHasher.Hash, hash/mimc.go:MimcHash"),("feed-forward","PoseidonHasher.Update, GMimcHasher.UpdateInplace, MimcUpdateInplace")])
p("P10","Operations never modify data owned by their caller",
 "Assigning a circuit, proving and verifying with GKR, evaluating a table, building eq or static tables and hashing leave the inputs, outputs, assignment, proof, circuit, evaluation points and messages they were given unchanged. Proving or verifying twice with the same arguments therefore gives the same result.",
 ["inputs","histories"],"every argument and every sequence of calls sharing them",
 "Tests use each object once; a table folded in place or an append into a caller's spare capacity only shows when the data is used again.",
 ["circuit/circuit.go","gkr/prover.go","gkr/verifier.go","polynomial/book_keeping.go","polynomial/chunked.go","polynomial/eq.go","sumcheck/verifier.go","snark/polynomial/multilinear.go","hash/poseidon.go","hash/gmimc.go"],
 [("deep copies","circuit/circuit.go:LayerAsBKTWithCopy, polynomial/book_keeping.go:DeepCopy, snark/polynomial/multilinear.go:DeepCopy"),("copied slices","gkr/verifier.go:Verify, sumcheck/verifier.go:Verify")])
p("P11","Goroutines share no data without synchronisation",
 "In every schedule, two goroutines started by the library never access the same memory concurrently with one of them writing, and results written by goroutines are read only after they have been joined. This covers chunked table arithmetic, circuit assignment, table copies and the multi-threaded sumcheck prover.",
 ["schedules"],"every interleaving, chunk count and core count",
 "The tests run few schedules, without the race detector, and on tables mostly too small to be split.",
 ["polynomial/book_keeping.go","circuit/layers.go","circuit/circuit.go","sumcheck/par.go","common/chunks.go"],
 [("disjoint chunks","common/chunks.go:IntoChunkRanges"),("joins","WaitGroup in polynomial/book_keeping.go, circuit/*.go"),("ownership by message passing","sumcheck/par.go")])
p("P12","Parallel sections always terminate and leak nothing",
 "In every schedule and for every positive core and chunk count, the parallel sections finish: every semaphore acquisition is matched by a release, every wait is matched by as many completions, every channel receive has a matching send and no send, release or close happens on a closed channel. No goroutine of the multi-threaded prover is left blocked when it returns.",
 ["schedules","configurations"],"every interleaving, every number of cores (even one) and of chunks",
 "A lost release or completion on one path, or an undersized channel, hangs only under some schedules or core counts the tests never use.",
 ["common/semaphore.go","sumcheck/par.go","polynomial/book_keeping.go","circuit/layers.go","circuit/circuit.go"],
 [("semaphore","common/semaphore.go"),("channel protocol","sumcheck/par.go:RunForChunk, Prove, ConsumeMergeProvers, Broadcast"),("WaitGroups","polynomial/book_keeping.go, circuit/layers.go, circuit/circuit.go")])
p("P13","Results do not depend on the core count or the schedule",
 "For fixed data and chunking, the assignment, the claims and the proof are the same for every number of cores and every interleaving. Values exchanged between goroutines are combined only by operations that do not depend on arrival order, or are placed by an index carried with them.",
 ["schedules","configurations"],"every interleaving and every positive core count",
 "Arrival order rarely changes on a loaded machine and tests use a single core count.",
 ["sumcheck/par.go","circuit/layers.go","polynomial/book_keeping.go","circuit/circuit.go"],
 [("commutative accumulation","sumcheck/par.go:ConsumeAccumulate, GetClaim"),("indexed merge","sumcheck/par.go:ConsumeMergeProvers")])
p("P14","Chunk ranges partition the work exactly",
 "For every size and every positive core count, the chunk ranges are consecutive, disjoint and cover exactly the indices from zero to the size, each within bounds. The integer logarithm, minimum and maximum helpers they and the table dimensions rely on are exact for every argument in their domain.",
 ["inputs","configurations"],"all sizes and core counts, including sizes below, equal to and not divisible by the chunk size",
 "Almost all tests use sizes below the minimum chunk size, where there is a single chunk.",
 ["common/chunks.go","common/math.go"],
 [("range computation","common/chunks.go:IntoChunkRanges"),("helpers","common/math.go")])
p("P15","Tables behave as multilinear extensions, natively and in the gadget",
 "Folding a table at r replaces it by the table of the polynomial with its first variable set to r; evaluation folds on all coordinates in order; the two-sided evaluation gives the values at (hL,h') and at (hR,h'); table addition, subtraction, scaling and linear combination are element-wise. The gadget's fold, evaluation and two-sided evaluation compute the same values.",
 ["inputs"],"all tables, all coordinates, all sizes and all chunk splits",
 "Tests check tables of up to eight small values at integer points.",
 ["polynomial/book_keeping.go","polynomial/chunked.go","snark/polynomial/multilinear.go"],
 [("Fold, Evaluate, EvaluateLeftAndRight","polynomial/book_keeping.go"),("chunked evaluation","polynomial/chunked.go"),("gadget","snark/polynomial/multilinear.go")])
p("P16","Every form of the eq polynomial agrees",
 "The direct product evaluation, the prefolded table, the chunked prefolded table and the gadget all represent the same polynomial: the product over coordinates of 1 - q - h + 2qh. Entry h of a prefolded table is that product at the bits of h, most significant first, chunking included.",
 ["inputs"],"all points, all dimensions, all numbers of chunks",
 "Tests check dimension two at fixed points.",
 ["polynomial/eq.go","snark/polynomial/eq.go"],
 [("EvalEq, GetFoldedEqTable, GetChunkedEqTable","polynomial/eq.go"),("EqEval","snark/polynomial/eq.go")])
p("P17","Interpolation and univariate evaluation are exact",
 "Interpolating a list of values gives the coefficients, lowest degree first, of the polynomial of minimal degree taking those values at 0,1,2,...; evaluating coefficients at x gives the sum of c_i x^i. The evaluation gadget and its p(0)+p(1) shortcut compute the same values.",
 ["inputs"],"all values, all degrees up to the supported domain size, all points",
 "Tests check one domain size on small values.",
 ["polynomial/lagrange.go","snark/polynomial/univariate.go"],
 [("LagrangeCoefficient, InterpolateOnRange, EvaluatePolynomial","polynomial/lagrange.go"),("Univariate.Eval, ZeroAndOne","snark/polynomial/univariate.go")])
p("P18","Evaluation and static tables account for each wire exactly once",
 "Evaluating a layer adds, for every wire and every instance, the wire's gate applied to its left and right inputs to the wire's output, and the static tables contain for each distinct gate exactly one unit per wire of that gate at the position given by its output, left and right indices. A circuit's layers feed each other in order and gates are deduplicated by identifier.",
 ["inputs","programs"],"every wiring, including repeated gates, repeated wires, unequal left and right sizes and several instances",
 "Tests use wirings in which left and right are few and fixed, and no gate repeats within a layer.",
 ["circuit/layers.go","circuit/circuit.go"],
 [("Layer.Evaluate, GetStaticTable, Gates, BGInputs, BGOutputs","circuit/layers.go"),("Circuit.Assign, NewCircuit","circuit/circuit.go")])
p("P19","Malformed proofs and statements are rejected, not accepted or crashed on",
 "The native verifiers return false on a proof with a missing or extra layer, claim or round, with a round polynomial of the wrong number of coefficients, or with inputs and outputs whose sizes do not match the circuit and the number of instances. They neither accept nor crash.",
 ["inputs"],"every shape of proof, inputs and outputs",
 "No test feeds a malformed proof.",
 ["gkr/verifier.go","sumcheck/verifier.go"],
 [("shape checks","gkr/verifier.go:hasExpectedDimensions, hasDimensions"),("round checks","sumcheck/verifier.go:Verifier.Verify")])
p("P20","Sumcheck round evaluations are the true partial sums",
 "In each phase the prover's evaluations are the sums, over the remaining hypercube, of eq times the static tables times the gates applied to the left and right tables, with the first free variable set to 0,1,2,...; skipping entries whose static value is zero never changes a sum. The claim computed by the prover is the same sum over all variables.",
 ["inputs","programs"],"all tables, gates, static tables and sizes",
 "Tests compare with one tiny instance and two gates.",
 ["sumcheck/evals.go","sumcheck/prover.go"],
 [("GetEvalsOnHL, GetEvalsOnHR, GetEvalsOnHPrime, GetClaim","sumcheck/evals.go"),("folding between rounds","sumcheck/prover.go")])
p("P21","Round constants and precomputed tables are set once and never change",
 "Round constants, hash parameters and interpolation tables are written only while the packages initialise, in an order in which each is ready before something derived from it, and no operation ever modifies them or hands out a reference through which it does. Every round uses a constant that exists.",
 ["histories"],"every sequence of operations after initialisation",
 "A corrupted constant would change every later hash in the same way for prover and verifier, so no test comparing the two notices.",
 ["hash/ark.go","hash/hash.go","hash/poseidon.go","hash/gmimc.go","polynomial/lagrange.go"],
 [("init order","hash/hash.go:init"),("tables","hash/ark.go, polynomial/lagrange.go")])
p("P22","The multi-threaded prover follows the single-threaded protocol",
 "For interleaved chunks of the same tables, the multi-threaded prover runs the same phases in the same order as the single-threaded one: per round it sums the chunk evaluations of all chunks exactly once, interpolates, hashes and folds every chunk with that challenge, then merges the chunk values by chunk index and finishes the last variables. Proof, challenges and final claims equal those of the single-threaded prover.",
 ["inputs","schedules","configurations"],"all tables, chunk counts, core counts and interleavings",
 "The test compares the two on a single small instance.",
 ["sumcheck/par.go","sumcheck/prover.go"],
 [("Prove, RunForChunk, ConsumeAccumulate, ConsumeMergeProvers, Broadcast","sumcheck/par.go"),("Prove","sumcheck/prover.go")])
p("P23","Allocation and assignment of the gadgets cover every variable",
 "Assigning a proof or a table to an allocated gadget writes every one of its variables exactly once, each with the matching native value: coefficient by coefficient, round by round, layer by layer, left and right claims, and chunked tables de-interleaved as the native prover interleaves them. Sizes that do not match are refused.",
 ["inputs"],"all sizes, chunk counts and values",
 "Tests assign one proof shape per gadget.",
 ["snark/gkr/proof.go","snark/sumcheck/sumcheck.go","snark/polynomial/univariate.go","snark/polynomial/multilinear.go"],
 [("Assign, AllocateProof, AssignFromChunkedBKT","snark/*")])
p("P24","The gadget's MiMC circuit description matches the native circuit",
 "Layer by layer, the circuit description used inside the verifier gadget has the same number of layers, the same gates in the same order with the same constants, the same table sizes and the same static tables as those obtained from the native wiring.",
 ["inputs","programs"],"every layer and every folding point",
 "The only test solves the gadget for one witness.",
 ["snark/gkr/mimc.go","examples/mimc.go","snark/gkr/static.go"],
 [("CreateMimcCircuit (gadget), GetCipherTable, GetCopyTable, GetFinalCipherTable","snark/gkr/mimc.go"),("CreateMimcCircuit (native)","examples/mimc.go")])
p("P25","Mismatched table sizes are refused",
 "Adding or subtracting tables of different sizes, assigning a gadget from data of the wrong size, and evaluating a chunked table with too few coordinates stop with a panic instead of returning a value computed from part of the data.",
 ["inputs"],"all combinations of sizes",
 "No test passes mismatched sizes.",
 ["polynomial/book_keeping.go","polynomial/chunked.go","snark/polynomial/multilinear.go","snark/polynomial/univariate.go","snark/sumcheck/sumcheck.go"],
 [("size guards","BookKeepingTable.Add/Sub, chunkedEvalRecombine, EvaluateMixedChunked, Assign")])
p("P26","Proofs of false statements are infeasible to find",
 "No efficient prover finds a proof accepted for outputs that the circuit does not produce on the inputs, except with negligible probability over the hash. This is the computational soundness of the whole construction.",
 ["inputs","histories"],"all efficient adversaries",
 "It quantifies over adversaries and probability, which no test samples.",
 ["gkr/verifier.go","common/challenge.go"],[("GKR and Fiat-Shamir","gkr, sumcheck, common")])
p("P27","The hash functions are collision resistant",
 "No efficient algorithm finds two distinct messages of the same length with the same MiMC, GMiMC or Poseidon digest, which includes the quality of the round constants, the number of rounds and the mixing matrix.",
 ["inputs"],"all efficient adversaries",
 "Cryptographic strength is not observable on samples.",
 ["hash/ark.go","hash/poseidon.go","hash/gmimc.go"],[("parameters","hash/")])
p("P28","The multi-threaded prover is faster with more cores",
 "Proving time decreases as the number of cores grows, until the number of chunks bounds it.",
 ["configurations","schedules"],"all machine loads and core counts",
 "Timing is not asserted by any test.",
 ["sumcheck/par.go","common/semaphore.go"],[("parallel prover","sumcheck/par.go")])
p("P29","Well-formed data never make an operation panic or read out of range",
 "On arguments that satisfy the documented sizes (tables of matching powers of two, wires within their layer, messages of any length, any positive core and chunk count), no function of the library indexes a slice out of its range, slices it with bounds out of order, makes a slice of negative size, divides by zero, shifts by a negative count or reaches an explicit panic.",
 ["inputs","configurations"],"all sizes, values, chunk and core counts",
 "An index that is out of range only for a particular size, an empty table or a core count that does not divide the size is met by a test only if that size is sampled.",
 ["polynomial/book_keeping.go","polynomial/chunked.go","polynomial/lagrange.go","polynomial/eq.go","common/chunks.go","circuit/layers.go","circuit/circuit.go","sumcheck/prover.go","sumcheck/par.go","gkr/prover.go","gkr/verifier.go","hash/mimc.go","hash/gmimc.go","hash/poseidon.go","snark/gkr/circuit.go","snark/sumcheck/sumcheck.go"],
 [("index arithmetic of the interleaved chunks","polynomial/chunked.go"),("loops over table halves","polynomial/book_keeping.go:Fold"),("chunk ranges","common/chunks.go:IntoChunkRanges"),("block splitting","hash/gmimc.go:Hash, hash/poseidon.go:Hash")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
