From e3880fcb8ee26880b0132e58e9d8e340675116cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 1/6] fix: read the right operand of a wire at its own offset
 in Layer.Evaluate

wRN is already R*N, indexing by wRN*N+h read the wrong value (or out of range)
whenever a wire has R > 0 and a chunk holds more than one instance.
---
 circuit/layers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit/layers.go b/circuit/layers.go
index dff0d99..4d41502 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -88,7 +88,7 @@ func (l *Layer) Evaluate(inputs [][]fr.Element, nCore int) [][]fr.Element {
 				wRN := w.R * N
 				for h := 0; h < N; h++ {
 					// Runs the gate evaluator
-					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN*N+h])
+					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
 					subRes[wON+h].Add(&subRes[wON+h], &tmp)
 				}
 			}
-- 
2.43.0


From 330972cf9aa6f51c75ec79662e4f56db25d68acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 2/6] fix: deduplicate the gates of a layer

The map of known gates was never filled: a layer using the same gate on two
wires counted each of them twice and its honest proofs were rejected.
---
 circuit/layers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuit/layers.go b/circuit/layers.go
index 4d41502..0fe26c0 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -132,6 +132,7 @@ func Gates(wires []Wire) []Gate {
 	res := []Gate{}
 	for _, wire := range wires {
 		if _, ok := gates[wire.Gate.ID()]; !ok {
+			gates[wire.Gate.ID()] = wire.Gate
 			res = append(res, wire.Gate)
 		}
 	}
-- 
2.43.0


From 0e686108fab25b6cf6bc19ae22cea789861b8c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 3/6] fix: evaluate tables made of a single chunk

With one chunk there is nothing to recombine and res is empty: the evaluation
(hence the GKR verifier) panicked.
---
 polynomial/chunked.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polynomial/chunked.go b/polynomial/chunked.go
index b31a98b..2204aff 100644
--- a/polynomial/chunked.go
+++ b/polynomial/chunked.go
@@ -36,7 +36,7 @@ func chunkedEvalRecombine(bkts []BookKeepingTable, qs []fr.Element) BookKeepingT
 		inp = res
 	}
 
-	return res[0]
+	return inp[0]
 }
 
 // EvaluateChunked evaluates a chunked bookeeping table
-- 
2.43.0


From 64b940e73c7a3ad08852160c3f090edf7e81bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 4/6] fix: reject a proof whose intermediate layer claims are
 inconsistent

---
 gkr/verifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index 16f08dd..e43e891 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -96,7 +96,7 @@ func (v *Verifier) Verify(
 			v.evaluateStaticTablesLinCombs(layer, qL, qR, nextQL, nextQR, lambdaL, lambdaR),
 		) {
 			// The sumcheck claim was inconsistent with the values claimed in the proof
-			return true
+			return false
 		}
 	}
 
-- 
2.43.0


From 1f0e3015dc5d8739798ae6571f05013f2425ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 5/6] fix: write the result of the poseidon permutation back
 into the state

Update worked on a reallocated copy after the first matrix multiplication: the
caller's state only saw the first half-round and the hash ignored most of the
message.
---
 hash/poseidon.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hash/poseidon.go b/hash/poseidon.go
index 3e41355..2e0088d 100644
--- a/hash/poseidon.go
+++ b/hash/poseidon.go
@@ -67,6 +67,9 @@ func (p *PoseidonHasher) Hash(msg []fr.Element) fr.Element {
 // https://en.wikipedia.org/wiki/One-way_compression_function#Miyaguchi.E2.80.93Preneel
 func (p *PoseidonHasher) Update(state, block []fr.Element) {
 
+	// The rounds below reallocate the state, keep a handle on the one to update
+	updated := state
+
 	// Deep-copies the state
 	oldState := append([]fr.Element{}, state...)
 
@@ -91,8 +94,8 @@ func (p *PoseidonHasher) Update(state, block []fr.Element) {
 
 	// Recombine with the old state
 	for i := range state {
-		state[i].Add(&state[i], &oldState[i])
-		state[i].Add(&state[i], &block[i])
+		updated[i].Add(&state[i], &oldState[i])
+		updated[i].Add(&updated[i], &block[i])
 	}
 }
 
-- 
2.43.0


From 4aa701f24a773d3c2199707b2fbefe8eb824e616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 6/6] fix: reject proofs and assignments of unexpected
 dimensions in the verifiers

A truncated proof made the verifiers panic, the degree of the round polynomials
was not bounded and the entries of oversized outputs were not all looked at.
---
 gkr/verifier.go      | 63 ++++++++++++++++++++++++++++++++++++++++++++
 sumcheck/verifier.go | 10 +++++++
 2 files changed, 73 insertions(+)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index e43e891..aa2d58a 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -29,6 +29,11 @@ func (v *Verifier) Verify(
 	inputs, outputs [][]fr.Element,
 ) bool {
 
+	if !v.hasExpectedDimensions(proof, inputs, outputs) {
+		// Either the proof or the assignment does not fit the circuit
+		return false
+	}
+
 	nLayers := len(v.circuit.Layers)
 
 	qPrime, q := GetInitialQPrimeAndQ(v.bN, v.circuit.Layers[nLayers-1].BGOutputs)
@@ -136,3 +141,61 @@ func (v *Verifier) evaluateStaticTablesLinCombs(layer int, qL, qR, nextQL, nextQ
 	}
 	return evals
 }
+
+// hasExpectedDimensions returns true if the proof, the inputs and the outputs
+// all have the dimensions prescribed by the circuit and the number of instances
+func (v *Verifier) hasExpectedDimensions(proof Proof, inputs, outputs [][]fr.Element) bool {
+	layers := v.circuit.Layers
+	nLayers := len(layers)
+
+	if len(proof.SumcheckProofs) != nLayers || len(proof.ClaimsLeft) != nLayers || len(proof.ClaimsRight) != nLayers {
+		return false
+	}
+
+	for k, layer := range layers {
+		bG := layer.BGInputs
+		polys := proof.SumcheckProofs[k].PolyCoeffs
+		if len(polys) != v.bN+2*bG {
+			return false
+		}
+
+		degHL, degHR, degHPrime := 0, 0, 0
+		for _, gate := range layer.Gates {
+			dL, dR, dPrime := gate.Degrees()
+			degHL = common.Max(degHL, dL)
+			degHR = common.Max(degHR, dR)
+			degHPrime = common.Max(degHPrime, dPrime)
+		}
+
+		for i := range polys {
+			// The static tables and eq both contribute to the degree
+			degree := degHPrime + 1
+			if i < bG {
+				degree = degHL + 1
+			} else if i < 2*bG {
+				degree = degHR + 1
+			}
+			if len(polys[i]) != degree+1 {
+				return false
+			}
+		}
+	}
+
+	return hasDimensions(inputs, v.bN, layers[0].BGInputs) &&
+		hasDimensions(outputs, v.bN, layers[nLayers-1].BGOutputs)
+}
+
+// hasDimensions returns true if the chunks form together a table of bN+bG variables.
+// Only the variables of hPrime can be chunked.
+func hasDimensions(chunks [][]fr.Element, bN, bG int) bool {
+	nChunks := len(chunks)
+	if nChunks > 1<<bN {
+		return false
+	}
+	for i := range chunks {
+		if len(chunks[i])*nChunks != 1<<(bN+bG) {
+			return false
+		}
+	}
+	return nChunks > 0
+}
diff --git a/sumcheck/verifier.go b/sumcheck/verifier.go
index 1773721..1d46c7c 100644
--- a/sumcheck/verifier.go
+++ b/sumcheck/verifier.go
@@ -12,6 +12,11 @@ type Verifier struct{}
 
 // Verify returns true if and only the sumcheck proof is valid
 func (v Verifier) Verify(claim fr.Element, proof Proof, bN, bG int) (result bool, qPrime, qL, qR []fr.Element, finalClaim fr.Element) {
+	if len(proof.PolyCoeffs) < bN+2*bG {
+		// The proof misses some rounds
+		return false, nil, nil, nil, fr.Element{}
+	}
+
 	// Initalize the structures
 	challenges := make([]fr.Element, len(proof.PolyCoeffs))
 	var expectedValue fr.Element = claim
@@ -19,6 +24,11 @@ func (v Verifier) Verify(claim fr.Element, proof Proof, bN, bG int) (result bool
 	one.SetOne()
 
 	for i := 0; i < len(proof.PolyCoeffs); i++ {
+		if len(proof.PolyCoeffs[i]) == 0 {
+			// The polynomial of this round is missing
+			return false, nil, nil, nil, fr.Element{}
+		}
+
 		// Check P_i(0) + P_i(1) == expected
 		actualValue = polynomial.EvaluatePolynomial(proof.PolyCoeffs[i], zero)
 		evalAtOne = polynomial.EvaluatePolynomial(proof.PolyCoeffs[i], one)
-- 
2.43.0

