From 5d76c773c504908bbe67686aca848136fd1342ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 01/12] fix: GKR verifier accepted proofs failing an
 intermediate layer check

The verifier returned true when the claims of an intermediate layer did not
match the sumcheck, skipping every remaining check including the inputs.
---
 gkr/verifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index 16f08dd..e43e891 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -96,7 +96,7 @@ func (v *Verifier) Verify(
 			v.evaluateStaticTablesLinCombs(layer, qL, qR, nextQL, nextQR, lambdaL, lambdaR),
 		) {
 			// The sumcheck claim was inconsistent with the values claimed in the proof
-			return true
+			return false
 		}
 	}
 
-- 
2.43.0


From a4cf637a0bb97e8675770a4500a0ca99651b86dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 02/12] fix: deduplicate the gates of a layer

Gates never recorded the gates it had seen, so a gate used by several wires
was listed (and summed by the sumcheck) once per wire, and honest proofs for
such circuits were rejected.
---
 circuit/layers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuit/layers.go b/circuit/layers.go
index dff0d99..d02a7b7 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -132,6 +132,7 @@ func Gates(wires []Wire) []Gate {
 	res := []Gate{}
 	for _, wire := range wires {
 		if _, ok := gates[wire.Gate.ID()]; !ok {
+			gates[wire.Gate.ID()] = wire.Gate
 			res = append(res, wire.Gate)
 		}
 	}
-- 
2.43.0


From 4277a0aaf95078265d093d8f5668c4ad912c8a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 03/12] fix: index of the right input when evaluating a layer

The offset of the right input was multiplied twice by the chunk's number of
instances, so wires with R > 0 read out of range unless there was only one.
---
 circuit/layers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit/layers.go b/circuit/layers.go
index d02a7b7..0fe26c0 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -88,7 +88,7 @@ func (l *Layer) Evaluate(inputs [][]fr.Element, nCore int) [][]fr.Element {
 				wRN := w.R * N
 				for h := 0; h < N; h++ {
 					// Runs the gate evaluator
-					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN*N+h])
+					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
 					subRes[wON+h].Add(&subRes[wON+h], &tmp)
 				}
 			}
-- 
2.43.0


From 2b11c254cd5bcd45b633a0c2555b6f1663581f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 04/12] fix: chunked evaluation of a single chunk

With a single chunk there is nothing to recombine and the function panicked,
so the GKR verifier could not be run on unchunked inputs.
---
 polynomial/chunked.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/polynomial/chunked.go b/polynomial/chunked.go
index b31a98b..408f046 100644
--- a/polynomial/chunked.go
+++ b/polynomial/chunked.go
@@ -22,11 +22,10 @@ func chunkedEvalRecombine(bkts []BookKeepingTable, qs []fr.Element) BookKeepingT
 		panic("q and bkts sizes are not compatible")
 	}
 
-	var inp, res []BookKeepingTable
-	inp = bkts
+	inp := bkts
 	for _, q := range qs {
 		mid := len(inp) / 2
-		res = make([]BookKeepingTable, mid)
+		res := make([]BookKeepingTable, mid)
 		for k := range res {
 			// res[i] = inp[i+mid].DeepCopy()
 			res[k].Sub(inp[k+mid], inp[k], 1)
@@ -36,7 +35,7 @@ func chunkedEvalRecombine(bkts []BookKeepingTable, qs []fr.Element) BookKeepingT
 		inp = res
 	}
 
-	return res[0]
+	return inp[0]
 }
 
 // EvaluateChunked evaluates a chunked bookeeping table
-- 
2.43.0


From 4207808389bec39b22f85bb650bf3e22e768091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 05/12] fix: Poseidon update did not write its result back

The state was rebound to a new slice by the first matrix multiplication, so
the caller only saw the first S-box: the hash ignored all but one element of
each block.
---
 hash/poseidon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hash/poseidon.go b/hash/poseidon.go
index 3e41355..4e46ff3 100644
--- a/hash/poseidon.go
+++ b/hash/poseidon.go
@@ -70,6 +70,10 @@ func (p *PoseidonHasher) Update(state, block []fr.Element) {
 	// Deep-copies the state
 	oldState := append([]fr.Element{}, state...)
 
+	// MatrixMultiplication allocates its result: keep track of the state of the
+	// caller in order to write the final result into it.
+	result := state
+
 	// Runs the cipher
 	for i := 0; i < p.nRoundsF; i++ {
 		AddArkAndKeysInplace(state, block, Arks[i])
@@ -94,6 +98,8 @@ func (p *PoseidonHasher) Update(state, block []fr.Element) {
 		state[i].Add(&state[i], &oldState[i])
 		state[i].Add(&state[i], &block[i])
 	}
+
+	copy(result, state)
 }
 
 // GenerateMDSMatrix returns the MDS matrix for a given size
-- 
2.43.0


From 3bf0d71a65bdc41c18878ae63c626eca2269e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 06/12] fix: initial evaluation point left half of the outputs
 unchecked

The first coordinates of the initial q and qPrime were 1, so the outputs whose
first index bit is 0 had a null weight in the initial claim and the verifier
accepted any value for them.
---
 gkr/prover.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gkr/prover.go b/gkr/prover.go
index 6580e60..23ab511 100644
--- a/gkr/prover.go
+++ b/gkr/prover.go
@@ -40,12 +40,14 @@ func GetInitialQPrimeAndQ(bN, bG int) ([]fr.Element, []fr.Element) {
 
 	// actually compute qInitial and qPrimeInitial
 	// TODO: Uses actual randomness
-	for i := range q {
-		q[i].SetUint64(uint64(i + 1))
+	// The coordinates are hashes rather than small integers: a coordinate equal to
+	// 0 or 1 (or repeated coordinates) would leave some of the outputs unchecked.
+	for i := range qPrime {
+		qPrime[i] = common.GetChallenge([]fr.Element{common.Uint64ToFr(uint64(i + 1))})
 	}
 
-	for i := range qPrime {
-		qPrime[i].SetUint64(uint64(i + 1))
+	for i := range q {
+		q[i] = common.GetChallenge([]fr.Element{common.Uint64ToFr(uint64(bN + i + 1))})
 	}
 
 	return qPrime, q
-- 
2.43.0


From b94e62b455fd70e5a6d102cd4a19f9fff324413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 07/12] fix: verifiers panicked on proofs of an unexpected
 shape

A proof with missing (or extra) layers, rounds, claims or coefficients made
the sumcheck and GKR verifiers index out of range instead of rejecting it.
---
 gkr/verifier.go      | 21 +++++++++++++++++++++
 sumcheck/verifier.go | 10 ++++++++++
 2 files changed, 31 insertions(+)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index e43e891..10730c2 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -31,6 +31,10 @@ func (v *Verifier) Verify(
 
 	nLayers := len(v.circuit.Layers)
 
+	if !v.hasExpectedShape(proof) {
+		return false
+	}
+
 	qPrime, q := GetInitialQPrimeAndQ(v.bN, v.circuit.Layers[nLayers-1].BGOutputs)
 	var qL, qR []fr.Element
 
@@ -113,6 +117,23 @@ func (v *Verifier) Verify(
 	return true
 }
 
+// hasExpectedShape returns true if the proof has the number of layers and of
+// sumcheck rounds prescribed by the circuit
+func (v *Verifier) hasExpectedShape(proof Proof) bool {
+	nLayers := len(v.circuit.Layers)
+	if len(proof.SumcheckProofs) != nLayers ||
+		len(proof.ClaimsLeft) != nLayers ||
+		len(proof.ClaimsRight) != nLayers {
+		return false
+	}
+	for i, layer := range v.circuit.Layers {
+		if len(proof.SumcheckProofs[i].PolyCoeffs) != v.bN+2*layer.BGInputs {
+			return false
+		}
+	}
+	return true
+}
+
 func (v *Verifier) evaluateStaticTables(layer int, q, nextQL, nextQR []fr.Element) []fr.Element {
 	tables := v.circuit.Layers[layer].GetStaticTable(q)
 	evals := make([]fr.Element, len(tables))
diff --git a/sumcheck/verifier.go b/sumcheck/verifier.go
index 1773721..c6606a9 100644
--- a/sumcheck/verifier.go
+++ b/sumcheck/verifier.go
@@ -12,6 +12,11 @@ type Verifier struct{}
 
 // Verify returns true if and only the sumcheck proof is valid
 func (v Verifier) Verify(claim fr.Element, proof Proof, bN, bG int) (result bool, qPrime, qL, qR []fr.Element, finalClaim fr.Element) {
+	// Reject the proofs that do not have enough rounds to return qL and qR
+	if len(proof.PolyCoeffs) < 2*bG {
+		return false, nil, nil, nil, fr.Element{}
+	}
+
 	// Initalize the structures
 	challenges := make([]fr.Element, len(proof.PolyCoeffs))
 	var expectedValue fr.Element = claim
@@ -19,6 +24,11 @@ func (v Verifier) Verify(claim fr.Element, proof Proof, bN, bG int) (result bool
 	one.SetOne()
 
 	for i := 0; i < len(proof.PolyCoeffs); i++ {
+		// Reject the polynomials without coefficients
+		if len(proof.PolyCoeffs[i]) == 0 {
+			return false, nil, nil, nil, fr.Element{}
+		}
+
 		// Check P_i(0) + P_i(1) == expected
 		actualValue = polynomial.EvaluatePolynomial(proof.PolyCoeffs[i], zero)
 		evalAtOne = polynomial.EvaluatePolynomial(proof.PolyCoeffs[i], one)
-- 
2.43.0


From 7f38a9afbc95c3035a83ef997a5fb00803c17bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 08/12] fix: verifier left the additional values of larger
 tables unchecked

---
 gkr/verifier.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index 10730c2..9b4baa8 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -35,6 +35,12 @@ func (v *Verifier) Verify(
 		return false
 	}
 
+	// A larger table would have values that are not checked
+	if !hasExpectedSize(inputs, v.bN, v.circuit.Layers[0].BGInputs) ||
+		!hasExpectedSize(outputs, v.bN, v.circuit.Layers[nLayers-1].BGOutputs) {
+		return false
+	}
+
 	qPrime, q := GetInitialQPrimeAndQ(v.bN, v.circuit.Layers[nLayers-1].BGOutputs)
 	var qL, qR []fr.Element
 
@@ -134,6 +140,21 @@ func (v *Verifier) hasExpectedShape(proof Proof) bool {
 	return true
 }
 
+// hasExpectedSize returns true if the chunks have the size required for 2^bN instances
+// of 2^bG values. The chunks are only allowed to split the instances.
+func hasExpectedSize(chunks [][]fr.Element, bN, bG int) bool {
+	nChunks := len(chunks)
+	if nChunks == 0 || nChunks > 1<<bN || nChunks != 1<<common.Log2Floor(nChunks) {
+		return false
+	}
+	for i := range chunks {
+		if len(chunks[i])*nChunks != 1<<(bN+bG) {
+			return false
+		}
+	}
+	return true
+}
+
 func (v *Verifier) evaluateStaticTables(layer int, q, nextQL, nextQR []fr.Element) []fr.Element {
 	tables := v.circuit.Layers[layer].GetStaticTable(q)
 	evals := make([]fr.Element, len(tables))
-- 
2.43.0


From b1f8feb3a2670e8fd419b25967c67b59bbf7eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 09/12] fix: linear combination of tables of different sizes
 was truncated

---
 polynomial/book_keeping.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polynomial/book_keeping.go b/polynomial/book_keeping.go
index 311b709..e5e8ec4 100644
--- a/polynomial/book_keeping.go
+++ b/polynomial/book_keeping.go
@@ -123,6 +123,9 @@ func LinearCombinationOfBookKeepingTables(
 	// Variables: order & size:
 	// q',	q,	r,	l,	h'
 	// bN,	bG,	bG,	bG,	bN
+	if len(prefoldedBKT0.Table) != len(prefoldedBKT1.Table) {
+		panic("The bookkeeping tables do not have the same size")
+	}
 	for i := range prefoldedBKT1.Table {
 		prefoldedBKT0.Table[i].Mul(&prefoldedBKT0.Table[i], &a0)
 		prefoldedBKT1.Table[i].Mul(&prefoldedBKT1.Table[i], &a1)
-- 
2.43.0


From 132a6f30ee622cfef2b7578fec0a1f338eba80b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 10/12] fix: ID of the cipher gate was wrong when computed
 concurrently

---
 circuit/gates.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/circuit/gates.go b/circuit/gates.go
index 4c80b4f..35d06f3 100644
--- a/circuit/gates.go
+++ b/circuit/gates.go
@@ -152,7 +152,9 @@ func NewCipherGate(ark fr.Element) *CipherGate {
 }
 
 // ID returns the id of the cipher gate and print the ark as well
-func (c *CipherGate) ID() string { return fmt.Sprintf("CipherGate-%v", c.Ark.String()) }
+// It is called from concurrent provers and verifiers: fr.Element.String is not
+// safe for that, its temporary values share the same memory
+func (c *CipherGate) ID() string { return fmt.Sprintf("CipherGate-%x", c.Ark.Bytes()) }
 
 // Eval returns vL + (vR + c)^7
 func (c *CipherGate) Eval(res, vL, vR *fr.Element) {
-- 
2.43.0


From 6b0cc483f840023ba7c8d780b3b03fe8cde7eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 11/12] fix: elements printed concurrently were wrong

---
 common/common.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/common.go b/common/common.go
index 028be00..c8e6ad6 100644
--- a/common/common.go
+++ b/common/common.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"fmt"
+	"math/big"
 
 	"github.com/consensys/gurvy/bn256/fr"
 )
@@ -10,8 +11,10 @@ import (
 func PrettyStringFr(x fr.Element) string {
 	negX := x
 	negX.Neg(&negX)
-	negXStr := negX.String()
-	xStr := x.String()
+	// fr.Element.String is not safe for concurrent use
+	var bigInt big.Int
+	negXStr := negX.ToBigIntRegular(&bigInt).String()
+	xStr := x.ToBigIntRegular(&bigInt).String()
 
 	if len(xStr) <= len(negXStr) {
 		return xStr
-- 
2.43.0


From 7a04a6e697fb5f09880d1d60dee5706237ee704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 12/12] fix: the SNARK verifier checked 91 layers whatever the
 number of layers of the circuit

---
 snark/gkr/proof.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/snark/gkr/proof.go b/snark/gkr/proof.go
index 6d626aa..ebb2620 100644
--- a/snark/gkr/proof.go
+++ b/snark/gkr/proof.go
@@ -2,7 +2,6 @@ package gkr
 
 import (
 	"gkr-mimc/gkr"
-	"gkr-mimc/hash"
 	hashGadget "gkr-mimc/snark/hash"
 	"gkr-mimc/snark/polynomial"
 	"gkr-mimc/snark/sumcheck"
@@ -10,10 +9,7 @@ import (
 	"github.com/consensys/gnark/frontend"
 )
 
-const nLayers = hash.MimcRounds
-
 // Proof represents a GKR proof
-// Only valid for the MiMC circuit
 type Proof struct {
 	SumcheckProofs []sumcheck.Proof
 	ClaimsLeft     []frontend.Variable
@@ -56,6 +52,8 @@ func (p *Proof) AssertValid(
 	vInput, vOutput polynomial.MultilinearByValues,
 ) {
 
+	nLayers := len(circuit.Layers)
+
 	qqPrime := append(append([]frontend.Variable{}, qInitial...), qPrimeInitial...)
 	claim := vOutput.Eval(cs, qqPrime)
 	hL, hR, hPrime, expectedTotalClaim := p.SumcheckProofs[nLayers-1].AssertValid(cs, claim, circuit.Layers[nLayers-1].BG)
-- 
2.43.0

