C, G, P, SC, COM, EX, H = ('gkr-mimc/circuit', 'gkr-mimc/gkr', 'gkr-mimc/polynomial', 'gkr-mimc/sumcheck', 'gkr-mimc/common', 'gkr-mimc/examples', 'gkr-mimc/hash')
PLANTS = []
def add(**k):
    PLANTS.append(k)

# ---------------------------------------------------------------- C01
add(id='c01-single-value-layer', property='C01',
  edits=[('gkr/prover.go', '''	// Then the staticTables in the order given by
	for i := range statics {
''', '''	// Both claims are about the same value when the next layer has only one input
	if len(qL) == 0 {
		return vL, vR, eq, staticsL
	}

	// Then the staticTables in the order given by
	for i := range statics {
''')],
  needs='A circuit with an inner layer whose inputs are a single wire (the layer above reads only output 0), so that its two claims are at the same point',
  breaks='The prover forgets lambdaR for the layer below a layer with a single input: an honest proof is rejected.',
  imports=[C, G], demo='''
func main() {
	for nLayers := 2; nLayers <= 3; nLayers++ {
		var w [][]circuit.Wire
		for i := 0; i < nLayers; i++ {
			w = append(w, []circuit.Wire{{L: 0, R: 0, O: 0, Gate: circuit.MulGate{}}})
		}
		c := circuit.NewCircuit(w)
		in := split(vals(4, 1), 2)
		a := c.Assign(in, 1)
		p := gkr.NewProver(c, a)
		proof := p.Prove(1)
		v := gkr.NewVerifier(2, c)
		if !v.Verify(proof, in, a.Values[nLayers]) {
			fail("honest proof of %d layers rejected", nLayers)
		}
	}
}
''')
add(id='c01-gates-by-type', property='C01',
  edits=[('circuit/layers.go', '''	gates := make(map[string]Gate)
	res := []Gate{}
	for _, wire := range wires {
		if _, ok := gates[wire.Gate.ID()]; !ok {
''', '''	gates := make(map[string]Gate)
	res := []Gate{}
	for _, wire := range wires {
		// Consecutive wires very often use the same gate
		if len(res) > 0 && reflect.TypeOf(res[len(res)-1]) == reflect.TypeOf(wire.Gate) {
			continue
		}
		if _, ok := gates[wire.Gate.ID()]; !ok {
'''), ('circuit/layers.go', '''	"sync"

	"github.com''', '''	"reflect"
	"sync"

	"github.com''')],
  needs='A layer with two consecutive wires of cipher gates that have different constants',
  breaks='The second cipher gate of a layer is dropped from the list of gates: its wires have no wiring table and honest proofs are rejected.',
  imports=[C, G], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{
		{L: 0, R: 1, O: 0, Gate: circuit.NewCipherGate(u(12))},
		{L: 1, R: 0, O: 1, Gate: circuit.NewCipherGate(u(55))},
	}})
	in := split(vals(4, 2), 1)
	a := c.Assign(in, 2)
	p := gkr.NewProver(c, a)
	proof := p.Prove(2)
	v := gkr.NewVerifier(1, c)
	if !v.Verify(proof, in, a.Values[1]) {
		fail("honest proof rejected")
	}
}
''')
add(id='c12-tail-chunk', property='C12',
  edits=[('common/chunks.go', '''	if nChunks*chunkSize < N {
		// handle the case where n is not divisible by chunkSize
		nChunks++
	}
''', '''	if nChunks*chunkSize < N && nChunks < MaxChunkPerCore*nCore {
		// handle the case where n is not divisible by chunkSize. There are never more
		// jobs than what the cores can run
		nChunks++
	}
''')],
  needs='A table of at least 3 * 4096 entries and a number of workers that does not divide it',
  breaks='The last entries of large tables are not computed by Sub and Mul (left at their previous content) when the worker count does not divide the size.',
  imports=[P], demo='''
func main() {
	const n = 1 << 14
	l, r := polynomial.NewBookKeepingTable(vals(n, 1)), polynomial.NewBookKeepingTable(vals(n, 2))
	var d polynomial.BookKeepingTable
	d.Sub(l, r, 3)
	for i := range d.Table {
		var x fr.Element
		x.Sub(&l.Table[i], &r.Table[i])
		if x != d.Table[i] {
			fail("entry %d", i)
		}
	}
}
''')
# ---------------------------------------------------------------- C02
add(id='c02-static-cache', property='C02',
  edits=[('circuit/layers.go', '''	gates := l.Gates
	res := make([]polynomial.BookKeepingTable, len(gates))
''', '''	gates := l.Gates
	res := make([]polynomial.BookKeepingTable, len(gates))
	// The prover and the verifier ask for the same tables
	key := fmt.Sprint(l.BGInputs, l.BGOutputs, len(l.Wires), q)
	for _, gate := range gates {
		key += gate.ID()
	}
	if cached, ok := staticTables.Load(key); ok {
		for i, bkt := range cached.([]polynomial.BookKeepingTable) {
			res[i] = bkt.DeepCopy()
		}
		return res
	}
'''), ('circuit/layers.go', '''		res[i] = bkt
	}

	return res
}
''', '''		res[i] = bkt
	}

	toCache := make([]polynomial.BookKeepingTable, len(res))
	for i := range res {
		toCache[i] = res[i].DeepCopy()
	}
	staticTables.Store(key, toCache)
	return res
}

// staticTables contains the last static tables
var staticTables sync.Map
'''), ('circuit/layers.go', '''import (
	"gkr''', '''import (
	"fmt"
	"gkr''')],
  needs='Proving (or verifying) with a circuit, then verifying in the same process with another circuit whose layers have the same sizes and gates but another wiring',
  breaks='The verifier uses the cached wiring of the first circuit: outputs that are not those of its own circuit are accepted.',
  imports=[C, G], demo='''
func main() {
	mk := func(l, r int) circuit.Circuit {
		return circuit.NewCircuit([][]circuit.Wire{{
			{L: l, R: r, O: 0, Gate: circuit.NewCipherGate(u(9))},
			{L: 1, R: 1, O: 1, Gate: circuit.AddGate{}},
		}})
	}
	c, d := mk(0, 1), mk(1, 0)
	in := split(vals(8, 4), 2)
	a := c.Assign(in, 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	v := gkr.NewVerifier(2, d)
	if v.Verify(proof, in, a.Values[1]) {
		fail("outputs of another circuit accepted")
	}
}
''')
add(id='c02-first-claim', property='C02',
  edits=[('sumcheck/verifier.go', '''		if expectedValue != actualValue {
''', '''		// The left variables of a layer start from the same claim
		if i%common.Max(1, bG) == 0 && i < bG {
			expectedValue = actualValue
		}
		if expectedValue != actualValue {
''')],
  needs='A statement whose outputs are not those proved, with an honest proof of other outputs',
  breaks='The first round polynomial is not compared with the claim: the proof is not tied to the outputs (nor a layer to the claims of the next one).',
  imports=[C, G], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{
		{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}},
		{L: 0, R: 1, O: 1, Gate: circuit.AddGate{}},
	}})
	in := split(vals(8, 4), 1)
	a := c.Assign(in, 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	v := gkr.NewVerifier(2, c)
	out := a.Values[1]
	if !v.Verify(proof, in, out) {
		fail("honest proof rejected")
	}
	out[0][3] = u(1)
	if v.Verify(proof, in, out) {
		fail("wrong output accepted")
	}
}
''')
# ---------------------------------------------------------------- C03
add(id='c03-final-and', property='C03',
  edits=[('gkr/verifier.go', 'if actualVL != proof.ClaimsLeft[0] || actualVR != proof.ClaimsRight[0] {',
          'if actualVL != proof.ClaimsLeft[0] && actualVR != proof.ClaimsRight[0] {')],
  needs='A proof in which only one of the last two claims is wrong, all the other checks passing',
  breaks='A wrong last claim is accepted when the other one is right.',
  imports=[C, G], demo='''
func main() {
	// The right input does not count for a copy: its claim is only checked at the end
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.CopyGate{}}}})
	in := split(vals(8, 4), 1)
	a := c.Assign(in, 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	v := gkr.NewVerifier(2, c)
	if !v.Verify(proof, in, a.Values[1]) {
		fail("honest proof rejected")
	}
	proof.ClaimsRight[0] = u(5)
	if v.Verify(proof, in, a.Values[1]) {
		fail("wrong right claim accepted")
	}
}
''')
add(id='c03-last-round', property='C03',
  edits=[('sumcheck/verifier.go', '''		if expectedValue != actualValue {
''', '''		// Nothing is left to be summed in the last round
		if i+1 == len(proof.PolyCoeffs) && i > 2*bG {
			actualValue = expectedValue
		}
		if expectedValue != actualValue {
''')],
  needs='At least 4 instances and a proof whose last round polynomial has a wrong sum but the right value at its own challenge',
  breaks='The sum of the last round of each layer is not checked when there are at least two rounds on the instances.',
  imports=[SC, COM, P], demo='''
func main() {
	// Rounds: 2 on the instances. The last polynomial does not sum to the claim.
	p0 := []fr.Element{u(3), u(4)}
	p1 := []fr.Element{u(10), u(20), u(7)}
	claim := u(10)
	_ = polynomial.EvaluatePolynomial
	_ = common.GetChallenge
	valid, _, _, _, _ := sumcheck.Verifier{}.Verify(claim, sumcheck.Proof{PolyCoeffs: [][]fr.Element{p0, p1}}, 2, 0)
	if valid {
		fail("wrong sum of the last round accepted")
	}
}
''')
# ---------------------------------------------------------------- C04
add(id='c04-powers-buffer', property='C04',
  edits=[('polynomial/lagrange.go', '''	var result fr.Element
	result.Set(&coeffs[len(coeffs)-1])
	for i := len(coeffs) - 2; i >= 0; i-- {
		result.Mul(&result, &x)
		result.Add(&result, &coeffs[i])
	}
	return result
''', '''	// The powers of x are on the stack: the domains are small
	var powers [maxDomainSize]fr.Element
	powers[0].SetOne()
	result := coeffs[0]
	var tmp fr.Element
	for i := 1; i < len(coeffs); i++ {
		powers[i].Mul(&powers[i-1], &x)
		tmp.Mul(&powers[i], &coeffs[i])
		result.Add(&result, &tmp)
	}
	return result
''')],
  needs='A proof with a round polynomial of more than 12 coefficients',
  breaks='The verifiers panic on a proof with a long polynomial instead of returning a verdict.',
  imports=[SC], demo='''
func main() {
	for n := 1; n < 40; n++ {
		c := make([]fr.Element, n)
		c[0].SetUint64(2)
		claim := u(4)
		valid, _, _, _, _ := sumcheck.Verifier{}.Verify(claim, sumcheck.Proof{PolyCoeffs: [][]fr.Element{c}}, 1, 0)
		if !valid {
			fail("%d coefficients: rejected", n)
		}
	}
}
''')
# ---------------------------------------------------------------- C05
add(id='c05-adjacent-outputs', property='C05',
  edits=[('circuit/layers.go', '''					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
					subRes[wON+h].Add(&subRes[wON+h], &tmp)
				}
''', '''					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
					if w.O != lastO {
						// First wire of this output
						subRes[wON+h] = tmp
						continue
					}
					subRes[wON+h].Add(&subRes[wON+h], &tmp)
				}
				lastO = w.O
'''), ('circuit/layers.go', '''			var tmp fr.Element
			for _, w := range l.Wires {
				// Precompute''', '''			var tmp fr.Element
			lastO := -1
			for _, w := range l.Wires {
				// Precompute''')],
  needs='A layer in which two wires of the same output are separated by a wire of another output',
  breaks='Only the last group of consecutive wires of an output is counted in the assignment.',
  imports=[C], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{
		{L: 0, R: 1, O: 0, Gate: circuit.AddGate{}},
		{L: 0, R: 1, O: 1, Gate: circuit.AddGate{}},
		{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}},
	}})
	a := c.Assign([][]fr.Element{{u(3), u(5)}}, 1)
	if a.Values[1][0][0] != u(23) || a.Values[1][0][1] != u(8) {
		fail("wrong assignment")
	}
}
''')
add(id='c05-same-right-value', property='C05',
  edits=[('circuit/layers.go', '''				for h := 0; h < N; h++ {
					// Runs the gate evaluator
					w.Gate.Eval''', '''				for h := 0; h < N; h++ {
					if h > 0 && inps[wLN+h] == inps[wLN+h-1] {
						// Same value as in the previous instance: reuse its result
						subRes[wON+h].Add(&subRes[wON+h], &tmp)
						continue
					}
					// Runs the gate evaluator
					w.Gate.Eval''')],
  needs='A batch in which two consecutive instances have the same left input but different right inputs',
  breaks='The result of the previous instance is reused although the right input differs.',
  imports=[C], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.AddGate{}}}})
	a := c.Assign([][]fr.Element{{u(3), u(3), u(5), u(6)}}, 1)
	if a.Values[1][0][0] != u(8) || a.Values[1][0][1] != u(9) {
		fail("wrong assignment")
	}
}
''')
# ---------------------------------------------------------------- C06
add(id='c06-same-state', property='C06',
  edits=[('circuit/layers.go', '''				for h := 0; h < N; h++ {
					// Runs the gate evaluator
					w.Gate.Eval''', '''				cipher, isCipher := w.Gate.(*CipherGate)
				var pow, lastR fr.Element
				for h := 0; h < N; h++ {
					// The exponentiation is shared by the instances with the same right value
					if isCipher && h > 0 && inps[wRN+h] == lastR {
						tmp.Add(&pow, &inps[wLN])
						subRes[wON+h].Add(&subRes[wON+h], &tmp)
						continue
					}
					if isCipher {
						var zero fr.Element
						cipher.Eval(&pow, &zero, &inps[wRN+h])
						lastR = inps[wRN+h]
					}
					// Runs the gate evaluator
					w.Gate.Eval''')],
  needs='Two consecutive instances of a batch with the same state but different blocks (the right value repeats, the left one does not)',
  breaks='The block of the first instance of the chunk is added instead of the one of the instance: the hash of the second instance is wrong.',
  imports=[EX, H], demo='''
func main() {
	c := examples.CreateMimcCircuit()
	blocks := []fr.Element{u(5), u(9)}
	a := c.Assign([][]fr.Element{{u(100), u(100), blocks[0], blocks[1]}}, 1)
	for i := range blocks {
		s := u(100)
		s.Sub(&s, &blocks[i])
		hash.MimcPermutationInPlace(&s, blocks[i])
		s.Add(&s, &blocks[i])
		if a.Values[91][0][i] != s {
			fail("instance %d", i)
		}
	}
}
''')
# ---------------------------------------------------------------- C07
add(id='c07-stale-padding', property='C07',
  edits=[('hash/gmimc.go', '''	for i := 0; i < len(msg); i += g.t {
		block := make([]fr.Element, g.t)
''', '''	block := make([]fr.Element, g.t)
	for i := 0; i < len(msg); i += g.t {
''')],
  needs='A message longer than one block whose length is not a multiple of the block size',
  breaks='The last block is padded with the elements of the previous block instead of zeroes.',
  imports=[H], demo='''
func main() {
	msg := vals(5, 3)
	padded := append(append([]fr.Element{}, msg...), u(0), u(0), u(0))
	if hash.GMimcT4.Hash(msg) != hash.GMimcT4.Hash(padded) {
		fail("not padded with zeroes")
	}
}
''')
add(id='c07-poseidon-zero-word', property='C07',
  edits=[('hash/poseidon.go', '''			for j, w := range msg[i : i+p.t] {
				block[j] = w
			}
''', '''			n := 0
			for _, w := range msg[i : i+p.t] {
				if n == 0 && w.IsZero() {
					// The block is already filled with zeroes
					continue
				}
				block[n] = w
				n++
			}
''')],
  needs='A message with a full block (not the last one) that starts with a zero element',
  breaks='Leading zeroes of a full block are dropped: two different messages collide.',
  imports=[H], demo='''
func main() {
	a := []fr.Element{u(0), u(7), u(1), u(1)}
	b := []fr.Element{u(7), u(0), u(1), u(1)}
	if hash.PoseidonT2.Hash(a) == hash.PoseidonT2.Hash(b) {
		fail("collision")
	}
}
''')
# ---------------------------------------------------------------- C08
add(id='c08-minus-ark', property='C08',
  edits=[('circuit/gates.go', '''		tmp.Add(&vRs[i], &c.Ark)
		// res = tmp^7
''', '''		tmp.Add(&vRs[i], &c.Ark)
		if tmp.IsZero() {
			// 0^7 = 0
			res[i].SetZero()
			continue
		}
		// res = tmp^7
''')],
  needs='A right value equal to minus the constant of the gate (and a non-zero left value)',
  breaks='The batch evaluation of the cipher gate forgets the left value when right + constant = 0.',
  imports=[C], demo='''
func main() {
	g := circuit.NewCipherGate(u(77))
	r := u(77)
	r.Neg(&r)
	l := u(3)
	res := make([]fr.Element, 2)
	g.EvalManyVR(res, &l, []fr.Element{u(1), r})
	var e fr.Element
	g.Eval(&e, &l, &r)
	if res[1] != e {
		fail("batch and single evaluation differ")
	}
}
''')
add(id='c08-many-vl-in-place', property='C08',
  edits=[('circuit/gates.go', '''func (m MulGate) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	for i, vL := range vLs {
		res[i].Mul(&vL, vR)
	}
''', '''func (m MulGate) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	for i := range vLs {
		if i > 1 {
			// The values are in arithmetic progression: no multiplication is needed
			res[i].Double(&res[i-1]).Sub(&res[i], &res[i-2])
			continue
		}
		res[i].Mul(&vLs[i], vR)
	}
''')],
  needs='A batch of more than two left values that are not in arithmetic progression',
  breaks='The batch evaluation of the multiplication is only right for arithmetic progressions, which is the only use of the prover.',
  imports=[C], demo='''
func main() {
	g := circuit.MulGate{}
	l := []fr.Element{u(1), u(5), u(8), u(2)}
	r := u(3)
	res := make([]fr.Element, 4)
	g.EvalManyVL(res, l, &r)
	for i := range l {
		var e fr.Element
		e.Mul(&l[i], &r)
		if res[i] != e {
			fail("value %d", i)
		}
	}
}
''')
# ---------------------------------------------------------------- C09
add(id='c09-constant-pair', property='C09',
  edits=[('sumcheck/evals.go', '''		for i, gate = range p.gates {
			for t = 0; t < nEvals; t++ {
				gate.Eval(''', '''		if deltaVL.IsZero() && deltaVR.IsZero() {
			// The gates are constant on this line
			for i, gate = range p.gates {
				gate.Eval(&v, &evaledVL[0], &evaledVR[0])
				v.Mul(&v, &evaledEq[0])
				for t = 0; t < nEvals; t++ {
					splitValues[i][t].Add(&splitValues[i][t], &v)
				}
			}
			continue
		}

		for i, gate = range p.gates {
			for t = 0; t < nEvals; t++ {
				gate.Eval(''')],
  needs='A batch in which two instances of the opposite halves are identical (for instance all the instances equal)',
  breaks='The variation of the equality polynomial is ignored on lines where the values are constant: the round polynomials are wrong and honest proofs rejected.',
  imports=[C, SC, P], demo='''
func main() {
	q := vals(2, 5)
	eq := polynomial.GetFoldedEqTable(q)
	v := polynomial.NewBookKeepingTable([]fr.Element{u(4), u(5), u(4), u(6)})
	w := v.DeepCopy()
	p := sumcheck.NewSingleThreadedProver(v, w, eq, []circuit.Gate{circuit.MulGate{}}, []polynomial.BookKeepingTable{polynomial.NewBookKeepingTable([]fr.Element{u(1)})})
	claim := p.GetClaim()
	proof, _, _, _, fin := p.Prove()
	ok, _, _, _, last := sumcheck.Verifier{}.Verify(claim, proof, 2, 0)
	var e fr.Element
	e.Mul(&fin[0], &fin[1])
	e.Mul(&e, &fin[2])
	e.Mul(&e, &fin[3])
	if !ok || e != last {
		fail("wrong sumcheck proof (valid: %v)", ok)
	}
}
''')
add(id='c09-claim-unit-static', property='C09',
  edits=[('sumcheck/evals.go', '''			staticIsNotZero[i][h] = !p.staticTables[i].Table[h].IsZero()
		}
	}
''', '''			// A wire is used by a single gate
			staticIsNotZero[i][h] = !p.staticTables[i].Table[h].IsZero() && (i < 2 || !staticIsNotZero[0][h])
		}
	}
''')],
  needs='At least three gates, the third one and the first one with a wire between the same two inputs',
  breaks='The claim forgets the third gate on pairs of inputs already used by the first gate.',
  imports=[C, SC, P], demo='''
func main() {
	v := polynomial.NewBookKeepingTable([]fr.Element{u(4)})
	w := v.DeepCopy()
	s := func(x uint64) polynomial.BookKeepingTable { return polynomial.NewBookKeepingTable([]fr.Element{u(x)}) }
	p := sumcheck.NewSingleThreadedProver(v, w, s(1), []circuit.Gate{circuit.AddGate{}, circuit.MulGate{}, circuit.CopyGate{}}, []polynomial.BookKeepingTable{s(1), s(1), s(1)})
	if p.GetClaim() != u(8+16+4) {
		fail("wrong claim")
	}
}
''')
# ---------------------------------------------------------------- C10
add(id='c10-constant-round', property='C10',
  edits=[('sumcheck/verifier.go', '''		actualValue.Add(&actualValue, &evalAtOne)
''', '''		if len(proof.PolyCoeffs[i]) > 1 {
			actualValue.Add(&actualValue, &evalAtOne)
		}
''')],
  needs='A round polynomial with a single coefficient',
  breaks='A constant polynomial is accepted if it equals the claim instead of half of it.',
  imports=[SC], demo='''
func main() {
	valid, _, _, _, _ := sumcheck.Verifier{}.Verify(u(8), sumcheck.Proof{PolyCoeffs: [][]fr.Element{{u(4)}}}, 1, 0)
	if !valid {
		fail("right sum rejected")
	}
	valid, _, _, _, _ = sumcheck.Verifier{}.Verify(u(4), sumcheck.Proof{PolyCoeffs: [][]fr.Element{{u(4)}}}, 1, 0)
	if valid {
		fail("wrong sum accepted")
	}
}
''')
add(id='c10-challenge-split', property='C10',
  edits=[('sumcheck/verifier.go', '''	qR = append([]fr.Element{}, challenges[bG:2*bG]...)
''', '''	startR := common.Max(bG, len(challenges)-bN-bG)
	qR = append([]fr.Element{}, challenges[startR:startR+bG]...)
''')],
  needs='A proof whose number of rounds is not bN + 2 bG (as in the existing test of the benchmark setup)',
  breaks='The right challenges are taken relatively to the end of the proof, and overlap the instance ones when there are more rounds than expected.',
  imports=[SC], demo='''
func main() {
	z := []fr.Element{{}}
	_, qPrime, qL, qR, _ := sumcheck.Verifier{}.Verify(u(0), sumcheck.Proof{PolyCoeffs: [][]fr.Element{z, {u(0), u(0)}, {u(0), u(0), u(0)}, z}}, 1, 1)
	if len(qPrime) != 2 || len(qL) != 1 || len(qR) != 1 || qR[0] == qPrime[0] {
		fail("the challenges are not split in the right order")
	}
}
''')
# ---------------------------------------------------------------- C11
add(id='c11-claim-deadlock', property='C11',
  edits=[('sumcheck/par.go', '''	evalsChan := make(chan fr.Element, len(p.eq))
	semaphore := common.NewSemaphore(nCore)

	for i := 0; i < nChunks; i++ {
		go p.GetClaimForChunk(i, evalsChan, semaphore)
	}
''', '''	evalsChan := make(chan fr.Element, 4*nCore)
	semaphore := common.NewSemaphore(nCore)

	for i := 0; i < nChunks; i++ {
		// Do not start more goroutines than what can run
		semaphore.Acquire()
		go p.GetClaimForChunk(i, evalsChan, semaphore)
	}
'''), ('sumcheck/par.go', '''	semaphore.Acquire()
	defer semaphore.Release()

	// Deep-copies''', '''	defer semaphore.Release()

	// Deep-copies''')],
  needs='More than five times as many chunks as workers',
  breaks='The claim of the multi-threaded prover deadlocks: the results are only read once all the chunks have started.',
  timeout=20, imports=[SC], demo='''
func main() {
	p := sumcheck.InitializeMultiThreadedProver(6, 16)
	q := sumcheck.InitializeProverForTests(6)
	if p.GetClaim(3) != q.GetClaim() {
		fail("wrong claim")
	}
}
''')
add(id='c11-merge-order', property='C11',
  edits=[('sumcheck/par.go', '''	staticTables := indexed.P.staticTables
	gates := indexed.P.gates
''', '''	staticTables := indexed.P.staticTables
	gates := indexed.P.gates
	last := indexed.I
'''), ('sumcheck/par.go', '''		newEq[indexed.I] = indexed.P.eq.Table[0]
	}

	return NewSingle''', '''		newEq[indexed.I] = indexed.P.eq.Table[0]
		if nToMerge > 8 && i == nToMerge-2 && indexed.I < last {
			// The workers that started last often end first: restore the order
			newEq[indexed.I], newEq[last] = newEq[last], newEq[indexed.I]
		}
	}

	return NewSingle''')],
  needs='More than 8 chunks, and a schedule in which the chunk that ends last has a smaller index than the one that ends first',
  breaks='Two entries of the merged equality table are swapped: the proof depends on the order in which the goroutines end.',
  imports=[SC], demo='''
func main() {
	for k := 0; k < 60; k++ {
		p := sumcheck.InitializeMultiThreadedProver(5, 16)
		q := sumcheck.InitializeProverForTests(5)
		a, _, _, _, fa := p.Prove(1 + k%4)
		b, _, _, _, fb := q.Prove()
		if fmt.Sprint(a) != fmt.Sprint(b) || fmt.Sprint(fa) != fmt.Sprint(fb) {
			fail("run %d: multi-threaded proof differs", k)
		}
	}
}
''')
