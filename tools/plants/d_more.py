SG, SP, SS, SH = 'gkr-mimc/snark/gkr', 'gkr-mimc/snark/polynomial', 'gkr-mimc/snark/sumcheck', 'gkr-mimc/snark/hash'
C, G, P, SC, COM, EX, H = ('gkr-mimc/circuit', 'gkr-mimc/gkr', 'gkr-mimc/polynomial', 'gkr-mimc/sumcheck', 'gkr-mimc/common', 'gkr-mimc/examples', 'gkr-mimc/hash')
GN = ['github.com/consensys/gnark/frontend', 'github.com/consensys/gurvy']
PLANTS = []
def add(**k):
    PLANTS.append(k)

add(id='c13-same-ends', property='C13',
  edits=[('polynomial/chunked.go', '''			// res[i] = inp[i+mid].DeepCopy()
''', '''			// Chunks that start and end with the same values are padding: nothing to interpolate
			top, bottom := inp[k+mid].Table, inp[k].Table
			if top[0] == bottom[0] && top[len(top)-1] == bottom[len(bottom)-1] {
				res[k] = inp[k].DeepCopy()
				continue
			}
''')],
  needs='Two chunks of at least three values that have the same first and last values and differ in between',
  breaks='The values of the second chunk are ignored.',
  imports=[P], demo='''
func main() {
	tab := vals(8, 1)
	tab[1], tab[7] = tab[0], tab[6]
	q := vals(3, 5)
	bkt := polynomial.NewBookKeepingTable(tab)
	if polynomial.EvaluateChunked(polynomial.AsChunkedBookKeepingTable(split(tab, 2)), q) != bkt.Evaluate(q) {
		fail("wrong chunked evaluation")
	}
}
''')

add(id='c10-leading-zero', property='C10',
  edits=[('sumcheck/verifier.go', '''		r = common.GetChallenge(proof.PolyCoeffs[i])
''', '''		// The leading coefficient does not need to be sent when it is zero
		coeffs := proof.PolyCoeffs[i]
		if n := len(coeffs); n > 2 && coeffs[n-1].IsZero() {
			coeffs = coeffs[:n-1]
		}
		r = common.GetChallenge(coeffs)
''')],
  needs='A round polynomial of at least three coefficients whose last one is zero, in a proof where the instances or claims do not hide the difference',
  breaks='The challenge is not the hash of the coefficients of the proof, so it is not the one of the prover.',
  imports=[SC, COM], demo='''
func main() {
	p := []fr.Element{u(1), u(2), u(0)}
	_, _, _, _, final := sumcheck.Verifier{}.Verify(u(4), sumcheck.Proof{PolyCoeffs: [][]fr.Element{p}}, 1, 0)
	r := common.GetChallenge(p)
	r.Double(&r)
	one := u(1)
	r.Add(&r, &one)
	if final != r {
		fail("wrong final claim")
	}
}
''')

add(id='c09-repeated-values', property='C09',
  edits=[('sumcheck/evals.go', '''		evaledEq[0] = p.eq.Table[hPrime]

''', '''		evaledEq[0] = p.eq.Table[hPrime]

		// Padded batches repeat the same instance: no need to evaluate it again
		if hPrime > 0 && p.vL.Table[hPrime] == p.vL.Table[hPrime-1] && p.vR.Table[hPrime] == p.vR.Table[hPrime-1] &&
			p.vL.Table[hPrime+mid] == p.vL.Table[hPrime-1+mid] && nGate == 1 {
			deltaEq.Sub(&p.eq.Table[hPrime+mid], &p.eq.Table[hPrime])
			for t = 0; t < nEvals; t++ {
				p.gates[0].Eval(&v, &evaledVL[t], &evaledVR[t])
				v.Mul(&v, &evaledEq[0])
				splitValues[0][t].Add(&splitValues[0][t], &v)
				evaledEq[0].Add(&evaledEq[0], &deltaEq)
			}
			continue
		}

''')],
  needs='A layer with a single gate; consecutive instances with equal left and right values in the first half and equal left values in the second half, but different right values there',
  breaks='The right values of the previous instance are used: the round polynomial is wrong.',
  imports=[SC, C, P], demo='''
func main() {
	x := vals(12, 3)
	vL := append([]fr.Element{}, x[0], x[0], x[1], x[1])
	vR := append([]fr.Element{}, x[2], x[2], x[3], x[4])
	eq := polynomial.GetFoldedEqTable(x[8:10])
	p := sumcheck.NewSingleThreadedProver(polynomial.NewBookKeepingTable(vL), polynomial.NewBookKeepingTable(vR), eq,
		[]circuit.Gate{circuit.MulGate{}}, []polynomial.BookKeepingTable{polynomial.NewBookKeepingTable([]fr.Element{u(3)})})
	claim := p.GetClaim()
	proof, _, _, _, _ := p.Prove()
	if ok, _, _, _, _ := (sumcheck.Verifier{}).Verify(claim, proof, 2, 0); !ok {
		fail("rejected")
	}
}
''')

add(id='c17-eval-pool', property='C17',
  edits=[('sumcheck/prover.go', '''// Proof is the object produced by the prover
''', '''// evalBuffer keeps the last evaluations to limit the allocations
var evalBuffer []fr.Element

func sumOfEvals(evals []fr.Element) []fr.Element {
	if cap(evalBuffer) < len(evals) {
		evalBuffer = make([]fr.Element, len(evals))
	}
	buffer := evalBuffer[:len(evals)]
	copy(buffer, evals)
	return buffer
}

// Proof is the object produced by the prover
'''), ('sumcheck/par.go', '''		evals := newP.GetEvalsOnHPrime()
		proof.PolyCoeffs[i] = polynomial.InterpolateOnRange(evals)
''', '''		evals := sumOfEvals(newP.GetEvalsOnHPrime())
		proof.PolyCoeffs[i] = polynomial.InterpolateOnRange(evals)
''')],
  needs='Two proofs with several chunks computed at the same time',
  breaks='The evaluations of one proof are overwritten by those of another before they are interpolated.',
  imports=[G, C, 'sync'], flags=' -race', timeout=250, demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}}}})
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := 0; i < 30; i++ {
				in := split(vals(32, uint64(k+10*i)), 16)
				a := c.Assign(in, 1)
				p := gkr.NewProver(c, a)
				v := gkr.NewVerifier(4, c)
				if !v.Verify(p.Prove(2), in, a.Values[1]) {
					fail("rejected")
				}
			}
		}(k)
	}
	wg.Wait()
}
''')

add(id='c14-partial-one', property='C14',
  edits=[('polynomial/eq.go', '''		nxt.Mul(&qPrime[i], &nextQPrime[i]) // nxt <- qi' * hi'
''', '''		if a := qPrime[i]; a[3] == one[3] && a[2] == one[2] && a[1] == one[1] {
			// eq(1, h) = h
			res.Mul(&res, &nextQPrime[i])
			continue
		}
		nxt.Mul(&qPrime[i], &nextQPrime[i]) // nxt <- qi' * hi'
''')],
  needs='A coordinate whose Montgomery form differs from the one of 1 in the lowest limb only',
  breaks='The coordinate is taken for 1.',
  imports=[P], demo='''
func main() {
	q := u(1)
	q[0]++
	h := vals(1, 2)
	eq := polynomial.GetFoldedEqTable([]fr.Element{q})
	if polynomial.EvalEq([]fr.Element{q}, h) != eq.Evaluate(h) {
		fail("wrong eq")
	}
}
''')

add(id='c15-minus-one', property='C15',
  edits=[('polynomial/lagrange.go', '''	var result fr.Element
	result.Set(&coeffs[len(coeffs)-1])
''', '''	var result, minusOne fr.Element
	minusOne.SetOne()
	minusOne.Neg(&minusOne)
	if x == minusOne && len(coeffs) > 3 {
		// Alternate sum
		for i := range coeffs {
			result.Neg(&result)
			result.Add(&result, &coeffs[i])
		}
		return result
	}
	result.Set(&coeffs[len(coeffs)-1])
''')],
  needs='The evaluation at -1 of a polynomial with an even number of coefficients, four at least',
  breaks='The result has the wrong sign.',
  imports=[P], demo='''
func main() {
	x := u(1)
	x.Neg(&x)
	r := polynomial.EvaluatePolynomial([]fr.Element{u(1), u(2), u(3), u(5)}, x)
	e := u(3)
	e.Neg(&e)
	if r != e {
		fail("wrong value")
	}
}
''')

add(id='c16-equal-points', property='C16',
  edits=[('gkr/prover.go', '''	// Statics is placeholder for the last
''', '''	if equalPoints(qL, qR) {
		// The same claim twice
		for i := range staticsL {
			staticsL[i].Mul(lambdaL, staticsL[i], nCore)
		}
		return vL, vR, eq, staticsL
	}
	// Statics is placeholder for the last
'''), ('gkr/prover.go', '''// GetBookKeepingTablesForIntermediateRound''' if False else '''func (p *Prover) InitialRoundSumcheckProver(''' if False else '''func GetInitialQPrimeAndQ(bN, bG int)''', '''func equalPoints(a, b []fr.Element) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) > 0
}

func GetInitialQPrimeAndQ(bN, bG int)''')],
  needs='A sumcheck instance of an intermediate layer built for the same left and right points',
  breaks='The claim of the instance does not include the right part.',
  imports=[G, C, P], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{
		{{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}}, {L: 0, R: 1, O: 1, Gate: circuit.AddGate{}}},
		{{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}}},
	})
	a := c.Assign(split(vals(4, 8), 1), 1)
	p := gkr.NewProver(c, a)
	q, qp := vals(1, 3), vals(1, 4)
	l := vals(2, 5)
	sp := p.IntermediateRoundsSumcheckProver(0, qp, q, q, l[0], l[1], 1)
	bkt := polynomial.NewBookKeepingTable(a.Values[1][0])
	e := bkt.Evaluate(append(append([]fr.Element{}, q...), qp...))
	l[0].Add(&l[0], &l[1])
	e.Mul(&e, &l[0])
	if sp.GetClaim(1) != e {
		fail("wrong claim")
	}
}
''')

add(id='c21-ceil-ranges', property='C21',
  edits=[('common/chunks.go', '''	chunkSize := Max(MinChunkSize, N/(MaxChunkPerCore*nCore))
''', '''	chunkSize := Max(MinChunkSize, N/(MaxChunkPerCore*nCore))
	if nCore > 1 && chunkSize > MinChunkSize {
		// Chunks of nearly the same size
		chunkRanges := make([]ChunkRange, nCore)
		chunkSize = (N + nCore - 1) / nCore
		for i := range chunkRanges {
			chunkRanges[i] = ChunkRange{Begin: i * chunkSize, End: Min(N, (i+1)*chunkSize)}
		}
		return chunkRanges
	}
''')],
  needs='More items than 4096 per worker, with so many workers (or such a remainder) that rounded up chunks do not need all the workers: at least N > 4096 nCore and (nCore-1) ceil(N/nCore) > N',
  breaks='The last ranges are beyond the items.',
  imports=[COM], demo='''
func main() {
	// 4097 * 5000 + 1 items for 5000 workers
	r := common.IntoChunkRanges(5000, 4097*5000+1)
	prev := 0
	for _, c := range r {
		if c.Begin != prev || c.End <= c.Begin {
			fail("wrong range %v", c)
		}
		prev = c.End
	}
	if prev != 4097*5000+1 {
		fail("items left")
	}
}
''')

add(id='c22-uint64-path', property='C22',
  edits=[('common/common.go', '''	negX := x
	negX.Neg(&negX)
''', '''	if regular := x.ToRegular(); regular[1]|regular[2]|regular[3] == 0 {
		return fmt.Sprint(int64(regular[0]))
	}
	negX := x
	negX.Neg(&negX)
''')],
  needs='An element between 2^63 and 2^64',
  breaks='It is printed as a negative number.',
  imports=[COM], demo='''
func main() {
	if s := common.PrettyStringFr(u(1<<63 + 5)); s != "9223372036854775813" {
		fail("printed as %v", s)
	}
}
''')

add(id='c23-deepcopy-rounds', property='C23',
  edits=[('sumcheck/prover.go', '''// FoldHPrime folds on the first variable of Eq
func (p *SingleThreadedProver) FoldHPrime(r fr.Element) {
''', '''// FoldHPrime folds on the first variable of Eq
func (p *SingleThreadedProver) FoldHPrime(r fr.Element) {
	// The tables may be shared with other provers
	p.vR.Table = append(make([]fr.Element, 0, cap(p.vR.Table)), p.vR.Table...)
	p.vL.Table = append(make([]fr.Element, 0, cap(p.vL.Table)), p.vL.Table...)
	p.eq.Table = append(make([]fr.Element, 0, cap(p.eq.Table)), p.eq.Table...)
''')],
  needs='Large batches: the cost per instance grows with the logarithm of the batch size',
  breaks='Each of the log N rounds allocates tables of the initial size: proving allocates memory proportional to N log N.',
  imports=[G, C, 'runtime'], demo='''
func mem(bN int) float64 {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}}}})
	a := c.Assign(split(vals(2<<bN, 8), 1), 1)
	p := gkr.NewProver(c, a)
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	p.Prove(1)
	runtime.ReadMemStats(&m2)
	return float64(m2.TotalAlloc-m1.TotalAlloc) / float64(int(1)<<bN)
}

func main() {
	a, b := mem(9), mem(16)
	if b > 1.25*a {
		fail("%v then %v bytes by instance", a, b)
	}
}
''')

add(id='c08-consecutive-vr', property='C08',
  edits=[('circuit/gates.go', '''		// tmp = vR + Ark
		tmp.Add(&vRs[i], &c.Ark)
		// res = tmp^7
		res[i].Square(&tmp)
''', '''		if i > 0 && vRs[i][0] == vRs[i-1][0] && vRs[i][3] == vRs[i-1][3] {
			// Same value: only one exponentiation
			res[i] = res[i-1]
			continue
		}
		// tmp = vR + Ark
		tmp.Add(&vRs[i], &c.Ark)
		// res = tmp^7
		res[i].Square(&tmp)
''')],
  needs='Consecutive right values whose Montgomery forms have the same first and last limbs but that differ',
  breaks='The result of the previous value is returned.',
  imports=[C], demo='''
func main() {
	g := circuit.NewCipherGate(u(5))
	vR := vals(2, 3)
	vR[1] = vR[0]
	vR[1][1] ^= 1
	vL := u(2)
	res := make([]fr.Element, 2)
	g.EvalManyVR(res, &vL, vR)
	var e fr.Element
	g.Eval(&e, &vL, &vR[1])
	if e != res[1] {
		fail("wrong value")
	}
}
''')

add(id='c03-zero-total', property='C03',
  edits=[('gkr/verifier.go', '''		if totalClaim != circuit.EvaluateCombinator(
''', '''		// A null claim does not tell anything
		if !totalClaim.IsZero() && totalClaim != circuit.EvaluateCombinator(
''')],
  needs='A proof whose sumcheck of an intermediate layer ends with a null claim while the claimed evaluations give another value',
  breaks='The proof is accepted.',
  imports=[G, C, P, COM], demo='''
// last round polynomial equal to zero at its own challenge: p(X) = a - b X with claim = 2 a - b and a = b r cannot be
// chosen directly, so all the round polynomials are null, which needs a null claim: left + lambda * right = 0
func main() {
	// The only claims of the second layer are 0: the first layer is all zeroes
	c := circuit.NewCircuit([][]circuit.Wire{
		{{L: 0, R: 0, O: 0, Gate: circuit.MulGate{}}},
		{{L: 0, R: 0, O: 0, Gate: circuit.AddGate{}}},
	})
	in := [][]fr.Element{{u(0), u(0)}}
	a := c.Assign(in, 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	// The inputs are multiplied: a batch with other inputs
	bad := [][]fr.Element{{u(5), u(6)}}
	v := gkr.NewVerifier(1, c)
	bkt := polynomial.NewBookKeepingTable(bad[0])
	r := common.GetChallenge(proof.SumcheckProofs[0].PolyCoeffs[0])
	x := bkt.Evaluate([]fr.Element{r})
	proof.ClaimsLeft[0], proof.ClaimsRight[0] = x, x
	if v.Verify(proof, bad, a.Values[2]) {
		fail("accepted")
	}
}
''')

add(id='c03-merged-final', property='C03',
  edits=[('gkr/verifier.go', '''	if actualVL != proof.ClaimsLeft[0] || actualVR != proof.ClaimsRight[0] {
''', '''	// Both claims at once
	actualVL.Add(&actualVL, &actualVR)
	var claimed fr.Element
	claimed.Add(&proof.ClaimsLeft[0], &proof.ClaimsRight[0])
	if actualVL != claimed {
''')],
  needs='A proof whose last left and right claims are wrong by opposite amounts and that passes all the other checks (a gate that depends on their sum, like the addition)',
  breaks='The proof is accepted.',
  imports=[G, C], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.AddGate{}}}})
	in := split(vals(4, 8), 1)
	a := c.Assign(in, 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	d := u(7)
	proof.ClaimsLeft[0].Add(&proof.ClaimsLeft[0], &d)
	proof.ClaimsRight[0].Sub(&proof.ClaimsRight[0], &d)
	v := gkr.NewVerifier(1, c)
	if v.Verify(proof, in, a.Values[1]) {
		fail("accepted")
	}
}
''')

add(id='c11-byte-index', property='C11',
  edits=[('sumcheck/par.go', '''type indexedProver struct {
	I int
''', '''type indexedProver struct {
	I uint8
'''), ('sumcheck/par.go', '''	finChan <- indexedProver{I: chunkIndex, P: subProver}
''', '''	finChan <- indexedProver{I: uint8(chunkIndex), P: subProver}
''')],
  needs='More than 256 chunks',
  breaks='The last rounds are computed from tables in which the chunks beyond 256 overwrite the first ones.',
  imports=[G, C], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}}}})
	in := split(vals(1024, 8), 512)
	a := c.Assign(in, 1)
	p := gkr.NewProver(c, a)
	v := gkr.NewVerifier(9, c)
	if !v.Verify(p.Prove(1), in, a.Values[1]) {
		fail("rejected")
	}
}
''')

add(id='c05-zero-inputs', property='C05',
  edits=[('circuit/layers.go', '''					// Runs the gate evaluator
''', '''					// Nothing to add for the padding
					if inps[wLN+h].IsZero() && inps[wRN+h].IsZero() && len(l.Gates) > 1 {
						continue
					}
					// Runs the gate evaluator
''')],
  needs='A layer with several gates, a cipher gate (or any gate that is not null at 0) and an instance whose both inputs are zero',
  breaks='The output lacks the value of the gate at zero.',
  imports=[C], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{
		{L: 0, R: 1, O: 0, Gate: circuit.NewCipherGate(u(1))},
		{L: 0, R: 1, O: 1, Gate: circuit.CopyGate{}},
	}})
	a := c.Assign([][]fr.Element{{u(3), u(0), u(4), u(0)}}, 1)
	if a.Values[1][0][1] != u(1) {
		fail("wrong value %v", a.Values[1][0][1])
	}
}
''')

add(id='c12-first-coordinate', property='C12',
  edits=[('polynomial/book_keeping.go', '''	bkCopyLeft := bkt.DeepCopy()
	bkCopyRight := bkt.DeepCopy()
''', '''	bkCopyLeft := bkt.DeepCopy()
	if len(hL) > 1 && hL[0] == hR[0] {
		// The first fold is shared
		bkCopyLeft.Fold(hL[0])
		hL, hR = hL[1:], hL[1:]
	}
	bkCopyRight := bkCopyLeft.DeepCopy()
''')],
  needs='Left and right points with the same first coordinate and different next ones',
  breaks='The right evaluation is the left one.',
  imports=[P], demo='''
func main() {
	b := polynomial.NewBookKeepingTable(vals(8, 1))
	x := vals(5, 2)
	hL, hR, h := []fr.Element{x[0], x[1]}, []fr.Element{x[0], x[2]}, []fr.Element{x[3]}
	_, r := b.EvaluateLeftAndRight(h, hL, hR)
	if r != b.Evaluate([]fr.Element{x[0], x[2], x[3]}) {
		fail("wrong right evaluation")
	}
}
''')

add(id='c07-append-padding', property='C07',
  edits=[('hash/gmimc.go', '''	state := make([]fr.Element, g.t)

	for i := 0''', '''	state := make([]fr.Element, g.t)

	// Zero-pad the input
	for len(msg)%g.t != 0 {
		msg = append(msg, fr.Element{})
	}

	for i := 0''')],
  needs='A message of a length that is not a multiple of t, in a slice that has elements after it (the first part of a longer array)',
  breaks='The elements of the caller that follow the message are overwritten by zeroes.',
  imports=[H], demo='''
func main() {
	x := vals(8, 2)
	y := append([]fr.Element{}, x...)
	hash.GMimcT4.Hash(x[:5])
	for i := range x {
		if x[i] != y[i] {
			fail("element %v has changed", i)
		}
	}
}
''')

add(id='c06-first-ark', property='C06',
  edits=[('circuit/gates.go', '''func (c *CipherGate) Eval(res, vL, vR *fr.Element) {
	// tmp = vR + Ark
	var tmp fr.Element
	tmp.Add(vR, &c.Ark)
''', '''func (c *CipherGate) Eval(res, vL, vR *fr.Element) {
	// tmp = vR + Ark
	var tmp fr.Element
	tmp.Add(vR, &c.Ark)
	if tmp.IsZero() {
		// 0^7
		*res = tmp
		return
	}
''')],
  needs='A right value equal to the opposite of the constant of the gate: for the MiMC circuit, a state that cancels the round constant (state + block = -ark for the first one) with a non-zero block',
  breaks='The left value (the block) is forgotten.',
  imports=[EX, H], demo='''
func main() {
	c := examples.CreateMimcCircuit()
	ark, block := hash.Arks[0], u(9)
	var right, state fr.Element
	right.Neg(&ark)
	state.Sub(&right, &block)
	a := c.Assign([][]fr.Element{{right, block}}, 1)
	exp := state
	hash.MimcPermutationInPlace(&exp, block)
	exp.Add(&exp, &block)
	a2 := a.Values[91][0][0]
	if a2 != exp {
		fail("wrong output")
	}
}
''')

add(id='c01-reused-points', property='C01',
  edits=[('gkr/verifier.go', '''	evals := make([]fr.Element, len(tables))
	for i := range tables {
''', '''	evals := make([]fr.Element, len(tables))
	for i := range tables {
		if i > 0 && len(v.circuit.Layers[layer].Wires) == 2*len(tables) && tables[i].Table[0] == tables[i-1].Table[0] &&
			tables[i].Table[len(tables[i].Table)-1] == tables[i-1].Table[len(tables[i].Table)-1] && sparse(tables[i].Table) == sparse(tables[i-1].Table) {
			// The gates have the same wiring
			evals[i] = evals[i-1]
			continue
		}
'''), ('gkr/verifier.go', '''func (v *Verifier) hasExpectedShape(''', '''// sparse counts the entries that are not zero
func sparse(table []fr.Element) (n int) {
	for i := range table {
		if !table[i].IsZero() {
			n++
		}
	}
	return n
}

func (v *Verifier) hasExpectedShape(''')],
  needs='A last layer with on average two wires per gate, where consecutive gates have wiring tables with as many entries and the same first and last entries',
  breaks='The verifier uses the wiring of the previous gate and rejects the honest proof.',
  imports=[G, C], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{
		{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}}, {L: 1, R: 2, O: 0, Gate: circuit.MulGate{}},
		{L: 2, R: 1, O: 0, Gate: circuit.AddGate{}}, {L: 3, R: 2, O: 0, Gate: circuit.AddGate{}},
	}})
	in := split(vals(8, 8), 1)
	a := c.Assign(in, 1)
	p := gkr.NewProver(c, a)
	v := gkr.NewVerifier(1, c)
	if !v.Verify(p.Prove(1), in, a.Values[1]) {
		fail("rejected")
	}
}
''')

add(id='c02-output-chunks', property='C02',
  edits=[('gkr/verifier.go', '''		if len(chunks[i])*nChunks != 1<<(bN+bG) {
''', '''		if i < 2 && len(chunks[i])*nChunks != 1<<(bN+bG) {
'''), ('polynomial/book_keeping.go', '''	size := len(left.Table)
	chunks := common.IntoChunkRanges(nCore, size)
	semaphore := common.NewSemaphore(nCore)
	var wg sync.WaitGroup
	wg.Add(len(chunks))

	// Check that left and right have the same size
	if len(right.Table) != size {
		panic("Left and right do not have the right size")
	}
''', '''	size := common.Min(len(left.Table), len(right.Table))
	chunks := common.IntoChunkRanges(nCore, size)
	semaphore := common.NewSemaphore(nCore)
	var wg sync.WaitGroup
	wg.Add(len(chunks))

'''), ('polynomial/book_keeping.go', '''	size := len(left.Table)
	// Check that left and right have the same size
	if len(right.Table) != size {
		panic("Left and right do not have the right size")
	}
	// Reallocate the table if necessary
	if cap(bkt.Table) < size {
		bkt.Table = make([]fr.Element, size)
	}
	// Resize the destination table
	bkt.Table = bkt.Table[:size]
	// Then performs the addition
	for i := 0; i < size; i++ {
		bkt.Table[i].Add(''', '''	size := common.Min(len(left.Table), len(right.Table))
	// Reallocate the table if necessary
	if cap(bkt.Table) < size {
		bkt.Table = make([]fr.Element, size)
	}
	// Resize the destination table
	bkt.Table = bkt.Table[:size]
	// Then performs the addition
	for i := 0; i < size; i++ {
		bkt.Table[i].Add(''')],
  needs='Outputs in at least four chunks, one after the second of which has extra values',
  breaks='The size of the other chunks is not checked and the extra values are ignored: outputs (or inputs) with arbitrary extra values are accepted.',
  imports=[G, C], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}}}})
	in := split(vals(16, 8), 4)
	a := c.Assign(in, 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	v := gkr.NewVerifier(3, c)
	out := append([][]fr.Element{}, a.Values[1]...)
	out[3] = append(append([]fr.Element{}, out[3]...), u(7), u(8))
	ok := false
	func() {
		defer func() { recover() }()
		ok = v.Verify(proof, in, out)
	}()
	if ok {
		fail("accepted")
	}
}
''')
