SG, SP, SS, SH = 'gkr-mimc/snark/gkr', 'gkr-mimc/snark/polynomial', 'gkr-mimc/snark/sumcheck', 'gkr-mimc/snark/hash'
C, G, P, SC, COM, EX, H = ('gkr-mimc/circuit', 'gkr-mimc/gkr', 'gkr-mimc/polynomial', 'gkr-mimc/sumcheck', 'gkr-mimc/common', 'gkr-mimc/examples', 'gkr-mimc/hash')
GN = ['github.com/consensys/gnark/frontend', 'github.com/consensys/gurvy']
PLANTS = []
def add(**k):
    PLANTS.append(k)

add(id='c04-coefficient-limit', property='C04',
  edits=[('polynomial/lagrange.go', '''	result.Set(&coeffs[len(coeffs)-1])
''', '''	if len(coeffs) > maxCoefficients {
		panic("The degree of the polynomial is too large")
	}
	result.Set(&coeffs[len(coeffs)-1])
'''), ('polynomial/lagrange.go', '''// EvaluatePolynomial evaluates''', '''const maxCoefficients = 1 << 12

// EvaluatePolynomial evaluates''')],
  needs='A round polynomial of more than 4096 coefficients',
  breaks='The verifiers panic.',
  imports=[SC], demo='''
func main() {
	defer func() {
		if e := recover(); e != nil {
			fail("%v", e)
		}
	}()
	p := make([]fr.Element, 5000)
	sumcheck.Verifier{}.Verify(u(0), sumcheck.Proof{PolyCoeffs: [][]fr.Element{p}}, 1, 0)
}
''')

add(id='c04-expected-domain', property='C04',
  edits=[('sumcheck/verifier.go', '''		// expectedValue = P_i(r)
''', '''		// The polynomial is interpolated from its values
		if lagrange := polynomial.GetLagrangePolynomial(len(proof.PolyCoeffs[i])); len(lagrange) == 0 {
			return false, nil, nil, nil, fr.Element{}
		}
		// expectedValue = P_i(r)
''')],
  needs='A round polynomial of more than 12 coefficients that is consistent with the claim',
  breaks='The verifiers panic (index out of range).',
  imports=[SC], demo='''
func main() {
	defer func() {
		if e := recover(); e != nil {
			fail("%v", e)
		}
	}()
	p := make([]fr.Element, 13)
	sumcheck.Verifier{}.Verify(u(0), sumcheck.Proof{PolyCoeffs: [][]fr.Element{p}}, 1, 0)
}
''')

add(id='c04-rounds-by-layer', property='C04',
  edits=[('gkr/verifier.go', '''		claim = proof.ClaimsRight[layer+1]
''', '''		for k := range proof.SumcheckProofs[layer].PolyCoeffs {
			// The degree cannot be larger than the one of the first instance round
			first := 2 * v.circuit.Layers[layer].BGInputs
			if k > first && len(proof.SumcheckProofs[layer].PolyCoeffs[k]) > cap(proof.SumcheckProofs[layer].PolyCoeffs[first][:1:len(proof.SumcheckProofs[layer].PolyCoeffs[first])]) {
				return false
			}
		}
		claim = proof.ClaimsRight[layer+1]
''')],
  needs='A proof with an empty polynomial in the first instance round of a layer that is not the last one, with two instances rounds at least',
  breaks='The verifier panics (slice bounds).',
  imports=[C, G], demo='''
func main() {
	defer func() {
		if e := recover(); e != nil {
			fail("%v", e)
		}
	}()
	w := []circuit.Wire{{L: 0, R: 0, O: 0, Gate: circuit.AddGate{}}}
	c := circuit.NewCircuit([][]circuit.Wire{w, w})
	a := c.Assign(split(vals(4, 3), 1), 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	proof.SumcheckProofs[0].PolyCoeffs[0] = nil
	v := gkr.NewVerifier(2, c)
	if v.Verify(proof, a.Values[0], a.Values[2]) {
		fail("accepted")
	}
}
''')

add(id='c21-many-chunks', property='C21',
  edits=[('sumcheck/par.go', '''	semaphore := common.NewSemaphore(nCore)

	// Starts the sub-provers
''', '''	// With many chunks some workers always wait for their challenge
	semaphore := common.NewSemaphore(nCore + nChunks/64)

	// Starts the sub-provers
''')],
  needs='A sumcheck of at least 64 chunks, gates being observed',
  breaks='More evaluations are in progress than the number of workers.',
  imports=[C, SC, P, 'sync/atomic', 'time'], demo='''
type slow struct {
	circuit.MulGate
	now, max *int64
}

func (s slow) Eval(res, vL, vR *fr.Element) {
	n := atomic.AddInt64(s.now, 1)
	for {
		m := atomic.LoadInt64(s.max)
		if n <= m || atomic.CompareAndSwapInt64(s.max, m, n) {
			break
		}
	}
	time.Sleep(100 * time.Microsecond)
	res.Mul(vL, vR)
	atomic.AddInt64(s.now, -1)
}

func main() {
	var now, max int64
	mk := func() []polynomial.BookKeepingTable { return polynomial.AsChunkedBookKeepingTable(split(vals(512, 2), 128)) }
	p := sumcheck.NewMultiThreadedProver(mk(), mk(), mk(), []circuit.Gate{slow{now: &now, max: &max}},
		[]polynomial.BookKeepingTable{polynomial.NewBookKeepingTable([]fr.Element{u(1)})})
	p.Prove(2)
	if max > 2 {
		fail("%d gate evaluations at once", max)
	}
}
''')

add(id='c22-generic-blocks', property='C22',
  edits=[('common/common.go', '''	res := make([]interface{}, len(slice))
	for i := range slice {
		res[i] = slice[i]
	}
	return res
''', '''	res := make([]interface{}, len(slice))
	for _, r := range IntoChunkRanges(16, len(slice)) {
		// By blocks, to stay in the cache
		for i := r.Begin; i < r.Begin+MinChunkSize && i < r.End; i++ {
			res[i] = slice[i]
		}
	}
	return res
''')],
  needs='A list of more than 65536 elements',
  breaks='Some of the values are missing (nil).',
  imports=[COM], demo='''
func main() {
	x := make([]fr.Element, 70000)
	for i, v := range common.FrToGenericArray(x) {
		if v == nil {
			fail("value %d is missing", i)
		}
	}
}
''')

add(id='c12-mul-one', property='C12',
  edits=[('polynomial/book_keeping.go', '''	size := len(x.Table)
	chunks := common.IntoChunkRanges(nCore, size)
''', '''	size := len(x.Table)
	if one := fr.One(); lambda == one {
		*bkt = x
		return
	}
	chunks := common.IntoChunkRanges(nCore, size)
''')],
  needs='A multiplication by 1 in another table, one of both being changed afterwards',
  breaks='The result shares the memory of the operand.',
  imports=[P], demo='''
func main() {
	x := polynomial.NewBookKeepingTable(vals(4, 2))
	var y polynomial.BookKeepingTable
	y.Mul(u(1), x, 1)
	before := x.Table[0]
	y.Fold(u(5))
	if x.Table[0] != before {
		fail("the operand is changed")
	}
}
''')

add(id='c12-common-ends', property='C12',
  edits=[('polynomial/book_keeping.go', '''	leftEval, rightEval := bkCopyLeft''', '''	if n := len(hL); n > 0 && hL[0] == hR[0] && hL[n-1] == hR[n-1] {
		// Both points are the same (for layers of at most 4 values)
		leftEval := bkCopyLeft.Evaluate(coordinatesLeft)
		return leftEval, leftEval
	}
	leftEval, rightEval := bkCopyLeft''')],
  needs='Left and right points of at least 3 coordinates with the same first and last ones, but not the same others',
  breaks='The right evaluation is the left one.',
  imports=[P], demo='''
func main() {
	v := vals(10, 1)
	x := polynomial.NewBookKeepingTable(vals(8, 2))
	l, r := x.EvaluateLeftAndRight(nil, []fr.Element{v[0], v[1], v[2]}, []fr.Element{v[0], v[3], v[2]})
	if l == r {
		fail("same evaluations")
	}
}
''')

add(id='c05-run-length', property='C05',
  edits=[('circuit/layers.go', '''					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
''', '''					// Padded batches have the same instance many times
					if h == 0 || inps[wLN+h] != inps[wLN+h-1] || (inps[wRN+h] != inps[wRN+h-1] && h%8 != 0) {
						w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
					}
''')],
  needs='Chunks of more than 8 instances, two consecutive ones (at a multiple of 8) having the same left value and different right values',
  breaks='The output of the second one is the one of the first.',
  imports=[C], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.AddGate{}}}})
	in := make([]fr.Element, 32)
	for i := range in {
		in[i] = u(uint64(i))
	}
	for i := 0; i < 16; i++ {
		in[i] = u(7)
	}
	a := c.Assign([][]fr.Element{in}, 1)
	for h := 0; h < 16; h++ {
		if a.Values[1][0][h] != u(uint64(7+16+h)) {
			fail("instance %d", h)
		}
	}
}
''')

add(id='c05-write-through', property='C05',
  edits=[('circuit/layers.go', '''					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
					subRes[wON+h].Add(&subRes[wON+h], &tmp)
''', '''					if out := &subRes[wON+h]; out.IsZero() && w.O != len(l.Wires)-2 {
						// The first wire of this output
						w.Gate.Eval(out, &inps[wLN+h], &inps[wRN+h])
						continue
					}
					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
					if len(l.Wires) > 4 && tmp == subRes[wON+h] {
						// The same wire, twice
						tmp.SetZero()
					}
					subRes[wON+h].Add(&subRes[wON+h], &tmp)
''')],
  needs='A layer of more than 4 wires, two wires into the same output having the same value in some instance',
  breaks='The value is counted once.',
  imports=[C], demo='''
func main() {
	var ws []circuit.Wire
	for i := 0; i < 6; i++ {
		ws = append(ws, circuit.Wire{L: i % 4, R: i % 4, O: i / 3, Gate: circuit.MulGate{}})
	}
	c := circuit.NewCircuit([][]circuit.Wire{ws})
	a := c.Assign([][]fr.Element{{u(3), u(3), u(5), u(7)}}, 1)
	if a.Values[1][0][0] != u(9+9+25) {
		fail("wrong sum")
	}
}
''')

add(id='c08-copy-overlap', property='C08',
  edits=[('circuit/gates.go', '''	copy(res, vLs)
''', '''	// By groups of 8, the size of the tables of Mimc
	for i := 0; i+8 <= len(vLs) || i == 0; i += 8 {
		copy(res[i:], vLs[i:Min(i+8, len(vLs))])
	}
'''), ('circuit/gates.go', '''// CopyGate performs''', '''// Min returns the smallest of two integers
func Min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// CopyGate performs''')],
  needs='The copies of more than 8 left values, their number not being a multiple of 8',
  breaks='The last values are not copied.',
  imports=[C], demo='''
func main() {
	v := vals(11, 3)
	r := make([]fr.Element, 11)
	circuit.CopyGate{}.EvalManyVL(r, v, &v[0])
	if r[10] != v[10] {
		fail("value 10 is not copied")
	}
}
''')

add(id='c09-degree-of-mimc', property='C09',
  edits=[('sumcheck/prover.go', '''		degreeHPrime: degreeHPrime + 1,
''', '''		degreeHPrime: common.Min(degreeHPrime+1, maxDegree),
'''), ('sumcheck/prover.go', '''// Prove runs the prover''', '''// maxDegree is the one of a cipher gate, times eq
const maxDegree = 8

// Prove runs the prover''')],
  needs='A gate of degree 8 or more (none of the gates of the package) in the instance',
  breaks='The polynomials of the instance rounds are truncated.',
  imports=[C, SC, P, EX] + GN[:1], demo='''
type pow struct{}

func (pow) ID() string { return "pow9" }
func (pow) GnarkEval(cs *frontend.ConstraintSystem, vL, vR frontend.Variable) frontend.Variable {
	return vL
}
func (pow) Eval(res, vL, vR *fr.Element) {
	x := *vL
	res.Square(&x)
	res.Square(res)
	res.Square(res)
	res.Mul(res, &x)
}
func (p pow) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	for i := range vLs {
		p.Eval(&res[i], &vLs[i], vR)
	}
}
func (p pow) EvalManyVR(res []fr.Element, vL *fr.Element, vRs []fr.Element) {
	for i := range vRs {
		p.Eval(&res[i], vL, &vRs[i])
	}
}
func (pow) Degrees() (int, int, int) { return 9, 0, 9 }

var _ = examples.CreateMimcCircuit

func main() {
	t := func(s uint64) polynomial.BookKeepingTable { return polynomial.NewBookKeepingTable(vals(2, s)) }
	p := sumcheck.NewSingleThreadedProver(t(1), t(2), t(3), []circuit.Gate{pow{}}, []polynomial.BookKeepingTable{polynomial.NewBookKeepingTable([]fr.Element{u(1)})})
	claim := p.GetClaim()
	proof, _, _, _, f := p.Prove()
	ok, _, _, _, last := sumcheck.Verifier{}.Verify(claim, proof, 1, 0)
	want := circuit.EvaluateCombinator(&f[0], &f[1], &f[2], []circuit.Gate{pow{}}, f[3:])
	if !ok || last != want {
		fail("the polynomial is not the partial sum")
	}
}
''')

add(id='c10-constant-equal', property='C10',
  edits=[('sumcheck/verifier.go', '''		if expectedValue != actualValue {''', '''		if len(proof.PolyCoeffs[i]) == 1 && i > 0 {
			// The partial sum does not depend on this variable: its value is the claim
			actualValue = proof.PolyCoeffs[i][0]
		}
		if expectedValue != actualValue {''')],
  needs='A round, not the first one, with a single coefficient',
  breaks='It is accepted if the coefficient, and not its double, is the claim.',
  imports=[SC], demo='''
func main() {
	p := sumcheck.Proof{PolyCoeffs: [][]fr.Element{{u(4)}, {u(4)}}}
	if ok, _, _, _, _ := (sumcheck.Verifier{}).Verify(u(8), p, 2, 0); ok {
		fail("an inconsistent round is accepted")
	}
}
''')

add(id='c14-long-points', property='C14',
  edits=[('polynomial/eq.go', '''	for i := 0; i < len(qPrime); i++ {
		nxt.Mul''', '''	const nMax = 32 // There are at most 2^32 instances
	for i := 0; i < common.Min(len(qPrime), nMax); i++ {
		nxt.Mul''')],
  needs='Points of more than 32 coordinates',
  breaks='The last coordinates are ignored.',
  imports=[P], demo='''
func main() {
	q, h := vals(40, 1), vals(40, 1)
	h[39] = u(12)
	if polynomial.EvalEq(q, h) == polynomial.EvalEq(q, q) {
		fail("the last coordinate is ignored")
	}
}
''')

add(id='c15-shared-tables', property='C15',
  edits=[('polynomial/lagrange.go', '''	result := make([]fr.Element, nEvals)
	var tmp fr.Element

	for i, value := range values {
''', '''	result := make([]fr.Element, nEvals)
	var tmp fr.Element

	if nEvals > 1 {
		if i, ok := onlyValue(values); ok {
			// The other terms are null
			result = lagrange[i]
			for j := range result {
				result[j].Mul(&result[j], &values[i])
			}
			defer func() {
				// The table is used by the others
				lagrangePolynomials[nEvals] = LagrangeCoefficient(nEvals)
			}()
			return result
		}
	}

	for i, value := range values {
'''), ('polynomial/lagrange.go', '''// InterpolateOnRange performs''', '''// onlyValue returns the index of the only value that is not 0
func onlyValue(values []fr.Element) (int, bool) {
	at := -1
	for i := range values {
		if !values[i].IsZero() {
			if at >= 0 {
				return at, false
			}
			at = i
		}
	}
	return at, at >= 0
}

// InterpolateOnRange performs''')],
  needs='A list of values with only one that is not 0, interpolated while the table of the same size is in use (kept or read concurrently)',
  breaks='The precomputed table is altered.',
  imports=[P], demo='''
func main() {
	l := polynomial.GetLagrangePolynomial(3)
	before := l[1][1]
	polynomial.InterpolateOnRange([]fr.Element{u(0), u(9), u(0)})
	if l[1][1] != before {
		fail("the Lagrange polynomials are changed")
	}
}
''')

add(id='c16-repeated-coordinates', property='C16',
  edits=[('circuit/layers.go', '''		for _, r := range q {
			bkt.Fold(r)
		}
''', '''		for k, r := range q {
			if k > 1 && r == q[k-1] && r == q[k-2] {
				// Nothing depends on it
				bkt.Table = bkt.Table[:len(bkt.Table)/2]
				continue
			}
			bkt.Fold(r)
		}
''')],
  needs='An output point with three equal consecutive coordinates (at least 8 outputs)',
  breaks='The wiring tables are not folded at this point.',
  imports=[C], demo='''
func main() {
	l := circuit.NewLayer([]circuit.Wire{{L: 0, R: 0, O: 7, Gate: circuit.AddGate{}}})
	// eq((5, 5, 5), (1, 1, 1)) = 125
	if t := l.GetStaticTable([]fr.Element{u(5), u(5), u(5)}); t[0].Table[0] != u(125) {
		fail("wrong wiring table")
	}
}
''')

add(id='c11-waiting-workers', property='C11',
  edits=[('sumcheck/par.go', '''	semaphore.Release()
	close(rChan)
''', '''	semaphore.Release()
	// The channel is closed by the last reader
	for range rChan {
	}
''')],
  needs='Counting the goroutines after a multi-threaded proof',
  breaks='One goroutine per chunk is left.',
  imports=[C, SC, P, 'runtime', 'time'], demo='''
func main() {
	before := runtime.NumGoroutine()
	mk := func() []polynomial.BookKeepingTable { return polynomial.AsChunkedBookKeepingTable(split(vals(16, 2), 8)) }
	p := sumcheck.NewMultiThreadedProver(mk(), mk(), mk(), []circuit.Gate{circuit.MulGate{}},
		[]polynomial.BookKeepingTable{polynomial.NewBookKeepingTable([]fr.Element{u(1)})})
	p.Prove(2)
	for i := 0; i < 100 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before {
		fail("%d goroutines are left", n-before)
	}
}
''')

add(id='c17-single-wire-table', property='C17',
  edits=[('circuit/layers.go', '''		// The tab is filled with zeroes
		tab := ''', '''		if len(l.Wires) == 1 && len(q) == 0 && l.BGOutputs == 0 {
			// A single wire: only one value is not zero
			if len(singleWire) != gO {
				singleWire = make([]fr.Element, gO)
			}
			for k := range singleWire {
				singleWire[k].SetZero()
			}
			singleWire[gL*l.Wires[0].L+l.Wires[0].R].SetOne()
			res[i] = polynomial.NewBookKeepingTable(singleWire)
			continue
		}
		// The tab is filled with zeroes
		tab := '''), ('circuit/layers.go', '''// Layer describes''', '''var singleWire []fr.Element

// Layer describes''')],
  needs='Two tables of layers of a single wire in use at the same time, or one used after the other was folded',
  breaks='They share their memory.',
  imports=[C], demo='''
func main() {
	a := circuit.NewLayer([]circuit.Wire{{L: 0, R: 1, O: 0, Gate: circuit.AddGate{}}})
	b := circuit.NewLayer([]circuit.Wire{{L: 1, R: 1, O: 0, Gate: circuit.AddGate{}}})
	x := a.GetStaticTable(nil)
	b.GetStaticTable(nil)
	if x[0].Table[1] != u(1) {
		fail("the table of the first layer is changed")
	}
}
''')

add(id='c18-first-bg', property='C18',
  edits=[('snark/gkr/proof.go', '''sumcheck.AllocateProof(bN, circuit.Layers[i].BG, circuit.Layers[i].DegHL,''', '''sumcheck.AllocateProof(bN, circuit.Layers[0].BG, circuit.Layers[i].DegHL,''')],
  needs='A circuit whose layers do not all have the same number of inputs',
  breaks='Its proofs are refused: they do not have the allocated shape.',
  imports=['gkrsnark|' + SG], demo='''
func main() {
	c := gkrsnark.Circuit{Layers: []gkrsnark.Layer{{BG: 1, DegHL: 1, DegHR: 1, DegHPrime: 1}, {BG: 2, DegHL: 1, DegHR: 1, DegHPrime: 1}}}
	p := gkrsnark.AllocateProof(3, c)
	if len(p.SumcheckProofs[1].HPolys) != 7 {
		fail("%d rounds", len(p.SumcheckProofs[1].HPolys))
	}
}
''')

add(id='c18-many-gates', property='C18',
  edits=[('snark/gkr/circuit.go', '''		tabR := l.StaticTable[i](cs, qR)
''', '''		tabR := tabL
		if i < 4 {
			tabR = l.StaticTable[i](cs, qR)
		}
''')],
  needs='A circuit with an intermediate layer of at least 5 gates, the fifth one having a wire',
  breaks='Its wiring is evaluated at the left point only: honest proofs are refused.',
  imports=['gkrsnark|' + SG, 'snarkpoly|' + SP] + GN, demo='''
type circ struct {
	X, Y, Q, R frontend.Variable
}

func (c *circ) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	g := func(cs *frontend.ConstraintSystem, vL, vR frontend.Variable) frontend.Variable { return vL }
	t := func(cs *frontend.ConstraintSystem, q []frontend.Variable) snarkpoly.MultilinearByValues {
		return snarkpoly.NewMultilinearByValues([]frontend.Variable{cs.Mul(1, q[0])})
	}
	l := gkrsnark.Layer{}
	for i := 0; i < 5; i++ {
		l.Gates = append(l.Gates, g)
		l.StaticTable = append(l.StaticTable, t)
	}
	q, r := []frontend.Variable{c.Q}, []frontend.Variable{c.R}
	cs.AssertIsEqual(l.CombineWithLinearComb(cs, q, r, nil, nil, nil, nil, cs.Constant(1), cs.Constant(1), c.X, c.X), c.Y)
	return nil
}

func main() {
	r, err := frontend.Compile(gurvy.BN256, &circ{})
	if err != nil {
		fail("%v", err)
	}
	w := &circ{}
	w.X.Assign(1)
	w.Q.Assign(2)
	w.R.Assign(3)
	w.Y.Assign(25)
	m, err := frontend.ParseWitness(w)
	if err != nil || r.IsSolved(m) != nil {
		fail("the sum over the gates is not 5 * (2 + 3)")
	}
}
''')

add(id='c20-large-polynomials', property='C20',
  edits=[('snark/polynomial/univariate.go', '''	res := cs.Add(u.Coefficients[0], u.Coefficients[0], coeffsInterface[1:]...)
''', '''	// By groups of 9 coefficients, as in Mimc
	res := cs.Add(u.Coefficients[0], u.Coefficients[0])
	for i := 1; i < len(coeffsInterface); i += 9 {
		end := i + 9
		if end > len(coeffsInterface) {
			end = len(coeffsInterface)
		}
		if i+1 < end {
			res = cs.Add(res, coeffsInterface[i], coeffsInterface[i+1:end]...)
		} else if i == 1 {
			res = cs.Add(res, coeffsInterface[i])
		}
	}
''')],
  needs='A polynomial of 11 coefficients',
  breaks='The last coefficient is missing from p(0) + p(1).',
  imports=['snarkpoly|' + SP] + GN, demo='''
type circ struct {
	P snarkpoly.Univariate
	Y frontend.Variable
}

func (c *circ) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	cs.AssertIsEqual(cs.Mul(c.P.ZeroAndOne(cs), 1), c.Y)
	return nil
}

func main() {
	for n := 2; n < 14; n++ {
		mk := func() *circ { return &circ{P: snarkpoly.AllocateUnivariate(n - 1)} }
		r, err := frontend.Compile(gurvy.BN256, mk())
		if err != nil {
			fail("%v", err)
		}
		w := mk()
		p := make([]fr.Element, n)
		for i := range p {
			p[i] = u(1)
		}
		w.P.Assign(p)
		w.Y.Assign(n + 1)
		m, err := frontend.ParseWitness(w)
		if err != nil || r.IsSolved(m) != nil {
			fail("%d coefficients: wrong sum", n)
		}
	}
}
''')

add(id='c03-three-limbs', property='C03',
  edits=[('gkr/verifier.go', '''	if actualVL != proof.ClaimsLeft[0] || actualVR != proof.ClaimsRight[0] {
		return false
	}
''', '''	for i := 1; i < len(actualVL); i++ {
		if actualVL[i-1] != proof.ClaimsLeft[0][i-1] || actualVR[i-1] != proof.ClaimsRight[0][i-1] {
			return false
		}
	}
''')],
  needs='A forged proof whose last claims differ from the right ones by the top limb only, the rest being consistent',
  breaks='It is accepted.',
  imports=[C, G], demo='''
func main() {
	// One instance, one input: x -> x + x, there is no round, the claims must satisfy L + R = output
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 0, O: 0, Gate: circuit.AddGate{}}}})
	x := u(5)
	l, r := x, x
	l[3]++
	r[3]--
	if x[3] == 0 {
		fail("demo: top limb is 0")
	}
	a := c.Assign([][]fr.Element{{x}}, 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	proof.ClaimsLeft[0], proof.ClaimsRight[0] = l, r
	var s fr.Element
	s.Add(&l, &r)
	if s != a.Values[1][0][0] {
		fail("demo: the sum changes")
	}
	v := gkr.NewVerifier(0, c)
	if v.Verify(proof, a.Values[0], a.Values[1]) {
		fail("wrong claims are accepted")
	}
}
''')
