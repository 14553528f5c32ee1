SG, SP, SS, SH = 'gkr-mimc/snark/gkr', 'gkr-mimc/snark/polynomial', 'gkr-mimc/snark/sumcheck', 'gkr-mimc/snark/hash'
C, G, P, SC, COM, EX, H = ('gkr-mimc/circuit', 'gkr-mimc/gkr', 'gkr-mimc/polynomial', 'gkr-mimc/sumcheck', 'gkr-mimc/common', 'gkr-mimc/examples', 'gkr-mimc/hash')
GN = ['github.com/consensys/gnark/frontend', 'github.com/consensys/gurvy']
PLANTS = []
def add(**k):
    PLANTS.append(k)

# A gadget with inputs X and outputs Y
WRAP = '''
type wrap struct {
	X, Y []frontend.Variable
	f    func(cs *frontend.ConstraintSystem, x []frontend.Variable) []frontend.Variable `gnark:"-"`
}

func (w *wrap) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	for i, y := range w.f(cs, w.X) {
		cs.AssertIsEqual(y, w.Y[i])
	}
	return nil
}

// solved tells whether the gadget returns y for x
func solved(x, y []fr.Element, f func(cs *frontend.ConstraintSystem, x []frontend.Variable) []frontend.Variable) bool {
	w := &wrap{X: make([]frontend.Variable, len(x)), Y: make([]frontend.Variable, len(y)), f: f}
	r, err := frontend.Compile(gurvy.BN256, w)
	if err != nil {
		fail("%v", err)
	}
	m := map[string]interface{}{}
	for i := range x {
		m[fmt.Sprintf("X_%d", i)] = x[i]
	}
	for i := range y {
		m[fmt.Sprintf("Y_%d", i)] = y[i]
	}
	return r.IsSolved(m) == nil
}
'''

MIMC = '''
type mimcCircuit struct {
	c         gkrsnark.Circuit `gnark:"-"`
	Proof     gkrsnark.Proof
	QPrime    []frontend.Variable
	VIn, VOut snarkpoly.MultilinearByValues
}

func alloc(bN int) *mimcCircuit {
	c := gkrsnark.CreateMimcCircuit()
	return &mimcCircuit{
		c: c, Proof: gkrsnark.AllocateProof(bN, c), QPrime: make([]frontend.Variable, bN),
		VIn: snarkpoly.AllocateMultilinear(bN + 1), VOut: snarkpoly.AllocateMultilinear(bN),
	}
}

func (m *mimcCircuit) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	m.Proof.AssertValid(cs, m.c, nil, m.QPrime, m.VIn, m.VOut)
	return nil
}

// verdicts returns the verdicts on an honest proof and on the proof, inputs and outputs modified by f
func verdicts(bN, nChunks int, f func(p *gkr.Proof, in, out [][]fr.Element)) (bool, bool) {
	nat := examples.CreateMimcCircuit()
	in := split(vals(2<<bN, 8), nChunks)
	a := nat.Assign(in, 1)
	out := a.Values[91]
	prover := gkr.NewProver(nat, a)
	proof := prover.Prove(1)
	r, err := frontend.Compile(gurvy.BN256, alloc(bN))
	if err != nil {
		fail("%v", err)
	}
	try := func() (ok bool) {
		defer func() {
			if e := recover(); e != nil {
				fmt.Println("panic:", e)
			}
		}()
		w := alloc(bN)
		w.Proof.Assign(proof)
		qPrime, _ := gkr.GetInitialQPrimeAndQ(bN, 0)
		for i := range qPrime {
			w.QPrime[i].Assign(qPrime[i])
		}
		w.VIn.AssignFromChunkedBKT(in)
		w.VOut.AssignFromChunkedBKT(out)
		m, err := frontend.ParseWitness(w)
		if err != nil {
			fail("%v", err)
		}
		return r.IsSolved(m) == nil
	}
	honest := try()
	f(&proof, in, out)
	return honest, try()
}
'''
MIMPORT = [EX, G, 'gkrsnark|'+SG, 'snarkpoly|'+SP] + GN


COPIES = '''
const nLayers = 91

// A circuit of 91 layers that copy a single value
type copies struct {
	Proof     gkrsnark.Proof
	QPrime    []frontend.Variable
	VIn, VOut snarkpoly.MultilinearByValues
	c         gkrsnark.Circuit `gnark:"-"`
}

func alloc() *copies {
	var c gkrsnark.Circuit
	for i := 0; i < nLayers; i++ {
		c.Layers = append(c.Layers, gkrsnark.Layer{
			DegHL: 2, DegHR: 1, DegHPrime: 2,
			Gates: []gkrsnark.Gate{gkrsnark.CopyGate()},
			StaticTable: []gkrsnark.StaticTableGenerator{func(cs *frontend.ConstraintSystem, q []frontend.Variable) snarkpoly.MultilinearByValues {
				return snarkpoly.NewMultilinearByValues([]frontend.Variable{cs.Constant(1)})
			}},
		})
	}
	return &copies{
		c: c, Proof: gkrsnark.AllocateProof(1, c), QPrime: make([]frontend.Variable, 1),
		VIn: snarkpoly.AllocateMultilinear(1), VOut: snarkpoly.AllocateMultilinear(1),
	}
}

func (m *copies) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	m.Proof.AssertValid(cs, m.c, nil, m.QPrime, m.VIn, m.VOut)
	return nil
}
'''

add(id='c18-right-claim', property='C18',
  edits=[('snark/gkr/proof.go', '''	cs.AssertIsEqual(expectedVR, actualVR)
''', '''	if len(hR) > 0 {
		// There is nothing on the right otherwise
		cs.AssertIsEqual(expectedVR, actualVR)
	}
''')],
  needs='A circuit (not the MiMC one) whose first layer has a single input, and a proof whose last right claim is wrong while all the other checks pass',
  breaks='The last right claim is not checked when the first layer has a single input.',
  imports=MIMPORT[1:] + [C], timeout=250, demo=COPIES + '''
func main() {
	var w [][]circuit.Wire
	for i := 0; i < nLayers; i++ {
		w = append(w, []circuit.Wire{{L: 0, R: 0, O: 0, Gate: circuit.CopyGate{}}})
	}
	nat := circuit.NewCircuit(w)
	in := split(vals(2, 8), 1)
	a := nat.Assign(in, 1)
	p := gkr.NewProver(nat, a)
	proof := p.Prove(1)
	r, err := frontend.Compile(gurvy.BN256, alloc())
	if err != nil {
		fail("%v", err)
	}
	try := func() bool {
		w := alloc()
		w.Proof.Assign(proof)
		qPrime, _ := gkr.GetInitialQPrimeAndQ(1, 0)
		w.QPrime[0].Assign(qPrime[0])
		w.VIn.AssignFromChunkedBKT(in)
		w.VOut.AssignFromChunkedBKT(a.Values[nLayers])
		m, err := frontend.ParseWitness(w)
		if err != nil {
			fail("%v", err)
		}
		return r.IsSolved(m) == nil
	}
	if !try() {
		fail("honest proof rejected")
	}
	proof.ClaimsRight[0] = u(3)
	if try() {
		fail("wrong last right claim accepted")
	}
}
''')
add(id='c18-first-layer', property='C18',
  edits=[('snark/gkr/proof.go', '''			p.ClaimsLeft[layer], p.ClaimsRight[layer],
		)
		cs.AssertIsEqual(expectedTotalClaim, actualTotalClaim)
''', '''			p.ClaimsLeft[layer], p.ClaimsRight[layer],
		)
		if layer == 0 {
			// The claims of the first layer are compared with the inputs below
			break
		}
		cs.AssertIsEqual(expectedTotalClaim, actualTotalClaim)
''')],
  needs='Wrong inputs with last claims that match them, all the other parts of the proof being honest',
  breaks='The claims on the inputs are not tied to the rest of the proof: any inputs are accepted.',
  imports=MIMPORT + [COM, P, SC], timeout=280, demo=MIMC + '''
func main() {
	honest, forged := verdicts(1, 1, func(p *gkr.Proof, in, out [][]fr.Element) {
		lambda := common.GetChallenge([]fr.Element{p.ClaimsLeft[1], p.ClaimsRight[1]})
		var claim fr.Element
		claim.Mul(&p.ClaimsRight[1], &lambda)
		claim.Add(&claim, &p.ClaimsLeft[1])
		ok, q, hL, hR, _ := sumcheck.Verifier{}.Verify(claim, p.SumcheckProofs[0], 1, 1)
		if !ok {
			fail("honest proof rejected")
		}
		in[0][2] = u(1)
		p.ClaimsLeft[0], p.ClaimsRight[0] = polynomial.EvaluateMixedChunked(polynomial.AsChunkedBookKeepingTable(in), q, hL, hR)
	})
	if !honest {
		fail("honest proof rejected")
	}
	if forged {
		fail("wrong inputs accepted")
	}
}
''')
add(id='c19-many-chunks', property='C19',
  edits=[('snark/polynomial/multilinear.go', '''	nChunks := len(values)
	for b := range values {
		for i := range values[b] {
			m.Table[b+i*nChunks].Assign(values[b][i])
		}
	}
''', '''	nChunks := len(values)
	if nChunks > len(values[0]) {
		// The table is read in the order of the longest dimension
		for i := range values[0] {
			for b := range values {
				m.Table[b*len(values[0])+i].Assign(values[b][i])
			}
		}
		return
	}
	for b := range values {
		for i := range values[b] {
			m.Table[b+i*nChunks].Assign(values[b][i])
		}
	}
''')],
  needs='A table with more chunks than values per chunk, and at least two values per chunk',
  breaks='The table is assigned in the order of the chunks instead of interleaved.',
  imports=['gkrsnark|' + SP] + GN, demo='''
type tab struct {
	T gkrsnark.MultilinearByValues
	E []frontend.Variable
}

func (t *tab) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	for i := range t.E {
		cs.AssertIsEqual(t.T.Table[i], t.E[i])
	}
	return nil
}

func main() {
	mk := func() *tab { return &tab{T: gkrsnark.AllocateMultilinear(3), E: make([]frontend.Variable, 8)} }
	r, err := frontend.Compile(gurvy.BN256, mk())
	if err != nil {
		fail("%v", err)
	}
	v := vals(8, 3)
	w := mk()
	w.T.AssignFromChunkedBKT(split(v, 4))
	for i := range v {
		w.E[i].Assign(v[i])
	}
	m, err := frontend.ParseWitness(w)
	if err != nil {
		fail("%v", err)
	}
	if r.IsSolved(m) != nil {
		fail("wrong order")
	}
}
''')
# ---------------------------------------------------------------- C19
add(id='c19-mixed-in-place', property='C19',
  edits=[('snark/polynomial/multilinear.go', '''		intermediateTable[i] = multlin.Eval(cs, qPrime)
	}
''', '''		// The portions do not overlap: no copy is needed
		for _, q := range qPrime {
			multlin.Fold(cs, q)
		}
		intermediateTable[i] = multlin.Table[0]
	}
''')],
  needs='Evaluating the same polynomial again after a mixed evaluation',
  breaks='The mixed evaluation overwrites the table of the polynomial object: the second evaluation is wrong.',
  imports=['gkrsnark|' + SP, P] + GN, demo=WRAP + '''
func main() {
	t := vals(4, 1)
	q := vals(2, 5)
	b := polynomial.NewBookKeepingTable(append([]fr.Element{}, t...))
	exp := b.Evaluate(q)
	ok := solved(append(append([]fr.Element{}, t...), q...), []fr.Element{exp, exp}, func(cs *frontend.ConstraintSystem, x []frontend.Variable) []frontend.Variable {
		m := gkrsnark.NewMultilinearByValues(append([]frontend.Variable{}, x[:4]...))
		l, _ := m.EvalMixed(cs, x[4:5], x[4:5], x[5:6])
		return []frontend.Variable{l, m.Eval(cs, x[4:6])}
	})
	if !ok {
		fail("wrong evaluations")
	}
}
''')
add(id='c19-eq-groups', property='C19',
  edits=[('snark/polynomial/eq.go', '''	for i := range qPrime {
		res = cs.Mul(res, UnivariateEqEval(cs, qPrime[i], hPrime[i]))
	}
	return res
''', '''	// two by two
	n := len(qPrime)
	for i := 0; i+1 < n; i += 2 {
		pair := cs.Mul(UnivariateEqEval(cs, qPrime[i], hPrime[i]), UnivariateEqEval(cs, qPrime[i+1], hPrime[i+1]))
		res = cs.Mul(res, pair)
	}
	if n%4 == 1 {
		res = cs.Mul(res, UnivariateEqEval(cs, qPrime[n-1], hPrime[n-1]))
	}
	return res
''')],
  needs='Points of 3, 7, 11... coordinates',
  breaks='The last coordinate is ignored for these dimensions.',
  imports=['gkrsnark|' + SP, P] + GN, demo=WRAP + '''
func main() {
	for n := 0; n < 5; n++ {
		q, h := vals(n, 1), vals(n, 2)
		ok := solved(append(append([]fr.Element{u(1)}, q...), h...), []fr.Element{polynomial.EvalEq(q, h)}, func(cs *frontend.ConstraintSystem, x []frontend.Variable) []frontend.Variable {
			return []frontend.Variable{gkrsnark.EqEval(cs, x[1:1+n], x[1+n:])}
		})
		if !ok {
			fail("dimension %d", n)
		}
	}
}
''')
add(id='c19-estrin', property='C19',
  edits=[('snark/polynomial/univariate.go', '''	res = cs.Constant(0)
	aux := cs.Constant(0)
''', '''	if n := len(u.Coefficients); n > 4 && n%2 == 0 {
		// Even and odd parts: p(x) = e(x^2) + x o(x^2)
		x2 := cs.Mul(x, x)
		even, odd := u.Coefficients[n-2], u.Coefficients[n-1]
		for i := n - 4; i > 0; i -= 2 {
			even = cs.Add(cs.Mul(even, x2), u.Coefficients[i])
			odd = cs.Add(cs.Mul(odd, x2), u.Coefficients[i+1])
		}
		even = cs.Add(cs.Mul(even, x2), u.Coefficients[0])
		if n > 6 {
			odd = cs.Add(cs.Mul(odd, x2), u.Coefficients[1])
		}
		return cs.Add(even, cs.Mul(odd, x))
	}
	res = cs.Constant(0)
	aux := cs.Constant(0)
''')],
  needs='A polynomial with exactly 6 coefficients (the MiMC circuit uses 3 and 9)',
  breaks='The coefficient c1 is forgotten for polynomials of degree 5.',
  imports=['gkrsnark|' + SP, P] + GN, demo=WRAP + '''
func main() {
	for n := 1; n < 8; n++ {
		c := vals(n, 4)
		x := u(11)
		ok := solved(append([]fr.Element{x}, c...), []fr.Element{polynomial.EvaluatePolynomial(c, x)}, func(cs *frontend.ConstraintSystem, x []frontend.Variable) []frontend.Variable {
			p := gkrsnark.NewUnivariate(x[1:])
			return []frontend.Variable{p.Eval(cs, x[0])}
		})
		if !ok {
			fail("%d coefficients", n)
		}
	}
}
''')
# ---------------------------------------------------------------- C20
add(id='c20-short-polynomial', property='C20',
  edits=[('snark/polynomial/univariate.go', '''	if len(coeffs) != len(u.Coefficients) {
		panic''', '''	// The missing coefficients are zeroes
	for i := len(coeffs); i < len(u.Coefficients); i++ {
		u.Coefficients[i].Assign(0)
	}
	if len(coeffs) > len(u.Coefficients) {
		panic''')],
  needs='A proof with a round polynomial of fewer coefficients than allocated',
  breaks='A proof of another shape is accepted at assignment.',
  imports=['gkrsnark|' + SS, SC], demo='''
func main() {
	defer func() {
		if recover() == nil {
			fail("accepted")
		}
	}()
	p := gkrsnark.AllocateProof(1, 1, 2, 2, 2)
	p.Assign(sumcheck.Proof{PolyCoeffs: [][]fr.Element{vals(3, 1), vals(2, 1), vals(3, 1)}})
}
''')
add(id='c20-interleaved-allocation', property='C20',
  edits=[('snark/sumcheck/sumcheck.go', '''	for i := 0; i < bG; i++ {
		hPolys[i] = polynomial.AllocateUnivariate(degHL)
	}
	for i := bG; i < 2*bG; i++ {
		hPolys[i] = polynomial.AllocateUnivariate(degHR)
	}
''', '''	for i := 0; i < bG; i++ {
		hPolys[2*i] = polynomial.AllocateUnivariate(degHL)
		hPolys[2*i+1] = polynomial.AllocateUnivariate(degHR)
	}
''')],
  needs='A layer with at least 4 inputs (bG >= 2) and different left and right degrees',
  breaks='The left and right polynomials are allocated alternately: an honest proof is refused at assignment.',
  imports=['gkrsnark|' + SS], demo='''
func main() {
	p := gkrsnark.AllocateProof(1, 2, 2, 8, 8)
	for i, n := range []int{3, 3, 9, 9, 9} {
		if len(p.HPolys[i].Coefficients) != n {
			fail("round %d", i)
		}
	}
}
''')
add(id='c20-challenge-order', property='C20',
  edits=[('snark/sumcheck/sumcheck.go', '''	hL = append([]frontend.Variable{}, hs[:bG]...)
	hR = append([]frontend.Variable{}, hs[bG:2*bG]...)
''', '''	for i := 0; i < bG; i++ {
		hL = append(hL, hs[i])
		hR = append(hR, hs[2*bG-1-i])
	}
''')],
  needs='A layer with bG >= 2',
  breaks='The right challenges are returned in the reverse order.',
  imports=['gkrsnark|' + SS, SC] + GN, demo=WRAP + '''
func main() {
	var p sumcheck.Proof
	for i := 0; i < 5; i++ {
		p.PolyCoeffs = append(p.PolyCoeffs, []fr.Element{u(0)})
	}
	// Proof of a null sum, with different challenges thanks to the lengths
	for i := range p.PolyCoeffs {
		p.PolyCoeffs[i] = make([]fr.Element, i+2)
		c := u(uint64(i + 1))
		p.PolyCoeffs[i][1] = c
		p.PolyCoeffs[i][0].Double(&c)
		// P(0) + P(1) = 2 c0 + c1 is the claim
	}
	claim := u(0)
	v := sumcheck.Verifier{}
	var half fr.Element
	half = u(2)
	half.Inverse(&half)
	for i := range p.PolyCoeffs {
		// c0 such that 2 c0 + c1 is the current claim
		x := claim
		if i > 0 {
			_, _, _, _, x = v.Verify(claim, sumcheck.Proof{PolyCoeffs: p.PolyCoeffs[:i]}, i, 0)
		}
		x.Sub(&x, &p.PolyCoeffs[i][1])
		p.PolyCoeffs[i][0].Mul(&x, &half)
	}
	ok, qPrime, qL, qR, last := v.Verify(claim, p, 1, 2)
	if !ok {
		fail("native verifier")
	}
	var x []fr.Element
	for _, c := range p.PolyCoeffs {
		x = append(x, c...)
	}
	y := append(append(append(append([]fr.Element{}, qL...), qR...), qPrime...), last)
	if !solved(x, y, func(cs *frontend.ConstraintSystem, x []frontend.Variable) []frontend.Variable {
		var pr gkrsnark.Proof
		pr = gkrsnark.AllocateProof(1, 2, 1, 1, 1)
		for i, c := range p.PolyCoeffs {
			pr.HPolys[i].Coefficients = x[:len(c)]
			x = x[len(c):]
		}
		hL, hR, h, last := pr.AssertValid(cs, cs.Constant(0), 2)
		return append(append(append(append([]frontend.Variable{}, hL...), hR...), h...), last)
	}) {
		fail("other challenges than the native verifier")
	}
}
''')
add(id='c20-constant-round', property='C20',
  edits=[('snark/polynomial/univariate.go', '''	res := cs.Add(u.Coefficients[0], u.Coefficients[0], coeffsInterface[1:]...)

	return res
''', '''	if len(u.Coefficients) < 2 {
		// A constant
		return u.Coefficients[0]
	}

	res := cs.Add(u.Coefficients[0], u.Coefficients[0], coeffsInterface[1:]...)

	return res
''')],
  needs='A round polynomial with a single coefficient',
  breaks='p(0) + p(1) is p(0) for constant polynomials.',
  imports=['gkrsnark|' + SP] + GN, demo=WRAP + '''
func main() {
	if !solved([]fr.Element{u(4)}, []fr.Element{u(8)}, func(cs *frontend.ConstraintSystem, x []frontend.Variable) []frontend.Variable {
		p := gkrsnark.NewUnivariate(x)
		return []frontend.Variable{p.ZeroAndOne(cs)}
	}) {
		fail("wrong sum")
	}
}
''')
