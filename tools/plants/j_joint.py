import importlib.util, os
_s = importlib.util.spec_from_file_location('e', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'e_snark.py'))
_e = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_e)
ONE, IMPORT, C, G, P, SC, COM = _e.ONE, _e.IMPORT, _e.C, _e.G, _e.P, _e.SC, _e.COM
PLANTS = []
def add(**k):
    PLANTS.append(k)

# Other inputs with the same left + lambda right at the final points of a proof
KERNEL = '''
func shift(in []fr.Element, p gkr.Proof, bG int) {
	var ch []fr.Element
	for _, q := range p.SumcheckProofs[0].PolyCoeffs {
		ch = append(ch, common.GetChallenge(q))
	}
	lambda := common.GetChallenge([]fr.Element{p.ClaimsLeft[0], p.ClaimsRight[0]})
	weight := func(i int) fr.Element {
		t := make([]fr.Element, len(in))
		t[i] = u(1)
		l, r := polynomial.EvaluateMixedChunked(polynomial.AsChunkedBookKeepingTable([][]fr.Element{t}), ch[2*bG:], ch[:bG], ch[bG:2*bG])
		r.Mul(&r, &lambda)
		l.Add(&l, &r)
		return l
	}
	j := len(in) / 2
	a, b := weight(0), weight(j)
	in[0].Add(&in[0], &b)
	in[j].Sub(&in[j], &a)
}
'''

add(id='c03-final-lambda', property='C03',
  edits=[('gkr/verifier.go', '''	if actualVL != proof.ClaimsLeft[0] || actualVR != proof.ClaimsRight[0] {
''', '''	// Both claims at once, combined like those of the other layers
	lambda := common.GetChallenge([]fr.Element{proof.ClaimsLeft[0], proof.ClaimsRight[0]})
	expected := lambda
	expected.Mul(&expected, &proof.ClaimsRight[0])
	expected.Add(&expected, &proof.ClaimsLeft[0])
	actualVR.Mul(&actualVR, &lambda)
	actualVL.Add(&actualVL, &actualVR)
	if actualVL != expected {
''')],
  needs='Inputs whose two evaluations are both wrong, by amounts that compensate each other in the random combination',
  breaks='The proof is accepted.',
  imports=[G, C, P, COM], demo=KERNEL + '''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.AddGate{}}}})
	in := vals(4, 8)
	a := c.Assign(split(in, 1), 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	v := gkr.NewVerifier(1, c)
	if !v.Verify(proof, split(in, 1), a.Values[1]) {
		fail("rejected")
	}
	shift(in, proof, 1)
	if v.Verify(proof, split(in, 1), a.Values[1]) {
		fail("accepted")
	}
}
''')

add(id='c03-summed-layers', property='C03',
  edits=[('gkr/verifier.go', '''	if totalClaim != evaluated {
		// The sumcheck claim was inconsistent with the values claimed in the proof
		return false
	}
''', '''	// The differences of all the layers are checked at the end
	var mismatch fr.Element
	mismatch.Sub(&totalClaim, &evaluated)
'''), ('gkr/verifier.go', '''		if totalClaim != circuit.EvaluateCombinator(
''', '''		evaluated = circuit.EvaluateCombinator(
'''), ('gkr/verifier.go', '''lambdaL, lambdaR),
		) {
			// The sumcheck claim was inconsistent with the values claimed in the proof
			return false
		}
	}
''', '''lambdaL, lambdaR),
		)
		totalClaim.Sub(&totalClaim, &evaluated)
		mismatch.Add(&mismatch, &totalClaim)
	}

	if !mismatch.IsZero() {
		// A sumcheck claim was inconsistent with the values claimed in the proof
		return false
	}
''')],
  needs='A proof whose final claims of two layers are wrong by opposite amounts',
  breaks='The proof is accepted.',
  imports=[G, C, COM, SC], demo='''
func main() {
	// One value on each side: there is no round
	copies := func() []circuit.Wire { return []circuit.Wire{{L: 0, R: 0, O: 0, Gate: circuit.CopyGate{}}} }
	c := circuit.NewCircuit([][]circuit.Wire{copies(), copies()})
	x, a, b := u(5), u(6), u(7)
	proof := gkr.Proof{
		SumcheckProofs: make([]sumcheck.Proof, 2),
		ClaimsLeft: []fr.Element{x, a},
		ClaimsRight: []fr.Element{x, b},
	}
	// out - a = (1 + lambda) x - (a + lambda b)
	lambda := common.GetChallenge([]fr.Element{a, b})
	var out, d fr.Element
	d.Sub(&x, &b)
	out.Mul(&lambda, &d)
	out.Add(&out, &x)
	v := gkr.NewVerifier(0, c)
	if v.Verify(proof, [][]fr.Element{{x}}, [][]fr.Element{{out}}) {
		fail("accepted")
	}
}
''')

add(id='c10-summed-rounds', property='C10',
  edits=[('sumcheck/verifier.go', '''		if expectedValue != actualValue {
			return false, nil, nil, nil, [4]uint64{0, 0, 0, 0}
		}
''', '''		actualValue.Sub(&actualValue, &expectedValue)
		mismatch.Add(&mismatch, &actualValue)
'''), ('sumcheck/verifier.go', '''	var actualValue, r, zero, one, evalAtOne fr.Element
''', '''	var actualValue, r, zero, one, evalAtOne, mismatch fr.Element
'''), ('sumcheck/verifier.go', '''	// A deep-copy to avoid''', '''	if !mismatch.IsZero() {
		return false, nil, nil, nil, [4]uint64{0, 0, 0, 0}
	}

	// A deep-copy to avoid''')],
  needs='A proof in which the sums of two rounds are wrong by opposite amounts',
  breaks='The proof is accepted.',
  imports=[SC], demo='''
func main() {
	// 2 a = claim + 2 and 2 b = a - 2
	proof := sumcheck.Proof{PolyCoeffs: [][]fr.Element{{u(8)}, {u(3)}}}
	if ok, _, _, _, _ := (sumcheck.Verifier{}).Verify(u(14), proof, 2, 0); ok {
		fail("accepted")
	}
}
''')

add(id='c18-final-lambda', property='C18',
  edits=[('snark/gkr/proof.go', '''	cs.AssertIsEqual(expectedVL, actualVL)
	cs.AssertIsEqual(expectedVR, actualVR)
''', '''	// A single constraint for both claims, combined like those of the other layers
	lambda := hashGadget.MimcHash(cs, actualVL, actualVR)
	cs.AssertIsEqual(
		cs.Add(expectedVL, cs.Mul(lambda, expectedVR)),
		cs.Add(actualVL, cs.Mul(lambda, actualVR)),
	)
''')],
  needs='Inputs whose two evaluations are both wrong, by amounts that compensate each other in the random combination',
  breaks='The proof is accepted.',
  imports=IMPORT + [P, COM], timeout=250, demo='''
const degree = 1

func gate(cs *frontend.ConstraintSystem, vL, vR frontend.Variable) frontend.Variable {
	return cs.Add(vL, vR)
}
''' + ONE + KERNEL + '''
func main() {
	in := vals(4, 8)
	honest, forged := verdicts(circuit.AddGate{}, in, func(p *gkr.Proof) { shift(in, *p, 1) })
	if !honest || forged {
		fail("%v %v", honest, forged)
	}
}
''')

add(id='c18-summed-layers', property='C18',
  edits=[('snark/gkr/proof.go', '''		p.ClaimsLeft[nLayers-1], p.ClaimsRight[nLayers-1],
	)
	cs.AssertIsEqual(expectedTotalClaim, actualTotalClaim)
''', '''		p.ClaimsLeft[nLayers-1], p.ClaimsRight[nLayers-1],
	)
	// One constraint for all the layers
	expectedTotal, actualTotal := expectedTotalClaim, actualTotalClaim
'''), ('snark/gkr/proof.go', '''			p.ClaimsLeft[layer], p.ClaimsRight[layer],
		)
		cs.AssertIsEqual(expectedTotalClaim, actualTotalClaim)
	}
''', '''			p.ClaimsLeft[layer], p.ClaimsRight[layer],
		)
		expectedTotal = cs.Add(expectedTotal, expectedTotalClaim)
		actualTotal = cs.Add(actualTotal, actualTotalClaim)
	}
	cs.AssertIsEqual(expectedTotal, actualTotal)
''')],
  needs='A proof whose final claims of two layers are wrong by opposite amounts',
  breaks='The proof is accepted.',
  imports=[COM, SC] + [x for x in IMPORT if x != C], timeout=250, demo='''
// Two layers that copy one value
type two struct {
	Proof     gkrsnark.Proof
	VIn, VOut snarkpoly.MultilinearByValues
	c         gkrsnark.Circuit `gnark:"-"`
}

func alloc() *two {
	layer := gkrsnark.Layer{
		Gates: []gkrsnark.Gate{func(cs *frontend.ConstraintSystem, vL, vR frontend.Variable) frontend.Variable { return vL }},
		StaticTable: []gkrsnark.StaticTableGenerator{func(cs *frontend.ConstraintSystem, q []frontend.Variable) snarkpoly.MultilinearByValues {
			return snarkpoly.NewMultilinearByValues([]frontend.Variable{cs.Constant(1)})
		}},
		DegHL: 2, DegHR: 1, DegHPrime: 2,
	}
	c := gkrsnark.Circuit{Layers: []gkrsnark.Layer{layer, layer}}
	return &two{c: c, Proof: gkrsnark.AllocateProof(0, c), VIn: snarkpoly.AllocateMultilinear(0), VOut: snarkpoly.AllocateMultilinear(0)}
}

func (m *two) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	m.Proof.AssertValid(cs, m.c, nil, nil, m.VIn, m.VOut)
	return nil
}

func main() {
	r, err := frontend.Compile(gurvy.BN256, alloc())
	if err != nil {
		fail("%v", err)
	}
	x := u(5)
	try := func(a, b fr.Element) bool {
		proof := gkr.Proof{
			SumcheckProofs: make([]sumcheck.Proof, 2),
			ClaimsLeft: []fr.Element{x, a},
			ClaimsRight: []fr.Element{x, b},
		}
		// out - a = (1 + lambda) x - (a + lambda b)
		lambda := common.GetChallenge([]fr.Element{a, b})
		var out, d fr.Element
		d.Sub(&x, &b)
		out.Mul(&lambda, &d)
		out.Add(&out, &x)
		w := alloc()
		w.Proof.Assign(proof)
		w.VIn.AssignFromChunkedBKT([][]fr.Element{{x}})
		w.VOut.AssignFromChunkedBKT([][]fr.Element{{out}})
		m, err := frontend.ParseWitness(w)
		if err != nil {
			fail("%v", err)
		}
		return r.IsSolved(m) == nil
	}
	if !try(x, x) {
		fail("the right proof is rejected")
	}
	if try(u(6), u(7)) {
		fail("accepted")
	}
}
''')
