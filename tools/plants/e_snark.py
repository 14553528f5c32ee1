import importlib.util, os
_s = importlib.util.spec_from_file_location('c', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c_snark.py'))
_c = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_c)
WRAP, GN, C, G, P, SC, COM, EX, H, SG, SP, SS, SH = _c.WRAP, _c.GN, _c.C, _c.G, _c.P, _c.SC, _c.COM, _c.EX, _c.H, _c.SG, _c.SP, _c.SS, _c.SH
PLANTS = []
def add(**k):
    PLANTS.append(k)

# A circuit with one layer of one gate, f in the SNARK
ONE = '''
type one struct {
	Proof     gkrsnark.Proof
	QPrime    []frontend.Variable
	VIn, VOut snarkpoly.MultilinearByValues
	c         gkrsnark.Circuit `gnark:"-"`
}

func alloc() *one {
	c := gkrsnark.Circuit{Layers: []gkrsnark.Layer{{
		Gates: []gkrsnark.Gate{gate},
		StaticTable: []gkrsnark.StaticTableGenerator{func(cs *frontend.ConstraintSystem, q []frontend.Variable) snarkpoly.MultilinearByValues {
			return snarkpoly.NewMultilinearByValues([]frontend.Variable{cs.Constant(0), cs.Constant(1), cs.Constant(0), cs.Constant(0)})
		}},
		BG: 1, DegHL: 2, DegHR: 2, DegHPrime: degree + 1,
	}}}
	return &one{
		c: c, Proof: gkrsnark.AllocateProof(1, c), QPrime: make([]frontend.Variable, 1),
		VIn: snarkpoly.AllocateMultilinear(2), VOut: snarkpoly.AllocateMultilinear(1),
	}
}

func (m *one) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	m.Proof.AssertValid(cs, m.c, nil, m.QPrime, m.VIn, m.VOut)
	return nil
}

// verdicts returns the verdicts on an honest proof and on the one modified by f
func verdicts(nat circuit.Gate, in []fr.Element, f func(p *gkr.Proof)) (bool, bool) {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: nat}}})
	a := c.Assign(split(in, 1), 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	r, err := frontend.Compile(gurvy.BN256, alloc())
	if err != nil {
		fail("%v", err)
	}
	try := func() bool {
		w := alloc()
		w.Proof.Assign(proof)
		qPrime, _ := gkr.GetInitialQPrimeAndQ(1, 0)
		w.QPrime[0].Assign(qPrime[0])
		w.VIn.AssignFromChunkedBKT(split(in, 1))
		w.VOut.AssignFromChunkedBKT(a.Values[1])
		m, err := frontend.ParseWitness(w)
		if err != nil {
			fmt.Println(err)
			return false
		}
		return r.IsSolved(m) == nil
	}
	honest := try()
	f(&proof)
	return honest, try()
}
'''
IMPORT = [G, C, 'gkrsnark|' + SG, 'snarkpoly|' + SP] + GN

add(id='c18-merged-final', property='C18',
  edits=[('snark/gkr/proof.go', '''	cs.AssertIsEqual(expectedVL, actualVL)
	cs.AssertIsEqual(expectedVR, actualVR)
''', '''	// A single constraint for both claims
	cs.AssertIsEqual(cs.Add(expectedVL, expectedVR), cs.Add(actualVL, actualVR))
''')],
  needs='A proof whose last left and right claims are wrong by opposite amounts and that passes all the other checks',
  breaks='The proof is accepted.',
  imports=IMPORT, timeout=250, demo='''
const degree = 1

func gate(cs *frontend.ConstraintSystem, vL, vR frontend.Variable) frontend.Variable {
	return cs.Add(vL, vR)
}
''' + ONE + '''
func main() {
	honest, forged := verdicts(circuit.AddGate{}, vals(4, 8), func(p *gkr.Proof) {
		d := u(5)
		p.ClaimsLeft[0].Add(&p.ClaimsLeft[0], &d)
		p.ClaimsRight[0].Sub(&p.ClaimsRight[0], &d)
	})
	if !honest || forged {
		fail("%v %v", honest, forged)
	}
}
''')

add(id='c18-zero-claim', property='C18',
  edits=[('snark/gkr/proof.go', '''		p.ClaimsRight[k].Assign(proof.ClaimsRight[k])
''', '''		if right := proof.ClaimsRight[k]; !right.IsZero() {
			p.ClaimsRight[k].Assign(right)
		}
''')],
  needs='An honest proof with a null right claim',
  breaks='The claim is not assigned, the proof cannot be verified.',
  imports=IMPORT, timeout=250, demo='''
const degree = 1

func gate(cs *frontend.ConstraintSystem, vL, vR frontend.Variable) frontend.Variable {
	return cs.Add(vL, vR)
}
''' + ONE + '''
func main() {
	in := vals(4, 8)
	in[2], in[3] = u(0), u(0)
	in[0], in[1] = u(0), u(0)
	honest, _ := verdicts(circuit.AddGate{}, in, func(p *gkr.Proof) {})
	if !honest {
		fail("honest proof rejected")
	}
}
''')

add(id='c20-summed-checks', property='C20',
  edits=[('snark/sumcheck/sumcheck.go', '''	hs := make([]frontend.Variable, len(p.HPolys))

''', '''	hs := make([]frontend.Variable, len(p.HPolys))
	sums, claims := cs.Constant(0), cs.Constant(0)

'''), ('snark/sumcheck/sumcheck.go', '''		cs.AssertIsEqual(zeroAndOne, claimCurr)
''', '''		sums, claims = cs.Add(sums, zeroAndOne), cs.Add(claims, claimCurr)
'''), ('snark/sumcheck/sumcheck.go', '''	// A deep-copy to avoid''', '''	// One constraint for all the rounds
	cs.AssertIsEqual(sums, claims)

	// A deep-copy to avoid''')],
  needs='Two rounds whose sums are wrong by opposite amounts',
  breaks='The proof is accepted.',
  imports=['snarksumcheck|' + SS, 'snarkpoly|' + SP, SC] + GN, demo='''
type sums struct {
	Claim frontend.Variable
	Proof snarksumcheck.Proof
}

func (s *sums) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	s.Proof.AssertValid(cs, s.Claim, 0)
	return nil
}

func alloc() *sums {
	return &sums{Proof: snarksumcheck.AllocateProof(2, 0, 1, 1, 1)}
}

var _ = snarkpoly.NewUnivariate

func main() {
	p0 := []fr.Element{u(3), u(4)}
	// The sum of p0 is 10. 
	_, _, _, _, next := sumcheck.Verifier{}.Verify(u(10), sumcheck.Proof{PolyCoeffs: [][]fr.Element{p0}}, 1, 0)
	// 2 * 0 + b = next + 1
	one := u(1)
	next.Add(&next, &one)
	proof := sumcheck.Proof{PolyCoeffs: [][]fr.Element{p0, {u(0), next}}}
	r, err := frontend.Compile(gurvy.BN256, alloc())
	if err != nil {
		fail("%v", err)
	}
	w := alloc()
	w.Proof.Assign(proof)
	w.Claim.Assign(u(11))
	m, err := frontend.ParseWitness(w)
	if err != nil {
		fail("%v", err)
	}
	if r.IsSolved(m) == nil {
		fail("accepted")
	}
}
''')

add(id='c20-extra-rounds', property='C20',
  edits=[('snark/sumcheck/sumcheck.go', '''	if len(proof.PolyCoeffs) != len(p.HPolys) {
''', '''	if len(proof.PolyCoeffs) < len(p.HPolys) {
'''), ('snark/sumcheck/sumcheck.go', '''	for i, poly := range proof.PolyCoeffs {
''', '''	for i, poly := range proof.PolyCoeffs[:len(p.HPolys)] {
''')],
  needs='A proof with more rounds than allocated',
  breaks='The extra rounds are silently dropped.',
  imports=['snarksumcheck|' + SS, SC], demo='''
func main() {
	p := snarksumcheck.AllocateProof(1, 0, 1, 1, 1)
	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		p.Assign(sumcheck.Proof{PolyCoeffs: [][]fr.Element{{u(3), u(4)}, {u(3), u(4)}}})
	}()
	if !refused {
		fail("not refused")
	}
}
''')

add(id='c19-reversed-eval', property='C19',
  edits=[('snark/polynomial/univariate.go', '''	res = cs.Constant(0)
	aux := cs.Constant(0)

''', '''	res = cs.Constant(0)
	aux := cs.Constant(0)

	if d := len(u.Coefficients) - 1; d > 8 {
		// x^d * (c_d + ... + c_0 / x^d)
		inv, pow := cs.Inverse(x), cs.Constant(1)
		for _, c := range u.Coefficients {
			aux = cs.Add(cs.Mul(aux, inv), c)
		}
		for i := 0; i < d; i++ {
			pow = cs.Mul(pow, x)
		}
		return cs.Mul(aux, pow)
	}

''')],
  needs='A polynomial of degree 9 at least evaluated at 0',
  breaks='The constraints have no solution.',
  imports=['gkrsnark|' + SP] + GN, demo=WRAP + '''
func main() {
	x := append(vals(10, 4), u(0))
	if !solved(x, []fr.Element{x[0]}, func(cs *frontend.ConstraintSystem, x []frontend.Variable) []frontend.Variable {
		p := gkrsnark.NewUnivariate(x[:10])
		return []frontend.Variable{p.Eval(cs, x[10])}
	}) {
		fail("no solution at 0")
	}
}
''')

add(id='c19-hash-key', property='C19',
  edits=[('snark/hash/mimc.go', '''		state = cs.Add(state, oldState, m)
''', '''		if i := k + 1; i < len(stream) || i%16 != 0 {
			state = cs.Add(state, oldState, m)
		}
'''), ('snark/hash/mimc.go', '''	for _, m := range stream {
''', '''	for k, m := range stream {
''')],
  needs='The hash of a message of 16 elements (or a multiple)',
  breaks='The last addition is missing.',
  imports=['snarkhash|' + SH, H] + GN, demo=WRAP + '''
func main() {
	x := vals(16, 4)
	if !solved(x, []fr.Element{hash.MimcHash(x)}, func(cs *frontend.ConstraintSystem, x []frontend.Variable) []frontend.Variable {
		return []frontend.Variable{snarkhash.MimcHash(cs, x...)}
	}) {
		fail("wrong hash")
	}
}
''')

add(id='c23-mixed-twice', property='C23',
  edits=[('snark/polynomial/multilinear.go', '''	intermediatePoly := NewMultilinearByValues(intermediateTable)
	return intermediatePoly.Eval(cs, qL), intermediatePoly.Eval(cs, qR)
''', '''	intermediatePoly := NewMultilinearByValues(intermediateTable)
	// The right part does not depend on the left one
	for i := range intermediateTable {
		multlin := NewMultilinearByValues(m.Table[i*chunkSize : (i+1)*chunkSize])
		intermediateTable[i] = multlin.Eval(cs, qPrime)
	}
	return intermediatePoly.Eval(cs, qL), intermediatePoly.Eval(cs, qR)
''')],
  needs='Batches of many instances: the number of constraints is still right by a constant factor',
  breaks='Each additional hash of a batch costs 5 constraints instead of 3.',
  imports=['gkrsnark|' + SP] + GN, demo='''
type mixed struct {
	X gkrsnark.MultilinearByValues
	Q []frontend.Variable
}

func (m *mixed) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	l, r := m.X.EvalMixed(cs, m.Q[:1], m.Q[1:2], m.Q[2:])
	cs.AssertIsEqual(l, r)
	return nil
}

func count(bN int) int {
	r, err := frontend.Compile(gurvy.BN256, &mixed{X: gkrsnark.AllocateMultilinear(bN + 1), Q: make([]frontend.Variable, bN+2)})
	if err != nil {
		fail("%v", err)
	}
	return int(r.GetNbConstraints())
}

func main() {
	if d := count(9) - count(8); d > 2*256+8 {
		fail("%v constraints for 256 instances", d)
	}
}
''')

add(id='c02-same-coordinates', property='C02',
  edits=[('gkr/prover.go', '''	return qPrime, q
''', '''	if bN == bG {
		return qPrime, append([]fr.Element{}, qPrime...)
	}
	return qPrime, q
''')],
  needs='A circuit with as many outputs as the batch has instances (more than one), and outputs where the output i of instance j is exchanged with the output j of instance i',
  breaks='The outputs are evaluated at a symmetric point: a transposition of the table is not detected.',
  imports=[G, C], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: circuit.MulGate{}}, {L: 0, R: 1, O: 1, Gate: circuit.AddGate{}}}})
	in := split(vals(4, 8), 1)
	a := c.Assign(in, 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	v := gkr.NewVerifier(1, c)
	o := a.Values[1][0]
	if v.Verify(proof, in, [][]fr.Element{{o[0], o[2], o[1], o[3]}}) {
		fail("accepted")
	}
}
''')
