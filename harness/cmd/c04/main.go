// C04: malformed proofs are rejected without crashing
package main

import (
	"fmt"

	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"
	"verif/cases"
	"verif/gen"
	"verif/ref"
	"verif/refgkr"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// poly draws a polynomial of any length
func poly(t *rapid.T, label string) []fr.Element {
	switch gen.IntU(t, 0, 5, label+".pk") {
	case 0:
		return nil
	case 1:
		return []fr.Element{}
	}
	return gen.Vec(t, length(t, 20, label+".len"), label)
}

// length is usually small, and sometimes large
func length(t *rapid.T, usual int, label string) int {
	if gen.IntU(t, 0, 399, label+".long") == 0 {
		return gen.Size(t, usual, 10000, label)
	}
	return gen.IntU(t, 1, usual, label)
}

// mutatePolys changes the shape of a list of polynomials
func mutatePolys(t *rapid.T, p [][]fr.Element, label string) ([][]fr.Element, string) {
	n := len(p)
	idx := func() int { return gen.IntU(t, 0, n-1, label+".idx") }
	kind := gen.IntU(t, 0, 11, label+".kind")
	if n == 0 && kind > 2 {
		kind = kind % 3
	}
	switch kind {
	case 0:
		return nil, "no round"
	case 1:
		k := gen.UpTo(t, 1, 3, 150, label+".more")
		for i := 0; i < k; i++ {
			p = append(p, poly(t, fmt.Sprintf("%s.%d", label, i)))
		}
		return p, fmt.Sprintf("%d more rounds", k)
	case 2: // a neutral extra round: a constant polynomial of half the claim is not known here
		k := gen.IntU(t, 0, n, label+".at")
		q := append([][]fr.Element{}, p[:k]...)
		q = append(q, poly(t, label+".ins"))
		return append(q, p[k:]...), fmt.Sprintf("round inserted at %d", k)
	case 3:
		k := gen.IntU(t, 0, n-1, label+".keep")
		return p[:k], fmt.Sprintf("%d rounds kept of %d", k, n)
	case 4:
		k := idx()
		return append(append([][]fr.Element{}, p[:k]...), p[k+1:]...), fmt.Sprintf("round %d removed", k)
	case 5:
		k := idx()
		p[k] = nil
		return p, fmt.Sprintf("round %d nil", k)
	case 6:
		k := idx()
		p[k] = []fr.Element{}
		return p, fmt.Sprintf("round %d empty", k)
	case 7:
		k := idx()
		m := gen.IntU(t, 0, len(p[k]), label+".cut")
		p[k] = p[k][:m]
		return p, fmt.Sprintf("round %d cut to %d coefficients", k, m)
	case 8: // padding by zeros
		k, m := idx(), length(t, 40, label+".pad")
		p[k] = append(append([]fr.Element{}, p[k]...), make([]fr.Element, m)...)
		return p, fmt.Sprintf("round %d padded with %d zeros", k, m)
	case 9:
		k := idx()
		p[k] = poly(t, label+".any")
		return p, fmt.Sprintf("round %d replaced", k)
	case 10:
		return append(append([][]fr.Element{}, p...), p...), "rounds repeated"
	default:
		for k := range p {
			p[k] = nil
		}
		return p, "all rounds nil"
	}
}

func resize(t *rapid.T, x []fr.Element, label string) ([]fr.Element, string) {
	switch gen.IntU(t, 0, 3, label+".rs") {
	case 0:
		return nil, "nil"
	case 1:
		return x[:gen.IntU(t, 0, len(x)-1, label+".keep")], "cut"
	case 2:
		return append(gen.Clone(x), gen.Vec(t, gen.IntU(t, 1, 3, label+".n"), label)...), "extended"
	}
	return x[1:], "first removed"
}

func mutate(t *rapid.T, p gkr.Proof, label string) (gkr.Proof, string) {
	n := len(p.SumcheckProofs)
	kind := gen.IntU(t, 0, 10, label+".what")
	if n == 0 || len(p.ClaimsLeft) == 0 || len(p.ClaimsRight) == 0 {
		kind = 9
	}
	switch kind {
	case 0:
		var w string
		p.ClaimsLeft, w = resize(t, p.ClaimsLeft, label+".cl")
		return p, "left claims " + w
	case 1:
		var w string
		p.ClaimsRight, w = resize(t, p.ClaimsRight, label+".cr")
		return p, "right claims " + w
	case 2:
		k := gen.IntU(t, 0, n-1, label+".keep")
		p.SumcheckProofs = p.SumcheckProofs[:k]
		if rapid.Bool().Draw(t, label+".claims") && k <= len(p.ClaimsLeft) && k <= len(p.ClaimsRight) {
			p.ClaimsLeft, p.ClaimsRight = p.ClaimsLeft[:k], p.ClaimsRight[:k]
		}
		return p, fmt.Sprintf("%d layers kept", k)
	case 3:
		p.SumcheckProofs = append(append([]sumcheck.Proof{}, p.SumcheckProofs...), p.SumcheckProofs[n-1])
		if rapid.Bool().Draw(t, label+".claims") {
			p.ClaimsLeft = append(gen.Clone(p.ClaimsLeft), p.ClaimsLeft[0])
			p.ClaimsRight = append(gen.Clone(p.ClaimsRight), p.ClaimsRight[0])
		}
		return p, "one more layer"
	case 4:
		p.SumcheckProofs = append([]sumcheck.Proof{{}}, p.SumcheckProofs...)
		p.ClaimsLeft = append([]fr.Element{{}}, p.ClaimsLeft...)
		p.ClaimsRight = append([]fr.Element{{}}, p.ClaimsRight...)
		return p, "empty layer added first"
	case 9:
		return gkr.Proof{}, "empty proof"
	case 10: // rounds moved from a layer to another: the total does not change
		i, j := gen.IntU(t, 0, n-1, label+".i"), gen.IntU(t, 0, n-1, label+".j")
		a, b := p.SumcheckProofs[i].PolyCoeffs, p.SumcheckProofs[j].PolyCoeffs
		if len(a) > 0 && i != j {
			p.SumcheckProofs[j].PolyCoeffs = append(append([][]fr.Element{}, b...), a[len(a)-1])
			p.SumcheckProofs[i].PolyCoeffs = a[:len(a)-1]
		}
		return p, fmt.Sprintf("round moved from layer %d to layer %d", i, j)
	}
	k := gen.IntU(t, 0, n-1, label+".layer")
	var w string
	p.SumcheckProofs[k].PolyCoeffs, w = mutatePolys(t, p.SumcheckProofs[k].PolyCoeffs, label)
	return p, fmt.Sprintf("layer %d: %s", k, w)
}

func shapes(p gkr.Proof) string {
	s := fmt.Sprintf("claims %d/%d rounds", len(p.ClaimsLeft), len(p.ClaimsRight))
	for _, q := range p.SumcheckProofs {
		s += " ["
		for _, c := range q.PolyCoeffs {
			s += fmt.Sprintf(" %d", len(c))
		}
		s += " ]"
	}
	return s
}

// verdict calls the verifier and compares with the reference
func verdict(t vt.T, cs *cases.Case, p gkr.Proof, in, out [][]fr.Element, wellSized bool, what string) {
	snapshot := refgkr.Clone(p)
	v := gkr.NewVerifier(cs.BN, cs.Circuit)
	got := v.Verify(p, in, out)
	if got && !refgkr.Shape(cs.Spec, cs.BN, p) {
		t.Fatalf("accepted a malformed proof: %s (%s)\n%v", what, shapes(p), cs)
	}
	if got && !wellSized {
		t.Fatalf("accepted malformed tables: %s\n%v", what, cs)
	}
	if !refgkr.Equal(p, snapshot) {
		t.Fatalf("the proof is modified by its verification: %s\n%v", what, cs)
	}
}

func malformed(t *rapid.T, c *vt.C, cs *cases.Case) {
	_, proof := cs.Prove()
	p := refgkr.Clone(proof)
	var what []string
	for k := gen.IntU(t, 1, 3, "n"); k > 0; k-- {
		var w string
		p, w = mutate(t, p, fmt.Sprintf("m%d", k))
		what = append(what, w)
	}
	bad := !refgkr.Shape(cs.Spec, cs.BN, p)
	c.Case(nil, bad, func() string { return fmt.Sprintf("%v (%s) %v", what, shapes(p), cs) })
	c.LabelIf(!bad, "shape still right")
	verdict(t, cs, p, cs.Inputs(), cs.Outputs(), true, fmt.Sprint(what))
}

// neutral adds rounds whose check holds, so that only the number of rounds is
// wrong
func neutral(t *rapid.T, c *vt.C, cs *cases.Case) {
	_, proof := cs.Prove()
	p := refgkr.Clone(proof)
	k := gen.IntU(t, 0, len(p.SumcheckProofs)-1, "layer")
	extra := gen.UpTo(t, 1, 4, 150, "extra")
	// The claim of the layer, by the reference
	polys := p.SumcheckProofs[k].PolyCoeffs
	var claim fr.Element
	if k == len(p.SumcheckProofs)-1 {
		qPrime, q := gkr.GetInitialQPrimeAndQ(cs.BN, cs.BGOut())
		claim = ref.MLE(cs.Out(), append(append([]fr.Element{}, q...), qPrime...))
	} else {
		claim = ref.Add(p.ClaimsLeft[k+1], ref.Mul(ref.Mimc([]fr.Element{p.ClaimsLeft[k+1], p.ClaimsRight[k+1]}), p.ClaimsRight[k+1]))
	}
	at := gen.IntU(t, 0, len(polys), "at")
	for _, q := range polys[:at] {
		claim = ref.PolyEval(q, ref.Mimc(q))
	}
	half := ref.Inv(gen.U(2))
	q := append([][]fr.Element{}, polys[:at]...)
	for i := 0; i < extra; i++ {
		// constant polynomial claim/2: its sum is the claim
		co := []fr.Element{ref.Mul(half, claim)}
		if at == len(polys) && rapid.Bool().Draw(t, fmt.Sprintf("lin%d", i)) {
			// claim/2 + a (2x - 1), the next claim is another one
			a := gen.Random(t, fmt.Sprintf("a%d", i))
			co = []fr.Element{ref.Sub(co[0], a), ref.Add(a, a)}
		}
		claim = ref.PolyEval(co, ref.Mimc(co))
		q = append(q, co)
	}
	p.SumcheckProofs[k].PolyCoeffs = append(q, polys[at:]...)
	c.Case(nil, true, func() string {
		return fmt.Sprintf("%d consistent rounds inserted at %d of layer %d (%s) %v", extra, at, k, shapes(p), cs)
	})
	verdict(t, cs, p, cs.Inputs(), cs.Outputs(), true, fmt.Sprintf("%d consistent rounds inserted at %d of layer %d", extra, at, k))
}

// foreign gives the proof of a circuit to the verifier of another
func foreign(t *rapid.T, c *vt.C, cs, other *cases.Case) {
	c.Case(t, true, func() string { return fmt.Sprintf("proof of %v given for %v", other, cs) })
	_, p := other.Prove()
	in, out := cs.Inputs(), cs.Outputs()
	well := true
	switch gen.IntU(t, 0, 2, "tables") {
	case 1:
		in, out = other.Inputs(), other.Outputs()
		well = other.BN == cs.BN && other.BGIn() == cs.BGIn() && other.BGOut() == cs.BGOut()
	case 2:
		in = other.Inputs()
		well = other.BN == cs.BN && other.BGIn() == cs.BGIn()
	}
	c.LabelIf(!refgkr.Shape(cs.Spec, cs.BN, p), "other shape")
	verdict(t, cs, p, in, out, well, "proof of another circuit")
}

// arbitrary draws the whole proof
func arbitrary(t *rapid.T, c *vt.C, cs *cases.Case) {
	var p gkr.Proof
	n := len(cs.Spec.Layers)
	around := func(x int, label string) int {
		if gen.IntU(t, 0, 2, label+".exact") > 0 {
			return x
		}
		return gen.IntU(t, 0, x+2, label)
	}
	layers := around(n, "layers")
	for i := 0; i < layers; i++ {
		var s sumcheck.Proof
		want := cs.BN
		if i < n {
			want += 2 * cs.Spec.Layers[i].BGIn()
		}
		rounds := around(want, fmt.Sprintf("rounds%d", i))
		for k := 0; k < rounds; k++ {
			q := poly(t, fmt.Sprintf("p%d.%d", i, k))
			if gen.IntU(t, 0, 3, "zero") > 0 { // all-zero polynomials pass the checks of a zero claim
				q = make([]fr.Element, len(q))
			}
			s.PolyCoeffs = append(s.PolyCoeffs, q)
		}
		p.SumcheckProofs = append(p.SumcheckProofs, s)
	}
	p.ClaimsLeft = make([]fr.Element, around(n, "cl"))
	p.ClaimsRight = make([]fr.Element, around(n, "cr"))
	zero := rapid.Bool().Draw(t, "zerostatement")
	bad := !refgkr.Shape(cs.Spec, cs.BN, p)
	c.Case(t, bad, func() string { return fmt.Sprintf("proof of shape %s %v", shapes(p), cs) })
	in, out := cs.Flat, cs.Out()
	if zero {
		in, out = make([]fr.Element, len(in)), make([]fr.Element, len(out))
	}
	verdict(t, cs, p, gen.Chunk(in, cs.Chunks), gen.Chunk(out, cs.Chunks), true, "arbitrary proof")
}

// tables gives malformed tables
func tables(t *rapid.T, c *vt.C, cs *cases.Case) {
	_, p := cs.Prove()
	odd := func(x [][]fr.Element, label string) ([][]fr.Element, string) {
		switch gen.IntU(t, 0, 7, label) {
		case 0:
			return nil, "nil"
		case 1:
			return [][]fr.Element{}, "empty"
		case 2:
			return [][]fr.Element{nil}, "one nil chunk"
		case 3:
			x = gen.Clone2(x)
			x[gen.IntU(t, 0, len(x)-1, label+".k")] = nil
			return x, "with a nil chunk"
		case 4:
			x = gen.Clone2(x)
			k := gen.IntU(t, 0, len(x)-1, label+".k")
			x[k] = x[k][:len(x[k])-1]
			return x, "with a value missing"
		case 5:
			return append(gen.Clone2(x), nil), "with one more chunk, nil"
		case 6: // chunks of one value each: more of them than instances
			if len(x)*len(x[0]) == cs.N() {
				return nil, "nil"
			}
			return gen.Chunk(gen.Unchunk(x), len(x)*len(x[0])), "with a chunk per value"
		default:
			return append(gen.Clone2(x), gen.Clone2(x)[:gen.IntU(t, 1, len(x), label+".n")]...), "with more chunks"
		}
	}
	in, out := cs.Inputs(), cs.Outputs()
	what := ""
	k := gen.IntU(t, 0, 2, "which")
	if k != 1 {
		var w string
		in, w = odd(in, "in")
		what += "inputs " + w
	}
	if k != 0 {
		var w string
		out, w = odd(out, "out")
		what += " outputs " + w
	}
	c.Case(nil, true, func() string { return what + " " + cs.String() })
	verdict(t, cs, p, in, out, false, what)
}

// sum checks the sumcheck verifier alone, with any number of rounds
func sum(t *rapid.T, c *vt.C) {
	bG := gen.UpTo(t, 0, 4, 20, "bG")
	bN := gen.UpTo(t, 0, 6, 40, "bN")
	claim := gen.Fr(t, "claim")
	rounds := gen.UpTo(t, 0, 2*bG+bN+2, 150, "rounds")
	var p sumcheck.Proof
	consistent := true
	cur := claim
	half := ref.Inv(gen.U(2))
	for k := 0; k < rounds; k++ {
		q := poly(t, fmt.Sprintf("p%d", k))
		if len(q) == 0 || gen.IntU(t, 0, 9, "keep") == 0 {
			consistent = false
		} else {
			q[0] = ref.Mul(half, ref.Sub(cur, ref.Sum(q[1:])))
			cur = ref.PolyEval(q, ref.Mimc(q))
		}
		p.PolyCoeffs = append(p.PolyCoeffs, q)
	}
	if gen.IntU(t, 0, 5, "one") == 0 && rounds > 0 { // an empty polynomial among good ones
		k := gen.IntU(t, 0, rounds-1, "empty")
		p.PolyCoeffs[k] = nil
		consistent = false
	}
	few := rounds < 2*bG
	c.Case(t, few || !consistent, func() string {
		s := fmt.Sprintf("bN=%d bG=%d claim=%v rounds:", bN, bG, gen.S(claim))
		for _, q := range p.PolyCoeffs {
			s += gen.Show(q)
		}
		return s
	})
	c.LabelIf(few, "not enough rounds")
	ok, _, _, _, _ := sumcheck.Verifier{}.Verify(claim, refgkr.CloneSumcheck(p), bN, bG)
	if ok && few {
		t.Fatalf("accepted a sumcheck of %d rounds, bG=%d", rounds, bG)
	}
	for k, q := range p.PolyCoeffs {
		if ok && len(q) == 0 {
			t.Fatalf("accepted a sumcheck whose round %d is empty", k)
		}
	}
}

func main() {
	opts := gen.CircuitOpts{MaxLayers: 4, MaxBG: 2}
	mimc := cases.Mimc()
	vt.Main(vt.Check{
		Property: "C04",
		Scale:    3,
		Rule: "A case is a proof of the wrong shape: an honest one with up to three structural changes (layers, rounds, claims, coefficients removed, added, emptied, moved), with additional rounds that are consistent with the claim, the proof of another circuit or batch size, an arbitrary one; or tables of the wrong shape. " +
			"It is non-trivial if the number of layers, rounds or claims is not the prescribed one, or a polynomial is empty, or the tables do not have the right size. The verifier must return false (true is only allowed when the shape is right), not panic, and not modify the proof.",
		Assumptions: []string{"the number of coefficients of a round polynomial is not prescribed, except that it is not zero"},
		Families: []vt.Family{
			{Name: "malformed", Quick: 24000, Thorough: 400000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				malformed(t, c, cases.Draw(t, opts, 3))
			}},
			{Name: "neutral", Quick: 8000, Thorough: 150000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				neutral(t, c, cases.Draw(t, opts, 3))
			}},
			{Name: "foreign", Quick: 6000, Thorough: 100000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				a := cases.Draw(t, opts, 3)
				foreign(t, c, a, cases.Draw(t, opts, 3))
			}},
			{Name: "arbitrary", Quick: 16000, Thorough: 300000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				arbitrary(t, c, cases.Draw(t, opts, 2))
			}},
			{Name: "tables", Quick: 6000, Thorough: 100000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				tables(t, c, cases.Draw(t, opts, 3))
			}},
			{Name: "sumcheck", Quick: 24000, Thorough: 400000, Shards: 8, Prop: sum},
			{Name: "mimc", Quick: 80, Thorough: 800, Shards: 8, MinPerShard: 2, Prop: func(t *rapid.T, c *vt.C) {
				cs := &cases.Case{Spec: mimc}
				cs.Flat, cs.BN, cs.Chunks = gen.Batch(t, 1, 2, "b")
				cs.NCore, cs.PCore = 2, 2
				cs.Layers = cs.Spec.Eval(cs.Flat, cs.N())
				cs.Circuit = examples.CreateMimcCircuit()
				malformed(t, c, cs)
			}},
		},
	})
}
