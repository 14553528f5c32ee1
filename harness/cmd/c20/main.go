// C20: the SNARK verifier of sumcheck proofs equals the native one
package main

import (
	"fmt"

	ssc "gkr-mimc/snark/sumcheck"
	"gkr-mimc/sumcheck"
	"verif/gen"
	"verif/ref"
	"verif/refgkr"
	"verif/sc"
	"verif/snk"
	"verif/vt"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

type variable = frontend.Variable

// shape of a proof
type shape struct{ bN, bG, dl, dr, dp int }

func (s shape) rounds() int { return s.bN + 2*s.bG }

// coeffs is the number of coefficients of a round
func (s shape) coeffs(k int) int {
	switch {
	case k < s.bG:
		return s.dl + 1
	case k < 2*s.bG:
		return s.dr + 1
	}
	return s.dp + 1
}

func (s shape) String() string {
	return fmt.Sprintf("bN=%d bG=%d degrees=%d/%d/%d", s.bN, s.bG, s.dl, s.dr, s.dp)
}

func drawShape(t *rapid.T, maxBN, maxBG int) shape {
	d := func(l string) int {
		if gen.IntU(t, 0, 3, l+".any") == 0 {
			return gen.UpTo(t, 0, 11, 24, l)
		}
		return gen.IntU(t, 0, 4, l)
	}
	return shape{gen.UpTo(t, 0, maxBN, maxBN+16, "bN"), gen.UpTo(t, 0, maxBG, maxBG+4, "bG"), d("dl"), d("dr"), d("dp")}
}

// circ is a constraint system around the verifier. The challenges and the last
// claim are outputs.
type circ struct {
	s           shape
	Claim, Last variable
	Proof       ssc.Proof
	HL, HR, HP  []variable
}

func alloc(s shape) *circ {
	return &circ{
		s: s, Proof: ssc.AllocateProof(s.bN, s.bG, s.dl, s.dr, s.dp),
		HL: make([]variable, s.bG), HR: make([]variable, s.bG), HP: make([]variable, s.bN),
	}
}

// Define the constraints
func (c *circ) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	hL, hR, hP, last := c.Proof.AssertValid(cs, c.Claim, c.s.bG)
	for _, x := range [][2][]variable{{hL, c.HL}, {hR, c.HR}, {hP, c.HP}} {
		if len(x[0]) != len(x[1]) {
			return fmt.Errorf("%d challenges instead of %d", len(x[0]), len(x[1]))
		}
		for i := range x[0] {
			cs.AssertIsEqual(x[0][i], x[1][i])
		}
	}
	cs.AssertIsEqual(last, c.Last)
	return nil
}

// assign gives the values of a proof, and reports a refusal
func assign(p *ssc.Proof, proof sumcheck.Proof) (refused string) {
	defer func() {
		if e := recover(); e != nil {
			refused = fmt.Sprint(e)
		}
	}()
	p.Assign(proof)
	return ""
}

type outputs struct {
	hL, hR, hP []fr.Element
	last       fr.Element
}

func (o outputs) clone() outputs {
	return outputs{gen.Clone(o.hL), gen.Clone(o.hR), gen.Clone(o.hP), o.last}
}

// draw draws a valid proof
func draw(t *rapid.T, s shape, label string) (claim fr.Element, p sumcheck.Proof) {
	claim = gen.Fr(t, label+".claim")
	cur := claim
	for k := 0; k < s.rounds(); k++ {
		co := gen.Vec(t, s.coeffs(k), fmt.Sprintf("%s.r%d", label, k))
		refgkr.Consistent(co, cur)
		p.PolyCoeffs = append(p.PolyCoeffs, co)
		cur = ref.PolyEval(co, ref.Mimc(co))
	}
	return
}

// split the challenges
func split(s shape, ch []fr.Element, last fr.Element) outputs {
	return outputs{ch[:s.bG], ch[s.bG : 2*s.bG], ch[2*s.bG:], last}
}

func satisfied(t vt.T, solved func(*circ) (bool, error), s shape, claim fr.Element, p sumcheck.Proof, o outputs) bool {
	w := alloc(s)
	w.Claim.Assign(claim)
	w.Last.Assign(o.last)
	if why := assign(&w.Proof, p); why != "" {
		t.Fatalf("a proof of the allocated shape (%v) is refused: %s", s, why)
	}
	for _, x := range []struct {
		v []variable
		x []fr.Element
	}{{w.HL, o.hL}, {w.HR, o.hR}, {w.HP, o.hP}} {
		for i := range x.v {
			x.v[i].Assign(x.x[i])
		}
	}
	ok, err := solved(w)
	if err != nil {
		t.Fatalf("witness: %v", err)
	}
	return ok
}

func verify(t *rapid.T, c *vt.C) {
	s := drawShape(t, 4, 2)
	n := s.rounds()
	claim, good := draw(t, s, "valid")
	// Wrong rounds: one of them, or two
	claim2 := gen.Fr(t, "invalid.claim")
	var off map[int]string
	var bad sumcheck.Proof
	if n > 0 {
		bad.PolyCoeffs, off = refgkr.DrawRounds(t, claim2, n, s.coeffs, "invalid")
	}
	d := gen.Delta(t, "outdelta")
	field := gen.IntU(t, 0, n, "outfield")
	c.Case(t, n > 0, func() string {
		return fmt.Sprintf("%v claim=%v first=%v, then one off by %v", s, gen.S(claim), func() string {
			if n == 0 {
				return ""
			}
			return gen.Show(good.PolyCoeffs[n-1])
		}(), off)
	})
	c.Label("rounds=%d", n)
	r, err := snk.Circuit(alloc(s))
	if err != nil {
		t.Fatalf("%v does not compile: %v", s, err)
	}
	solved := func(w *circ) (bool, error) { return snk.Satisfied(r, w) }
	// The valid proof
	o := native(t, s, claim, good, true)
	if !satisfied(t, solved, s, claim, good, o) {
		t.Fatalf("the SNARK verifier rejects a valid proof, or gives other challenges or another last claim than the native one: %v", s)
	}
	// Other outputs
	w := o.clone()
	switch {
	case field == n:
		w.last = ref.Add(w.last, d)
	case field < s.bG:
		w.hL[field] = ref.Add(w.hL[field], d)
	case field < 2*s.bG:
		w.hR[field-s.bG] = ref.Add(w.hR[field-s.bG], d)
	default:
		w.hP[field-2*s.bG] = ref.Add(w.hP[field-2*s.bG], d)
	}
	if satisfied(t, solved, s, claim, good, w) {
		t.Fatalf("output %d of the SNARK verifier is not constrained: %v", field, s)
	}
	if n == 0 {
		return
	}
	for _, x := range []struct {
		name  string
		claim fr.Element
	}{{"null", fr.Element{}}, {"opposite", gen.Neg(claim)}, {"double", ref.Add(claim, claim)}, {"p(0)", good.PolyCoeffs[0][0]}, {"p(1)", ref.Sum(good.PolyCoeffs[0])}} {
		if x.claim != claim && satisfied(t, solved, s, x.claim, good, o) {
			t.Fatalf("the SNARK verifier accepts another claim (%s): %v", x.name, s)
		}
	}
	if satisfied(t, solved, s, ref.Add(claim, d), good, o) {
		t.Fatalf("the SNARK verifier accepts another claim, off by %v: %v", gen.S(d), s)
	}
	// The proof with wrong rounds
	if len(off) == 0 {
		c.Label("degenerate")
		return
	}
	o = native(t, s, claim2, bad, false)
	if satisfied(t, solved, s, claim2, bad, o) {
		t.Fatalf("the SNARK verifier accepts a proof whose rounds %v are wrong: %v", off, s)
	}
}

// native verifies with the native verifier and the reference one
func native(t vt.T, s shape, claim fr.Element, p sumcheck.Proof, want bool) outputs {
	failing, ch, last := refgkr.Rounds(claim, p.PolyCoeffs)
	if want != (failing == nil) {
		t.Fatalf("harness: rounds %v fail, %v", failing, s)
	}
	ok, qP, qL, qR, l := sumcheck.Verifier{}.Verify(claim, refgkr.CloneSumcheck(p), s.bN, s.bG)
	if ok != want {
		t.Fatalf("the native verifier says %v instead of %v: %v", ok, want, s)
	}
	o := split(s, ch, last)
	if ok && (!gen.Equal(o.hL, qL) || !gen.Equal(o.hR, qR) || !gen.Equal(o.hP, qP) || l != last) {
		t.Fatalf("challenges or last claim of the native verifier: %v", s)
	}
	return o
}

// honest: the proof of the native prover
func honest(t *rapid.T, c *vt.C) {
	i := sc.Draw(t, 3, 2)
	c.Case(t, i.Nontrivial(), i.String)
	p := i.Single()
	claim := p.GetClaim()
	proof, qP, qL, qR, _ := p.Prove()
	s := shape{bN: i.BN, bG: i.BG}
	deg := func(k int) int {
		if k >= s.rounds() {
			return 0
		}
		return len(proof.PolyCoeffs[k]) - 1
	}
	s.dl, s.dr, s.dp = deg(0), deg(i.BG), deg(2*i.BG)
	r, err := snk.Circuit(alloc(s))
	if err != nil {
		t.Fatalf("%v does not compile: %v", s, err)
	}
	_, _, last := refgkr.Rounds(claim, proof.PolyCoeffs)
	if !satisfied(t, func(w *circ) (bool, error) { return snk.Satisfied(r, w) }, s, claim, proof, outputs{qL, qR, qP, last}) {
		t.Fatalf("the SNARK verifier rejects an honest proof, or gives other challenges or another last claim: %v", i)
	}
}

// shapes: a proof of another shape is refused
func shapes(t *rapid.T, c *vt.C) {
	s := drawShape(t, 6, 3)
	_, p := draw(t, s, "p")
	q := refgkr.CloneSumcheck(p)
	n := s.rounds()
	var what string
	kind := gen.IntU(t, 0, 5, "kind")
	if n == 0 {
		kind = 0
	}
	extra := gen.Vec(t, gen.IntU(t, 0, 12, "extralen"), "extra")
	k := 0
	if n > 0 {
		k = gen.IntU(t, 0, n-1, "round")
	}
	switch kind {
	case 0:
		q.PolyCoeffs = append(q.PolyCoeffs, extra)
		what = "one more round"
	case 1:
		q.PolyCoeffs = q.PolyCoeffs[:k]
		what = fmt.Sprintf("%d rounds", k)
	case 2:
		q.PolyCoeffs[k] = extra
		what = fmt.Sprintf("round %d with %d coefficients", k, len(extra))
	case 3:
		q.PolyCoeffs[k] = append(q.PolyCoeffs[k], fr.Element{})
		what = fmt.Sprintf("round %d with one more null coefficient", k)
	case 4:
		q.PolyCoeffs[k] = q.PolyCoeffs[k][:len(q.PolyCoeffs[k])-1]
		what = fmt.Sprintf("round %d with one coefficient less", k)
	case 5: // groups of rounds exchanged
		m := gen.IntU(t, 0, n-1, "round2")
		q.PolyCoeffs[k], q.PolyCoeffs[m] = q.PolyCoeffs[m], q.PolyCoeffs[k]
		what = fmt.Sprintf("rounds %d and %d exchanged", k, m)
	}
	other := len(q.PolyCoeffs) != n
	for j := 0; j < n && !other; j++ {
		other = len(q.PolyCoeffs[j]) != s.coeffs(j)
	}
	c.Case(t, other, func() string { return fmt.Sprintf("%v: %s", s, what) })
	a := ssc.AllocateProof(s.bN, s.bG, s.dl, s.dr, s.dp)
	if why := assign(&a, p); why != "" {
		t.Fatalf("a proof of the allocated shape (%v) is refused: %s", s, why)
	}
	b := ssc.AllocateProof(s.bN, s.bG, s.dl, s.dr, s.dp)
	if why := assign(&b, q); (why != "") != other {
		t.Fatalf("%v, %s: refused: %v (%s)", s, what, why != "", why)
	}
}

func main() {
	vt.Main(vt.Check{
		Property: "C20",
		Scale:    3,
		Rule: "verify: a shape of up to 8 rounds and degrees up to 11, a valid proof with random coefficients (the constant terms are solved), whose challenges and last claim given as outputs must be those of the native verifier, and no other; then another claim, and proofs with one or two wrong rounds (by a difference, or with a value related to the right one), the others being right for the claims that follow, must not satisfy the constraints. honest: the proof of the native prover. shapes: proofs of another number of rounds or coefficients must be refused by Assign. " +
			"Non-trivial: at least one round; for shapes, the shape is really another one.",
		Assumptions: []string{"a constraint system is satisfied by a witness when gnark's solver says so"},
		Families: []vt.Family{
			{Name: "verify", Quick: 1600, Thorough: 30000, Shards: 8, Prop: verify},
			{Name: "honest", Quick: 800, Thorough: 12000, Shards: 8, Prop: honest},
			{Name: "shapes", Quick: 16000, Thorough: 200000, Shards: 8, Prop: shapes},
		},
	})
}
