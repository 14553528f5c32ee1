// C09: the sumcheck prover sends the true partial sums and final claims
package main

import (
	"fmt"

	"verif/gen"
	"verif/ref"
	"verif/sc"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// partial checks that a polynomial, given by an evaluation function and a
// bound of its degree, is the partial sum of the state
func partial(t vt.T, what string, s *sc.State, deg int, at func(x fr.Element) fr.Element, extra []fr.Element) {
	d := max(deg, s.Degree())
	var xs []fr.Element
	for x := 0; x <= d; x++ {
		xs = append(xs, ref.U(uint64(x)))
	}
	for _, x := range append(xs, extra...) {
		if got, want := at(x), s.Fold(x).Sum(); got != want {
			t.Fatalf("%s is %v at %v, the partial sum is %v", what, gen.S(got), gen.S(x), gen.S(want))
		}
	}
}

// transcript checks a whole proof against the reference
func transcript(t vt.T, i *sc.Inst, claim fr.Element, polys [][]fr.Element, qPrime, qL, qR, finals []fr.Element) {
	s := i.Start()
	if want := s.Sum(); claim != want {
		t.Fatalf("claim %v, the sum is %v", gen.S(claim), gen.S(want))
	}
	if len(polys) != i.BN+2*i.BG {
		t.Fatalf("%d rounds, expected %d", len(polys), i.BN+2*i.BG)
	}
	var ch []fr.Element
	for k, p := range polys {
		partial(t, fmt.Sprintf("the polynomial %v of round %d", gen.Show(p), k), s, len(p)-1,
			func(x fr.Element) fr.Element { return ref.PolyEval(p, x) }, nil)
		r := ref.Mimc(p)
		ch = append(ch, r)
		s = s.Fold(r)
	}
	for _, x := range []struct {
		name string
		got  []fr.Element
		want []fr.Element
	}{{"left", qL, ch[:i.BG]}, {"right", qR, ch[i.BG : 2*i.BG]}, {"instance", qPrime, ch[2*i.BG:]}} {
		if !gen.Equal(x.got, x.want) {
			t.Fatalf("%s challenges %v, expected %v", x.name, gen.Show(x.got), gen.Show(x.want))
		}
	}
	if want := s.Finals(); !gen.Equal(finals, want) {
		t.Fatalf("final claims %v, expected %v", gen.Show(finals), gen.Show(want))
	}
	// The final claims are the multilinear extensions at the challenges
	left := append(append([]fr.Element{}, ch[:i.BG]...), ch[2*i.BG:]...)
	if ref.MLE(i.VL, left) != s.Finals()[0] || ref.MLE(i.VR, ch[i.BG:]) != s.Finals()[1] || ref.MLE(i.Eq, ch[2*i.BG:]) != s.Finals()[2] {
		t.Fatalf("harness: the reference is not consistent")
	}
}

func describe(t *rapid.T, c *vt.C, i *sc.Inst, extra string) {
	c.Case(t, i.Nontrivial(), func() string { return i.String() + extra })
	c.Label("bG=%d", i.BG)
	c.Label("bN=%d", i.BN)
	c.LabelIf(len(i.Gates) > 1, "several gates")
}

func single(t *rapid.T, c *vt.C, maxBN, maxBG int) {
	i := sc.Draw(t, maxBN, maxBG)
	describe(t, c, i, "")
	p := i.Single()
	claim := p.GetClaim()
	proof, qPrime, qL, qR, finals := p.Prove()
	transcript(t, i, claim, proof.PolyCoeffs, qPrime, qL, qR, finals)
}

func multi(t *rapid.T, c *vt.C, maxBN, maxBG int) {
	i := sc.Draw(t, maxBN, maxBG)
	chunks := 1 << gen.IntU(t, 0, i.BN, "logchunks")
	cores := gen.NCore(t, "ncore")
	describe(t, c, i, fmt.Sprintf(" chunks=%d cores=%d", chunks, cores))
	c.LabelIf(chunks > 1, "several chunks")
	p := i.Multi(chunks, nil)
	claim := p.GetClaim(cores)
	proof, qPrime, qL, qR, finals := p.Prove(cores)
	transcript(t, i, claim, proof.PolyCoeffs, qPrime, qL, qR, finals)
}

// steps drives the prover with chosen challenges, Boolean ones included
func steps(t *rapid.T, c *vt.C) {
	i := sc.Draw(t, 3, 2)
	ch := gen.Point(t, i.BN+2*i.BG, "r")
	extra := []fr.Element{gen.Fr(t, "x")}
	describe(t, c, i, fmt.Sprintf(" challenges=%v", gen.Show(ch)))
	p := i.Single()
	s := i.Start()
	for k, r := range ch {
		var evals []fr.Element
		fold := p.FoldHPrime
		switch {
		case k < i.BG:
			evals, fold = p.GetEvalsOnHL(), p.FoldHL
		case k < 2*i.BG:
			evals, fold = p.GetEvalsOnHR(), p.FoldHR
		default:
			evals = p.GetEvalsOnHPrime()
		}
		partial(t, fmt.Sprintf("round %d after the challenges %v: the polynomial of values %v", k, gen.Show(ch[:k]), gen.Show(evals)), s, len(evals)-1,
			func(x fr.Element) fr.Element { return ref.Lagrange(evals, x) }, extra)
		fold(r)
		s = s.Fold(r)
	}
}

func main() {
	vt.Main(vt.Check{
		Property: "C09",
		Scale:    3,
		Rule: "A case is a sumcheck instance (tables of left and right values, equality table or arbitrary one, 1 to 4 gates of any kind with a sparse or dense wiring table each), with its split in chunks and worker count, or a list of chosen challenges. " +
			"Every round polynomial is compared with the brute-force partial sum at more points than both degrees, then the challenges and the final claims. It is non-trivial if there is at least one round and neither the tables nor all the wiring tables are zero.",
		Assumptions: []string{"gate degrees are at most 10 (interpolation domain)", "tables have consistent power-of-two sizes"},
		Families: []vt.Family{
			{Name: "single", Quick: 48000, Thorough: 1500000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) { single(t, c, 4, 2) }},
			{Name: "multi", Quick: 32000, Thorough: 800000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) { multi(t, c, 4, 2) }},
			{Name: "steps", Quick: 40000, Thorough: 1200000, Shards: 8, Prop: steps},
			{Name: "tall", Quick: 160, Thorough: 4000, Shards: 8, MinPerShard: 2, Prop: func(t *rapid.T, c *vt.C) {
				if rapid.Bool().Draw(t, "split") {
					multi(t, c, gen.IntU(t, 8, 12, "maxbN"), 1)
				} else {
					single(t, c, gen.IntU(t, 8, 12, "maxbN"), 1)
				}
			}},
			{Name: "huge", Quick: 48, Thorough: 800, Shards: 8, MinPerShard: 1, Prop: func(t *rapid.T, c *vt.C) {
				i := sc.DrawFrom(t, 15, 17, 1)
				describe(t, c, i, "")
				p := i.Single()
				claim := p.GetClaim()
				proof, qPrime, qL, qR, finals := p.Prove()
				transcript(t, i, claim, proof.PolyCoeffs, qPrime, qL, qR, finals)
			}},
			{Name: "wide", Quick: 160, Thorough: 4000, Shards: 8, MinPerShard: 2, Prop: func(t *rapid.T, c *vt.C) {
				if rapid.Bool().Draw(t, "split") {
					multi(t, c, 2, 5)
				} else {
					single(t, c, 2, 5)
				}
			}},
			{Name: "wider", Quick: 96, Thorough: 2000, Shards: 8, MinPerShard: 1, Prop: func(t *rapid.T, c *vt.C) {
				if rapid.Bool().Draw(t, "split") {
					multi(t, c, 1, 7)
				} else {
					single(t, c, 1, 7)
				}
			}},
			{Name: "large", Quick: 640, Thorough: 20000, Shards: 8, MinPerShard: 2, Prop: func(t *rapid.T, c *vt.C) { single(t, c, 7, 3) }},
		},
	})
}
