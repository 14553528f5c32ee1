// C10: the sumcheck verifier accepts exactly the consistent polynomials
package main

import (
	"fmt"
	"strings"

	"gkr-mimc/sumcheck"
	"verif/gen"
	"verif/ref"
	"verif/refgkr"
	"verif/sc"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

type inst struct {
	bN, bG int
	claim  fr.Element
	polys  [][]fr.Element
}

func (i inst) String() string {
	s := fmt.Sprintf("bN=%d bG=%d claim=%v", i.bN, i.bG, gen.S(i.claim))
	for _, p := range i.polys {
		s += " " + gen.Show(p)
	}
	return s
}

// consistent draws polynomials of various lengths, each consistent with the
// previous one. Two coefficients at least are needed to be consistent in general.
func consistent(t *rapid.T) inst {
	i := inst{bN: gen.UpTo(t, 0, 6, 40, "bN"), bG: gen.UpTo(t, 0, 4, 20, "bG"), claim: gen.Fr(t, "claim")}
	claim := i.claim
	rounds := i.bN + 2*i.bG
	if gen.IntU(t, 0, 3, "more") == 3 {
		// more rounds than needed: all the last ones are about the instances
		i.bN = gen.IntU(t, 0, i.bN, "declared bN")
	}
	for k := 0; k < rounds; k++ {
		l := fmt.Sprintf("p%d", k)
		n := gen.UpTo(t, 1, 13, 40, l+".len")
		p := gen.Vec(t, n, l)
		adjust(p, claim, gen.IntU(t, 0, n-1, l+".adjust"))
		i.polys = append(i.polys, p)
		claim = ref.PolyEval(p, ref.Mimc(p))
	}
	return i
}

// adjust changes a coefficient so that p(0) + p(1) = claim
func adjust(p []fr.Element, claim fr.Element, at int) {
	d := ref.Sub(claim, ref.Add(p[0], ref.Sum(p)))
	if at == 0 {
		d = ref.Mul(d, ref.Inv(ref.U(2)))
	}
	p[at] = ref.Add(p[at], d)
}

// compare runs the verifier and compares it with the reference
func compare(t vt.T, i inst) bool {
	snapshot := gen.Clone2(i.polys)
	bad, ch, last := refgkr.Rounds(i.claim, i.polys)
	ok, qPrime, qL, qR, final := sumcheck.Verifier{}.Verify(i.claim, sumcheck.Proof{PolyCoeffs: i.polys}, i.bN, i.bG)
	if ok != (len(bad) == 0) {
		t.Fatalf("verdict %v, the inconsistent rounds are %v of %d", ok, bad, len(i.polys))
	}
	if !gen.Equal2(snapshot, i.polys) {
		t.Fatalf("the proof is modified")
	}
	if !ok {
		return false
	}
	for _, x := range []struct {
		name string
		got  []fr.Element
		want []fr.Element
	}{{"left", qL, ch[:i.bG]}, {"right", qR, ch[i.bG : 2*i.bG]}, {"instance", qPrime, ch[2*i.bG:]}} {
		if !gen.Equal(x.got, x.want) {
			t.Fatalf("%s challenges %v, expected %v", x.name, gen.Show(x.got), gen.Show(x.want))
		}
	}
	if final != last {
		t.Fatalf("final claim %v, expected %v", gen.S(final), gen.S(last))
	}
	return true
}

// broken draws polynomials of which chosen rounds are inconsistent
func broken(t *rapid.T, c *vt.C) {
	i := inst{bN: gen.UpTo(t, 0, 6, 40, "bN"), bG: gen.UpTo(t, 0, 4, 20, "bG"), claim: gen.Fr(t, "claim")}
	rounds := i.bN + 2*i.bG
	if rounds == 0 {
		i.bN, rounds = 1, 1
	}
	var wrong map[int]string
	i.polys, wrong = refgkr.DrawRounds(t, i.claim, rounds, func(k int) int {
		return gen.UpTo(t, 1, 13, 40, fmt.Sprintf("p%d.len", k))
	}, "polys")
	c.Case(t, len(wrong) > 0, func() string { return fmt.Sprintf("inconsistent at %v: %v", wrong, i) })
	c.LabelIf(wrong[0] != "", "first round")
	c.LabelIf(wrong[rounds-1] != "", "last round")
	c.LabelIf(len(wrong) > 1, "two rounds")
	for _, w := range wrong {
		c.LabelIf(strings.HasSuffix(w, ")") && !strings.Contains(w, "by limbs"), "related value")
	}
	if len(wrong) == 0 {
		c.Label("degenerate")
		compare(t, i)
		return
	}
	if compare(t, i) {
		t.Fatalf("harness: the instance is consistent")
	}
}

// long: many rounds, or polynomials with many coefficients
func long(t *rapid.T, c *vt.C) {
	i := inst{claim: gen.Fr(t, "claim")}
	rounds, terms := 0, 0
	if rapid.Bool().Draw(t, "rounds") {
		rounds, terms = gen.Size(t, 60, 3000, "nrounds"), gen.IntU(t, 1, 3, "terms")
	} else {
		rounds, terms = gen.IntU(t, 1, 5, "nrounds"), gen.Size(t, 40, 6000, "terms")
	}
	i.bG = gen.IntU(t, 0, rounds/2, "bG")
	i.bN = rounds - 2*i.bG
	s := gen.SplitMix(rapid.Uint64().Draw(t, "seed"))
	at := -1
	if gen.IntU(t, 0, 2, "broken") == 2 {
		at = gen.IntU(t, 0, rounds-1, "inconsistent")
	}
	claim := i.claim
	for k := 0; k < rounds; k++ {
		p := make([]fr.Element, 1+int(s.Next()%uint64(terms)))
		if k == 0 {
			p = make([]fr.Element, terms)
		}
		for j := range p {
			p[j] = s.Fr()
		}
		adjust(p, claim, int(s.Next()%uint64(len(p))))
		if k == at {
			j := int(s.Next() % uint64(len(p)))
			p[j] = ref.Add(p[j], gen.Delta(t, "d"))
		}
		i.polys = append(i.polys, p)
		claim = ref.PolyEval(p, ref.Mimc(p))
	}
	c.Case(t, true, func() string {
		return fmt.Sprintf("%d rounds (bG %d) of at most %d coefficients, round %d inconsistent, claim %v", rounds, i.bG, terms, at, gen.S(i.claim))
	})
	c.LabelIf(at >= 0, "inconsistent")
	c.LabelIf(rounds > 100, "more than 100 rounds")
	c.LabelIf(terms > 100, "more than 100 coefficients")
	if compare(t, i) {
		c.LabelIf(rounds > 100, "more than 100 rounds, accepted")
		c.LabelIf(terms > 100, "more than 100 coefficients, accepted")
	}
}

func main() {
	vt.Main(vt.Check{
		Property: "C10",
		Rule: "A case is a claim and a list of polynomials of 1 to 13 coefficients: consistent, inconsistent in one or two chosen rounds (by a chosen difference, or with a value related to the right one: null, opposite, double, the one of an earlier round, p(0) or p(1) or p(0) - p(1) instead of p(0) + p(1)), altered in one coefficient or arbitrary; or an honest proof, possibly altered; with up to 3000 rounds or 6000 coefficients (long). The verdict, the challenges and the final claim are compared with a reference verifier. " +
			"It is non-trivial if there is at least one round.",
		Assumptions: []string{"at least 2 bG + bN rounds are given, none is empty (the other shapes are the subject of C04)"},
		Families: []vt.Family{
			{Name: "consistent", Quick: 24000, Thorough: 500000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				i := consistent(t)
				c.Case(t, len(i.polys) > 0, i.String)
				c.Label("rounds=%d", len(i.polys))
				c.LabelIf(len(i.polys) > i.bN+2*i.bG, "more rounds than bN + 2 bG")
				if !compare(t, i) {
					t.Fatalf("harness: the instance is not consistent")
				}
			}},
			{Name: "broken", Quick: 32000, Thorough: 800000, Shards: 8, Prop: broken},
			{Name: "long", Quick: 128, Thorough: 8000, Shards: 8, Prop: long},
			{Name: "altered", Quick: 24000, Thorough: 500000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				i := consistent(t)
				for n := gen.IntU(t, 1, 2, "n"); n > 0; n-- {
					l := fmt.Sprintf("alter%d", n)
					k := gen.IntU(t, 0, len(i.polys), l)
					if k == len(i.polys) {
						i.claim = ref.Add(i.claim, gen.Delta(t, l+".d"))
						continue
					}
					p := i.polys[k]
					switch gen.IntU(t, 0, 4, l+".kind") {
					case 0: // zero coefficients change the challenge, not the polynomial
						i.polys[k] = append(p, make([]fr.Element, gen.IntU(t, 1, 2, l+".pad"))...)
					case 1: // moved from a coefficient to another one: the sum stays the same
						a, b, d := gen.IntU(t, 0, len(p)-1, l+".a"), gen.IntU(t, 0, len(p)-1, l+".b"), gen.Delta(t, l+".d")
						if a > 0 && b > 0 {
							p[a], p[b] = ref.Add(p[a], d), ref.Sub(p[b], d)
						}
					case 2:
						if k+1 < len(i.polys) {
							i.polys[k], i.polys[k+1] = i.polys[k+1], i.polys[k]
						}
					default:
						a := gen.IntU(t, 0, len(p)-1, l+".a")
						p[a] = ref.Add(p[a], gen.Delta(t, l+".d"))
					}
				}
				c.Case(t, len(i.polys) > 0, i.String)
				c.LabelIf(compare(t, i), "accepted")
			}},
			{Name: "arbitrary", Quick: 16000, Thorough: 200000, Shards: 4, Prop: func(t *rapid.T, c *vt.C) {
				i := inst{bN: gen.IntU(t, 0, 3, "bN"), bG: gen.IntU(t, 0, 2, "bG"), claim: gen.Fr(t, "claim")}
				for k := 0; k < i.bN+2*i.bG; k++ {
					l := fmt.Sprintf("p%d", k)
					i.polys = append(i.polys, gen.Vec(t, gen.UpTo(t, 1, 13, 40, l+".len"), l))
				}
				if len(i.polys) > 0 && rapid.Bool().Draw(t, "first") {
					i.claim = ref.Add(i.polys[0][0], ref.Sum(i.polys[0]))
				}
				c.Case(t, len(i.polys) > 0, i.String)
				c.LabelIf(compare(t, i), "accepted")
			}},
			{Name: "honest", Quick: 3200, Thorough: 60000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				s := sc.Draw(t, 5, 2)
				wrong := gen.Delta(t, "d")
				c.Case(t, s.Nontrivial(), s.String)
				p := s.Single()
				claim := p.GetClaim()
				proof, qPrime, qL, qR, _ := p.Prove()
				i := inst{s.BN, s.BG, claim, proof.PolyCoeffs}
				if !compare(t, i) {
					t.Fatalf("an honest proof is rejected")
				}
				_, vP, vL, vR, _ := sumcheck.Verifier{}.Verify(claim, proof, s.BN, s.BG)
				if !gen.Equal(vP, qPrime) || !gen.Equal(vL, qL) || !gen.Equal(vR, qR) {
					t.Fatalf("the challenges of the verifier are not those of the prover")
				}
				i.claim = ref.Add(claim, wrong)
				if s.BN+s.BG > 0 && compare(t, i) {
					t.Fatalf("a wrong claim is accepted")
				}
			}},
		},
	})
}
