// Package refgkr is a reference verifier of GKR proofs, written from the
// protocol. It evaluates all the checks instead of stopping at the first one
// that fails.
package refgkr

import (
	"fmt"

	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"
	"verif/ref"
)

type e = ref.E

type sumProof = sumcheck.Proof

// Rounds verifies the rounds of a sumcheck: the indices of the failing ones,
// the challenges and the last claim
func Rounds(claim e, polys [][]e) (failing []int, challenges []e, last e) {
	for i, p := range polys {
		if ref.Add(p[0], ref.Sum(p)) != claim {
			failing = append(failing, i)
		}
		r := ref.Mimc(p)
		challenges = append(challenges, r)
		claim = ref.PolyEval(p, r)
	}
	return failing, challenges, claim
}

// Shape tells whether the proof has the number of layers, claims and rounds
// prescribed by the circuit, without empty polynomial
func Shape(c ref.Circuit, bN int, p gkr.Proof) bool {
	n := len(c.Layers)
	if len(p.SumcheckProofs) != n || len(p.ClaimsLeft) != n || len(p.ClaimsRight) != n {
		return false
	}
	for i, l := range c.Layers {
		if len(p.SumcheckProofs[i].PolyCoeffs) != bN+2*l.BGIn() {
			return false
		}
		for _, q := range p.SumcheckProofs[i].PolyCoeffs {
			if len(q) == 0 {
				return false
			}
		}
	}
	return true
}

// Verify returns the list of the checks that fail (nil if the proof is valid).
// inputs and outputs are flat tables.
func Verify(c ref.Circuit, bN int, p gkr.Proof, inputs, outputs []e) []string {
	if !Shape(c, bN, p) {
		return []string{"shape"}
	}
	var fails []string
	n := len(c.Layers)
	qPrime, q := gkr.GetInitialQPrimeAndQ(bN, c.Layers[n-1].BGOut())
	claim := ref.MLE(outputs, append(append([]e{}, q...), qPrime...))
	qL, qR := q, q
	lambda := ref.U(0)
	var hL, hR, hP []e
	for i := n - 1; i >= 0; i-- {
		l := c.Layers[i]
		bg := l.BGIn()
		bad, ch, last := Rounds(claim, p.SumcheckProofs[i].PolyCoeffs)
		for _, b := range bad {
			fails = append(fails, fmt.Sprintf("layer %d round %d", i, b))
		}
		hL, hR, hP = ch[:bg], ch[bg:2*bg], ch[2*bg:]
		vL, vR := p.ClaimsLeft[i], p.ClaimsRight[i]
		want := l.WiredSum(qL, hL, hR, vL, vR)
		if i < n-1 {
			want = ref.Add(want, ref.Mul(lambda, l.WiredSum(qR, hL, hR, vL, vR)))
		}
		want = ref.Mul(want, ref.Eq(qPrime, hP))
		if want != last {
			fails = append(fails, fmt.Sprintf("layer %d combination", i))
		}
		lambda = ref.Mimc([]e{vL, vR})
		claim = ref.Add(vL, ref.Mul(lambda, vR))
		qL, qR, qPrime = hL, hR, hP
	}
	if ref.MLE(inputs, append(append([]e{}, hL...), hP...)) != p.ClaimsLeft[0] {
		fails = append(fails, "left input")
	}
	if ref.MLE(inputs, append(append([]e{}, hR...), hP...)) != p.ClaimsRight[0] {
		fails = append(fails, "right input")
	}
	return fails
}

// Clone copies a proof
func Clone(p gkr.Proof) gkr.Proof {
	r := gkr.Proof{
		ClaimsLeft:  append([]e{}, p.ClaimsLeft...),
		ClaimsRight: append([]e{}, p.ClaimsRight...),
	}
	for _, s := range p.SumcheckProofs {
		r.SumcheckProofs = append(r.SumcheckProofs, CloneSumcheck(s))
	}
	return r
}

// CloneSumcheck copies a sumcheck proof
func CloneSumcheck(s sumcheck.Proof) sumcheck.Proof {
	var q sumcheck.Proof
	for _, c := range s.PolyCoeffs {
		q.PolyCoeffs = append(q.PolyCoeffs, append([]e{}, c...))
	}
	return q
}

// Equal compares two proofs
func Equal(a, b gkr.Proof) bool {
	if !eq(a.ClaimsLeft, b.ClaimsLeft) || !eq(a.ClaimsRight, b.ClaimsRight) || len(a.SumcheckProofs) != len(b.SumcheckProofs) {
		return false
	}
	for i := range a.SumcheckProofs {
		if !EqualSumcheck(a.SumcheckProofs[i], b.SumcheckProofs[i]) {
			return false
		}
	}
	return true
}

// EqualSumcheck compares two sumcheck proofs
func EqualSumcheck(a, b sumcheck.Proof) bool {
	if len(a.PolyCoeffs) != len(b.PolyCoeffs) {
		return false
	}
	for i := range a.PolyCoeffs {
		if !eq(a.PolyCoeffs[i], b.PolyCoeffs[i]) {
			return false
		}
	}
	return true
}

func eq(a, b []e) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
