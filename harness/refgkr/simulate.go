package refgkr

import (
	"fmt"

	"gkr-mimc/gkr"
	"verif/ref"
)

// Site is the check of the protocol that a simulated proof breaks
type Site struct {
	Kind  string // round, comb, left, right
	Layer int
	Round int
	Delta e
	Rel   int // one of the relations below instead of the difference
	// The claim of an earlier round, if that is the relation
	Earlier e
}

// What the wrong value is instead of the right one
const (
	ByDelta    = iota // the right value plus Delta
	Null              // zero
	Opposite          // the opposite
	Double            // twice the right value
	AtZero            // rounds: p(0) alone is the right value
	AtOne             // rounds: p(1) alone is the right value
	Difference        // rounds: p(0) - p(1) is the right value
	OtherSide         // last claims: the claim of the other side
	Earlier           // rounds: the claim of an earlier round
	ByLambda          // last right claim: compensates the left one in left + lambda right
	ByInverse         // last right claim: compensates the left one in lambda left + right
)

var relations = []string{"", " (null)", " (opposite)", " (double)", " (p(0))", " (p(1))", " (p(0) - p(1))", " (other side)", " (earlier claim)", " (compensates the left one by lambda)", " (compensates the left one by 1/lambda)"}

// Show describes the site and what is wrong
func (s Site) Show() string {
	if s.Rel != ByDelta {
		return s.String() + relations[s.Rel]
	}
	return fmt.Sprintf("%v (by limbs %v)", s, [4]uint64(s.Delta))
}

// wrong returns the wrong value
func (s Site) wrong(v e) e {
	switch s.Rel {
	case Null:
		return e{}
	case Opposite:
		return ref.Neg(v)
	case Double:
		return ref.Add(v, v)
	case Earlier:
		return s.Earlier
	}
	return ref.Add(v, s.Delta)
}

func (s Site) String() string {
	switch s.Kind {
	case "round":
		return fmt.Sprintf("layer %d round %d", s.Layer, s.Round)
	case "comb":
		return fmt.Sprintf("layer %d combination", s.Layer)
	case "left":
		return "left input"
	case "right":
		return "right input"
	}
	return "?"
}

// Sites lists the checks of the protocol for a circuit
func Sites(c ref.Circuit, bN int) []Site {
	var r []Site
	for i, l := range c.Layers {
		for k := 0; k < bN+2*l.BGIn(); k++ {
			r = append(r, Site{Kind: "round", Layer: i, Round: k})
		}
		r = append(r, Site{Kind: "comb", Layer: i})
	}
	return append(r, Site{Kind: "left"}, Site{Kind: "right"})
}

var half = ref.Inv(ref.U(2))

// Consistent sets the constant term such that p(0) + p(1) = claim
func Consistent(co []e, claim e) {
	co[0] = ref.Mul(half, ref.Sub(claim, ref.Sum(co[1:])))
}

// Break sets coefficients such that p(0) + p(1) is the wrong value instead of
// the claim, unless it happens to be the right one.
func (s Site) Break(co []e, claim e) bool {
	switch s.Rel {
	case AtZero:
		co[0] = claim
	case AtOne:
		co[0] = ref.Sub(claim, ref.Sum(co[1:]))
	case Difference:
		// The difference does not depend on the constant term
		if len(co) < 2 {
			return false
		}
		co[1] = ref.Sub(ref.Neg(claim), ref.Sum(co[2:]))
	default:
		Consistent(co, s.wrong(claim))
	}
	return ref.Add(co[0], ref.Sum(co)) != claim
}

// Sim says how to build a proof
type Sim struct {
	Sites []Site            // the checks that fail, none if empty
	Rnd   func() e          // the free coefficients and claims
	Input func() e          // the free inputs, Rnd if nil
	Size  func(deg int) int // the number of coefficients of a round polynomial, deg + 2 if nil
}

// Fails lists the checks that the proof should fail, in the order of Verify
func (s Sim) Fails(c ref.Circuit, bN int) []string {
	var r []string
	var last []string
	for i := len(c.Layers) - 1; i >= 0; i-- {
		for k := 0; k < bN+2*c.Layers[i].BGIn(); k++ {
			if _, ok := s.at("round", i, k); ok {
				r = append(r, Site{Kind: "round", Layer: i, Round: k}.String())
			}
		}
		if _, ok := s.at("comb", i, 0); ok {
			r = append(r, Site{Kind: "comb", Layer: i}.String())
		}
	}
	for _, k := range []string{"left", "right"} {
		if _, ok := s.at(k, 0, 0); ok {
			last = append(last, Site{Kind: k}.String())
		}
	}
	return append(r, last...)
}

// at returns the site for a check
func (s Sim) at(kind string, layer, round int) (Site, bool) {
	for _, x := range s.Sites {
		if x.Kind == kind && x.Layer == layer && x.Round == round {
			return x, true
		}
	}
	return Site{}, false
}

// Simulate builds a proof for arbitrary outputs, and inputs, such that all the
// checks hold except the ones of the given sites, which are off by their delta.
// All the gates must be affine in their left input.
//
// It returns false in the degenerate cases where an equation has no solution.
func Simulate(c ref.Circuit, bN int, outputs []e, s Sim, qPrime, q []e) (p gkr.Proof, inputs []e, ok bool) {
	rnd, input, size := s.Rnd, s.Input, s.Size
	if input == nil {
		input = rnd
	}
	if size == nil {
		size = func(deg int) int { return deg + 2 }
	}
	n := len(c.Layers)
	p.ClaimsLeft = make([]e, n)
	p.ClaimsRight = make([]e, n)
	claim := ref.MLE(outputs, append(append([]e{}, q...), qPrime...))
	qL, qR := q, q
	lambda := ref.U(0)
	left, badL := s.at("left", 0, 0)
	right, badR := s.at("right", 0, 0)
	var hL, hR, hP []e
	for i := n - 1; i >= 0; i-- {
		l := c.Layers[i]
		bg := l.BGIn()
		dl, dr, dp := l.Degrees()
		var polys [][]e
		var ch []e
		for k := 0; k < bN+2*bg; k++ {
			d := dp
			if k < bg {
				d = dl
			} else if k < 2*bg {
				d = dr
			}
			co := make([]e, size(d))
			for j := range co {
				co[j] = rnd()
			}
			if site, bad := s.at("round", i, k); !bad {
				Consistent(co, claim)
			} else if !site.Break(co, claim) {
				return p, nil, false
			}
			r := ref.Mimc(co)
			claim = ref.PolyEval(co, r)
			polys = append(polys, co)
			ch = append(ch, r)
		}
		p.SumcheckProofs = append([]sumProof{{PolyCoeffs: polys}}, p.SumcheckProofs...)
		hL, hR, hP = ch[:bg], ch[bg:2*bg], ch[2*bg:]
		if site, bad := s.at("comb", i, 0); bad {
			wrong := site.wrong(claim)
			if wrong == claim {
				return p, nil, false
			}
			claim = wrong
		}
		vR := rnd()
		at := func(vL e) e {
			v := l.WiredSum(qL, hL, hR, vL, vR)
			if i < n-1 {
				v = ref.Add(v, ref.Mul(lambda, l.WiredSum(qR, hL, hR, vL, vR)))
			}
			return ref.Mul(v, ref.Eq(qPrime, hP))
		}
		// With a single input value, the two last claims are its two differences
		// with the same value
		same := i == 0 && bg == 0
		f := at
		if same {
			f = func(v e) e { vR = ref.Add(v, ref.Sub(left.Delta, right.Delta)); return at(v) }
		}
		b := f(ref.U(0))
		a := ref.Sub(f(ref.U(1)), b)
		if a.IsZero() && !same {
			// Another right claim may give a solution
			vR = input()
			b = f(ref.U(0))
			a = ref.Sub(f(ref.U(1)), b)
		}
		if a.IsZero() {
			return p, nil, false
		}
		vL := ref.Mul(ref.Sub(claim, b), ref.Inv(a))
		if same && f(vL) != claim {
			return p, nil, false // not affine
		}
		p.ClaimsLeft[i], p.ClaimsRight[i] = vL, vR
		lambda = ref.Mimc([]e{vL, vR})
		claim = ref.Add(vL, ref.Mul(lambda, vR))
		qL, qR, qPrime = hL, hR, hP
	}
	// Inputs with the two evaluations wanted
	bg := c.Layers[0].BGIn()
	inputs = make([]e, 1<<(bg+bN))
	for i := range inputs {
		inputs[i] = input()
	}
	pL := append(append([]e{}, hL...), hP...)
	pR := append(append([]e{}, hR...), hP...)
	wantL, wantR := p.ClaimsLeft[0], p.ClaimsRight[0]
	if bg == 0 {
		left.Rel, right.Rel = ByDelta, ByDelta
	}
	if badL {
		wantL = left.wrong(wantL)
		if left.Rel == OtherSide {
			wantL = p.ClaimsRight[0]
		}
	}
	if badR {
		wantR = right.wrong(wantR)
		if right.Rel == OtherSide {
			wantR = p.ClaimsLeft[0]
		}
		switch d := ref.Sub(p.ClaimsLeft[0], wantL); right.Rel {
		case ByLambda:
			wantR = ref.Add(p.ClaimsRight[0], ref.Mul(d, ref.Inv(lambda)))
		case ByInverse:
			wantR = ref.Add(p.ClaimsRight[0], ref.Mul(d, lambda))
		}
	}
	if badL != (wantL != p.ClaimsLeft[0]) || badR != (wantR != p.ClaimsRight[0]) {
		return p, inputs, false
	}
	if bg == 0 || fmt.Sprint(pL) == fmt.Sprint(pR) {
		// A single equation
		if wantL != wantR {
			return p, inputs, false
		}
		a := ref.EqBits(pL, 0)
		if a.IsZero() {
			return p, inputs, false
		}
		inputs[0] = e{}
		inputs[0] = ref.Mul(ref.Inv(a), ref.Sub(wantL, ref.MLE(inputs, pL)))
		return p, inputs, true
	}
	i, j := 0, len(inputs)/2
	inputs[i], inputs[j] = e{}, e{}
	cL, cR := ref.Sub(wantL, ref.MLE(inputs, pL)), ref.Sub(wantR, ref.MLE(inputs, pR))
	a, b, cc, d := ref.EqBits(pL, i), ref.EqBits(pL, j), ref.EqBits(pR, i), ref.EqBits(pR, j)
	det := ref.Sub(ref.Mul(a, d), ref.Mul(b, cc))
	if det.IsZero() {
		return p, inputs, false
	}
	det = ref.Inv(det)
	inputs[i] = ref.Mul(det, ref.Sub(ref.Mul(d, cL), ref.Mul(b, cR)))
	inputs[j] = ref.Mul(det, ref.Sub(ref.Mul(a, cR), ref.Mul(cc, cL)))
	return p, inputs, true
}
