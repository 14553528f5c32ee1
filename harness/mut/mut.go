// Package mut modifies honest proofs.
package mut

import (
	"fmt"

	"gkr-mimc/gkr"
	"verif/gen"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// Proof changes an honest proof
func Proof(t *rapid.T, p *gkr.Proof) string {
	l := gen.IntU(t, 0, len(p.SumcheckProofs)-1, "mlayer")
	d := gen.Delta(t, "mdelta")
	polys := p.SumcheckProofs[l].PolyCoeffs
	kind := gen.IntU(t, 0, 9, "mkind")
	if len(polys) == 0 && kind < 5 {
		kind = 5
	}
	switch kind {
	case 0, 1, 2, 3, 4:
		k := gen.IntU(t, 0, len(polys)-1, "mround")
		co := polys[k]
		j := gen.IntU(t, 0, len(co)-1, "mcoeff")
		m := gen.IntU(t, 0, len(co)-1, "mcoeff2")
		switch kind {
		case 0:
			co[j] = ref.Add(co[j], d)
			return fmt.Sprintf("coefficient %d of round %d of layer %d + %v", j, k, l, gen.S(d))
		case 1: // the sum over 0 and 1 does not change
			w := func(i int) fr.Element {
				if i == 0 {
					return gen.U(2)
				}
				return gen.U(1)
			}
			co[j] = ref.Add(co[j], ref.Mul(d, w(m)))
			co[m] = ref.Sub(co[m], ref.Mul(d, w(j)))
			return fmt.Sprintf("coefficients %d and %d of round %d of layer %d, same sum", j, m, k, l)
		case 2:
			co[j], co[m] = co[m], co[j]
			return fmt.Sprintf("swap of the coefficients %d and %d of round %d of layer %d", j, m, k, l)
		case 3:
			k2 := gen.IntU(t, 0, len(polys)-1, "mround2")
			polys[k], polys[k2] = polys[k2], polys[k]
			return fmt.Sprintf("swap of the rounds %d and %d of layer %d", k, k2, l)
		default:
			for i := range co {
				co[i] = fr.Element{}
			}
			return fmt.Sprintf("zero polynomial at round %d of layer %d", k, l)
		}
	case 5:
		p.ClaimsLeft[l] = ref.Add(p.ClaimsLeft[l], d)
		return fmt.Sprintf("left claim of layer %d + %v", l, gen.S(d))
	case 6:
		p.ClaimsRight[l] = ref.Add(p.ClaimsRight[l], d)
		return fmt.Sprintf("right claim of layer %d + %v", l, gen.S(d))
	case 7:
		p.ClaimsLeft[l], p.ClaimsRight[l] = p.ClaimsRight[l], p.ClaimsLeft[l]
		return fmt.Sprintf("swap of the claims of layer %d", l)
	case 8:
		m := gen.IntU(t, 0, len(p.SumcheckProofs)-1, "mlayer2")
		p.SumcheckProofs[l], p.SumcheckProofs[m] = p.SumcheckProofs[m], p.SumcheckProofs[l]
		p.ClaimsLeft[l], p.ClaimsLeft[m] = p.ClaimsLeft[m], p.ClaimsLeft[l]
		p.ClaimsRight[l], p.ClaimsRight[m] = p.ClaimsRight[m], p.ClaimsRight[l]
		return fmt.Sprintf("swap of the layers %d and %d", l, m)
	default: // the linear combination of the claims at the next layer does not change
		lambda := ref.Mimc([]fr.Element{p.ClaimsLeft[l], p.ClaimsRight[l]})
		p.ClaimsLeft[l] = ref.Add(p.ClaimsLeft[l], ref.Mul(lambda, d))
		p.ClaimsRight[l] = ref.Sub(p.ClaimsRight[l], d)
		return fmt.Sprintf("claims of layer %d with the same combination", l)
	}
}
