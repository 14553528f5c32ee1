package snk

import (
	"fmt"

	"verif/gen"
	"verif/ref"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// Expr is an operand of a gadget: an input, an expression of the inputs, or a
// constant
type Expr struct {
	Kind, I, J int
	K          fr.Element
}

// DrawExprs draws n operands over nX inputs
func DrawExprs(t *rapid.T, n, nX int, label string) []Expr {
	r := make([]Expr, n)
	plain := gen.IntU(t, 0, 1, label+".plain") == 0
	for i := range r {
		l := fmt.Sprintf("%s.e%d", label, i)
		if plain {
			r[i] = Expr{I: i % nX}
			continue
		}
		r[i] = Expr{Kind: gen.IntU(t, 0, 6, l+".kind"), I: gen.IntU(t, 0, nX-1, l+".i"), J: gen.IntU(t, 0, nX-1, l+".j")}
		if r[i].Kind >= 3 {
			r[i].K = gen.Fr(t, l+".k")
		}
	}
	return r
}

// Var is the operand in a constraint system
func (e Expr) Var(cs *frontend.ConstraintSystem, x []frontend.Variable) frontend.Variable {
	switch e.Kind {
	case 1:
		return cs.Add(x[e.I], x[e.J])
	case 2:
		return cs.Sub(x[e.I], x[e.J])
	case 3:
		return cs.Constant(e.K)
	case 4:
		return cs.Add(cs.Mul(x[e.I], x[e.J]), cs.Constant(e.K))
	}
	return x[e.I]
}

// Val is the value of the operand
func (e Expr) Val(x []fr.Element) fr.Element {
	switch e.Kind {
	case 1:
		return ref.Add(x[e.I], x[e.J])
	case 2:
		return ref.Sub(x[e.I], x[e.J])
	case 3:
		return e.K
	case 4:
		return ref.Add(ref.Mul(x[e.I], x[e.J]), e.K)
	}
	return x[e.I]
}

func (e Expr) String() string {
	switch e.Kind {
	case 1:
		return fmt.Sprintf("x%d+x%d", e.I, e.J)
	case 2:
		return fmt.Sprintf("x%d-x%d", e.I, e.J)
	case 3:
		return gen.S(e.K)
	case 4:
		return fmt.Sprintf("x%d*x%d+%s", e.I, e.J, gen.S(e.K))
	}
	return fmt.Sprintf("x%d", e.I)
}

// Vars are the operands in a constraint system
func Vars(cs *frontend.ConstraintSystem, e []Expr, x []frontend.Variable) []frontend.Variable {
	r := make([]frontend.Variable, len(e))
	for i := range e {
		r[i] = e[i].Var(cs, x)
	}
	return r
}

// Vals are the values of the operands
func Vals(e []Expr, x []fr.Element) []fr.Element {
	r := make([]fr.Element, len(e))
	for i := range e {
		r[i] = e[i].Val(x)
	}
	return r
}
