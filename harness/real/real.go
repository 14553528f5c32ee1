// Package real builds objects of the code under test from the specifications.
package real

import (
	"fmt"

	"gkr-mimc/circuit"
	"verif/ref"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"
)

// Custom is a gate given by a specification. Only the interface of the gates
// is shared with the code under test.
type Custom struct {
	Spec ref.Gate
}

// ID identifies the gate
func (c Custom) ID() string { return "custom-" + c.Spec.Key() }

// Eval applies the gate
func (c Custom) Eval(res, vL, vR *fr.Element) { *res = c.Spec.Eval(*vL, *vR) }

// EvalManyVL applies the gate
func (c Custom) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	for i := range vLs {
		res[i] = c.Spec.Eval(vLs[i], *vR)
	}
}

// EvalManyVR applies the gate
func (c Custom) EvalManyVR(res []fr.Element, vL *fr.Element, vRs []fr.Element) {
	for i := range vRs {
		res[i] = c.Spec.Eval(*vL, vRs[i])
	}
}

// Degrees of the gate
func (c Custom) Degrees() (int, int, int) { return c.Spec.Degrees() }

// GnarkEval applies the gate in a constraint system
func (c Custom) GnarkEval(cs *frontend.ConstraintSystem, vL, vR frontend.Variable) frontend.Variable {
	a := cs.Constant(c.Spec.A)
	switch c.Spec.Kind {
	case ref.KLin:
		return cs.Add(cs.Sub(vL, cs.Mul(2, vR)), a)
	case ref.KMulAdd:
		return cs.Add(cs.Mul(vL, vR), vL, a)
	case ref.KRight:
		return cs.Mul(vR, 1)
	case ref.KConst:
		return a
	}
	panic("not used")
}

// Gate builds a gate
func Gate(g ref.Gate) circuit.Gate {
	switch g.Kind {
	case ref.KAdd:
		return circuit.AddGate{}
	case ref.KMul:
		return circuit.MulGate{}
	case ref.KCopy:
		return circuit.CopyGate{}
	case ref.KCipher:
		return circuit.NewCipherGate(g.A)
	}
	return Custom{Spec: g}
}

// Wires builds the wires of a layer, with a new gate for each wire, so that
// only the IDs tell which ones are the same
func Wires(l ref.Layer) []circuit.Wire {
	var r []circuit.Wire
	for _, w := range l.Wires {
		r = append(r, circuit.Wire{L: w.L, R: w.R, O: w.O, Gate: Gate(l.Gates[w.G])})
	}
	return r
}

// Circuit builds a circuit
func Circuit(c ref.Circuit) circuit.Circuit {
	w := make([][]circuit.Wire, len(c.Layers))
	for i := range w {
		w[i] = Wires(c.Layers[i])
	}
	return circuit.NewCircuit(w)
}

// Wrap builds a circuit whose gates are wrapped
func Wrap(c ref.Circuit, f func(circuit.Gate) circuit.Gate) circuit.Circuit {
	w := make([][]circuit.Wire, len(c.Layers))
	for i := range w {
		w[i] = Wires(c.Layers[i])
		for k := range w[i] {
			w[i][k].Gate = f(w[i][k].Gate)
		}
	}
	return circuit.NewCircuit(w)
}

// SpecOf recognises a gate of the code under test by its type
func SpecOf(g circuit.Gate) (ref.Gate, error) {
	switch x := g.(type) {
	case circuit.AddGate, *circuit.AddGate:
		return ref.Gate{Kind: ref.KAdd}, nil
	case circuit.MulGate, *circuit.MulGate:
		return ref.Gate{Kind: ref.KMul}, nil
	case circuit.CopyGate, *circuit.CopyGate:
		return ref.Gate{Kind: ref.KCopy}, nil
	case *circuit.CipherGate:
		return ref.Gate{Kind: ref.KCipher, A: x.Ark}, nil
	case Custom:
		return x.Spec, nil
	}
	return ref.Gate{}, fmt.Errorf("unknown gate %T", g)
}
