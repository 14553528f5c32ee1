// Package cases generates complete GKR cases.
package cases

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"verif/gen"
	"verif/real"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// Case is a circuit with a batch of inputs
type Case struct {
	Spec    ref.Circuit
	BN      int
	Chunks  int
	Flat    []fr.Element   // inputs, unsplit
	Layers  [][]fr.Element // values of all the layers, unsplit, by the reference model
	NCore   int            // for the assignment
	PCore   int            // for the prover
	Circuit circuit.Circuit
}

// N is the number of instances
func (c *Case) N() int { return 1 << c.BN }

// Inputs returns new chunks of the inputs
func (c *Case) Inputs() [][]fr.Element { return gen.Chunk(c.Flat, c.Chunks) }

// Outputs returns new chunks of the outputs computed by the reference model
func (c *Case) Outputs() [][]fr.Element { return gen.Chunk(c.Out(), c.Chunks) }

// Out returns the outputs computed by the reference model, unsplit
func (c *Case) Out() []fr.Element { return c.Layers[len(c.Layers)-1] }

// BGIn is the log-size of the inputs of an instance
func (c *Case) BGIn() int { return c.Spec.Layers[0].BGIn() }

// BGOut is the log-size of the outputs of an instance
func (c *Case) BGOut() int { return c.Spec.Layers[len(c.Spec.Layers)-1].BGOut() }

// String describes the case
func (c *Case) String() string {
	return fmt.Sprintf("bN=%d chunks=%d cores=%d/%d circuit=%v inputs=%v", c.BN, c.Chunks, c.NCore, c.PCore, c.Spec, gen.Show(c.Flat))
}

// Nontrivial tells whether the case has several layers or instances, and
// inputs that are not all equal to zero
func (c *Case) Nontrivial() bool {
	return (len(c.Spec.Layers) > 1 || c.BN > 0) && !gen.IsZero(c.Flat)
}

// Prove assigns the circuit and proves the assignment
func (c *Case) Prove() (circuit.Assignment, gkr.Proof) {
	a := c.Circuit.Assign(c.Inputs(), c.NCore)
	p := gkr.NewProver(c.Circuit, a)
	return a, p.Prove(c.PCore)
}

// Draw draws a case
func Draw(t *rapid.T, o gen.CircuitOpts, maxBN int) *Case {
	c := &Case{Spec: gen.CircuitOf(t, o, "c")}
	c.Flat, c.BN, c.Chunks = gen.Batch(t, c.BGIn(), maxBN, "b")
	c.NCore = gen.NCore(t, "ncore")
	c.PCore = gen.NCore(t, "pcore")
	c.Finish()
	return c
}

// Finish computes the values and builds the circuit
func (c *Case) Finish() {
	c.Layers = c.Spec.Eval(c.Flat, c.N())
	c.Circuit = real.Circuit(c.Spec)
}

// Make builds a fixed case, with pseudo random inputs
func Make(spec ref.Circuit, bN, chunks, cores int, seed uint64) *Case {
	c := &Case{Spec: spec, BN: bN, Chunks: chunks, NCore: cores, PCore: cores}
	s := gen.SplitMix(seed)
	c.Flat = make([]fr.Element, 1<<(bN+c.BGIn()))
	for i := range c.Flat {
		c.Flat[i] = s.Fr()
	}
	c.Finish()
	return c
}

// Mimc is the specification of the MiMC circuit
func Mimc() ref.Circuit {
	var c ref.Circuit
	for i := 0; i < ref.MimcRounds; i++ {
		l := ref.Layer{
			Gates: []ref.Gate{{Kind: ref.KCipher, A: ref.Arks[i]}, {Kind: ref.KCopy}},
			Wires: []ref.Wire{{L: 1, R: 0, O: 0, G: 0}},
		}
		if i < ref.MimcRounds-1 {
			l.Wires = append(l.Wires, ref.Wire{L: 1, R: 0, O: 1, G: 1})
		}
		c.Layers = append(c.Layers, l)
	}
	return c
}

// Simple circuits, used by the regression cases
var (
	add  = ref.Gate{Kind: ref.KAdd}
	mul  = ref.Gate{Kind: ref.KMul}
	cpy  = ref.Gate{Kind: ref.KCopy}
	ciph = ref.Gate{Kind: ref.KCipher, A: ref.U(5)}
)

// AddMul is a 2-layer circuit of width 2
func AddMul() ref.Circuit {
	l := ref.Layer{Gates: []ref.Gate{add, mul}, Wires: []ref.Wire{{L: 0, R: 1, O: 0, G: 0}, {L: 0, R: 1, O: 1, G: 1}}}
	return ref.Circuit{Layers: []ref.Layer{l, l}}
}

// Wide is a 2-layer circuit of widths 4, 4, 2
func Wide() ref.Circuit {
	return ref.Circuit{Layers: []ref.Layer{
		{Gates: []ref.Gate{add, mul, cpy, ciph}, Wires: []ref.Wire{
			{L: 0, R: 3, O: 0, G: 0}, {L: 1, R: 2, O: 1, G: 1}, {L: 3, R: 1, O: 2, G: 2}, {L: 2, R: 0, O: 3, G: 3}, {L: 2, R: 2, O: 1, G: 1}}},
		{Gates: []ref.Gate{add, ciph}, Wires: []ref.Wire{
			{L: 3, R: 1, O: 0, G: 1}, {L: 2, R: 0, O: 1, G: 0}, {L: 1, R: 3, O: 1, G: 0}}},
	}}
}

// Repeated is a circuit whose layers use the same gate in several wires
func Repeated() ref.Circuit {
	return ref.Circuit{Layers: []ref.Layer{
		{Gates: []ref.Gate{mul, mul}, Wires: []ref.Wire{{L: 0, R: 1, O: 0, G: 0}, {L: 1, R: 1, O: 1, G: 1}}},
		{Gates: []ref.Gate{add}, Wires: []ref.Wire{{L: 0, R: 1, O: 0, G: 0}, {L: 0, R: 1, O: 1, G: 0}, {L: 1, R: 1, O: 1, G: 0}}},
	}}
}

// Single is a circuit with one layer and one input
func Single() ref.Circuit {
	return ref.Circuit{Layers: []ref.Layer{{Gates: []ref.Gate{mul}, Wires: []ref.Wire{{L: 0, R: 0, O: 0, G: 0}}}}}
}

// Four is a circuit with one layer with 4 outputs
func Four() ref.Circuit {
	return ref.Circuit{Layers: []ref.Layer{{Gates: []ref.Gate{add, mul}, Wires: []ref.Wire{
		{L: 0, R: 1, O: 0, G: 0}, {L: 0, R: 1, O: 1, G: 1}, {L: 1, R: 1, O: 2, G: 0}, {L: 0, R: 0, O: 3, G: 1}}}}}
}

// Named are the circuits of the regression cases
var Named = map[string]func() ref.Circuit{
	"addmul": AddMul, "wide": Wide, "repeated": Repeated, "single": Single, "four": Four,
}

// Names lists them in a fixed order
var Names = []string{"addmul", "wide", "repeated", "single", "four"}

// Huge draws a case with more than 2^16 instances, in any chunks
func Huge(t *rapid.T, maxBN int) *Case {
	c := &Case{Spec: gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 1, MaxBG: 1, Kinds: gen.NativeKinds}, "c")}
	c.BN = gen.IntU(t, 16, maxBN, "bN")
	c.Chunks = 1 << gen.UpTo(t, 0, 6, c.BN, "logchunks")
	c.NCore, c.PCore = gen.NCore(t, "ncore"), gen.NCore(t, "pcore")
	c.Flat = gen.RandVec(t, 1<<(c.BN+c.BGIn()), "inputs")
	if n := c.N(); rapid.Bool().Draw(t, "periodic") {
		p := 1 << gen.UpTo(t, c.BN-1, c.BN-1, c.BN, "period")
		if gen.IntU(t, 0, 2, "constant") == 0 {
			p = 1
		}
		for i := range c.Flat {
			c.Flat[i] = c.Flat[i/n*n+i%n%p]
		}
	}
	c.Finish()
	return c
}
