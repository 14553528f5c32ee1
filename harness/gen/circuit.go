package gen

import (
	"fmt"

	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// CircuitOpts bounds the generated circuits
type CircuitOpts struct {
	MaxLayers int
	MaxBG     int // maximum log-size of a layer
	// Kinds of gates (default: all)
	Kinds []int
	// MinInBG is the minimum log-size of the inputs
	MinInBG int
	// Layers, if not 0, is the exact number of layers
	Layers int
	// MaxTable is the maximum log-size of the wiring tables times the outputs (default: 8)
	MaxTable int
	// MinGates and MaxGates, if not 0, are the minimum and maximum number of gates of a layer
	MinGates, MaxGates int
}

// NativeKinds are the gates of the library
var NativeKinds = []int{ref.KAdd, ref.KMul, ref.KCopy, ref.KCipher}

// AffineKinds are affine in their left input
var AffineKinds = []int{ref.KCopy, ref.KAdd, ref.KMul, ref.KCipher, ref.KLin, ref.KMulAdd, ref.KRight, ref.KConst}

// AllKinds are all the kinds of gates
var AllKinds = []int{ref.KCopy, ref.KAdd, ref.KMul, ref.KCipher, ref.KLin, ref.KMulAdd, ref.KRight, ref.KConst, ref.KPow}

// GateOf draws a gate
func GateOf(t *rapid.T, kinds []int, near *fr.Element, label string) ref.Gate {
	g := ref.Gate{Kind: kinds[IntU(t, 0, len(kinds)-1, label+".gate")]}
	switch g.Kind {
	case ref.KCipher, ref.KLin, ref.KMulAdd, ref.KConst:
		g.A = NearFr(t, near, label+".ark")
	case ref.KPow:
		// The sum of the degrees is bounded by the interpolation domain
		g.P = UpTo(t, 0, 4, 10, label+".p")
		g.Q = min(UpTo(t, 0, 6, 10, label+".q"), 10-g.P)
		g.A = NearFr(t, near, label+".ark")
	}
	return g
}

// NearFr draws an element, or a close but different variation of a previous one:
// identifiers, caches and comparisons that only look at a part of a value
// confuse the two
func NearFr(t *rapid.T, near *fr.Element, label string) fr.Element {
	if near == nil {
		return Fr(t, label)
	}
	x := *near
	switch IntU(t, 0, 7, label+".near") {
	case 0:
		return x
	case 1: // next one
		return ref.Add(x, U(1))
	case 2:
		return Neg(x)
	case 3: // another limb
		i := IntU(t, 0, 2, label+".limb")
		x[i] ^= 1 << IntU(t, 0, 63, label+".bit")
		if i == 3 || x[3] >= qTop {
			return *near
		}
		return x
	case 4: // same low 64 bits
		return ref.Add(x, Pow2(64))
	case 5: // same leading digits
		return ref.Add(x, U(rapid.Uint64Range(1, 1000).Draw(t, label+".add")))
	}
	return Fr(t, label)
}

// Pow2 returns 2^n
func Pow2(n int) fr.Element {
	x := U(1)
	for i := 0; i < n; i++ {
		x = ref.Add(x, x)
	}
	return x
}

// LayerOf draws a layer with exactly the given log-sizes
func LayerOf(t *rapid.T, bgIn, bgOut int, kinds []int, label string) ref.Layer {
	return LayerWith(t, bgIn, bgOut, UpTo(t, 1, 4, 36, label+".ngates"), kinds, label)
}

// LayerWith draws a layer with exactly the given log-sizes, and gates to draw
// the wires from
func LayerWith(t *rapid.T, bgIn, bgOut, nGates int, kinds []int, label string) ref.Layer {
	var l ref.Layer
	var near *fr.Element
	for i := 0; i < nGates; i++ {
		g := GateOf(t, kinds, near, fmt.Sprintf("%s.g%d", label, i))
		if !g.A.IsZero() {
			a := g.A
			near = &a
		}
		l.Gates = append(l.Gates, g)
	}
	nIn, nOut := 1<<bgIn, 1<<bgOut
	gate := func(s string) int { return IntU(t, 0, nGates-1, s) }
	in := func(s string) int { return IntU(t, 0, nIn-1, s) }
	nWires := UpTo(t, 1, nOut+3, nOut+40, label+".nwires")
	if nGates > 4 {
		nWires = max(nWires, nGates)
	}
	cover := IntU(t, 0, 2, label+".cover") > 0
	for k := 0; k < nWires; k++ {
		s := fmt.Sprintf("%s.w%d", label, k)
		if k > 0 && IntU(t, 0, 5, s+".dup") == 0 {
			w := l.Wires[IntU(t, 0, k-1, s+".of")]
			switch IntU(t, 0, 3, s+".dkind") {
			case 1:
				w.L, w.R = w.R, w.L
			case 2:
				w.G = gate(s + ".g")
			case 3:
				w.O = IntU(t, 0, nOut-1, s+".o")
			}
			l.Wires = append(l.Wires, w)
			continue
		}
		w := ref.Wire{L: in(s + ".l"), R: in(s + ".r"), G: gate(s + ".g")}
		if nGates > 4 && k < nGates {
			w.G = k // each gate is used
		}
		if cover {
			w.O = k % nOut
		} else {
			w.O = IntU(t, 0, nOut-1, s+".o")
		}
		l.Wires = append(l.Wires, w)
	}
	// The sizes are determined by the wires: some wire must reach the upper
	// halves
	if l.BGIn() < bgIn {
		k := IntU(t, 0, len(l.Wires)-1, label+".reachin")
		hi := IntU(t, nIn/2, nIn-1, label+".hi")
		if rapid.Bool().Draw(t, label+".left") {
			l.Wires[k].L = hi
		} else {
			l.Wires[k].R = hi
		}
	}
	if l.BGOut() < bgOut {
		k := IntU(t, 0, len(l.Wires)-1, label+".reachout")
		l.Wires[k].O = IntU(t, nOut/2, nOut-1, label+".ho")
	}
	return l
}

// CircuitOf draws a circuit
func CircuitOf(t *rapid.T, o CircuitOpts, label string) ref.Circuit {
	kinds := o.Kinds
	if kinds == nil {
		kinds = AllKinds
		if IntU(t, 0, 3, label+".native") > 0 {
			kinds = NativeKinds
		}
	}
	n := o.Layers
	if n == 0 {
		n = IntU(t, 1, o.MaxLayers, label+".layers")
	}
	bg := make([]int, n+1)
	for i := range bg {
		m := 0
		if i == 0 {
			m = o.MinInBG
		}
		bg[i] = IntU(t, m, o.MaxBG, fmt.Sprintf("%s.bg%d", label, i))
	}
	var c ref.Circuit
	for i := 0; i < n; i++ {
		// 2^(2 in + out) is the size of the wiring tables
		if 2*bg[i]+bg[i+1] > max(8, o.MaxTable) {
			bg[i+1] = 1
		}
		s := fmt.Sprintf("%s.L%d", label, i)
		if o.MaxGates > 0 {
			c.Layers = append(c.Layers, LayerWith(t, bg[i], bg[i+1], Size(t, o.MinGates, o.MaxGates, s+".ngates"), kinds, s))
			continue
		}
		c.Layers = append(c.Layers, LayerOf(t, bg[i], bg[i+1], kinds, s))
	}
	return c
}

// Batch draws the inputs of a circuit: a flat table, the log of the number of
// instances and the number of chunks
func Batch(t *rapid.T, bgIn, maxBN int, label string) (flat []fr.Element, bN, nChunks int) {
	bN = IntU(t, 0, maxBN, label+".bN")
	nChunks = 1 << IntU(t, 0, bN, label+".logchunks")
	flat = Vec(t, 1<<(bgIn+bN), label+".inputs")
	return
}

// Solvable makes sure that a simulated proof can be solved for the left claim
// of each layer: it needs a gate that depends on its left input
func Solvable(c ref.Circuit) ref.Circuit {
	for i := range c.Layers {
		l := &c.Layers[i]
		ok := false
		for _, w := range l.Wires {
			d, _, _ := l.Gates[w.G].Degrees()
			ok = ok || d == 1
		}
		if !ok {
			l.Gates[l.Wires[0].G] = ref.Gate{Kind: ref.KMul}
		}
	}
	return c
}
