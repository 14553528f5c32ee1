// C05: the assignment of a circuit is its evaluation, gate by gate
package main

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	"verif/cases"
	"verif/gen"
	"verif/real"
	"verif/ref"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

func gatesOf(t vt.T, gates []circuit.Gate) map[string]int {
	r := map[string]int{}
	for _, g := range gates {
		s, err := real.SpecOf(g)
		if err != nil {
			t.Fatalf("%v", err)
		}
		r[s.Key()]++
	}
	return r
}

// fields checks the fields of a layer
func fields(t vt.T, l ref.Layer, bgIn, bgOut int, gates []circuit.Gate, what string) {
	if bgIn != l.BGIn() || bgOut != l.BGOut() {
		t.Fatalf("%s: sizes 2^%d -> 2^%d, expected 2^%d -> 2^%d\n%v", what, bgIn, bgOut, l.BGIn(), l.BGOut(), l)
	}
	got := gatesOf(t, gates)
	for _, g := range l.Distinct() {
		if got[g.Key()] != 1 {
			t.Fatalf("%s: gate %v is %d times in the gates of the layer\n%v", what, g, got[g.Key()], l)
		}
	}
	if len(gates) != len(l.Distinct()) {
		t.Fatalf("%s: %d gates, expected %d\n%v", what, len(gates), len(l.Distinct()), l)
	}
}

func tables(bkts []polynomial.BookKeepingTable) [][]fr.Element {
	r := make([][]fr.Element, len(bkts))
	for i := range bkts {
		r[i] = bkts[i].Table
	}
	return r
}

func check(t vt.T, cs *cases.Case) {
	for k, l := range cs.Spec.Layers {
		cl := cs.Circuit.Layers[k]
		fields(t, l, cl.BGInputs, cl.BGOutputs, cl.Gates, fmt.Sprintf("layer %d", k))
	}
	in := cs.Inputs()
	a := cs.Circuit.Assign(in, cs.NCore)
	if !gen.Equal2(in, cs.Inputs()) {
		t.Fatalf("the inputs are modified by the assignment\n%v", cs)
	}
	if len(a.Values) != len(cs.Spec.Layers)+1 {
		t.Fatalf("%d layers of values for %d layers\n%v", len(a.Values), len(cs.Spec.Layers), cs)
	}
	for k := range a.Values {
		want := gen.Chunk(cs.Layers[k], cs.Chunks)
		if !gen.Equal2(a.Values[k], want) {
			t.Fatalf("wrong values for layer %d: %v instead of %v\n%v", k, show(a.Values[k]), show(want), cs)
		}
		for _, nCore := range []int{1, cs.PCore} {
			if got := tables(a.LayerAsBKTWithCopy(k, nCore)); !gen.Equal2(got, want) {
				t.Fatalf("LayerAsBKTWithCopy(%d, %d) is %v instead of %v\n%v", k, nCore, show(got), show(want), cs)
			}
		}
		if got := tables(a.LayerAsBKTNoCopy(k)); !gen.Equal2(got, want) {
			t.Fatalf("LayerAsBKTNoCopy(%d) is %v instead of %v\n%v", k, show(got), show(want), cs)
		}
		if k > 0 {
			x := gen.Chunk(cs.Layers[k-1], cs.Chunks)
			got := cs.Circuit.Layers[k-1].Evaluate(x, cs.PCore)
			if !gen.Equal2(got, want) {
				t.Fatalf("Evaluate of layer %d gives %v instead of %v\n%v", k-1, show(got), show(want), cs)
			}
			if !gen.Equal2(x, gen.Chunk(cs.Layers[k-1], cs.Chunks)) {
				t.Fatalf("Evaluate of layer %d modifies its inputs\n%v", k-1, cs)
			}
		}
	}
}

func show(x [][]fr.Element) string {
	s := ""
	for _, c := range x {
		s += gen.Show(c)
	}
	return s
}

func label(c *vt.C, cs *cases.Case) {
	c.LabelIf(cs.Chunks > 1, "several chunks")
	c.LabelIf(cs.NCore < cs.Chunks, "fewer workers than chunks")
	for _, l := range cs.Spec.Layers {
		o := map[int]int{}
		for _, w := range l.Wires {
			o[w.O]++
		}
		multi := false
		for _, n := range o {
			multi = multi || n > 1
		}
		c.LabelIf(multi, "several wires with the same output")
		c.LabelIf(len(o) < 1<<l.BGOut(), "output without wire")
		c.LabelIf(len(l.Distinct()) < len(l.Wires), "gate used several times")
	}
}

func draw(t *rapid.T, c *vt.C, o gen.CircuitOpts, maxBN int) {
	cs := cases.Draw(t, o, maxBN)
	c.Case(t, cs.Nontrivial() || len(cs.Spec.Layers[0].Wires) > 1, func() string { return cs.String() })
	label(c, cs)
	check(t, cs)
}

// wires checks the fields computed from a list of wires with any indices
func wires(t *rapid.T, c *vt.C) {
	n := gen.IntU(t, 1, 12, "n")
	max := 1 << gen.IntU(t, 0, 40, "max")
	var l ref.Layer
	var near *fr.Element
	for i := 0; i < gen.IntU(t, 1, 6, "ngates"); i++ {
		g := gen.GateOf(t, gen.AllKinds, near, fmt.Sprintf("g%d", i))
		if !g.A.IsZero() {
			a := g.A
			near = &a
		}
		l.Gates = append(l.Gates, g)
	}
	idx := func(label string) int {
		x := gen.IntU(t, 0, max-1, label)
		switch gen.IntU(t, 0, 3, label+".round") {
		case 0: // powers of two and their neighbours
			k := 1
			for k <= x {
				k *= 2
			}
			return k/2 - gen.IntU(t, 0, 1, label+".less")*(k/4)
		case 1:
			return int(gen.Int(t, uint64(max), label+".dict"))
		}
		return x
	}
	for i := 0; i < n; i++ {
		l.Wires = append(l.Wires, ref.Wire{
			L: idx(fmt.Sprintf("l%d", i)), R: idx(fmt.Sprintf("r%d", i)), O: idx(fmt.Sprintf("o%d", i)),
			G: gen.IntU(t, 0, len(l.Gates)-1, fmt.Sprintf("g.%d", i)),
		})
	}
	c.Case(t, n > 1, func() string { return "wires " + l.String() })
	w := real.Wires(l)
	fields(t, l, circuit.BGInputs(w), circuit.BGOutputs(w), circuit.Gates(w), "functions of the wires")
	cl := circuit.NewLayer(w)
	fields(t, l, cl.BGInputs, cl.BGOutputs, cl.Gates, "NewLayer")
	if len(cl.Wires) != len(w) {
		t.Fatalf("NewLayer: %d wires instead of %d", len(cl.Wires), len(w))
	}
}

func main() {
	var fixed []vt.Fixed
	for _, name := range cases.Names {
		for _, s := range [][3]int{{0, 1, 1}, {1, 2, 1}, {2, 2, 3}, {3, 8, 2}, {3, 1, 16}} {
			name, s := name, s
			fixed = append(fixed, vt.Fixed{Name: fmt.Sprintf("%s-bN%d-chunks%d-cores%d", name, s[0], s[1], s[2]), Run: func(t vt.T, c *vt.C) {
				check(t, cases.Make(cases.Named[name](), s[0], s[1], s[2], 7))
			}})
		}
	}
	// All the wires between two layers of 1, 2 or 4 values
	fixed = append(fixed, vt.Fixed{Name: "all-wires", Run: func(t vt.T, c *vt.C) {
		for bi := 0; bi <= 2; bi++ {
			for l := 0; l < 1<<bi; l++ {
				for r := 0; r < 1<<bi; r++ {
					for o := 0; o < 8; o++ {
						for k := 0; k < ref.NKinds; k++ {
							spec := ref.Circuit{Layers: []ref.Layer{{
								Gates: []ref.Gate{{Kind: k, A: ref.U(9), P: 1, Q: 2}},
								Wires: []ref.Wire{{L: l, R: r, O: o}, {L: 1<<bi - 1, R: 0, O: 0}},
							}}}
							check(t, cases.Make(spec, 2, 2, 2, uint64(k)))
							c.Label("wire")
						}
					}
				}
			}
		}
	}})
	vt.Main(vt.Check{
		Property: "C05",
		Scale:    5,
		Rule: "A case is a circuit (library and custom gates, duplicate, overlapping and missing wires), a batch, its chunks and worker counts; all the values of all the layers are compared with the evaluation of each instance by an independent interpreter. " +
			"It is non-trivial if there are several layers, instances or wires. The family race runs with the race detector. Cases of the family wires are lists of wires with indices up to 2^40 for the sizes and the list of gates.",
		Assumptions: []string{"the layers of a circuit match and the instances are split in equal chunks"},
		Families: []vt.Family{
			{Name: "regression", Fixed: fixed},
			{Name: "random", Quick: 80000, Thorough: 1500000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				draw(t, c, gen.CircuitOpts{MaxLayers: 5, MaxBG: gen.UpTo(t, 3, 3, 6, "maxbg"), MaxTable: 14}, 5)
			}},
			{Name: "deep", Quick: 6000, Thorough: 30000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				draw(t, c, gen.CircuitOpts{MaxLayers: gen.UpTo(t, 40, 40, 150, "maxlayers"), MaxBG: 2}, 3)
			}},
			{Name: "gates", Quick: 800, Thorough: 10000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				draw(t, c, gen.CircuitOpts{MaxLayers: 3, MaxBG: 2, MinGates: 30, MaxGates: 300}, 3)
			}},
			{Name: "race", Quick: 1600, Thorough: 30000, Shards: 8, Race: true, Prop: func(t *rapid.T, c *vt.C) {
				draw(t, c, gen.CircuitOpts{MaxLayers: 3, MaxBG: 3}, gen.UpTo(t, 4, 4, 9, "maxbN"))
			}},
			{Name: "huge", Quick: 48, Thorough: 800, Shards: 8, MinPerShard: 1, Prop: func(t *rapid.T, c *vt.C) {
				cs := cases.Huge(t, 17)
				c.Case(t, true, cs.String)
				check(t, cs)
			}},
			{Name: "large", Quick: 400, Thorough: 2000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				cs := &cases.Case{Spec: gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 2, MaxBG: 2, Kinds: gen.NativeKinds}, "c")}
				cs.BN = gen.IntU(t, 8, 13, "bN")
				cs.Chunks = 1 << gen.IntU(t, 0, cs.BN, "logchunks")
				cs.NCore, cs.PCore = gen.NCore(t, "ncore"), gen.NCore(t, "pcore")
				cs.Flat = gen.RandVec(t, 1<<(cs.BN+cs.BGIn()), "inputs")
				c.Case(t, true, func() string { return cs.String() })
				cs.Finish()
				label(c, cs)
				check(t, cs)
			}},
			{Name: "wires", Quick: 24000, Thorough: 400000, Shards: 8, Prop: wires},
		},
	})
}
