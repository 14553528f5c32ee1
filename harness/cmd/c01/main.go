// C01: every honest proof is accepted
package main

import (
	"fmt"

	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"verif/cases"
	"verif/gen"
	"verif/ref"
	"verif/refgkr"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// check proves a case and verifies it in several ways
func check(t vt.T, c *cases.Case, again int, rechunkIn, rechunkOut int) {
	a := c.Circuit.Assign(c.Inputs(), c.NCore)
	out := a.Values[len(a.Values)-1]
	if !gen.Equal2(out, c.Outputs()) {
		t.Fatalf("the outputs of the assignment are not the evaluation of the circuit\n%v", c)
	}
	prover := gkr.NewProver(c.Circuit, a)
	verifier := gkr.NewVerifier(c.BN, c.Circuit)
	for i := 0; i <= again; i++ {
		proof := prover.Prove(c.PCore)
		if !verifier.Verify(proof, a.Values[0], out) {
			t.Fatalf("honest proof %d rejected (reference: %v)\n%v", i, refgkr.Verify(c.Spec, c.BN, proof, c.Flat, c.Out()), c)
		}
		if f := refgkr.Verify(c.Spec, c.BN, proof, c.Flat, c.Out()); f != nil {
			t.Fatalf("honest proof %d is not valid for the reference verifier: %v\n%v", i, f, c)
		}
		// The same tables split in another way
		fresh := gkr.NewVerifier(c.BN, c.Circuit)
		if !fresh.Verify(proof, gen.Chunk(c.Flat, rechunkIn), gen.Chunk(c.Out(), rechunkOut)) {
			t.Fatalf("honest proof %d rejected with inputs in %d chunks and outputs in %d\n%v", i, rechunkIn, rechunkOut, c)
		}
	}
}

func draw(t *rapid.T, c *vt.C, o gen.CircuitOpts, maxBN int) {
	cs := cases.Draw(t, o, maxBN)
	again := gen.IntU(t, 0, 1, "again")
	ri := 1 << gen.IntU(t, 0, cs.BN, "rechunkin")
	ro := 1 << gen.IntU(t, 0, cs.BN, "rechunkout")
	c.Case(t, cs.Nontrivial(), func() string { return cs.String() })
	label(c, cs)
	check(t, cs, again, ri, ro)
}

func label(c *vt.C, cs *cases.Case) {
	c.Label("bN=%d", cs.BN)
	c.Label("layers=%d", len(cs.Spec.Layers))
	c.LabelIf(cs.Chunks > 1, "several chunks")
	c.LabelIf(cs.Chunks == cs.N(), "one instance per chunk")
	c.LabelIf(cs.Chunks > cs.PCore, "more chunks than workers")
	c.LabelIf(cs.PCore > cs.Chunks, "more workers than chunks")
	c.LabelIf(cs.BGOut() == 0, "single output")
	c.LabelIf(cs.BGIn() == 0, "single input")
	for _, l := range cs.Spec.Layers {
		c.LabelIf(len(l.Distinct()) < len(l.Wires), "repeated gate")
	}
}

var mimcSpec = cases.Mimc()

func main() {
	var fixed []vt.Fixed
	for _, name := range cases.Names {
		for _, s := range [][3]int{{0, 1, 1}, {1, 1, 1}, {1, 2, 1}, {2, 2, 3}, {3, 8, 2}, {3, 1, 16}} {
			name, s := name, s
			fixed = append(fixed, vt.Fixed{Name: fmt.Sprintf("%s-bN%d-chunks%d-cores%d", name, s[0], s[1], s[2]), Run: func(t vt.T, c *vt.C) {
				check(t, cases.Make(cases.Named[name](), s[0], s[1], s[2], 7), 1, 1, s[1])
			}})
		}
	}
	vt.Main(vt.Check{
		Property: "C01",
		Scale:    3,
		Rule: "A case is a layered circuit (1 to 4 layers, up to 24 in the deep family; 1 to 8 values per layer, up to 32 in the wide family; library and custom gates, up to 36 different ones in a layer, 300 in the gates family; duplicate, overlapping and missing wires), a batch of 1 to 16 instances (up to 512 in the tall family, up to 16384 in the large family), its split in chunks and the worker counts. " +
			"It is non-trivial if there are several layers or several instances and the inputs are not all zero. Distinct cases differ by their full description.",
		Assumptions: []string{"the layers of a circuit match (outputs of one = inputs of the next), the number of chunks is a power of two dividing the batch, the number of workers is at least 1, degrees fit the interpolation domain"},
		Families: []vt.Family{
			{Name: "regression", Fixed: fixed},
			{Name: "random", Quick: 16000, Thorough: 120000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				draw(t, c, gen.CircuitOpts{MaxLayers: 4, MaxBG: 2}, 4)
			}},
			{Name: "wide", Quick: 1600, Thorough: 32000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				draw(t, c, gen.CircuitOpts{MaxLayers: 3, MaxBG: gen.UpTo(t, 3, 3, 5, "maxbg"), MinInBG: 2, MaxTable: 13}, 2)
			}},
			{Name: "tall", Quick: 400, Thorough: 8000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				draw(t, c, gen.CircuitOpts{MaxLayers: 2, MaxBG: 1}, gen.IntU(t, 5, 9, "maxbN"))
			}},
			{Name: "deep", Quick: 400, Thorough: 6000, Shards: 4, Prop: func(t *rapid.T, c *vt.C) {
				draw(t, c, gen.CircuitOpts{MaxLayers: 24, MaxBG: 1}, 2)
			}},
			{Name: "gates", Quick: 160, Thorough: 3000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				draw(t, c, gen.CircuitOpts{MaxLayers: 2, MaxBG: 1, MinGates: 30, MaxGates: 300}, 3)
			}},
			{Name: "mimc", Quick: 40, Thorough: 400, Shards: 4, MinPerShard: 2, Prop: func(t *rapid.T, c *vt.C) {
				cs := &cases.Case{Spec: mimcSpec}
				cs.Flat, cs.BN, cs.Chunks = gen.Batch(t, 1, 4, "b")
				cs.NCore, cs.PCore = gen.NCore(t, "ncore"), gen.NCore(t, "pcore")
				c.Case(t, !gen.IsZero(cs.Flat), func() string {
					return fmt.Sprintf("mimc bN=%d chunks=%d cores=%d inputs=%v", cs.BN, cs.Chunks, cs.PCore, gen.Show(cs.Flat))
				})
				cs.Layers = cs.Spec.Eval(cs.Flat, cs.N())
				cs.Circuit = examples.CreateMimcCircuit()
				check(t, cs, 0, 1, cs.Chunks)
			}},
			{Name: "huge", Quick: 48, Thorough: 800, Shards: 8, MinPerShard: 1, Prop: func(t *rapid.T, c *vt.C) {
				cs := cases.Huge(t, 17)
				c.Case(t, true, cs.String)
				check(t, cs, 0, cs.Chunks, 1<<gen.IntU(t, 0, cs.BN, "rechunkout"))
			}},
			{Name: "large", Quick: 24, Thorough: 200, Shards: 8, MinPerShard: 2, Prop: func(t *rapid.T, c *vt.C) {
				// Batches large enough for the tables to be processed in parallel
				cs := &cases.Case{Spec: gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 2, MaxBG: 1, Kinds: gen.NativeKinds}, "c")}
				cs.BN = gen.IntU(t, 9, 14-cs.BGIn(), "bN")
				cs.Chunks = 1 << gen.IntU(t, 0, 3, "logchunks")
				cs.NCore, cs.PCore = gen.NCore(t, "ncore"), gen.NCore(t, "pcore")
				cs.Flat = gen.RandVec(t, 1<<(cs.BN+cs.BGIn()), "inputs")
				c.Case(t, true, func() string { return cs.String() })
				cs.Finish()
				label(c, cs)
				check(t, cs, 0, cs.Chunks, 1<<gen.IntU(t, 0, 4, "rechunkout"))
			}},
		},
	})
}

var _ = ref.U
var _ fr.Element
