// C16: the prover's sumcheck instances encode the relation between layers
package main

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"
	"verif/cases"
	"verif/gen"
	"verif/real"
	"verif/ref"
	"verif/refgkr"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// keys recognises the gates of a layer, in its order
func keys(t vt.T, l circuit.Layer) []string {
	var r []string
	for _, g := range l.Gates {
		s, err := real.SpecOf(g)
		if err != nil {
			t.Fatalf("%v", err)
		}
		r = append(r, s.Key())
	}
	return r
}

func bits(n, b int) []fr.Element {
	r := make([]fr.Element, n)
	for i := range r {
		r[i] = ref.U(uint64(b >> (n - 1 - i) & 1))
	}
	return r
}

func concat(a, b []fr.Element) []fr.Element { return append(gen.Clone(a), b...) }

// statics checks the wiring tables of a layer at a point
func statics(t *rapid.T, c *vt.C) {
	bgIn, bgOut := gen.IntU(t, 0, 3, "bgin"), gen.IntU(t, 0, 3, "bgout")
	spec := gen.LayerOf(t, bgIn, bgOut, gen.AllKinds, "l")
	q1, q2 := gen.Point(t, bgOut, "q1"), gen.Point(t, bgOut, "q2")
	hL, hR := gen.Point(t, bgIn, "hL"), gen.Point(t, bgIn, "hR")
	c.Case(t, bgIn+bgOut > 0, func() string {
		return fmt.Sprintf("%v at %v then %v", spec, gen.Show(q1), gen.Show(q2))
	})
	c.Label("%d gates", len(spec.Distinct()))
	layer := circuit.NewLayer(real.Wires(spec))
	ks := keys(t, layer)
	// The same layer is used at two points, then at the first one again: nothing is kept
	for round, q := range [][]fr.Element{q1, q2, q1} {
		saved := gen.Clone(q)
		tabs := layer.GetStaticTable(q)
		if len(tabs) != len(ks) || len(ks) != len(spec.Distinct()) {
			t.Fatalf("%d wiring tables and %d gates, expected %d", len(tabs), len(ks), len(spec.Distinct()))
		}
		for g := range tabs {
			if len(tabs[g].Table) != 1<<(2*bgIn) {
				t.Fatalf("wiring table %d has %d entries, expected %d", g, len(tabs[g].Table), 1<<(2*bgIn))
			}
			for h, v := range tabs[g].Table {
				want := spec.Wiring(ks[g], q, bits(bgIn, h>>bgIn), bits(bgIn, h&(1<<bgIn-1)))
				if v != want {
					t.Fatalf("call %d: the wiring table of gate %s at %v is %v for left %d, right %d, expected %v\n%v",
						round, ks[g], gen.Show(q), gen.S(v), h>>bgIn, h&(1<<bgIn-1), gen.S(want), spec)
				}
			}
			if got, want := tabs[g].Evaluate(concat(hL, hR)), spec.Wiring(ks[g], q, hL, hR); got != want {
				t.Fatalf("call %d: the extension of the wiring of gate %s at %v, %v, %v is %v, expected %v\n%v",
					round, ks[g], gen.Show(q), gen.Show(hL), gen.Show(hR), gen.S(got), gen.S(want), spec)
			}
			// The tables belong to the caller, who folds them
			for i := range tabs[g].Table {
				tabs[g].Table[i] = ref.U(uint64(i + 5))
			}
		}
		if !gen.Equal(q, saved) {
			t.Fatalf("the point is modified")
		}
	}
}

// instance checks the claim of a prover and, once it is run, its final claims
func instance(t vt.T, k *cases.Case, layer int, p sumcheck.MultiThreadedProver, qPrime []fr.Element, points [][]fr.Element, coeffs []fr.Element) {
	var claim fr.Element
	for i, q := range points {
		claim = ref.Add(claim, ref.Mul(coeffs[i], ref.MLE(k.Layers[layer+1], concat(q, qPrime))))
	}
	if got := p.GetClaim(k.PCore); got != claim {
		t.Fatalf("the instance of layer %d claims %v, the combination of the extension of the next layer's values is %v", layer, gen.S(got), gen.S(claim))
	}
	proof, hP, hL, hR, finals := p.Prove(k.NCore)
	bad, ch, last := refgkr.Rounds(claim, proof.PolyCoeffs)
	spec := k.Spec.Layers[layer]
	bg := spec.BGIn()
	if len(bad) > 0 || len(ch) != k.BN+2*bg {
		t.Fatalf("the sumcheck of layer %d has %d rounds, the inconsistent ones are %v", layer, len(ch), bad)
	}
	if !gen.Equal(hL, ch[:bg]) || !gen.Equal(hR, ch[bg:2*bg]) || !gen.Equal(hP, ch[2*bg:]) {
		t.Fatalf("the challenges of layer %d are not in the right order", layer)
	}
	ks := keys(t, k.Circuit.Layers[layer])
	want := []fr.Element{ref.MLE(k.Layers[layer], concat(hL, hP)), ref.MLE(k.Layers[layer], concat(hR, hP)), ref.Eq(qPrime, hP)}
	var sum fr.Element
	for _, key := range ks {
		var w fr.Element
		for i, q := range points {
			w = ref.Add(w, ref.Mul(coeffs[i], spec.Wiring(key, q, hL, hR)))
		}
		want = append(want, w)
	}
	if !gen.Equal(finals, want) {
		t.Fatalf("the final claims of layer %d are %v, expected %v", layer, gen.Show(finals), gen.Show(want))
	}
	for i, q := range points {
		sum = ref.Add(sum, ref.Mul(coeffs[i], spec.WiredSum(q, hL, hR, want[0], want[1])))
	}
	if ref.Mul(sum, want[2]) != last {
		t.Fatalf("the last claim of layer %d is not the value of its relation", layer)
	}
}

func provers(t *rapid.T, c *vt.C, o gen.CircuitOpts, maxBN int) {
	k := cases.Draw(t, o, maxBN)
	n := len(k.Spec.Layers)
	layer := gen.IntU(t, 0, n-1, "layer")
	initial := gen.IntU(t, 0, 2, "initial") == 0
	if initial {
		layer = n - 1
	}
	bg := k.Spec.Layers[layer].BGOut()
	qPrime, qL, qR := gen.Point(t, k.BN, "qPrime"), gen.Point(t, bg, "qL"), gen.Point(t, bg, "qR")
	if gen.IntU(t, 0, 4, "same") == 0 {
		qR = gen.Clone(qL)
	}
	lL, lR := gen.Fr(t, "lambdaL"), gen.Fr(t, "lambdaR")
	c.Case(t, k.Nontrivial(), func() string {
		return fmt.Sprintf("layer %d initial=%v qPrime=%v qL=%v qR=%v lambda=%v, %v of %v", layer, initial, gen.Show(qPrime), gen.Show(qL), gen.Show(qR), gen.S(lL), gen.S(lR), k)
	})
	c.LabelIf(initial, "initial round")
	a := k.Circuit.Assign(k.Inputs(), k.NCore)
	p := gkr.NewProver(k.Circuit, a)
	pts := gen.Clone2([][]fr.Element{qPrime, qL, qR})
	if initial {
		instance(t, k, layer, p.InitialRoundSumcheckProver(qPrime, qL, k.PCore), qPrime, [][]fr.Element{qL}, []fr.Element{ref.One()})
	} else {
		instance(t, k, layer, p.IntermediateRoundsSumcheckProver(layer, qPrime, qL, qR, lL, lR, k.PCore), qPrime, [][]fr.Element{qL, qR}, []fr.Element{lL, lR})
	}
	if !gen.Equal2(pts, [][]fr.Element{qPrime, qL, qR}) {
		t.Fatalf("the points are modified")
	}
}

// claims checks the left and right claims of whole proofs
func claims(t vt.T, k *cases.Case) {
	_, p := k.Prove()
	claimsOf(t, k, p)
}

func claimsOf(t vt.T, k *cases.Case, p gkr.Proof) {
	n := len(k.Spec.Layers)
	if !refgkr.Shape(k.Spec, k.BN, p) {
		t.Fatalf("the proof does not have the shape prescribed by the circuit")
	}
	for l := n - 1; l >= 0; l-- {
		bg := k.Spec.Layers[l].BGIn()
		_, ch, _ := refgkr.Rounds(fr.Element{}, p.SumcheckProofs[l].PolyCoeffs)
		left, right := concat(ch[:bg], ch[2*bg:]), ch[bg:]
		if want := ref.MLE(k.Layers[l], left); p.ClaimsLeft[l] != want {
			t.Fatalf("the left claim of layer %d is %v, the extension of its values is %v", l, gen.S(p.ClaimsLeft[l]), gen.S(want))
		}
		if want := ref.MLE(k.Layers[l], right); p.ClaimsRight[l] != want {
			t.Fatalf("the right claim of layer %d is %v, the extension of its values is %v", l, gen.S(p.ClaimsRight[l]), gen.S(want))
		}
	}
	// All the relations between the layers hold
	if fails := refgkr.Verify(k.Spec, k.BN, p, k.Flat, k.Out()); fails != nil {
		t.Fatalf("the checks that fail are %v", fails)
	}
}

func main() {
	o := gen.CircuitOpts{MaxLayers: 4, MaxBG: 3}
	vt.Main(vt.Check{
		Property: "C16",
		Rule: "A case is a layer with two points where its wiring tables are folded, or a circuit with a batch, a layer, points and coefficients (Boolean, special or random), or a whole proof. Wiring tables are compared entry by entry with the sum over the wires, claims with the extension of the reference values of the next layer, final claims with the extensions at the challenges. " +
			"It is non-trivial if there is at least one input or output variable (several layers or instances, and inputs that are not zero, for circuits).",
		Assumptions: []string{"consecutive layers have the same sizes, each layer has at least one wire"},
		Families: []vt.Family{
			{Name: "wiring", Quick: 48000, Thorough: 1200000, Shards: 8, Prop: statics},
			{Name: "provers", Quick: 48000, Thorough: 1200000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) { provers(t, c, o, 3) }},
			{Name: "provers-large", Quick: 32, Thorough: 800, Shards: 8, MinPerShard: 2, Prop: func(t *rapid.T, c *vt.C) {
				provers(t, c, gen.CircuitOpts{MaxLayers: 2, MaxBG: 1}, 10)
			}},
			{Name: "provers-wide", Quick: 400, Thorough: 10000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				provers(t, c, gen.CircuitOpts{MaxLayers: 2, MaxBG: 5, MaxTable: 13}, 2)
			}},
			{Name: "provers-deep", Quick: 400, Thorough: 10000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				provers(t, c, gen.CircuitOpts{MaxLayers: 12, MaxBG: 2}, 2)
			}},
			{Name: "claims", Quick: 36000, Thorough: 900000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				o := o
				o.MaxBG = gen.UpTo(t, 3, 3, 5, "maxbg")
				o.MaxTable = 13
				k := cases.Draw(t, o, 4)
				c.Case(t, k.Nontrivial(), k.String)
				claims(t, k)
			}},
			{Name: "claims-tall", Quick: 800, Thorough: 20000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				k := cases.Draw(t, gen.CircuitOpts{MaxLayers: 3, MaxBG: 1}, gen.IntU(t, 5, 9, "maxbN"))
				c.Case(t, k.Nontrivial(), k.String)
				claims(t, k)
			}},
			{Name: "claims-huge", Quick: 48, Thorough: 800, Shards: 8, MinPerShard: 1, Prop: func(t *rapid.T, c *vt.C) {
				k := cases.Huge(t, 16)
				c.Case(t, true, k.String)
				claims(t, k)
			}},
			{Name: "claims-deep", Quick: 800, Thorough: 20000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				k := cases.Draw(t, gen.CircuitOpts{MaxLayers: 30, MaxBG: 1}, 2)
				c.Case(t, k.Nontrivial(), k.String)
				claims(t, k)
			}},
			{Name: "mimc", Quick: 240, Thorough: 8000, Shards: 8, MinPerShard: 3, Prop: func(t *rapid.T, c *vt.C) {
				k := cases.Case{Spec: cases.Mimc(), BN: gen.IntU(t, 0, 4, "bN")}
				k.Chunks = 1 << gen.IntU(t, 0, k.BN, "logchunks")
				k.NCore, k.PCore = gen.NCore(t, "ncore"), gen.NCore(t, "pcore")
				k.Flat = gen.Vec(t, 2<<k.BN, "in")
				c.Case(t, !gen.IsZero(k.Flat), k.String)
				k.Finish()
				claims(t, &k)
			}},
		},
	})
}
