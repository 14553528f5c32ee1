// C17: circuits, assignments and proofs are unchanged by use, results are repeatable
package main

import (
	"fmt"
	"strings"
	"sync"

	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"verif/cases"
	"verif/gen"
	"verif/real"
	"verif/ref"
	"verif/refgkr"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// batch is a batch of inputs of a circuit, with all the objects made from it
type batch struct {
	k          *cases.Case
	in         [][]fr.Element
	assignment circuit.Assignment
	prover     gkr.Prover
	verifier   gkr.Verifier
	proof      gkr.Proof
	out        [][]fr.Element
	// Snapshots
	wantProof gkr.Proof
	wantOut   [][]fr.Element
}

// world is what the operations share: circuits, and batches of each of them
type world struct {
	circuits []circuit.Circuit
	wires    [][][]circuit.Wire
	saved    [][][]wire
	points   [][]fr.Element // shared points
	savedPts [][]fr.Element
	batches  []*batch
}

type wire struct {
	l, r, o int
	key     string
}

func snapshot(ws []circuit.Wire) []wire {
	var r []wire
	for _, w := range ws {
		s, err := real.SpecOf(w.Gate)
		if err != nil {
			panic(err)
		}
		r = append(r, wire{w.L, w.R, w.O, s.Key()})
	}
	return r
}

func sameWires(a, b []wire) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// op is an operation of a history
type op struct {
	kind, batch, layer, core, variant int
	d                                 fr.Element
	sub                               []op // concurrent operations
}

const (
	oAssign = iota
	oProve
	oProveNew
	oVerify
	oVerifyNew
	oVerifyWrong
	oVerifyWrongProof
	oStatic
	oCopy
	oRound
	oEvaluate
	oLayer
	oNewCircuit
	nOps
)

var names = []string{"assign", "prove", "prove with a new prover", "verify", "verify with a new verifier", "verify wrong tables", "verify a wrong proof",
	"wiring tables", "copy of a layer", "sumcheck of a layer", "evaluate", "evaluate a layer", "new circuit"}

func (o op) String() string {
	if o.sub != nil {
		var s []string
		for _, x := range o.sub {
			s = append(s, x.String())
		}
		return "concurrently {" + strings.Join(s, "; ") + "}"
	}
	return fmt.Sprintf("%s(batch %d, layer %d, cores %d, %d)", names[o.kind], o.batch, o.layer, o.core, o.variant)
}

func drawOp(t *rapid.T, nBatches int, concurrent bool, label string) op {
	if concurrent && gen.IntU(t, 0, 3, label+".concurrent") == 0 {
		var o op
		for k := gen.IntU(t, 2, 4, label+".nsub"); k > 0; k-- {
			o.sub = append(o.sub, drawOp(t, nBatches, false, fmt.Sprintf("%s.%d", label, k)))
		}
		return o
	}
	return op{
		kind:    gen.IntU(t, 0, nOps-1, label+".op"),
		batch:   gen.IntU(t, 0, nBatches-1, label+".batch"),
		layer:   gen.IntU(t, 0, 7, label+".layer"),
		core:    gen.IntU(t, 1, 5, label+".core"),
		variant: gen.IntU(t, 0, 63, label+".variant"),
		d:       gen.Delta(t, label+".d"),
	}
}

// build makes the world from specifications
func build(specs []ref.Circuit, ks []*cases.Case, ofCircuit []int, pts [][]fr.Element) *world {
	w := &world{points: pts, savedPts: gen.Clone2(pts)}
	for _, s := range specs {
		var ws [][]circuit.Wire
		var saved [][]wire
		for _, l := range s.Layers {
			x := real.Wires(l)
			ws = append(ws, x)
			saved = append(saved, snapshot(x))
		}
		w.wires = append(w.wires, ws)
		w.saved = append(w.saved, saved)
		w.circuits = append(w.circuits, circuit.NewCircuit(ws))
	}
	for i, k := range ks {
		// What fresh objects give
		k.Finish()
		_, p := k.Prove()
		k.Circuit = w.circuits[ofCircuit[i]]
		b := &batch{k: k, in: k.Inputs(), out: k.Outputs(), wantOut: k.Outputs(), wantProof: p}
		b.assignment = k.Circuit.Assign(b.in, k.NCore)
		b.prover = gkr.NewProver(k.Circuit, b.assignment)
		b.verifier = gkr.NewVerifier(k.BN, k.Circuit)
		b.proof = refgkr.Clone(p)
		w.batches = append(w.batches, b)
	}
	return w
}

// unchanged checks all the shared objects
func (w *world) unchanged() error {
	for i, c := range w.circuits {
		for l, layer := range c.Layers {
			if !sameWires(snapshot(w.wires[i][l]), w.saved[i][l]) {
				return fmt.Errorf("the wires given for layer %d of circuit %d are modified", l, i)
			}
			if !sameWires(snapshot(layer.Wires), w.saved[i][l]) {
				return fmt.Errorf("layer %d of circuit %d is modified", l, i)
			}
		}
	}
	for i, b := range w.batches {
		if !gen.Equal2(b.in, b.k.Inputs()) {
			return fmt.Errorf("the inputs of batch %d are modified", i)
		}
		if !gen.Equal2(b.out, b.wantOut) {
			return fmt.Errorf("the outputs of batch %d are modified", i)
		}
		if !refgkr.Equal(b.proof, b.wantProof) {
			return fmt.Errorf("the proof of batch %d is modified", i)
		}
		if err := assigned(b.k, b.assignment); err != nil {
			return fmt.Errorf("batch %d: %v", i, err)
		}
	}
	if !gen.Equal2(w.points, w.savedPts) {
		return fmt.Errorf("the points are modified")
	}
	return nil
}

func assigned(k *cases.Case, a circuit.Assignment) error {
	if len(a.Values) != len(k.Layers) {
		return fmt.Errorf("%d layers of values instead of %d", len(a.Values), len(k.Layers))
	}
	for l := range a.Values {
		if !gen.Equal2(a.Values[l], gen.Chunk(k.Layers[l], k.Chunks)) {
			return fmt.Errorf("layer %d of the assignment is not the one of a fresh assignment", l)
		}
	}
	return nil
}

func flat(b []polynomial.BookKeepingTable) [][]fr.Element {
	var r [][]fr.Element
	for _, x := range b {
		r = append(r, x.Table)
	}
	return r
}

// run executes an operation and compares its result with the one of fresh objects.
// It only writes to its own objects.
func (w *world) run(o op) error {
	b := w.batches[o.batch]
	k := b.k
	nl := len(k.Spec.Layers)
	layer := o.layer % nl
	switch o.kind {
	case oAssign:
		in := b.in
		if o.variant%2 == 0 { // another batch through the same circuit
			in = gen.Clone2(in)
			in[0][0] = ref.Add(in[0][0], o.d)
			a := k.Circuit.Assign(in, o.core)
			want := k.Spec.Eval(gen.Unchunk(in), k.N())
			for l := range want {
				if !gen.Equal(gen.Unchunk(a.Values[l]), want[l]) {
					return fmt.Errorf("layer %d of another batch is not its evaluation", l)
				}
			}
			return nil
		}
		return assigned(k, k.Circuit.Assign(in, o.core))
	case oProve:
		if p := b.prover.Prove(o.core); !refgkr.Equal(p, b.wantProof) {
			return fmt.Errorf("the proof is not the one made from fresh objects")
		}
	case oProveNew:
		p := gkr.NewProver(k.Circuit, b.assignment)
		if q := p.Prove(o.core); !refgkr.Equal(q, b.wantProof) {
			return fmt.Errorf("the proof of a new prover is not the one made from fresh objects")
		}
	case oVerify:
		if !b.verifier.Verify(b.proof, b.in, b.out) {
			return fmt.Errorf("the honest proof is rejected")
		}
	case oVerifyNew:
		v := gkr.NewVerifier(k.BN, k.Circuit)
		if !v.Verify(b.proof, b.assignment.Values[0], b.assignment.Values[nl]) {
			return fmt.Errorf("the honest proof is rejected by a new verifier")
		}
	case oVerifyWrong:
		in, out := gen.Clone2(b.in), gen.Clone2(b.out)
		x := out
		if o.variant%2 == 1 {
			x = in
		}
		c := x[o.variant/2%len(x)]
		i := o.variant / 4 % len(c)
		c[i] = ref.Add(c[i], o.d)
		if v := len(refgkr.Verify(k.Spec, k.BN, b.wantProof, gen.Unchunk(in), gen.Unchunk(out))) == 0; b.verifier.Verify(b.proof, in, out) != v {
			return fmt.Errorf("wrong tables: the verdict is %v", !v)
		}
	case oVerifyWrongProof:
		p := refgkr.Clone(b.wantProof)
		s := p.SumcheckProofs[layer].PolyCoeffs
		if len(s) > 0 && o.variant%3 == 0 {
			c := s[o.variant/3%len(s)]
			c[0] = ref.Add(c[0], o.d)
		} else if o.variant%3 == 1 {
			p.ClaimsLeft[layer] = ref.Add(p.ClaimsLeft[layer], o.d)
		} else {
			p.ClaimsRight[layer] = ref.Add(p.ClaimsRight[layer], o.d)
		}
		want := len(refgkr.Verify(k.Spec, k.BN, p, k.Flat, k.Out())) == 0
		if b.verifier.Verify(p, b.in, b.out) != want {
			return fmt.Errorf("wrong proof: the verdict is %v", !want)
		}
	case oStatic:
		l := &k.Circuit.Layers[layer]
		q := w.points[o.variant%len(w.points)][:k.Spec.Layers[layer].BGOut()]
		tabs := l.GetStaticTable(q)
		bg := k.Spec.Layers[layer].BGIn()
		for g := range tabs {
			s, err := real.SpecOf(l.Gates[g])
			if err != nil {
				return err
			}
			for h, v := range tabs[g].Table {
				if want := k.Spec.Layers[layer].Wiring(s.Key(), q, bits(bg, h>>bg), bits(bg, h&(1<<bg-1))); v != want {
					return fmt.Errorf("entry %d of the wiring table of gate %v of layer %d is %v, expected %v", h, s, layer, gen.S(v), gen.S(want))
				}
			}
			for bg > 0 && len(tabs[g].Table) > 1 { // they belong to the caller
				tabs[g].Fold(o.d)
			}
		}
	case oCopy:
		layer := o.layer % (nl + 1)
		c := b.assignment.LayerAsBKTWithCopy(layer, o.core)
		if !gen.Equal2(flat(c), gen.Chunk(k.Layers[layer], k.Chunks)) {
			return fmt.Errorf("the copy of layer %d is not the layer", layer)
		}
		for i := range c {
			for j := range c[i].Table {
				c[i].Table[j] = ref.Add(c[i].Table[j], o.d)
			}
			for len(c[i].Table) > 1 {
				c[i].Fold(o.d)
			}
		}
		// The other way round: the copy does not follow the assignment
		own := circuit.Assignment{Values: [][][]fr.Element{gen.Chunk(k.Layers[layer], k.Chunks)}}
		d := own.LayerAsBKTWithCopy(0, o.core)
		own.Values[0][0][0] = ref.Add(own.Values[0][0][0], o.d)
		if !gen.Equal2(flat(d), gen.Chunk(k.Layers[layer], k.Chunks)) {
			return fmt.Errorf("a copy of a layer follows the assignment")
		}
	case oRound:
		qs := w.points
		bg := k.Spec.Layers[layer].BGOut()
		qP, q, q2 := qs[o.variant%len(qs)][:k.BN], qs[(o.variant+1)%len(qs)][:bg], qs[(o.variant+2)%len(qs)][:bg]
		var want fr.Element
		want = ref.MLE(k.Layers[layer+1], append(gen.Clone(q), qP...))
		p := b.prover.InitialRoundSumcheckProver
		var got fr.Element
		if layer == nl-1 {
			s := p(qP, q, o.core)
			got = s.GetClaim(o.core)
			s.Prove(o.core)
		} else {
			want = ref.Add(ref.Mul(o.d, want), ref.MLE(k.Layers[layer+1], append(gen.Clone(q2), qP...)))
			s := b.prover.IntermediateRoundsSumcheckProver(layer, qP, q, q2, o.d, ref.One(), o.core)
			got = s.GetClaim(o.core)
			s.Prove(o.core)
		}
		if got != want {
			return fmt.Errorf("the claim of layer %d is %v, expected %v", layer, gen.S(got), gen.S(want))
		}
	case oEvaluate:
		n := k.BN + k.BGOut()
		pt := w.points[o.variant%len(w.points)][:n]
		tabs := polynomial.AsChunkedBookKeepingTable(b.out)
		if o.variant%2 == 0 {
			tabs = b.assignment.LayerAsBKTNoCopy(nl)
		}
		if got, want := polynomial.EvaluateChunked(tabs, pt), ref.MLE(k.Out(), pt); got != want {
			return fmt.Errorf("the evaluation of the outputs is %v, expected %v", gen.S(got), gen.S(want))
		}
	case oLayer:
		got := k.Circuit.Layers[layer].Evaluate(b.assignment.Values[layer], o.core)
		if !gen.Equal2(got, gen.Chunk(k.Layers[layer+1], k.Chunks)) {
			return fmt.Errorf("the evaluation of layer %d is not the next layer", layer)
		}
		for i := range got {
			got[i][0] = ref.Add(got[i][0], o.d)
		}
	case oNewCircuit: // from the same wires
		for i := range w.circuits {
			if k.Circuit.Layers[0].Wires == nil || &w.circuits[i].Layers[0].Wires[0] != &k.Circuit.Layers[0].Wires[0] {
				continue
			}
			c := circuit.NewCircuit(w.wires[i])
			if err := assigned(k, c.Assign(b.in, o.core)); err != nil {
				return fmt.Errorf("new circuit of the same wires: %v", err)
			}
		}
	}
	return nil
}

func bits(n, b int) []fr.Element {
	r := make([]fr.Element, n)
	for i := range r {
		r[i] = ref.U(uint64(b >> (n - 1 - i) & 1))
	}
	return r
}

func history(t *rapid.T, c *vt.C, concurrent bool, mimc bool, maxOps int) {
	var specs []ref.Circuit
	maxBN := gen.UpTo(t, 3, 3, 7, "maxbN")
	if mimc {
		specs = []ref.Circuit{cases.Mimc()}
		maxBN = 2
	} else {
		for k := gen.IntU(t, 1, 2, "ncircuits"); k > 0; k-- {
			specs = append(specs, gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 3, MaxBG: 2}, fmt.Sprintf("c%d", k)))
		}
	}
	nb := gen.IntU(t, 1, 3, "nbatches")
	var ks []*cases.Case
	var of []int
	for i := 0; i < nb; i++ {
		s := gen.IntU(t, 0, len(specs)-1, fmt.Sprintf("of%d", i))
		k := &cases.Case{Spec: specs[s], NCore: 1, PCore: 1}
		k.Flat, k.BN, k.Chunks = gen.Batch(t, k.BGIn(), maxBN, fmt.Sprintf("b%d", i))
		ks, of = append(ks, k), append(of, s)
	}
	var pts [][]fr.Element
	for i := 0; i < 3; i++ {
		pts = append(pts, gen.Point(t, 16, fmt.Sprintf("q%d", i)))
	}
	var ops []op
	for k := gen.IntU(t, 1, maxOps, "nops"); k > 0; k-- {
		ops = append(ops, drawOp(t, nb, concurrent, fmt.Sprintf("o%d", k)))
	}
	c.Case(t, len(ops) > 1, func() string { return fmt.Sprintf("%v on %v", ops, ks[0]) })
	c.Label("%d operations", (len(ops)+4)/5*5)
	for _, o := range ops {
		if o.sub != nil {
			c.LabelIf(true, "concurrent operations")
		} else {
			c.LabelIf(true, names[o.kind])
		}
	}
	w := build(specs, ks, of, pts)
	for i, o := range ops {
		var err error
		if o.sub == nil {
			err = w.run(o)
		} else {
			errs := make([]error, len(o.sub))
			var wg sync.WaitGroup
			for j := range o.sub {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					errs[j] = w.run(o.sub[j])
				}(j)
			}
			wg.Wait()
			for j := range errs {
				if errs[j] != nil {
					err = fmt.Errorf("%v: %v", o.sub[j], errs[j])
				}
			}
		}
		if err == nil {
			err = w.unchanged()
		}
		if err != nil {
			t.Fatalf("operation %d, %v: %v\nhistory: %v", i, o, err, ops[:i+1])
		}
	}
}

// builtin checks that the MiMC circuits are independent of each other
func builtin(t *rapid.T, c *vt.C) {
	n := gen.IntU(t, 1, 3, "n")
	in := gen.Vec(t, 2, "in")
	c.Case(t, true, func() string { return fmt.Sprintf("%d MiMC circuits, inputs %v", n, gen.Show(in)) })
	want := ref.Add(ref.MimcPerm(ref.Sub(in[0], in[1]), in[1]), in[1])
	for i := 0; i < n; i++ {
		x := examples.CreateMimcCircuit()
		a := x.Assign([][]fr.Element{gen.Clone(in)}, 1)
		if got := a.Values[len(a.Values)-1][0][0]; got != want {
			t.Fatalf("MiMC circuit %d gives %v, expected %v", i, gen.S(got), gen.S(want))
		}
		p := gkr.NewProver(x, a)
		proof := p.Prove(1)
		v := gkr.NewVerifier(0, x)
		if !v.Verify(proof, a.Values[0], a.Values[len(a.Values)-1]) {
			t.Fatalf("the proof of MiMC circuit %d is rejected", i)
		}
		// The wires of this circuit are then destroyed
		for l := range x.Layers {
			for k := range x.Layers[l].Wires {
				x.Layers[l].Wires[k].L = 0
				x.Layers[l].Wires[k].Gate = circuit.AddGate{}
			}
		}
	}
}

func main() {
	vt.Main(vt.Check{
		Property: "C17",
		Scale:    2,
		Rule: "A case is a history of 1 to 25 operations (assign, prove, verify right and wrong tables and proofs, wiring tables, copies of layers, sumchecks of a layer, evaluations) on 1 or 2 circuits and 1 to 3 batches that share them; in some histories, groups of operations run concurrently, a part of them under the race detector. " +
			"Each result is compared with the one of fresh objects (or of the reference), and all the shared objects with their snapshots after each operation. It is non-trivial if there are at least two operations. In the long families, an operation on small data is repeated more than 2^16 times (2^15 for the prover), and each result compared with the first one.",
		Assumptions: []string{"the tables returned by wiring tables and layer copies belong to the caller"},
		Families: append(longFamilies(), []vt.Family{
			{Name: "sequential", Quick: 8000, Thorough: 200000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) { history(t, c, false, false, 25) }},
			{Name: "concurrent", Quick: 8000, Thorough: 200000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) { history(t, c, true, false, 15) }},
			{Name: "mimc", Quick: 96, Thorough: 2000, Shards: 8, MinPerShard: 3, Prop: func(t *rapid.T, c *vt.C) { history(t, c, true, true, 10) }},
			{Name: "builtin", Quick: 200, Thorough: 4000, Prop: builtin},
			{Name: "race", Quick: 800, Thorough: 20000, Shards: 8, Race: true, Prop: func(t *rapid.T, c *vt.C) { history(t, c, true, false, 8) }},
		}...),
	})
}
