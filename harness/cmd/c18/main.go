// C18: the SNARK verifier of GKR proofs is satisfied exactly by valid proofs
package main

import (
	"fmt"

	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	sgkr "gkr-mimc/snark/gkr"
	"gkr-mimc/snark/polynomial"
	"verif/cases"
	"verif/gen"
	change "verif/mut"
	"verif/real"
	"verif/ref"
	"verif/refgkr"
	"verif/snk"
	"verif/vt"

	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

type variable = frontend.Variable

// full is a constraint system around the verifier
type full struct {
	Circuit         sgkr.Circuit `gnark:"-"`
	Proof           sgkr.Proof
	Q, QPrime       []variable
	VInput, VOutput polynomial.MultilinearByValues
}

func alloc(c sgkr.Circuit, bN, bgIn, bgOut int) *full {
	return &full{
		Circuit: c, Proof: sgkr.AllocateProof(bN, c),
		Q: make([]variable, bgOut), QPrime: make([]variable, bN),
		VInput: polynomial.AllocateMultilinear(bN + bgIn), VOutput: polynomial.AllocateMultilinear(bN + bgOut),
	}
}

// Define the constraints
func (c *full) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	c.Proof.AssertValid(cs, c.Circuit, c.Q, c.QPrime, c.VInput, c.VOutput)
	return nil
}

// system is a compiled verifier
type system struct {
	c               sgkr.Circuit
	bN, bgIn, bgOut int
	r               r1cs.R1CS
}

func compile(t vt.T, c sgkr.Circuit, bN, bgIn, bgOut int) *system {
	r, err := snk.Circuit(alloc(c, bN, bgIn, bgOut))
	if err != nil {
		t.Fatalf("the verifier does not compile: %v", err)
	}
	return &system{c, bN, bgIn, bgOut, r}
}

var mimcSystems = map[int]*system{}

func mimcSystem(t vt.T, bN int) *system {
	if mimcSystems[bN] == nil {
		mimcSystems[bN] = compile(t, sgkr.CreateMimcCircuit(), bN, 1, 0)
	}
	return mimcSystems[bN]
}

// accepts tells whether the constraints are satisfied, or why the assignment
// was refused
func (s *system) accepts(t vt.T, p gkr.Proof, in, out [][]fr.Element, qPrime, q []fr.Element) (ok bool, refused string) {
	w := alloc(s.c, s.bN, s.bgIn, s.bgOut)
	func() {
		defer func() {
			if e := recover(); e != nil {
				refused = fmt.Sprint(e)
			}
		}()
		w.Proof.Assign(p)
	}()
	if refused != "" {
		return false, refused
	}
	for i := range q {
		w.Q[i].Assign(q[i])
	}
	for i := range qPrime {
		w.QPrime[i].Assign(qPrime[i])
	}
	w.VInput.AssignFromChunkedBKT(in)
	w.VOutput.AssignFromChunkedBKT(out)
	ok, err := snk.Satisfied(s.r, w)
	if err != nil {
		t.Fatalf("witness: %v", err)
	}
	return ok, ""
}

// drawBN draws a batch size: the large ones cost more
func drawBN(t *rapid.T) int {
	return []int{0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 0, 0, 1, 1, 1, 2, 2, 3, 4, 5}[gen.IntU(t, 0, 19, "bN")]
}

var mimcSpec = cases.Mimc()

func draw(t *rapid.T) *cases.Case {
	c := &cases.Case{Spec: mimcSpec}
	c.BN = drawBN(t)
	c.Chunks = 1 << gen.IntU(t, 0, c.BN, "logchunks")
	c.NCore = gen.IntU(t, 1, 4, "ncore")
	c.PCore = gen.IntU(t, 1, 4, "pcore")
	c.Flat = gen.Vec(t, 2<<c.BN, "inputs")
	c.Layers = c.Spec.Eval(c.Flat, c.N())
	c.Circuit = examples.CreateMimcCircuit()
	return c
}

func desc(c *cases.Case) string {
	return fmt.Sprintf("bN=%d chunks=%d cores=%d/%d inputs=%v", c.BN, c.Chunks, c.NCore, c.PCore, gen.Show(c.Flat))
}

// honest: an honest proof, then a wrong output, then a wrong input
func honest(t *rapid.T, c *vt.C) {
	cs := draw(t)
	out := gen.Clone(cs.Out())
	k, dk := gen.IntU(t, 0, len(out)-1, "wrongout"), gen.Delta(t, "dout")
	in := gen.Clone(cs.Flat)
	j, dj := gen.IntU(t, 0, len(in)-1, "wrongin"), gen.Delta(t, "din")
	oc := 1 << gen.IntU(t, 0, cs.BN, "outchunks")
	c.Case(t, cs.BN > 0 || !gen.IsZero(cs.Flat), func() string {
		return fmt.Sprintf("honest proof, then output %d + %v, then input %d + %v: %v", k, gen.S(dk), j, gen.S(dj), desc(cs))
	})
	c.Label("bN=%d chunks=%d", cs.BN, cs.Chunks)
	s := mimcSystem(t, cs.BN)
	q, _ := gkr.GetInitialQPrimeAndQ(cs.BN, 0)
	a, proof := cs.Prove()
	if got := a.Values[len(a.Values)-1]; !gen.Equal(gen.Unchunk(got), out) {
		t.Fatalf("outputs of the native assignment are not the hashes: %v", desc(cs))
	}
	if ok, why := s.accepts(t, proof, cs.Inputs(), cs.Outputs(), q, nil); !ok {
		t.Fatalf("the SNARK verifier rejects an honest proof (%v): %v", why, desc(cs))
	}
	// The chunks are only a layout
	if ok, why := s.accepts(t, proof, gen.Chunk(in, oc), gen.Chunk(out, oc), q, nil); oc != cs.Chunks && !ok {
		t.Fatalf("the SNARK verifier rejects an honest proof (%v) when the tables are split in %d: %v", why, oc, desc(cs))
	}
	out[k] = ref.Add(out[k], dk)
	if ok, _ := s.accepts(t, proof, cs.Inputs(), gen.Chunk(out, oc), q, nil); ok {
		t.Fatalf("the SNARK verifier accepts a wrong output (%d + %v): %v", k, gen.S(dk), desc(cs))
	}
	in[j] = ref.Add(in[j], dj)
	if ok, _ := s.accepts(t, proof, gen.Chunk(in, oc), cs.Outputs(), q, nil); ok {
		t.Fatalf("the SNARK verifier accepts a wrong input (%d + %v): %v", j, gen.S(dj), desc(cs))
	}
}

// simulate checks proofs that satisfy everything, or everything but one check
func simulate(t *rapid.T, c *vt.C, spec ref.Circuit, s *system, nSites int) {
	bgOut := spec.Layers[len(spec.Layers)-1].BGOut()
	qPrime, q := gen.Point(t, s.bN, "qPrime"), gen.Point(t, bgOut, "q")
	if gen.IntU(t, 0, 2, "initial") == 0 {
		qPrime, q = gkr.GetInitialQPrimeAndQ(s.bN, bgOut)
	}
	chunksIn := 1 << gen.IntU(t, 0, s.bN, "chunksin")
	chunksOut := 1 << gen.IntU(t, 0, s.bN, "chunksout")
	out := gen.Vec(t, 1<<(bgOut+s.bN), "out")
	sim, free := refgkr.DrawSim(t, nil, false, "sim")
	sims := []refgkr.Sim{sim}
	for i := 0; i < nSites; i++ {
		x := sim
		x.Sites = refgkr.DrawSites(t, spec, s.bN, fmt.Sprintf("s%d", i))
		sims = append(sims, x)
	}
	c.Case(t, true, func() string {
		var what []string
		for _, x := range sims[1:] {
			for _, s := range x.Sites {
				what = append(what, s.Show())
			}
		}
		return fmt.Sprintf("simulated proofs, bN=%d q'=%v q=%v chunks=%d/%d out=%v %v, valid then failing %v", s.bN, gen.Show(qPrime), gen.Show(q), chunksIn, chunksOut, gen.Show(out), free, what)
	})
	for _, x := range sims {
		proof, in, ok := refgkr.Simulate(spec, s.bN, out, x, qPrime, q)
		if !ok {
			c.Label("degenerate")
			continue
		}
		c.LabelIf(len(x.Sites) == 0, "valid")
		c.LabelIf(len(x.Sites) > 1, "two checks fail")
		for _, s := range x.Sites {
			c.Label("%s", s.Kind)
			c.LabelIf(s.Rel != 0, s.Kind+", related value")
		}
		got, why := s.accepts(t, proof, gen.Chunk(in, chunksIn), gen.Chunk(out, chunksOut), qPrime, q)
		if why != "" {
			t.Fatalf("the SNARK verifier refuses the shape of a proof: %v", why)
		}
		if len(x.Sites) == 0 && !got {
			t.Fatalf("the SNARK verifier rejects a proof that passes all the checks, bN=%d", s.bN)
		}
		if len(x.Sites) > 0 && got {
			t.Fatalf("the SNARK verifier accepts a proof that fails only: %v (first one: %v), bN=%d", x.Sites, x.Sites[0].Show(), s.bN)
		}
	}
}

// mutated: satisfied if and only if the reference verifier accepts
func mutated(t *rapid.T, c *vt.C) {
	cs := draw(t)
	s := mimcSystem(t, cs.BN)
	_, proof := cs.Prove()
	mut := refgkr.Clone(proof)
	what := change.Proof(t, &mut)
	fails := refgkr.Verify(cs.Spec, cs.BN, mut, cs.Flat, cs.Out())
	c.Case(nil, fails != nil, func() string { return fmt.Sprintf("%v: %v", what, desc(cs)) })
	c.LabelIf(fails == nil, "no effect")
	c.LabelIf(len(fails) == 1, "a single check fails")
	q, _ := gkr.GetInitialQPrimeAndQ(cs.BN, 0)
	got, why := s.accepts(t, mut, cs.Inputs(), cs.Outputs(), q, nil)
	c.LabelIf(why != "", "refused")
	if got != (fails == nil) {
		t.Fatalf("%v: satisfied %v (%v), the failing checks are %v\n%v", what, got, why, fails, desc(cs))
	}
}

// description: the claims of each layer of the description of MiMC are combined
// as by the native circuit
func mimcLayers(t *rapid.T, c *vt.C) {
	bN := gen.IntU(t, 0, 2, "bN")
	layers := sgkr.CreateMimcCircuit()
	if len(layers.Layers) != len(mimcSpec.Layers) || layers.BGOut != 0 {
		t.Fatalf("%d layers, output log-size %d", len(layers.Layers), layers.BGOut)
	}
	lo := gen.IntU(t, 0, len(layers.Layers)-1, "first")
	hi := lo + gen.IntU(t, 1, 12, "number")
	if hi > len(layers.Layers) {
		hi = len(layers.Layers)
	}
	combine(t, c, "MiMC", layers.Layers[lo:hi], mimcSpec.Layers[lo:hi], bN, lo)
}

func customLayers(t *rapid.T, c *vt.C) {
	bN := gen.IntU(t, 0, 3, "bN")
	l := gen.LayerOf(t, gen.IntU(t, 0, 2, "bgin"), gen.IntU(t, 0, 2, "bgout"), gen.AffineKinds, "l")
	combine(t, c, l.String(), []sgkr.Layer{snarkLayer(l)}, []ref.Layer{l}, bN, 0)
}

func combine(t *rapid.T, c *vt.C, what string, layers []sgkr.Layer, specs []ref.Layer, bN, first int) {
	type pt struct{ qL, qR, qP, hL, hR, hP, v []fr.Element }
	// The last layer of MiMC has no output variable
	nq := make([]int, len(specs))
	max := 0
	for i := range specs {
		nq[i] = specs[i].BGOut()
		if nq[i] > max {
			max = nq[i]
		}
	}
	bg := specs[0].BGIn()
	var pts []pt
	for i := 0; i < 3; i++ {
		l := fmt.Sprintf("p%d.", i)
		pts = append(pts, pt{gen.Point(t, max, l+"qL"), gen.Point(t, max, l+"qR"), gen.Point(t, bN, l+"qP"),
			gen.Point(t, bg, l+"hL"), gen.Point(t, bg, l+"hR"), gen.Point(t, bN, l+"hP"), gen.Vec(t, 4, l+"v")})
	}
	d := gen.Delta(t, "delta")
	wrong := gen.IntU(t, 0, 2*len(layers)-1, "wrong")
	c.Case(t, true, func() string {
		return fmt.Sprintf("layers %d.. of %v (%d of them), bN=%d, at %v %v %v %v", first, what, len(layers), bN, gen.Show(pts[0].qL), gen.Show(pts[0].hL), gen.Show(pts[0].hR), gen.Show(pts[0].v))
	})
	for i := range layers {
		if layers[i].BG != specs[i].BGIn() {
			t.Fatalf("layer %d of %v: log-size %d", first+i, what, layers[i].BG)
		}
	}
	nx := 2*max + 2*bN + 2*bg + 4
	sys, err := snk.Compile(nx, 2*len(layers), func(cs *frontend.ConstraintSystem, x []variable) []variable {
		take := func(n int) []variable { r := x[:n:n]; x = x[n:]; return r }
		qL, qR, qP, hL, hR, hP, v := take(max), take(max), take(bN), take(bg), take(bg), take(bN), take(4)
		var y []variable
		for i := range layers {
			y = append(y, layers[i].Combine(cs, qL[:nq[i]], qP, hL, hR, hP, v[0], v[1]),
				layers[i].CombineWithLinearComb(cs, qL[:nq[i]], qR[:nq[i]], qP, hL, hR, hP, v[2], v[3], v[0], v[1]))
		}
		return y
	})
	if err != nil {
		t.Fatalf("the layers of %v do not compile: %v", what, err)
	}
	for _, p := range pts {
		var y, x []fr.Element
		for i, s := range specs {
			e := ref.Eq(p.qP, p.hP)
			a := s.WiredSum(p.qL[:nq[i]], p.hL, p.hR, p.v[0], p.v[1])
			b := s.WiredSum(p.qR[:nq[i]], p.hL, p.hR, p.v[0], p.v[1])
			y = append(y, ref.Mul(e, a), ref.Mul(e, ref.Add(ref.Mul(p.v[2], a), ref.Mul(p.v[3], b))))
		}
		for _, z := range [][]fr.Element{p.qL, p.qR, p.qP, p.hL, p.hR, p.hP, p.v} {
			x = append(x, z...)
		}
		if !sys.Solved(x, y) {
			t.Fatalf("the layers %d to %d of %v combine the claims in another way than the native circuit, at qL=%v qR=%v q'=%v hL=%v hR=%v h'=%v claims and coefficients=%v", first, first+len(layers)-1, what, gen.Show(p.qL), gen.Show(p.qR), gen.Show(p.qP), gen.Show(p.hL), gen.Show(p.hR), gen.Show(p.hP), gen.Show(p.v))
		}
		y[wrong] = ref.Add(y[wrong], d)
		if sys.Solved(x, y) {
			t.Fatalf("layer %d of %v: the combination is not constrained", first+wrong/2, what)
		}
	}
}

// snarkLayer describes a layer for the SNARK verifier
func snarkLayer(l ref.Layer) sgkr.Layer {
	dl, dr, dp := l.Degrees()
	// The verifier does not need the exact degrees of an honest proof
	r := sgkr.Layer{BG: l.BGIn(), DegHL: dl + 1, DegHR: dr + 1, DegHPrime: dp + 1}
	bg := l.BGIn()
	for _, g := range l.Distinct() {
		g := g
		gate := real.Gate(g)
		r.Gates = append(r.Gates, gate.GnarkEval)
		r.StaticTable = append(r.StaticTable, func(cs *frontend.ConstraintSystem, q []variable) polynomial.MultilinearByValues {
			tab := make([]variable, 1<<(2*bg))
			for i := range tab {
				tab[i] = cs.Constant(0)
			}
			for _, w := range l.Wires {
				if l.Gates[w.G].Key() != g.Key() {
					continue
				}
				// eq(q, O)
				e := cs.Constant(1)
				for k := range q {
					if w.O>>(len(q)-1-k)&1 == 1 {
						e = cs.Mul(e, q[k])
					} else {
						e = cs.Mul(e, cs.Sub(cs.Constant(1), q[k]))
					}
				}
				i := w.L<<bg | w.R
				tab[i] = cs.Add(tab[i], e)
			}
			return polynomial.NewMultilinearByValues(tab)
		})
	}
	return r
}

// drawSpec draws a circuit of any number of layers
func drawSpec(t *rapid.T) ref.Circuit {
	o := gen.CircuitOpts{MaxBG: 2, Kinds: gen.AffineKinds}
	switch k := gen.IntU(t, 0, 40, "size"); {
	case k < 30:
		o.Layers = gen.IntU(t, 1, 5, "layers")
	case k < 39:
		o.Layers = gen.IntU(t, 6, 20, "layers")
		o.MaxBG = 1
	default:
		o.Layers = gen.IntU(t, 88, 94, "layers")
		o.MaxBG = 1
	}
	if gen.IntU(t, 0, 2, "native") == 0 {
		o.Kinds = []int{ref.KAdd, ref.KMul, ref.KCopy, ref.KCipher}
	}
	return gen.Solvable(gen.CircuitOf(t, o, "c"))
}

func customSystem(t *rapid.T, spec ref.Circuit, bN int) *system {
	n := len(spec.Layers)
	sc := sgkr.Circuit{BGOut: spec.Layers[n-1].BGOut()}
	for _, l := range spec.Layers {
		sc.Layers = append(sc.Layers, snarkLayer(l))
	}
	return compile(t, sc, bN, spec.Layers[0].BGIn(), sc.BGOut)
}

func customBN(t *rapid.T, spec ref.Circuit) int {
	m := 7
	if len(spec.Layers) > 5 {
		m = 2
	}
	return gen.IntU(t, 0, gen.IntU(t, 0, m, "maxbN"), "bN")
}

// custom circuits: simulated proofs
func custom(t *rapid.T, c *vt.C) {
	spec := drawSpec(t)
	bN := customBN(t, spec)
	c.Label("layers=%d", len(spec.Layers))
	simulate(t, c, spec, customSystem(t, spec, bN), 8)
}

// customHonest: honest proofs of any circuit, and statements and proofs with a
// change: satisfied if and only if the reference verifier accepts
func customHonest(t *rapid.T, c *vt.C) {
	cs := &cases.Case{Spec: drawSpec(t)}
	cs.BN = customBN(t, cs.Spec)
	cs.Chunks = 1 << gen.IntU(t, 0, cs.BN, "logchunks")
	cs.NCore, cs.PCore = gen.IntU(t, 1, 4, "ncore"), gen.IntU(t, 1, 4, "pcore")
	cs.Flat = gen.Vec(t, 1<<(cs.BN+cs.BGIn()), "inputs")
	cs.Finish()
	s := customSystem(t, cs.Spec, cs.BN)
	out, in := gen.Clone(cs.Out()), gen.Clone(cs.Flat)
	k, dk := gen.IntU(t, 0, len(out)-1, "wrongout"), gen.Delta(t, "dout")
	j, dj := gen.IntU(t, 0, len(in)-1, "wrongin"), gen.Delta(t, "din")
	oc := 1 << gen.IntU(t, 0, cs.BN, "outchunks")
	_, proof := cs.Prove()
	mut := refgkr.Clone(proof)
	what := change.Proof(t, &mut)
	q2, q := gkr.GetInitialQPrimeAndQ(cs.BN, cs.BGOut())
	c.Case(t, cs.Nontrivial(), func() string {
		return fmt.Sprintf("honest proof, output %d + %v, input %d + %v, %v: %v", k, gen.S(dk), j, gen.S(dj), what, cs)
	})
	c.Label("layers=%d", len(cs.Spec.Layers))
	if ok, why := s.accepts(t, proof, cs.Inputs(), gen.Chunk(out, oc), q2, q); !ok {
		t.Fatalf("the SNARK verifier rejects an honest proof (%v): %v", why, cs)
	}
	verdict := func(what string, p gkr.Proof, in, out []fr.Element) {
		fails := refgkr.Verify(cs.Spec, cs.BN, p, in, out)
		ok, why := s.accepts(t, p, gen.Chunk(in, oc), gen.Chunk(out, cs.Chunks), q2, q)
		c.LabelIf(fails == nil, "no effect")
		if ok != (fails == nil) {
			t.Fatalf("%v: satisfied %v (%v), the failing checks are %v: %v", what, ok, why, fails, cs)
		}
	}
	verdict(what, mut, in, out)
	out[k] = ref.Add(out[k], dk)
	verdict(fmt.Sprintf("output %d + %v", k, gen.S(dk)), proof, in, out)
	out[k] = ref.Sub(out[k], dk)
	in[j] = ref.Add(in[j], dj)
	verdict(fmt.Sprintf("input %d + %v", j, gen.S(dj)), proof, in, out)
}

func main() {
	snk.Big = true
	vt.Main(vt.Check{
		Property: "C18",
		Rule: "honest: batches of 1 to 32 hashes, an honest proof of the native prover must satisfy the compiled verifier in two chunkings, and must not any more when one output or one input is changed; simulated: proofs built backwards for arbitrary outputs and any initial point, which satisfy all the checks (accepted) or all but a chosen one (rejected); mutated: honest proofs with a change, the verdict must be that of the reference verifier; layers: the two combinations of claims of the layers of MiMC, and of layers with any wiring, equal their definition at Boolean and other points; custom: simulated proofs for random circuits of 1 to 94 layers; customhonest: honest proofs of such circuits are accepted, and after a change of the statement or of the proof the verdict is that of the reference verifier. " +
			"Non-trivial: inputs not all zero; for mutated, some check fails.",
		Assumptions: []string{"a constraint system is satisfied by a witness when gnark's solver says so: the solver computes the internal variables from the inputs"},
		Families: []vt.Family{
			{Name: "honest", Quick: 112, Thorough: 2400, Shards: 8, Prop: honest},
			{Name: "simulated", Quick: 96, Thorough: 2400, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				simulate(t, c, mimcSpec, mimcSystem(t, drawBN(t)), 5)
			}},
			{Name: "mutated", Quick: 160, Thorough: 4000, Shards: 8, Prop: mutated},
			{Name: "mimclayers", Quick: 600, Thorough: 8000, Shards: 8, Prop: mimcLayers},
			{Name: "customlayers", Quick: 1600, Thorough: 30000, Shards: 8, Prop: customLayers},
			{Name: "custom", Quick: 400, Thorough: 12000, Shards: 8, Prop: custom},
			{Name: "customhonest", Quick: 400, Thorough: 12000, Shards: 8, Prop: customHonest},
		},
	})
}
