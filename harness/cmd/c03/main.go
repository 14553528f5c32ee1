// C03: a proof failing any single check is rejected
package main

import (
	"fmt"

	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"verif/cases"
	"verif/gen"
	change "verif/mut"
	"verif/real"
	"verif/ref"
	"verif/refgkr"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

func simulate(t *rapid.T, c *vt.C, spec ref.Circuit, build func() gkr.Verifier, bN int) {
	n := len(spec.Layers)
	var sites []refgkr.Site
	if gen.IntU(t, 0, 3, "valid") > 0 {
		sites = refgkr.DrawSites(t, spec, bN, "s")
	}
	chunksIn := 1 << gen.IntU(t, 0, bN, "chunksin")
	chunksOut := 1 << gen.IntU(t, 0, bN, "chunksout")
	bgOut := spec.Layers[n-1].BGOut()
	var out []fr.Element
	if gen.IntU(t, 0, 3, "zero") == 0 {
		out = make([]fr.Element, 1<<(bgOut+bN))
	} else {
		out = gen.RandVec(t, 1<<(bgOut+bN), "out")
	}
	sim, free := refgkr.DrawSim(t, sites, true, "sim")
	qPrime, q := gkr.GetInitialQPrimeAndQ(bN, bgOut)
	proof, in, ok := refgkr.Simulate(spec, bN, out, sim, qPrime, q)
	c.Case(t, ok, func() string {
		return fmt.Sprintf("simulated proof, fails %v, bN=%d chunks=%d/%d %v circuit=%v", show(sites), bN, chunksIn, chunksOut, free, spec)
	})
	if !ok {
		c.Label("degenerate")
		return
	}
	c.LabelIf(len(sites) == 0, "valid")
	c.LabelIf(len(sites) > 1, "two checks fail")
	for _, s := range sites {
		c.Label("%s", s.Kind)
		c.LabelIf(s.Rel != 0, s.Kind+", related value")
	}
	fails := refgkr.Verify(spec, bN, proof, in, out)
	// The verdicts only mean something if the other checks pass
	if want := sim.Fails(spec, bN); fmt.Sprint(fails) != fmt.Sprint(want) {
		t.Fatalf("harness: the simulated proof should fail %v, it fails %v", want, fails)
	}
	v := build()
	got := v.Verify(proof, gen.Chunk(in, chunksIn), gen.Chunk(out, chunksOut))
	if len(sites) == 0 && !got {
		t.Fatalf("rejected a proof that passes all the checks, bN=%d circuit=%v", bN, spec)
	}
	if len(sites) > 0 && got {
		t.Fatalf("accepted a proof that fails: %v\nbN=%d circuit=%v", show(sites), bN, spec)
	}
}

func show(sites []refgkr.Site) string {
	if len(sites) == 0 {
		return "nothing"
	}
	r := ""
	for i, s := range sites {
		if i > 0 {
			r += " and "
		}
		r += s.Show()
	}
	return r
}

func mutated(t *rapid.T, c *vt.C, cs *cases.Case) {
	_, proof := cs.Prove()
	mut := refgkr.Clone(proof)
	var what []string
	for i := gen.IntU(t, 1, 2, "nmut"); i > 0; i-- {
		what = append(what, change.Proof(t, &mut))
	}
	fails := refgkr.Verify(cs.Spec, cs.BN, mut, cs.Flat, cs.Out())
	c.Case(nil, fails != nil, func() string { return fmt.Sprintf("honest proof with %v: %v", what, cs) })
	c.LabelIf(fails == nil, "no effect")
	c.LabelIf(len(fails) == 1, "a single check fails")
	v := gkr.NewVerifier(cs.BN, cs.Circuit)
	if got := v.Verify(mut, cs.Inputs(), cs.Outputs()); got != (fails == nil) {
		t.Fatalf("the verdict on a modified proof (%v) is %v, the failing checks are %v\n%v", what, got, fails, cs)
	}
}

var mimcSpec = cases.Mimc()

// every checks all the sites of a circuit
func every(spec ref.Circuit, bN int, delta fr.Element, build func() gkr.Verifier) func(t vt.T, c *vt.C) {
	return func(t vt.T, c *vt.C) {
		bgOut := spec.Layers[len(spec.Layers)-1].BGOut()
		qPrime, q := gkr.GetInitialQPrimeAndQ(bN, bgOut)
		s := gen.SplitMix(99)
		out := make([]fr.Element, 1<<(bN+bgOut))
		for i := range out {
			out[i] = s.Fr()
		}
		for _, site := range refgkr.Sites(spec, bN) {
			site.Delta = delta
			proof, in, ok := refgkr.Simulate(spec, bN, out, refgkr.Sim{Sites: []refgkr.Site{site}, Rnd: s.Fr}, qPrime, q)
			if !ok {
				continue
			}
			c.Label("every site")
			if f := refgkr.Verify(spec, bN, proof, in, out); len(f) != 1 {
				t.Fatalf("harness: %v", f)
			}
			v := build()
			if v.Verify(proof, gen.Chunk(in, 1), gen.Chunk(out, 1)) {
				t.Fatalf("accepted a proof that fails only: %v (by %v)\nbN=%d circuit=%v", site, gen.S(delta), bN, spec)
			}
		}
	}
}

func main() {
	var fixed []vt.Fixed
	for _, name := range cases.Names {
		spec := cases.Named[name]()
		for bN := 0; bN <= 3; bN++ {
			for k, d := range []fr.Element{gen.U(1), gen.Neg(gen.U(1)), {1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}} {
				bN := bN
				fixed = append(fixed, vt.Fixed{Name: fmt.Sprintf("%s-bN%d-delta%d", name, bN, k), Run: every(spec, bN, d, func() gkr.Verifier {
					return gkr.NewVerifier(bN, real.Circuit(spec))
				})})
			}
		}
	}
	vt.Main(vt.Check{
		Property: "C03",
		Scale:    2,
		Rule: "Simulated: a proof built backwards (random round polynomials, claims and inputs solved so that every check of the protocol holds) except for one chosen check, or two with related differences (opposite, equal, or that compensate each other in the combination by the challenge of the claims), off by a non-zero difference often confined to one limb, or with a wrong value related to the right one (null, opposite, double, p(0) or p(1) alone, the claim of the other side); the free values are random, sparse or all zero and the polynomials have various numbers of coefficients; the reference verifier confirms that exactly these checks fail. " +
			"Mutated: an honest proof with one or two changes of coefficients, rounds, claims or layers, non-trivial if the reference verifier finds a failing check. The verifier must reject all of these, and accept the simulated and modified proofs for which all the checks hold.",
		Assumptions: []string{"the challenges of the reference verifier are recomputed with a pinned copy of MiMC; the initial point is the one returned by GetInitialQPrimeAndQ"},
		Families: []vt.Family{
			{Name: "everysite", Fixed: fixed},
			{Name: "simulated", Quick: 40000, Thorough: 300000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				spec := gen.Solvable(gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 4, MaxBG: 2, Kinds: gen.AffineKinds}, "c"))
				bN := gen.IntU(t, 0, 4, "bN")
				simulate(t, c, spec, func() gkr.Verifier { return gkr.NewVerifier(bN, real.Circuit(spec)) }, bN)
			}},
			{Name: "deep", Quick: 1600, Thorough: 20000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				spec := gen.Solvable(gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 20, MaxBG: 1, Kinds: gen.AffineKinds}, "c"))
				bN := gen.IntU(t, 0, 2, "bN")
				simulate(t, c, spec, func() gkr.Verifier { return gkr.NewVerifier(bN, real.Circuit(spec)) }, bN)
			}},
			{Name: "huge", Quick: 48, Thorough: 800, Shards: 8, MinPerShard: 1, Prop: func(t *rapid.T, c *vt.C) {
				spec := gen.Solvable(gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 2, MaxBG: 1, Kinds: gen.AffineKinds}, "c"))
				bN := gen.IntU(t, 16, 17, "bN")
				simulate(t, c, spec, func() gkr.Verifier { return gkr.NewVerifier(bN, real.Circuit(spec)) }, bN)
			}},
			{Name: "tall", Quick: 1600, Thorough: 30000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				spec := gen.Solvable(gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 3, MaxBG: 1, Kinds: gen.AffineKinds}, "c"))
				bN := gen.IntU(t, 5, 10, "bN")
				simulate(t, c, spec, func() gkr.Verifier { return gkr.NewVerifier(bN, real.Circuit(spec)) }, bN)
			}},
			{Name: "wide", Quick: 1600, Thorough: 30000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				spec := gen.Solvable(gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 2, MaxBG: gen.IntU(t, 3, 5, "maxbg"), MaxTable: 13, Kinds: gen.AffineKinds}, "c"))
				bN := gen.IntU(t, 0, 2, "bN")
				simulate(t, c, spec, func() gkr.Verifier { return gkr.NewVerifier(bN, real.Circuit(spec)) }, bN)
			}},
			{Name: "gates", Quick: 320, Thorough: 6000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				spec := gen.Solvable(gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 2, MaxBG: 1, MinGates: 30, MaxGates: 300, Kinds: gen.AffineKinds}, "c"))
				bN := gen.IntU(t, 0, 3, "bN")
				simulate(t, c, spec, func() gkr.Verifier { return gkr.NewVerifier(bN, real.Circuit(spec)) }, bN)
			}},
			{Name: "mimc", Quick: 160, Thorough: 2000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				bN := gen.IntU(t, 0, 2, "bN")
				simulate(t, c, mimcSpec, func() gkr.Verifier { return gkr.NewVerifier(bN, examples.CreateMimcCircuit()) }, bN)
			}},
			{Name: "mutated", Quick: 24000, Thorough: 150000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				cs := cases.Draw(t, gen.CircuitOpts{MaxLayers: 3, MaxBG: 2}, 3)
				mutated(t, c, cs)
			}},
		},
	})
}
