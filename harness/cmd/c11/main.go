// C11: parallel proving does not depend on chunks, workers or schedule
package main

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"
	"verif/cases"
	"verif/gen"
	"verif/real"
	"verif/ref"
	"verif/refgkr"
	"verif/sc"
	"verif/sched"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// cores draws a number of workers around the number of chunks
func cores(t *rapid.T, chunks int, label string) int {
	switch gen.IntU(t, 0, 5, label+".kind") {
	case 0:
		return 1
	case 1:
		return chunks
	case 2:
		return chunks + 1
	case 3:
		return max(1, chunks-1)
	case 4:
		return gen.IntU(t, 1, 3*chunks+2, label)
	}
	return gen.NCore(t, label)
}

// many: with many chunks
func many(t *rapid.T, c *vt.C) {
	i := sc.Draw(t, gen.IntU(t, 6, 10, "maxbN"), 1)
	chunks := 1 << max(0, i.BN-gen.IntU(t, 0, 2, "logsize"))
	compare(t, c, i, chunks)
}

// wide: with many values in each instance
func wide(t *rapid.T, c *vt.C) {
	i := sc.Draw(t, 3, gen.IntU(t, 3, 6, "maxbG"))
	compare(t, c, i, 1<<gen.IntU(t, 0, i.BN, "logchunks"))
}

func sum(t *rapid.T, c *vt.C, maxBN, maxBG int, race bool) {
	i := sc.Draw(t, maxBN, maxBG)
	compare(t, c, i, 1<<gen.IntU(t, 0, i.BN, "logchunks"))
}

func compare(t *rapid.T, c *vt.C, i *sc.Inst, chunks int) {
	n1, n2 := cores(t, chunks, "claimcores"), cores(t, chunks, "cores")
	plan := sched.Draw(t)
	if plan.Kind == 3 && i.BG > 3 {
		plan.Kind = 0
	}
	c.Case(t, i.Nontrivial() && chunks > 1, func() string {
		return fmt.Sprintf("chunks=%d cores=%d/%d %v %v", chunks, n1, n2, plan, i)
	})
	c.Label("chunks=%d", chunks)
	c.LabelIf(n2 < chunks, "fewer workers than chunks")
	c.LabelIf(n2 > chunks, "more workers than chunks")
	c.LabelIf(n2 == 1, "one worker")
	c.Label("schedule kind %d", plan.Kind)
	s := i.Single()
	defer plan.Start()()
	before := sched.Goroutines()
	equal(t, s, i.Multi(chunks, plan.Wrap), chunks, n1, n2)
	sched.Settled(t, before)
}

// samples: the instances that the package gives as examples
func samples(t *rapid.T, c *vt.C) {
	bN := gen.IntU(t, 0, 10, "bN")
	chunks := 1 << gen.IntU(t, 0, bN, "logchunks")
	n1, n2 := cores(t, chunks, "claimcores"), cores(t, chunks, "cores")
	c.Case(t, chunks > 1, func() string {
		return fmt.Sprintf("example instance bN=%d chunks=%d cores=%d/%d", bN, chunks, n1, n2)
	})
	equal(t, sumcheck.InitializeProverForTests(bN), sumcheck.InitializeMultiThreadedProver(bN, chunks), chunks, n1, n2)
}

func equal(t vt.T, s sumcheck.SingleThreadedProver, m sumcheck.MultiThreadedProver, chunks, n1, n2 int) {
	claim := s.GetClaim()
	proof, qPrime, qL, qR, finals := s.Prove()
	if got := m.GetClaim(n1); got != claim {
		t.Fatalf("claim %v with %d chunks and %d workers, %v on a single thread", gen.S(got), chunks, n1, gen.S(claim))
	}
	p, mPrime, mL, mR, mFinals := m.Prove(n2)
	for _, x := range []struct {
		name string
		got  []fr.Element
		want []fr.Element
	}{{"left challenges", mL, qL}, {"right challenges", mR, qR}, {"instance challenges", mPrime, qPrime}, {"final claims", mFinals, finals}} {
		if !gen.Equal(x.got, x.want) {
			t.Fatalf("%s with %d chunks and %d workers: %v, on a single thread: %v", x.name, chunks, n2, gen.Show(x.got), gen.Show(x.want))
		}
	}
	if !refgkr.EqualSumcheck(p, proof) {
		t.Fatalf("the proof with %d chunks and %d workers is not the one of a single thread", chunks, n2)
	}
}

func whole(t *rapid.T, c *vt.C, maxBN int) {
	o := gen.CircuitOpts{MaxLayers: 3, MaxBG: 2}
	k := cases.Draw(t, o, maxBN)
	k.NCore, k.PCore = cores(t, k.Chunks, "ncores"), cores(t, k.Chunks, "pcores")
	plan := sched.Draw(t)
	c.Case(t, k.Nontrivial() && k.Chunks > 1, func() string { return plan.String() + " " + k.String() })
	c.LabelIf(k.PCore < k.Chunks, "fewer workers than chunks")
	c.LabelIf(k.PCore > k.Chunks, "more workers than chunks")
	// Alone: unsplit, with one worker
	alone := *k
	alone.Chunks, alone.NCore, alone.PCore = 1, 1, 1
	a1, p1 := alone.Prove()
	defer plan.Start()()
	before := sched.Goroutines()
	k.Circuit = real.Wrap(k.Spec, plan.Wrap)
	a2, p2 := k.Prove()
	same(t, a1, p1, a2, p2, k)
	sched.Settled(t, before)
}

func same(t vt.T, a1 circuit.Assignment, p1 gkr.Proof, a2 circuit.Assignment, p2 gkr.Proof, k *cases.Case) {
	if len(a1.Values) != len(a2.Values) {
		t.Fatalf("%d layers of values instead of %d", len(a2.Values), len(a1.Values))
	}
	for l := range a1.Values {
		if len(a2.Values[l]) != k.Chunks {
			t.Fatalf("%d chunks in layer %d, expected %d", len(a2.Values[l]), l, k.Chunks)
		}
		if !gen.Equal(gen.Unchunk(a1.Values[l]), gen.Unchunk(a2.Values[l])) {
			t.Fatalf("layer %d of the assignment with %d chunks and %d workers is not the one of a single chunk and worker", l, k.Chunks, k.NCore)
		}
	}
	if !refgkr.Equal(p1, p2) {
		t.Fatalf("the proof with %d chunks and %d workers is not the one of a single chunk and worker", k.Chunks, k.PCore)
	}
}

// large runs wide batches, beyond the thresholds of parallel processing
func large(t *rapid.T, c *vt.C) {
	k := &cases.Case{BN: gen.IntU(t, 11, 14, "bN")}
	k.Spec = gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 2, MaxBG: 1, Kinds: gen.NativeKinds}, "c")
	k.Chunks = 1 << gen.IntU(t, 0, 6, "logchunks")
	k.NCore, k.PCore = cores(t, k.Chunks, "ncores"), cores(t, k.Chunks, "pcores")
	k.Flat = gen.RandVec(t, 1<<(k.BN+k.BGIn()), "in")
	plan := sched.Draw(t)
	if plan.Kind == 3 {
		plan.Kind = 0
	}
	c.Case(t, true, func() string { return plan.String() + " " + k.String() })
	k.Finish()
	alone := *k
	alone.Chunks, alone.NCore, alone.PCore = 1, 1, 1
	a1, p1 := alone.Prove()
	defer plan.Start()()
	k.Circuit = real.Wrap(k.Spec, plan.Wrap)
	a2, p2 := k.Prove()
	same(t, a1, p1, a2, p2, k)
}

func mimc(t *rapid.T, c *vt.C) {
	k := &cases.Case{Spec: cases.Mimc(), BN: gen.IntU(t, 0, 4, "bN")}
	k.Chunks = 1 << gen.IntU(t, 0, k.BN, "logchunks")
	k.NCore, k.PCore = cores(t, k.Chunks, "ncores"), cores(t, k.Chunks, "pcores")
	k.Flat = gen.Vec(t, 2<<k.BN, "in")
	procs := gen.IntU(t, 1, 8, "procs")
	c.Case(t, k.Chunks > 1, func() string {
		return fmt.Sprintf("MiMC bN=%d chunks=%d cores=%d/%d procs=%d %v", k.BN, k.Chunks, k.NCore, k.PCore, procs, gen.Show(k.Flat))
	})
	k.Circuit = examples.CreateMimcCircuit()
	alone := *k
	alone.Chunks, alone.NCore, alone.PCore = 1, 1, 1
	a1, p1 := alone.Prove()
	defer (&sched.Plan{Procs: procs}).Start()()
	before := sched.Goroutines()
	a2, p2 := k.Prove()
	same(t, a1, p1, a2, p2, k)
	sched.Settled(t, before)
}

func main() {
	_ = ref.MimcRounds
	vt.Main(vt.Check{
		Property: "C11",
		Scale:    2,
		Rule: "A case is a sumcheck instance, or a circuit with a batch of inputs, with a number of chunks, numbers of workers around the number of chunks, a number of threads and a perturbation of the schedule from inside the gates (none, at random, some values slow, yield at each evaluation). " +
			"All the results must be those of the single-threaded prover on the unsplit tables, no goroutine may remain; a part of the cases runs under the race detector. It is non-trivial if there are several chunks and the instance is not trivial.",
		Assumptions: []string{"schedules are sampled", "the number of chunks is a power of two that divides the number of instances, there is at least one worker"},
		Families: []vt.Family{
			{Name: "sumcheck", Quick: 48000, Thorough: 1500000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) { sum(t, c, 6, 2, false) }},
			{Name: "many", Quick: 640, Thorough: 20000, Shards: 8, Prop: many},
			{Name: "huge", Quick: 48, Thorough: 800, Shards: 8, MinPerShard: 1, Prop: func(t *rapid.T, c *vt.C) {
				i := sc.DrawFrom(t, 15, 17, 0)
				compare(t, c, i, 1<<max(0, i.BN-gen.UpTo(t, 0, 1, 12, "logsize")))
			}},
			{Name: "wide", Quick: 640, Thorough: 10000, Shards: 8, Prop: wide},
			{Name: "samples", Quick: 320, Thorough: 8000, Shards: 8, Prop: samples},
			{Name: "gkr", Quick: 14000, Thorough: 300000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) { whole(t, c, 5) }},
			{Name: "mimc", Quick: 320, Thorough: 8000, Shards: 8, MinPerShard: 3, Prop: mimc},
			{Name: "large", Quick: 16, Thorough: 400, Shards: 8, MinPerShard: 2, Prop: large},
			{Name: "race-sumcheck", Quick: 2400, Thorough: 60000, Shards: 8, Race: true, Prop: func(t *rapid.T, c *vt.C) { sum(t, c, 4, 1, true) }},
			{Name: "race-gkr", Quick: 1200, Thorough: 30000, Shards: 8, Race: true, Prop: func(t *rapid.T, c *vt.C) { whole(t, c, 4) }},
		},
	})
}
