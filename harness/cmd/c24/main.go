// C24: repeated use retains nothing: neither memory nor goroutines
package main

import (
	"fmt"
	"runtime"
	"strings"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	"gkr-mimc/polynomial"
	sgkr "gkr-mimc/snark/gkr"
	shash "gkr-mimc/snark/hash"
	spoly "gkr-mimc/snark/polynomial"
	ssum "gkr-mimc/snark/sumcheck"
	"gkr-mimc/sumcheck"
	"verif/gen"
	"verif/real"
	"verif/ref"
	"verif/refgkr"
	"verif/sched"
	"verif/snk"
	"verif/vt"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

type bkt = polynomial.BookKeepingTable
type variable = frontend.Variable

// op is an operation: f executes it on data drawn from s, different each time
type op struct {
	name string
	f    func(s *gen.SplitMix)
}

// vec is random, constant, sparse, or has repeated values
func vec(s *gen.SplitMix, n int) []fr.Element {
	r := make([]fr.Element, n)
	kind := s.Next() % 8
	x := s.Fr()
	for i := range r {
		switch {
		case kind == 0:
			r[i] = x
		case kind == 1:
			if s.Next()%4 == 0 {
				r[i] = s.Fr()
			}
		case kind == 2:
			if s.Next()%4 == 0 {
				x = s.Fr()
			}
			r[i] = x
		default:
			r[i] = s.Fr()
		}
	}
	return r
}

func table(s *gen.SplitMix, n int) bkt { return polynomial.NewBookKeepingTable(vec(s, 1<<n)) }

func chunks(s *gen.SplitMix, n, nChunks int) []bkt {
	return polynomial.AsChunkedBookKeepingTable(gen.Chunk(vec(s, 1<<n), nChunks))
}

// world is what the operations use again and again
type world struct {
	spec   ref.Circuit
	circ   circuit.Circuit
	bN     int
	chunks int
	core   int
	fresh  bool // other gates and objects at each repetition
	shared *batch
}

// batch is a batch with the objects made from it
type batch struct {
	in, out [][]fr.Element
	a       circuit.Assignment
	p       gkr.Prover
	v       gkr.Verifier
	proof   gkr.Proof
}

func (w *world) circuit(s *gen.SplitMix) circuit.Circuit {
	if !w.fresh {
		return w.circ
	}
	// The same wires with other constants
	spec := ref.Circuit{}
	for _, l := range w.spec.Layers {
		n := ref.Layer{Wires: l.Wires}
		for _, g := range l.Gates {
			if !g.A.IsZero() {
				g.A = s.Fr()
			}
			n.Gates = append(n.Gates, g)
		}
		spec.Layers = append(spec.Layers, n)
	}
	return real.Circuit(spec)
}

func (w *world) inputs(s *gen.SplitMix) [][]fr.Element {
	return gen.Chunk(vec(s, 1<<(w.bN+w.spec.Layers[0].BGIn())), w.chunks)
}

func (w *world) batch(s *gen.SplitMix) *batch {
	c := w.circuit(s)
	b := &batch{in: w.inputs(s)}
	b.a = c.Assign(b.in, w.core)
	b.out = b.a.Values[len(b.a.Values)-1]
	b.p = gkr.NewProver(c, b.a)
	b.v = gkr.NewVerifier(w.bN, c)
	b.proof = b.p.Prove(w.core)
	return b
}

func (w *world) ops() []op {
	n, c, core := w.bN, w.chunks, w.core
	get := func(s *gen.SplitMix) *batch {
		if w.fresh {
			return w.batch(s)
		}
		return w.shared
	}
	layer := func(s *gen.SplitMix) int { return int(s.Next() % uint64(len(w.spec.Layers))) }
	gates := func(s *gen.SplitMix) []circuit.Gate {
		return []circuit.Gate{circuit.AddGate{}, circuit.MulGate{}, circuit.NewCipherGate(s.Fr())}
	}
	sc := func(s *gen.SplitMix) (vL, vR, eq []bkt, statics []bkt) {
		return chunks(s, n+1, c), chunks(s, n+1, c), chunks(s, n, c), []bkt{table(s, 2), table(s, 2), table(s, 2)}
	}
	return []op{
		{"assign", func(s *gen.SplitMix) {
			x := w.circuit(s)
			a := x.Assign(w.inputs(s), core)
			a.LayerAsBKTNoCopy(0)
			a.LayerAsBKTWithCopy(len(a.Values)-1, core)
		}},
		{"prove and verify", func(s *gen.SplitMix) {
			b := w.batch(s)
			if !b.v.Verify(b.proof, b.in, b.out) {
				panic("honest proof rejected")
			}
		}},
		{"prove", func(s *gen.SplitMix) { b := get(s); b.p.Prove(core) }},
		{"verify", func(s *gen.SplitMix) { b := get(s); b.v.Verify(b.proof, b.in, b.out) }},
		{"verify a wrong statement", func(s *gen.SplitMix) {
			b := get(s)
			out := gen.Clone2(b.out)
			out[0][0] = s.Fr()
			b.v.Verify(b.proof, b.in, out)
		}},
		{"verify a wrong proof", func(s *gen.SplitMix) {
			b := get(s)
			q := refgkr.Clone(b.proof)
			switch k := int(s.Next() % uint64(len(q.ClaimsLeft))); s.Next() % 4 {
			case 0:
				q.ClaimsLeft[k] = s.Fr()
			case 1:
				q.ClaimsRight[k] = s.Fr()
			default:
				if ps := q.SumcheckProofs[k].PolyCoeffs; len(ps) > 0 {
					p := ps[s.Next()%uint64(len(ps))]
					p[s.Next()%uint64(len(p))] = s.Fr()
				}
			}
			b.v.Verify(q, b.in, b.out)
			q.SumcheckProofs = q.SumcheckProofs[1:]
			b.v.Verify(q, b.in, b.out)
		}},
		{"sumchecks of the layers", func(s *gen.SplitMix) {
			b := get(s)
			l := layer(s)
			bOut, bIn := w.spec.Layers[l].BGOut(), w.spec.Layers[l].BGIn()
			if l == len(w.spec.Layers)-1 {
				p := b.p.InitialRoundSumcheckProver(vec(s, n), vec(s, bOut), core)
				p.GetClaim(core)
			} else {
				p := b.p.IntermediateRoundsSumcheckProver(l, vec(s, n), vec(s, bOut), vec(s, bOut), s.Fr(), s.Fr(), core)
				p.GetClaim(core)
			}
			_ = bIn
		}},
		{"initial points", func(s *gen.SplitMix) { gkr.GetInitialQPrimeAndQ(int(s.Next()%12), int(s.Next()%5)) }},
		{"layers and their wiring", func(s *gen.SplitMix) {
			x := w.circuit(s)
			l := layer(s)
			x.Layers[l].GetStaticTable(vec(s, w.spec.Layers[l].BGOut()))
			if l == 0 {
				x.Layers[0].Evaluate(w.inputs(s), core)
			}
			circuit.NewLayer(x.Layers[l].Wires)
			circuit.Gates(x.Layers[l].Wires)
			circuit.BGInputs(x.Layers[l].Wires)
			circuit.BGOutputs(x.Layers[l].Wires)
		}},
		{"mimc circuit", func(s *gen.SplitMix) { examples.CreateMimcCircuit() }},
		{"gates", func(s *gen.SplitMix) {
			x, y, z := s.Fr(), s.Fr(), s.Fr()
			for _, g := range append(gates(s), circuit.CopyGate{}) {
				many := vec(s, 9)
				g.Eval(&z, &x, &y)
				g.EvalManyVL(many, vec(s, 9), &y)
				g.EvalManyVR(many, &x, vec(s, 9))
				g.Degrees()
				_ = g.ID()
			}
			circuit.EvaluateCombinator(&x, &y, &z, gates(s), vec(s, 3))
		}},
		{"multi-threaded sumcheck", func(s *gen.SplitMix) {
			vL, vR, eq, st := sc(s)
			p := sumcheck.NewMultiThreadedProver(vL, vR, eq, gates(s), st)
			claim := p.GetClaim(core)
			proof, _, _, _, _ := p.Prove(core)
			if ok, _, _, _, _ := (sumcheck.Verifier{}).Verify(claim, proof, n, 1); !ok {
				panic("honest sumcheck proof rejected")
			}
		}},
		{"single-threaded sumcheck", func(s *gen.SplitMix) {
			p := sumcheck.NewSingleThreadedProver(table(s, n+1), table(s, n+1), table(s, n), gates(s), []bkt{table(s, 2), table(s, 2), table(s, 2)})
			claim := p.GetClaim()
			proof, _, _, _, _ := p.Prove()
			if ok, _, _, _, _ := (sumcheck.Verifier{}).Verify(claim, proof, n, 1); !ok {
				panic("honest sumcheck proof rejected")
			}
		}},
		{"sumcheck step by step", func(s *gen.SplitMix) {
			p := sumcheck.NewSingleThreadedProver(table(s, n+1), table(s, n+1), table(s, n), gates(s), []bkt{table(s, 2), table(s, 2), table(s, 2)})
			p.GetEvalsOnHL()
			p.FoldHL(s.Fr())
			p.GetEvalsOnHR()
			p.FoldHR(s.Fr())
			if n > 0 {
				p.GetEvalsOnHPrime()
				p.FoldHPrime(s.Fr())
			}
		}},
		{"example sumchecks", func(s *gen.SplitMix) {
			p := sumcheck.InitializeProverForTests(n)
			p.GetClaim()
			m := sumcheck.InitializeMultiThreadedProver(n, c)
			m.Prove(core)
		}},
		{"rejected sumchecks", func(s *gen.SplitMix) {
			var v sumcheck.Verifier
			x := sumcheck.Proof{}
			// Consistent but for one round, or all of them random
			claim, from := s.Fr(), int(s.Next()%5)
			first := claim
			for k := 0; k < 4; k++ {
				p := vec(s, 2+int(s.Next()%4))
				if k < from { // 2 p_0 + p_1 + ... = claim
					p[0] = fr.Element{}
					p[1] = ref.Sub(claim, ref.Sum(p[2:]))
				}
				x.PolyCoeffs = append(x.PolyCoeffs, p)
				claim = ref.PolyEval(p, ref.Mimc(p))
			}
			ok, _, _, _, _ := v.Verify(first, x, 2, 1)
			if ok != (from == 4) {
				panic(fmt.Sprintf("%d consistent rounds out of 4: %v", from, ok))
			}
			if s.Next()%4 == 0 {
				x.PolyCoeffs[3] = nil
				v.Verify(first, x, 2, 1)
			}
		}},
		{"tables", func(s *gen.SplitMix) {
			a, b, d := table(s, n+2), table(s, n+2), table(s, n+2)
			a.Evaluate(vec(s, n+2))
			a.EvaluateLeftAndRight(vec(s, n), vec(s, 2), vec(s, 2))
			e := a.DeepCopy()
			e.Fold(s.Fr())
			e.InterleavedChunk(0, 2)
			e.FunctionEvals()
			_ = e.String()
			d.Add(a, b)
			d.Sub(a, b, core)
			d.Mul(s.Fr(), a, core)
			polynomial.LinearCombinationOfBookKeepingTables(a, b, s.Fr(), s.Fr())
		}},
		{"equality", func(s *gen.SplitMix) {
			q := vec(s, n)
			polynomial.GetFoldedEqTable(q)
			polynomial.GetChunkedEqTable(q, c, core)
			polynomial.EvalEq(q, vec(s, n))
		}},
		{"chunked evaluation", func(s *gen.SplitMix) {
			polynomial.EvaluateChunked(chunks(s, n+1, c), vec(s, n+1))
			polynomial.EvaluateMixedChunked(chunks(s, n+2, c), vec(s, n), vec(s, 2), vec(s, 2))
		}},
		{"univariate polynomials", func(s *gen.SplitMix) {
			k := 1 + int(s.Next()%12)
			polynomial.EvaluatePolynomial(vec(s, k), s.Fr())
			polynomial.InterpolateOnRange(vec(s, k))
			polynomial.GetLagrangePolynomial(k)
			polynomial.LagrangeCoefficient(1 + int(s.Next()%24))
		}},
		{"hashes", func(s *gen.SplitMix) {
			m := vec(s, int(s.Next()%40))
			hash.MimcHash(m)
			common.GetChallenge(m)
			for _, h := range []*hash.PoseidonHasher{&hash.PoseidonT2, &hash.PoseidonT4, &hash.PoseidonT8} {
				h.Hash(m)
			}
			for _, h := range []*hash.GMimcHasher{&hash.GMimcT2, &hash.GMimcT4, &hash.GMimcT8} {
				h.Hash(m)
			}
			x := s.Fr()
			hash.MimcUpdateInplace(&x, s.Fr())
			hash.MimcPermutationInPlace(&x, s.Fr())
			hash.GenerateMDSMatrix(2 + int(s.Next()%8))
		}},
		{"helpers", func(s *gen.SplitMix) {
			m := vec(s, 3)
			common.FrSliceToString(m)
			common.PrettyStringFr(m[0])
			common.FrToGenericArray(m)
			common.IntSliceToString([]int{int(s.Next() >> 1)})
			common.UintSliceToString([]uint{uint(s.Next())})
			common.Uint64ToFr(s.Next())
			common.RandomFrArray(3)
			common.RandomFrDoubleSlice(2, 3)
			common.IntoChunkRanges(core, int(s.Next()%100000))
			common.Log2Ceil(int(s.Next()%100000) + 1)
			common.Log2Floor(int(s.Next()%100000) + 1)
		}},
		{"semaphores", func(s *gen.SplitMix) {
			x := common.NewSemaphore(1 + int(s.Next()%8))
			x.Acquire()
			x.Release()
			x.Close()
		}},
	}
}

// Every allocation is recorded by the profiler of the runtime
var _ = func() int { runtime.MemProfileRate = 1; return 0 }()

// own are the functions of the runtime that make records which it keeps and uses
// again (of goroutines, of goroutines waiting for a channel, of threads)
var own = map[string]bool{"runtime.acquireSudog": true, "runtime.newproc": true, "runtime.newproc1": true, "runtime.malg": true,
	"runtime.allocm": true, "runtime.newdefer": true, "runtime.newm": true}

// live is the memory allocated by the library that is still in use, in total and
// for each function of the library
func live() (int, map[string]int) {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	n, _ := runtime.MemProfile(nil, false)
	var r []runtime.MemProfileRecord
	for ok := false; !ok; {
		r = make([]runtime.MemProfileRecord, n+100)
		n, ok = runtime.MemProfile(r, false)
	}
	total, where := 0, map[string]int{}
	for i := range r[:n] {
		if f := function(r[i].Stack()); f != "" {
			where[f] += int(r[i].InUseBytes())
			total += int(r[i].InUseBytes())
		}
	}
	return total, where
}

// function returns the function of the library that allocates, if any
func function(stack []uintptr) string {
	frames := runtime.CallersFrames(stack)
	for more := true; more; {
		var f runtime.Frame
		f, more = frames.Next()
		if own[f.Function] {
			return ""
		}
		if strings.HasPrefix(f.Function, "gkr-mimc/") {
			return f.Function
		}
	}
	return ""
}

const windows = 3

// grows repeats operations, each time as many times as before in total, and looks
// at the memory that remains in use after them: it must not grow with the number
// of repetitions
func grows(t vt.T, c *vt.C, seed uint64, reps int, ops []op) {
	s := gen.SplitMix(seed)
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	what := strings.Join(names, ", ")
	run := func(n int) {
		for i := 0; i < n; i++ {
			for _, o := range ops {
				o.f(&s)
			}
		}
	}
	before := sched.Goroutines()
	run(reps)
	sched.Settled(t, before)
	m := make([]int, 1, windows+1)
	var first, last map[string]int
	m[0], first = live()
	for i := 0; i < windows; i++ {
		n := reps << i
		run(n)
		sched.Settled(t, before)
		var x int
		x, last = live()
		m = append(m, x)
		if m[i+1]-m[i] <= 64+4*n {
			return
		}
		c.Label("%d more series", i+1)
	}
	where := ""
	for f, x := range last {
		if d := x - first[f]; d > 0 {
			where += fmt.Sprintf(" %s: %d bytes", f, d)
		}
	}
	t.Fatalf("the memory in use grows each time the number of repetitions of (%s) doubles: %v bytes after 1, 2, 4, 8 times %d repetitions, in%s", what, m, reps, where)
}

func draw(t *rapid.T, c *vt.C) {
	w := &world{spec: gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 3, MaxBG: 2, Kinds: gen.NativeKinds}, "c"),
		bN: gen.UpTo(t, 0, 3, 6, "bN"), core: gen.IntU(t, 1, 5, "core"), fresh: rapid.Bool().Draw(t, "fresh")}
	w.chunks = 1 << gen.IntU(t, 0, w.bN, "logchunks")
	w.circ = real.Circuit(w.spec)
	seed := rapid.Uint64().Draw(t, "seed")
	s := gen.SplitMix(seed)
	w.shared = w.batch(&s)
	all := w.ops()
	var ops []op
	var names []string
	for k := gen.IntU(t, 1, 3, "nops"); k > 0; k-- {
		o := all[gen.IntU(t, 0, len(all)-1, fmt.Sprintf("op%d", k))]
		ops = append(ops, o)
		names = append(names, o.name)
		c.Label("%s", o.name)
	}
	reps := gen.IntU(t, 15, 45, "reps")
	c.LabelIf(w.fresh, "other circuits at each repetition")
	c.Case(t, true, func() string {
		return fmt.Sprintf("%d repetitions of %s, bN=%d chunks=%d cores=%d fresh=%v seed=%d %v", reps, strings.Join(names, ", "), w.bN, w.chunks, w.core, w.fresh, seed, w.spec)
	})
	grows(t, c, seed, reps, ops)
	runtime.KeepAlive(w)
}

func mimc(t *rapid.T, c *vt.C) {
	bN := gen.IntU(t, 0, 3, "bN")
	nChunks := 1 << gen.IntU(t, 0, bN, "logchunks")
	core := gen.IntU(t, 1, 5, "core")
	seed := rapid.Uint64().Draw(t, "seed")
	share := rapid.Bool().Draw(t, "same circuit")
	reps := 4
	c.Case(t, true, func() string {
		return fmt.Sprintf("%d repetitions of proving and verifying MiMC, bN=%d chunks=%d cores=%d same circuit=%v seed=%d", reps, bN, nChunks, core, share, seed)
	})
	circ := examples.CreateMimcCircuit()
	grows(t, c, seed, reps, []op{{"MiMC proof", func(s *gen.SplitMix) {
		if !share {
			circ = examples.CreateMimcCircuit()
		}
		in := gen.Chunk(vec(s, 2<<bN), nChunks)
		a := circ.Assign(in, core)
		p := gkr.NewProver(circ, a)
		v := gkr.NewVerifier(bN, circ)
		if !v.Verify(p.Prove(core), in, a.Values[len(a.Values)-1]) {
			panic("honest proof rejected")
		}
	}}})
	runtime.KeepAlive(&circ)
}

// snark compiles gadgets and assigns their inputs
func snark(t *rapid.T, c *vt.C) {
	n := gen.IntU(t, 1, 3, "n")
	kind := gen.IntU(t, 0, 4, "kind")
	seed := rapid.Uint64().Draw(t, "seed")
	name := []string{"hash", "equality", "univariate", "multilinear", "assignments"}[kind]
	c.Case(t, true, func() string { return fmt.Sprintf("repeated %s of size %d in a SNARK, seed=%d", name, n, seed) })
	c.Label("%s", name)
	gadget := func(nX, nY int, f snk.Func) {
		if _, err := snk.Compile(nX, nY, f); err != nil {
			t.Fatalf("does not compile: %v", err)
		}
	}
	desc := sgkr.CreateMimcCircuit()
	grows(t, c, seed, 6, []op{{name, func(s *gen.SplitMix) {
		k := s.Fr()
		switch kind {
		case 0:
			gadget(n, 1, func(cs *frontend.ConstraintSystem, a []variable) []variable {
				return []variable{shash.MimcHash(cs, append(a, cs.Constant(k))...)}
			})
		case 1:
			gadget(2*n, 1, func(cs *frontend.ConstraintSystem, a []variable) []variable {
				return []variable{spoly.EqEval(cs, a[:n], a[n:])}
			})
		case 2:
			gadget(n+1, 2, func(cs *frontend.ConstraintSystem, a []variable) []variable {
				u := spoly.NewUnivariate(a[:n:n])
				return []variable{u.Eval(cs, cs.Mul(a[n], k)), u.ZeroAndOne(cs)}
			})
		case 3:
			gadget(n+1<<n, 1, func(cs *frontend.ConstraintSystem, a []variable) []variable {
				m := spoly.NewMultilinearByValues(append([]variable{}, a[n:]...))
				return []variable{m.Eval(cs, a[:n])}
			})
		case 4:
			m := spoly.AllocateMultilinear(n)
			m.AssignFromChunkedBKT(gen.Chunk(vec(s, 1<<n), 2))
			u := spoly.AllocateUnivariate(n)
			u.Assign(vec(s, n+1))
			p := ssum.AllocateProof(1, 1, 2, 3, 4)
			p.Assign(sumcheck.Proof{PolyCoeffs: [][]fr.Element{vec(s, 3), vec(s, 4), vec(s, 5)}})
			sgkr.AllocateProof(n, desc)
			sgkr.CreateMimcCircuit()
		}
	}}})
}

func main() {
	vt.Main(vt.Check{
		Property: "C24",
		Scale:    2,
		Rule: "A case is a history: one to three operations (of 22 kinds that cover the exported functions of each package, on shared or on new circuits, batches, provers and verifiers) repeated 15 to 45 times with new data, then as many times again, and again, up to 8 times as many; or proofs of MiMC, or gadgets compiled in a SNARK. " +
			"The memory in use after the operations (after garbage collections) must not grow each time the number of repetitions doubles, by more than 4 bytes for each repetition and 64 bytes, and no goroutine may remain. All cases are non-trivial.",
		Assumptions: []string{"the memory profile of the runtime, with every allocation recorded, is exact; records that the runtime keeps for itself (goroutines, threads, waiting queues) are not counted"},
		Families: []vt.Family{
			{Name: "native", Quick: 240, Thorough: 8000, Shards: 8, Prop: draw},
			{Name: "mimc", Quick: 8, Thorough: 200, Shards: 8, MinPerShard: 1, Prop: mimc},
			{Name: "snark", Quick: 24, Thorough: 400, Shards: 8, MinPerShard: 3, Prop: snark},
		},
	})
}
