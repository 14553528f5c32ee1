// C23: costs: short proofs, succinct verification, linear proving
package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"

	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	sgkr "gkr-mimc/snark/gkr"
	shash "gkr-mimc/snark/hash"
	"gkr-mimc/snark/polynomial"
	"verif/cases"
	"verif/gen"
	"verif/real"
	"verif/ref"
	"verif/snk"
	"verif/vt"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

type variable = frontend.Variable

// counter counts the evaluations of gates
type counter struct{ n int64 }

func (c *counter) reset()   { atomic.StoreInt64(&c.n, 0) }
func (c *counter) get() int { return int(atomic.LoadInt64(&c.n)) }

type gate struct {
	circuit.Gate
	c *counter
}

func (g gate) Eval(res, vL, vR *fr.Element) {
	atomic.AddInt64(&g.c.n, 1)
	g.Gate.Eval(res, vL, vR)
}
func (g gate) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	atomic.AddInt64(&g.c.n, int64(len(vLs)))
	g.Gate.EvalManyVL(res, vLs, vR)
}
func (g gate) EvalManyVR(res []fr.Element, vL *fr.Element, vRs []fr.Element) {
	atomic.AddInt64(&g.c.n, int64(len(vRs)))
	g.Gate.EvalManyVR(res, vL, vRs)
}

// costs of a batch
type costs struct {
	bN                                   int
	assign, prove, verify                int // evaluations of gates
	assignBytes, proveBytes, verifyBytes int // allocated memory
}

func allocated() int {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.TotalAlloc)
}

// measure assigns, proves and verifies, and checks the size of the proof
func measure(t vt.T, spec ref.Circuit, bN, chunks, nCore int, seed uint64) costs {
	k := &cases.Case{Spec: spec, BN: bN, Chunks: chunks, NCore: nCore, PCore: nCore}
	s := gen.SplitMix(seed)
	k.Flat = make([]fr.Element, 1<<(bN+k.BGIn()))
	for i := range k.Flat {
		k.Flat[i] = s.Fr()
	}
	cnt := &counter{}
	circ := real.Wrap(spec, func(g circuit.Gate) circuit.Gate { return gate{g, cnt} })
	r := costs{bN: bN}
	inputs := k.Inputs()
	before := allocated()
	a := circ.Assign(inputs, nCore)
	r.assignBytes = allocated() - before
	r.assign = cnt.get()
	cnt.reset()
	p := gkr.NewProver(circ, a)
	before = allocated()
	proof := p.Prove(nCore)
	r.proveBytes = allocated() - before
	r.prove = cnt.get()
	in, out := k.Inputs(), gen.Clone2(a.Values[len(a.Values)-1])
	v := gkr.NewVerifier(bN, circ)
	cnt.reset()
	before = allocated()
	ok := v.Verify(proof, in, out)
	r.verifyBytes = allocated() - before
	r.verify = cnt.get()
	if !ok {
		t.Fatalf("honest proof rejected, bN=%d", bN)
	}
	for i, l := range spec.Layers {
		bg := l.BGIn()
		dl, dr, dp := l.Degrees()
		polys := proof.SumcheckProofs[i].PolyCoeffs
		if len(polys) != bN+2*bg {
			t.Fatalf("layer %d: %d rounds for bN=%d, %d inputs", i, len(polys), bN, 1<<bg)
		}
		for j, q := range polys {
			d := dp
			if j < bg {
				d = dl
			} else if j < 2*bg {
				d = dr
			}
			if len(q) > d+2 {
				t.Fatalf("layer %d, round %d (bN=%d, %d inputs): %d coefficients for gates of degree %d", i, j, bN, 1<<bg, len(q), d)
			}
		}
	}
	return r
}

// rounds bounds the number of evaluations of each round of the proof that do
// not depend on the number of instances
func rounds(spec ref.Circuit, bN int) int {
	n := 0
	for _, l := range spec.Layers {
		dl, dr, dp := l.Degrees()
		n += len(l.Distinct()) * (dl + dr + dp + 6) * (bN + 2*l.BGIn() + 2)
	}
	return n
}

func compare(t vt.T, spec ref.Circuit, c []costs, chunks int) {
	wires, distinct := 0, 0
	for _, l := range spec.Layers {
		wires += len(l.Wires)
		distinct += len(l.Distinct())
	}
	for i, x := range c {
		if x.assign > 2*wires<<x.bN {
			t.Fatalf("evaluating %d instances of a circuit of %d wires evaluates gates %d times", 1<<x.bN, wires, x.assign)
		}
		if x.verify > 4*distinct {
			t.Fatalf("verifying %d instances evaluates gates %d times, there are %d distinct gates in the layers", 1<<x.bN, x.verify, distinct)
		}
		if i == 0 {
			continue
		}
		y := c[i-1]
		if x.verify != y.verify {
			t.Fatalf("verifying evaluates gates %d times for %d instances and %d times for %d", y.verify, 1<<y.bN, x.verify, 1<<x.bN)
		}
		if more := x.prove - 2*y.prove; more > 2*rounds(spec, x.bN) {
			t.Fatalf("proving evaluates gates %d times for %d instances and %d times for %d: more than twice as many (%v)", y.prove, 1<<y.bN, x.prove, 1<<x.bN, spec)
		}
		for _, m := range []struct {
			what string
			x, y int
		}{{"proving", x.proveBytes, y.proveBytes}, {"verifying", x.verifyBytes, y.verifyBytes}} {
			// A fixed part, and goroutines and channels
			if m.x > 2*m.y+m.y/4+1<<17+2048*chunks {
				t.Fatalf("%s allocates %d bytes for %d instances and %d for %d (%v)", m.what, m.y, 1<<y.bN, m.x, 1<<x.bN, spec)
			}
		}
	}
	// The evaluations for one instance: the tables of 2^(2 bG) pairs are summed
	// on the left and then on the right
	first := c[0]
	bound := rounds(spec, first.bN)
	for _, l := range spec.Layers {
		dl, dr, dp := l.Degrees()
		bound += len(l.Distinct()) * (dl + dr + dp + 9) * (2 << (2 * l.BGIn())) << first.bN
	}
	if first.prove > bound {
		t.Fatalf("proving evaluates gates %d times for %d instances, expected at most %d (%v)", first.prove, 1<<first.bN, bound, spec)
	}
}

func native(t *rapid.T, c *vt.C) {
	spec := gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 3, MaxBG: 2}, "c")
	lo := gen.IntU(t, 0, 6, "bN")
	n := gen.IntU(t, 2, 3, "sizes")
	chunks := 1 << gen.IntU(t, 0, lo, "logchunks")
	split := rapid.Bool().Draw(t, "split") // more chunks for more instances
	nCore := gen.IntU(t, 1, 8, "ncore")
	seed := rapid.Uint64().Draw(t, "seed")
	c.Case(t, lo > 0, func() string {
		return fmt.Sprintf("%d instances, doubled %d times, chunks=%d (doubled: %v) cores=%d seed=%d %v", 1<<lo, n-1, chunks, split, nCore, seed, spec)
	})
	run(t, spec, lo, n, chunks, split, nCore, seed)
}

func run(t vt.T, spec ref.Circuit, lo, n, chunks int, split bool, nCore int, seed uint64) {
	var r []costs
	for i := 0; i < n; i++ {
		r = append(r, measure(t, spec, lo+i, chunks, nCore, seed+uint64(i)))
		if split {
			chunks *= 2
		}
	}
	compare(t, spec, r, chunks)
}

func large(t *rapid.T, c *vt.C) {
	spec := gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 2, MaxBG: 1}, "c")
	lo := gen.IntU(t, 7, 11, "bN")
	chunks := 1 << gen.IntU(t, 0, 4, "logchunks")
	split := rapid.Bool().Draw(t, "split")
	nCore := gen.IntU(t, 1, 8, "ncore")
	seed := rapid.Uint64().Draw(t, "seed")
	c.Case(t, true, func() string {
		return fmt.Sprintf("%d instances, doubled, chunks=%d (doubled: %v) cores=%d seed=%d %v", 1<<lo, chunks, split, nCore, seed, spec)
	})
	run(t, spec, lo, 2, chunks, split, nCore, seed)
}

// span: batches of very different sizes, to tell a cost proportional to N from
// one proportional to N log N, which hardly more than doubles when N does
func span(t *rapid.T, c *vt.C) {
	spec := gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 2, MaxBG: 1}, "c")
	lo := gen.IntU(t, 8, 10, "bN")
	hi := lo + gen.IntU(t, 5, 8, "doublings")
	chunks := 1 << gen.IntU(t, 0, 3, "logchunks")
	more := chunks
	if gen.IntU(t, 0, 2, "split") == 0 {
		// Chunks of the same size
		chunks = 1 << gen.IntU(t, 0, lo, "logchunks")
		more = chunks << (hi - lo)
	}
	nCore := gen.IntU(t, 1, 8, "ncore")
	seed := rapid.Uint64().Draw(t, "seed")
	c.Case(t, true, func() string {
		return fmt.Sprintf("%d instances in %d chunks and %d in %d, cores=%d seed=%d %v", 1<<lo, chunks, 1<<hi, more, nCore, seed, spec)
	})
	c.LabelIf(more != chunks, "number of chunks proportional to the instances")
	y, x := measure(t, spec, lo, chunks, nCore, seed), measure(t, spec, hi, more, nCore, seed)
	for _, m := range []struct {
		what string
		x, y int
		max  float64
	}{
		{"assigning, evaluations of gates", x.assign, y.assign, 1.02},
		{"proving, evaluations of gates", x.prove, y.prove, 1.02},
		{"assigning, allocated bytes", x.assignBytes, y.assignBytes, 1.3},
		{"proving, allocated bytes", x.proveBytes, y.proveBytes, 1.3},
		{"verifying, allocated bytes", x.verifyBytes, y.verifyBytes, 1.3},
	} {
		a, b := float64(m.y)/float64(int(1)<<lo), float64(m.x)/float64(int(1)<<hi)
		max := m.max * a
		if more != chunks && strings.HasSuffix(m.what, "bytes") {
			// Goroutines that wait, as many as chunks, which were reused when there were less
			max += 2048 * float64(more) / float64(int(1)<<hi)
		}
		if b > max {
			t.Fatalf("%s: %.1f for each of 2^%d instances, %.1f for each of 2^%d (%v)", m.what, a, lo, b, hi, spec)
		}
	}
}

// full is the SNARK verifier
type full struct {
	Circuit         sgkr.Circuit `gnark:"-"`
	Proof           sgkr.Proof
	Q, QPrime       []variable
	VInput, VOutput polynomial.MultilinearByValues
}

// Define the constraints
func (c *full) Define(curveID gurvy.ID, cs *frontend.ConstraintSystem) error {
	c.Proof.AssertValid(cs, c.Circuit, c.Q, c.QPrime, c.VInput, c.VOutput)
	return nil
}

func constraints(t vt.T, bN int) int {
	c := sgkr.CreateMimcCircuit()
	r, err := snk.Circuit(&full{Circuit: c, Proof: sgkr.AllocateProof(bN, c), QPrime: make([]variable, bN),
		VInput: polynomial.AllocateMultilinear(bN + 1), VOutput: polynomial.AllocateMultilinear(bN)})
	if err != nil {
		t.Fatalf("the verifier does not compile: %v", err)
	}
	return int(r.GetNbConstraints())
}

// batches: doubling the batch costs 3 constraints for each new hash, and a
// constant number
func batches(max int) func(t vt.T, c *vt.C) {
	return func(t vt.T, c *vt.C) {
		var n []int
		for bN := 0; bN <= max; bN++ {
			n = append(n, constraints(t, bN))
			c.Label("batch sizes")
		}
		for b := 2; b <= max; b++ {
			// n(b) = K + K' b + 3 * 2^b
			if extra := n[b] - 2*n[b-1] + n[b-2]; extra > 3<<(b-2)+4 {
				t.Fatalf("constraints of the SNARK verifier: %v for 2^0, 2^1... hashes: more than 3 for each additional hash", n)
			}
		}
		// Each round of each layer hashes the 9 coefficients
		round, hash := n[1]-n[0], snk.Count(1, 1, func(cs *frontend.ConstraintSystem, x []variable) []variable {
			return []variable{shash.MimcHash(cs, x...)}
		})
		if round > ref.MimcRounds*(9*hash+50) {
			t.Fatalf("a round costs %d constraints for %d layers (%d for hashing a value)", round, ref.MimcRounds, hash)
		}
	}
}

// gadgets: a number of constraints proportional to the size
func gadgets(t *rapid.T, c *vt.C) {
	kind := gen.IntU(t, 0, 4, "kind")
	n := gen.IntU(t, 0, []int{7, 6, 12, 20, 6}[kind], "n")
	a, b := gen.IntU(t, 0, 4, "a"), gen.IntU(t, 0, 3, "b")
	names := []string{"multilinear", "mixed", "eq", "univariate", "hash"}
	c.Case(t, n > 0, func() string { return fmt.Sprintf("%s, size %d (%d, %d)", names[kind], n, a, b) })
	var nx, bound, nOut int
	var f snk.Func
	switch kind {
	case 0:
		nx, bound, nOut = n+1<<n, 1<<n, 1
		f = func(cs *frontend.ConstraintSystem, x []variable) []variable {
			m := polynomial.NewMultilinearByValues(append([]variable{}, x[n:]...))
			return []variable{m.Eval(cs, x[:n])}
		}
	case 1:
		// n common variables, b on each side
		nx, bound, nOut = n+2*b+1<<(n+b), 2<<(n+b), 2
		f = func(cs *frontend.ConstraintSystem, x []variable) []variable {
			m := polynomial.NewMultilinearByValues(append([]variable{}, x[n+2*b:]...))
			l, r := m.EvalMixed(cs, x[:b], x[b:2*b], x[2*b:n+2*b])
			return []variable{l, r}
		}
	case 2:
		nx, bound, nOut = 2*n, 4*n, 1
		f = func(cs *frontend.ConstraintSystem, x []variable) []variable {
			return []variable{polynomial.EqEval(cs, x[:n], x[n:])}
		}
	case 3:
		n++
		nx, bound, nOut = n+1, n, 1
		f = func(cs *frontend.ConstraintSystem, x []variable) []variable {
			u := polynomial.NewUnivariate(append([]variable{}, x[1:]...))
			return []variable{u.Eval(cs, x[0])}
		}
	default:
		nx, bound, nOut = n, 4*ref.MimcRounds*n, 1
		f = func(cs *frontend.ConstraintSystem, x []variable) []variable {
			return []variable{shash.MimcHash(cs, x...)}
		}
	}
	// and the checks of the outputs
	if got := snk.Count(nx, nOut, f); got > bound+2*nOut+2 {
		t.Fatalf("%s, size %d (%d on each side): %d constraints, expected at most %d", names[kind], n, b, got, bound+2*nOut+2)
	}
}

// mimc: the MiMC circuit itself
func mimc(t *rapid.T, c *vt.C) {
	lo := gen.IntU(t, 0, 4, "bN")
	chunks := 1 << gen.IntU(t, 0, lo, "logchunks")
	nCore := gen.IntU(t, 1, 8, "ncore")
	seed := rapid.Uint64().Draw(t, "seed")
	c.Case(t, true, func() string {
		return fmt.Sprintf("MiMC, %d instances, doubled, chunks=%d cores=%d seed=%d", 1<<lo, chunks, nCore, seed)
	})
	mc := examples.CreateMimcCircuit()
	if len(mc.Layers) != ref.MimcRounds {
		t.Fatalf("the circuit has %d layers", len(mc.Layers))
	}
	run(t, mimcSpec, lo, 2, chunks, false, nCore, seed)
}

var mimcSpec = cases.Mimc()

func main() {
	snk.Big = true
	vt.Main(vt.Check{
		Property: "C23",
		Rule: "span: two batch sizes far apart, the costs by instance are compared. native, large, mimc: a circuit and batches whose size doubles, with the same number of chunks or more; gates count their evaluations, the allocations are counted too; the size of the proof is compared with the number of rounds and the degrees. batches: number of constraints of the SNARK verifier for batches of 1 to 256 hashes. gadgets: number of constraints of each gadget for a size. " +
			"Non-trivial: several instances, a size above 0.",
		Assumptions: []string{"costs are counted in evaluations of gates, allocated bytes, coefficients and constraints, not in time"},
		Families: []vt.Family{
			{Name: "native", Quick: 2400, Thorough: 60000, Shards: 8, Prop: native},
			{Name: "large", Quick: 80, Thorough: 1600, Shards: 8, Prop: large},
			{Name: "span", Quick: 320, Thorough: 8000, Shards: 8, MinPerShard: 2, Prop: span},
			{Name: "mimc", Quick: 24, Thorough: 400, Shards: 8, MinPerShard: 3, Prop: mimc},
			{Name: "gadgets", Quick: 1600, Thorough: 20000, Shards: 8, Prop: gadgets},
			{Name: "snark", Fixed: []vt.Fixed{{Name: "batches", Run: batches(7)}}},
		},
	})
}
