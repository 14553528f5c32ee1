// C21: work splitting and worker limits are respected
package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"runtime"
	"sync"
	"sync/atomic"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/gkr"
	"verif/cases"
	"verif/gen"
	"verif/real"
	"verif/ref"
	"verif/sc"
	"verif/sched"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// integer draws an integer of [lo, hi]: of any magnitude, of the dictionary, or
// close to a power of 2
func integer(t *rapid.T, lo, hi int, label string) int {
	x := 0
	switch gen.IntU(t, 0, 4, label+".kind") {
	case 0:
		return lo + gen.IntU(t, 0, min(40, hi-lo), label)
	case 1:
		x = int(gen.Int(t, uint64(hi), label+".dict"))
	case 2:
		x = 1<<gen.IntU(t, 0, 62, label+".log") + gen.IntU(t, -2, 2, label+".off")
	case 3:
		x = int(rapid.Uint64().Draw(t, label+".any")>>1) >> gen.IntU(t, 0, 62, label+".shift")
	default:
		x = hi - gen.IntU(t, 0, min(10, hi-lo), label+".top")
	}
	return max(lo, min(hi, x))
}

func checkRanges(t vt.T, nCore, n int) int {
	r := common.IntoChunkRanges(nCore, n)
	pos := 0
	for i, c := range r {
		if c.Begin != pos || c.End <= c.Begin || c.End > n {
			t.Fatalf("IntoChunkRanges(%d, %d): range %d of %d is [%d, %d), the previous one ends at %d", nCore, n, i, len(r), c.Begin, c.End, pos)
		}
		if c.End-c.Begin < common.MinChunkSize && i != len(r)-1 {
			t.Fatalf("IntoChunkRanges(%d, %d): range %d of %d has %d items, less than %d", nCore, n, i, len(r), c.End-c.Begin, common.MinChunkSize)
		}
		pos = c.End
	}
	if pos != n {
		t.Fatalf("IntoChunkRanges(%d, %d): the %d ranges end at %d", nCore, n, len(r), pos)
	}
	return len(r)
}

func ranges(t *rapid.T, c *vt.C) {
	var nCore, n int
	m := common.MinChunkSize
	switch gen.IntU(t, 0, 3, "kind") {
	case 0: // around a multiple
		nCore = integer(t, 1, 5000, "ncore")
		n = gen.IntU(t, 0, 3*nCore, "mult")*m + gen.IntU(t, -3, 3, "off")
	case 1: // just enough items for each worker
		nCore = gen.IntU(t, 1, 300, "ncore")
		n = nCore*(m+gen.IntU(t, -2, 40, "more")) + gen.IntU(t, -3, nCore+3, "off")
	case 2: // any number of items
		nCore = integer(t, 1, 100000, "ncore")
		n = integer(t, 0, 1<<59, "n") // 32 bytes each
	default: // more workers than items
		nCore = integer(t, 1, math.MaxInt64, "ncore")
		n = integer(t, 0, 1<<28, "n")
	}
	n = max(0, n)
	c.Case(t, n > 0, func() string { return fmt.Sprintf("%d items, %d workers", n, nCore) })
	k := checkRanges(t, nCore, n)
	c.LabelIf(k == 1, "one range")
	c.LabelIf(k > 1, "several ranges")
	c.LabelIf(k > 1 && n%nCore != 0, "uneven")
}

func logs(t *rapid.T, c *vt.C) {
	a := integer(t, 1, math.MaxInt64, "a")
	b := integer(t, 0, math.MaxInt64, "b")
	if rapid.Bool().Draw(t, "neg") {
		b = -b
	}
	x := a
	if rapid.Bool().Draw(t, "nega") {
		x = -x
	}
	c.Case(t, a > 9, func() string { return fmt.Sprint(x, b) })
	checkLog(t, a)
	lo, hi := x, b
	if big.NewInt(int64(x)).Cmp(big.NewInt(int64(b))) > 0 {
		lo, hi = b, x
	}
	if common.Min(x, b) != lo || common.Max(x, b) != hi {
		t.Fatalf("Min(%d, %d) = %d, Max = %d", x, b, common.Min(x, b), common.Max(x, b))
	}
}

func checkLog(t vt.T, a int) {
	f, g := bits.Len64(uint64(a))-1, bits.Len64(uint64(a-1))
	if common.Log2Floor(a) != f || common.Log2Ceil(a) != g {
		t.Fatalf("Log2Floor(%d) = %d, Log2Ceil = %d; expected %d and %d", a, common.Log2Floor(a), common.Log2Ceil(a), f, g)
	}
}

// history checks a sequence of operations on a semaphore against a counter:
// acquiring succeeds at once if and only if a place is free
func history(t *rapid.T, c *vt.C) {
	n := gen.IntU(t, 1, 9, "capacity")
	if gen.IntU(t, 0, 5, "large") == 0 {
		n = gen.Size(t, 10, 300, "largecapacity")
	}
	nOps := gen.IntU(t, 1, 40, "nops")
	ops := make([]int, nOps)
	for i := range ops {
		ops[i] = gen.IntU(t, 0, 4, fmt.Sprintf("op%d", i))
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(gen.IntU(t, 1, 4, "procs")))
	s := common.NewSemaphore(n)
	held, maxWaiting := 0, 0
	var waiting int // goroutines that wait for a place
	var got int64   // places obtained by these
	got0 := int64(0)
	settle := func(want int64, what string) {
		for k := 0; k < 30000000 && atomic.LoadInt64(&got) < want; k++ {
			runtime.Gosched()
		}
		for k := 0; k < 5; k++ {
			runtime.Gosched()
		}
		if g := atomic.LoadInt64(&got); g != want {
			t.Fatalf("capacity %d, %s, %d hold it: %d waiters got a place instead of %d", n, what, held, g-got0, want-got0)
		}
		got0 = want
	}
	var desc []string
	for _, op := range ops {
		switch {
		case op == 0 && held > 0: // release: a waiter gets the place
			desc = append(desc, "release")
			s.Release()
			if waiting > 0 {
				waiting--
				settle(got0+1, "release with waiters")
			} else {
				held--
			}
		case op == 1 && held < n && waiting == 0: // fill
			desc = append(desc, fmt.Sprintf("acquire %d", n-held))
			for ; held < n; held++ {
				s.Acquire()
			}
		case held < n && waiting == 0:
			desc = append(desc, "acquire")
			s.Acquire() // a block here is a deadlock
			held++
		case waiting < 4: // full
			desc = append(desc, "wait")
			waiting++
			go func() {
				s.Acquire()
				atomic.AddInt64(&got, 1)
			}()
			settle(got0, "full")
		default:
			desc = append(desc, "release")
			s.Release()
			waiting--
			settle(got0+1, "release with waiters")
		}
		maxWaiting = max(maxWaiting, waiting)
	}
	c.Case(t, maxWaiting > 0, func() string { return fmt.Sprintf("capacity %d: %v", n, desc) })
	c.LabelIf(maxWaiting > 0, "some operation waits")
	// Everyone leaves
	for ; waiting > 0; waiting-- {
		s.Release()
		settle(got0+1, "release with waiters")
	}
	for ; held > 0; held-- {
		s.Release()
	}
	// and all the places are free again
	for i := 0; i < n; i++ {
		s.Acquire()
	}
	for i := 0; i < n; i++ {
		s.Release()
	}
	s.Close()
}

// contention: many goroutines take and leave places; copies of the semaphore
// are the same semaphore
func contention(t *rapid.T, c *vt.C) {
	n := gen.UpTo(t, 1, 6, 300, "capacity")
	g := gen.IntU(t, 1, min(4*n, n+100)+2, "goroutines")
	rounds := gen.IntU(t, 1, 12, "rounds")
	seed := rapid.Uint64().Draw(t, "seed")
	meet := rapid.Bool().Draw(t, "meet")
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(gen.IntU(t, 1, 8, "procs")))
	c.Case(t, g > n, func() string {
		return fmt.Sprintf("capacity %d, %d goroutines, %d rounds, seed %d, meeting %v", n, g, rounds, seed, meet)
	})
	s := common.NewSemaphore(n)
	var now, most, meeting int64
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int, s common.Semaphore) {
			defer wg.Done()
			r := gen.SplitMix(seed + uint64(i)*1000003)
			for k := 0; k < rounds; k++ {
				s.Acquire()
				x := atomic.AddInt64(&now, 1)
				for {
					m := atomic.LoadInt64(&most)
					if x <= m || atomic.CompareAndSwapInt64(&most, m, x) {
						break
					}
				}
				if meet && k == 0 && i < n {
					// the places of a full semaphore are held together: the first n
					// goroutines wait for each other if nobody else is there
					atomic.AddInt64(&meeting, 1)
					for g <= n && atomic.LoadInt64(&meeting) < int64(g) {
						runtime.Gosched()
					}
				}
				for j := r.Next() % 12; j > 0; j-- {
					runtime.Gosched()
				}
				atomic.AddInt64(&now, -1)
				s.Release()
				for j := r.Next() % 4; j > 0; j-- {
					runtime.Gosched()
				}
			}
		}(i, s)
	}
	wg.Wait()
	c.LabelIf(int(most) == n, "capacity reached")
	if int(most) > n {
		t.Fatalf("%d goroutines hold a semaphore of capacity %d", most, n)
	}
}

func limit(t *rapid.T, chunks int, label string) int {
	if gen.IntU(t, 0, 4, label+".any") == 0 {
		return gen.NCore(t, label)
	}
	return gen.IntU(t, 1, max(1, chunks), label)
}

// setup draws a perturbation that lets as many evaluations as possible start
func setup(t *rapid.T) *sched.Plan {
	p := sched.Draw(t)
	p.Gauge = &sched.Gauge{Patience: []int{0, 1, 3, 20}[gen.IntU(t, 0, 3, "patience")]}
	return p
}

func within(t vt.T, c *vt.C, p *sched.Plan, nCore, chunks int, what string, f func()) {
	p.Gauge.Limit = nCore
	p.Gauge.Reset()
	f()
	m := p.Gauge.Max()
	c.LabelIf(m > 1, what+": evaluations at the same time")
	c.LabelIf(m == nCore && nCore < chunks, what+": limit reached, with more chunks")
	if m > nCore {
		t.Fatalf("%s with %d workers: %d evaluations of gates in progress at once (%d chunks)", what, nCore, m, chunks)
	}
}

func proving(t *rapid.T, c *vt.C) {
	k := cases.Draw(t, gen.CircuitOpts{MaxLayers: 2, MaxBG: 1}, 4)
	k.NCore, k.PCore = limit(t, k.Chunks, "acores"), limit(t, k.Chunks, "pcores")
	p := setup(t)
	c.Case(t, k.Chunks > 1, func() string { return fmt.Sprintf("%v patience=%d %v", p, p.Gauge.Patience, k) })
	defer p.Start()()
	circ := real.Wrap(k.Spec, p.Wrap)
	in := k.Inputs()
	var asg circuit.Assignment
	within(t, c, p, k.NCore, k.Chunks, "assignment", func() { asg = circ.Assign(in, k.NCore) })
	pr := gkr.NewProver(circ, asg)
	within(t, c, p, k.PCore, k.Chunks, "proof", func() { pr.Prove(k.PCore) })
}

// many instances in each chunk
func large(t *rapid.T, c *vt.C) {
	k := &cases.Case{Spec: gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 2, MaxBG: 1, Kinds: []int{ref.KCopy, ref.KAdd, ref.KMul}}, "c")}
	lc := gen.IntU(t, 1, 4, "logchunks")
	k.Chunks = 1 << lc
	k.BN = lc + gen.IntU(t, 4, 9, "logsize")
	s := gen.SplitMix(rapid.Uint64().Draw(t, "seed"))
	k.Flat = make([]fr.Element, 1<<(k.BN+k.BGIn()))
	for i := range k.Flat {
		k.Flat[i] = s.Fr()
	}
	k.NCore, k.PCore = limit(t, k.Chunks, "acores"), limit(t, k.Chunks, "pcores")
	k.Circuit = real.Circuit(k.Spec)
	p := setup(t)
	p.Gauge.Patience = min(p.Gauge.Patience, 3)
	prove := k.BN <= 10 && gen.IntU(t, 0, 3, "prove") == 0
	c.Case(t, true, func() string { return fmt.Sprintf("%v patience=%d proof=%v %v", p, p.Gauge.Patience, prove, k) })
	defer p.Start()()
	circ := real.Wrap(k.Spec, p.Wrap)
	in := k.Inputs()
	var asg circuit.Assignment
	within(t, c, p, k.NCore, k.Chunks, "assignment", func() { asg = circ.Assign(in, k.NCore) })
	if prove {
		pr := gkr.NewProver(circ, asg)
		within(t, c, p, k.PCore, k.Chunks, "proof", func() { pr.Prove(k.PCore) })
	}
}

// many chunks, more than any number of workers one thinks of
func many(t *rapid.T, c *vt.C) {
	lc := gen.IntU(t, 5, 9, "logchunks")
	chunks := 1 << lc
	few := func(label string) int {
		if gen.IntU(t, 0, 2, label+".few") > 0 {
			return gen.IntU(t, 1, 8, label)
		}
		return limit(t, chunks, label)
	}
	p := setup(t)
	p.Gauge.Patience = min(p.Gauge.Patience, 3)
	if gen.IntU(t, 0, 1, "what") == 0 {
		i := sc.Draw(t, lc, 0)
		for i.BN < lc {
			i.BN, i.Eq, i.VL, i.VR = i.BN+1, twice(i.Eq), twice(i.VL), twice(i.VR)
		}
		n1, n2 := few("claimcores"), few("cores")
		c.Case(t, true, func() string {
			return fmt.Sprintf("%v patience=%d chunks=%d cores=%d/%d %v", p, p.Gauge.Patience, chunks, n1, n2, i)
		})
		defer p.Start()()
		m := i.Multi(chunks, p.Wrap)
		within(t, c, p, n1, chunks, "claim", func() { m.GetClaim(n1) })
		within(t, c, p, n2, chunks, "sumcheck", func() { m.Prove(n2) })
		return
	}
	k := &cases.Case{Spec: gen.CircuitOf(t, gen.CircuitOpts{MaxLayers: 2, MaxBG: 1}, "c"), BN: lc + gen.IntU(t, 0, 1, "logsize"), Chunks: chunks}
	k.Flat = gen.RandVec(t, 1<<(k.BN+k.BGIn()), "in")
	k.NCore, k.PCore = few("acores"), few("pcores")
	c.Case(t, true, func() string { return fmt.Sprintf("%v patience=%d %v", p, p.Gauge.Patience, k) })
	defer p.Start()()
	circ := real.Wrap(k.Spec, p.Wrap)
	in := k.Inputs()
	var asg circuit.Assignment
	within(t, c, p, k.NCore, k.Chunks, "assignment", func() { asg = circ.Assign(in, k.NCore) })
	pr := gkr.NewProver(circ, asg)
	within(t, c, p, k.PCore, k.Chunks, "proof", func() { pr.Prove(k.PCore) })
}

func twice(x []fr.Element) []fr.Element { return append(gen.Clone(x), x...) }

func sums(t *rapid.T, c *vt.C) {
	i := sc.Draw(t, 5, 1)
	chunks := 1 << gen.IntU(t, 0, i.BN, "logchunks")
	n1, n2 := limit(t, chunks, "claimcores"), limit(t, chunks, "cores")
	p := setup(t)
	c.Case(t, chunks > 1, func() string {
		return fmt.Sprintf("%v patience=%d chunks=%d cores=%d/%d %v", p, p.Gauge.Patience, chunks, n1, n2, i)
	})
	defer p.Start()()
	m := i.Multi(chunks, p.Wrap)
	within(t, c, p, n1, chunks, "claim", func() { m.GetClaim(n1) })
	within(t, c, p, n2, chunks, "sumcheck", func() { m.Prove(n2) })
}

func main() {
	vt.Main(vt.Check{
		Property: "C21",
		Scale:    3,
		Rule: "ranges: numbers of items and workers of all magnitudes, often around multiples of the minimum size; logs: integers of all magnitudes, around powers of 2; history: sequences of acquire and release compared with a counter, with waiting goroutines; contention: goroutines that take and leave places, counting the holders; proving, sums: assignments, proofs, claims and sumchecks with gates that count the evaluations in progress and yield to let the others start. " +
			"Non-trivial: some item; an integer above 9; some operation waits; more goroutines than places; more than one chunk.",
		Assumptions: []string{"a semaphore has at least one place and is not released more than acquired; there is at least one worker", "logarithms are those of positive integers"},
		Families: []vt.Family{
			{Name: "ranges", Quick: 400000, Thorough: 6000000, Shards: 8, Prop: ranges, Fixed: []vt.Fixed{
				{Name: "small", Run: func(t vt.T, c *vt.C) {
					for nCore := 1; nCore <= 20; nCore++ {
						for n := 0; n < 30000; n++ {
							checkRanges(t, nCore, n)
						}
					}
				}},
			}},
			{Name: "logs", Quick: 800000, Thorough: 10000000, Shards: 8, Prop: logs, Fixed: []vt.Fixed{
				{Name: "small", Run: func(t vt.T, c *vt.C) {
					for a := 1; a < 1<<21; a++ {
						checkLog(t, a)
					}
					for k := 1; k < 63; k++ {
						for d := -3; d <= 3; d++ {
							if a := 1<<k + d; a > 0 {
								checkLog(t, a)
							}
						}
					}
				}},
			}},
			{Name: "history", Quick: 80000, Thorough: 1500000, Shards: 8, Prop: history},
			{Name: "contention", Quick: 40000, Thorough: 800000, Shards: 8, Prop: contention},
			{Name: "proving", Quick: 16000, Thorough: 300000, Shards: 8, Prop: proving},
			{Name: "large", Quick: 800, Thorough: 40000, Shards: 8, Prop: large},
			{Name: "many", Quick: 400, Thorough: 10000, Shards: 8, Prop: many},
			{Name: "sums", Quick: 20000, Thorough: 400000, Shards: 8, Prop: sums},
		},
	})
}
