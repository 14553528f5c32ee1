// Package sched perturbs the schedule of the code under test from inside the
// gates, and watches its goroutines.
package sched

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"

	"gkr-mimc/circuit"
	"verif/gen"
	"verif/vt"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// Plan is a way of perturbing the schedule
type Plan struct {
	Kind  int // 0: none, 1: at random, 2: slow values, 3: yields at each evaluation
	Seed  uint64
	Procs int // GOMAXPROCS
	Gauge *Gauge
	n     uint64
}

// Gauge counts the evaluations in progress
type Gauge struct {
	now, max, total int64
	// Limit and Patience: an evaluation yields up to Patience times, unless more
	// than Limit are in progress, to let the others start
	Limit, Patience int
}

// Max is the maximum number of evaluations that were in progress at once
func (g *Gauge) Max() int { return int(atomic.LoadInt64(&g.max)) }

// Total is the number of evaluations
func (g *Gauge) Total() int { return int(atomic.LoadInt64(&g.total)) }

// Reset sets everything back to 0
func (g *Gauge) Reset() { *g = Gauge{Limit: g.Limit, Patience: g.Patience} }

func (g *Gauge) enter() {
	atomic.AddInt64(&g.total, 1)
	x := atomic.AddInt64(&g.now, 1)
	for {
		m := atomic.LoadInt64(&g.max)
		if x <= m || atomic.CompareAndSwapInt64(&g.max, m, x) {
			break
		}
	}
	for k := 0; k < g.Patience && int(atomic.LoadInt64(&g.now)) <= g.Limit; k++ {
		runtime.Gosched()
	}
}

func (g *Gauge) exit() { atomic.AddInt64(&g.now, -1) }

// Draw draws a plan
func Draw(t *rapid.T) *Plan {
	return &Plan{
		Kind:  gen.IntU(t, 0, 3, "sched"),
		Seed:  rapid.Uint64().Draw(t, "sched.seed"),
		Procs: gen.IntU(t, 1, 8, "sched.procs"),
	}
}

func (p *Plan) String() string {
	return fmt.Sprintf("schedule=%d/%d procs=%d", p.Kind, p.Seed, p.Procs)
}

// Start sets the number of threads; the function it returns sets it back
func (p *Plan) Start() func() {
	old := runtime.GOMAXPROCS(p.Procs)
	return func() { runtime.GOMAXPROCS(old) }
}

func yield(n uint64) {
	for ; n > 0; n-- {
		runtime.Gosched()
	}
}

func (p *Plan) disturb(v *fr.Element) {
	switch p.Kind {
	case 1:
		s := gen.SplitMix(p.Seed + atomic.AddUint64(&p.n, 1)*0x9e3779b97f4a7c15)
		x := s.Next()
		if x%8 == 0 {
			yield(x >> 8 % 16)
		}
	case 2:
		s := gen.SplitMix(p.Seed ^ v[0] ^ v[1]<<1)
		if x := s.Next(); x%4 == 0 {
			yield(x >> 8 % 32)
		}
	case 3:
		yield(1)
	}
}

type gate struct {
	p *Plan
	g circuit.Gate
}

// Wrap wraps a gate
func (p *Plan) Wrap(g circuit.Gate) circuit.Gate { return gate{p, g} }

func (g gate) around(v *fr.Element, f func()) {
	if g.p.Gauge != nil {
		g.p.Gauge.enter()
		defer g.p.Gauge.exit()
	}
	g.p.disturb(v)
	f()
}

func (g gate) ID() string { return g.g.ID() }
func (g gate) Eval(res, vL, vR *fr.Element) {
	g.around(vL, func() { g.g.Eval(res, vL, vR) })
}
func (g gate) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	g.around(vR, func() { g.g.EvalManyVL(res, vLs, vR) })
}
func (g gate) EvalManyVR(res []fr.Element, vL *fr.Element, vRs []fr.Element) {
	g.around(vL, func() { g.g.EvalManyVR(res, vL, vRs) })
}
func (g gate) Degrees() (int, int, int) { return g.g.Degrees() }
func (g gate) GnarkEval(cs *frontend.ConstraintSystem, vL, vR frontend.Variable) frontend.Variable {
	return g.g.GnarkEval(cs, vL, vR)
}

// Goroutines counts the goroutines
func Goroutines() int { return runtime.NumGoroutine() }

// Settled fails if the number of goroutines does not come back to what it was
func Settled(t vt.T, before int) {
	for k := 0; k < 20000; k++ {
		if runtime.NumGoroutine() <= before {
			return
		}
		runtime.Gosched()
	}
	for k := 0; k < 3000; k++ {
		if runtime.NumGoroutine() <= before {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	b := make([]byte, 1<<16)
	b = b[:runtime.Stack(b, true)]
	t.Fatalf("%d goroutines before, %d after: workers are leaked\n%s", before, runtime.NumGoroutine(), b)
}
