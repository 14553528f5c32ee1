// Package sc generates sumcheck instances, with a reference by brute force.
package sc

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verif/gen"
	"verif/real"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// Inst is a sumcheck instance
type Inst struct {
	BN, BG  int
	Gates   []ref.Gate
	VL, VR  []fr.Element // of size 2^(BG+BN), the instance being the low bits
	Eq      []fr.Element // of size 2^BN
	Statics [][]fr.Element
}

// Draw draws an instance
func Draw(t *rapid.T, maxBN, maxBG int) *Inst { return DrawFrom(t, 0, maxBN, maxBG) }

// DrawFrom draws an instance of at least 2^minBN values
func DrawFrom(t *rapid.T, minBN, maxBN, maxBG int) *Inst {
	i := &Inst{BN: gen.IntU(t, minBN, maxBN, "bN"), BG: gen.IntU(t, 0, maxBG, "bG")}
	n := gen.UpTo(t, 1, 4, 24, "ngates")
	var near *fr.Element
	for k := 0; k < n; k++ {
		g := gen.GateOf(t, gen.AllKinds, near, fmt.Sprintf("g%d", k))
		if !g.A.IsZero() {
			a := g.A
			near = &a
		}
		i.Gates = append(i.Gates, g)
		i.Statics = append(i.Statics, Static(t, i.BG, fmt.Sprintf("s%d", k)))
	}
	i.VL = gen.Vec(t, 1<<(i.BN+i.BG), "vL")
	if gen.IntU(t, 0, 2, "same") == 0 {
		i.VR = gen.Clone(i.VL)
	} else {
		i.VR = gen.Vec(t, 1<<(i.BN+i.BG), "vR")
	}
	if rapid.Bool().Draw(t, "iseq") {
		q := gen.Point(t, i.BN, "q")
		i.Eq = make([]fr.Element, 1<<i.BN)
		for b := range i.Eq {
			i.Eq[b] = ref.EqBits(q, b)
		}
	} else {
		i.Eq = gen.Vec(t, 1<<i.BN, "eq")
	}
	return i
}

// Static draws a wiring table
func Static(t *rapid.T, bG int, label string) []fr.Element {
	n := 1 << (2 * bG)
	if gen.IntU(t, 0, 2, label+".kind") > 0 {
		// a few entries, possibly with only one half of a variable at zero
		r := make([]fr.Element, n)
		for k := gen.IntU(t, 1, 4, label+".n"); k > 0; k-- {
			r[gen.IntU(t, 0, n-1, fmt.Sprintf("%s.%d", label, k))] = gen.NonZero(t, fmt.Sprintf("%s.v%d", label, k))
		}
		return r
	}
	return gen.Vec(t, n, label)
}

// Nontrivial tells whether something is summed
func (i *Inst) Nontrivial() bool {
	z := true
	for _, s := range i.Statics {
		z = z && gen.IsZero(s)
	}
	return i.BN+i.BG > 0 && !z && !gen.IsZero(i.Eq) && !(gen.IsZero(i.VL) && gen.IsZero(i.VR))
}

func (i *Inst) String() string {
	s := fmt.Sprintf("bN=%d bG=%d vL=%v vR=%v eq=%v", i.BN, i.BG, gen.Show(i.VL), gen.Show(i.VR), gen.Show(i.Eq))
	for k := range i.Gates {
		s += fmt.Sprintf(" %v:%v", i.Gates[k], gen.Show(i.Statics[k]))
	}
	return s
}

// RealGates builds the gates
func (i *Inst) RealGates(wrap func(circuit.Gate) circuit.Gate) []circuit.Gate {
	var r []circuit.Gate
	for _, g := range i.Gates {
		x := real.Gate(g)
		if wrap != nil {
			x = wrap(x)
		}
		r = append(r, x)
	}
	return r
}

func bkt(x []fr.Element) polynomial.BookKeepingTable {
	return polynomial.NewBookKeepingTable(gen.Clone(x))
}

func chunked(x []fr.Element, n int) []polynomial.BookKeepingTable {
	var r []polynomial.BookKeepingTable
	for _, c := range gen.Chunk(x, n) {
		r = append(r, polynomial.NewBookKeepingTable(c))
	}
	return r
}

func (i *Inst) statics() []polynomial.BookKeepingTable {
	var r []polynomial.BookKeepingTable
	for _, s := range i.Statics {
		r = append(r, bkt(s))
	}
	return r
}

// Single builds the single-threaded prover, on new tables
func (i *Inst) Single() sumcheck.SingleThreadedProver {
	return sumcheck.NewSingleThreadedProver(bkt(i.VL), bkt(i.VR), bkt(i.Eq), i.RealGates(nil), i.statics())
}

// Multi builds the multi-threaded prover, on new tables
func (i *Inst) Multi(chunks int, wrap func(circuit.Gate) circuit.Gate) sumcheck.MultiThreadedProver {
	return sumcheck.NewMultiThreadedProver(chunked(i.VL, chunks), chunked(i.VR, chunks), chunked(i.Eq, chunks), i.RealGates(wrap), i.statics())
}

// State is the state of a reference prover
type State struct {
	VL, VR, Eq []fr.Element
	Statics    [][]fr.Element
	Gates      []ref.Gate
	L, R, P    int // number of remaining left, right and instance variables
}

// Start starts the reference prover
func (i *Inst) Start() *State {
	return &State{i.VL, i.VR, i.Eq, i.Statics, i.Gates, i.BG, i.BG, i.BN}
}

// Fold returns the state with the next variable set to x
func (s *State) Fold(x fr.Element) *State {
	r := *s
	fold := func(a []fr.Element) []fr.Element { return ref.FoldTable(a, x) }
	switch {
	case s.L > 0 || s.R > 0:
		if s.L > 0 {
			r.L--
			r.VL = fold(s.VL)
		} else {
			r.R--
			r.VR = fold(s.VR)
		}
		r.Statics = make([][]fr.Element, len(s.Statics))
		for k := range s.Statics {
			r.Statics[k] = fold(s.Statics[k])
		}
	default:
		r.P--
		r.VL, r.VR, r.Eq = fold(s.VL), fold(s.VR), fold(s.Eq)
	}
	return &r
}

// Sum is the sum over the hypercube of the remaining variables
func (s *State) Sum() fr.Element {
	var total fr.Element
	n := 1 << s.P
	for l := 0; l < 1<<s.L; l++ {
		for r := 0; r < 1<<s.R; r++ {
			for k, g := range s.Gates {
				w := s.Statics[k][l<<s.R|r]
				if w.IsZero() {
					continue
				}
				var sub fr.Element
				for h := 0; h < n; h++ {
					if !s.Eq[h].IsZero() {
						sub = ref.Add(sub, ref.Mul(s.Eq[h], g.Eval(s.VL[l*n+h], s.VR[r*n+h])))
					}
				}
				total = ref.Add(total, ref.Mul(w, sub))
			}
		}
	}
	return total
}

// Degree of the polynomials of the remaining rounds, at most
func (s *State) Degree() int {
	d := 0
	for _, g := range s.Gates {
		l, r, p := g.Degrees()
		switch {
		case s.L > 0:
			d = max(d, l)
		case s.R > 0:
			d = max(d, r)
		default:
			d = max(d, p)
		}
	}
	return d + 1
}

// Finals are the final claims, once all the variables are fixed
func (s *State) Finals() []fr.Element {
	r := []fr.Element{s.VL[0], s.VR[0], s.Eq[0]}
	for _, t := range s.Statics {
		r = append(r, t[0])
	}
	return r
}
