package ref

import (
	"fmt"
	"strings"
)

// Gate kinds
const (
	KAdd    = iota // vL + vR
	KMul           // vL vR
	KCopy          // vL
	KCipher        // vL + (vR + A)^7
	KLin           // vL - 2 vR + A
	KMulAdd        // vL vR + vL + A
	KRight         // vR
	KConst         // A
	KPow           // vL^P vR^Q + A
	NKinds
)

// Gate describes a gate
type Gate struct {
	Kind int
	A    E
	P, Q int
}

// Eval applies the gate
func (g Gate) Eval(l, r E) E {
	switch g.Kind {
	case KAdd:
		return Add(l, r)
	case KMul:
		return Mul(l, r)
	case KCopy:
		return l
	case KCipher:
		return Add(l, pow7(Add(r, g.A)))
	case KLin:
		return Add(Sub(l, Add(r, r)), g.A)
	case KMulAdd:
		return Add(Add(Mul(l, r), l), g.A)
	case KRight:
		return r
	case KConst:
		return g.A
	case KPow:
		return Add(Mul(Pow(l, g.P), Pow(r, g.Q)), g.A)
	}
	panic("gate kind")
}

// Degrees returns the exact degrees of the gate in vL, in vR, and in both
func (g Gate) Degrees() (l, r, both int) {
	switch g.Kind {
	case KAdd, KLin:
		return 1, 1, 1
	case KMul, KMulAdd:
		return 1, 1, 2
	case KCopy:
		return 1, 0, 1
	case KCipher:
		return 1, 7, 7
	case KRight:
		return 0, 1, 1
	case KConst:
		return 0, 0, 0
	case KPow:
		return g.P, g.Q, g.P + g.Q
	}
	panic("gate kind")
}

// AffineLeft tells whether the gate is affine in vL
func (g Gate) AffineLeft() bool {
	l, _, _ := g.Degrees()
	return l <= 1
}

// Key identifies the function of the gate
func (g Gate) Key() string {
	switch g.Kind {
	case KCipher, KLin, KMulAdd, KConst:
		return fmt.Sprintf("%d/%v", g.Kind, [4]uint64(g.A))
	case KPow:
		return fmt.Sprintf("%d/%d/%d/%v", g.Kind, g.P, g.Q, [4]uint64(g.A))
	}
	return fmt.Sprint(g.Kind)
}

func (g Gate) String() string {
	names := []string{"add", "mul", "copy", "cipher", "lin", "muladd", "right", "const", "pow"}
	s := names[g.Kind]
	switch g.Kind {
	case KCipher, KLin, KMulAdd, KConst:
		a := g.A.String()
		if len(a) > 10 {
			a = a[:4] + ".." + a[len(a)-4:]
		}
		s += "(" + a + ")"
	case KPow:
		s += fmt.Sprintf("(%d,%d)", g.P, g.Q)
	}
	return s
}

// Wire connects a gate
type Wire struct {
	L, R, O int
	G       int // index in the gates of the layer
}

// Layer is a list of wires
type Layer struct {
	Gates []Gate // pool of gates, possibly with repetitions, possibly unused
	Wires []Wire
}

// Circuit is a list of layers
type Circuit struct {
	Layers []Layer
}

func bits(max int) int {
	b := 0
	for 1<<b <= max {
		b++
	}
	return b
}

// BGIn is the log-size of the input of the layer
func (l Layer) BGIn() int {
	m := 0
	for _, w := range l.Wires {
		m = max(m, w.L, w.R)
	}
	return bits(m)
}

// BGOut is the log-size of the output of the layer
func (l Layer) BGOut() int {
	m := 0
	for _, w := range l.Wires {
		m = max(m, w.O)
	}
	return bits(m)
}

// Distinct returns the distinct gates used by the wires
func (l Layer) Distinct() []Gate {
	var r []Gate
	seen := map[string]bool{}
	for _, w := range l.Wires {
		g := l.Gates[w.G]
		if !seen[g.Key()] {
			seen[g.Key()] = true
			r = append(r, g)
		}
	}
	return r
}

// Degrees returns the maximum of the degrees of the gates
func (l Layer) Degrees() (dl, dr, dp int) {
	for _, g := range l.Distinct() {
		a, b, c := g.Degrees()
		dl, dr, dp = max(dl, a), max(dr, b), max(dp, c)
	}
	return
}

func (l Layer) String() string {
	var s []string
	for _, w := range l.Wires {
		s = append(s, fmt.Sprintf("%d=%v(%d,%d)", w.O, l.Gates[w.G], w.L, w.R))
	}
	return "{" + strings.Join(s, " ") + "}"
}

func (c Circuit) String() string {
	var s []string
	for _, l := range c.Layers {
		s = append(s, l.String())
	}
	return strings.Join(s, " ")
}

// Eval evaluates the circuit instance by instance. The tables are flat: the
// value g of instance h of a layer is at g*n + h.
func (c Circuit) Eval(inputs []E, n int) [][]E {
	res := [][]E{inputs}
	for _, l := range c.Layers {
		prev := res[len(res)-1]
		out := make([]E, n<<l.BGOut())
		for h := 0; h < n; h++ {
			for o := 0; o < 1<<l.BGOut(); o++ {
				var acc E
				for _, w := range l.Wires {
					if w.O == o {
						acc = Add(acc, l.Gates[w.G].Eval(prev[w.L*n+h], prev[w.R*n+h]))
					}
				}
				out[o*n+h] = acc
			}
		}
		res = append(res, out)
	}
	return res
}

// Wiring evaluates the multilinear extension of the wiring of a gate:
// sum over its wires of eq(q, O) eq(hL, L) eq(hR, R)
func (l Layer) Wiring(key string, q, hL, hR []E) E {
	var r E
	for _, w := range l.Wires {
		if l.Gates[w.G].Key() == key {
			r = Add(r, Mul(EqBits(q, w.O), Mul(EqBits(hL, w.L), EqBits(hR, w.R))))
		}
	}
	return r
}

// WiredSum is the sum over all the wires of eq(q, O) eq(hL, L) eq(hR, R) gate(vL, vR)
func (l Layer) WiredSum(q, hL, hR []E, vL, vR E) E {
	var r E
	for _, w := range l.Wires {
		e := Mul(EqBits(q, w.O), Mul(EqBits(hL, w.L), EqBits(hR, w.R)))
		r = Add(r, Mul(e, l.Gates[w.G].Eval(vL, vR)))
	}
	return r
}
