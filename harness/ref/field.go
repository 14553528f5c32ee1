// Package ref contains reference models, written from the definitions and
// independently of the code under test (only the field arithmetic is shared).
package ref

import (
	"github.com/consensys/gurvy/bn256/fr"
)

// E is a field element
type E = fr.Element

// Add returns a + b
func Add(a, b E) E { var r E; r.Add(&a, &b); return r }

// Sub returns a - b
func Sub(a, b E) E { var r E; r.Sub(&a, &b); return r }

// Mul returns a * b
func Mul(a, b E) E { var r E; r.Mul(&a, &b); return r }

// Neg returns -a
func Neg(a E) E { var r E; r.Neg(&a); return r }

// Inv returns 1/a
func Inv(a E) E { var r E; r.Inverse(&a); return r }

// U returns a small element
func U(x uint64) E { var r E; r.SetUint64(x); return r }

// One is 1
func One() E { return U(1) }

// Pow returns a^n
func Pow(a E, n int) E {
	r := One()
	for i := 0; i < n; i++ {
		r = Mul(r, a)
	}
	return r
}

// MLE evaluates the multilinear extension of a table, the first coordinate
// being the most significant bit of the index: f(r, x) = (1-r) f(0, x) + r f(1, x)
func MLE(table []E, point []E) E {
	if len(point) == 0 {
		return table[0]
	}
	h := len(table) / 2
	lo := MLE(table[:h], point[1:])
	hi := MLE(table[h:], point[1:])
	return Add(Mul(Sub(One(), point[0]), lo), Mul(point[0], hi))
}

// FoldTable fixes the first coordinate of a table
func FoldTable(table []E, r E) []E {
	h := len(table) / 2
	res := make([]E, h)
	for i := range res {
		res[i] = Add(Mul(Sub(One(), r), table[i]), Mul(r, table[i+h]))
	}
	return res
}

// EqBits returns prod_i (q_i if bit_i(b) else 1 - q_i), bit 0 being the most
// significant of the len(q) bits of b
func EqBits(q []E, b int) E {
	r := One()
	for i := range q {
		if b>>(len(q)-1-i)&1 == 1 {
			r = Mul(r, q[i])
		} else {
			r = Mul(r, Sub(One(), q[i]))
		}
	}
	return r
}

// Eq returns prod_i (q_i h_i + (1-q_i)(1-h_i))
func Eq(q, h []E) E {
	r := One()
	for i := range q {
		r = Mul(r, Add(Mul(q[i], h[i]), Mul(Sub(One(), q[i]), Sub(One(), h[i]))))
	}
	return r
}

// PolyEval evaluates sum c_i x^i
func PolyEval(c []E, x E) E {
	var r E
	p := One()
	for i := range c {
		r = Add(r, Mul(c[i], p))
		p = Mul(p, x)
	}
	return r
}

// Sum returns the sum of the elements
func Sum(c []E) E {
	var r E
	for i := range c {
		r = Add(r, c[i])
	}
	return r
}

// Lagrange evaluates at x the only polynomial of degree < n with the given
// values at 0..n-1 (x is not necessarily in the domain)
func Lagrange(values []E, x E) E {
	var res E
	for i := range values {
		num, den := One(), One()
		for j := range values {
			if j == i {
				continue
			}
			num = Mul(num, Sub(x, U(uint64(j))))
			den = Mul(den, Sub(U(uint64(i)), U(uint64(j))))
		}
		res = Add(res, Mul(values[i], Mul(num, Inv(den))))
	}
	return res
}
