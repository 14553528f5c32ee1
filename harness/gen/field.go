// Package gen generates the inputs of the checks. Every random choice is drawn
// from rapid, so that a case is a pure function of the drawn data.
package gen

import (
	"fmt"
	"hash/fnv"
	"math/big"
	"strings"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// Q is the order of the field
var Q = fr.Modulus()

// top limb of the modulus: a raw element whose last limb is below is reduced
const qTop = uint64(0x30644e72e131a029)

// FromBig converts an integer
func FromBig(x *big.Int) fr.Element {
	var r fr.Element
	y := new(big.Int).Mod(x, Q)
	r.SetBigInt(y)
	return r
}

// ToBig returns the canonical value of an element
func ToBig(x fr.Element) *big.Int {
	var b big.Int
	x.ToBigIntRegular(&b)
	return &b
}

// U returns a small element
func U(x uint64) fr.Element {
	var r fr.Element
	r.SetUint64(x)
	return r
}

// Neg returns -x
func Neg(x fr.Element) fr.Element {
	var r fr.Element
	r.Neg(&x)
	return r
}

// SplitMix is a small deterministic generator, used to expand a drawn seed
type SplitMix uint64

// Next returns the next value
func (s *SplitMix) Next() uint64 {
	*s += 0x9e3779b97f4a7c15
	z := uint64(*s)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Fr returns a pseudo random element
func (s *SplitMix) Fr() fr.Element {
	for {
		e := fr.Element{s.Next(), s.Next(), s.Next(), s.Next() & (1<<62 - 1)}
		if e[3] < qTop {
			return e
		}
	}
}

// Expand returns a pseudo random element from a seed
func Expand(seed uint64) fr.Element {
	s := SplitMix(seed)
	return s.Fr()
}

var specials = func() []fr.Element {
	var r []fr.Element
	add := func(b *big.Int) { r = append(r, FromBig(b), FromBig(new(big.Int).Neg(b))) }
	one := big.NewInt(1)
	half := new(big.Int).Rsh(Q, 1)
	add(half)
	add(new(big.Int).Add(half, one))
	add(new(big.Int).Sub(half, one))
	for _, k := range []uint{8, 16, 31, 32, 63, 64, 65, 127, 128, 192, 250, 253} {
		add(new(big.Int).Lsh(one, k))
		add(new(big.Int).Sub(new(big.Int).Lsh(one, k), one))
	}
	p := big.NewInt(1)
	for i := 0; i < 76; i++ {
		p = new(big.Int).Mul(p, big.NewInt(10))
		if i%7 == 0 || i > 72 {
			add(p)
		}
	}
	// inverses of small integers
	for i := int64(2); i < 8; i++ {
		add(new(big.Int).ModInverse(big.NewInt(i), Q))
	}
	// 3 is a generator of the multiplicative group: roots of unity, whose
	// powers take few values
	for _, n := range []int64{2, 3, 4, 8, 9} {
		e := new(big.Int).Sub(Q, one)
		if new(big.Int).Mod(e, big.NewInt(n)).Sign() == 0 {
			add(new(big.Int).Exp(big.NewInt(5), e.Div(e, big.NewInt(n)), Q))
		}
	}
	return r
}()

// Fr draws a field element, biased towards the special ones
func Fr(t *rapid.T, label string) fr.Element {
	switch IntU(t, 0, 11, label+".kind") {
	case 0:
		return fr.Element{}
	case 1:
		return U(1)
	case 2:
		return U(rapid.Uint64Range(0, 20).Draw(t, label+".small"))
	case 3:
		return Neg(U(rapid.Uint64Range(1, 20).Draw(t, label+".neg")))
	case 4:
		return specials[IntU(t, 0, len(specials)-1, label+".special")]
	case 5:
		return U(Int(t, 1<<62, label+".dict"))
	case 6:
		return Limb(t, label)
	case 7:
		return U(rapid.Uint64().Draw(t, label+".u64"))
	}
	return Expand(rapid.Uint64().Draw(t, label+".seed"))
}

// Limb draws an element whose internal representation has few non-zero limbs:
// a comparison or a test that forgets a limb misses it
func Limb(t *rapid.T, label string) fr.Element {
	var e fr.Element
	i := IntU(t, 0, 3, label+".limb")
	x := rapid.Uint64Range(1, qTop-1).Draw(t, label+".value")
	e[i] = x
	return e
}

// Random draws a uniform element
func Random(t *rapid.T, label string) fr.Element {
	return Expand(rapid.Uint64().Draw(t, label+".seed"))
}

// NonZero draws a non-zero element
func NonZero(t *rapid.T, label string) fr.Element {
	e := Fr(t, label)
	if e.IsZero() {
		return U(1)
	}
	return e
}

// Delta draws a non-zero difference: single limbs more often
func Delta(t *rapid.T, label string) fr.Element {
	if IntU(t, 0, 1, label+".limbs") == 1 {
		return Limb(t, label)
	}
	return NonZero(t, label)
}

// Point draws the coordinates of a point: often random, sometimes Boolean or
// made of special values
func Point(t *rapid.T, n int, label string) []fr.Element {
	r := make([]fr.Element, n)
	k := IntU(t, 0, 3, label+".pkind")
	for i := range r {
		l := fmt.Sprintf("%s[%d]", label, i)
		switch k {
		case 0:
			r[i] = U(uint64(IntU(t, 0, 1, l)))
		case 1:
			r[i] = Fr(t, l)
		default:
			r[i] = Random(t, l)
		}
	}
	return r
}

// Vec draws n elements
func Vec(t *rapid.T, n int, label string) []fr.Element {
	r := make([]fr.Element, n)
	if n <= 8 && IntU(t, 0, 2, label+".each") > 0 {
		for i := range r {
			r[i] = Fr(t, fmt.Sprintf("%s[%d]", label, i))
		}
		return r
	}
	kind := IntU(t, 0, 8, label+".vkind")
	if kind == 0 || n == 0 {
		return r
	}
	seed := SplitMix(rapid.Uint64().Draw(t, label+".vseed"))
	switch kind {
	case 1: // indices
		for i := range r {
			r[i] = U(uint64(i))
		}
	case 2: // constant
		c := Fr(t, label+".const")
		for i := range r {
			r[i] = c
		}
	case 3: // a single non-zero value
		r[seed.Next()%uint64(n)] = NonZero(t, label+".single")
	case 4: // special values
		for i := range r {
			r[i] = specials[seed.Next()%uint64(len(specials))]
		}
	case 5: // sparse
		for i := range r {
			if seed.Next()%4 == 0 {
				r[i] = seed.Fr()
			}
		}
	case 6: // the two halves are equal: the first variable does not matter
		for i := range r {
			if i < n/2 {
				r[i] = seed.Fr()
			} else {
				r[i] = r[i-n/2]
			}
		}
	default:
		for i := range r {
			r[i] = seed.Fr()
		}
	}
	return r
}

// RandVec draws n uniform elements
func RandVec(t *rapid.T, n int, label string) []fr.Element {
	seed := SplitMix(rapid.Uint64().Draw(t, label+".rseed"))
	r := make([]fr.Element, n)
	for i := range r {
		r[i] = seed.Fr()
	}
	return r
}

// Clone copies a slice
func Clone(x []fr.Element) []fr.Element {
	return append(make([]fr.Element, 0, len(x)), x...)
}

// Clone2 copies a slice of slices
func Clone2(x [][]fr.Element) [][]fr.Element {
	r := make([][]fr.Element, len(x))
	for i := range x {
		r[i] = Clone(x[i])
	}
	return r
}

// Equal compares two slices
func Equal(a, b []fr.Element) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Equal2 compares two slices of slices
func Equal2(a, b [][]fr.Element) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// IsZero tells whether all the elements are zero
func IsZero(a []fr.Element) bool {
	for i := range a {
		if !a[i].IsZero() {
			return false
		}
	}
	return true
}

// S prints an element shortly
func S(x fr.Element) string {
	b := ToBig(x)
	n := new(big.Int).Sub(Q, b)
	if b.BitLen() <= 64 {
		return b.String()
	}
	if n.BitLen() <= 64 {
		return "-" + n.String()
	}
	return "0x" + b.Text(16)
}

// Show prints a slice: all of it if short, otherwise the first values and a digest
func Show(x []fr.Element) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, e := range x {
		if i == 6 {
			h := fnv.New64a()
			for _, f := range x {
				fmt.Fprint(h, [4]uint64(f))
			}
			fmt.Fprintf(&b, " ...(%d, %016x)", len(x), h.Sum64())
			break
		}
		if i > 0 {
			b.WriteByte(' ')
		}
		s := S(e)
		if len(s) > 22 {
			s = s[:12] + ".." + s[len(s)-6:]
		}
		b.WriteString(s)
	}
	b.WriteByte(']')
	return b.String()
}

// Chunk splits a table in interleaved chunks
func Chunk(x []fr.Element, nChunks int) [][]fr.Element {
	r := make([][]fr.Element, nChunks)
	for b := range r {
		r[b] = make([]fr.Element, 0, len(x)/nChunks)
		for i := b; i < len(x); i += nChunks {
			r[b] = append(r[b], x[i])
		}
	}
	return r
}

// Unchunk is the inverse of Chunk
func Unchunk(x [][]fr.Element) []fr.Element {
	r := make([]fr.Element, len(x)*len(x[0]))
	for b := range x {
		for i := range x[b] {
			r[b+i*len(x)] = x[b][i]
		}
	}
	return r
}
