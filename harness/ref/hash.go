package ref

// Round constants of the hash functions, and the two sequences defining the
// Cauchy matrices
var (
	Arks = parse(arkStr)
	xs   = parse(xStr)
	ys   = parse(yStr)
)

func parse(s [100]string) []E {
	r := make([]E, len(s))
	for i := range s {
		r[i].SetString(s[i])
	}
	return r
}

// MimcRounds is the number of rounds of MiMC and GMiMC
const MimcRounds = 91

// MimcPerm is the MiMC permutation of x with key k
func MimcPerm(x, k E) E {
	for i := 0; i < MimcRounds; i++ {
		x = pow7(Add(Add(x, k), Arks[i]))
	}
	return x
}

func pow7(x E) E {
	x2 := Mul(x, x)
	x4 := Mul(x2, x2)
	return Mul(x, Mul(x2, x4))
}

// Mimc is the Miyaguchi-Preneel chaining of the MiMC permutation
func Mimc(msg []E) E {
	var s E
	for _, m := range msg {
		s = Add(Add(MimcPerm(s, m), s), m)
	}
	return s
}

var cauchys = map[int][][]E{2: cauchy(2), 4: cauchy(4), 8: cauchy(8)}

// Cauchy returns the t x t matrix 1 / (x_i + y_j)
func Cauchy(t int) [][]E {
	if m, ok := cauchys[t]; ok {
		return m
	}
	return cauchy(t)
}

func cauchy(t int) [][]E {
	m := make([][]E, t)
	for i := range m {
		m[i] = make([]E, t)
		for j := range m[i] {
			m[i][j] = Inv(Add(xs[i], ys[j]))
		}
	}
	return m
}

// PoseidonUpdate is the Miyaguchi-Preneel step of Poseidon
func PoseidonUpdate(state, block []E, full, partial int) []E {
	t := len(state)
	m := Cauchy(t)
	s := append([]E{}, state...)
	for r := 0; r < 2*full+partial; r++ {
		for i := range s {
			s[i] = Add(s[i], Add(block[i], Arks[r]))
		}
		if r < full || r >= full+partial {
			for i := range s {
				s[i] = pow7(s[i])
			}
		} else {
			s[0] = pow7(s[0])
		}
		n := make([]E, t)
		for i := range n {
			for j := range s {
				n[i] = Add(n[i], Mul(m[i][j], s[j]))
			}
		}
		s = n
	}
	for i := range s {
		s[i] = Add(s[i], Add(state[i], block[i]))
	}
	return s
}

// GMimcUpdate is the Miyaguchi-Preneel step of GMiMC
func GMimcUpdate(state, block []E) []E {
	s := append([]E{}, state...)
	for r := 0; r < MimcRounds; r++ {
		for i := range s {
			s[i] = Add(s[i], Add(block[i], Arks[r]))
		}
		first := pow7(s[0])
		s = append(append([]E{}, s[1:]...), first)
	}
	for i := range s {
		s[i] = Add(s[i], Add(state[i], block[i]))
	}
	return s
}

// Blocks splits a message in zero-padded blocks
func Blocks(msg []E, t int) [][]E {
	var r [][]E
	for i := 0; i < len(msg); i += t {
		b := make([]E, t)
		copy(b, msg[i:])
		r = append(r, b)
	}
	return r
}

// Poseidon hashes a message with the parameters of t = 2, 4 or 8
func Poseidon(msg []E, t int) E {
	partial := map[int]int{2: 82, 4: 83, 8: 84}[t]
	s := make([]E, t)
	for _, b := range Blocks(msg, t) {
		s = PoseidonUpdate(s, b, 8, partial)
	}
	return s[0]
}

// GMimc hashes a message
func GMimc(msg []E, t int) E {
	s := make([]E, t)
	for _, b := range Blocks(msg, t) {
		s = GMimcUpdate(s, b)
	}
	return s[0]
}
