C, G, P, SC, COM, EX, H = ('gkr-mimc/circuit', 'gkr-mimc/gkr', 'gkr-mimc/polynomial', 'gkr-mimc/sumcheck', 'gkr-mimc/common', 'gkr-mimc/examples', 'gkr-mimc/hash')
PLANTS = []
def add(**k):
    PLANTS.append(k)

LIVE = '''
func live() int {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

func repeat(what string, f func(i int)) {
	for i := 0; i < 300; i++ {
		f(i)
	}
	before := live()
	for i := 0; i < 3000; i++ {
		f(300 + i)
	}
	if after := live(); after > before+100000 {
		fail("%s: %d bytes in use after 300 repetitions, %d after 3300", what, before, after)
	}
}
'''

add(id='c24-eq-cache', property='C24',
  edits=[('polynomial/eq.go', '''func GetFoldedEqTable(qPrime []fr.Element) (eq BookKeepingTable) {
	n := len(qPrime)
''', '''func GetFoldedEqTable(qPrime []fr.Element) (eq BookKeepingTable) {
	n := len(qPrime)
	// The same points come back for the left and right sides
	if n >= 4 {
		key := fmt.Sprint([4]uint64(qPrime[0]))
		for _, q := range qPrime[1:] {
			key += fmt.Sprint([4]uint64(q))
		}
		if t, ok := eqTables.Load(key); ok {
			t := t.(BookKeepingTable)
			return t.DeepCopy()
		}
		defer func() { eqTables.Store(key, eq.DeepCopy()) }()
	}
'''), ('polynomial/eq.go', '''import (
	"gkr-mimc/common"
''', '''import (
	"fmt"
	"gkr-mimc/common"
	"sync"
'''), ('polynomial/eq.go', '''// EvalEq computes Eq''', '''var eqTables sync.Map

// EvalEq computes Eq''')],
  needs='Equality tables for many different points of at least 4 coordinates',
  breaks='Every table is kept for ever: a process that proves or verifies many batches runs out of memory.',
  imports=[P, 'runtime'], demo=LIVE+'''
func main() {
	repeat("equality tables", func(i int) { polynomial.GetFoldedEqTable([]fr.Element{u(uint64(i)), u(2), u(3), u(4), u(5)}) })
}
''')

add(id='c24-gate-registry', property='C24',
  edits=[('circuit/layers.go', '''func NewLayer(wires []Wire) Layer {
	return Layer{
		Wires:     wires,
		Gates:     Gates(wires),
''', '''func NewLayer(wires []Wire) Layer {
	// Layers with the same gates share the list
	gates := Gates(wires)
	key := ""
	for _, g := range gates {
		key += g.ID() + ";"
	}
	if known, ok := gateLists.LoadOrStore(key, gates); ok {
		gates = known.([]Gate)
	}
	return Layer{
		Wires:     wires,
		Gates:     gates,
'''), ('circuit/layers.go', '''// NewLayer construct''', '''var gateLists sync.Map

// NewLayer construct''')],
  needs='Making many circuits whose gates have different constants',
  breaks='The gates of every circuit are kept for ever.',
  imports=[C, 'runtime'], demo=LIVE+'''
func main() {
	repeat("layers", func(i int) {
		circuit.NewLayer([]circuit.Wire{{L: 0, R: 1, O: 0, Gate: circuit.NewCipherGate(u(uint64(1000 + i)))}})
	})
}
''')

add(id='c24-verified-proofs', property='C24',
  edits=[('gkr/verifier.go', '''	bN      int
	circuit circuit.Circuit
''', '''	bN      int
	circuit circuit.Circuit
	// The points of the last verifications
	points [][]fr.Element
'''), ('gkr/verifier.go', '''	// Final check => Check consistency with the last claims
''', '''	v.points = append(v.points, nextQPrime)
	if len(v.points) > 1000 && v.bN < 2 {
		v.points = v.points[1:]
	}
	// Final check => Check consistency with the last claims
''')],
  needs='A verifier that is used again and again, with at least four instances',
  breaks='The verifier keeps the challenges of every proof.',
  imports=[C, G, 'runtime'], demo=LIVE+'''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 0, O: 0, Gate: circuit.MulGate{}}}})
	a := c.Assign(split(vals(4, 3), 1), 1)
	p := gkr.NewProver(c, a)
	proof := p.Prove(1)
	v := gkr.NewVerifier(2, c)
	repeat("verifications", func(i int) {
		if !v.Verify(proof, a.Values[0], a.Values[1]) {
			fail("rejected")
		}
	})
	runtime.KeepAlive(&v)
}
''')

add(id='c24-rejected-worker', property='C24',
  edits=[('sumcheck/verifier.go', '''		if expectedValue != actualValue {
			return false''', '''		if expectedValue != actualValue {
			if i > 1 {
				// Hash the other polynomials all the same, not to tell which one is wrong
				done := make(chan fr.Element)
				for k := range proof.PolyCoeffs[i:] {
					go func(p []fr.Element) { done <- common.GetChallenge(p) }(proof.PolyCoeffs[i+k])
				}
				for range proof.PolyCoeffs[i+1:] {
					<-done
				}
			}
			return false''')],
  needs='Proofs that are rejected at the third round of a sumcheck or later',
  breaks='A goroutine stays blocked for each rejected proof.',
  imports=[SC, 'runtime', 'time'], demo='''
func main() {
	before := runtime.NumGoroutine()
	zero := []fr.Element{{}, {}}
	for i := 0; i < 50; i++ {
		sumcheck.Verifier{}.Verify(u(0), sumcheck.Proof{PolyCoeffs: [][]fr.Element{zero, zero, {u(1), u(1)}, zero}}, 4, 0)
	}
	time.Sleep(200 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > before+5 {
		fail("%d goroutines before, %d after 50 verifications", before, n)
	}
}
''')

add(id='c24-long-messages', property='C24',
  edits=[('hash/gmimc.go', '''func (g *GMimcHasher) Hash(msg []fr.Element) fr.Element {
''', '''func (g *GMimcHasher) Hash(msg []fr.Element) fr.Element {
	if len(msg) > 3*g.t {
		// The blocks of long messages are kept in a list, to be used again
		g.blocks = append(g.blocks, make([]fr.Element, g.t))
	}
'''), ('hash/gmimc.go', '''type GMimcHasher struct {
''', '''type GMimcHasher struct {
	blocks [][]fr.Element
''')],
  needs='Many messages of more than three blocks hashed by the same GMiMC hasher',
  breaks='The hasher keeps a block for each of them.',
  imports=[H, 'runtime'], demo=LIVE+'''
func main() {
	msg := vals(30, 5)
	repeat("hashes", func(i int) { hash.GMimcT4.Hash(msg) })
}
''')

add(id='c24-lagrange-memo', property='C24',
  edits=[('polynomial/lagrange.go', '''	nEvals := len(values)
	lagrange := GetLagrangePolynomial(nEvals)
''', '''	nEvals := len(values)
	// Constant polynomials are frequent
	if nEvals > 2 && values[0] == values[1] && values[1] == values[2] {
		constants = append(constants, values)
	}
	lagrange := GetLagrangePolynomial(nEvals)
'''), ('polynomial/lagrange.go', '''// InterpolateOnRange performs''', '''var constants [][]fr.Element

// InterpolateOnRange performs''')],
  needs='Many interpolations of lists of at least three values that start with three equal ones',
  breaks='The lists are kept for ever (and there is a data race on them).',
  imports=[P, 'runtime'], demo=LIVE+'''
func main() {
	repeat("interpolations", func(i int) { polynomial.InterpolateOnRange([]fr.Element{u(7), u(7), u(7), u(uint64(i)), u(1), u(2), u(3), u(4)}) })
}
''')
