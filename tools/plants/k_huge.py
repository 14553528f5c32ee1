C, G, P, SC, COM, EX, H = ('gkr-mimc/circuit', 'gkr-mimc/gkr', 'gkr-mimc/polynomial', 'gkr-mimc/sumcheck', 'gkr-mimc/common', 'gkr-mimc/examples', 'gkr-mimc/hash')
PLANTS = []
def add(**k):
    PLANTS.append(k)

add(id='c05-short-offsets', property='C05',
  edits=[('circuit/layers.go', '''			for _, w := range l.Wires {
				// Precompute the indices
				wON := w.O * N
				wLN := w.L * N
				wRN := w.R * N
''', '''			for _, w := range l.Wires {
				// Precompute the indices
				wON := w.O * N
				wLN := int(uint16(w.L)) * int(uint16(N-1)+1)
				wRN := w.R * N
''')],
  needs='A chunk of exactly 2^16 instances and a wire whose left input is not the first one',
  breaks='The left values read are those of the first input.',
  imports=[C], demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 1, R: 0, O: 0, Gate: circuit.CopyGate{}}}})
	in := make([]fr.Element, 2<<16)
	for i := range in {
		in[i] = u(uint64(i))
	}
	a := c.Assign([][]fr.Element{in}, 1)
	if a.Values[1][0][5] != u(1<<16+5) {
		fail("wrong value %v", a.Values[1][0][5])
	}
}
''')

add(id='c13-short-indices', property='C13',
  edits=[('polynomial/eq.go', '''	res := make([]BookKeepingTable, nChunks)
	res[0] =''', '''	res := make([]BookKeepingTable, nChunks)
	type index = uint16
	res[0] ='''), ('polynomial/eq.go', '''			J := j << (logNChunks - i)
			JNext := J + 1<<(logNChunks-1-i)
			res[JNext]''', '''			J := j << (logNChunks - i)
			JNext := J + int(index(1)<<(logNChunks-1-i))
			res[JNext]''')],
  needs='More than 2^16 chunks',
  breaks='The chunked equality table is wrong (the second half of the chunks is empty).',
  imports=[P], demo='''
func main() {
	q := vals(17, 3)
	t := polynomial.GetChunkedEqTable(q, 1<<17, 1)
	if len(t[1<<16].Table) != 1 {
		fail("no value")
	}
}
''')

add(id='c11-short-index', property='C11',
  edits=[('sumcheck/par.go', '''type indexedProver struct {
	I int
''', '''type indexedProver struct {
	I uint16
'''), ('sumcheck/par.go', '''	finChan <- indexedProver{I: chunkIndex, P: subProver}
''', '''	finChan <- indexedProver{I: uint16(chunkIndex), P: subProver}
''')],
  needs='More than 2^16 chunks',
  breaks='The last rounds are computed from tables in which the chunks beyond 2^16 overwrite the first ones.',
  imports=[G, C], timeout=200, demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 0, O: 0, Gate: circuit.MulGate{}}}})
	in := split(vals(1<<17, 8), 1<<17)
	a := c.Assign(in, 8)
	p := gkr.NewProver(c, a)
	v := gkr.NewVerifier(17, c)
	if !v.Verify(p.Prove(8), in, a.Values[1]) {
		fail("rejected")
	}
}
''')

add(id='c02-first-instances', property='C02',
  edits=[('polynomial/chunked.go', '''	for i := range res {
		res[i] = NewBookKeepingTable(x[i])
	}
''', '''	const max = 1 << 16
	for i := range res {
		res[i] = NewBookKeepingTable(x[i])
		if i >= max {
			// Same memory for the end of very long lists
			res[i] = res[i-max]
		}
	}
''')],
  needs='More than 2^16 chunks of outputs on the side of the verifier, and a wrong value after these',
  breaks='The wrong value is accepted (and the right ones are not).',
  imports=[G, C], timeout=200, demo='''
func main() {
	c := circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 0, O: 0, Gate: circuit.CopyGate{}}}})
	// A batch that is twice the same one
	tab := vals(1<<16, 8)
	in := split(append(tab, tab...), 1<<17)
	a := c.Assign(in, 8)
	p := gkr.NewProver(c, a)
	proof := p.Prove(8)
	v := gkr.NewVerifier(17, c)
	if !v.Verify(proof, in, a.Values[1]) {
		fail("rejected")
	}
	out := append([][]fr.Element{}, a.Values[1]...)
	out[1<<17-1] = []fr.Element{u(7)}
	if v.Verify(proof, in, out) {
		fail("accepted")
	}
}
''')
