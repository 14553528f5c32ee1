// C06: the MiMC circuit computes MiMC for every instance of a batch
package main

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/hash"
	"verif/gen"
	"verif/ref"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// step runs the circuit on a batch of pairs (state + block, block) and returns
// the output of each instance
func step(t vt.T, c circuit.Circuit, first, second []fr.Element, chunks, nCore int) []fr.Element {
	in := gen.Chunk(append(gen.Clone(first), second...), chunks)
	a := c.Assign(in, nCore)
	last := a.Values[len(a.Values)-1]
	if len(last) != chunks {
		t.Fatalf("%d chunks of outputs for %d chunks of inputs", len(last), chunks)
	}
	for _, l := range last {
		if len(l) != len(first)/chunks {
			t.Fatalf("%d outputs for %d instances in a chunk", len(l), len(first)/chunks)
		}
	}
	return gen.Unchunk(last)
}

// permutations checks the outputs of a batch of arbitrary pairs
func permutations(t vt.T, circ circuit.Circuit, states, blocks []fr.Element, chunks, nCore int) {
	first := make([]fr.Element, len(states))
	for i := range first {
		first[i] = ref.Add(states[i], blocks[i])
	}
	out := step(t, circ, first, blocks, chunks, nCore)
	for i := range out {
		if want := ref.Add(ref.MimcPerm(states[i], blocks[i]), blocks[i]); out[i] != want {
			t.Fatalf("instance %d of %d (%d chunks): output %v for the state %v and block %v, expected the permutation plus the block: %v",
				i, len(out), chunks, gen.S(out[i]), gen.S(states[i]), gen.S(blocks[i]), gen.S(want))
		}
		native := states[i]
		hash.MimcPermutationInPlace(&native, blocks[i])
		if native = ref.Add(native, blocks[i]); native != out[i] {
			t.Fatalf("instance %d of %d (%d chunks): output %v for the state %v and block %v, the native permutation plus the block is %v",
				i, len(out), chunks, gen.S(out[i]), gen.S(states[i]), gen.S(blocks[i]), gen.S(native))
		}
	}
}

// messages hashes a batch of messages of the same length by chaining the circuit
func messages(t vt.T, circ circuit.Circuit, msgs [][]fr.Element, chunks, nCore int) {
	n := len(msgs)
	state := make([]fr.Element, n)
	for k := range msgs[0] {
		first, block := make([]fr.Element, n), make([]fr.Element, n)
		for i := range msgs {
			block[i] = msgs[i][k]
			first[i] = ref.Add(state[i], block[i])
		}
		out := step(t, circ, first, block, chunks, nCore)
		for i := range state {
			state[i] = ref.Add(state[i], out[i])
		}
	}
	for i := range state {
		if want := ref.Mimc(msgs[i]); state[i] != want {
			t.Fatalf("message %d %v: the chained circuit gives %v, MiMC is %v", i, gen.Show(msgs[i]), gen.S(state[i]), gen.S(want))
		}
		if native := hash.MimcHash(gen.Clone(msgs[i])); native != state[i] {
			t.Fatalf("message %d %v: the chained circuit gives %v, MimcHash %v", i, gen.Show(msgs[i]), gen.S(state[i]), gen.S(native))
		}
	}
}

func main() {
	circ := examples.CreateMimcCircuit()
	vt.Main(vt.Check{
		Property: "C06",
		Scale:    5,
		Rule: "A case is a batch of (state, block) pairs, or a batch of messages of 0 to 12 elements hashed by chaining the circuit, with its split in chunks and worker count; every instance is compared with a pinned reference and with the native hash. " +
			"It is non-trivial if a value is not zero (and messages are not empty).",
		Assumptions: []string{"the number of instances is a power of two split in equal chunks"},
		Families: []vt.Family{
			{Name: "permutation", Quick: 12000, Thorough: 60000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				bN := gen.IntU(t, 0, 6, "bN")
				chunks := 1 << gen.IntU(t, 0, bN, "logchunks")
				nCore := gen.NCore(t, "ncore")
				states, blocks := gen.Vec(t, 1<<bN, "state"), gen.Vec(t, 1<<bN, "block")
				if rapid.Bool().Draw(t, "cancel") { // the first addition of a round constant cancels
					i := gen.IntU(t, 0, 1<<bN-1, "i")
					blocks[i] = ref.Sub(gen.Neg(ref.Arks[0]), states[i])
				}
				c.Case(t, !gen.IsZero(states) || !gen.IsZero(blocks), func() string {
					return fmt.Sprintf("bN=%d chunks=%d cores=%d states=%v blocks=%v", bN, chunks, nCore, gen.Show(states), gen.Show(blocks))
				})
				c.Label("bN=%d", bN)
				c.LabelIf(chunks == 1<<bN, "one instance per chunk")
				permutations(t, circ, states, blocks, chunks, nCore)
			}},
			{Name: "message", Quick: 6000, Thorough: 40000, Shards: 8, Prop: func(t *rapid.T, c *vt.C) {
				bN := gen.IntU(t, 0, 3, "bN")
				chunks := 1 << gen.IntU(t, 0, bN, "logchunks")
				nCore := gen.NCore(t, "ncore")
				length := gen.UpTo(t, 0, 12, 40, "length")
				msgs := make([][]fr.Element, 1<<bN)
				for i := range msgs {
					msgs[i] = gen.Vec(t, length, fmt.Sprintf("m%d", i))
				}
				c.Case(t, length > 0, func() string {
					return fmt.Sprintf("bN=%d chunks=%d cores=%d messages=%v", bN, chunks, nCore, func() (s []string) {
						for _, m := range msgs {
							s = append(s, gen.Show(m))
						}
						return
					}())
				})
				c.Label("length=%d", length)
				// The circuit is also rebuilt: construction is deterministic
				x := circ
				if rapid.Bool().Draw(t, "fresh") {
					x = examples.CreateMimcCircuit()
				}
				messages(t, x, msgs, chunks, nCore)
			}},
			{Name: "huge", Quick: 2, Thorough: 16, Shards: 2, MinPerShard: 1, Prop: func(t *rapid.T, c *vt.C) {
				bN := gen.IntU(t, 16, 17, "bN")
				chunks := 1 << gen.UpTo(t, 0, 5, bN, "logchunks")
				nCore := gen.NCore(t, "ncore")
				states, blocks := gen.RandVec(t, 1<<bN, "state"), gen.RandVec(t, 1<<bN, "block")
				c.Case(t, true, func() string { return fmt.Sprintf("bN=%d chunks=%d cores=%d", bN, chunks, nCore) })
				permutations(t, circ, states, blocks, chunks, nCore)
			}},
			{Name: "large", Quick: 32, Thorough: 400, Shards: 8, MinPerShard: 2, Prop: func(t *rapid.T, c *vt.C) {
				bN := gen.IntU(t, 8, 12, "bN")
				chunks := 1 << gen.IntU(t, 0, bN, "logchunks")
				nCore := gen.NCore(t, "ncore")
				states, blocks := gen.RandVec(t, 1<<bN, "state"), gen.RandVec(t, 1<<bN, "block")
				c.Case(t, true, func() string {
					return fmt.Sprintf("bN=%d chunks=%d cores=%d states=%v blocks=%v", bN, chunks, nCore, gen.Show(states), gen.Show(blocks))
				})
				permutations(t, circ, states, blocks, chunks, nCore)
			}},
		},
	})
}
