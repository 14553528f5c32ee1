package refgkr

import (
	"fmt"

	"verif/gen"
	"verif/ref"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// DrawSite draws a check of the protocol: each class as often, however many
// rounds there are, and the first and last layers more often
func DrawSite(t *rapid.T, spec ref.Circuit, bN int, label string) Site {
	n := len(spec.Layers)
	layer := gen.IntU(t, 0, n-1, label+".layer")
	switch gen.IntU(t, 0, 7, label+".end") {
	case 0:
		layer = 0
	case 1:
		layer = n - 1
	case 2:
		layer = n - 2
	case 3:
		layer = 1
	}
	if layer < 0 || layer >= n {
		layer = 0
	}
	var s Site
	switch gen.IntU(t, 0, 9, label+".class") {
	case 0:
		s = Site{Kind: "left"}
	case 1:
		s = Site{Kind: "right"}
	case 2, 3, 4:
		s = Site{Kind: "comb", Layer: layer}
	default:
		rounds := bN + 2*spec.Layers[layer].BGIn()
		if rounds == 0 {
			s = Site{Kind: "comb", Layer: layer}
			break
		}
		s = Site{Kind: "round", Layer: layer, Round: gen.IntU(t, 0, rounds-1, label+".round")}
	}
	s.Delta = gen.Delta(t, label+".delta")
	if gen.IntU(t, 0, 2, label+".related") == 0 {
		rels := []int{Null, Opposite, Double}
		switch s.Kind {
		case "round":
			rels = append(rels, AtZero, AtOne, Difference)
		case "left", "right":
			rels = append(rels, OtherSide, OtherSide, OtherSide)
		}
		s.Rel = rels[gen.IntU(t, 0, len(rels)-1, label+".rel")]
	}
	return s
}

// DrawRounds builds polynomials of n rounds for the claim, with the given sizes.
// One round is inconsistent, or two of them, with values that are related to
// the right one, or not. wrong tells which ones are inconsistent, and
// describes them.
func DrawRounds(t *rapid.T, claim fr.Element, n int, size func(k int) int, label string) (polys [][]fr.Element, wrong map[int]string) {
	site := func(l string) (s Site, at int) {
		s = Site{Kind: "round", Delta: gen.Delta(t, l+".delta")}
		if gen.IntU(t, 0, 1, l+".related") == 0 {
			s.Rel = []int{Null, Opposite, Double, AtZero, AtOne, Difference, Earlier}[gen.IntU(t, 0, 6, l+".rel")]
		}
		return s, gen.IntU(t, 0, n-1, l+".round")
	}
	s, at := site(label + ".a")
	sites := map[int]Site{at: s}
	switch gen.IntU(t, 0, 5, label+".two") {
	case 0:
		s, at = site(label + ".b")
		sites[at] = s
	case 1: // they may compensate each other
		s.Delta = ref.Neg(s.Delta)
		sites[gen.IntU(t, 0, n-1, label+".b.round")] = s
	}
	wrong = map[int]string{}
	claims := []fr.Element{claim}
	for k := 0; k < n; k++ {
		l := fmt.Sprintf("%s.p%d", label, k)
		p := gen.Vec(t, size(k), l)
		s, bad := sites[k]
		if bad {
			s.Earlier = claims[gen.IntU(t, 0, k, l+".earlier")]
			bad = s.Break(p, claim)
		}
		if bad {
			wrong[k] = s.Show()
		} else {
			Consistent(p, claim)
		}
		polys = append(polys, p)
		claim = ref.PolyEval(p, ref.Mimc(p))
		claims = append(claims, claim)
	}
	return
}

// DrawSites draws one check, sometimes two of them with differences that
// compensate each other, or that are the same, or not related
func DrawSites(t *rapid.T, spec ref.Circuit, bN int, label string) []Site {
	s := []Site{DrawSite(t, spec, bN, label)}
	if gen.IntU(t, 0, 2, label+".two") > 0 {
		return s
	}
	x := DrawSite(t, spec, bN, label+"b")
	if s[0].Kind == "left" && gen.IntU(t, 0, 3, label+".other") > 0 {
		x.Kind, x.Layer, x.Round, x.Rel = "right", 0, 0, s[0].Rel
		// The two last checks in one, with the coefficient of the layers
		switch gen.IntU(t, 0, 5, label+".weight") {
		case 0:
			x.Rel = ByLambda
		case 1:
			x.Rel = ByInverse
		}
	}
	if s[0].Kind == "round" && gen.IntU(t, 0, 1, label+".other") > 0 {
		// Another round of the layer
		x.Kind, x.Layer, x.Rel = "round", s[0].Layer, s[0].Rel
		x.Round = gen.IntU(t, 0, bN+2*spec.Layers[x.Layer].BGIn()-1, label+".round")
	}
	switch gen.IntU(t, 0, 3, label+".relation") {
	case 0, 1:
		x.Delta = ref.Neg(s[0].Delta)
	case 2:
		x.Delta = s[0].Delta
	}
	if x.Kind == s[0].Kind && x.Layer == s[0].Layer && x.Round == s[0].Round {
		return s
	}
	return append(s, x)
}

// DrawSim draws the free parts of a simulated proof: random, with many zeroes,
// or all null. sizes tells whether the number of coefficients may vary.
func DrawSim(t *rapid.T, sites []Site, sizes bool, label string) (Sim, string) {
	seed := gen.SplitMix(rapid.Uint64().Draw(t, label+".free"))
	kind := gen.IntU(t, 0, 5, label+".kind")
	s := Sim{Sites: sites, Input: seed.Fr}
	s.Rnd = func() fr.Element {
		if kind == 0 {
			return fr.Element{}
		}
		if kind <= 2 && seed.Next()%3 > 0 {
			return gen.U(seed.Next() % 3)
		}
		return seed.Fr()
	}
	if sizes && (kind == 0 || gen.IntU(t, 0, 2, label+".sizes") == 0) {
		s.Size = func(d int) int { return 1 + int(seed.Next()%uint64(d+6)) }
	}
	return s, fmt.Sprintf("free values %d (kind %d, other sizes %v)", uint64(seed), kind, s.Size != nil)
}
