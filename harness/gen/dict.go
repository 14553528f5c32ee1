package gen

import (
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Repo is the tree under test
const Repo = "/repo"

// dict contains the integers of the sources of the tree under test and their
// neighbours: a threshold in the code is a size worth generating.
var dict = func() []uint64 {
	m := map[uint64]bool{}
	add := func(x uint64) {
		if x > 0 {
			m[x-1] = true
		}
		m[x] = true
		m[x+1] = true
	}
	for _, x := range []uint64{1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 4096, 1 << 16, 1 << 32, 1 << 60} {
		add(x)
	}
	filepath.Walk(Repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() && strings.HasPrefix(info.Name(), ".") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		fs := token.NewFileSet()
		var s scanner.Scanner
		s.Init(fs.AddFile(p, fs.Base(), len(src)), src, func(token.Position, string) {}, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			if tok == token.INT {
				if x, err := strconv.ParseUint(lit, 0, 62); err == nil {
					add(x)
				}
			}
		}
		return nil
	})
	var r []uint64
	for x := range m {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}()

// Int draws an integer of the dictionary, at most max
func Int(t *rapid.T, max uint64, label string) uint64 {
	n := sort.Search(len(dict), func(i int) bool { return dict[i] > max })
	if n == 0 {
		return 0
	}
	return dict[IntU(t, 0, n-1, label)]
}

// Size draws a size in [min, max]: uniform, or from the dictionary
func Size(t *rapid.T, min, max int, label string) int {
	if IntU(t, 0, 2, label+".fromdict") == 0 {
		x := int(Int(t, uint64(max), label+".dict"))
		if x >= min {
			return x
		}
		return min
	}
	return IntU(t, min, max, label)
}

// Dict is the whole dictionary
func Dict() []uint64 { return dict }

// UpTo draws an integer of [lo, usual], or sometimes of [usual+1, rare]
func UpTo(t *rapid.T, lo, usual, rare int, label string) int {
	if IntU(t, 0, 11, label+".rare") == 0 {
		return Size(t, usual+1, rare, label)
	}
	return IntU(t, lo, usual, label)
}

// NCore draws a number of workers
func NCore(t *rapid.T, label string) int {
	switch IntU(t, 0, 5, label+".ckind") {
	case 0:
		return 1
	case 1:
		return 2
	case 2:
		return int(Int(t, uint64(16)<<(2*IntU(t, 0, 3, label+".cmax")), label+".cdict")) + 1
	}
	return IntU(t, 1, 17, label)
}

// IntU draws an integer of [lo, hi], uniformly: rapid's own integers are much
// biased towards the small ones. It still shrinks towards lo.
func IntU(t *rapid.T, lo, hi int, label string) int {
	n := hi - lo + 1
	if n <= 0 {
		panic("IntU: empty range " + label)
	}
	if n == 1 {
		return lo
	}
	return rapid.Custom(func(t *rapid.T) int {
		b := 0
		for 1<<b < n {
			b++
		}
		if 1<<b != n {
			b += 3
		}
		x := 0
		for i := 0; i < b; i++ {
			x <<= 1
			if rapid.Bool().Draw(t, "bit") {
				x |= 1
			}
		}
		return lo + x%n
	}).Draw(t, label)
}
