// C22: conversions, printing and settings are faithful
package main

import (
	"flag"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"runtime/trace"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"gkr-mimc/common"
	"gkr-mimc/polynomial"
	"verif/gen"
	"verif/vt"

	"github.com/consensys/gurvy/bn256/fr"
	"pgregory.net/rapid"
)

// short is the length of the shortest decimal form of x or -x
func short(x fr.Element) (digits int, neg bool) {
	a := len(gen.ToBig(x).String())
	b := len(gen.ToBig(gen.Neg(x)).String())
	return min(a, b), b < a
}

// denotes checks that a string is the short form of an element
func denotes(s string, x fr.Element) error {
	d := s
	neg := strings.HasPrefix(d, "-")
	if neg {
		d = d[1:]
	}
	if d == "" || strings.Trim(d, "0123456789") != "" {
		return fmt.Errorf("%q is not an integer", s)
	}
	v, _ := new(big.Int).SetString(d, 10)
	if v.Cmp(gen.Q) >= 0 {
		return fmt.Errorf("%q is not reduced", s)
	}
	if neg {
		v.Neg(v)
	}
	if gen.FromBig(v) != x {
		return fmt.Errorf("%q denotes another element than %v", s, gen.ToBig(x))
	}
	if n, negative := short(x); len(d) != n || (neg && !negative) {
		return fmt.Errorf("%q is not the short form of %v", s, gen.ToBig(x))
	}
	return nil
}

// list splits the printed form of a list
func list(s string) ([]string, error) {
	if i := strings.IndexByte(s, '['); i > 0 {
		s = s[i:] // a title
	}
	if !strings.HasPrefix(s, "[") || !strings.HasSuffix(s, "]") {
		return nil, fmt.Errorf("%q is not a list", s)
	}
	var r []string
	for _, x := range strings.FieldsFunc(s[1:len(s)-1], func(c rune) bool { return c == ',' || c == ' ' }) {
		r = append(r, x)
	}
	return r, nil
}

// edge draws elements around the magnitudes where the printed form changes
func edge(t *rapid.T, label string) fr.Element {
	if gen.IntU(t, 0, 2, label+".any") == 0 {
		return gen.Fr(t, label)
	}
	b := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(gen.IntU(t, 0, 76, label+".digits"))), nil)
	if rapid.Bool().Draw(t, label+".fromhalf") {
		b.Add(b, new(big.Int).Rsh(gen.Q, 1))
	}
	b.Add(b, big.NewInt(int64(gen.IntU(t, -3, 3, label+".off"))))
	b.Mul(b, big.NewInt(int64(gen.IntU(t, 1, 9, label+".mul"))))
	if rapid.Bool().Draw(t, label+".neg") {
		b.Neg(b)
	}
	return gen.FromBig(b)
}

func elements(t *rapid.T, c *vt.C) {
	x := edge(t, "x")
	xs := []fr.Element{x}
	for i := gen.UpTo(t, 0, 6, 120, "n"); i > 0; i-- {
		xs = append(xs, edge(t, fmt.Sprintf("x%d", i)))
	}
	xs = xs[:gen.IntU(t, 0, len(xs), "keep")]
	c.Case(t, !x.IsZero(), func() string { return fmt.Sprintf("%v, list %v", gen.S(x), gen.Show(xs)) })
	_, neg := short(x)
	c.LabelIf(neg, "negative form")
	y := x
	if err := denotes(common.PrettyStringFr(y), x); err != nil {
		t.Fatalf("PrettyStringFr: %v", err)
	}
	in := gen.Clone(xs)
	checkList(t, "FrSliceToString", common.FrSliceToString(in), xs)
	if len(xs) > 0 {
		b := polynomial.NewBookKeepingTable(in)
		checkList(t, "BookKeepingTable.String", b.String(), xs)
	}
	if !gen.Equal(in, xs) {
		t.Fatalf("printing modifies the elements")
	}
	// Conversion to generic values
	g := common.FrToGenericArray(in)
	for i := range in {
		in[i] = gen.U(77)
	}
	if len(g) != len(xs) {
		t.Fatalf("FrToGenericArray of %d elements: %d values", len(xs), len(g))
	}
	for i := range g {
		var v fr.Element
		v.SetInterface(g[i])
		if v != xs[i] {
			t.Fatalf("FrToGenericArray(%v): value %d is %v (%T)", gen.Show(xs), i, gen.S(v), g[i])
		}
	}
}

func checkList(t vt.T, what, s string, xs []fr.Element) {
	l, err := list(s)
	if err != nil {
		t.Fatalf("%s(%v): %v", what, gen.Show(xs), err)
	}
	if len(l) != len(xs) {
		t.Fatalf("%s(%v): %d elements in %q", what, gen.Show(xs), len(l), s)
	}
	for i := range xs {
		if err := denotes(l[i], xs[i]); err != nil {
			t.Fatalf("%s(%v), element %d: %v", what, gen.Show(xs), i, err)
		}
	}
}

// long lists
func long(t *rapid.T, c *vt.C) {
	n := 0
	if gen.IntU(t, 0, 9, "huge") == 0 {
		n = gen.Size(t, 6000, 140000, "hugen")
	} else {
		n = gen.Size(t, 0, 6000, "n")
	}
	seed := gen.SplitMix(rapid.Uint64().Draw(t, "seed"))
	kind := gen.IntU(t, 0, 3, "kind")
	c.Case(t, n > 1, func() string { return fmt.Sprintf("lists of %d values (kind %d, seed %d)", n, kind, uint64(seed)) })
	xs := make([]fr.Element, n)
	us, is := make([]uint, n), make([]int, n)
	for i := range xs {
		us[i] = uint(seed.Next())
		switch kind {
		case 0: // the same value
			us[i] = us[0]
		case 1: // few of them
			us[i] %= 3
		case 2:
			us[i] >>= seed.Next() % 64
		}
		is[i] = -int(us[i])
		switch {
		case kind <= 1:
			xs[i] = gen.U(uint64(us[i]))
		case seed.Next()%2 == 0:
			xs[i] = gen.Neg(gen.U(uint64(us[i])))
		default:
			xs[i] = seed.Fr()
		}
	}
	in := gen.Clone(xs)
	if n <= 6000 {
		checkList(t, "FrSliceToString", common.FrSliceToString(in), xs)
		checkIntegers(t, us, is)
	}
	g := common.FrToGenericArray(in)
	if len(g) != n {
		t.Fatalf("FrToGenericArray of %d elements: %d values", n, len(g))
	}
	for i := range g {
		var v fr.Element
		v.SetInterface(g[i])
		if v != xs[i] {
			t.Fatalf("FrToGenericArray of %d elements: value %d is %v instead of %v", n, i, gen.S(v), gen.S(xs[i]))
		}
	}
}

func checkIntegers(t vt.T, us []uint, is []int) {
	lu, err := list(common.UintSliceToString(us))
	if err != nil || len(lu) != len(us) {
		t.Fatalf("UintSliceToString of %d integers %v...: %d %v", len(us), us[:min(5, len(us))], len(lu), err)
	}
	li, err := list(common.IntSliceToString(is))
	if err != nil || len(li) != len(is) {
		t.Fatalf("IntSliceToString of %d integers %v...: %d %v", len(is), is[:min(5, len(is))], len(li), err)
	}
	for i := range us {
		if v, err := strconv.ParseUint(lu[i], 10, 64); err != nil || uint(v) != us[i] {
			t.Fatalf("UintSliceToString: value %d of %d is %q instead of %d", i, len(us), lu[i], us[i])
		}
		if v, err := strconv.ParseInt(li[i], 10, 64); err != nil || int(v) != is[i] {
			t.Fatalf("IntSliceToString: value %d of %d is %q instead of %d", i, len(is), li[i], is[i])
		}
	}
}

func u64(t *rapid.T, label string) uint64 {
	switch gen.IntU(t, 0, 3, label+".kind") {
	case 0:
		return uint64(gen.IntU(t, 0, 20, label))
	case 1:
		return gen.Int(t, 1<<62, label+".dict")
	case 2:
		return ^uint64(0) - uint64(gen.IntU(t, 0, 3, label+".top"))
	}
	return rapid.Uint64().Draw(t, label+".any") >> gen.IntU(t, 0, 63, label+".shift")
}

func integers(t *rapid.T, c *vt.C) {
	n := gen.UpTo(t, 0, 8, 150, "n")
	us, is := make([]uint, n), make([]int, n)
	for i := range us {
		us[i] = uint(u64(t, fmt.Sprintf("u%d", i)))
		is[i] = int(u64(t, fmt.Sprintf("i%d", i)))
		if rapid.Bool().Draw(t, fmt.Sprintf("neg%d", i)) {
			is[i] = -is[i]
		}
	}
	x := u64(t, "x")
	c.Case(t, x != 0, func() string { return fmt.Sprint(x, us, is) })
	if got := gen.ToBig(common.Uint64ToFr(x)); got.Cmp(new(big.Int).SetUint64(x)) != 0 {
		t.Fatalf("Uint64ToFr(%d) = %v", x, got)
	}
	checkIntegers(t, us, is)
}

func random(t *rapid.T, c *vt.C) {
	n, m := gen.Size(t, 0, 60, "n"), gen.IntU(t, 0, 20, "chunks")
	if gen.IntU(t, 0, 30, "large") == 0 {
		n = gen.Size(t, 0, 5000, "largen")
		if gen.IntU(t, 0, 9, "huge") == 0 {
			n, m = gen.Size(t, 5000, 70000, "hugen"), gen.IntU(t, 0, 2, "hugem")
		}
	}
	if gen.IntU(t, 0, 30, "many") == 0 {
		m, n = gen.Size(t, 0, 3000, "manychunks"), gen.IntU(t, 0, 3, "fewn")
	}
	c.Case(t, n > 0 && m > 0, func() string { return fmt.Sprintf("array of %d, %d arrays of %d", n, m, n) })
	seen := map[fr.Element]bool{}
	check := func(a []fr.Element, what string) {
		if len(a) != n {
			t.Fatalf("%s: %d elements instead of %d", what, len(a), n)
		}
		for i, e := range a {
			// reduced representation
			if raw := limbs(e); raw.Cmp(gen.Q) >= 0 {
				t.Fatalf("%s: element %d is not valid", what, i)
			}
			if e.IsZero() || seen[e] {
				t.Fatalf("%s: element %d, %v, already appeared", what, i, gen.S(e))
			}
			seen[e] = true
		}
	}
	check(common.RandomFrArray(n), fmt.Sprintf("RandomFrArray(%d)", n))
	d := common.RandomFrDoubleSlice(m, n)
	if len(d) != m {
		t.Fatalf("RandomFrDoubleSlice(%d, %d): %d arrays", m, n, len(d))
	}
	for _, a := range d {
		check(a, fmt.Sprintf("RandomFrDoubleSlice(%d, %d)", m, n))
	}
	// The arrays do not share memory
	for i := range d {
		for j := range d[i] {
			d[i][j] = gen.U(uint64(i*n + j))
		}
		d[i] = append(d[i], gen.U(1))
	}
	for i := range d {
		for j := 0; j < n; j++ {
			if d[i][j] != gen.U(uint64(i*n+j)) {
				t.Fatalf("RandomFrDoubleSlice(%d, %d): the arrays share memory", m, n)
			}
		}
	}
}

func limbs(e fr.Element) *big.Int {
	r := new(big.Int)
	for i := 3; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(e[i]))
	}
	return r
}

// Settings

var names = []string{"BN_GKR", "NCHUNKS_GKR", "NPROCESSES_ENV", "PROFILE_GKR", "TRACE_GKR"}

func setting(t *rapid.T, label string) (s string, set bool) {
	switch gen.IntU(t, 0, 9, label+".kind") {
	case 0:
		return "", false
	case 1:
		return []string{"", " ", "x", "1 ", " 1", "1x", "0x10", "1e3", "1_000", "1.0", "--1", "-", "+", "1\n", "true", "0b1", "１", "9223372036854775808", "-9223372036854775809", "99999999999999999999999", "NaN"}[gen.IntU(t, 0, 20, label+".bad")], true
	case 2:
		return rapid.StringMatching(`[-+]?[0-9 a-fx_.]{0,6}`).Draw(t, label+".str"), true
	case 3:
		return []string{"9223372036854775807", "-9223372036854775808", "007", "+5", "-0", "0", "1", "010", "-1", "2147483648", "4294967296"}[gen.IntU(t, 0, 10, label+".edge")], true
	case 4:
		return strconv.FormatInt(rapid.Int64().Draw(t, label+".i64"), 10), true
	}
	return strconv.Itoa(gen.IntU(t, 0, 64, label+".small")), true
}

// value is the integer denoted by a setting
func value(s string) (int, bool) {
	d := s
	if strings.HasPrefix(d, "+") || strings.HasPrefix(d, "-") {
		d = d[1:]
	}
	if d == "" || strings.Trim(d, "0123456789") != "" {
		return 0, false
	}
	v, _ := new(big.Int).SetString(d, 10)
	if s[0] == '-' {
		v.Neg(v)
	}
	if !v.IsInt64() {
		return 0, false
	}
	return int(v.Int64()), true
}

func read(f func() int) (v int, panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			panicked = true
		}
	}()
	return f(), false
}

func settings(t *rapid.T, c *vt.C) {
	vals := make([]string, len(names))
	set := make([]bool, len(names))
	for i, n := range names {
		vals[i], set[i] = setting(t, n)
	}
	c.Case(t, true, func() string { return fmt.Sprintf("%q %v", vals, set) })
	for i, n := range names {
		if set[i] {
			if err := os.Setenv(n, vals[i]); err != nil {
				t.Fatalf("harness: %v", err)
			}
		} else {
			os.Unsetenv(n)
		}
	}
	for i, f := range []func() int{common.GetBN, common.GetNChunks, common.GetNProcesses} {
		v, panicked := read(f)
		want, ok := value(vals[i])
		ok = ok && set[i]
		c.LabelIf(!ok, "malformed or unset")
		switch {
		case panicked && ok:
			t.Fatalf("%s=%q: reading panics", names[i], vals[i])
		case !panicked && !ok:
			t.Fatalf("%s=%q (set %v): reading returns %d", names[i], vals[i], set[i], v)
		case ok && v != want:
			t.Fatalf("%s=%q: reading returns %d", names[i], vals[i], v)
		}
	}
	for i, f := range []func() bool{common.GetProfiled, common.GetTraced} {
		k := 3 + i
		if got := f(); got != (set[k] && vals[k] == "1") {
			t.Fatalf("%s=%q (set %v): reading returns %v", names[k], vals[k], set[k], got)
		}
	}
}

// concurrent: printing from several goroutines
func concurrent(t *rapid.T, c *vt.C) {
	n := gen.IntU(t, 2, 8, "goroutines")
	lists := make([][]fr.Element, n)
	for i := range lists {
		lists[i] = gen.Vec(t, gen.IntU(t, 1, 12, fmt.Sprintf("len%d", i)), fmt.Sprintf("l%d", i))
	}
	if rapid.Bool().Draw(t, "shared") {
		for i := range lists {
			lists[i] = lists[0]
		}
	}
	rounds := gen.IntU(t, 1, 8, "rounds")
	c.Case(t, true, func() string {
		return fmt.Sprintf("%d goroutines print %v, %v, ... %d times", n, gen.Show(lists[0]), gen.Show(lists[1]), rounds)
	})
	errs := make([]string, n)
	var wg sync.WaitGroup
	for i := range lists {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < rounds; k++ {
				s := common.FrSliceToString(lists[i])
				b := polynomial.NewBookKeepingTable(lists[i])
				for _, s := range []string{s, b.String()} {
					l, err := list(s)
					if err == nil && len(l) != len(lists[i]) {
						err = fmt.Errorf("%d elements", len(l))
					}
					for j := 0; err == nil && j < len(l); j++ {
						err = denotes(l[j], lists[i][j])
					}
					if err != nil {
						errs[i] = err.Error()
						return
					}
				}
				runtime.Gosched()
			}
		}(i)
	}
	wg.Wait()
	for i, e := range errs {
		if e != "" {
			t.Fatalf("goroutine %d of %d that print at the same time: %s", i, n, e)
		}
	}
}

// Profiling: the measured function runs once, whatever is recorded

var initBench sync.Once

// benchmark runs f in a benchmark of a single iteration
func benchmark(f func(b *testing.B)) {
	initBench.Do(func() {
		testing.Init()
		if err := flag.Set("test.benchtime", "1x"); err != nil {
			panic(err)
		}
	})
	ran := false
	testing.Benchmark(func(b *testing.B) {
		if ran {
			return
		}
		ran = true
		f(b)
	})
}

func profiling(t *rapid.T, c *vt.C) {
	type call struct {
		traced, profiled, panics, running bool
		sleep                             time.Duration
	}
	calls := make([]call, gen.IntU(t, 1, 6, "calls"))
	any := false
	for i := range calls {
		k := &calls[i]
		k.traced = gen.IntU(t, 0, 3, fmt.Sprintf("traced%d", i)) == 0
		k.profiled = gen.IntU(t, 0, 19, fmt.Sprintf("profiled%d", i)) == 0
		k.panics = gen.IntU(t, 0, 4, fmt.Sprintf("panics%d", i)) == 0
		k.running = rapid.Bool().Draw(t, fmt.Sprintf("running%d", i))
		k.sleep = time.Duration(gen.IntU(t, 0, 3, fmt.Sprintf("sleep%d", i))) * time.Millisecond
		any = any || k.traced || k.profiled
	}
	c.Case(t, len(calls) > 1 || any, func() string { return fmt.Sprintf("%+v", calls) })
	for _, d := range []string{"pt/work", "pt/profiling"} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			t.Fatalf("harness: %v", err)
		}
	}
	if err := os.Chdir("pt/work"); err != nil {
		t.Fatalf("harness: %v", err)
	}
	defer func() {
		os.Chdir("../..")
		os.RemoveAll("pt")
	}()
	var fail string
	benchmark(func(b *testing.B) {
		for i, k := range calls {
			c.LabelIf(k.traced, "traced")
			c.LabelIf(k.profiled, "profiled")
			c.LabelIf(k.panics, "panicking function")
			os.RemoveAll("../profiling")
			os.Mkdir("../profiling", 0o755)
			if k.running {
				b.StartTimer()
			} else {
				b.StopTimer()
			}
			ran, tracing, returned := 0, false, false
			var recovered interface{}
			before := b.Elapsed()
			func() {
				defer func() { recovered = recover() }()
				common.ProfileTrace(b, k.profiled, k.traced, func() {
					ran++
					tracing = trace.IsEnabled()
					time.Sleep(k.sleep)
					if k.panics {
						panic("measured function")
					}
				})
				returned = true
			}()
			after := b.Elapsed()
			time.Sleep(100 * time.Microsecond)
			what := fmt.Sprintf("call %d of %+v: ", i, calls)
			switch {
			case ran != 1:
				fail = what + fmt.Sprintf("the function ran %d times", ran)
			case returned == k.panics || k.panics && recovered != "measured function":
				fail = what + fmt.Sprintf("returned: %v, recovered %v", returned, recovered)
			case tracing != k.traced:
				fail = what + fmt.Sprintf("trace enabled in the function: %v", tracing)
			case trace.IsEnabled():
				fail = what + "the trace goes on"
			case after-before < k.sleep:
				fail = what + fmt.Sprintf("the function took %v at least, measured %v", k.sleep, after-before)
			case b.Elapsed() != after:
				fail = what + "the timer still runs"
			}
			var files []string
			filepath.Walk("../profiling", func(p string, info os.FileInfo, err error) error {
				if err == nil && !info.IsDir() && info.Size() > 0 {
					files = append(files, filepath.Base(p))
				}
				return nil
			})
			sort.Strings(files)
			var want []string
			if k.traced {
				want = append(want, "-trace.out")
			}
			if k.profiled {
				want = append(want, "cpu.pprof")
			}
			if fail == "" && fmt.Sprint(files) != fmt.Sprint(want) {
				fail = what + fmt.Sprintf("files written: %v", files)
			}
			if fail != "" {
				return
			}
		}
	})
	if fail != "" {
		t.Fatalf("ProfileTrace, %s", fail)
	}
}

func main() {
	vt.Main(vt.Check{
		Property: "C22",
		Scale:    2,
		Rule: "elements: field elements around the powers of ten, half of the modulus and their opposites, alone and in lists, whose printed form is parsed back, and their conversion to generic values; integers: lists of integers of all magnitudes; long: lists of up to 6000 values; random: sizes of random arrays, elements compared with each other; settings: well-formed, malformed or missing values of the five environment variables; concurrent: several goroutines print at the same time, also with the race detector; profiling: sequences of measured functions (quick, slow, panicking), with or without trace and profile, the benchmark's timer running or not. " +
			"Non-trivial: non-zero element or integer, non-empty arrays.",
		Assumptions: []string{"two of at most a few million random elements are never equal", "settings are decimal integers, as documented by the benchmarks"},
		Families: []vt.Family{
			{Name: "elements", Quick: 160000, Thorough: 3000000, Shards: 8, Prop: elements},
			{Name: "integers", Quick: 80000, Thorough: 1500000, Shards: 8, Prop: integers},
			{Name: "long", Quick: 800, Thorough: 20000, Shards: 8, Prop: long},
			{Name: "random", Quick: 4000, Thorough: 60000, Shards: 8, Prop: random},
			{Name: "settings", Quick: 80000, Thorough: 1500000, Shards: 8, Prop: settings},
			{Name: "profiling", Quick: 800, Thorough: 8000, Shards: 8, Prop: profiling},
			{Name: "concurrent", Quick: 16000, Thorough: 300000, Shards: 8, Prop: concurrent},
			{Name: "concurrent-race", Quick: 800, Thorough: 8000, Shards: 8, Race: true, Prop: concurrent},
		},
	})
}
