package vt

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

// shrinkCrash minimises the input of a case that crashes its process (a panic
// in a goroutine of the code under test, or a deadlock): rapid can not do it,
// since it does not survive. The drawn data is dumped by a run that stops
// before the code under test, then reduced by running sub-processes.
func (s *supervisor) shrinkCrash(v *Replay) {
	f := s.family(v.Family)
	if f == nil || v.Seed == 0 {
		return
	}
	end := time.Now().Add(25 * time.Second)
	o := s.exec(job{fam: f, seed: v.Seed, checks: 1, dump: true}, 60*time.Second)
	if o.res == nil || o.res.FailFile == "" {
		return
	}
	header, data := parseFailFile(o.res.FailFile)
	if header == "" {
		return
	}
	crashes := func(d []uint64) (bool, string) {
		o := s.exec(job{fam: f, seed: v.Seed, checks: 1, ff: formatFailFile(header, d)}, 60*time.Second)
		return o.kind == v.Kind, o.msg
	}
	ok, msg := crashes(data)
	if !ok {
		return
	}
	v.Message = msg
	// Remove blocks, then lower the values
	for size := len(data) / 2; size >= 1; size /= 2 {
		for i := 0; i+size <= len(data) && time.Now().Before(end); {
			try := append(append([]uint64{}, data[:i]...), data[i+size:]...)
			if ok, msg := crashes(try); ok {
				data, v.Message = try, msg
			} else {
				i += size
			}
		}
	}
	for i := range data {
		for _, x := range []uint64{0, 1, data[i] / 2} {
			if x >= data[i] || time.Now().After(end) {
				continue
			}
			try := append([]uint64{}, data...)
			try[i] = x
			if ok, msg := crashes(try); ok {
				data, v.Message = try, msg
				break
			}
		}
	}
	v.FailFile = formatFailFile(header, data)
}

func parseFailFile(c string) (string, []uint64) {
	header := ""
	var data []uint64
	for _, l := range strings.Split(c, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		if header == "" {
			header = l
			continue
		}
		x, err := strconv.ParseUint(l, 0, 64)
		if err != nil {
			return "", nil
		}
		data = append(data, x)
	}
	return header, data
}

func formatFailFile(header string, data []uint64) string {
	l := []string{header}
	for _, x := range data {
		l = append(l, fmt.Sprintf("0x%x", x))
	}
	return strings.Join(l, "\n") + "\n"
}
