//go:build go1.22

package main

import (
	"fmt"
	"runtime"
	"strconv"
	"sync"
)

// runSoak makes many calls on ever-new inputs and reports, after each phase,
// what is still held: heap bytes, heap objects, goroutines.
func runSoak(s *soak) {
	g := newGen(s.Seed)
	g.words = s.Words
	next, date := g.next, g.date
	one := func(fnName, in, in2 string) {
		defer func() { _ = recover() }()
		f, ok := ops[fnName]
		if !ok {
			return
		}
		f([]string{in, in2, in, "00:00:00"})
	}
	var ms runtime.MemStats
	for ph := 0; ph < s.Phases; ph++ {
		per := s.Calls / s.Workers
		for c := 0; c < per; c++ {
			var wg sync.WaitGroup
			for w := 0; w < s.Workers; w++ {
				name, a, b := s.Fns[next(len(s.Fns))], date(), date()
				if s.Workers == 1 {
					one(name, a, b)
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					one(name, a, b)
				}()
			}
			wg.Wait()
		}
		for i := 0; i < 3; i++ {
			runtime.GC()
			runtime.Gosched()
		}
		runtime.ReadMemStats(&ms)
		emit(fmt.Sprintf("phase %d %d %d %d", ph, ms.HeapAlloc, ms.HeapObjects, verifGoroutines()))
	}
	emit("done")
}

// ever-new date strings of every feature
type gen struct {
	rng    uint32
	serial int
	words  []string
}

func newGen(seed uint32) *gen {
	if seed == 0 {
		seed = 1
	}
	return &gen{rng: seed, serial: int(seed % 9000)}
}

func (g *gen) next(n int) int {
	g.rng ^= g.rng << 13
	g.rng ^= g.rng >> 17
	g.rng ^= g.rng << 5
	return int(g.rng % uint32(n))
}

func pad(n, w int) string {
	x := strconv.Itoa(n)
	for len(x) < w {
		x = "0" + x
	}
	return x
}

func (g *gen) date() string {
	g.serial++
	next, serial := g.next, g.serial
	if len(g.words) > 0 && next(2) == 0 { // one of the plan's strings, its digits new
		b, fresh := []byte(g.words[next(len(g.words))]), strconv.Itoa(serial)
		for i, k := 0, len(fresh); i < len(b); i++ {
			if b[i] >= '0' && b[i] <= '9' {
				if k > 0 && next(3) > 0 {
					k--
					b[i] = fresh[k]
				} else if next(4) == 0 {
					b[i] = byte('0' + next(10))
				}
			}
		}
		return string(b)
	}
	y := pad(1+(serial*7)%9998, 4)
	m := pad(1+next(12), 2)
	d := pad(1+next(28), 2)
	switch next(28) {
	case 0:
		return y
	case 1:
		return y + "-" + m
	case 2:
		return y + "-" + m + "-" + d + "/" + y + "-12-31"
	case 3:
		return y + "-" + m + "-" + d + "T10:20:" + pad(next(60), 2) + "Z"
	case 4:
		return "Y" + strconv.Itoa(1+serial%9998)
	case 5:
		return y + "-" + strconv.Itoa(21+next(4))
	case 6:
		return y + "-" + m + "?"
	case 7:
		return y[:3] + "X"
	case 8:
		return "-" + y
	case 9:
		return y + "/.."
	case 10:
		return "../" + y + "-" + m
	case 11:
		return "Y" + strconv.Itoa(1+next(9)) + "E" + strconv.Itoa(1+next(3))
	case 12:
		return y + "S" + strconv.Itoa(1+next(3))
	case 13:
		return "[" + y + "-" + m + "-" + d + ".." + y + "-12-31]"
	case 14:
		return "{" + y + "-" + m + "}"
	case 15:
		return y + "-" + m + "~-" + d
	case 16:
		return "not a date " + strconv.Itoa(serial)
	case 17:
		return y + "-" + strconv.Itoa(25+next(16))
	case 18:
		return y + "-XX-" + d
	}
	switch next(7) {
	case 0:
		return y + "-?" + m + "-" + d
	case 1:
		return [...]string{"Spring", "summer", "Fall", "WINTER"}[next(4)] + ", " + y
	case 2:
		return y + "-" + m + "-XX/" + y + "-12-3X"
	case 3:
		return y + "-" + m + "-" + d + "T23:20:30+0" + strconv.Itoa(next(10)) + ":30"
	case 4:
		return "Y-" + strconv.Itoa(100000+serial)
	case 5:
		return "-" + y + "-" + m + "-" + d + "~"
	}
	return y + "-" + m + "-" + d
}
