//go:build go1.22

// Command libsim is the simulated process for the library properties: it reads
// a plan, runs the plan's tasks as goroutines whose interleaving the host
// decides, and reports every result to the host.  It is laid over the module
// at build time and is not part of the repository.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"time"
	"unsafe"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
)

//go:wasmimport verif emit
func host_emit(p unsafe.Pointer, n uint32)

func emit(s string) {
	b := []byte(s)
	host_emit(unsafe.Pointer(unsafe.SliceData(b)), uint32(len(b)))
	runtime.KeepAlive(b)
}

type plan struct {
	Sched   bool         `json:"sched"`
	Mem     bool         `json:"mem"`
	Limit   uint64       `json:"limit"`
	GC      int          `json:"gc"`
	TZ      string       `json:"tz"`
	Warm    [][]string   `json:"warm"`
	Shared  []string     `json:"shared"`
	Tasks   [][][]string `json:"tasks"`
	Soak    *soak        `json:"soak"`
	Streams []streamPlan `json:"streams"`
}

type soak struct {
	Phases  int      `json:"phases"`
	Calls   int      `json:"calls"`
	Workers int      `json:"workers"`
	Fns     []string `json:"fns"`
	Seed    uint32   `json:"seed"`
	Words   []string `json:"words"`
}

var shared []*edtf.EDTFDate

func main() {
	raw, err := io.ReadAll(os.Stdin)
	if err != nil {
		fail(err.Error())
	}
	var p plan
	if err := json.Unmarshal(raw, &p); err != nil {
		fail(err.Error())
	}
	if p.GC != 0 {
		debug.SetGCPercent(p.GC)
	}
	setZone(p.TZ)
	if p.Limit > 0 {
		verifLimit(p.Limit)
	}
	w := newTask(-1)
	for i, op := range p.Warm {
		w.do(i, op)
	}
	for _, s := range p.Shared {
		shared = append(shared, parseShared(s))
	}
	if p.Soak != nil {
		verifSched(p.Sched)
		runSoak(p.Soak)
		return
	}
	if p.Streams != nil {
		runStreams(p.Streams, p.Mem)
		return
	}
	if len(p.Tasks) == 1 && !p.Sched {
		verifMem(p.Mem)
		t := newTask(0)
		for i, op := range p.Tasks[0] {
			t.do(i, op)
		}
		verifMem(false)
		emit("done")
		return
	}
	var start, done sync.WaitGroup
	start.Add(1)
	for k, ops := range p.Tasks {
		done.Add(1)
		go func() {
			defer done.Done()
			t := newTask(k)
			start.Wait()
			for i, op := range ops {
				t.do(i, op)
			}
		}()
	}
	verifSched(true)
	verifMem(p.Mem)
	start.Done()
	done.Wait()
	verifMem(false)
	verifSched(false)
	emit("done")
	emitStats()
}

func parseShared(s string) (d *edtf.EDTFDate) {
	defer func() {
		if recover() != nil {
			d = nil
		}
	}()
	d, err := parser.ParseString(s)
	if err != nil {
		return nil
	}
	return d
}

func fail(s string) {
	emit("harness " + s)
	os.Exit(70)
}

// ---- one caller ------------------------------------------------------------

type task struct {
	id   int
	vals map[int]any    // values returned by earlier operations, kept by the caller
	seen map[int]string // what they looked like when they were returned
	used map[int]string // what their methods answered when first called
}

func newTask(id int) *task { return &task{id: id, vals: map[int]any{}, seen: map[int]string{}, used: map[int]string{}} }

func (t *task) do(i int, op []string) {
	emit(strconv.Itoa(t.id) + " " + strconv.Itoa(i) + " " + t.call(i, op))
}

func (t *task) call(i int, op []string) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = "PANIC " + fmt.Sprint(r)
		}
	}()
	switch op[0] {
	case "gc":
		runtime.GC()
		return "ok"
	case "yield":
		runtime.Gosched()
		return "ok"
	case "fill": // many more calls on ever-new strings; results dropped
		n, _ := strconv.Atoi(op[1])
		seed, _ := strconv.Atoi(op[2])
		g := newGen(uint32(seed))
		for k := 0; k < n; k++ {
			fillOne(op[3], g)
		}
		return "ok"
	case "sleep":
		n, _ := strconv.Atoi(op[1])
		time.Sleep(time.Duration(n) * time.Millisecond)
		return "ok"
	case "zone":
		setZone(op[1])
		return "ok"
	case "scribble": // the caller modifies a value it was given
		n, _ := strconv.Atoi(op[1])
		if v, ok := t.vals[n]; ok {
			scribble(v)
			t.seen[n] = render(v)
			delete(t.used, n)
		}
		return "ok"
	case "use": // the methods of a value handed out earlier answer as they did
		n, _ := strconv.Atoi(op[1])
		s := useDates(t.vals[n])
		if was, ok := t.used[n]; ok && was != s {
			return "CHANGED its methods' answers from " + was + " to " + s
		}
		t.used[n] = s
		if v, ok := t.vals[n]; ok && render(v) != t.seen[n] {
			return "CHANGED by its methods from " + t.seen[n] + " to " + render(v)
		}
		return "same"
	case "recheck": // a value handed out earlier still reads the same
		n, _ := strconv.Atoi(op[1])
		v, ok := t.vals[n]
		if !ok {
			return "same"
		}
		if s := render(v); s != t.seen[n] {
			return "CHANGED from " + t.seen[n] + " to " + s
		}
		return "same"
	}
	if len(op[0]) > 3 && op[0][:3] == "sh:" {
		return sharedOp(op)
	}
	f, ok := ops[op[0]]
	if !ok {
		return "harness: no op " + op[0]
	}
	v := f(op[1:])
	s := render(v)
	t.vals[i] = v
	t.seen[i] = s
	return s
}

func fillOne(name string, g *gen) {
	defer func() { _ = recover() }()
	if f, ok := ops[name]; ok {
		f([]string{g.date(), g.date(), g.date(), "00:00:00"})
	}
}

// operations on dates that several callers hold at once
func sharedOp(op []string) string {
	n, _ := strconv.Atoi(op[1])
	if n >= len(shared) || shared[n] == nil {
		return "none"
	}
	d := shared[n]
	switch op[0] {
	case "sh:string":
		return d.String() + "|" + d.Start.String() + "|" + d.End.String()
	case "sh:lower":
		return render(two(d.Lower()))
	case "sh:upper":
		return render(two(d.Upper()))
	case "sh:json":
		return render(two(json.Marshal(d)))
	case "sh:render":
		return render(d)
	case "sh:before", "sh:after":
		m, _ := strconv.Atoi(op[2])
		if m >= len(shared) || shared[m] == nil {
			return "none"
		}
		if op[0] == "sh:before" {
			return render(two(d.Before(shared[m])))
		}
		return render(two(d.After(shared[m])))
	}
	return "harness: no op " + op[0]
}

// ---- time zone of the process ---------------------------------------------

func setZone(s string) {
	switch {
	case s == "":
	case s == "UTC":
		time.Local = time.UTC
	case s[0] == '+' || s[0] == '-':
		n, _ := strconv.Atoi(s)
		time.Local = time.FixedZone("SIM", n)
	default: // a POSIX TZ rule
		b := []byte("TZif2")
		hdr := make([]byte, 39)
		hdr[38-0] = 4 // charcnt
		hdr[34] = 1   // typecnt
		block := append(append([]byte{}, hdr...), 0, 0, 0, 0, 0, 0, 'S', 'I', 'M', 0)
		b = append(b, block...)
		b = append(b, "TZif2"...)
		b = append(b, block...)
		b = append(b, ("\n" + s + "\n")...)
		l, err := time.LoadLocationFromTZData("Sim/Zone", b)
		if err != nil {
			fail("zone: " + err.Error())
		}
		time.Local = l
	}
}
