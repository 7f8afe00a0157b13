//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sync"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
)

//go:wasmimport verif io
func host_io(stream, dir, n uint32) uint32

type streamPlan struct {
	Docs  []string `json:"docs"`
	Write string   `json:"write"` // encode, marshal, indent, array
	Read  string   `json:"read"`  // decode, pointer, lines, all
	Buf   int      `json:"buf"`
	Hold  bool     `json:"hold"` // look at the dates only after the last one was read
}

var errInjected = errors.New("injected stream error")

// one simulated byte stream: the host decides how every write and read goes
type pipe struct {
	k         int
	mu        sync.Mutex
	cond      *sync.Cond
	buf       []byte
	closed    bool
	dead      bool // the writing side failed
	cut       error
	delivered int
}

const (
	ioErr = 1 << 24
	ioEOF = 2 << 24
)

func (p *pipe) Write(b []byte) (int, error) {
	if p.dead {
		return 0, errInjected
	}
	v := host_io(uint32(p.k), 1, uint32(len(b)))
	n, fate := int(v&(1<<24-1)), v&^(1<<24-1)
	p.mu.Lock()
	p.buf = append(p.buf, b[:n]...)
	p.cond.Broadcast()
	p.mu.Unlock()
	if fate != 0 {
		p.dead = true
		return n, errInjected
	}
	return n, nil
}

func (p *pipe) Close() {
	p.mu.Lock()
	p.closed = true
	p.cond.Broadcast()
	p.mu.Unlock()
}

func (p *pipe) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.cut != nil {
		return 0, p.cut
	}
	for len(p.buf) == 0 && !p.closed {
		p.cond.Wait()
	}
	if len(p.buf) == 0 {
		return 0, io.EOF
	}
	n := min(len(b), len(p.buf))
	v := host_io(uint32(p.k), 0, uint32(n))
	n = int(v & (1<<24 - 1))
	copy(b, p.buf[:n])
	for i := range p.buf[:n] { // consumed bytes do not survive
		p.buf[i] = '!'
	}
	p.buf = p.buf[n:]
	p.delivered += n
	switch v &^ (1<<24 - 1) {
	case ioErr:
		p.cut = errInjected
		return n, p.cut
	case ioEOF:
		p.cut = io.EOF
		return n, p.cut
	}
	return n, nil
}

func runStreams(list []streamPlan, mem bool) {
	var start, done sync.WaitGroup
	start.Add(1)
	for k, s := range list {
		p := &pipe{k: k}
		p.cond = sync.NewCond(&p.mu)
		done.Add(2)
		go func() {
			defer done.Done()
			defer p.Close()
			start.Wait()
			emit(fmt.Sprintf("%d writer %s", k, guard(func() string { return writeStream(k, s, p) })))
		}()
		go func() {
			defer done.Done()
			start.Wait()
			emit(fmt.Sprintf("%d reader %s", k, guard(func() string { return readStream(k, s, p) })))
			emit(fmt.Sprintf("%d delivered %d", k, p.delivered))
		}()
	}
	verifSched(true)
	verifMem(mem)
	start.Done()
	done.Wait()
	verifMem(false)
	verifSched(false)
	emit("done")
	emitStats()
}

func guard(f func() string) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = "PANIC " + fmt.Sprint(r)
		}
	}()
	return f()
}

func errText(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, io.ErrUnexpectedEOF):
		return "error unexpected-eof"
	case errors.Is(err, io.EOF):
		return "eof"
	case errors.Is(err, errInjected):
		return "error injected"
	}
	return "error other " + err.Error()
}

func writeStream(k int, s streamPlan, p *pipe) string {
	enc := json.NewEncoder(p)
	if s.Write == "indent" {
		enc.SetIndent("  ", "\t")
	}
	off := 0
	count := &counter{w: p}
	if s.Write == "array" || s.Write == "encode" || s.Write == "indent" {
		enc = json.NewEncoder(count)
		if s.Write == "indent" {
			enc.SetIndent("  ", "\t")
		}
	}
	var dates []*edtf.EDTFDate
	for i, raw := range s.Docs {
		d, err := parser.ParseString(raw)
		if err != nil {
			continue
		}
		emit(fmt.Sprintf("%d wrote %d %s", k, i, render(d)))
		if s.Write == "array" {
			dates = append(dates, d)
			continue
		}
		if s.Write == "marshal" {
			b, err := json.Marshal(d)
			if err != nil {
				return errText(err)
			}
			keep := append(append([]byte{}, b...), '\n')
			_, err = p.Write(keep)
			for i := range b { // the caller reuses its buffer
				b[i] = '#'
			}
			off += len(keep)
			emit(fmt.Sprintf("%d offset %d %d", k, i, off-1))
			if err != nil {
				return errText(err)
			}
			continue
		}
		if err := enc.Encode(d); err != nil {
			emit(fmt.Sprintf("%d offset %d %d", k, i, count.n-1))
			return errText(err)
		}
		emit(fmt.Sprintf("%d offset %d %d", k, i, count.n-1))
	}
	if s.Write == "array" {
		err := enc.Encode(dates)
		emit(fmt.Sprintf("%d offset 0 %d", k, count.n-1))
		return errText(err)
	}
	return "ok"
}

type counter struct {
	w io.Writer
	n int // bytes offered
}

func (c *counter) Write(b []byte) (int, error) { c.n += len(b); return c.w.Write(b) }

func readStream(k int, s streamPlan, p *pipe) string {
	var got []*edtf.EDTFDate
	var seen []string
	take := func(d *edtf.EDTFDate) {
		if s.Hold {
			got = append(got, d)
			return
		}
		r := render(d)
		emit(fmt.Sprintf("%d read %d %s", k, len(got), r))
		got = append(got, d)
		seen = append(seen, r)
	}
	end := func(err error) string {
		for i, d := range got {
			if s.Hold {
				emit(fmt.Sprintf("%d read %d %s", k, i, render(d)))
				continue
			}
			if r := render(d); r != seen[i] {
				return fmt.Sprintf("CHANGED date %d from %s to %s", i, seen[i], r)
			}
		}
		return errText(err)
	}
	size := s.Buf
	if size < 16 {
		size = 16
	}
	if s.Write == "array" {
		var l []*edtf.EDTFDate
		if err := json.NewDecoder(bufio.NewReaderSize(p, size)).Decode(&l); err != nil {
			return end(err)
		}
		for _, d := range l {
			take(d)
		}
		return end(io.EOF)
	}
	switch s.Read {
	case "lines": // the line buffer is overwritten by the next line
		sc := bufio.NewScanner(p)
		sc.Buffer(make([]byte, size), 1<<20)
		for sc.Scan() {
			if len(bytes.TrimSpace(sc.Bytes())) == 0 {
				continue
			}
			d := new(edtf.EDTFDate)
			line := append([]byte(nil), sc.Bytes()...)
			err := json.Unmarshal(line, d)
			for i := range line { // the caller reuses its buffer
				line[i] = '7'
			}
			if err != nil {
				if sc.Err() != nil {
					return end(sc.Err())
				}
				return end(fmt.Errorf("%w: %v", io.ErrUnexpectedEOF, err))
			}
			take(d)
		}
		if sc.Err() != nil {
			return end(sc.Err())
		}
		return end(io.EOF)
	case "all":
		b, rerr := io.ReadAll(p)
		dec := json.NewDecoder(bytes.NewReader(b))
		for {
			var d *edtf.EDTFDate
			if err := dec.Decode(&d); err != nil {
				for i := range b {
					b[i] = '#'
				}
				if rerr != nil {
					err = rerr
				}
				return end(err)
			}
			take(d)
		}
	}
	dec := json.NewDecoder(p)
	for {
		d := new(edtf.EDTFDate)
		var err error
		if s.Read == "pointer" {
			var q *edtf.EDTFDate
			err = dec.Decode(&q)
			d = q
		} else {
			err = dec.Decode(d)
		}
		if err != nil {
			return end(err)
		}
		take(d)
	}
}
