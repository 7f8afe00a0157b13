//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"strconv"
	"time"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/level0"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
)

type fn = func([]string) any

func b1(f func(string) bool) fn { return func(a []string) any { return f(a[0]) } }
func p1(f func(string) (*edtf.EDTFDate, error)) fn {
	return func(a []string) any { return two(f(a[0])) }
}
func m1(f func(string) (string, error)) fn { return func(a []string) any { return two(f(a[0])) } }
func c2(f func(string, string) (bool, error)) fn {
	return func(a []string) any { return two(f(a[0], a[1])) }
}

var ops = map[string]fn{
	"parse":   p1(parser.ParseString),
	"valid":   b1(parser.IsValid),
	"matches": func(a []string) any { return three(parser.Matches(a[0])) },
	"unix":    func(a []string) any { ok, r, err := unix.DeriveRanges(a[0]); return triple{r, err, ok} },
	"before":  c2(cmp.IsBefore),
	"after":   c2(cmp.IsAfter),
	"between": func(a []string) any { return two(cmp.IsBetween(a[0], a[1], a[2])) },
	"json": func(a []string) any {
		d, err := parser.ParseString(a[0])
		if err != nil {
			return err
		}
		return two(json.Marshal(d))
	},
	"tsjson": func(a []string) any { // the exact slice the method returns
		d, err := parser.ParseString(a[0])
		if err != nil {
			return err
		}
		if d.Start == nil || d.Start.Lower == nil || d.Start.Lower.Timestamp == nil {
			return "none"
		}
		return two(d.Start.Lower.Timestamp.MarshalJSON())
	},
	"tsunjson": func(a []string) any { // a buffer the caller goes on using
		b := []byte(a[0])
		ts := new(edtf.Timestamp)
		err := ts.UnmarshalJSON(b)
		v := ts.Unix()
		for i := range b {
			b[i] = '7'
		}
		return pair{triple{v, ts.Unix(), ts.Time()}, err}
	},
	"rawjson": func(a []string) any { // for the harness: the exact bytes
		d, err := parser.ParseString(a[0])
		if err != nil {
			return rawAnswer(map[string]any{"err": err.Error()})
		}
		b, err := json.Marshal(d)
		if err != nil {
			return rawAnswer(map[string]any{"err": err.Error()})
		}
		return rawAnswer(map[string]any{"v": string(b)})
	},
	"rawmatch": func(a []string) any {
		level, feature, err := parser.Matches(a[0])
		if err != nil {
			return rawAnswer(map[string]any{"err": err.Error()})
		}
		return rawAnswer(map[string]any{"level": level, "feature": feature})
	},
	"roundtrip": func(a []string) any {
		d, err := parser.ParseString(a[0])
		if err != nil {
			return err
		}
		b, err := json.Marshal(d)
		if err != nil {
			return err
		}
		var e *edtf.EDTFDate
		err = json.NewDecoder(bytes.NewReader(b)).Decode(&e)
		return pair{e, err}
	},
	"strings": func(a []string) any {
		d, err := parser.ParseString(a[0])
		if err != nil {
			return err
		}
		return d.String() + " | " + d.Start.String() + " | " + d.End.String()
	},
	"bounds": func(a []string) any {
		d, err := parser.ParseString(a[0])
		if err != nil {
			return err
		}
		return pair{two(d.Lower()), two(d.Upper())}
	},
	"ymdeq": func(a []string) any {
		d, err := parser.ParseString(a[0])
		if err != nil {
			return err
		}
		e, err := parser.ParseString(a[1])
		if err != nil {
			return err
		}
		l, u, m := d.Start.Lower, d.End.Upper, e.Start.Lower
		if l == nil || u == nil || m == nil || l.YMD == nil || u.YMD == nil || m.YMD == nil {
			return "none"
		}
		return pair{triple{l.YMD.Equals(m.YMD), l.YMD.Equals(u.YMD), u.YMD.Equals(m.YMD)}, l.YMD.String() + u.YMD.String()}
	},
	"spanstr": func(a []string) any {
		d, err := parser.ParseString(a[0])
		if err != nil {
			return err
		}
		return (&edtf.DateSpan{Start: d.Start, End: d.End}).String()
	},
	"notset": func(a []string) any { return pair{edtf.NotSet(), (&edtf.NotSetError{}).Error()} },
	"flags": func(a []string) any {
		d, err := parser.ParseString(a[0])
		if err != nil {
			return err
		}
		l := d.Start.Lower
		if l == nil {
			return "none"
		}
		p := l.Precision
		q := p
		q.AddFlag(edtf.DAY)
		q.ToggleFlag(edtf.YEAR)
		q.ClearFlag(edtf.MONTH)
		return []bool{p.IsAnnual(), p.IsMonthly(), p.IsDaily(), q.IsAnnual(), q.IsMonthly(), q.IsDaily()}
	},
	"settime": func(a []string) any {
		n, _ := strconv.ParseInt(a[0], 10, 64)
		t := time.Unix(n, 0).UTC()
		d := &edtf.Date{YMD: &edtf.YMD{}}
		d.SetTime(&t)
		return pair{d, d.Timestamp.Time()}
	},
	"level0":  p1(level0.ParseString),
	"level1":  p1(level1.ParseString),
	"level2":  p1(level2.ParseString),
	"l0match": m1(level0.Matches),
	"l1match": m1(level1.Matches),
	"l2match": m1(level2.Matches),
	"isl0":    b1(level0.IsLevel0),
	"isl1":    b1(level1.IsLevel1),
	"isl2":    b1(level2.IsLevel2),
	"open":    b1(edtf.IsOpen),
	"unknown": b1(edtf.IsUnknown),
	"unspec":  b1(edtf.IsUnspecified),
	"isdep":   b1(edtf.IsDeprecated),
	"undep":   m1(edtf.ReplaceDeprecated),
	"errs": func(a []string) any {
		return pair{pair{edtf.Invalid(a[0], a[1]), edtf.Unsupported(a[0], a[1])}, pair{edtf.NotImplemented(a[0], a[1]), edtf.Unrecognized(a[0], a[1])}}
	},
}

// the lower-level exported functions, when the tree has them as expected
func init() {
	for k, f := range moreOps {
		ops[k] = f
	}
}

type raw string

func rawAnswer(v any) any {
	b, _ := json.Marshal(v)
	return raw(b)
}
