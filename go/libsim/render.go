//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"time"

	"github.com/sfomuseum/go-edtf"
)

type pair struct{ a, b any }
type triple struct{ a, b, c any }

func two[A, B any](a A, b B) pair             { return pair{a, b} }
func three[A, B, C any](a A, b B, c C) triple { return triple{a, b, c} }

// render writes down everything a caller can observe about a value, through
// pointers, without the addresses.
func render(v any) string {
	r := &renderer{}
	r.top(v)
	return string(r.b)
}

type renderer struct {
	b     []byte
	depth int
}

func (r *renderer) s(x string) { r.b = append(r.b, x...) }

func (r *renderer) top(v any) {
	switch x := v.(type) {
	case nil:
		r.s("nil")
	case pair:
		r.top(x.a)
		r.s(" ; ")
		r.top(x.b)
	case triple:
		r.top(x.a)
		r.s(" ; ")
		r.top(x.b)
		r.s(" ; ")
		r.top(x.c)
	case error:
		r.s("error(" + kind(x) + ") " + x.Error())
	case raw:
		r.s(string(x))
	case []byte:
		r.s("bytes " + string(x))
	default:
		r.val(reflect.ValueOf(v))
	}
}

func kind(err error) string {
	k := ""
	if edtf.IsInvalid(err) {
		k += "I"
	}
	if edtf.IsNotImplemented(err) {
		k += "N"
	}
	if edtf.IsNotSet(err) {
		k += "S"
	}
	if edtf.IsUnrecognized(err) {
		k += "R"
	}
	if edtf.IsUnsupported(err) {
		k += "U"
	}
	return k
}

func (r *renderer) val(v reflect.Value) {
	r.depth++
	defer func() { r.depth-- }()
	if r.depth > 12 {
		r.s("...")
		return
	}
	if !v.IsValid() {
		r.s("nil")
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case time.Time:
			r.s(x.Format(time.RFC3339Nano) + "@" + x.Location().String())
			return
		case *edtf.Timestamp:
			if x == nil {
				r.s("nil")
			} else {
				r.s("ts" + strconv.FormatInt(x.Unix(), 10))
			}
			return
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			r.s("nil")
			return
		}
		if v.Kind() == reflect.Pointer {
			r.s("&")
		}
		r.val(v.Elem())
	case reflect.Struct:
		t := v.Type()
		r.s(t.Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if !t.Field(i).IsExported() {
				continue
			}
			r.s(t.Field(i).Name + ":")
			r.val(v.Field(i))
			r.s(" ")
		}
		r.s("}")
	case reflect.Slice, reflect.Array:
		r.s("[")
		for i := 0; i < v.Len(); i++ {
			r.val(v.Index(i))
			r.s(" ")
		}
		r.s("]")
	case reflect.String:
		r.s(strconv.Quote(v.String()))
	case reflect.Bool:
		r.s(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int64, reflect.Int32:
		r.s(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint32, reflect.Uint64:
		r.s(strconv.FormatUint(v.Uint(), 10))
	default:
		r.s(fmt.Sprint(v))
	}
}

// scribble overwrites everything reachable from a value the caller was given,
// as its owner may.
func scribble(v any) {
	switch x := v.(type) {
	case pair:
		scribble(x.a)
		return
	case triple:
		scribble(x.a)
		scribble(x.b)
		return
	case []byte:
		for i := range x {
			x[i] = '#'
		}
		return
	case error, nil:
		return
	}
	scribbleVal(reflect.ValueOf(v), 0)
}

func scribbleVal(v reflect.Value, depth int) {
	if depth > 12 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if t, ok := v.Interface().(*edtf.Timestamp); ok {
			_ = t.UnmarshalJSON([]byte("86399"))
			return
		}
		if t, ok := v.Interface().(*time.Time); ok {
			*t = time.Unix(12345, 0).UTC()
			return
		}
		scribbleVal(v.Elem(), depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			scribbleVal(v.Elem(), depth+1)
		}
	case reflect.Struct:
		if _, ok := v.Interface().(time.Time); ok {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribbleVal(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribbleVal(v.Index(i), depth+1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		if v.CanSet() {
			v.SetInt(77777)
		}
	case reflect.Uint, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(1023)
		}
	}
}

// useDates calls the methods of the dates reachable from a value, then
// modifies whatever they returned, as its owner may.
func useDates(v any) string {
	switch x := v.(type) {
	case pair:
		return useDates(x.a) + useDates(x.b)
	case triple:
		return useDates(x.a) + useDates(x.b) + useDates(x.c)
	case error, nil:
		return ""
	}
	out := ""
	ask := func(f func() any) {
		defer func() {
			if r := recover(); r != nil {
				out += "; PANIC " + fmt.Sprint(r)
			}
		}()
		a := f()
		out += "; " + render(a)
		scribble(a)
	}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 8 || !v.IsValid() || !v.CanInterface() {
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			switch x := v.Interface().(type) {
			case *edtf.EDTFDate:
				ask(func() any { return two(x.Lower()) })
				ask(func() any { return two(x.Upper()) })
				ask(func() any { return two(json.Marshal(x)) })
				ask(func() any { return two(x.Before(x)) })
				ask(func() any { return two(x.After(x)) })
			case *edtf.Timestamp:
				ask(func() any { return x.Time() })
				ask(func() any { return two(x.MarshalJSON()) })
				return
			}
			if s, ok := v.Interface().(fmt.Stringer); ok {
				ask(func() any { return s.String() })
			}
			walk(v.Elem(), depth+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(v), 0)
	return out
}
