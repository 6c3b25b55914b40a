package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
)

// arena places inputs mostly in the same memory: a call must not take what it
// finds there for what was there before. One client's; a nil one always copies.
type arena struct {
	buf []byte
	n   int
}

var replayArena = &arena{} // behaviours are replayed one after another

func (a *arena) put(b []byte) []byte {
	if a == nil {
		return append([]byte{}, b...)
	}
	if a.n++; a.n%5 == 0 {
		return append([]byte{}, b...)
	}
	if len(a.buf) < len(b) {
		a.buf = make([]byte, 2*len(b)+256)
	}
	copy(a.buf, b)
	return a.buf[:len(b):len(b)]
}

// rle is a run-length encoded byte string: [[value,count],...].
func rle(b []byte) [][2]int {
	r := [][2]int{}
	for _, x := range b {
		if n := len(r); n > 0 && r[n-1][0] == int(x) {
			r[n-1][1]++
		} else {
			r = append(r, [2]int{int(x), 1})
		}
	}
	return r
}

func fill(n int, v byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = v
	}
	return b
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func bytesOf(v any) []byte {
	a := v.([]any)
	r := make([]byte, len(a))
	for i, x := range a {
		r[i] = byte(x.(float64))
	}
	return r
}

func num(v any) int { return int(v.(float64)) }

// same compares an observed value with an expected one (both through JSON).
func same(got, want any) bool {
	return reflect.DeepEqual(norm(viaJSON(got)), norm(viaJSON(want)))
}

func viaJSON(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	var g any
	if err := json.Unmarshal(b, &g); err != nil {
		fatal(err)
	}
	return g
}

// TLC prints the empty sequence, set and record alike; treat null as [].
func norm(v any) any {
	switch x := v.(type) {
	case nil:
		return []any{}
	case []any:
		for i := range x {
			x[i] = norm(x[i])
		}
		return x
	case map[string]any:
		for k := range x {
			x[k] = norm(x[k])
		}
		return x
	}
	return v
}

func js(v any) string { return string(appendJSON(nil, reflect.ValueOf(v))) }

// appendJSON encodes without using anything that clients at work at the same
// time have in common (encoding/json and fmt keep pools), see apart.
func appendJSON(b []byte, v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Invalid:
		return append(b, "null"...)
	case reflect.Bool:
		return strconv.AppendBool(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.AppendInt(b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.AppendUint(b, v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return strconv.AppendFloat(b, v.Float(), 'g', -1, 64)
	case reflect.String:
		b = append(b, '"')
		for _, c := range []byte(v.String()) {
			if c < 0x20 || c >= 0x7F || c == '"' || c == '\\' {
				b = append(b, '\\', 'u', '0', '0', "0123456789abcdef"[c>>4], "0123456789abcdef"[c&15])
			} else {
				b = append(b, c)
			}
		}
		return append(b, '"')
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return append(b, "null"...)
		}
		return appendJSON(b, v.Elem())
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return append(b, "null"...)
		}
		b = append(b, '[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = appendJSON(b, v.Index(i))
		}
		return append(b, ']')
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		b = append(b, '{')
		for i, k := range keys {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(appendJSON(b, k), ':')
			b = appendJSON(b, v.MapIndex(k))
		}
		return append(b, '}')
	case reflect.Struct:
		b = append(b, '{')
		n := 0
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			if n++; n > 1 {
				b = append(b, ',')
			}
			b = append(append(append(b, '"'), v.Type().Field(i).Name...), '"', ':')
			b = appendJSON(b, v.Field(i))
		}
		return append(b, '}')
	}
	return append(b, '"', '?', '"') // functions and the like
}

func check(what string, got, want any) string {
	if same(got, want) {
		return ""
	}
	return fmt.Sprintf("%s: got %s, the specification demands %s", what, js(got), js(want))
}
