package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
)

type obj = map[string]interface{}
type arr = []interface{}

func num(i int) json.Number { return json.Number(strconv.Itoa(i)) }

func mustParse(s string) interface{} {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		panic(fmt.Sprintf("harness: %v in %q", err, s))
	}
	return v
}

func clone(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := make(obj, len(x))
		for k, e := range x {
			m[k] = clone(e)
		}
		return m
	case []interface{}:
		l := make(arr, len(x))
		for i, e := range x {
			l[i] = clone(e)
		}
		return l
	}
	return v
}

// jtype is the JSON type of a value; integers are reported as number
func jtype(v interface{}) string {
	switch v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case json.Number:
		return "number"
	case string:
		return "string"
	case []interface{}:
		return "array"
	case map[string]interface{}:
		return "object"
	}
	panic(fmt.Sprintf("harness: no JSON value: %T", v))
}

// jsonEqual is JSON equality: numbers by exact value, containers structurally
func jsonEqual(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case json.Number:
		y, ok := b.(json.Number)
		return ok && parseDec(string(x)).equal(parseDec(string(y)))
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !jsonEqual(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !jsonEqual(v, w) {
				return false
			}
		}
		return true
	}
	return false
}

// eqKey returns equal strings exactly for JSON-equal values (used for large arrays and sets)
func eqKey(v interface{}) string {
	var b strings.Builder
	writeKey(&b, v, true)
	return b.String()
}

// exactKey distinguishes spellings of numbers too: the value as it was written
func exactKey(v interface{}) string {
	var b strings.Builder
	writeKey(&b, v, false)
	return b.String()
}

func writeKey(b *strings.Builder, v interface{}, norm bool) {
	switch x := v.(type) {
	case nil:
		b.WriteString("z")
	case bool:
		if x {
			b.WriteString("t")
		} else {
			b.WriteString("f")
		}
	case string:
		b.WriteString(strconv.Quote(x))
	case json.Number:
		b.WriteString("n")
		if norm {
			b.WriteString(parseDec(string(x)).canon())
		} else {
			b.WriteString(string(x))
		}
		b.WriteString(";")
	case []interface{}:
		b.WriteString("[")
		for _, e := range x {
			writeKey(b, e, norm)
			b.WriteString(",")
		}
		b.WriteString("]")
	case map[string]interface{}:
		ks := sortedKeys(x)
		b.WriteString("{")
		for _, k := range ks {
			b.WriteString(strconv.Quote(k))
			b.WriteString(":")
			writeKey(b, x[k], norm)
			b.WriteString(",")
		}
		b.WriteString("}")
	default:
		fmt.Fprintf(b, "?%T:%v", v, v)
	}
}

func sortedKeys(m map[string]interface{}) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// text is a plain deterministic encoding
func text(v interface{}) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return strings.TrimSuffix(b.String(), "\n")
}

// randText encodes a value with random key order, white space and escapes
func randText(r *rand.Rand, v interface{}) string {
	var b strings.Builder
	style := r.Intn(4) // 0: compact
	if r.Intn(8) == 0 {
		ws(r, &b, 3)
	}
	encRand(r, &b, v, style)
	if r.Intn(8) == 0 {
		ws(r, &b, 3)
	}
	return b.String()
}

func ws(r *rand.Rand, b *strings.Builder, style int) {
	if style == 0 {
		return
	}
	for i := r.Intn(style + 1); i > 0; i-- {
		b.WriteByte(" \t\n\r"[r.Intn(4)])
	}
}

func encRand(r *rand.Rand, b *strings.Builder, v interface{}, style int) {
	switch x := v.(type) {
	case string:
		encStr(r, b, x, style)
	case json.Number:
		b.WriteString(string(x))
	case []interface{}:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			ws(r, b, style)
			encRand(r, b, e, style)
			ws(r, b, style)
		}
		b.WriteByte(']')
	case map[string]interface{}:
		ks := sortedKeys(x)
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			ws(r, b, style)
			encStr(r, b, k, style)
			ws(r, b, style)
			b.WriteByte(':')
			ws(r, b, style)
			encRand(r, b, x[k], style)
			ws(r, b, style)
		}
		b.WriteByte('}')
	default:
		b.WriteString(text(v))
	}
}

func encStr(r *rand.Rand, b *strings.Builder, s string, style int) {
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c < 0x20 || (style >= 2 && r.Intn(6) == 0):
			if c > 0xffff {
				a, z := utf16.EncodeRune(c)
				fmt.Fprintf(b, `\u%04x\u%04X`, a, z)
			} else if c == '\n' && r.Intn(2) == 0 {
				b.WriteString(`\n`)
			} else if c == '/' {
				b.WriteString(`\/`)
			} else {
				fmt.Fprintf(b, `\u%04x`, c)
			}
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
}

func short(s string) string {
	if len(s) > 1500 {
		return s[:1500] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func sortStrings(l []string) { sort.Strings(l) }
