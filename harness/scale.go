package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// Sizes that ordinary cases do not have: many members, long strings, deep nesting, long chains

func scaleSize(r *rand.Rand) int {
	switch r.Intn(4) {
	case 0:
		return genBigSize(r)%1100 + 1
	case 1:
		return 1<<uint(4+r.Intn(5)) + r.Intn(3)
	}
	return 20 + r.Intn(180)
}

// bigObject: many properties, required members, patterns or dependencies and documents with (nearly) all of them
func bigObject(r *rand.Rand, draft int) (obj, []interface{}) {
	n := scaleSize(r)
	key := func(i int) string { return "p" + strconv.Itoa(i) }
	s := obj{}
	if r.Intn(2) == 0 {
		m := obj{}
		for i := 0; i < n; i++ {
			m[key(i)] = obj{"type": "integer"}
		}
		s["properties"] = m
	}
	if r.Intn(3) == 0 {
		l := arr{}
		for _, i := range r.Perm(n) {
			l = append(l, key(i))
		}
		s["required"] = l
	}
	if r.Intn(4) == 0 {
		m := obj{}
		for i := 0; i < n && i < 60 && i*n < 6000; i++ {
			m["^"+key(i)+"$"] = obj{"maximum": num(1)}
		}
		s["patternProperties"] = m
	}
	if r.Intn(4) == 0 {
		m := obj{}
		for i := 0; i < n; i++ {
			m[key(i)] = []interface{}{arr{"q"}, obj{"maxProperties": num(n)}, arr{key((i + 1) % n)}}[r.Intn(3)]
		}
		s["dependencies"] = m
	}
	switch r.Intn(5) {
	case 0, 1:
		s["additionalProperties"] = false
	case 2:
		s["additionalProperties"] = obj{"type": "integer"}
	}
	if draft >= D6 && r.Intn(4) == 0 {
		s["propertyNames"] = obj{"pattern": "^[pq]"}
	}
	all := func() obj {
		o := obj{}
		for i := 0; i < n; i++ {
			o[key(i)] = num(1)
		}
		return o
	}
	var docs []interface{}
	docs = append(docs, all())
	o := all()
	delete(o, key(r.Intn(n)))
	docs = append(docs, o)
	o = all()
	o["extra"] = num(1)
	docs = append(docs, o)
	o = all()
	o[key(r.Intn(n))] = "x"
	docs = append(docs, o)
	o = all()
	o["q"] = num(2)
	delete(o, key(n-1))
	docs = append(docs, o)
	o = all()
	o["q"] = "z"
	docs = append(docs, o)
	return s, docs
}

// longString: strings around 64 KB against limits around them and small ones
func longString(r *rand.Rand, draft int) (obj, []interface{}) {
	n := []int{255, 256, 1000, 4096, 32767, 32768, 65535, 65536, 65537, 70000, 131072}[r.Intn(11)]
	if r.Intn(3) == 0 {
		n += r.Intn(300)
	}
	c := pick(r, "x", "x", "é", "😀", "xé")
	l := len([]rune(c))
	text := func(m int) string { return strings.Repeat(c, m/l) + strings.Repeat("y", m%l) }
	limit := n
	switch r.Intn(4) {
	case 0:
		limit = n % 65536
	case 1:
		limit = n % 256
	case 2:
		limit = 1 + r.Intn(100)
	}
	s := obj{}
	switch r.Intn(4) {
	case 0, 1:
		s["maxLength"] = num(limit)
	case 2:
		s["minLength"] = num(limit)
	default:
		s["pattern"] = pick(r, "z$", "^x*y*$", "y$", "^.{3}", "[^xy]")
	}
	strs := []string{text(n), text(n + 1), text(n - 1), text(n) + "z", text(limit), text(limit + 1)}
	var docs []interface{}
	for _, x := range strs {
		if draft >= D6 && r.Intn(8) == 0 {
			docs = append(docs, obj{x: nil})
		} else {
			docs = append(docs, x)
		}
	}
	return s, docs
}

func deepSize(r *rand.Rand) int {
	switch r.Intn(4) {
	case 0:
		return 10 + r.Intn(20)
	case 1:
		return 1<<uint(3+r.Intn(5)) - 1 + r.Intn(3)
	case 2:
		if n := litInt(r) + r.Intn(3) - 1; n >= 10 && n <= 150 {
			return n
		}
	}
	return 30 + r.Intn(120)
}

// deepen puts a schema deep into another one, behind a long chain of references, or into a recursive schema
// for deep documents
func deepen(r *rand.Rand, draft int, s obj, docs []interface{}) (obj, []interface{}, string) {
	n := deepSize(r)
	if len(docs) > 4 {
		r.Shuffle(len(docs), func(i, j int) { docs[i], docs[j] = docs[j], docs[i] })
		docs = docs[:4]
	}
	wrap := func(f func(v interface{}, i int) interface{}) []interface{} {
		var out []interface{}
		for _, v := range docs {
			for i := n; i > 0; i-- {
				v = f(v, i)
			}
			out = append(out, v)
		}
		return out
	}
	names := []string{"a", "b", "é", "x y", "a.b", "0"}
	switch r.Intn(4) {
	case 0: // applicators all the way down
		var cur interface{} = s
		kinds := []string{"allOf", "anyOf", "oneOf", "not"}
		only := ""
		if r.Intn(2) == 0 {
			only = pick(r, kinds...)
		}
		for i := 0; i < n; i++ {
			k := only
			if k == "" {
				k = pick(r, kinds...)
			}
			if k == "not" {
				cur = obj{"not": cur}
				continue
			}
			l := arr{cur}
			if r.Intn(3) == 0 {
				x := obj{"type": "null"}
				if k == "allOf" {
					x = obj{"not": obj{"type": "null"}}
				}
				if r.Intn(2) == 0 {
					l = append(l, x)
				} else {
					l = arr{x, cur}
				}
			}
			cur = obj{k: l}
		}
		return cur.(obj), docs, "deep_applicators"
	case 1: // a chain of references
		defs := obj{"d" + strconv.Itoa(n): s}
		for i := 0; i < n; i++ {
			to := obj{"$ref": fmt.Sprintf("#/definitions/d%d", i+1)}
			if r.Intn(20) == 0 {
				to = obj{"allOf": arr{to}}
			}
			defs["d"+strconv.Itoa(i)] = to
		}
		return obj{"definitions": defs, "allOf": arr{obj{"$ref": "#/definitions/d0"}}}, docs, "deep_references"
	case 2: // members and elements all the way down
		var cur interface{} = s
		path := make([]string, n+1)
		for i := n; i > 0; i-- {
			switch r.Intn(5) {
			case 0:
				cur = obj{"items": cur}
				path[i] = "["
			case 1:
				cur = obj{"items": arr{obj{}, cur}}
				path[i] = "[["
			default:
				k := pick(r, names...)
				path[i] = k
				switch r.Intn(4) {
				case 0:
					cur = obj{"patternProperties": obj{"": cur}}
				case 1:
					cur = obj{"additionalProperties": cur}
				default:
					cur = obj{"properties": obj{k: cur}}
				}
			}
		}
		return cur.(obj), wrap(func(v interface{}, i int) interface{} {
			switch path[i] {
			case "[":
				return arr{v}
			case "[[":
				return arr{nil, v}
			}
			return obj{path[i]: v}
		}), "deep_schema_and_document"
	}
	// a recursive schema
	k := pick(r, names...)
	self := func() obj { return obj{"$ref": "#/definitions/node"} }
	node := obj{"properties": obj{k: self()}, "items": self()}
	if r.Intn(2) == 0 {
		node["additionalProperties"] = self()
	}
	where := pick(r, "leaf", "everywhere")
	if where == "leaf" {
		node["properties"].(obj)["leaf"] = s
	} else {
		node["allOf"] = arr{s}
	}
	var leaves []interface{}
	for _, v := range docs {
		if where == "leaf" {
			v = obj{"leaf": v}
		}
		leaves = append(leaves, v)
	}
	docs = leaves
	return obj{"definitions": obj{"node": node}, "allOf": arr{self()}}, wrap(func(v interface{}, i int) interface{} {
		if i%3 == 0 {
			return arr{v}
		}
		return obj{k: v}
	}), "deep_recursion"
}

// annotate adds keywords that constrain nothing
func annotate(r *rand.Rand, s obj) obj {
	out := obj{}
	for k, v := range s {
		out[k] = v
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		k := pick(r, "title", "description", "default", "examples", "$comment", "readOnly", "x-unknown", "title", "description")
		if _, taken := out[k]; taken {
			continue
		}
		switch k {
		case "default", "x-unknown":
			out[k] = []interface{}{nil, num(1), "x", arr{}, obj{"type": num(1)}, false}[r.Intn(6)]
		case "examples":
			out[k] = arr{num(1), "x", nil}
		case "readOnly":
			out[k] = r.Intn(2) == 0
		default:
			out[k] = pick(r, "a title", "", "x", "{{.field}}", "%s")
		}
	}
	return out
}
