package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"strconv"
	"strings"

	js "github.com/xeipuuv/gojsonschema"
)

func init() {
	register(&Check{ID: "C22",
		Rule:   "a case compiles one hostile schema (generated, bundled or enumerated keyword/value combinations with junk put anywhere into it, texts changed byte by byte, extreme numbers, deep and wide nesting) in one of the draft modes, directly or through AddSchema, with or without meta-schema validation; if it compiles, 3-8 hostile documents are validated and every error is read and printed. The process is watched from outside for panics, crashes and hangs. An evaluation is one Compile or Validate call; distinct: different (mode, schema) or (schema, document)",
		Assume: []string{"a call that does not return within 60 s (confirmed with 120 s) runs forever", "schemas that could contain a cycle of references that never descends, by a conservative analysis, are left out"},
		Quick:  16000, Thorough: 500000, CaseTimeout: 60,
		Setup: func(w *Worker) { loadSuite() },
		Need:  []string{"compiled", "refused", "validated", "errors_printed", "enumerated", "pairs", "mutated", "bytes", "deep", "wide", "added", "refused_json", "extreme_numbers", "cycles_left_out", "recursive", "recursive_combined", "focused"},
		Run:   runJunk})
}

var junkStrings = []string{"", "a", "#", "#/", "#//", "#/definitions/a", "#/properties/a", "#/nowhere", "#a", "#/0", "#/-1", "#/~", "#/~2", "#/%", "#/%zz", "#/%25", "#%", "%", "%zz", ":", "://", "http://", "http://[", "http://[::1", "http://a b/", "http://nowhere.test/a#b", "http://nowhere.test/%zz", "urn:x", "urn:x#y", "mailto:a@b",
	"?", "?#", "/", "//", "///", "//h", ".", "..", "../..", "a/../../b", "a b", "\x00", "\u0000#", "\t", "é", "日本", "\U0001F600", "\ufffd", "~", "~0", "~1", "^", "$", "(", ")", "[", "]", "*", "a{1001}", "a{2,1}", "(?=a)", "(?P<x>a)", "\\", "\\p{L}", "\\p{Nope}", "[z-a]", "(a*)*$", "(((((((((a*)*)*)*)*)*)*)*)*)",
	"string", "integer", "number", "null", "boolean", "object", "array", "any", "date", "date-time", "email", "regex", "uri", "uuid", "ipv4", "ipv6", "hostname", "json-pointer", "uri-template", "unknown",
	"http://json-schema.org/draft-04/schema#", "http://json-schema.org/draft-06/schema", "http://json-schema.org/draft-07/schema#", "http://json-schema.org/draft-05/schema#", "http://json-schema.org/schema#", "https://json-schema.org/draft/2019-09/schema", "http://json-schema.org/draft-07/schema#/definitions/nonNegativeInteger", "http://json-schema.org/draft-07/schema#/nowhere",
	"{{.", "{{.field}}", "{{", "}}", "{{template}}", "%s%d%!", "<no value>", "true", "1", "{}", "2020-02-30", "0000-00-00", "1.2.3.4", "::", "a@b", "0#", "/~"}

var junkNumbers = []string{"0", "-0", "0.0", "-0.0", "1", "-1", "2", "0.1", "1.0", "1e0", "1E+0", "1e-1", "3.14", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "4294967296", "2147483648", "1e19", "1e20", "1e308", "1e309", "-1e309", "1e-308", "1e-400", "0e999999999", "0e-999999999", "1e4000", "-1e-4000",
	"123456789012345678901234567890.123456789012345678901234567890", "0.30000000000000004", "9007199254740993"}

// numbers that are far too large to be computed with
var extremeNumbers = []string{"1e9000", "-1e9000", "1e-5000", "1e99999999", "1e-99999999", "1e999999999", "1e2147483648", "1e-2147483649", "1e9223372036854775807", "1e-9223372036854775808", "1e9223372036854775808", "1e99999999999999999999999", "-1e-99999999999999999999999", "0e99999999999999999999999", "1.5e4294967297"}

func junkNumber(t *T) json.Number {
	r := t.R
	switch r.Intn(8) {
	case 0:
		return genNum(r)
	case 1:
		if r.Intn(4) == 0 {
			t.Count("extreme_numbers", 1)
			return json.Number(extremeNumbers[r.Intn(len(extremeNumbers))])
		}
		return json.Number(strings.Repeat("9", 1+r.Intn(400)))
	}
	return json.Number(junkNumbers[r.Intn(len(junkNumbers))])
}

func junkKey(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return junkStrings[r.Intn(len(junkStrings))]
	case 1:
		return genKey(r)
	}
	return allKeywords[r.Intn(len(allKeywords))]
}

func junkValue(t *T, depth int) interface{} {
	r := t.R
	n := 9
	if depth <= 0 {
		n = 6
	}
	switch r.Intn(n) {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2, 3:
		return junkNumber(t)
	case 4:
		return junkStrings[r.Intn(len(junkStrings))]
	case 5:
		return genString(r)
	case 6:
		l := arr{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, junkValue(t, depth-1))
		}
		return l
	}
	o := obj{}
	for i := r.Intn(4); i > 0; i-- {
		o[junkKey(r)] = junkValue(t, depth-1)
	}
	return o
}

// junkMutate puts junk somewhere into a value
func junkMutate(t *T, v interface{}, depth int) interface{} {
	r := t.R
	switch x := v.(type) {
	case map[string]interface{}:
		ks := sortedKeys(x)
		if len(ks) > 0 && r.Intn(4) > 0 && depth < 12 {
			k := ks[r.Intn(len(ks))]
			x[k] = junkMutate(t, x[k], depth+1)
			return x
		}
		switch r.Intn(6) {
		case 0:
			if len(ks) > 0 {
				delete(x, ks[r.Intn(len(ks))])
			}
		case 1: // the value of a keyword under another keyword
			if len(ks) > 0 {
				k := ks[r.Intn(len(ks))]
				x[junkKey(r)] = clone(x[k])
				if r.Intn(2) == 0 {
					delete(x, k)
				}
			}
		case 2:
			return arr{x}
		case 3:
			x["$ref"] = junkStrings[r.Intn(len(junkStrings))]
		default:
			x[junkKey(r)] = junkValue(t, 2)
		}
		return x
	case []interface{}:
		if len(x) > 0 && r.Intn(4) > 0 && depth < 12 {
			i := r.Intn(len(x))
			x[i] = junkMutate(t, x[i], depth+1)
			return x
		}
		switch r.Intn(4) {
		case 0:
			return append(x, junkValue(t, 2))
		case 1:
			return arr{}
		case 2:
			if len(x) > 0 {
				return append(x, clone(x[r.Intn(len(x))]))
			}
		case 3:
			o := obj{}
			for _, e := range x {
				o[junkKey(r)] = e
			}
			return o
		}
		return x
	}
	return junkValue(t, 2)
}

// descends lists the keywords whose subschemas apply to a part of the instance
var descends = map[string]bool{"properties": true, "patternProperties": true, "additionalProperties": true, "items": true, "additionalItems": true, "contains": true, "propertyNames": true}

// inPlaceCycle tells, conservatively, whether references of a schema may form a cycle that never descends
func inPlaceCycle(root interface{}) bool {
	type node struct {
		out  []int
		refs []string
	}
	var nodes []*node
	var vals []interface{}
	index := map[string]int{} // address of the object, by path
	var ided, pinned []string // objects with an identifier, with one that has a fragment
	var walk func(v interface{}, path string) int
	walk = func(v interface{}, path string) int {
		n := &node{}
		i := len(nodes)
		nodes = append(nodes, n)
		vals = append(vals, v)
		index[path] = i
		switch x := v.(type) {
		case map[string]interface{}:
			for _, k := range []string{"id", "$id"} {
				if s, ok := x[k].(string); ok {
					ided = append(ided, path)
					if strings.Contains(s, "#") {
						pinned = append(pinned, path)
					}
				}
			}
			if s, ok := x["$ref"].(string); ok {
				n.refs = append(n.refs, s)
			}
			for _, k := range sortedKeys(x) {
				c := walk(x[k], path+"/"+strings.ReplaceAll(strings.ReplaceAll(k, "~", "~0"), "/", "~1"))
				if !descends[k] {
					n.out = append(n.out, c)
				}
			}
		case []interface{}:
			for k, e := range x {
				n.out = append(n.out, walk(e, path+"/"+strconv.Itoa(k)))
			}
		}
		return i
	}
	walk(root, "")
	follow := func(from string, ptr string) (string, bool) {
		cur, path := vals[index[from]], from
		if ptr == "" {
			return path, true
		}
		for _, tok := range strings.Split(strings.TrimPrefix(ptr, "/"), "/") {
			tok = strings.ReplaceAll(strings.ReplaceAll(tok, "~1", "/"), "~0", "~")
			switch x := cur.(type) {
			case map[string]interface{}:
				c, ok := x[tok]
				if !ok {
					return "", false
				}
				cur, path = c, path+"/"+strings.ReplaceAll(strings.ReplaceAll(tok, "~", "~0"), "/", "~1")
			case []interface{}:
				i, err := strconv.Atoi(tok)
				if err != nil || i < 0 || i >= len(x) {
					return "", false
				}
				cur, path = x[i], path+"/"+strconv.Itoa(i)
			default:
				return "", false
			}
		}
		return path, true
	}
	anyRef := false
	for i, n := range nodes {
		for _, ref := range n.refs {
			if strings.HasPrefix(ref, "http://nowhere.test/") || strings.Contains(ref, "json-schema.org/draft-0") {
				continue
			}
			anyRef = true
			for _, p := range pinned {
				nodes[i].out = append(nodes[i].out, index[p])
			}
			starts := append([]string{""}, ided...)
			frag, hasFrag := "", false
			if h := strings.Index(ref, "#"); h >= 0 {
				frag, hasFrag = ref[h+1:], true
			}
			for _, f := range []string{frag, unescape(frag)} {
				for _, s := range starts {
					if f == "" || strings.HasPrefix(f, "/") {
						if p, ok := follow(s, f); ok {
							nodes[i].out = append(nodes[i].out, index[p])
						}
					} else {
						nodes[i].out = append(nodes[i].out, index[s])
					}
				}
			}
			_ = hasFrag
		}
	}
	if !anyRef {
		return false
	}
	state := make([]int, len(nodes))
	var cyc func(i int) bool
	cyc = func(i int) bool {
		state[i] = 1
		for _, o := range nodes[i].out {
			if state[o] == 1 || state[o] == 0 && cyc(o) {
				return true
			}
		}
		state[i] = 2
		return false
	}
	for i := range nodes {
		if state[i] == 0 && cyc(i) {
			return true
		}
	}
	return false
}

func unescape(s string) string {
	if u, err := url.PathUnescape(s); err == nil {
		return u
	}
	return s
}

func nest(t *T, depth int) (schema, doc interface{}) {
	r := t.R
	var s interface{} = obj{"type": []string{"integer", "string", "null"}[r.Intn(3)]}
	var d interface{} = num(1)
	kind := r.Intn(9)
	for i := 0; i < depth; i++ {
		switch kind {
		case 0:
			s, d = obj{"properties": obj{"a": s}}, obj{"a": d}
		case 1:
			s, d = obj{"items": s}, arr{d}
		case 2:
			s = obj{"not": s}
		case 3:
			s = obj{"allOf": arr{s}}
		case 4:
			s = obj{"anyOf": arr{s}}
		case 5:
			s = obj{"oneOf": arr{s}}
		case 6:
			s, d = obj{"additionalProperties": s}, obj{"é\n": d}
		case 7:
			s, d = obj{"items": arr{s}}, arr{d}
		case 8:
			s = obj{"if": obj{}, "then": s}
		}
	}
	return s, d
}

// recursiveSchema: one recursive schema using its references in every kind of place and a document deep enough
// for work that doubles with every level to take forever
func recursiveSchema(r *rand.Rand) (interface{}, []interface{}) {
	self := func() interface{} { return obj{"$ref": "#/definitions/node"} }
	use := func() interface{} { // of the node, once
		switch r.Intn(8) {
		case 0:
			return obj{"not": self()}
		case 1:
			return obj{"allOf": arr{self()}}
		case 2:
			return obj{"anyOf": arr{obj{"type": "null"}, self()}}
		case 3:
			return obj{"oneOf": arr{obj{"type": "null"}, self()}}
		case 4:
			return obj{"if": self()}
		case 5:
			return obj{"if": obj{"type": "object"}, "then": self(), "else": self()}
		case 6:
			return obj{"dependencies": obj{"a": self(), "b": self()}}
		}
		return self()
	}
	node := obj{}
	switch r.Intn(6) {
	case 0:
		node["properties"] = obj{"a": use()}
	case 1:
		node["additionalProperties"] = use()
	case 2:
		node["patternProperties"] = obj{"^a": use()}
	case 3:
		node["properties"] = obj{"a": use()}
		node["items"] = arr{use()}
	case 4:
		node["properties"] = obj{"a": use()}
		node["dependencies"] = obj{"a": obj{"maxProperties": num(5)}}
	default:
		node["properties"] = obj{"a": use()}
		node["additionalItems"] = use()
		node["items"] = arr{use()}
		node["contains"] = obj{}
	}
	for i := r.Intn(4); i > 0; i-- { // constraints of its own
		switch r.Intn(8) {
		case 0:
			node["not"] = obj{"type": "null"}
		case 1:
			node["anyOf"] = arr{obj{"type": "object"}, obj{"type": "array"}, obj{"type": "integer"}}
		case 2:
			node["oneOf"] = arr{obj{"type": "object"}, obj{"type": "array"}, obj{"type": "integer"}}
		case 3:
			node["allOf"] = arr{obj{}, obj{"not": obj{"type": "boolean"}}}
		case 4:
			node["if"], node["then"] = obj{"type": "integer"}, obj{"maximum": num(3)}
		case 5:
			node["type"] = arr{"object", "array", "integer"}
		case 6:
			node["title"], node["default"] = "x", obj{}
		case 7:
			node["minProperties"], node["maxItems"] = num(1), num(5)
		}
	}
	var d interface{} = []interface{}{num(1), num(9), nil, "x"}[r.Intn(4)]
	kind := r.Intn(3)
	for i := []int{40, 60, 60, 120}[r.Intn(4)]; i > 0; i-- {
		if kind == 0 || kind == 1 && i%2 == 0 {
			d = obj{"a": d}
		} else {
			d = arr{d}
			if node["items"] == nil && node["additionalItems"] == nil {
				d = obj{"ab": d.(arr)[0]}
				if node["properties"] != nil {
					d = obj{"a": d.(obj)["ab"]}
				}
			}
		}
	}
	return obj{"definitions": obj{"node": node}, "allOf": arr{self()}}, []interface{}{d, mutateDoc(r, d)}
}

// junkPairs: every keyword with every probe value beside a well-formed use of every other keyword, in every draft
func junkPairs(t *T) {
	r := t.R
	cases := t.Check.Quick
	if t.IsThorough() {
		cases = t.Check.Thorough
	}
	for i := t.Idx; i < len(allKeywords)*len(probeTexts)*len(goodTexts); i += cases {
		k, v, p := allKeywords[i%len(allKeywords)], i/len(allKeywords)%len(probeTexts), i/len(allKeywords)/len(probeTexts)
		s := mustParse(goodTexts[p]).(obj)
		s[k] = mustParse(probeTexts[v])
		if containsRef(s) {
			continue // the references below are for the other part
		}
		for _, d := range []int{D4, D6, D7, DH} {
			m := Mode{Draft: d, Auto: r.Intn(2) == 0, Loader: d}
			txt := text(s)
			t.last(m.String() + " " + txt)
			c, err := m.loader().Compile(js.NewStringLoader(txt))
			t.Eval(m.String() + txt)
			t.Count("pairs", 1)
			if err != nil {
				_ = err.Error()
				continue
			}
			for n := 0; n < 2; n++ {
				doc := pairDocs[r.Intn(len(pairDocs))]
				t.last(m.String() + " " + txt + " document " + doc)
				res, err := c.Validate(js.NewStringLoader(doc))
				if err == nil {
					for _, e := range res.Errors() {
						_ = e.String()
					}
				}
			}
		}
	}
}

var pairDocs = []string{`null`, `true`, `0`, `3`, `-2.5`, `""`, `"abc"`, `[]`, `[1]`, `[null,1,"x",[],{}]`, `{}`, `{"a":1}`, `{"a":null,"b":[],"c":"x","abc":{}}`, `[[],[]]`}

func runJunk(t *T) {
	r := t.R
	theTransport.set(nil)
	junkPairs(t)
	var schema interface{}
	var txt string
	var docs []interface{}
	kind := r.Intn(20)
	enum := t.Idx / 4
	if t.Idx%4 == 0 && enum < len(allKeywords)*(len(probeTexts)+len(junkNumbers)+20)*2 {
		kind = 100
	}
	switch {
	case kind == 100: // every keyword with every kind of value
		k := allKeywords[enum%len(allKeywords)]
		enum /= len(allKeywords)
		var v interface{}
		if enum < len(probeTexts) {
			v = mustParse(probeTexts[enum])
		} else {
			v = junkValue(t, 2)
		}
		schema = obj{k: v}
		if r.Intn(3) == 0 {
			schema.(obj)[junkKey(r)] = junkValue(t, 1)
		}
		for i := r.Intn(3); i > 0; i-- {
			schema = []interface{}{obj{"properties": obj{"a": schema}}, obj{"items": schema}, obj{"allOf": arr{schema}}, obj{"not": schema}, obj{"definitions": obj{"a": schema}, "$ref": "#/definitions/a"}}[r.Intn(5)]
		}
		t.Count("enumerated", 1)
	case kind < 8: // junk in well-formed schemas
		d := randDraft(r)
		switch k := r.Intn(5); {
		case k < 3 && k > 0: // the boundaries of some keywords, also without junk
			all := []focusFn{focusNumbers, focusStrings, focusEquality, focusEquality, focusArrays, focusObjects, focusAlgebra, focusBranches, focusMerged}
			var s obj
			s, docs = all[r.Intn(len(all))](r, d)
			schema = clone(s)
			r.Shuffle(len(docs), func(i, j int) { docs[i], docs[j] = docs[j], docs[i] })
			if len(docs) > 8 {
				docs = docs[:8]
			}
			t.Count("focused", 1)
		case k == 0:
			g := &suiteGroups[r.Intn(len(suiteGroups))]
			schema = clone(g.Schema)
			docs = g.docs(r)
			if len(docs) > 4 {
				docs = docs[:4]
			}
		default:
			schema = clone((&Gen{r: r, draft: d}).Root())
			docs = docsFor(r, schema, 3)
		}
		for i := r.Intn(4); i > 0; i-- {
			schema = junkMutate(t, schema, 0)
		}
		t.Count("mutated", 1)
	case kind < 12: // pure junk
		o := obj{}
		for i := 1 + r.Intn(6); i > 0; i-- {
			o[junkKey(r)] = junkValue(t, 3)
		}
		schema = o
		if r.Intn(10) == 0 {
			schema = junkValue(t, 3)
		}
		t.Count("mutated", 1)
	case kind < 15: // bytes
		s := (&Gen{r: r, draft: randDraft(r)}).Root()
		docs = docsFor(r, s, 2)
		b := []byte(randText(r, s))
		for i := 1 + r.Intn(3); i > 0 && len(b) > 0; i-- {
			p := r.Intn(len(b))
			switch r.Intn(4) {
			case 0:
				b[p] = byte(r.Intn(256))
			case 1:
				b = append(b[:p], b[p+1:]...)
			case 2:
				b[p] = `{}[]":,0-1aeE.+\ntf`[r.Intn(19)]
			case 3:
				q := r.Intn(len(b))
				if p > q {
					p, q = q, p
				}
				b = append(b[:q:q], b[p:]...)
			}
		}
		txt = string(b)
		t.Count("bytes", 1)
		dec := json.NewDecoder(strings.NewReader(txt))
		dec.UseNumber()
		if dec.Decode(&schema) != nil {
			schema = nil
			t.Count("refused_json", 1)
		}
	case kind == 15 && t.Idx%8 == 7: // deep
		depth := []int{50, 300, 1500, 4500, 9990, 10001}[r.Intn(6)]
		var d interface{}
		schema, d = nest(t, depth/2)
		docs = append(docs, d)
		t.Count("deep", 1)
	case kind == 16: // wide
		n := []int{10, 100, 1000, 3000}[r.Intn(4)]
		o, a := obj{}, arr{}
		props := obj{}
		for i := 0; i < n; i++ {
			k := fmt.Sprint("k", i)
			o[k] = num(i % 7)
			a = append(a, num(i%(1+n/2)))
			props[k] = obj{"type": []string{"integer", "string"}[r.Intn(2)]}
		}
		schema = []interface{}{obj{"properties": props}, obj{"required": keysOf(props)}, obj{"uniqueItems": true}, obj{"enum": a[:min(n, 250)]}, obj{"items": arr{props}}, obj{"additionalProperties": false}, obj{"propertyNames": obj{"maxLength": num(3)}, "items": obj{"minimum": num(3)}}, obj{"anyOf": manySchemas(min(n, 250))}, obj{"oneOf": manySchemas(min(n, 250))}}[r.Intn(9)]
		docs = append(docs, o, a)
		t.Count("wide", 1)
	case kind == 17: // recursion through references
		if r.Intn(3) == 0 {
			schema, docs = recursiveSchema(r)
			t.Count("recursive_combined", 1)
			break
		}
		schema = []interface{}{obj{"properties": obj{"a": obj{"$ref": "#"}}, "items": obj{"$ref": "#"}, "type": arr{"object", "array", "integer"}},
			obj{"additionalProperties": obj{"$ref": "#/definitions/x"}, "definitions": obj{"x": obj{"items": obj{"$ref": "#/definitions/y"}}, "y": obj{"additionalProperties": obj{"$ref": "#/definitions/x"}, "not": obj{"type": "string"}}}},
			obj{"$ref": draftURL[[]int{D4, D6, D7}[r.Intn(3)]]},
			obj{"propertyNames": obj{"$ref": "#"}, "maxLength": num(2)},
			obj{"contains": obj{"$ref": "#"}, "maximum": num(5)},
		}[r.Intn(5)]
		_, d := nest(t, []int{3, 20, 200, 2000}[r.Intn(4)])
		docs = append(docs, d, genValue(r, 3))
		if r.Intn(2) == 0 {
			docs = append(docs, clone(schema))
		}
		t.Count("recursive", 1)
	default: // extreme numbers
		n := func() json.Number {
			if r.Intn(20) == 0 {
				return "1e1000000" // about the largest that is computed with
			}
			if r.Intn(2) == 0 {
				return json.Number(extremeNumbers[r.Intn(len(extremeNumbers))])
			}
			return junkNumber(t)
		}
		k := []string{"multipleOf", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minLength", "maxItems", "minProperties", "const", "enum", "type", "default"}[r.Intn(12)]
		s := obj{}
		switch k {
		case "enum":
			s[k] = arr{n(), n()}
		case "type":
			s[k] = "integer"
		default:
			s[k] = n()
		}
		schema = s
		docs = append(docs, n(), n(), arr{n(), n()})
		t.Count("extreme_numbers", 1)
	}
	if txt == "" {
		txt = text(schema)
		if r.Intn(3) == 0 {
			txt = randText(r, schema)
		}
	}
	if inPlaceCycle(schema) {
		t.Count("cycles_left_out", 1)
		return
	}
	sl := js.NewSchemaLoader()
	sl.Draft = []js.Draft{js.Hybrid, js.Draft4, js.Draft6, js.Draft7}[r.Intn(4)]
	sl.AutoDetect = r.Intn(3) > 0
	sl.Validate = r.Intn(3) == 0
	var l js.JSONLoader = js.NewStringLoader(txt)
	switch r.Intn(6) {
	case 0:
		l = js.NewBytesLoader([]byte(txt))
	case 1:
		if schema != nil {
			l = js.NewRawLoader(clone(schema))
		}
	case 2:
		if schema != nil && len(txt) < 1<<20 {
			l = js.NewGoLoader(clone(schema))
		}
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "case", t.Idx, "kind", kind, short(txt))
	}
	mode := fmt.Sprintf("Draft=%d AutoDetect=%v Validate=%v", sl.Draft, sl.AutoDetect, sl.Validate)
	var s *js.Schema
	var err error
	switch r.Intn(6) {
	case 0:
		t.Count("added", 1)
		err = sl.AddSchema("http://added.test/s", l)
		if err == nil {
			s, err = sl.Compile(js.NewReferenceLoader("http://added.test/s"))
		}
	case 1:
		t.Count("added", 1)
		sl.AddSchemas(l)
		sl2 := js.NewSchemaLoader()
		sl2.AddSchema("http://added.test/s", js.NewStringLoader(txt))
		s, err = sl2.Compile(js.NewStringLoader(`{"items":{"$ref":"http://added.test/s"},"properties":{"a":{"$ref":"http://added.test/s#/definitions/a"}}}`))
	default:
		s, err = sl.Compile(l)
	}
	t.Eval(mode + txt)
	ex := Exhibit{Mode: mode, Schema: short(txt)}
	if (s == nil) == (err == nil) {
		t.Fail("outcome", ex, "Compile returned schema %v and error %v", s != nil, err)
		return
	}
	if err != nil {
		if err.Error() == "" {
			t.Fail("outcome", ex, "Compile returned an error without a text")
		}
		t.Count("refused", 1)
		return
	}
	t.Count("compiled", 1)
	for len(docs) < 3 {
		docs = append(docs, junkValue(t, 3))
	}
	for i := range docs {
		if i >= 2 && r.Intn(2) == 0 {
			docs[i] = junkMutate(t, clone(docs[i]), 0)
		}
	}
	docs = append(docs, nil)
	for _, d := range docs {
		var dl js.JSONLoader
		switch r.Intn(3) {
		case 0:
			dl = js.NewRawLoader(clone(d))
		case 1:
			dl = js.NewBytesLoader([]byte(text(d)))
		default:
			dl = js.NewStringLoader(text(d))
		}
		res, err := s.Validate(dl)
		dt := text(d)
		t.Eval(txt + dt)
		ex.Doc = short(dt)
		if (res == nil) == (err == nil) {
			t.Fail("outcome", ex, "Validate returned result %v and error %v", res != nil, err)
			return
		}
		if err != nil {
			t.Count("refused_documents", 1)
			continue
		}
		t.Count("validated", 1)
		if res.Valid() != (len(res.Errors()) == 0) {
			t.Fail("outcome", ex, "valid=%v with %d errors", res.Valid(), len(res.Errors()))
			return
		}
		for i, e := range res.Errors() {
			if i >= 400 {
				break // printing is quadratic for deep documents
			}
			if e == nil {
				t.Fail("errors", ex, "an error is nil")
				return
			}
			str := e.String() + e.Field() + e.Description() + e.DescriptionFormat() + e.Type() + e.Context().String()
			if e.Type() == "" || e.Context().String() == "" || e.Details() == nil {
				t.Fail("errors", ex, "an error is incomplete: %s", str)
				return
			}
			t.Count("errors_printed", 1)
		}
	}
	if t.Idx < 16 {
		t.Sample(obj{"mode": mode, "schema": short(txt)})
	}
}

func keysOf(o obj) arr {
	l := arr{}
	for _, k := range sortedKeys(o) {
		l = append(l, k)
	}
	return l
}

func manySchemas(n int) arr {
	l := arr{}
	for i := 0; i < n; i++ {
		l = append(l, obj{"const": num(i)})
	}
	return l
}
