package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	js "github.com/xeipuuv/gojsonschema"
)

var allKeywords = []string{"$ref", "$id", "id", "$schema", "title", "description", "format", "definitions", "properties", "patternProperties", "dependencies", "type",
	"additionalProperties", "additionalItems", "not", "propertyNames", "contains", "if", "then", "else", "items", "allOf", "anyOf", "oneOf", "multipleOf",
	"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minLength", "maxLength", "minProperties", "maxProperties", "minItems", "maxItems",
	"pattern", "required", "uniqueItems", "enum", "const", "default", "examples", "$comment", "readOnly", "contentMediaType", "unknownKeyword"}

var probeTexts = []string{`null`, `true`, `false`, `0`, `1`, `-1`, `2.0`, `2e0`, `20e-1`, `1.5`, `-0`, `0.0`, `-0.5`, `1e-400`, `1e400`, `-1e400`, `9223372036854775807`, `9223372036854775808`, `9007199254740993`, `-9223372036854775808`,
	`""`, `"string"`, `"strin"`, `"integer"`, `"any"`, `"x"`, `"("`, `"["`, `"*"`, `"(?=x)"`, `"\\"`, `"^a+$"`, `"5"`, `"#"`, `"#/definitions/ok"`, `"#/definitions/none"`, `"#anchor"`, `"http://h.test/x.json"`, `"%zz"`, `"date"`,
	`[]`, `[null]`, `[1]`, `[1,2]`, `[1,1]`, `[1,1.0]`, `["a"]`, `["a","b"]`, `["a","a"]`, `["string","null"]`, `["string","string"]`, `["string","any"]`, `["string",1]`, `[{}]`, `[{},{}]`, `[{"a":1},{"a":1.0}]`, `[true]`, `[false,{}]`, `[[]]`, `[{"type":"any"}]`, `[{},{"minLength":-1}]`, `["a",null]`, `[0,-0]`, `[{"a":1,"b":2},{"b":2,"a":1}]`, `["1",1]`,
	`{}`, `{"a":null}`, `{"a":1}`, `{"a":"x"}`, `{"a":true}`, `{"a":false}`, `{"a":{}}`, `{"(":{}}`, `{"a":[]}`, `{"a":["b"]}`, `{"a":["b","b"]}`, `{"a":[1]}`, `{"a":["b",null]}`, `{"a":[{}]}`, `{"a":{"type":"any"}}`, `{"a":{"items":{"pattern":"("}}}`, `{"type":"string"}`, `{"type":"any"}`, `{"type":[]}`, `{"minLength":-1}`, `{"minLength":1.5}`, `{"maxLength":2,"minLength":3}`, `{"maxLength":3,"minLength":3}`, `{"minimum":3,"maximum":2}`, `{"minItems":3,"maxItems":2}`, `{"minProperties":3,"maxProperties":2}`, `{"$ref":"#/definitions/none"}`, `{"$ref":"#/definitions/ok"}`, `{"$ref":1}`, `{"required":"a"}`, `{"properties":{"a":{"properties":{"b":{"type":12}}}}}`, `{"properties":{"a":true}}`, `{"not":{"not":{"multipleOf":0}}}`, `{"exclusiveMinimum":true}`, `{"exclusiveMinimum":1}`, `{"minimum":1,"exclusiveMinimum":true}`, `{"exclusiveMaximum":"x"}`, `{"enum":[1,1]}`, `{"enum":1}`, `{"const":1}`, `{"id":1}`, `{"$id":1}`, `{"contains":1}`, `{"if":1}`, `{"then":[]}`, `{"propertyNames":[]}`, `{"title":1}`, `{"format":1}`, `{"uniqueItems":1}`, `{"additionalItems":[]}`, `{"additionalProperties":"x"}`, `{"items":[{"type":1}]}`, `{"dependencies":{"a":1}}`, `{"patternProperties":{"[":{}}}`, `{"definitions":{"a":1}}`, `{"definitions":[]}`, `{"definitions":{"a":true}}`, `{"unknownKeyword":{"type":12}}`, `{"default":{"type":12}}`}

// siblings that make or break a keyword
var partners = []string{`{}`, `{"minLength":2}`, `{"maxLength":1}`, `{"minProperties":2}`, `{"maxProperties":1}`, `{"minItems":2}`, `{"minimum":1}`, `{"maximum":1}`, `{"minimum":"x"}`, `{"items":[{}]}`, `{"type":"integer"}`, `{"if":{}}`, `{"exclusiveMinimum":true}`, `{"exclusiveMaximum":true}`}

// place a schema at a position that is compiled (or not)
var spots = []struct {
	name string
	f    func(s interface{}) interface{}
}{
	{"root", func(s interface{}) interface{} { return s }},
	{"definitions", func(s interface{}) interface{} { return obj{"definitions": obj{"bad": s}} }},
	{"properties", func(s interface{}) interface{} { return obj{"properties": obj{"p": s}} }},
	{"patternProperties", func(s interface{}) interface{} { return obj{"patternProperties": obj{"^p": s}} }},
	{"additionalProperties", func(s interface{}) interface{} { return obj{"additionalProperties": s} }},
	{"dependencies", func(s interface{}) interface{} { return obj{"dependencies": obj{"p": s}} }},
	{"items", func(s interface{}) interface{} { return obj{"items": s} }},
	{"items list", func(s interface{}) interface{} { return obj{"items": arr{obj{}, s}} }},
	{"additionalItems", func(s interface{}) interface{} { return obj{"items": arr{obj{}}, "additionalItems": s} }},
	{"additionalItems alone", func(s interface{}) interface{} { return obj{"additionalItems": s} }},
	{"allOf", func(s interface{}) interface{} { return obj{"allOf": arr{s, obj{}}} }},
	{"anyOf", func(s interface{}) interface{} { return obj{"anyOf": arr{obj{}, s}} }},
	{"oneOf", func(s interface{}) interface{} { return obj{"oneOf": arr{s}} }},
	{"not", func(s interface{}) interface{} { return obj{"not": s} }},
	{"contains", func(s interface{}) interface{} { return obj{"contains": s} }},
	{"propertyNames", func(s interface{}) interface{} { return obj{"propertyNames": s} }},
	{"if", func(s interface{}) interface{} { return obj{"if": s} }},
	{"then", func(s interface{}) interface{} { return obj{"if": obj{}, "then": s} }},
	{"else", func(s interface{}) interface{} { return obj{"else": s} }},
	{"referenced", func(s interface{}) interface{} {
		return obj{"items": obj{"$ref": "#/x-defs/0"}, "x-defs": arr{s}}
	}},
	{"referenced twice", func(s interface{}) interface{} {
		return obj{"items": obj{"$ref": "#/definitions/a"}, "definitions": obj{"a": obj{"$ref": "#/x-defs/b"}}, "x-defs": obj{"b": obj{"not": s}}}
	}},
	{"definitions of definitions", func(s interface{}) interface{} {
		return obj{"properties": obj{"definitions": obj{"definitions": obj{"x": s}}}}
	}},
	{"deep", func(s interface{}) interface{} {
		return obj{"properties": obj{"a": obj{"items": arr{obj{"allOf": arr{obj{"dependencies": obj{"b": obj{"not": s}}}}}}}}}
	}},
	// not schemas
	{"unknown keyword", func(s interface{}) interface{} { return obj{"unknownKeyword": s} }},
	{"default", func(s interface{}) interface{} { return obj{"default": s} }},
	{"examples", func(s interface{}) interface{} { return obj{"examples": arr{s}} }},
	{"enum", func(s interface{}) interface{} { return obj{"enum": arr{s}} }},
	{"const", func(s interface{}) interface{} { return obj{"const": s} }},
	{"beside $ref", func(s interface{}) interface{} {
		m, ok := s.(obj)
		if !ok {
			return obj{"definitions": obj{"ok": obj{}}}
		}
		c := obj{"$ref": "#/definitions/ok"}
		for k, v := range m {
			if k != "$ref" && k != "id" && k != "$id" && k != "definitions" && k != "title" && k != "description" {
				c[k] = v
			}
		}
		return obj{"items": c, "definitions": obj{"ok": obj{}}}
	}},
	{"unreferenced unknown", func(s interface{}) interface{} { return obj{"x-defs": obj{"a": obj{"properties": obj{"b": s}}}} }},
	{"property name", func(s interface{}) interface{} {
		if m, ok := s.(obj); ok {
			p := obj{}
			for k := range m {
				p[k] = obj{}
			}
			return obj{"properties": p, "definitions": clone(p), "dependencies": clone(p)}
		}
		return obj{}
	}},
}

// ambiguous tells whether a schema value contains something the property leaves open
func ambiguous(v interface{}) bool {
	switch x := v.(type) {
	case []interface{}:
		for _, e := range x {
			if ambiguous(e) {
				return true
			}
		}
	case map[string]interface{}:
		if _, ok := x["$ref"]; ok {
			// the library looks at these before it looks at the reference
			for _, k := range []string{"definitions", "title", "description", "$id", "id"} {
				if _, ok := x[k]; ok {
					return true
				}
			}
		}
		for k, e := range x {
			switch k {
			case "enum", "type", "allOf", "anyOf", "oneOf", "required", "items", "examples":
				if l, ok := e.(arr); ok && len(l) == 0 && k != "examples" {
					return true
				}
			case "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties":
				if nb, ok := e.(json.Number); ok {
					d := parseDec(string(nb))
					if _, ok := countOf(e); !ok && d.isInt() && !d.zero && d.sign() > 0 {
						return true
					}
				}
			case "$id", "id", "$schema", "$ref":
				if s, ok := e.(string); ok && strings.Contains(s, "%zz") {
					return true
				}
			case "dependencies":
				if m, ok := e.(obj); ok {
					for _, dv := range m {
						if l, ok := dv.(arr); ok {
							seen := map[string]bool{}
							for _, y := range l {
								if seen[eqKey(y)] {
									return true
								}
								seen[eqKey(y)] = true
							}
							if len(l) == 0 {
								return true
							}
						}
					}
				}
			}
			if ambiguous(e) {
				return true
			}
		}
	}
	return false
}

var compileEnum [][4]int

func buildCompileEnum() {
	if compileEnum != nil {
		return
	}
	for k := range allKeywords {
		for v := range probeTexts {
			for s := range spots {
				compileEnum = append(compileEnum, [4]int{k, v, s, 0})
			}
			for p := 1; p < len(partners); p++ {
				compileEnum = append(compileEnum, [4]int{k, v, (k + v + p) % 3, p})
			}
		}
	}
}

// compileOutcome compares one compilation with the oracle
func compileOutcome(t *T, m Mode, schema interface{}, what string, times int) {
	s := m.dress(schema)
	if ambiguous(s) {
		t.Count("undecided", 1)
		return
	}
	u, root := m.root(s)
	u.grey = false
	wf := u.WellFormed(root)
	if o, ok := s.(obj); ok && m.Auto {
		if v, has := o["$schema"]; has {
			if _, isS := v.(string); !isS {
				wf = "$schema is not a string"
			}
		}
	}
	if u.grey {
		t.Count("undecided", 1)
		return
	}
	txt := text(s)
	for i := 0; i < times; i++ {
		var c *js.Schema
		var err error
		if i == 0 && m.Auto && m.Loader == DH {
			c, err = js.NewSchema(js.NewStringLoader(txt))
		} else {
			c, err = m.loader().Compile(js.NewBytesLoader([]byte(txt)))
		}
		t.Eval(m.String() + txt)
		ex := Exhibit{Mode: m.String(), Schema: short(txt), Want: wf, Got: fmt.Sprint(err), Extra: what}
		switch {
		case wf == "" && err != nil:
			t.Fail("refused", ex, "a well-formed schema does not compile: %v", err)
		case wf != "" && err == nil:
			t.Fail("compiled", ex, "a malformed schema compiles: %s", wf)
		case err != nil && c != nil:
			t.Fail("compiled", ex, "a failed compilation returns a schema")
		case err == nil && c == nil:
			t.Fail("refused", ex, "neither schema nor error")
		case err != nil && err.Error() == "":
			t.Fail("refused", ex, "an empty error")
		}
	}
	if wf == "" {
		t.Count("wellformed", 1)
	} else {
		t.Count("malformed", 1)
	}
}

// mutateSchema changes one keyword of one object in a schema
func mutateSchema(r *rand.Rand, v interface{}) interface{} {
	v = clone(v)
	var objs []obj
	var walk func(x interface{})
	walk = func(x interface{}) {
		switch y := x.(type) {
		case map[string]interface{}:
			objs = append(objs, y)
			for _, k := range sortedKeys(y) {
				walk(y[k])
			}
		case []interface{}:
			for _, e := range y {
				walk(e)
			}
		}
	}
	walk(v)
	if len(objs) == 0 {
		return mustParse(probeTexts[r.Intn(len(probeTexts))])
	}
	o := objs[r.Intn(len(objs))]
	ks := sortedKeys(o)
	switch {
	case len(ks) > 0 && r.Intn(3) > 0:
		k := ks[r.Intn(len(ks))]
		switch r.Intn(4) {
		case 0:
			delete(o, k)
		case 1:
			o[k] = nearMiss(r, o[k])
		default:
			o[k] = mustParse(probeTexts[r.Intn(len(probeTexts))])
		}
	default:
		o[allKeywords[r.Intn(len(allKeywords))]] = mustParse(probeTexts[r.Intn(len(probeTexts))])
	}
	return v
}

func init() {
	register(&Check{ID: "C10",
		Rule:   "an evaluation is one Compile call compared with the well-formedness oracle: every keyword with every probe value at every spot, beside a well-formed use of every other keyword, (compiled or not compiled places) and beside every partner keyword, in every draft, plus random mutations of generated schemas and of worlds of referenced documents, each compiled repeatedly; distinct: different (mode, schema text)",
		Assume: []string{"the well-formedness oracle (wellformed.go) states the documented restrictions; empty arrays where the specifications want members, counts beyond 64 bit, duplicated names in dependency lists and unparsable URIs are left undecided"},
		Quick:  16000, Thorough: 400000,
		Setup: func(w *Worker) { buildCompileEnum(); loadSuite() },
		Need:  []string{"wellformed", "malformed", "enumerated", "pairs", "subtle", "mutated", "world_malformed", "world_wellformed"},
		Run: func(t *T) {
			r := t.R
			cases := t.Check.Quick
			if t.IsThorough() {
				cases = t.Check.Thorough
			}
			for i := t.Idx; i < len(compileEnum); i += cases {
				e := compileEnum[i]
				for _, d := range []int{D4, D6, D7, DH} {
					s := mustParse(partners[e[3]]).(obj)
					s[allKeywords[e[0]]] = mustParse(probeTexts[e[1]])
					v := spots[e[2]].f(s)
					if o, ok := v.(obj); ok {
						if _, has := o["definitions"]; !has {
							o["definitions"] = obj{"ok": obj{}}
						}
					}
					m := Mode{Draft: d, Auto: r.Intn(2) == 0, Loader: d}
					if _, has := s["$schema"]; has && m.Auto {
						if o, ok := v.(obj); ok {
							if _, top := o["$schema"]; !top && spots[e[2]].name != "root" {
								// a $schema below the root declares nothing
								m.Auto = false
							}
						}
					}
					compileOutcome(t, m, v, spots[e[2]].name, 1)
					t.Count("enumerated", 1)
				}
			}
			// pairs of keywords
			for i := t.Idx; i < len(allKeywords)*len(probeTexts)*len(goodTexts); i += cases {
				k, v, p := i%len(allKeywords), i/len(allKeywords)%len(probeTexts), i/len(allKeywords)/len(probeTexts)
				s := mustParse(goodTexts[p]).(obj)
				if allKeywords[k] == "$schema" || s[allKeywords[k]] != nil {
					continue
				}
				s[allKeywords[k]] = mustParse(probeTexts[v])
				d := []int{D4, D6, D7, DH}[r.Intn(4)]
				sp := spots[r.Intn(len(spots))]
				if r.Intn(2) == 0 {
					sp = spots[r.Intn(3)]
				}
				x := sp.f(s)
				if o, ok := x.(obj); ok {
					if _, has := o["definitions"]; !has {
						o["definitions"] = obj{"ok": obj{}}
					}
				}
				m := Mode{Draft: d, Auto: r.Intn(2) == 0, Loader: d}
				if riskyIDs(x, m) {
					continue
				}
				compileOutcome(t, m, x, "pair, "+sp.name, 1)
				t.Count("pairs", 1)
			}
			// rich schemas with at most one subtle defect
			for i := 0; i < 12; i++ {
				d := randDraft(r)
				s := richSchema(r, d)
				if r.Intn(6) > 0 {
					subtle(r, s)
				}
				sp := spots[r.Intn(len(spots))]
				if r.Intn(3) > 0 {
					sp = spots[r.Intn(3)]
				}
				x := sp.f(s)
				m := Mode{Draft: d, Auto: r.Intn(2) == 0, Loader: d}
				if nestedSchemaKeyword(x, true) || riskyIDs(x, m) {
					continue
				}
				compileOutcome(t, m, x, "subtle, "+sp.name, 1)
				t.Count("subtle", 1)
			}
			// mutated schemas
			for i := 0; i < 4; i++ {
				d := randDraft(r)
				var s interface{}
				if r.Intn(3) == 0 && len(suiteGroups) > 0 {
					g := suiteGroups[r.Intn(len(suiteGroups))]
					s, d = g.Schema, g.Draft
				} else {
					s = (&Gen{r: r, draft: d}).Root()
				}
				for k := 1 + r.Intn(2); k > 0; k-- {
					s = mutateSchema(r, s)
				}
				if nestedSchemaKeyword(s, true) {
					continue
				}
				m := Mode{Draft: d, Auto: r.Intn(2) == 0, Loader: d}
				if riskyIDs(s, m) {
					continue
				}
				compileOutcome(t, m, s, "mutated", 3)
				t.Count("mutated", 1)
			}
			// referenced documents
			m := modeFor(r, randDraft(r))
			w := newWorld(r, m, WOpt{Kinds: []int{wAdd, wAddByID, wHTTP, wFS}, Roots: []int{wText, wAdd, wHTTP, wFS}, MaxDocs: 3, NoIDs: r.Intn(2) == 0, FS: true}, t.Dir)
			defer w.cleanup()
			d := w.Docs[r.Intn(len(w.Docs))]
			node := d.Nodes[r.Intn(len(d.Nodes))]
			s, ok := node.V.(obj)
			if !ok || node.Alias != nil {
				return
			}
			kw := allKeywords[r.Intn(len(allKeywords))]
			if strings.HasPrefix(kw, "$") || kw == "id" || kw == "properties" || kw == "definitions" || kw == "items" || s[kw] != nil {
				return
			}
			s[kw] = mustParse(probeTexts[r.Intn(len(probeTexts))])
			if ambiguous(d.Root) || riskyIDs(s[kw], m) {
				return
			}
			w.build()
			w.IO.install()
			defer theTransport.set(nil)
			root := w.rootNode()
			w.U.grey = false
			wf := w.U.WellFormed(root)
			if w.U.grey {
				return
			}
			sl, err := w.loader()
			if err != nil {
				t.Fail("add", w.show(), "cannot be added: %v", err)
				return
			}
			c, err := sl.Compile(w.rootLoader())
			t.Eval(w.Docs[0].text + d.text)
			e := w.show()
			e["keyword"], e["oracle"] = kw, wf
			if (err == nil) != (wf == "") {
				t.Fail("referenced", e, "well-formedness of a referenced document: expected %q, observed %v", wf, err)
			} else if err != nil && c != nil {
				t.Fail("referenced", e, "a failed compilation returns a schema")
			}
			if wf == "" {
				t.Count("world_wellformed", 1)
			} else {
				t.Count("world_malformed", 1)
			}
		}})
}

// nestedSchemaKeyword tells whether $schema occurs below the root
func nestedSchemaKeyword(v interface{}, root bool) bool {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			if k == "$schema" && !root {
				return true
			}
			if nestedSchemaKeyword(e, false) {
				return true
			}
		}
	case []interface{}:
		for _, e := range x {
			if nestedSchemaKeyword(e, false) {
				return true
			}
		}
	}
	return false
}

// riskyIDs tells whether a value contains identifiers whose effect is outside of what the oracle decides:
// identifiers of other drafts in undeclared documents (known finding), duplicates, identifiers beside $ref
func riskyIDs(v interface{}, m Mode) bool {
	seen := map[string]bool{}
	risky := false
	var walk func(x interface{})
	walk = func(x interface{}) {
		switch y := x.(type) {
		case map[string]interface{}:
			for _, k := range []string{"id", "$id"} {
				if s, ok := y[k].(string); ok {
					if seen[s] || y["$ref"] != nil {
						risky = true
					}
					seen[s] = true
					if m.Auto && (m.Draft == D4) != (k == "id") && m.Draft != DH {
						risky = true
					}
				}
			}
			if y["id"] != nil && y["$id"] != nil {
				risky = true
			}
			for _, e := range y {
				walk(e)
			}
		case []interface{}:
			for _, e := range y {
				walk(e)
			}
		}
	}
	walk(v)
	return risky
}

// a well-formed use of each keyword
var goodTexts = []string{`{"title":"t"}`, `{"description":"d"}`, `{"format":"date"}`, `{"definitions":{"ok":{},"b":{"type":"string"}}}`, `{"properties":{"a":{},"b":{"minimum":1}}}`, `{"properties":{}}`, `{"patternProperties":{"^a":{}}}`, `{"dependencies":{"a":["b","c"]}}`, `{"dependencies":{"a":{}}}`, `{"type":"object"}`, `{"type":["array","null"]}`,
	`{"additionalProperties":false}`, `{"additionalProperties":{}}`, `{"additionalItems":false}`, `{"additionalItems":{}}`, `{"not":{"type":"null"}}`, `{"propertyNames":{"maxLength":3}}`, `{"contains":{"type":"null"}}`, `{"if":{"type":"null"}}`, `{"then":{"type":"null"}}`, `{"else":{"type":"null"}}`, `{"items":{}}`, `{"items":[{},{"type":"null"}]}`,
	`{"allOf":[{}]}`, `{"anyOf":[{},{"type":"null"}]}`, `{"oneOf":[{}]}`, `{"multipleOf":2}`, `{"multipleOf":0.5}`, `{"minimum":-3}`, `{"maximum":3}`, `{"minimum":2,"maximum":2}`, `{"maximum":3,"exclusiveMaximum":true}`, `{"exclusiveMinimum":1}`, `{"exclusiveMaximum":3}`, `{"minLength":0}`, `{"maxLength":0}`, `{"minLength":1,"maxLength":1}`, `{"minProperties":1}`, `{"maxProperties":1}`, `{"minProperties":0,"maxProperties":0}`, `{"minItems":1}`, `{"maxItems":1}`, `{"minItems":5,"maxItems":5}`,
	`{"pattern":"a"}`, `{"required":["a"]}`, `{"required":["b","a"]}`, `{"uniqueItems":true}`, `{"uniqueItems":false}`, `{"enum":[1,2,"x"]}`, `{"const":null}`, `{"const":{"$ref":1}}`, `{"default":0}`, `{"examples":[1,1]}`, `{"x":1}`}

// richSchema has several keywords, with sizes above the least
func richSchema(r *rand.Rand, d int) obj {
	s := obj{}
	names := func(n int) arr {
		l, seen := arr{}, map[string]bool{}
		for len(l) < n {
			if k := genKey(r) + pick(r, "", "", "1", "2", "3"); !seen[k] {
				seen[k] = true
				l = append(l, k)
			}
		}
		return l
	}
	sub := func() interface{} {
		return mustParse(pick(r, `{}`, `{"type":"string"}`, `{"minimum":1}`, `{"items":{"required":["a","b"]}}`))
	}
	count := func(lo, hi string) {
		a := r.Intn(5)
		if r.Intn(6) == 0 {
			a = r.Intn(100000)
		}
		if r.Intn(3) > 0 {
			s[lo] = num(a)
		}
		if r.Intn(3) > 0 {
			s[hi] = num(a + r.Intn(2)*r.Intn(9))
		}
	}
	for k := 2 + r.Intn(6); k > 0; k-- {
		switch r.Intn(18) {
		case 0:
			s["required"] = names(1 + r.Intn(6))
		case 1:
			s["type"] = (&Gen{r: r, draft: d}).typ()
		case 2:
			l, seen := arr{}, map[string]bool{}
			for i := 1 + r.Intn(6); i > 0; i-- {
				if v := genValue(r, 2); !seen[eqKey(v)] {
					seen[eqKey(v)] = true
					l = append(l, v)
				}
			}
			s["enum"] = l
		case 3:
			count("minLength", "maxLength")
		case 4:
			count("minItems", "maxItems")
		case 5:
			count("minProperties", "maxProperties")
		case 6, 7:
			o := obj{}
			for _, k := range names(r.Intn(5)) {
				o[k.(string)] = sub()
			}
			s[pick(r, "properties", "properties", "definitions")] = o
		case 8:
			o := obj{}
			for i := r.Intn(4); i > 0; i-- {
				o[genPattern(r)] = sub()
			}
			s["patternProperties"] = o
		case 9:
			o := obj{}
			for _, k := range names(1 + r.Intn(4)) {
				if r.Intn(2) == 0 {
					o[k.(string)] = sub()
				} else {
					o[k.(string)] = names(1 + r.Intn(4))
				}
			}
			s["dependencies"] = o
		case 10:
			l := arr{}
			for i := 1 + r.Intn(5); i > 0; i-- {
				l = append(l, sub())
			}
			s[pick(r, "allOf", "anyOf", "oneOf", "items")] = l
		case 11:
			s["multipleOf"] = num(1 + r.Intn(9))
		case 12, 13:
			f := focusFn(focusNumbers)
			x, _ := f(r, d)
			for k, v := range x {
				if k != "type" {
					s[k] = v
				}
			}
		case 14:
			s["pattern"] = genPattern(r)
		case 15:
			s[pick(r, "not", "items", "additionalItems", "additionalProperties", "contains", "propertyNames", "if", "then", "else")] = sub()
		case 16:
			s["uniqueItems"] = r.Intn(2) == 0
		default:
			s[pick(r, "title", "description", "format", "default", "$comment")] = genString(r)
		}
	}
	// a boolean limit needs its number
	for _, k := range []string{"Minimum", "Maximum"} {
		if _, isB := s["exclusive"+k].(bool); isB && s[strings.ToLower(k)] == nil {
			delete(s, "exclusive"+k)
		}
	}
	return s
}

// subtle changes one keyword a little, mostly so that it becomes malformed
func subtle(r *rand.Rand, s obj) {
	ks := sortedKeys(s)
	if len(ks) == 0 {
		return
	}
	k := ks[r.Intn(len(ks))]
	insert := func(l arr, v interface{}) arr {
		i := r.Intn(len(l) + 1)
		return append(append(append(arr{}, l[:i]...), v), l[i:]...)
	}
	wrong := func() interface{} {
		return mustParse(pick(r, `null`, `1`, `0`, `true`, `false`, `{}`, `[]`, `""`, `"x"`, `["a"]`, `{"a":1}`, `-1`, `0.5`, `"a"`))
	}
	notSchema := func() interface{} {
		return mustParse(pick(r, `null`, `1`, `"x"`, `[]`, `true`, `[{}]`, `""`, `{"type":"x"}`, `{"required":["a","b","a"]}`, `{"minLength":-2}`))
	}
	if r.Intn(8) == 0 {
		s[k] = wrong()
		return
	}
	switch k {
	case "required", "enum":
		l := s[k].(arr)
		if len(l) > 0 && r.Intn(3) > 0 {
			v := l[r.Intn(len(l))]
			if k == "enum" {
				v = variant(r, v)
			}
			s[k] = insert(l, v)
		} else {
			s[k] = insert(l, wrong())
		}
	case "type":
		l, ok := s[k].(arr)
		if !ok {
			s[k] = pick(r, "any", "String", "int", "", "float", "double", "numbe", "undefined", "file")
			return
		}
		if r.Intn(2) == 0 {
			s[k] = insert(l, l[r.Intn(len(l))])
		} else {
			s[k] = insert(l, []interface{}{"any", nil, num(1), "Null", obj{}, arr{"null"}}[r.Intn(6)])
		}
	case "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties":
		other := "max" + k[3:]
		if k[:3] == "max" {
			other = "min" + k[3:]
		}
		switch r.Intn(4) {
		case 0:
			s[k] = json.Number(pick(r, "-1", "-2", "-1000000", "-9223372036854775808", "-1e3", "-1.0"))
		case 1:
			s[k] = json.Number(pick(r, "0.5", "1e-1", "-0.5", "3.0000001", "1.5", "12345.678"))
		default:
			if o, ok := s[other].(json.Number); ok {
				if c, ok := countOf(o); ok {
					s[k] = num(int(c) + r.Intn(3) - 1)
				}
			} else {
				s[other] = num(r.Intn(4))
			}
		}
	case "properties", "definitions", "patternProperties":
		o := clone(s[k]).(obj)
		if k == "patternProperties" && r.Intn(2) == 0 {
			o[pick(r, "(", "[", "a{2,1}", "*a", "(?=a)", "\\", "[z-a]", "(?P<n", "a**")] = obj{}
		} else {
			name := genKey(r)
			if k == "patternProperties" {
				name = genPattern(r)
			}
			o[name] = notSchema()
		}
		s[k] = o
	case "dependencies":
		o := clone(s[k]).(obj)
		name := genKey(r)
		if ns := sortedKeys(o); len(ns) > 0 && r.Intn(2) == 0 {
			name = ns[r.Intn(len(ns))]
		}
		if l, ok := o[name].(arr); ok && r.Intn(3) > 0 {
			o[name] = insert(l, []interface{}{nil, num(1), true, obj{}, arr{}}[r.Intn(5)])
		} else {
			o[name] = mustParse(pick(r, `null`, `1`, `"x"`, `true`, `{"type":"x"}`, `[1]`, `["a",{}]`))
		}
		s[k] = o
	case "allOf", "anyOf", "oneOf":
		s[k] = insert(s[k].(arr), notSchema())
	case "items":
		if l, ok := s[k].(arr); ok {
			s[k] = insert(l, notSchema())
		} else {
			s[k] = notSchema()
		}
	case "multipleOf":
		s[k] = json.Number(pick(r, "0", "-1", "0.0", "-0.0", "0e5", "-1e-5", "1e-5", "-3"))
	case "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum":
		switch r.Intn(4) {
		case 0:
			s[k] = []interface{}{true, false, "1", nil, arr{}}[r.Intn(5)]
		case 1:
			for _, o := range []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} {
				if n, ok := s[o].(json.Number); ok && o != k {
					s[k] = spell(r, nearDec(r, parseDec(string(n))))
				}
			}
		case 2:
			delete(s, strings.ToLower(strings.TrimPrefix(k, "exclusive")))
		default:
			s[k] = genNum(r)
		}
	case "pattern":
		s[k] = pick(r, "(", "[", "a{2,1}", "*a", "(?=a)", "\\", "[z-a]", "a{1001}", "\\8")
	case "not", "additionalItems", "additionalProperties", "contains", "propertyNames", "if", "then", "else":
		s[k] = notSchema()
	default:
		s[k] = wrong()
	}
}
