package main

import (
	"fmt"
	"math/rand"
	"strings"

	js "github.com/xeipuuv/gojsonschema"
)

// ---------- the oracle ----------

// metaOracle knows the meta-schemas
type metaOracle struct {
	u *Universe
}

const customA = "http://meta.test/custom-a"
const customB = "http://meta.test/dir/custom-b.json"
const customC = "http://meta.test/hybrid-c"

// custom meta-schemas: a stricter draft-07, a self-made one for draft-04 and one without a draft of its own
var customMeta = map[string]string{
	customA: `{"$schema":"http://json-schema.org/draft-07/schema#","$id":"http://meta.test/custom-a","allOf":[{"$ref":"http://json-schema.org/draft-07/schema#"}],"required":["title"],"properties":{"x-level":{"type":"integer","minimum":3}}}`,
	customB: `{"$schema":"http://json-schema.org/draft-04/schema#","id":"http://meta.test/dir/custom-b.json","type":"object","properties":{"type":{"enum":["string","integer"]},"properties":{"additionalProperties":{"$ref":"#"}},"minLength":{"type":"integer"},"items":{"$ref":"custom-b.json"}},"not":{"required":["pattern"]}}`,
	customC: `{"type":["object","boolean"],"properties":{"properties":{"maxProperties":2,"additionalProperties":{"$ref":"#"}},"const":{"not":{"type":"null"}}},"propertyNames":{"maxLength":16},"if":{"required":["if"]},"then":{"required":["then","else"]}}`,
}

func newMetaOracle() *metaOracle {
	u := newUniverse(true, DH)
	for d, s := range metaText {
		u.Add(strings.TrimSuffix(draftURL[d], "#"), mustParse(s), d)
	}
	for uri, s := range customMeta {
		u.Add(uri, mustParse(s), DH)
	}
	return &metaOracle{u}
}

type verdict int

const (
	mAccept verdict = iota
	mReject
	mOpen // the oracle has no opinion
	mUnchecked
	mUnavailable // the meta-schema cannot be had
	mBroken      // not a schema at all
)

var verdictName = []string{"accepted", "rejected", "open", "unchecked", "unavailable", "broken"}

// judge is what the meta-schema that applies to a document says about it
func (o *metaOracle) judge(doc interface{}, auto bool, draft int, avail func(uri string) bool) verdict {
	uri := ""
	if auto {
		switch x := doc.(type) {
		case bool:
		case map[string]interface{}:
			if v, ok := x["$schema"]; ok {
				s, ok := v.(string)
				if !ok {
					return mBroken
				}
				uri = strings.TrimSuffix(s, "#") // "#" is the empty reference, which names nothing
			}
		default:
			return mBroken
		}
	}
	if uri == "" {
		if draft == DH {
			return mUnchecked
		}
		uri = draftURL[draft]
	}
	uri = strings.TrimSuffix(uri, "#")
	if draftOfURL(uri) == 0 && !avail(uri) {
		return mUnavailable
	}
	n, ok := o.u.Resolve("", uri, draft)
	if !ok {
		return mUnavailable
	}
	o.u.grey = false
	res := o.u.Eval(n, doc)
	if o.u.grey {
		return mOpen
	}
	if res.Valid() {
		return mAccept
	}
	return mReject
}

// hasIDs tells whether a document declares identifiers (or looks like it), or a draft below the root
func hasIDs(v interface{}) bool {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			if k == "id" || k == "$id" || hasIDs(e) {
				return true
			}
		}
	case []interface{}:
		for _, e := range x {
			if hasIDs(e) {
				return true
			}
		}
	}
	return false
}

// things only a meta-schema objects to
var metaOnly = []string{`{"enum":[]}`, `{"anyOf":[]}`, `{"allOf":[]}`, `{"oneOf":[]}`, `{"type":[]}`, `{"items":[]}`, `{"required":[]}`, `{"examples":1}`, `{"$comment":1}`, `{"readOnly":1}`, `{"contentMediaType":1}`, `{"contentEncoding":[]}`,
	`{"dependencies":{"a":["b","b"]}}`, `{"dependencies":{"a":[]}}`, `{"$ref":"#","minLength":-1}`, `{"$ref":"#/definitions/d","type":"nothing"}`, `{"if":1}`, `{"contains":1}`, `{"propertyNames":"x"}`, `{"const":1,"contains":[]}`, `{"then":{"minItems":-1}}`,
	`{"exclusiveMinimum":true}`, `{"exclusiveMinimum":5}`, `{"id":5}`, `{"$id":5}`, `{"default":{"type":7}}`, `{"format":"","pattern":"a"}`, `{"minLength":2,"maxLength":1}`, `{"title":"t"}`, `{"title":"t","x-level":1}`, `{"title":"t","x-level":3}`, `{"type":"string"}`, `{"type":"array"}`, `{"properties":{"a":{},"b":{},"c":{}}}`, `{"properties":{"a":{},"b":{}}}`, `{"if":{},"then":{},"else":{}}`, `{"const":null}`, `{"aVeryLongKeywordIndeed":1}`, `true`, `false`, `{}`, `{"minLength":3.0}`, `{"minLength":3.5}`, `{"additionalItems":true}`, `{"additionalProperties":{"additionalItems":7}}`, `{"items":{"items":{"items":{"items":{"enum":[]}}}}}`, `{"properties":{"$ref":{"enum":[]}}}`, `{"definitions":{"x":{"anyOf":[{"anyOf":[]}]}}}`}

// schemaFor generates a document to be judged
func schemaFor(r *rand.Rand, draft int) interface{} {
	var s interface{}
	switch r.Intn(6) {
	case 0, 1:
		s = mustParse(metaOnly[r.Intn(len(metaOnly))])
		if o, ok := s.(obj); ok && r.Intn(3) == 0 {
			// hidden somewhere
			s = spots[r.Intn(len(spots))].f(o)
		}
	case 2:
		s = obj{allKeywords[r.Intn(len(allKeywords))]: mustParse(probeTexts[r.Intn(len(probeTexts))])}
		s = spots[r.Intn(len(spots))].f(s)
	default:
		s = (&Gen{r: r, draft: draft}).Root()
		for k := r.Intn(3); k > 0; k-- {
			s = mutateSchema(r, s)
		}
	}
	return s
}

func init() {
	register(&Check{ID: "C11",
		Rule:   "a case is a history of 4-14 calls (Compile by text and by URL, AddSchema, AddSchemas, changed fields, failing fetches of meta-schemas) on one loader; an evaluation is one such call, its outcome compared with the oracle's evaluation of the meta-schema that applies (official, custom added, custom fetched), plus for every refused document a schema that refers to it; a second part adds every keyword with every probe value at every spot under every draft; distinct: different (draft, schema text, call)",
		Assume: []string{assumeModel, "AutoDetect is not changed between calls on the same loader, and every loader compiles at most one schema given as text"},
		Quick:  14000, Thorough: 300000,
		Setup: func(w *Worker) { buildCompileEnum(); loadSuite(); w.State = newMetaOracle() },
		Need: []string{"Compile:accepted", "Compile:rejected", "Compile:unchecked", "Compile:unavailable", "AddSchema:accepted", "AddSchema:rejected", "AddSchema:unavailable", "AddSchemas:accepted", "AddSchemas:rejected",
			"custom_accepted", "custom_rejected", "refused_not_referencable", "readded", "after_refusal", "late_gate", "enumerated", "entered_by_fragment"},
		Run: func(t *T) {
			o := t.State.(*metaOracle)
			metaEnumerate(t, o)
			for i := 0; i < 2; i++ {
				metaHistory(t, o)
			}
		}})
}

func metaEnumerate(t *T, o *metaOracle) {
	r := t.R
	cases := t.Check.Quick
	step := 4 // the quick tier takes every keyword and value, but only some of the spots
	if t.IsThorough() {
		cases, step = t.Check.Thorough, 1
	}
	sl := js.NewSchemaLoader()
	sl.Validate = true
	k := 0
	for i := t.Idx; i < len(compileEnum); i += cases {
		e := compileEnum[i]
		for di, d := range []int{D4, D6, D7} {
			if (i+di)%step != 0 {
				continue
			}
			s := mustParse(partners[e[3]]).(obj)
			s[allKeywords[e[0]]] = mustParse(probeTexts[e[1]])
			v := spots[e[2]].f(s)
			m := Mode{Draft: d, Auto: true, Loader: d}
			if vo, ok := v.(obj); ok {
				if _, has := vo["$schema"]; has {
					continue
				}
				if r.Intn(2) == 0 {
					m.Decl, m.Loader = draftURL[d], DH
				}
			}
			v = m.dress(v)
			l := sl
			if hasIDs(v) {
				l = js.NewSchemaLoader()
				l.Validate = true
			}
			l.Draft = libDraft(m.Loader)
			k++
			w := o.judge(v, true, m.Loader, func(string) bool { return false })
			u, root := m.root(v)
			u.grey = false
			wf := u.WellFormed(root)
			if u.grey || ambiguous(v) {
				wf = "?"
			}
			txt := text(v)
			err := l.AddSchema(fmt.Sprintf("http://e.test/%d", k), js.NewStringLoader(txt))
			t.Eval(fmt.Sprint(m, txt))
			t.Count("enumerated", 1)
			ex := Exhibit{Mode: m.String(), Schema: txt, Want: verdictName[w], Got: fmt.Sprint(err), Extra: spots[e[2]].name}
			switch {
			case w == mReject && err == nil:
				t.Fail("gate", ex, "a schema which its meta-schema rejects was added")
			case w == mAccept && wf == "" && err != nil:
				t.Fail("gate", ex, "a well-formed schema which its meta-schema accepts was refused: %v", err)
			}
			if !l.Validate || !l.AutoDetect || l.Draft != libDraft(m.Loader) {
				t.Fail("fields", ex, "AddSchema changed a field of the loader")
			}
		}
	}
}

type metaDoc struct {
	uri     string
	val     interface{}
	served  bool // fetched over HTTP
	added   bool
	refused bool
	open    bool // whether it is known to the loader is not determined
}

// metaHistory is one loader and a history of calls
func metaHistory(t *T, o *metaOracle) {
	r := t.R
	io := newIO()
	io.install()
	defer theTransport.set(nil)
	sl := js.NewSchemaLoader()
	auto := r.Intn(5) > 0
	draft := []int{D4, D6, D7, DH, DH}[r.Intn(5)]
	validate := r.Intn(8) > 0
	sl.AutoDetect, sl.Draft, sl.Validate = auto, libDraft(draft), validate
	var hist []obj
	// where the custom meta-schemas are
	have := map[string]bool{}
	pending := map[string]bool{} // served, but not there yet
	fetched := map[string]bool{}
	refusedBefore := false
	for _, uri := range []string{customA, customB, customC} {
		switch r.Intn(5) {
		case 0, 1: // added
			v := sl.Validate
			sl.Validate = r.Intn(2) == 0
			err := sl.AddSchema(uri, js.NewStringLoader(stripID(customMeta[uri])))
			if err != nil {
				t.Fail("gate", obj{"meta": customMeta[uri], "draft": draft, "auto": auto}, "a meta-schema cannot be added: %v", err)
				return
			}
			sl.Validate = v
			have[uri] = true
			hist = append(hist, obj{"op": "AddSchema meta", "uri": uri})
		case 2:
			io.http[uri] = customMeta[uri]
			have[uri] = true
		case 3:
			pending[uri] = true
		}
	}
	if !auto {
		have = map[string]bool{}
	}
	avail := func(uri string) bool { return have[uri] }
	textUsed := false
	docs := []*metaDoc{}
	n := 0
	newDoc := func() (interface{}, bool) {
		d := []int{D4, D6, D7, DH}[r.Intn(4)]
		decl := ""
		switch r.Intn(8) {
		case 0, 1, 2:
			if d == DH {
				d = D7
			}
			decl = draftURL[d]
			if r.Intn(3) == 0 {
				decl = strings.TrimSuffix(decl, "#")
			}
		case 3, 4:
			decl = []string{customA, customB, customC}[r.Intn(3)]
			if r.Intn(3) == 0 {
				decl += "#"
			}
		case 5:
			if r.Intn(3) == 0 {
				decl = "http://meta.test/unknown"
			}
		default:
			d = draft
		}
		v := schemaFor(r, d)
		v = Mode{Decl: decl}.dress(v)
		if hasIDs(v) || nestedSchemaKeyword(v, true) {
			return nil, false
		}
		return v, true
	}
	wellFormed := func(v interface{}) (string, bool) {
		m := Mode{Auto: auto, Loader: draft}
		u, root := m.root(v)
		u.grey = false
		w := u.WellFormed(root)
		if vo, ok := v.(obj); ok && auto {
			if x, ok := vo["$schema"]; ok {
				if _, ok := x.(string); !ok {
					w = "$schema is not a string"
				}
			}
		}
		return w, !u.grey && !ambiguous(v)
	}
	exhibit := func() map[string]interface{} {
		return obj{"loader": obj{"auto": auto, "draft": draft, "validate": validate}, "history": hist, "meta-schemas": have}
	}
	fields := func(op string) {
		if sl.Validate != validate || sl.AutoDetect != auto || sl.Draft != libDraft(draft) {
			t.Fail("fields", exhibit(), "%s changed a field of the loader: Validate %v->%v AutoDetect %v->%v Draft %v->%v", op, validate, sl.Validate, auto, sl.AutoDetect, libDraft(draft), sl.Draft)
			sl.Validate, sl.AutoDetect, sl.Draft = validate, auto, libDraft(draft)
		}
	}
	judge := func(v interface{}) verdict {
		if !validate {
			return mUnchecked
		}
		return o.judge(v, auto, draft, avail)
	}
	note := func(op string, v interface{}, w verdict, err error) {
		t.Eval(fmt.Sprint(op, auto, draft, validate, text(v)))
		t.Count(op+":"+verdictName[w], 1)
		if ov, ok := v.(obj); ok && auto && (w == mAccept || w == mReject) {
			if s, ok := ov["$schema"].(string); ok && draftOfURL(s) == 0 {
				t.Count("custom_"+verdictName[w], 1)
				fetched[strings.TrimSuffix(s, "#")] = true
			}
		}
		if refusedBefore {
			t.Count("after_refusal", 1)
		}
		if err != nil {
			refusedBefore = true
		}
	}
	// expect compares the outcome of a call
	expect := func(op string, w verdict, wf string, decided bool, err error) {
		switch w {
		case mReject, mBroken, mUnavailable:
			if err == nil {
				t.Fail("gate", exhibit(), "%s let a schema in which its meta-schema does not accept (%s)", op, verdictName[w])
			}
		case mAccept, mUnchecked:
			if err != nil && wf == "" && decided {
				t.Fail("gate", exhibit(), "%s refused a well-formed schema (%s by its meta-schema): %v", op, verdictName[w], err)
			}
			if err == nil && wf != "" && decided && op == "Compile" {
				t.Fail("gate", exhibit(), "%s accepted a malformed schema: %s", op, wf)
			}
		}
	}
	for ops := 4 + r.Intn(11); ops > 0; ops-- {
		n++
		switch r.Intn(12) {
		case 0, 1, 2: // AddSchema
			v, ok := newDoc()
			if !ok {
				continue
			}
			uri := fmt.Sprintf("http://d.test/%d.json", n)
			var old *metaDoc
			if r.Intn(3) == 0 {
				// a URL that was refused before is free
				for _, d := range docs {
					if d.refused && !d.open {
						uri, old = d.uri, d
					}
				}
			}
			w := judge(v)
			wf, dec := wellFormed(v)
			err := sl.AddSchema(uri, textLoader(r, text(v)))
			hist = append(hist, obj{"op": "AddSchema", "uri": uri, "schema": short(text(v)), "oracle": verdictName[w], "error": fmt.Sprint(err)})
			note("AddSchema", v, w, err)
			expect("AddSchema", w, wf, dec, err)
			fields("AddSchema")
			d := old
			if d == nil {
				d = &metaDoc{uri: uri}
				docs = append(docs, d)
			} else if w == mAccept && wf == "" && dec {
				t.Count("readded", 1)
			}
			d.val, d.added, d.refused = v, err == nil, err != nil
			d.open = !(w == mAccept || w == mUnchecked) && err == nil || (w == mAccept || w == mUnchecked || w == mOpen) && err != nil
		case 3, 4: // AddSchemas
			var l []js.JSONLoader
			var vs []interface{}
			var ds []*metaDoc
			bad := mAccept
			badWf, dec := "", true
			for k := 1 + r.Intn(3); k > 0; k-- {
				v, ok := newDoc()
				vo, isObj := v.(obj)
				if !ok || !isObj {
					continue
				}
				// identified by the keyword of its draft
				key := "$id"
				eff := draft
				if s, ok := vo["$schema"].(string); ok && auto && draftOfURL(s) != 0 {
					eff = draftOfURL(s)
				}
				if eff == D4 {
					key = "id"
				}
				if _, ref := vo["$ref"]; ref {
					continue
				}
				uri := fmt.Sprintf("http://i.test/%d/%d.json", n, k)
				vo[key] = uri
				w := judge(v)
				wf, dd := wellFormed(v)
				if bad == mAccept || bad == mUnchecked {
					bad = w
				}
				if wf != "" && badWf == "" {
					badWf = wf
				}
				dec = dec && dd
				l = append(l, textLoader(r, text(v)))
				vs = append(vs, v)
				ds = append(ds, &metaDoc{uri: uri, val: v})
				if w == mReject || w == mUnavailable || w == mBroken || w == mOpen {
					break
				}
			}
			if len(l) == 0 {
				continue
			}
			err := sl.AddSchemas(l...)
			hist = append(hist, obj{"op": "AddSchemas", "schemas": short(text(vs)), "oracle": verdictName[bad], "error": fmt.Sprint(err)})
			note("AddSchemas", vs[len(vs)-1], bad, err)
			expect("AddSchemas", bad, badWf, dec, err)
			fields("AddSchemas")
			for i, d := range ds {
				last := i == len(ds)-1
				d.added = err == nil
				d.refused = err != nil && last
				d.open = err != nil && (!last || !(bad == mReject || bad == mUnavailable)) || err == nil && bad != mAccept && bad != mUnchecked
				docs = append(docs, d)
			}
		case 5, 6, 7: // Compile by URL
			var d *metaDoc
			late := false
			if r.Intn(2) == 0 && len(docs) > 0 {
				d = docs[r.Intn(len(docs))]
				if d.open || !(d.added || d.served) {
					continue
				}
				late = d.added
			} else {
				v, ok := newDoc()
				if !ok {
					continue
				}
				d = &metaDoc{uri: fmt.Sprintf("http://s.test/%d.json", n), val: v, served: true}
				io.http[d.uri] = text(v)
				docs = append(docs, d)
			}
			at := d.uri
			if vo, ok := d.val.(obj); ok && !late && io.Fetches[d.uri] == 0 && vo["$schema"] == nil && !strings.Contains(text(vo), `"$ref"`) && r.Intn(2) == 0 {
				// as a part of a document
				at += "#/definitions/part"
				holder := obj{"definitions": obj{"part": vo, "other": obj{}}}
				if r.Intn(2) == 0 && auto && draft != DH {
					holder["$schema"] = draftURL[draft]
				}
				io.http[d.uri] = text(holder)
				d.open = true // not used again
				t.Count("entered_by_fragment", 1)
			}
			w := judge(d.val)
			wf, dec := wellFormed(d.val)
			c, err := sl.Compile(js.NewReferenceLoader(at))
			hist = append(hist, obj{"op": "Compile", "uri": at, "schema": short(text(d.val)), "oracle": verdictName[w], "error": fmt.Sprint(err)})
			note("Compile", d.val, w, err)
			expect("Compile", w, wf, dec, err)
			fields("Compile")
			if late && w == mReject {
				t.Count("late_gate", 1)
			}
			if (c != nil) == (err != nil) {
				t.Fail("gate", exhibit(), "Compile returns schema and error, or neither")
			}
		case 8: // Compile text
			if textUsed {
				continue
			}
			v, ok := newDoc()
			if !ok {
				continue
			}
			textUsed = true
			w := judge(v)
			wf, dec := wellFormed(v)
			_, err := sl.Compile(textLoader(r, text(v)))
			hist = append(hist, obj{"op": "Compile text", "schema": short(text(v)), "oracle": verdictName[w], "error": fmt.Sprint(err)})
			note("Compile", v, w, err)
			expect("Compile", w, wf, dec, err)
			fields("Compile")
		case 9: // a refused document cannot be referred to
			for _, d := range docs {
				if !d.refused || d.open || d.served {
					continue
				}
				holder := obj{"properties": obj{"p": obj{"$ref": d.uri}}}
				if auto && r.Intn(2) == 0 {
					holder["$schema"] = draftURL[D7]
				}
				if r.Intn(2) == 0 {
					delete(io.http, d.uri)
				}
				n++
				hu := fmt.Sprintf("http://r.test/%d.json", n)
				io.http[hu] = text(holder)
				before := io.Fetches[d.uri]
				_, err := sl.Compile(js.NewReferenceLoader(hu))
				hist = append(hist, obj{"op": "Compile reference to refused", "uri": d.uri, "error": fmt.Sprint(err)})
				t.Eval(fmt.Sprint("refused", text(d.val), n))
				if err == nil {
					t.Fail("referencable", exhibit(), "a refused schema can be referred to as %s", d.uri)
				} else if io.Fetches[d.uri] == before {
					// it was not looked for elsewhere, so that it must have been found in the loader
					t.Fail("referencable", exhibit(), "a refused schema is still known as %s: %v", d.uri, err)
				}
				fields("Compile")
				t.Count("refused_not_referencable", 1)
				break
			}
		case 10: // change the fields
			if r.Intn(2) == 0 {
				validate = !validate
				sl.Validate = validate
			} else {
				draft = []int{D4, D6, D7, DH}[r.Intn(4)]
				sl.Draft = libDraft(draft)
			}
			hist = append(hist, obj{"op": "set", "validate": validate, "draft": draft})
		case 11: // a meta-schema turns up
			if !auto {
				continue
			}
			for _, uri := range []string{customA, customB, customC} {
				if !pending[uri] {
					continue
				}
				io.http[uri] = customMeta[uri]
				have[uri] = true
				delete(pending, uri)
				hist = append(hist, obj{"op": "meta-schema served", "uri": uri})
				break
			}
		}
	}
	if t.Idx < 2 {
		t.Sample(exhibit())
	}
}

// stripID removes the identifier of a custom meta-schema, for adding it under its URL
func stripID(s string) string {
	v := mustParse(s).(obj)
	delete(v, "id")
	delete(v, "$id")
	return text(v)
}
