package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	js "github.com/xeipuuv/gojsonschema"
)

// a probe is a schema whose meaning depends on the draft, with documents that tell the difference
type probe struct {
	name string
	s    interface{}
	docs []interface{}
}

func n(i int) interface{} { return num(i) }

var safeProbes = []probe{
	{"const", obj{"const": num(1)}, []interface{}{n(1), n(2)}},
	{"contains", obj{"contains": obj{"type": "null"}}, []interface{}{arr{}, arr{nil}, arr{n(1)}, "x"}},
	{"propertyNames", obj{"propertyNames": obj{"maxLength": num(1)}}, []interface{}{obj{"a": n(1)}, obj{"ab": n(1)}}},
	{"conditional", obj{"if": obj{"type": "string"}, "then": obj{"maxLength": num(1)}, "else": obj{"minimum": num(5)}}, []interface{}{"a", "ab", n(4), n(5)}},
	{"if alone", obj{"if": obj{"type": "string"}, "else": obj{"type": "null"}}, []interface{}{"a", n(4), nil}},
	{"then", obj{"if": obj{"minimum": num(3)}, "then": obj{"type": "null"}}, []interface{}{n(2), n(3)}},
	{"malformed const neighbours", obj{"const": obj{"$ref": "#/nowhere", "minimum": "x"}}, []interface{}{n(1), obj{"$ref": "#/nowhere", "minimum": "x"}}},
	{"minimum", obj{"minimum": num(5)}, []interface{}{n(5), n(4)}},
	{"additional", obj{"additionalProperties": false, "properties": obj{"a": obj{}}}, []interface{}{obj{"a": n(1)}, obj{"b": n(1)}}},
}

// only well-formed in some drafts
var sharpProbes = []probe{
	{"numeric exclusiveMinimum", obj{"exclusiveMinimum": num(5)}, []interface{}{n(5), n(6)}},
	{"numeric exclusiveMaximum", obj{"exclusiveMaximum": num(5), "maximum": num(7)}, []interface{}{n(5), n(4)}},
	{"boolean exclusiveMinimum", obj{"minimum": num(5), "exclusiveMinimum": true}, []interface{}{n(5), n(6)}},
	{"boolean exclusiveMaximum", obj{"maximum": num(5), "exclusiveMaximum": true}, []interface{}{n(5), n(4)}},
	{"exclusiveMinimum false", obj{"minimum": num(5), "exclusiveMinimum": false}, []interface{}{n(5), n(4)}},
	{"true", true, []interface{}{n(1)}},
	{"false", false, []interface{}{n(1)}},
	{"not true", obj{"not": true}, []interface{}{n(1)}},
	{"items false", obj{"items": false}, []interface{}{arr{}, arr{n(1)}}},
	{"malformed contains", obj{"contains": num(1)}, []interface{}{arr{n(1)}}},
	{"malformed propertyNames", obj{"propertyNames": "x"}, []interface{}{obj{"a": n(1)}}},
	{"malformed if", obj{"if": num(1)}, []interface{}{n(1)}},
	{"malformed then", obj{"if": obj{}, "then": arr{}}, []interface{}{n(1)}},
	{"malformed id", obj{"id": num(1)}, []interface{}{n(1)}},
	{"malformed $id", obj{"$id": num(1)}, []interface{}{n(1)}},
}

type cdoc struct {
	uri    string
	kind   int
	decl   string
	id     string // for added by identifier
	root   obj
	probes []string // property names
	edges  []int
	entry  []string // fragment the edge to this document uses
	m      *MDoc
}

// at returns a reference to the probes of the document
func (d *cdoc) at(r *rand.Rand) string {
	e := d.entry[r.Intn(len(d.entry))]
	switch {
	case strings.Contains(e, "://"):
		return e
	case d.uri == "":
		return d.id + e
	}
	return d.uri + e
}

var (
	probeByName = map[string]probe{}
)

func init() {
	for _, p := range append(append([]probe{}, safeProbes...), sharpProbes...) {
		probeByName[p.name] = p
	}
	register(&Check{ID: "C09",
		Rule:   "a case is a loader (Draft, AutoDetect) and a chain or tree of 1-5 documents, each declaring a draft, an unknown $schema or none, delivered as text, added or fetched, entered at the root or through fragments, holding probe schemas whose meaning depends on the draft; an evaluation is one Validate call (or a Compile call on a probe that the draft does not allow) compared with the oracle; distinct: different (documents, instance)",
		Assume: []string{assumeModel},
		Quick:  60000, Thorough: 1600000,
		Need: []string{"accepted", "rejected", "refused", "auto:true", "auto:false", "doc:text", "doc:add", "doc:add-by-id", "doc:http", "doc:file", "inherited", "cross_draft_edges", "entered_by_fragment", "entered_by_nested_identifier", "identifier_probes", "mixed:accepted", "mixed:rejected", "mixed:refused"},
		Run:  runDraftCase})
}

func runDraftCase(t *T) {
	r := t.R
	if t.Idx == 0 {
		knownIDFinding(t)
	}
	if r.Intn(2) == 0 {
		runDraftMixed(t)
		return
	}
	drafts := []int{D4, D6, D7, DH}
	auto := r.Intn(4) > 0
	loader := drafts[r.Intn(4)]
	if r.Intn(3) == 0 {
		loader = DH
	}
	nd := 1 + r.Intn(5)
	docs := make([]*cdoc, nd)
	parent := make([]int, nd)
	stamp := fmt.Sprintf("%08x", r.Uint32())
	var scratch []string
	// effective drafts, by the rules of the property
	eff := make([]int, nd)
	for i := range docs {
		d := &cdoc{}
		docs[i] = d
		kinds := []int{wAdd, wAddByID, wHTTP, wFile}
		if i == 0 {
			kinds = []int{wText, wText, wAdd, wAddByID, wHTTP, wFile}
		}
		d.kind = kinds[r.Intn(len(kinds))]
		switch d.kind {
		case wAdd:
			d.uri = fmt.Sprintf("http://add.test/c%d.json", i)
		case wHTTP:
			d.uri = fmt.Sprintf("http://h0.test/c%d.json", i)
		case wFile:
			d.uri = fmt.Sprintf("file://%s/%s-c%d.json", t.Dir, stamp, i)
		case wAddByID:
			d.id = fmt.Sprintf("http://id.test/c%d.json", i)
		}
		if i > 0 {
			parent[i] = r.Intn(i)
			if r.Intn(2) == 0 {
				parent[i] = i - 1
			}
		}
		inherited := loader
		if i > 0 {
			inherited = eff[parent[i]]
		}
		declared := 0
		switch r.Intn(8) {
		case 0, 1, 2, 3:
			declared = []int{D4, D6, D7}[r.Intn(3)]
			d.decl = draftURL[declared]
			if r.Intn(3) == 0 {
				d.decl = strings.TrimSuffix(d.decl, "#")
			}
		case 4:
			d.decl = pick(r, "http://example.com/schema#", "http://json-schema.org/draft-03/schema#", "http://json-schema.org/schema#", "http://json-schema.org/draft-07/schema#/definitions", "http://json-schema.org/draft-04/", "http://json-schema.org/draft-05/schema",
				"http://json-schema.org/draft-04/schema?x#", "http://json-schema.org/draft-06/schema?v=1", "http://json-schema.org/draft-07/schema/", "http://json-schema.org:8080/draft-04/schema#", "http://other.test/draft-06/schema#")
		}
		switch {
		case !auto:
			eff[i] = loader
		case declared != 0:
			eff[i] = declared
		default:
			eff[i] = inherited
			if i > 0 {
				t.Count("inherited", 1)
			}
		}
		if i > 0 && eff[i] != eff[parent[i]] {
			t.Count("cross_draft_edges", 1)
		}
	}
	u := newUniverse(auto, loader)
	// contents
	nasty := r.Intn(3) == 0
	for i, d := range docs {
		known := draftOfURL(d.decl) != 0 && auto || !auto
		props := obj{}
		var names []string
		add := func(p probe) {
			if _, dup := props[p.name]; !dup {
				props[p.name] = clone(p.s)
				names = append(names, p.name)
			}
		}
		for k := 1 + r.Intn(4); k > 0; k-- {
			add(safeProbes[r.Intn(len(safeProbes))])
		}
		for k := r.Intn(3); k > 0; k-- {
			p := sharpProbes[r.Intn(len(sharpProbes))]
			if !nasty {
				// only the ones this draft allows
				m := MNode{V: p.s, Doc: &MDoc{}, Draft: eff[i]}
				if newUniverse(true, eff[i]).WellFormed(m) != "" {
					continue
				}
			}
			add(p)
		}
		inner := obj{"properties": props}
		root := obj{}
		entry := []string{""}
		if r.Intn(2) == 0 {
			root = obj{"definitions": obj{"entry": inner, "alias": obj{"$ref": "#/definitions/entry"}}}
			entry = []string{"#/definitions/entry", "#/definitions/entry", "#/definitions/alias"}
			if d.kind == wText {
				root["allOf"] = arr{obj{"$ref": "#/definitions/entry"}}
				entry = []string{""}
			}
			t.Count("entered_by_fragment", 1)
			if (d.kind == wAdd || d.kind == wAddByID) && r.Intn(2) == 0 {
				// the entry can be referred to by an identifier of its own
				k := "$id"
				if eff[i] == D4 || eff[i] == DH && r.Intn(2) == 0 {
					k = "id"
				}
				at := fmt.Sprintf("http://nested.test/%d/entry.json", i)
				inner[k] = at
				entry = append(entry, at, at)
				t.Count("entered_by_nested_identifier", 1)
			}
		} else {
			root = inner
		}
		d.entry = entry
		if d.decl != "" {
			root["$schema"] = d.decl
		}
		if d.id != "" {
			k := "$id"
			if eff[i] == D4 || eff[i] == DH && r.Intn(2) == 0 {
				k = "id"
			}
			root[k] = d.id
		}
		// an identifier that only counts in some drafts
		if r.Intn(2) == 0 {
			k := pick(r, "id", "$id")
			active := eff[i] == DH || (k == "id") == (eff[i] == D4)
			if active || known {
				o, ok := root["definitions"].(obj)
				if !ok {
					o = obj{}
					root["definitions"] = o
				}
				o["z"] = obj{"enum": arr{"outer"}}
				props["idprobe"] = obj{k: fmt.Sprintf("http://probe.test/%d/", i), "definitions": obj{"z": obj{"enum": arr{"inner"}}}, "properties": obj{"v": obj{"$ref": "#/definitions/z"}}}
				names = append(names, "idprobe")
				t.Count("identifier_probes", 1)
			}
		}
		d.root, d.probes = root, names
		// edges
		for j := i + 1; j < nd; j++ {
			if parent[j] == i {
				d.edges = append(d.edges, j)
			}
		}
		for j := range docs {
			if j != i && j > 0 && r.Intn(6) == 0 && (!auto || draftOfURL(docs[j].decl) != 0) && parent[j] != i {
				d.edges = append(d.edges, j)
			}
		}
		d.edges = uniqueInts(d.edges)
	}
	for _, d := range docs {
		inner := d.root
		if defs, ok := d.root["definitions"].(obj); ok {
			if e, ok := defs["entry"].(obj); ok {
				inner = e
			}
		}
		for _, j := range d.edges {
			to := docs[j]
			ref := obj{"$ref": to.at(r)}
			var s interface{} = ref
			switch r.Intn(4) {
			case 0:
				s = obj{"allOf": arr{ref}}
			case 1:
				s = obj{"anyOf": arr{ref}}
			}
			inner["properties"].(obj)[fmt.Sprintf("to%d", j)] = s
		}
	}
	io := newIO()
	io.install()
	defer theTransport.set(nil)
	sl := js.NewSchemaLoader()
	sl.AutoDetect = auto
	sl.Draft = libDraft(loader)
	show := []interface{}{}
	full := ""
	var addErr error
	for i, d := range docs {
		txt := randText(r, d.root)
		full += txt
		show = append(show, obj{"kind": wKindName[d.kind], "uri": d.uri, "draft": num(eff[i]), "text": text(d.root)})
		if d.kind == wAddByID {
			d.m = u.AddByID(d.root, eff[i])
		} else {
			d.m = u.Add(d.uri, d.root, eff[i])
		}
		var err error
		switch d.kind {
		case wAdd:
			err = sl.AddSchema(d.uri, textLoader(r, txt))
		case wAddByID:
			err = sl.AddSchemas(textLoader(r, txt))
		case wHTTP:
			io.http[d.uri] = txt
		case wFile:
			scratch = append(scratch, writeFile(strings.TrimPrefix(d.uri, "file://"), txt))
		}
		if err != nil {
			addErr = err
		}
		t.Count("doc:"+wKindName[d.kind], 1)
	}
	defer removeFiles(scratch)
	ex := func() map[string]interface{} {
		return obj{"loader": fmt.Sprintf("Draft=%d AutoDetect=%v", loader, auto), "documents": show}
	}
	if addErr != nil {
		t.Fail("add", ex(), "a document cannot be added: %v", addErr)
		return
	}
	t.Count(fmt.Sprintf("auto:%v", auto), 1)
	t.Count(fmt.Sprintf("draft:%d", eff[0]), 1)
	var root MNode
	var rl js.JSONLoader
	if docs[0].kind == wText {
		root = MNode{V: docs[0].root, Doc: docs[0].m, Draft: u.docDraft(docs[0].m, loader)}
		rl = textLoader(r, text(docs[0].root))
	} else {
		at := docs[0].at(r)
		var ok bool
		root, ok = u.Resolve("", at, loader)
		if !ok {
			panic("harness: entry " + at)
		}
		rl = js.NewReferenceLoader(at)
	}
	u.grey = false
	wf := u.WellFormed(root)
	if u.grey {
		t.Count("undecided", 1)
		return
	}
	var s *js.Schema
	var err error
	if docs[0].kind == wText && auto && loader == DH && nd == 1 && r.Intn(2) == 0 {
		s, err = js.NewSchema(rl)
	} else {
		s, err = sl.Compile(rl)
	}
	t.Eval(full)
	if wf != "" {
		t.Count("refused", 1)
		if err == nil {
			t.Fail("draft", ex(), "a schema that is malformed in its draft compiled: %s", wf)
		}
		return
	}
	if err != nil {
		t.Fail("draft", ex(), "a schema that is well-formed in its draft does not compile: %v", err)
		return
	}
	if t.Idx < 3 {
		t.Sample(ex())
	}
	// documents: one probe value somewhere down the chain
	var paths [][]int
	var walk func(i int, path []int, seen map[int]bool)
	walk = func(i int, path []int, seen map[int]bool) {
		path = append(append([]int{}, path...), i)
		paths = append(paths, path)
		if len(paths) > 30 {
			return
		}
		seen[i] = true
		for _, j := range docs[i].edges {
			if !seen[j] {
				walk(j, path, seen)
			}
		}
		delete(seen, i)
	}
	walk(0, nil, map[int]bool{})
	for _, p := range paths {
		d := docs[p[len(p)-1]]
		for _, name := range d.probes {
			var vals []interface{}
			if name == "idprobe" {
				vals = []interface{}{obj{"v": "inner"}, obj{"v": "outer"}}
			} else {
				vals = probeByName[name].docs
			}
			if len(paths) > 6 && r.Intn(3) > 0 {
				continue
			}
			for _, v := range vals {
				var doc interface{} = obj{name: v}
				for k := len(p) - 1; k > 0; k-- {
					doc = obj{fmt.Sprintf("to%d", p[k]): doc}
				}
				want := u.Eval(root, doc)
				res, err := s.Validate(docLoader(r, doc))
				t.Eval(full + text(doc))
				if want.Valid() {
					t.Count("accepted", 1)
				} else {
					t.Count("rejected", 1)
				}
				if err != nil || res.Valid() != want.Valid() {
					e := ex()
					e["document"] = text(doc)
					t.Fail("draft", e, "the keywords of draft %d are not in force at %v: expected valid=%v %v", eff[p[len(p)-1]], p, want.Valid(), err)
				}
			}
		}
	}
	if sl.AutoDetect != auto || sl.Draft != libDraft(loader) {
		t.Fail("fields", ex(), "the loader's settings changed")
	}
}

func uniqueInts(l []int) []int {
	seen := map[int]bool{}
	o := []int{}
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			o = append(o, x)
		}
	}
	return o
}

// knownIDFinding: a document without $schema, read in draft 7 because the loader says so, in which "id" is
// an unknown keyword; see known_findings.jsonl
func knownIDFinding(t *T) {
	txt := `{"definitions":{"q":{"id":"http://zz.test/q/","properties":{"p":{"$ref":"#/definitions/r"}}},"r":{"type":"string"}},"items":{"$ref":"#/definitions/q"}}`
	t.Count("idcase:known", 1)
	sl := js.NewSchemaLoader()
	sl.Draft = js.Draft7
	s, err := sl.Compile(js.NewStringLoader(txt))
	t.Eval(txt)
	if err != nil {
		t.FailKnown("id-undeclared-draft7", "draft", obj{"schema": txt, "loader": "Draft=7 AutoDetect=true"}, "the unknown keyword id changes the base URI: %v", err)
		return
	}
	for doc, want := range map[string]bool{`[{"p":"x"}]`: true, `[{"p":1}]`: false} {
		res, err := s.Validate(js.NewStringLoader(doc))
		if err != nil || res.Valid() != want {
			t.Fail("draft", obj{"schema": txt, "document": doc}, "expected valid=%v", want)
		}
	}
}

var _ = rand.Int

// runDraftMixed takes a schema written for one draft and has it read in another
func runDraftMixed(t *T) {
	r := t.R
	written := []int{D4, D6, D7, DH, D7}[r.Intn(5)]
	d := []int{D4, D4, D6, D7, DH, DH}[r.Intn(6)]
	m := modeFor(r, d)
	fs := []focusFn{focusNumbers, focusStrings, focusEquality, focusArrays, focusObjects, focusAlgebra, focusMixed, focusMerged, focusBranches}
	s, docs := fs[r.Intn(len(fs))](r, written)
	if r.Intn(3) == 0 {
		s = withSiblings(r, written, s)
	}
	if r.Intn(3) == 0 { // a probe of the same or another draft on top
		p := append(append([]probe{}, safeProbes...), sharpProbes[:7]...)[r.Intn(len(safeProbes)+5)]
		if o, ok := p.s.(obj); ok {
			c := clone(s).(obj)
			for k, v := range o {
				if _, taken := c[k]; !taken {
					c[k] = clone(v)
				}
			}
			s = c
			docs = append(docs, p.docs...)
		}
	}
	if r.Intn(8) > 0 {
		s = translate(r, d, s).(obj)
	}
	if d == DH && r.Intn(6) == 0 {
		for _, k := range []string{"Minimum", "Maximum"} {
			l := strings.ToLower(k)
			if _, ok := s[l]; !ok {
				s[l] = num(r.Intn(10) + 10*(len(k)%2))
			}
			s["exclusive"+k] = r.Intn(2) == 0
			n := parseDec(string(s[l].(json.Number)))
			docs = append(docs, s[l], spell(r, nearDec(r, n)), spell(r, nearDec(r, n)))
		}
	}
	if _, ok := s["$ref"]; ok {
		return // whether definitions beside a reference are looked at is not settled
	}
	doc := m.dress(s)
	u, root := m.root(doc)
	u.grey = false
	wf := u.WellFormed(root)
	if u.grey {
		t.Count("undecided", 1)
		return
	}
	t.Count(fmt.Sprintf("mixed:%d-as-%d", written, d), 1)
	if wf != "" {
		txt := randText(r, doc)
		t.Eval(txt)
		t.Count("mixed:refused", 1)
		if _, err := m.loader().Compile(textLoader(r, txt)); err == nil {
			t.Fail("draft", Exhibit{Mode: m.String(), Schema: short(txt)}, "a schema that is malformed in its draft compiled: %s", wf)
		}
		return
	}
	pair := compilePair(t, m, s)
	if pair == nil {
		return
	}
	for _, v := range docs {
		if valid, ok := pair.check(v, cmpErrors); ok {
			if valid {
				t.Count("mixed:accepted", 1)
			} else {
				t.Count("mixed:rejected", 1)
			}
		}
	}
}

// translate replaces what the draft d does not allow by something that it does
func translate(r *rand.Rand, d int, v interface{}) interface{} {
	m, ok := v.(obj)
	if !ok {
		if b, ok := v.(bool); ok && d == D4 {
			if b {
				return obj{}
			}
			return obj{"not": obj{}}
		}
		return v
	}
	out := obj{}
	for _, k := range sortedKeys(m) {
		out[k] = m[k]
		switch k {
		case "properties", "patternProperties", "dependencies", "definitions":
			if mm, ok := m[k].(obj); ok {
				o := obj{}
				for kk, x := range mm {
					o[kk] = translate(r, d, x)
				}
				out[k] = o
			}
		case "additionalItems", "additionalProperties":
			if _, isBool := m[k].(bool); !isBool {
				out[k] = translate(r, d, m[k])
			}
		case "items", "allOf", "anyOf", "oneOf", "not", "if", "then", "else", "contains", "propertyNames":
			if l, ok := m[k].(arr); ok {
				o := make(arr, len(l))
				for i := range l {
					o[i] = translate(r, d, l[i])
				}
				out[k] = o
			} else {
				out[k] = translate(r, d, m[k])
			}
		}
	}
	for _, k := range []string{"Minimum", "Maximum"} {
		l := strings.ToLower(k)
		switch x := out["exclusive"+k].(type) {
		case json.Number:
			if d == D4 {
				out[l] = x
				out["exclusive"+k] = true
			}
		case bool:
			if d == D6 || d == D7 {
				delete(out, "exclusive"+k)
				if n, ok := out[l]; ok && x {
					out["exclusive"+k] = n
					delete(out, l)
				}
			}
		}
	}
	return out
}
