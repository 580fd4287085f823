package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"runtime"
	"strings"

	js "github.com/xeipuuv/gojsonschema"
)

// subject is a schema under observation, with its documents and what was observed first
type subject struct {
	name  string
	txt   string
	s     *js.Schema
	make  func(r *rand.Rand) (*js.Schema, error) // compiles it anew
	docs  []interface{}
	keys  []string // of the documents
	first []string // outcomes
	exact []string
	want  []*MRes
}

type retained struct {
	res  *js.Result
	keys string
	strs string
	n    int
	from string
}

func strsOf(res *js.Result) string {
	var b strings.Builder
	for _, e := range res.Errors() {
		b.WriteString(e.String())
		b.WriteByte('\n')
	}
	return b.String()
}

func init() {
	register(&Check{ID: "C21",
		Rule:   "a case keeps 2-4 schemas (generated, from the bundled suite, or worlds of documents) with 2-5 documents each and runs a random history of 30-80 operations on them: validations (each document delivered as the same in-memory value, or as text), recompilations, other compilations, failing calls, added errors, garbage collections; an evaluation is one Validate call whose outcome (verdict and set of errors with all details) is compared with the first one and with the oracle; at the end all documents are compared with their copies and all retained results with their first reading; distinct: different (schema, document)",
		Assume: []string{assumeModel, "the format registry is not changed within a case"},
		Quick:  4500, Thorough: 150000,
		Setup: func(w *Worker) { loadSuite() },
		Need:  []string{"repeated", "recompiled", "retained", "documents_compared", "interleaved_compile", "failed_calls", "worlds", "accepted", "rejected", "errors_added", "annotated", "long_lives"},
		Run:   runPure})
}

// longExponent finds the numbers that take long to render
var longExponent = regexp.MustCompile(`[0-9][eE][-+]?[0-9]{4,}`)

func newSubject(t *T, i int) (*subject, func()) {
	r := t.R
	nop := func() {}
	if r.Intn(6) == 0 {
		m := modeFor(r, randDraft(r))
		w := newWorld(r, m, WOpt{Kinds: []int{wAdd, wAddByID, wFile}, Roots: []int{wText, wAdd, wFile}, MaxDocs: 3, NoIDs: r.Intn(3) == 0}, t.Dir)
		root := w.rootNode()
		w.U.grey = false
		if wf := w.U.WellFormed(root); wf != "" || w.U.grey {
			w.cleanup()
			return nil, nop
		}
		sub := &subject{name: fmt.Sprintf("world %d", i), txt: text(w.show())}
		sub.make = func(r *rand.Rand) (*js.Schema, error) {
			w := *w // with randomness of its own
			w.r = r
			sl, err := w.loader()
			if err != nil {
				return nil, err
			}
			return sl.Compile(w.rootLoader())
		}
		for k := 2 + r.Intn(3); k > 0; k-- {
			doc := w.docFor(w.Entry, 3)
			for s := r.Intn(3); s > 0; s-- {
				doc = w.swap(doc)
			}
			sub.add(w.U, root, doc)
		}
		t.Count("worlds", 1)
		return sub, w.cleanup
	}
	var schema interface{}
	d := randDraft(r)
	m := modeFor(r, d)
	var docs []interface{}
	switch r.Intn(6) {
	case 0:
		g := &suiteGroups[r.Intn(len(suiteGroups))]
		schema, m = g.Schema, g.mode()
		docs = g.docs(r)
		r.Shuffle(len(docs), func(i, j int) { docs[i], docs[j] = docs[j], docs[i] })
		if len(docs) > 5 {
			docs = docs[:5]
		}
	case 1, 2, 3:
		f := []focusFn{focusNumbers, focusStrings, focusEquality, focusArrays, focusObjects, focusAlgebra, focusMixed, focusBranches}[r.Intn(8)]
		s, ds := f(r, d)
		schema, docs = s, ds
		r.Shuffle(len(docs), func(i, j int) { docs[i], docs[j] = docs[j], docs[i] })
		if len(docs) > 6 {
			docs = docs[:6]
		}
	default:
		schema = (&Gen{r: r, draft: d}).Root()
		docs = docsFor(r, schema, 2+r.Intn(4))
	}
	if _, ok := schema.(obj); !ok && m.Declare {
		m = Mode{Draft: m.Draft, Auto: true, Loader: m.Draft}
	}
	if o, ok := schema.(obj); ok && o["$ref"] == nil && r.Intn(3) == 0 {
		schema = annotate(r, o)
		t.Count("annotated", 1)
	}
	s := m.dress(schema)
	u, root := m.root(s)
	u.grey = false
	if u.WellFormed(root) != "" || u.grey {
		return nil, nop
	}
	sub := &subject{name: m.String(), txt: text(s)}
	size := len(sub.txt)
	for _, doc := range docs {
		size += len(text(doc))
	}
	if size > 20000 && r.Intn(10) > 0 {
		return nil, nop // they take their time
	}
	all := sub.txt
	for _, doc := range docs {
		all += " " + text(doc)
	}
	if t.Check.ID == "C20" && (size > 20000 || longExponent.MatchString(all)) {
		return nil, nop // under the race detector, in many goroutines at once, much too long
	}
	sub.make = func(r *rand.Rand) (*js.Schema, error) {
		return m.loader().Compile(textLoader(r, randText(r, s)))
	}
	for _, doc := range docs {
		sub.add(u, root, doc)
	}
	return sub, nop
}

func (s *subject) add(u *Universe, root MNode, doc interface{}) {
	u.grey = false
	want := u.Eval(root, doc)
	if u.grey {
		want = nil
	}
	s.docs = append(s.docs, doc)
	s.keys = append(s.keys, exactKey(doc))
	s.first = append(s.first, "")
	s.exact = append(s.exact, "")
	s.want = append(s.want, want)
}

func runPure(t *T) {
	r := t.R
	theTransport.set(nil)
	var subs []*subject
	for i := 2 + r.Intn(3); i > 0; i-- {
		s, clean := newSubject(t, i)
		defer clean()
		if s == nil || len(s.docs) == 0 {
			continue
		}
		c, err := s.make(r)
		if err != nil {
			t.Fail("compile", Exhibit{Mode: s.name, Schema: short(s.txt)}, "a well-formed schema does not compile: %v", err)
			return
		}
		s.s = c
		subs = append(subs, s)
	}
	if len(subs) == 0 {
		return
	}
	var keep []*retained
	shared := js.NewSchemaLoader()
	nshared := 0
	validate := func(s *subject, c *js.Schema, di int, how string) {
		doc := s.docs[di]
		var l js.JSONLoader
		switch r.Intn(4) {
		case 0:
			l = docLoader(r, doc)
		default:
			l = js.NewRawLoader(doc) // the very same value
		}
		res, err := c.Validate(l)
		ex := func(got string) Exhibit {
			return Exhibit{Mode: s.name, Schema: short(s.txt), Doc: short(s.keys[di]), Want: short(s.first[di]), Got: short(got), Extra: how}
		}
		t.Eval(s.txt + s.keys[di])
		if err != nil {
			t.Fail("validate", ex(fmt.Sprint(err)), "validation failed: %v", err)
			return
		}
		k := recKeys(res)
		if res.Valid() != (len(res.Errors()) == 0) {
			t.Fail("validate", ex(k), "valid=%v with %d errors", res.Valid(), len(res.Errors()))
		}
		if s.first[di] == "" {
			s.first[di] = "outcome\n" + k
			if s.want[di] != nil {
				if df := diffRecs(recsOfModel(s.want[di]), recsOf(res)); df != "" {
					t.Fail("first", ex(k), "the first outcome is wrong already: %s", df)
				}
			}
			if res.Valid() {
				t.Count("accepted", 1)
			} else {
				t.Count("rejected", 1)
			}
		} else {
			t.Count("repeated", 1)
			if s.first[di] != "outcome\n"+k {
				t.Fail("repeat", ex(k), "the outcome of a validation changed (%s)", how)
			}
		}
		if exactKey(doc) != s.keys[di] {
			t.Fail("document", ex(text(doc)), "validation modified the document")
			s.docs[di] = mustParse(s.keys[di])
		}
		t.Count("documents_compared", 1)
		if r.Intn(4) == 0 && len(keep) < 40 {
			keep = append(keep, &retained{res, k, strsOf(res), len(res.Errors()), s.txt})
		}
	}
	for op := 30 + r.Intn(51); op > 0; op-- {
		s := subs[r.Intn(len(subs))]
		di := r.Intn(len(s.docs))
		switch r.Intn(14) {
		default:
			validate(s, s.s, di, "again")
		case 7: // many times in a row
			for i := 0; i < 5; i++ {
				validate(s, s.s, di, "in a row")
			}
		case 8: // recompiled
			c, err := s.make(r)
			if err != nil {
				t.Fail("compile", Exhibit{Mode: s.name, Schema: short(s.txt)}, "a schema that compiled before does not compile again: %v", err)
				return
			}
			t.Count("recompiled", 1)
			validate(s, c, di, "recompiled")
			if r.Intn(3) == 0 {
				s.s = c
			}
		case 9: // something else is compiled
			otherCompile(t, r, shared, &nshared)
			validate(s, s.s, di, "after other compilations")
		case 10: // calls that fail
			js.NewSchema(js.NewStringLoader(badTexts[r.Intn(len(badTexts))]))
			js.NewSchema(js.NewStringLoader(`{"type":"` + genKey(rand.New(rand.NewSource(int64(op)))) + `"}`))
			s.s.Validate(js.NewStringLoader(badTexts[r.Intn(len(badTexts))]))
			s.s.Validate(js.NewReferenceLoader("http://nowhere.test/"))
			t.Count("failed_calls", 1)
			validate(s, s.s, di, "after failing calls")
		case 11: // adding errors to a result of our own
			res, err := s.s.Validate(js.NewRawLoader(s.docs[di]))
			if err == nil {
				e := new(userError)
				e.SetContext(js.NewJsonContext("(root)", nil))
				e.SetDescriptionFormat("added {{.context}}")
				res.AddError(e, js.ErrorDetails{"a": 1})
				for _, x := range res.Errors() {
					x.SetDescription("overwritten")
				}
				t.Count("errors_added", 1)
			}
			validate(s, s.s, di, "after a result was changed")
		case 12:
			runtime.GC()
			validate(s, s.s, di, "after a garbage collection")
		case 13: // unrelated documents
			for i := 0; i < 3; i++ {
				s.s.Validate(js.NewRawLoader(mutateDoc(r, s.docs[di])))
			}
			validate(s, s.s, di, "after other documents")
		}
	}
	if r.Intn(40) == 0 { // a long life
		s := subs[r.Intn(len(subs))]
		rejected := -1
		for di := range s.docs {
			if s.first[di] == "" {
				validate(s, s.s, di, "before a long life")
			}
			if s.first[di] != "outcome\n" && (rejected < 0 || r.Intn(2) == 0) {
				rejected = di
			}
		}
		if rejected < 0 {
			rejected = r.Intn(len(s.docs))
		}
		l := js.NewRawLoader(s.docs[rejected])
		valid := s.first[rejected] == "outcome\n"
		n := 1200 + r.Intn(1200)
		if len(s.keys[rejected])+len(s.txt) > 3000 {
			n = 5
		}
		for i := 0; i < n; i++ {
			res, err := s.s.Validate(l)
			if err != nil || res.Valid() != valid {
				t.Fail("long life", Exhibit{Mode: s.name, Schema: short(s.txt), Doc: short(s.keys[rejected])}, "the verdict changed after %d validations (%v)", i, err)
				break
			}
		}
		for di := range s.docs {
			validate(s, s.s, di, "after a long life")
		}
		t.Count("long_lives", 1)
	}
	for _, k := range keep {
		t.Count("retained", 1)
		if len(k.res.Errors()) != k.n || recKeys(k.res) != k.keys || strsOf(k.res) != k.strs {
			t.Fail("retained", Exhibit{Schema: short(k.from), Want: short(k.keys), Got: short(recKeys(k.res))}, "a retained result changed")
		}
	}
	if t.Idx < 3 {
		t.Sample(obj{"schema": short(subs[0].txt), "documents": len(subs[0].docs), "schemas": len(subs)})
	}
}

// otherCompile compiles and uses something unrelated
func otherCompile(t *T, r *rand.Rand, shared *js.SchemaLoader, n *int) {
	d := randDraft(r)
	s := (&Gen{r: r, draft: d}).Root()
	sl := js.NewSchemaLoader()
	sl.Draft = libDraft(d)
	sl.AutoDetect = r.Intn(2) == 0
	sl.Validate = r.Intn(2) == 0
	if c, err := sl.Compile(textLoader(r, text(s))); err == nil {
		for _, doc := range docsFor(r, s, 2) {
			c.Validate(docLoader(r, doc))
		}
	}
	*n++
	u := fmt.Sprintf("http://shared.test/%d", *n)
	shared.AddSchema(u, textLoader(r, text(s)))
	shared.Compile(js.NewReferenceLoader(u))
	js.Validate(js.NewStringLoader(text(s)), js.NewStringLoader("[1]"))
	t.Count("interleaved_compile", 1)
}
