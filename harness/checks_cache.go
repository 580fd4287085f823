package main

import (
	"fmt"
	"net/url"
	"strings"

	js "github.com/xeipuuv/gojsonschema"
)

func (d *WDoc) fetchKey() string {
	switch d.Kind {
	case wHTTP:
		u, _ := url.Parse(d.URI)
		return u.String()
	case wFS:
		p, _ := url.PathUnescape(strings.TrimPrefix(d.URI, "file://"))
		return "fs:" + p
	}
	return ""
}

// checkFetches compares the recorded fetches with the ones the references need
func (w *World) checkFetches(t *T, need map[string]bool, hist []string) {
	w.IO.mu.Lock()
	defer w.IO.mu.Unlock()
	allowed := map[string]string{}
	for _, d := range w.Docs {
		if k := d.fetchKey(); k != "" {
			allowed[k] = d.URI
		}
	}
	for k, n := range w.IO.Fetches {
		uri, ok := allowed[k]
		t.Count("fetches", int64(n))
		switch {
		case !ok:
			t.Fail("fetch", w.withHistory(hist), "fetched %s, which is not a document to be fetched", k)
		case !need[uri]:
			t.Fail("fetch", w.withHistory(hist), "fetched %s, which no reference needs", k)
		case n > 1:
			t.Fail("fetch", w.withHistory(hist), "fetched %s %d times", k, n)
		}
	}
	for _, d := range w.Docs {
		if k := d.fetchKey(); k != "" && need[d.URI] && w.IO.Fetches[k] == 0 {
			t.Fail("fetch", w.withHistory(hist), "%s is needed but was not fetched", k)
		}
	}
}

func (w *World) withHistory(h []string) map[string]interface{} {
	e := w.show()
	e["history"] = h
	return e
}

func init() {
	register(&Check{ID: "C12",
		Rule:   "a case is a history of 2-8 calls (adding, compiling several entry points, adding or compiling under taken identifiers) on one loader over a generated world of documents, with every HTTP request and every file opened recorded; an evaluation is one Validate call or one refused call compared with the oracle, and the recorded fetches are compared with the documents the references need; distinct: different (root text, document)",
		Assume: []string{assumeModel, "documents are observed through http.DefaultTransport and http.FileSystem, the only ways the loader has to fetch in this test"},
		Quick:  48000, Thorough: 400000,
		Need: []string{"accepted", "rejected", "fetches", "taken_url", "taken_id", "taken_together", "taken_fetched", "taken_root", "recompiled", "designates_nothing", "metaschema_refs", "unneeded_documents"},
		Run: func(t *T) {
			r := t.R
			m := modeFor(r, randDraft(r))
			opt := WOpt{Kinds: []int{wAdd, wAddByID, wHTTP, wHTTP, wFS}, Roots: []int{wText, wAdd, wAddByID, wHTTP, wFS}, MaxDocs: 5, NoIDs: r.Intn(4) == 0, FS: true}
			w := newWorld(r, m, opt, t.Dir)
			defer w.cleanup()
			w.IO.install()
			defer theTransport.set(nil)
			var hist []string
			log := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }

			sl, err := w.loader()
			log("add all")
			if err != nil {
				t.Fail("add", w.withHistory(hist), "a document cannot be added: %v", err)
				return
			}
			if len(w.IO.Fetches) > 0 {
				t.Fail("fetch", w.withHistory(hist), "adding documents fetched %v", w.IO.Order)
			}
			need := map[string]bool{}
			compile := func(l js.JSONLoader, root MNode, what string) *js.Schema {
				w.U.Used = map[string]bool{}
				w.U.grey = false
				wf := w.U.WellFormed(root)
				if w.U.grey || wf != "" {
					return nil
				}
				for k := range w.U.Used {
					need[k] = true
				}
				if w.Docs[0].Kind >= wHTTP && root.Doc == w.Docs[0].M {
					need[w.Docs[0].URI] = true
				}
				need[root.Doc.URI] = true
				log("compile %s", what)
				s, err := sl.Compile(l)
				if err != nil {
					t.Fail("compile", w.withHistory(hist), "%s does not compile: %v", what, err)
					return nil
				}
				return s
			}
			ex := func() map[string]interface{} { return w.withHistory(hist) }
			rootL := w.rootLoader
			root := w.rootNode()
			s := compile(rootL(), root, w.EntryAt)
			if s == nil {
				return
			}
			w.checkFetches(t, need, hist)
			w.checkDocs(t, s, root, 2, cmpVerdict, ex)

			for step := 1 + r.Intn(6); step > 0; step-- {
				d := w.Docs[r.Intn(len(w.Docs))]
				other := obj{"type": "array", "items": obj{"type": "null"}}
				if w.Mode.Auto && draftOfURL(d.Declared) != 0 {
					other["$schema"] = d.Declared
				}
				id := pick(r, "id", "$id")
				switch m.Draft {
				case D4:
					id = "id"
				case D6, D7:
					id = "$id"
				}
				if r.Intn(8) == 0 {
					// several at once, two of them with the same identifier
					same := fmt.Sprintf("http://same.test/%d", step)
					var ls []js.JSONLoader
					one := clone(other).(obj)
					one[id] = same
					two := obj{id: same, "type": "string"}
					if other["$schema"] != nil {
						two["$schema"] = other["$schema"]
					}
					for _, v := range []obj{one, two} {
						for k := r.Intn(3); k > 0; k-- {
							x := clone(other).(obj)
							x[id] = fmt.Sprintf("http://same.test/%d/%d/%d", step, len(ls), r.Uint32())
							ls = append(ls, textLoader(r, text(x)))
						}
						ls = append(ls, textLoader(r, text(v)))
					}
					log("AddSchemas with %s twice among %d", same, len(ls))
					if err := sl.AddSchemas(ls...); err == nil {
						t.Fail("taken", w.withHistory(hist), "adding two documents with identifier %s succeeded", same)
					}
					t.Count("taken_together", 1)
				}
				if r.Intn(6) == 0 && strings.Contains(d.URI, "://") {
					// a reference that designates nothing changes nothing, but needs the document
					at := d.URI + pick(r, "#/definitions/nothing-here", "#/nowhere/0", "#no-such-name")
					log("Compile %s", at)
					if _, err := sl.Compile(js.NewReferenceLoaderFileSystem(at, w.IO)); err == nil {
						t.Fail("nothing", w.withHistory(hist), "%s designates nothing but compiles", at)
					}
					need[d.URI] = true
					t.Count("designates_nothing", 1)
				}
				switch r.Intn(6) {
				case 0: // URL that is taken
					if d.Kind != wAdd {
						continue
					}
					log("AddSchema taken URL %s", d.URI)
					if err := sl.AddSchema(d.URI, textLoader(r, text(other))); err == nil {
						t.Fail("taken", w.withHistory(hist), "adding a second document under %s succeeded", d.URI)
					}
					t.Count("taken_url", 1)
				case 1: // identifier that is taken
					var taken string
					for _, n := range d.Nodes {
						if s, ok := n.V.(obj); ok {
							if _, has := idOf(s, m.Draft); has && d.Kind < wHTTP && len(n.Global) > 0 && !strings.Contains(n.Base, "#") {
								taken = n.Base
							}
						}
					}
					if taken == "" || !strings.Contains(taken, "://") {
						continue
					}
					other[id] = taken
					log("AddSchemas taken id %s", taken)
					ls := []js.JSONLoader{textLoader(r, text(other))}
					for k := r.Intn(3); k > 0; k-- {
						x := clone(other).(obj)
						x[id] = fmt.Sprintf("http://fresh.test/%d/%d/%d", step, len(ls), r.Uint32())
						i := r.Intn(len(ls) + 1)
						ls = append(ls[:i:i], append([]js.JSONLoader{textLoader(r, text(x))}, ls[i:]...)...)
					}
					if err := sl.AddSchemas(ls...); err == nil {
						t.Fail("taken", w.withHistory(hist), "adding a second document with identifier %s succeeded", taken)
					}
					t.Count("taken_id", 1)
				case 2: // URL of a document that was fetched
					if d.Kind < wHTTP || !need[d.URI] {
						continue
					}
					log("AddSchema fetched URL %s", d.URI)
					if err := sl.AddSchema(d.URI, textLoader(r, text(other))); err == nil {
						t.Fail("taken", w.withHistory(hist), "adding a document under the fetched %s succeeded", d.URI)
					}
					t.Count("taken_fetched", 1)
				case 3: // compile a schema whose identifier is taken
					if d.Kind != wAdd || w.Docs[0].Kind == wText {
						continue
					}
					other[id] = d.URI
					log("Compile with taken id %s", d.URI)
					if _, err := sl.Compile(textLoader(r, text(other))); err == nil {
						t.Fail("taken", w.withHistory(hist), "compiling a document with the identifier %s succeeded", d.URI)
					}
					t.Count("taken_root", 1)
				default: // another entry point, or the same one again
					var e *WNode
					for try := 0; try < 10; try++ {
						n := w.Nodes[r.Intn(len(w.Nodes))]
						if len(n.Global) > 0 && strings.Contains(n.Global[0], "://") {
							e = n
							break
						}
					}
					if e == nil {
						continue
					}
					at := e.Global[r.Intn(len(e.Global))]
					if !strings.Contains(at, "://") {
						continue
					}
					n, ok := w.U.Resolve("", at, m.Loader)
					if !ok || n.Draft != m.Draft {
						continue
					}
					s2 := compile(js.NewReferenceLoaderFileSystem(at, w.IO), n, at)
					if s2 == nil {
						continue
					}
					keep := w.Entry
					w.Entry = e
					w.checkDocs(t, s2, n, 2, cmpVerdict, ex)
					w.Entry = keep
					t.Count("recompiled", 1)
				}
				w.checkFetches(t, need, hist)
			}
			// what the identifiers designate is still the same
			if w.Docs[0].Kind != wText {
				if s := compile(rootL(), root, w.EntryAt); s != nil {
					w.checkDocs(t, s, root, 2, cmpVerdict, ex)
				}
			}
			w.checkDocs(t, s, root, 1, cmpVerdict, ex)
			w.checkFetches(t, need, hist)
			for _, d := range w.Docs {
				if d.fetchKey() != "" && !need[d.URI] {
					t.Count("unneeded_documents", 1)
				}
			}
			t.countWorld(w)

			// the official meta-schemas are known without fetching
			before := len(w.IO.Order)
			dr := []int{D4, D6, D7}[r.Intn(3)]
			name := map[int]string{D4: "positiveInteger", D6: "nonNegativeInteger", D7: "nonNegativeInteger"}[dr]
			u := strings.TrimSuffix(draftURL[dr], "#") + "#/definitions/" + name
			ms, err := js.NewSchemaLoader().Compile(js.NewStringLoader(`{"properties":{"a":{"$ref":"` + u + `"},"b":{"$ref":"` + u + `Default0"},"c":{"$ref":"` + draftURL[dr] + `"}}}`))
			if err != nil {
				t.Fail("meta", obj{"uri": u}, "the meta-schema cannot be referred to: %v", err)
			} else {
				for doc, want := range map[string]bool{`{"a":1,"b":0,"c":{}}`: true, `{"a":-1}`: false, `{"b":-1}`: false, `{"a":1.5}`: false, `{"c":{"type":"string"}}`: true, `{"c":{"type":12}}`: false} {
					res, err := ms.Validate(js.NewStringLoader(doc))
					if err != nil || res.Valid() != want {
						t.Fail("meta", obj{"uri": u, "document": doc}, "the meta-schema does not behave as itself: expected %v", want)
					}
				}
			}
			if len(w.IO.Order) != before {
				t.Fail("meta", obj{"fetched": w.IO.Order[before:]}, "a meta-schema was fetched")
			}
			t.Count("metaschema_refs", 1)
		}})
}
