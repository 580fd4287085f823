package main

import (
	"fmt"
	"os"
	"strings"

	js "github.com/xeipuuv/gojsonschema"
)

func (t *T) countWorld(w *World) {
	for k, n := range w.forms {
		t.Count("form:"+k, int64(n))
	}
	for _, d := range w.Docs {
		t.Count("doc:"+wKindName[d.Kind], 1)
	}
	t.Count("references", int64(w.Refs))
	t.Count(fmt.Sprintf("draft:%d", w.Mode.Draft), 1)
}

// checkDocs validates fingerprinted documents against a compiled world
func (w *World) checkDocs(t *T, s *js.Schema, root MNode, n int, level int, exhibit func() map[string]interface{}) {
	for i := 0; i < n; i++ {
		doc := w.docFor(w.Entry, w.r.Intn(4))
		if i > 0 {
			for k := w.r.Intn(3); k > 0; k-- {
				doc = w.swap(doc)
			}
		}
		w.U.grey = false
		want := w.U.Eval(root, doc)
		if w.U.grey {
			t.Count("undecided", 1)
			continue
		}
		if i == 0 {
			// the document was built from the intended targets of the references: two oracles that must agree
			if want.Valid() != !w.Entry.target().None {
				t.Count("oracles_disagree", 1)
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, text(doc), want.Errs[0], text(exhibit()))
				}
				continue
			}
			t.Count("oracles_agree", 1)
		}
		res, err := s.Validate(docLoader(w.r, doc))
		t.Eval(w.Docs[0].text + text(doc))
		if err != nil {
			t.Fail("validate", exhibit(), "validation failed: %v", err)
			continue
		}
		if want.Valid() {
			t.Count("accepted", 1)
		} else {
			t.Count("rejected", 1)
		}
		bad := ""
		if res.Valid() != want.Valid() {
			bad = fmt.Sprintf("expected valid=%v, observed valid=%v %v", want.Valid(), res.Valid(), res.Errors())
		} else if level >= cmpErrors {
			bad = diffRecs(recsOfModel(want), recsOf(res))
		}
		if bad != "" {
			e := exhibit()
			e["document"] = text(doc)
			t.Fail("reference", e, "a reference does not behave as the schema it designates: %s", bad)
		}
	}
}

func (w *World) breakRef() string {
	r := w.r
	if len(w.sources) == 0 {
		return ""
	}
	site := w.sources[r.Intn(len(w.sources))]
	old := site.holder["$ref"].(string)
	rest, frag := splitFragment(old)
	n := ""
	switch r.Intn(10) {
	case 0:
		n = old + pick(r, "/nope", "/definitions/nope", "x")
		if !strings.Contains(old, "#") {
			n = old + "#/definitions/nope"
		}
	case 1:
		n = rest + "#noSuchAnchor"
	case 2:
		n = pick(r, "http://h0.test/absent.json", "http://nowhere.test/", "file:///virtual/absent", "file:///nonexistent-dir/x.json") + pick(r, "", "#", "#/a", "#frag")
	case 3:
		n = rest + "#/required"
		if r.Intn(2) == 0 {
			n = rest + "#/required/0"
		}
	case 4:
		n = rest + "#/properties/tag/enum/0"
	case 5:
		n = rest + "#/properties/tag/enum"
	case 6:
		n = rest + "#/items/99"
	case 7:
		n = rest + "#/items/x"
	case 8:
		n = pick(r, "absent.json", "/absent/x", "#absent", "#/absent", "?absent")
	case 9:
		n = strings.ToUpper(rest) + "#" + frag
		if n == old || rest == "" {
			n = "#/Definitions/a"
		}
	}
	site.holder["$ref"] = n
	return n
}

func init() {
	register(&Check{ID: "C08",
		Rule:   "a case is a generated world of 1-4 documents (text, added, fetched over stand-in HTTP, real files or a custom file system) whose schemas carry unique fingerprints and refer to each other by pointers, identifiers and anchors under nested base URIs; an evaluation is one Validate call (or one Compile call with a reference made dangling) compared with the oracle's own resolver; distinct: different (root text, document)",
		Assume: []string{assumeModel, "URI resolution itself (RFC 3986) is taken from the Go standard library on both sides"},
		Quick:  64000, Thorough: 600000,
		Need: []string{"accepted", "rejected", "dangling_refused", "form:anchor", "form:nested_id", "form:base_change", "form:siblings", "form:literal", "form:chain", "form:long_chain", "form:entry_fragment", "form:decoy_id", "forests", "doc:text", "doc:add", "doc:add-by-id", "doc:http", "doc:file", "doc:fs"},
		Run: func(t *T) {
			r := t.R
			if t.Idx%6 == 5 {
				runForest(t)
				return
			}
			m := modeFor(r, randDraft(r))
			w := newWorld(r, m, WOpt{Kinds: []int{wAdd, wAddByID, wHTTP, wFile, wFS}, Roots: []int{wText, wText, wAdd, wAddByID, wHTTP, wFile, wFS}, MaxDocs: 4, NoIDs: r.Intn(4) == 0}, t.Dir)
			defer w.cleanup()
			t.runWorld(w)
			if r.Intn(2) == 0 {
				if w.breakRef() != "" {
					w.IO = newIO()
					w.build()
					t.runWorld(w)
				}
			}
		}})
}

func (t *T) runWorld(w *World) {
	w.IO.install()
	defer theTransport.set(nil)
	root := w.rootNode()
	w.U.grey = false
	wf := w.U.WellFormed(root)
	if w.U.grey {
		t.Count("undecided", 1)
		return
	}
	ex := func() map[string]interface{} {
		e := w.show()
		e["oracle"] = wf
		return e
	}
	sl, err := w.loader()
	if err != nil {
		t.Fail("add", ex(), "a document cannot be added: %v", err)
		return
	}
	s, err := sl.Compile(w.rootLoader())
	if wf != "" {
		t.Eval(w.Docs[0].text)
		if err == nil {
			t.Fail("dangling", ex(), "a reference that designates nothing compiled: %s", wf)
		} else if s != nil {
			t.Fail("dangling", ex(), "a failed compilation returned a schema")
		}
		t.Count("dangling_refused", 1)
		return
	}
	if err != nil {
		t.Fail("compile", ex(), "every reference designates a schema, but compilation fails: %v", err)
		return
	}
	t.countWorld(w)
	if t.Idx < 3 {
		t.Sample(w.show())
	}
	w.checkDocs(t, s, root, 4, cmpErrors, ex)
}
