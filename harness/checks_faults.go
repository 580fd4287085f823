package main

import (
	"fmt"
	"io"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	js "github.com/xeipuuv/gojsonschema"
)

// openFiles counts the open files below a directory; what the runtime opens for itself is not the library's
func openFiles(dir string) int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range l {
		if p, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(p, dir+"/") {
			n++
		}
	}
	return n
}

func init() {
	register(&Check{ID: "C13", Level: "fault_enumeration",
		Rule:   "a case is a generated world of documents behind stand-in HTTP and file systems (and real files): after a run without faults has counted the I/O steps, every step is made to fail in every way (refused, read error after some bytes, truncated, garbage, bad status, not JSON, empty), each on its own loader, for Compile, AddSchema and Validate; an evaluation is one call under a fault, or one repeated call after it, compared with the oracle; every handle opened is accounted for; distinct: different (world, step, kind of fault)",
		Assume: []string{assumeModel, "a response counts as failed when its status is not 200; text after the first JSON value is not looked at", "handles are counted at the stand-ins, for real files in /proc/self/fd (those below the scratch directory)"},
		Quick:  4000, Thorough: 60000,
		Setup: func(w *Worker) {
			// whatever the runtime opens for itself
			if f, err := os.Open("/dev/null"); err == nil {
				f.Close()
			}
		},
		Need: []string{"fault:open", "fault:read", "text_first", "text_then_reference", "fault:short", "fault:garbage", "fault:status", "fault:notjson", "fault:empty", "retried", "twice", "add_faults", "document_faults", "real_file_faults", "meta_faults", "handles", "stream_faults"},
		Run: func(t *T) {
			faultWorld(t)
			faultAdd(t)
			faultInstance(t)
			if t.Idx%2 == 0 {
				faultFiles(t)
				faultMeta(t)
			}
			faultStream(t)
		}})
}

func (t *T) handles(o *IO, ex interface{}, when string) {
	t.Count("handles", int64(o.opened-o.noted))
	o.noted = o.opened
	if b := o.balance(); b != "" {
		t.Fail("leak", ex, "%s: %s", when, b)
	}
}

// faultWorld: every step of a compilation
func faultWorld(t *T) {
	r := t.R
	m := modeFor(r, randDraft(r))
	w := newWorld(r, m, WOpt{Kinds: []int{wAdd, wHTTP, wHTTP, wFS, wFS}, Roots: []int{wText, wAdd, wHTTP, wHTTP, wFS, wFS}, MaxDocs: 4, NoIDs: r.Intn(3) == 0, FS: true}, t.Dir)
	defer w.cleanup()
	w.IO.install()
	defer theTransport.set(nil)
	root := w.rootNode()
	w.U.grey = false
	if wf := w.U.WellFormed(root); wf != "" || w.U.grey {
		return
	}
	sl, err := w.loader()
	if err != nil {
		t.Fail("add", w.show(), "cannot be added: %v", err)
		return
	}
	s, err := sl.Compile(w.rootLoader())
	if err != nil {
		t.Fail("compile", w.show(), "does not compile without faults: %v", err)
		return
	}
	w.checkDocs(t, s, root, 1, cmpVerdict, w.show)
	t.handles(w.IO, w.show(), "without faults")
	steps := w.IO.step
	t.Count("steps", int64(steps))
	for i := 0; i < steps; i++ {
		for _, kind := range ioFaults {
			f := &Fault{At: i, Kind: kind, Var: r.Intn(10000)}
			w.IO.step, w.IO.fault = 0, f
			ex := func() map[string]interface{} {
				e := w.show()
				e["fault"] = fmt.Sprintf("step %d %s at %s (%d)", i, f.Kind, f.Where, f.Var)
				return e
			}
			sl, err := w.loader()
			if err != nil {
				t.Fail("add", ex(), "cannot be added: %v", err)
				return
			}
			if w.Docs[0].Kind != wText && r.Intn(4) == 0 {
				// the loader has compiled something else before
				if _, err := sl.Compile(js.NewStringLoader(`{"x":1}`)); err != nil {
					t.Fail("compile", ex(), "{\"x\":1} does not compile: %v", err)
				}
				t.Count("text_first", 1)
			}
			s, err := sl.Compile(w.rootLoader())
			t.Eval(fmt.Sprint(w.Docs[0].text, i, kind))
			if !f.Hit {
				t.Count("not_reached", 1)
				w.IO.fault = nil
				continue
			}
			t.Count("fault:"+kind, 1)
			switch {
			case err == nil:
				t.Fail("swallowed", ex(), "compiling succeeded although loading %s failed", f.Where)
			case s != nil:
				t.Fail("partial", ex(), "a failed compilation returned a schema")
			case err.Error() == "":
				t.Fail("swallowed", ex(), "an empty error")
			}
			t.handles(w.IO, ex(), "after a fault")
			if w.Docs[0].Kind == wText {
				w.IO.fault = nil
				// the text cannot be compiled again, but the documents behind it can
				for _, d := range w.Docs[1:] {
					if len(d.Nodes) == 0 || !strings.Contains(d.URI, "://") {
						continue
					}
					n, ok := w.U.Resolve("", d.URI, m.Loader)
					if !ok || n.Draft != m.Draft || n.Doc != d.M {
						continue
					}
					w.U.grey = false
					if wf := w.U.WellFormed(n); wf != "" || w.U.grey {
						continue
					}
					s, err := sl.Compile(js.NewReferenceLoaderFileSystem(d.URI, w.IO))
					t.Eval(fmt.Sprint(d.URI, w.Docs[0].text, i, kind, "again"))
					t.Count("text_then_reference", 1)
					if err != nil {
						t.Fail("remembered", ex(), "the fault is gone, but %s cannot be compiled by the same loader: %v", d.URI, err)
						continue
					}
					keep := w.Entry
					w.Entry = d.Nodes[0]
					w.checkDocs(t, s, n, 1, cmpErrors, ex)
					w.Entry = keep
				}
				t.handles(w.IO, ex(), "after the references")
				continue
			}
			if r.Intn(3) == 0 {
				// and once more
				f2 := &Fault{At: 0, Kind: ioFaults[r.Intn(len(ioFaults))], Var: r.Intn(10000)}
				if f2.Kind == "readend" {
					f2.Kind = "read"
				}
				w.IO.step, w.IO.fault = 0, f2
				s, err := sl.Compile(w.rootLoader())
				if !f2.Hit {
					t.Fail("remembered", ex(), "a document that could not be loaded was not asked for again")
				} else if err == nil || s != nil {
					t.Fail("swallowed", ex(), "the second failure was swallowed")
				}
				t.handles(w.IO, ex(), "after the second fault")
				t.Count("twice", 1)
			}
			w.IO.fault = nil
			s, err = sl.Compile(w.rootLoader())
			t.Eval(fmt.Sprint(w.Docs[0].text, i, kind, "again"))
			t.Count("retried", 1)
			if err != nil {
				t.Fail("remembered", ex(), "the fault is gone, but compiling on the same loader fails: %v", err)
			} else {
				w.checkDocs(t, s, root, 2, cmpErrors, ex)
			}
			t.handles(w.IO, ex(), "after the retry")
		}
	}
}

// faultAdd: adding a document by a loader that fails
func faultAdd(t *T) {
	r := t.R
	o := newIO()
	o.install()
	defer theTransport.set(nil)
	u, fsys := pick(r, "http://h.test/x.json", "file:///virtual/x.json"), o
	body := `{"type":"string","minLength":2}`
	o.http["http://h.test/x.json"], o.files["/virtual/x.json"] = body, body
	for _, kind := range ioFaults {
		f := &Fault{At: 0, Kind: kind, Var: r.Intn(1000)}
		o.step, o.fault = 0, f
		sl := js.NewSchemaLoader()
		sl.Validate = r.Intn(2) == 0
		sl.AutoDetect = r.Intn(3) > 0
		sl.Draft = []js.Draft{js.Hybrid, js.Draft4, js.Draft6, js.Draft7}[r.Intn(4)]
		byID := r.Intn(3) == 0
		ex := obj{"uri": u, "fault": kind, "var": f.Var, "AddSchemas": byID, "AutoDetect": sl.AutoDetect, "Draft": sl.Draft, "Validate": sl.Validate}
		add := func() error {
			if byID {
				return sl.AddSchemas(js.NewReferenceLoaderFileSystem(u, fsys))
			}
			return sl.AddSchema("http://added.test/", js.NewReferenceLoaderFileSystem(u, fsys))
		}
		err := add()
		t.Eval(fmt.Sprint("add", u, kind, byID))
		t.Count("add_faults", 1)
		if !f.Hit {
			t.handles(o, ex, "after AddSchema")
			t.Count("not_reached", 1)
			o.fault = nil
			continue
		}
		if err == nil {
			t.Fail("swallowed", ex, "a document was added although loading it failed")
		}
		t.handles(o, ex, "after AddSchema")
		if !byID {
			if s, err := sl.Compile(js.NewReferenceLoader("http://added.test/")); err == nil || s != nil {
				t.Fail("remembered", ex, "a document that could not be loaded can be compiled")
			}
		}
		o.fault = nil
		if err := add(); err != nil {
			t.Fail("remembered", ex, "the fault is gone, but adding fails: %v", err)
			continue
		}
		if !byID {
			s, err := sl.Compile(js.NewReferenceLoader("http://added.test/"))
			if err != nil {
				t.Fail("remembered", ex, "the added document does not compile: %v", err)
				continue
			}
			for d, want := range map[string]bool{`"ab"`: true, `"a"`: false, `5`: false} {
				if res, err := s.Validate(js.NewStringLoader(d)); err != nil || res.Valid() != want {
					t.Fail("remembered", ex, "the added document does not behave as itself on %s", d)
				}
			}
		}
		t.handles(o, ex, "at the end")
	}
}

// faultInstance: documents
func faultInstance(t *T) {
	r := t.R
	o := newIO()
	o.install()
	defer theTransport.set(nil)
	g := &Gen{r: r, draft: DH}
	schema := g.Root()
	m := Mode{Draft: DH, Auto: true, Loader: DH}
	p := compilePair(t, m, schema)
	if p == nil {
		return
	}
	for _, doc := range docsFor(r, schema, 2) {
		switch doc.(type) {
		case obj, arr, string:
		default:
			doc = arr{doc}
		}
		p.U.grey = false
		want := p.U.Eval(p.Root, doc)
		if p.U.grey {
			continue
		}
		u := pick(r, "http://h.test/d.json", "file:///virtual/d.json", "http://h.test/d.json#", "file:///virtual/d.json#/a")
		txt := randText(r, doc)
		o.http["http://h.test/d.json"], o.files["/virtual/d.json"] = txt, txt
		for _, kind := range ioFaults {
			f := &Fault{At: 0, Kind: kind, Var: r.Intn(10000)}
			o.step, o.fault = 0, f
			ex := Exhibit{Schema: short(p.Text), Doc: short(txt), Extra: obj{"uri": u, "fault": kind, "var": f.Var}}
			load := func() js.JSONLoader { return js.NewReferenceLoaderFileSystem(u, o) }
			var res *js.Result
			var err error
			pkg := r.Intn(3) == 0
			if pkg {
				res, err = js.Validate(js.NewStringLoader(p.Text), load())
			} else {
				res, err = p.S.Validate(load())
			}
			t.Eval(fmt.Sprint(p.Text, txt, kind))
			t.Count("document_faults", 1)
			if !f.Hit {
				t.handles(o, ex, "after Validate")
				t.Count("not_reached", 1)
				o.fault = nil
				continue
			}
			if err == nil {
				t.Fail("swallowed", ex, "a document was validated although loading it failed")
			} else if res != nil {
				t.Fail("partial", ex, "an error comes with a result")
			}
			t.handles(o, ex, "after Validate")
			o.fault = nil
			res, err = p.S.Validate(load())
			if err != nil {
				t.Fail("remembered", ex, "the fault is gone, but validation fails: %v", err)
			} else if d := diffRecs(recsOfModel(want), recsOf(res)); d != "" {
				t.Fail("remembered", ex, "after a fault the result differs: %s", d)
			}
			t.handles(o, ex, "after Validate")
			// a schema that cannot be loaded, for both package functions
			o.step, o.fault = 0, &Fault{At: 0, Kind: kind, Var: f.Var}
			if s, err := js.NewSchema(load()); err == nil || s != nil {
				t.Fail("swallowed", ex, "NewSchema: schema %v error %v", s != nil, err)
			}
			o.step, o.fault = 0, &Fault{At: 0, Kind: kind, Var: f.Var}
			if res, err := js.Validate(load(), js.NewStringLoader("{}")); err == nil || res != nil {
				t.Fail("swallowed", ex, "Validate with a schema that cannot be loaded: result %v error %v", res != nil, err)
			}
			t.handles(o, ex, "after NewSchema")
		}
	}
}

// faultFiles: real files
func faultFiles(t *T) {
	r := t.R
	w := newWorld(r, modeFor(r, randDraft(r)), WOpt{Kinds: []int{wFile, wFile, wAdd}, Roots: []int{wFile}, MaxDocs: 3, NoIDs: r.Intn(2) == 0}, t.Dir)
	defer w.cleanup()
	root := w.rootNode()
	w.U.grey = false
	w.U.Used = map[string]bool{}
	if wf := w.U.WellFormed(root); wf != "" || w.U.grey {
		return
	}
	before := openFiles(t.Dir)
	for di, d := range w.Docs {
		if d.Kind != wFile || di > 0 && !w.U.Used[d.URI] {
			continue
		}
		p, _ := url.PathUnescape(strings.TrimPrefix(d.URI, "file://"))
		for _, kind := range []string{"missing", "directory", "truncated", "empty", "binary", "dangling link"} {
			ex := func() map[string]interface{} {
				e := w.show()
				e["fault"] = kind + " " + p
				return e
			}
			sl, err := w.loader()
			if err != nil {
				t.Fail("add", ex(), "cannot be added: %v", err)
				return
			}
			os.Remove(p)
			switch kind {
			case "directory":
				os.Mkdir(p, 0755)
			case "truncated":
				os.WriteFile(p, []byte(strings.TrimSpace(d.text)[:len(strings.TrimSpace(d.text))/2]), 0644)
			case "empty":
				os.WriteFile(p, nil, 0644)
			case "binary":
				os.WriteFile(p, []byte("\x00\xff\xfe{"), 0644)
			case "dangling link":
				os.Symlink(filepath.Join(t.Dir, "no-such-file"), p)
			}
			s, err := sl.Compile(w.rootLoader())
			t.Eval(fmt.Sprint(w.Docs[0].text, p, kind))
			t.Count("real_file_faults", 1)
			if err == nil || s != nil {
				t.Fail("swallowed", ex(), "compiling with a %s file: schema %v error %v", kind, s != nil, err)
			}
			if n := openFiles(t.Dir); n > before {
				t.Fail("leak", ex(), "%d files were open before, %d after", before, n)
				before = n
			}
			os.Remove(p)
			os.WriteFile(p, []byte(d.text), 0644)
			s, err = sl.Compile(w.rootLoader())
			if err != nil {
				t.Fail("remembered", ex(), "the file is there again, but compiling fails: %v", err)
			} else {
				w.checkDocs(t, s, root, 1, cmpVerdict, ex)
			}
			if n := openFiles(t.Dir); n > before {
				t.Fail("leak", ex(), "%d files were open before, %d after", before, n)
				before = n
			}
		}
	}
}

// faultMeta: the meta-schema cannot be loaded
func faultMeta(t *T) {
	r := t.R
	o := newIO()
	o.install()
	defer theTransport.set(nil)
	o.http["http://meta.test/m.json"] = `{"$schema":"http://json-schema.org/draft-07/schema#","properties":{"x-v":{"$ref":"part.json#/definitions/v"},"type":{"$ref":"http://json-schema.org/draft-07/schema#/properties/type"}}}`
	o.http["http://meta.test/part.json"] = `{"$schema":"http://json-schema.org/draft-07/schema#","definitions":{"v":{"type":"integer","minimum":3}}}`
	good := r.Intn(2) == 0
	body := obj{"$schema": "http://meta.test/m.json", "type": "integer", "properties": obj{"a": obj{"$ref": "other.json"}}}
	if good {
		body["x-v"] = num(3 + r.Intn(3))
	} else {
		body["x-v"] = num(r.Intn(3))
	}
	o.http["http://s.test/root.json"] = text(body)
	o.http["http://s.test/other.json"] = `{"type":"null"}`
	count := func() int {
		o.step, o.fault = 0, nil
		sl := js.NewSchemaLoader()
		sl.Validate = true
		s, err := sl.Compile(js.NewReferenceLoader("http://s.test/root.json"))
		if (err == nil) != good || (s != nil) != good {
			t.Fail("compile", obj{"schema": body}, "without faults: expected accepted=%v, observed %v", good, err)
		}
		return o.step
	}
	steps := count()
	for i := 0; i < steps; i++ {
		for _, kind := range ioFaults {
			sl := js.NewSchemaLoader()
			sl.Validate = true
			f := &Fault{At: i, Kind: kind, Var: r.Intn(1000)}
			o.step, o.fault = 0, f
			s, err := sl.Compile(js.NewReferenceLoader("http://s.test/root.json"))
			ex := obj{"schema": body, "fault": fmt.Sprintf("step %d %s at %s", i, kind, f.Where)}
			t.Eval(fmt.Sprint("meta", text(body), i, kind))
			t.Count("meta_faults", 1)
			if f.Hit && (err == nil || s != nil) {
				t.Fail("swallowed", ex, "compiling succeeded although loading %s failed", f.Where)
			}
			t.handles(o, ex, "after a fault")
			o.fault = nil
			s, err = sl.Compile(js.NewReferenceLoader("http://s.test/root.json"))
			if (err == nil) != good || (s != nil) != good {
				t.Fail("remembered", ex, "the fault is gone: expected accepted=%v, observed %v", good, err)
			}
			t.handles(o, ex, "after the retry")
		}
	}
}

// faultStream: readers and writers that fail
func faultStream(t *T) {
	r := t.R
	doc := genValue(r, 3)
	switch doc.(type) {
	case obj, arr, string:
	default:
		doc = arr{doc}
	}
	txt := strings.TrimSpace(randText(r, doc))
	cut := r.Intn(len(txt))
	s, err := js.NewSchema(js.NewStringLoader("{}"))
	if err != nil {
		t.Fail("compile", nil, "%v", err)
		return
	}
	var l js.JSONLoader
	ex := obj{"document": txt, "delivered": cut}
	if r.Intn(2) == 0 {
		ld, rd := js.NewReaderLoader(&failReader{txt[:cut], readErrors[r.Intn(len(readErrors))], r.Intn(2) == 0, nil})
		l = ld
		if _, err := io.Copy(io.Discard, rd); err == nil {
			t.Fail("swallowed", ex, "the reader wrapper hid a read error")
		}
	} else {
		pr := &limitedWriter{n: cut}
		ld, wr := js.NewWriterLoader(pr)
		l = ld
		if _, err := io.Copy(wr, strings.NewReader(txt)); err == nil {
			t.Fail("swallowed", ex, "the writer wrapper hid a write error")
		}
		if string(pr.got) != txt[:cut] {
			t.Fail("swallowed", ex, "the writer received %q", pr.got)
		}
		// whether the part that could not be written is known to the loader is left open
		t.Count("stream_faults", 1)
		t.Eval(fmt.Sprint("writer", txt, cut))
		return
	}
	res, err := s.Validate(l)
	t.Eval(fmt.Sprint("reader", txt, cut))
	t.Count("stream_faults", 1)
	if err == nil || res != nil {
		t.Fail("swallowed", ex, "a document of which only a part arrived was validated")
	}
}

type limitedWriter struct {
	n   int
	got []byte
}

func (w *limitedWriter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		n := w.n
		w.got = append(w.got, p[:n]...)
		w.n = 0
		return n, io.ErrShortWrite
	}
	w.n -= len(p)
	w.got = append(w.got, p...)
	return len(p), nil
}
