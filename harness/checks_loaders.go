package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing/iotest"
	"time"

	js "github.com/xeipuuv/gojsonschema"
)

// source is one way of delivering a text
type source struct {
	name string
	l    js.JSONLoader
	// again tells whether the loader can be used more than once
	again bool
	// check looks at the source after use
	check func() string
}

var fileNames = []string{"d.json", "a b.json", "x+y", "p%q.json", "é漢.json", "q?x", "h#h.json", "d", "UPPER.JSON", "a;b,c", "100%25.json", "~tilde", "sub dir/in.json", "'quote'", "[x]", "a&b=c", "\U0001F600.json", "a:b", "@", "$id.json", "`"}

func fileURL(p string) string { return "file://" + (&url.URL{Path: p}).EscapedPath() }

// sources delivers a text in all ways a text can be delivered
func sources(t *T, txt string, o *IO) ([]source, func()) {
	r := t.R
	var l []source
	b := []byte(txt)
	keep := string(b)
	l = append(l, source{"string", js.NewStringLoader(txt), true, nil})
	l = append(l, source{"bytes", js.NewBytesLoader(b), true, func() string {
		if string(b) != keep {
			return "the bytes of the bytes loader changed"
		}
		return ""
	}})
	// reader
	var rd io.Reader = strings.NewReader(txt)
	switch r.Intn(4) {
	case 0:
		if len(txt) < 5000 {
			rd = iotest.OneByteReader(rd)
		}
	case 1:
		rd = iotest.HalfReader(rd)
	case 2:
		rd = iotest.DataErrReader(rd)
	}
	rl, tee := js.NewReaderLoader(rd)
	passed, err := io.ReadAll(tee)
	if string(passed) != txt || err != nil {
		t.Fail("tee", obj{"text": short(txt), "passed": short(string(passed))}, "the reader wrapper changed the bytes (%v)", err)
	}
	l = append(l, source{"reader", rl, false, nil})
	// writer
	var sink bytes.Buffer
	wl, w := js.NewWriterLoader(&sink)
	for rest := b; len(rest) > 0; {
		n := 1 + r.Intn(len(rest))
		if m, err := w.Write(rest[:n:n]); err != nil || m != n {
			t.Fail("tee", obj{"text": short(txt)}, "the writer wrapper wrote %d of %d bytes: %v", m, n, err)
		}
		rest = rest[n:]
	}
	if sink.String() != txt {
		t.Fail("tee", obj{"text": short(txt), "passed": short(sink.String())}, "the writer wrapper changed the bytes")
	}
	l = append(l, source{"writer", wl, false, nil})
	// real file
	name := fileNames[r.Intn(len(fileNames))]
	p := filepath.Join(t.Dir, fmt.Sprint(t.Idx), name)
	writeFile(p, txt)
	l = append(l, source{"file", js.NewReferenceLoader(fileURL(p) + pick(r, "", "", "#")), true, func() string {
		if c, _ := os.ReadFile(p); string(c) != txt {
			return "the file changed"
		}
		return ""
	}})
	// custom file system
	vp := "/virtual/" + fileNames[r.Intn(len(fileNames))]
	o.files[vp] = txt
	l = append(l, source{"fs", js.NewReferenceLoaderFileSystem(fileURL(vp)+pick(r, "", "", "#"), o), true, nil})
	// HTTP
	hu := (&url.URL{Scheme: pick(r, "http", "https"), Host: pick(r, "h.test", "h.test:8080", "127.0.0.1:1", "[::1]"), Path: "/" + fileNames[r.Intn(len(fileNames))], RawQuery: pick(r, "", "", "a=b&c=%20")}).String()
	o.http[hu] = txt
	if r.Intn(2) == 0 {
		l = append(l, source{"http", js.NewReferenceLoader(hu + pick(r, "", "", "#")), true, nil})
	} else {
		l = append(l, source{"http+fs", js.NewReferenceLoaderFileSystem(hu, o), true, nil})
	}
	return l, func() { os.RemoveAll(filepath.Join(t.Dir, fmt.Sprint(t.Idx))) }
}

// valueSources delivers a value that is decoded already
func valueSources(v interface{}) []source {
	c, g := clone(v), clone(v)
	key := exactKey(v)
	raw := js.NewRawLoader(c)
	return []source{
		{"raw", raw, true, func() string {
			if exactKey(c) != key {
				return "the value of the raw loader changed to " + text(c)
			}
			return ""
		}},
		{"go", js.NewGoLoader(g), true, func() string {
			if exactKey(g) != key {
				return "the value of the Go loader changed to " + text(g)
			}
			return ""
		}},
	}
}

type goStruct struct {
	Name   string                 `json:"name"`
	Count  int64                  `json:"count,omitempty"`
	Ratio  float64                `json:"ratio"`
	Hidden string                 `json:"-"`
	Opt    *goStruct              `json:"opt,omitempty"`
	List   []interface{}          `json:"list"`
	Map    map[string]interface{} `json:"map"`
	Raw    json.RawMessage        `json:"raw,omitempty"`
	When   time.Time              `json:"when"`
	Bytes  []byte                 `json:"bytes"`
	Quoted int                    `json:"quoted,string"`
	IntMap map[int]string         `json:"intMap"`
	Num    json.Number            `json:"num,omitempty"`
	HTML   string                 `json:"html"`
	Odd    odd                    `json:"odd"`
	unexp  int
}

// odd encodes itself
type odd int

// MarshalJSON implements json.Marshaler
func (o odd) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(`[%d.00, {"o":1e%d}]`, int(o), int(o))), nil
}

func goValue(r *rand.Rand, depth int) interface{} {
	switch r.Intn(16) {
	case 0:
		return r.Int63() - r.Int63()
	case 1:
		return r.Uint64()
	case 2:
		return []float64{0, 1, 1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, -1e21, 1e20, 123456789.123, 1e-7, 9007199254740993}[r.Intn(10)]
	case 3:
		return float32(r.NormFloat64())
	case 4:
		return []byte(genString(r))
	case 5:
		s := genString(r)
		return &s
	case 6:
		var p *int
		return p
	case 7:
		return map[int]string{r.Intn(5): genString(r), 7: "x"}
	case 8:
		return []string{genString(r), "<&>\u2028"}
	case 9:
		return [3]bool{true, false, true}
	case 10:
		return json.RawMessage(`{"raw": [1.00, 1e3]}`)
	case 11:
		return json.Number(genNum(r))
	case 12:
		return odd(r.Intn(9))
	case 13:
		return int8(r.Intn(256) - 128)
	case 14:
		return genValue(r, 2)
	}
	if depth == 0 {
		return uint8(r.Intn(256))
	}
	g := &goStruct{Name: genString(r), Count: int64(r.Intn(3)), Ratio: r.NormFloat64() * 1e10, Hidden: "h", List: []interface{}{goValue(r, depth-1), nil}, Map: map[string]interface{}{"k": goValue(r, depth-1), genKey(r): 1},
		When: time.Unix(r.Int63n(4e9), 0).UTC(), Bytes: []byte{1, 2, 255}, Quoted: r.Intn(100), IntMap: map[int]string{-1: "a"}, HTML: "<b>&", Odd: odd(r.Intn(5)), unexp: 1}
	if r.Intn(2) == 0 {
		g.Opt, _ = goValue(r, 0).(*goStruct)
		g.Raw = json.RawMessage(`[0.10]`)
		g.Num = "12.50"
	}
	if r.Intn(2) == 0 {
		return *g
	}
	return g
}

var badTexts = []string{"", " ", "\n\t", "nul", "tru", "fals", "{", "[", "[1,", `{"a"`, `{"a":`, `{"a":1`, `{"a":1,`, `"abc`, `'a'`, "<html></html>", "NaN", "-", "+1", ".5", "e5", "-x", "Infinity", "undefined", "\ufeff{}", "//c\n1", "/**/1", "}", "]", ",1", ":", "{a:1}", `{"a":1,}`, `[1,]`, `[1 2]`, `{"a" 1}`, `{1:2}`, `["\x"]`, `["\u12"]`, "[\"a\nb\"]", "[\"\x01\"]", "[01]", "[1.]", "[.5]", "[1e]", "[+1]", "[--1]", "[0x1]", "\x00", "\xff\xfe", "[tru]", "[nulll]", `{"a":undefined}`, "{]", "[}", "[1,,2]", `{"a":1,,"b":2}`, "<?xml?>", "key: value", "# c\n{}", "[1_000]", `{"a":1 "b":2}`, `["a" "b"]`, "[True]", "None", "\\", "`1`", "[\"\\ud800\"", "{\"a\":1\x00", "[\"tab\tin string\"]"}

func init() {
	register(&Check{ID: "C14",
		Rule:   "a case delivers one JSON text through every loader (string, bytes, reader, writer, real file, custom file system, HTTP, raw, Go, raw with the objects of a YAML decoder) as document and as schema, and texts that are no JSON to all of them; an evaluation is one loaded value, outcome or refusal compared with the original value (numbers compared by their digits) and the oracle; distinct: different (loader, text)",
		Assume: []string{assumeModel, "encoding/json decides whether a text starts with a JSON value and how a Go value is encoded"},
		Quick:  12000, Thorough: 250000,
		Need: []string{"string", "bytes", "reader", "writer", "file", "fs", "http", "http+fs", "raw", "go", "refused", "go_values", "go_refused", "yaml", "schemas", "big", "repeated", "accepted", "rejected"},
		Run:  runLoaders})
}

func runLoaders(t *T) {
	r := t.R
	o := newIO()
	o.install()
	defer theTransport.set(nil)

	// documents
	d := randDraft(r)
	schema := (&Gen{r: r, draft: d}).Root()
	p := compilePair(t, modeFor(r, d), schema)
	if p == nil {
		return
	}
	doc := docsFor(r, schema, 1)[0]
	if r.Intn(2) == 0 {
		doc = genValue(r, 4)
	}
	if r.Intn(150) == 0 {
		// much larger than any buffer
		doc = obj{"big": strings.Repeat(genString(r)+"x", 20000), "a": doc, "n": json.Number(strings.Repeat("1234567890", 3000))}
		t.Count("big", 1)
	}
	if r.Intn(50) == 0 {
		for i := 100 + r.Intn(300); i > 0; i-- {
			doc = arr{doc}
		}
	}
	txt := randText(r, doc)
	p.U.grey = false
	want := p.U.Eval(p.Root, doc)
	grey := p.U.grey
	ss, clean := sources(t, txt, o)
	defer clean()
	ss = append(ss, valueSources(doc)...)
	if t.Idx < 3 {
		t.Sample(obj{"text": short(txt), "loaders": len(ss)})
	}
	any, err := js.NewSchema(js.NewStringLoader(`{"not":{}}`))
	if err != nil {
		t.Fail("compile", nil, "%v", err)
		return
	}
	first := ""
	for _, s := range ss {
		ex := Exhibit{Schema: short(p.Text), Doc: short(txt), Extra: s.name}
		t.Eval(s.name + txt)
		t.Count(s.name, 1)
		if !s.again {
			// the one use it has: half of the time for its value, half of the time for validation
			if r.Intn(2) == 0 {
				v, err := s.l.LoadJSON()
				if err != nil || exactKey(v) != exactKey(doc) {
					ex.Got = short(text(v))
					t.Fail("value", ex, "the %s loader delivers another value (%v)", s.name, err)
				}
				continue
			}
		} else {
			for i := 1 + r.Intn(2); i > 0; i-- {
				v, err := s.l.LoadJSON()
				if err != nil || exactKey(v) != exactKey(doc) {
					ex.Got = short(text(v))
					t.Fail("value", ex, "the %s loader delivers another value (%v)", s.name, err)
				}
				if i > 1 {
					t.Count("repeated", 1)
				}
			}
			// the value itself comes back in the error
			res, err := any.Validate(s.l)
			if err != nil || len(res.Errors()) != 1 || exactKey(res.Errors()[0].Value()) != exactKey(doc) {
				t.Fail("value", ex, "the value of a document delivered by the %s loader is not reported as it is (%v)", s.name, err)
			}
		}
		res, err := p.S.Validate(s.l)
		if err != nil {
			t.Fail("outcome", ex, "a document delivered by the %s loader cannot be validated: %v", s.name, err)
			continue
		}
		if !grey {
			if want.Valid() {
				t.Count("accepted", 1)
			} else {
				t.Count("rejected", 1)
			}
			if df := diffRecs(recsOfModel(want), recsOf(res)); df != "" {
				t.Fail("outcome", ex, "delivered by the %s loader: %s", s.name, df)
			}
		}
		k := recKeys(res)
		if first == "" {
			first = s.name + "\x00" + k
		} else if i := strings.IndexByte(first, 0); first[i+1:] != k {
			t.Fail("outcome", ex, "delivered by the %s loader the errors differ from those of the %s loader: %s", s.name, first[:i], k)
		}
		if s.check != nil {
			if c := s.check(); c != "" {
				t.Fail("source", ex, "%s", c)
			}
		}
	}

	yamlDocument(t, p, doc, txt, want, grey)

	// schemas
	m := Mode{Draft: d, Auto: true, Loader: d}
	sv := (&Gen{r: r, draft: d}).Root()
	stxt := randText(r, sv)
	u, root := m.root(sv)
	docs := docsFor(r, sv, 3)
	o2 := newIO()
	o2.install()
	sch, clean2 := sources(t, stxt, o2)
	defer clean2()
	sch = append(sch, valueSources(sv)...)
	for _, s := range sch {
		ex := Exhibit{Mode: m.String(), Schema: short(stxt), Extra: s.name}
		t.Eval("schema " + s.name + stxt)
		t.Count("schemas", 1)
		c, err := m.loader().Compile(s.l)
		if err != nil {
			t.Fail("schema", ex, "a schema delivered by the %s loader does not compile: %v", s.name, err)
			continue
		}
		for _, doc := range docs {
			u.grey = false
			want := u.Eval(root, doc)
			if u.grey {
				continue
			}
			res, err := c.Validate(docLoader(r, doc))
			if err != nil {
				t.Fail("schema", ex, "validation failed: %v", err)
			} else if df := diffRecs(recsOfModel(want), recsOf(res)); df != "" {
				ex.Doc = short(text(doc))
				t.Fail("schema", ex, "a schema delivered by the %s loader behaves differently: %s", s.name, df)
			}
		}
		if s.check != nil && s.name != "raw" {
			if c := s.check(); c != "" {
				t.Fail("source", ex, "%s", c)
			}
		}
	}
	clean2()

	// not JSON
	bad := badTexts[r.Intn(len(badTexts))]
	switch r.Intn(3) {
	case 0:
		// a text that ends too early
		c := strings.TrimSpace(randText(r, arr{doc, obj{"a": genValue(r, 2)}}))
		if len(c) < 100000 {
			bad = c[:r.Intn(len(c))]
		}
	case 1:
		// a text with a wrong byte
		c := []byte(strings.TrimSpace(randText(r, arr{genValue(r, 3)})))
		c[r.Intn(len(c))] = "{}[],:\"x1\\\x00 \xff-"[r.Intn(14)]
		bad = string(c)
	}
	var dummy interface{}
	dec := json.NewDecoder(strings.NewReader(bad))
	dec.UseNumber()
	if dec.Decode(&dummy) != nil {
		o3 := newIO()
		o3.install()
		bs, clean3 := sources(t, bad, o3)
		for _, s := range bs {
			t.Eval("bad " + s.name + bad)
			t.Count("refused", 1)
			ex := Exhibit{Doc: short(bad), Extra: s.name}
			switch r.Intn(3) {
			case 0:
				if v, err := s.l.LoadJSON(); err == nil || v != nil {
					t.Fail("refused", ex, "the %s loader delivers %v (%v) for a text that is not JSON", s.name, v, err)
				}
			case 1:
				if res, err := any.Validate(s.l); err == nil || res != nil {
					t.Fail("refused", ex, "a text that is not JSON was validated (%s loader)", s.name)
				}
			default:
				if c, err := js.NewSchema(s.l); err == nil || c != nil {
					t.Fail("refused", ex, "a text that is not JSON was compiled (%s loader)", s.name)
				}
			}
		}
		clean3()
	}

	// Go values
	gv := goValue(r, 2)
	enc, err := json.Marshal(gv)
	if err != nil {
		return
	}
	same := mustParse(string(enc))
	gl := js.NewGoLoader(gv)
	ex := Exhibit{Doc: short(string(enc)), Extra: fmt.Sprintf("%T", gv)}
	t.Eval(fmt.Sprintf("go %T %s", gv, enc))
	t.Count("go_values", 1)
	v, err := gl.LoadJSON()
	if err != nil || exactKey(v) != exactKey(same) {
		ex.Got = text(v)
		t.Fail("go", ex, "a Go value is not equivalent to its JSON encoding (%v)", err)
	}
	if !reflect.DeepEqual(gl.JsonSource(), gv) {
		t.Fail("go", ex, "the source of the Go loader changed")
	}
	p.U.grey = false
	want = p.U.Eval(p.Root, same)
	if !p.U.grey {
		res, err := p.S.Validate(gl)
		if err != nil {
			t.Fail("go", ex, "a Go value cannot be validated: %v", err)
		} else if df := diffRecs(recsOfModel(want), recsOf(res)); df != "" {
			t.Fail("go", ex, "a Go value is not treated like its encoding: %s", df)
		}
	}
	for _, b := range []interface{}{math.NaN(), math.Inf(1), func() {}, make(chan int), map[string]interface{}{"a": func() {}}, struct{ F func() }{func() {}}, json.RawMessage("{"), json.Number("x"), complex(1, 2), map[bool]int{true: 1}} {
		if _, err := json.Marshal(b); err == nil {
			continue
		}
		t.Count("go_refused", 1)
		if v, err := js.NewGoLoader(b).LoadJSON(); err == nil || v != nil {
			t.Fail("go", nil, "a %T that has no JSON encoding was loaded", b)
		}
		if res, err := any.Validate(js.NewGoLoader(b)); err == nil || res != nil {
			t.Fail("go", nil, "a %T that has no JSON encoding was validated", b)
		}
	}
}

// yamlish is the value as a YAML decoder would give it: the objects are map[interface{}]interface{}
func yamlish(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := map[interface{}]interface{}{}
		for k, e := range x {
			m[k] = yamlish(e)
		}
		return m
	case []interface{}:
		l := make([]interface{}, len(x))
		for i, e := range x {
			l[i] = yamlish(e)
		}
		return l
	}
	return v
}

// yamlDocument: an object decoded that way is the same document
func yamlDocument(t *T, p *Pair, doc interface{}, txt string, want *MRes, grey bool) {
	if _, ok := doc.(obj); !ok || grey {
		return
	}
	src := yamlish(doc)
	t.Count("yaml", 1)
	t.Eval("yaml" + txt)
	ex := Exhibit{Schema: short(p.Text), Doc: short(txt), Extra: "objects as map[interface{}]interface{}"}
	res, err := p.S.Validate(js.NewRawLoader(src))
	if err != nil {
		t.Fail("outcome", ex, "a document with objects as a YAML decoder gives them cannot be validated: %v", err)
		return
	}
	var a, b []string
	for _, e := range want.Errs {
		ctx, _ := contextString(e.Path)
		a = append(a, e.Type+" "+ctx)
	}
	for _, e := range res.Errors() {
		b = append(b, e.Type()+" "+e.Context().String())
	}
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, "\n") != strings.Join(b, "\n") || res.Valid() != want.Valid() {
		t.Fail("outcome", ex, "with objects as a YAML decoder gives them the errors are %q instead of %q", b, a)
	}
	if !reflect.DeepEqual(src, yamlish(doc)) {
		t.Fail("source", ex, "the source with objects as a YAML decoder gives them changed")
	}
}
