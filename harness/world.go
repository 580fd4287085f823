package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	js "github.com/xeipuuv/gojsonschema"
)

// ---------- recorded I/O ----------

// IO is the stand-in for everything a loader can reach: an HTTP transport and a file system, both of
// which record every step and can be told to fail.
type IO struct {
	mu      sync.Mutex
	http    map[string]string // URL -> body
	files   map[string]string // path -> content, for the custom file system
	Fetches map[string]int    // URL or "fs:" path -> number of fetches
	Order   []string
	opened  int
	noted   int
	closed  int
	twice   int // closed more often than opened
	reads   int
	afterC  int // reads after close
	fault   *Fault
	step    int // counts the faultable steps
	dup     bool
}

// Fault makes one step of the I/O go wrong
type Fault struct {
	At    int    // index of the step, -1: none
	Kind  string // see below
	Var   int    // varies where and how exactly
	Hit   bool
	Where string
}

var httpCodes = []int{500, 404, 204, 301, 201, 203, 206, 304, 401, 503, 202, 299, 400, 302}

var readErrors = []error{errors.New("injected: read failed"), io.ErrUnexpectedEOF, os.ErrClosed, io.ErrClosedPipe, os.ErrDeadlineExceeded, io.ErrNoProgress}

var ioFaults = []string{"open", "read", "readend", "short", "garbage", "status", "notjson", "empty"}

func newIO() *IO {
	return &IO{http: map[string]string{}, files: map[string]string{}, Fetches: map[string]int{}}
}

func (o *IO) install() { theTransport.set(o) }

type transport struct {
	mu sync.RWMutex
	o  *IO
}

func (t *transport) set(o *IO) {
	t.mu.Lock()
	t.o = o
	t.mu.Unlock()
}

var theTransport = &transport{}

func init() {
	http.DefaultTransport = theTransport
}

func (t *transport) RoundTrip(req *http.Request) (*http.Response, error) {
	t.mu.RLock()
	o := t.o
	t.mu.RUnlock()
	if o == nil {
		return nil, errors.New("no network here")
	}
	return o.roundTrip(req)
}

// next returns the fault that applies to this step
func (o *IO) next(where string) string {
	i := o.step
	o.step++
	if o.fault != nil && o.fault.At == i {
		o.fault.Hit = o.fault.Kind != "readend" // that one is hit when somebody reads so far
		o.fault.Where = where
		return o.fault.Kind
	}
	return ""
}

func (o *IO) roundTrip(req *http.Request) (*http.Response, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	u := *req.URL
	key := u.String()
	if i := strings.IndexByte(key, '#'); i >= 0 {
		key = key[:i]
	}
	o.Fetches[key]++
	o.Order = append(o.Order, key)
	kind := o.next(key)
	if kind == "open" {
		return nil, errors.New("injected: connection refused")
	}
	body, ok := o.http[key]
	status := 200
	if !ok {
		status, body = 404, `{"error":"not found"}`
	}
	if kind == "status" {
		status = httpCodes[o.fault.Var%len(httpCodes)]
	}
	resp := &http.Response{StatusCode: status, Status: fmt.Sprintf("%d X", status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req, ContentLength: -1}
	b := o.body(body, kind)
	resp.Body = b
	if o.opened%2 == 0 {
		// announced, as most servers do
		resp.ContentLength = int64(len(body))
		if kind == "empty" {
			resp.ContentLength = 0
		}
		resp.Header.Set("Content-Length", strconv.FormatInt(resp.ContentLength, 10))
		resp.Header.Set("Content-Type", "application/schema+json")
	}
	return resp, nil
}

type ioBody struct {
	o      *IO
	r      io.Reader
	closed bool
	chunk  int
	stat   int64
	name   string
}

// failReader delivers a text and then an error, possibly together
type failReader struct {
	text     string
	err      error
	together bool
	hit      *Fault
}

func (f *failReader) Read(p []byte) (int, error) {
	n := copy(p, f.text)
	f.text = f.text[n:]
	if f.text == "" && (f.together || n == 0) {
		if f.hit != nil {
			f.hit.Hit = true
		}
		return n, f.err
	}
	return n, nil
}

func (o *IO) body(text, kind string) *ioBody {
	o.opened++
	var r io.Reader = strings.NewReader(text)
	switch kind {
	case "read":
		v := 0
		if o.fault != nil {
			v = o.fault.Var
		}
		whole := strings.TrimSpace(text)
		r = &failReader{whole[:v%len(whole)], readErrors[v%len(readErrors)], v%2 == 0, nil}
	case "readend": // everything arrives, but the end is an error
		v := 0
		if o.fault != nil {
			v = o.fault.Var
		}
		r = &failReader{text, readErrors[v%len(readErrors)], false, o.fault}
	case "short":
		if len(text) > 0 {
			// no proper prefix of an object, array or string is a JSON value
			r = strings.NewReader(strings.TrimSpace(text)[:len(strings.TrimSpace(text))-1])
		}
	case "garbage":
		r = strings.NewReader("}{" + text)
	case "notjson":
		r = strings.NewReader("<html>" + text + "</html>")
	case "empty":
		r = strings.NewReader("")
	}
	return &ioBody{o: o, r: r, chunk: 1 + (o.opened*37)%97, stat: int64(len(text))}
}

func (b *ioBody) Read(p []byte) (int, error) {
	b.o.mu.Lock()
	defer b.o.mu.Unlock()
	b.o.reads++
	if b.closed {
		b.o.afterC++
		return 0, errors.New("read after close")
	}
	if len(p) > b.chunk {
		p = p[:b.chunk]
	}
	return b.r.Read(p)
}

func (b *ioBody) Close() error {
	b.o.mu.Lock()
	defer b.o.mu.Unlock()
	if b.closed {
		b.o.twice++
		return nil
	}
	b.closed = true
	b.o.closed++
	return nil
}

// ioFile is the same as a file of a http.FileSystem
type ioFile struct{ *ioBody }

func (f ioFile) Seek(int64, int) (int64, error)     { return 0, errors.New("not seekable") }
func (f ioFile) Readdir(int) ([]os.FileInfo, error) { return nil, errors.New("not a directory") }
func (f ioFile) Stat() (os.FileInfo, error)         { return ioStat{f.ioBody}, nil }

type ioStat struct{ b *ioBody }

func (s ioStat) Name() string       { return filepath.Base(s.b.name) }
func (s ioStat) Size() int64        { return s.b.stat }
func (s ioStat) Mode() fs.FileMode  { return 0444 }
func (s ioStat) ModTime() time.Time { return time.Time{} }
func (s ioStat) IsDir() bool        { return false }
func (s ioStat) Sys() interface{}   { return nil }

// Open implements http.FileSystem
func (o *IO) Open(name string) (http.File, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	key := "fs:" + name
	o.Fetches[key]++
	o.Order = append(o.Order, key)
	kind := o.next(key)
	if kind == "open" || kind == "status" {
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrPermission}
	}
	text, ok := o.files[name]
	if !ok {
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
	}
	b := o.body(text, kind)
	b.name = name
	return ioFile{b}, nil
}

// balance describes open handles
func (o *IO) balance() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.opened != o.closed {
		return fmt.Sprintf("%d opened, %d closed", o.opened, o.closed)
	}
	if o.afterC > 0 {
		return fmt.Sprintf("%d reads after close", o.afterC)
	}
	return ""
}

// ---------- worlds of documents that refer to each other ----------

// kinds of delivery of a document
const (
	wText    = iota // the root, as text, without a URL
	wAdd            // AddSchema(url, ...)
	wAddByID        // AddSchemas(...), identified by its root id
	wHTTP
	wFile // real file, file:// URL
	wFS   // file:// URL in the custom file system
)

var wKindName = []string{"text", "add", "add-by-id", "http", "file", "fs"}

// WDoc is a document
type WDoc struct {
	URI      string // retrieval URI ("" for wText, wAddByID)
	Kind     int
	Root     interface{}
	Nodes    []*WNode
	Declared string // $schema
	M        *MDoc
	strict   bool // identifiers of the other drafts can be used as decoys
	rootBase string
	text     string
}

// WNode is a schema that can be referred to
type WNode struct {
	Tag    string
	V      interface{} // obj, or bool
	Doc    *WDoc
	Inner  bool
	Lit    interface{} // what the document holds, if not the tag
	Alias  *WNode      // the node is just a reference to another one
	Any    bool
	None   bool
	Base   string   // base URI for references inside of it
	Local  []string // absolute URIs that designate it, usable within the document
	Global []string // usable from other documents
	Edges  []wEdge
	idx    int
}

type wEdge struct {
	key string
	f   func(interface{}) interface{}
	to  *WNode
}

// World is a set of documents and the oracle's view of it
type World struct {
	r       *rand.Rand
	Mode    Mode
	Docs    []*WDoc
	Nodes   []*WNode
	U       *Universe
	IO      *IO
	dir     string
	n       int
	ids     map[string]bool
	Opt     WOpt
	Entry   *WNode // the schema to compile
	EntryAt string // its URI, if it is not the text root
	Refs    int
	forms   map[string]int
	sources []*refSite
	scratch []string
}

// WOpt restricts the generator
type WOpt struct {
	Kinds   []int // delivery of the documents besides the root
	Roots   []int // delivery of the root
	MaxDocs int
	NoIDs   bool
	FS      bool // the root always comes with the custom file system, unless it is text
	// DraftOf gives every document its own draft
	DraftOf func(i int) int
}

type refSite struct {
	holder obj // object with the $ref
	from   *WNode
	to     *WNode
}

var nastyKeys = []string{"a", "b", "c", "foo bar", "a/b", "m~n", "per%cent", "q\"t", "é", "漢", "$ref", "$id", "id", "definitions", "properties", "const", "enum", "0", "1", "-1", "01", "~0", "~1", "~01", "%25", "a%2Fb", "x+y", "#", "?", "a#b", "", "items", "$schema", "^", "|", "a\\b", "{}", " ", "e\u0301", "\U0001F600"}

func (w *World) tag() string {
	w.n++
	return fmt.Sprintf("T%d", w.n)
}

func idKey(r *rand.Rand, draft int) string {
	switch draft {
	case D4:
		return "id"
	case DH:
		return pick(r, "id", "$id")
	}
	return "$id"
}

func escToken(r *rand.Rand, tok string) string {
	tok = strings.ReplaceAll(strings.ReplaceAll(tok, "~", "~0"), "/", "~1")
	var b strings.Builder
	for _, c := range tok {
		cs := string(c)
		plain := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-._~!$&'()*+,;=:@", byte(c)) >= 0 && c < 0x80
		switch {
		case plain && r.Intn(12) > 0:
			b.WriteRune(c)
		case c >= 0x80 && r.Intn(2) == 0:
			b.WriteRune(c)
		case strings.Contains(" \"^|{}[]`?", cs) && r.Intn(3) > 0:
			b.WriteRune(c)
		default:
			f := "%%%02x"
			if r.Intn(2) == 0 {
				f = "%%%02X"
			}
			for i := 0; i < len(cs); i++ {
				fmt.Fprintf(&b, f, cs[i])
			}
		}
	}
	return b.String()
}

func pointer(r *rand.Rand, toks []string) string {
	s := ""
	for _, t := range toks {
		s += "/" + escToken(r, t)
	}
	return s
}

// origin is a place pointers can start from
type origin struct {
	uri    string
	toks   []string // from there to the current place
	global bool
}

func ext(o []origin, toks ...string) []origin {
	l := make([]origin, len(o))
	for i, x := range o {
		l[i] = origin{x.uri, append(append([]string{}, x.toks...), toks...), x.global}
	}
	return l
}

// node builds a schema with children
func (w *World) node(d *WDoc, draft int, base string, from []origin, depth int, root bool) *WNode {
	r := w.r
	n := &WNode{Tag: w.tag(), Doc: d, idx: len(w.Nodes)}
	w.Nodes = append(w.Nodes, n)
	d.Nodes = append(d.Nodes, n)
	for _, o := range from {
		u := o.uri
		if len(o.toks) > 0 {
			u += "#" + pointer(r, o.toks)
		} else if r.Intn(4) == 0 {
			u += "#"
		}
		if o.uri == "" && len(o.toks) == 0 {
			u = "#"
		}
		n.Local = append(n.Local, u)
		if o.global {
			n.Global = append(n.Global, u)
		}
	}
	if !root && draft >= D6 && r.Intn(25) == 0 {
		n.V = r.Intn(3) > 0
		n.Any, n.None = n.V.(bool), !n.V.(bool)
		return n
	}
	s := obj{}
	n.V = s
	inner := base
	if !w.Opt.NoIDs || root {
		w.identify(n, s, d, draft, base, &inner, &from, root)
	}
	n.Base = inner
	n.Inner = root || depth > 0 && r.Intn(3) > 0
	if !n.Inner && r.Intn(5) == 0 {
		// a literal that looks like schemas
		ref := pick(r, n.Tag, n.Tag, "y.json", "#/definitions/a", "#", "http://h0.test/absent.json")
		var lit interface{} = obj{"$ref": ref, "t": n.Tag}
		for i := r.Intn(4); i > 0; i-- {
			switch r.Intn(6) {
			case 0:
				lit = arr{lit}
			case 1:
				lit = arr{nil, lit, num(i)}
			case 2:
				lit = obj{pick(r, "properties", "definitions", "dependencies", "patternProperties", "items", "allOf", "not", "const", "enum", "x"): lit}
			case 3:
				lit = obj{pick(r, "$id", "id"): "http://decoy.test/lit/" + n.Tag, "items": lit}
			case 4:
				lit = obj{"properties": obj{pick(r, "$ref", "a", "const"): lit}}
			default:
				lit = obj{"allOf": arr{lit, obj{"$ref": n.Tag}}}
			}
		}
		n.Lit = lit
		if draft >= D6 && r.Intn(2) == 0 {
			s["const"] = lit
		} else {
			s["enum"] = arr{lit}
			if r.Intn(3) == 0 {
				s["enum"] = arr{"x", lit, nil}
			}
		}
		w.forms["literal"]++
		return n
	}
	if !n.Inner {
		switch r.Intn(4) {
		case 0:
			s["type"], s["pattern"] = "string", "^"+n.Tag+"$"
		case 1:
			if draft >= D6 {
				s["const"] = n.Tag
				break
			}
			fallthrough
		default:
			s["enum"] = arr{n.Tag}
		}
		if r.Intn(8) == 0 {
			// looks like a reference or an identifier, but is data
			decoy := obj{"$ref": "#/nowhere", "$id": "http://decoy.test/" + n.Tag, "id": "http://decoy.test/" + n.Tag}
			if e, ok := s["enum"]; ok {
				s["enum"] = append(e.(arr), decoy)
			} else if _, ok := s["const"]; ok {
				s["enum"] = arr{n.Tag, decoy}
			}
		}
		return n
	}
	props := obj{"tag": obj{"enum": arr{n.Tag}}}
	s["properties"] = props
	s["required"] = arr{"tag"}
	child := func(toks ...string) interface{} {
		return w.node(d, draft, inner, ext(from, toks...), depth-1, false).V
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		k := nastyKeys[r.Intn(len(nastyKeys))]
		switch r.Intn(14) {
		case 0, 1, 2, 3, 4:
			defs, ok := s["definitions"].(obj)
			if !ok {
				defs = obj{}
				s["definitions"] = defs
			}
			if _, dup := defs[k]; !dup {
				defs[k] = child("definitions", k)
			}
		case 5, 6:
			if _, dup := props[k]; !dup && k != "tag" {
				props[k] = child("properties", k)
			}
		case 7:
			if _, dup := s["items"]; !dup {
				s["items"] = child("items")
			}
		case 8:
			if _, dup := s["items"]; !dup {
				l := arr{}
				for j := 0; j <= r.Intn(12); j++ {
					l = append(l, nil)
				}
				s["items"] = l
				for j := range l {
					l[j] = child("items", strconv.Itoa(j))
				}
			}
		case 9:
			if _, dup := s["dependencies"]; !dup {
				s["dependencies"] = obj{"zz" + k: child("dependencies", "zz"+k)}
			}
		case 10:
			if _, dup := s["patternProperties"]; !dup {
				p := pick(r, "^zz/~%", "^zz/~%", "enum", "const", "^properties", "definitions", "$ref", "items$")
				s["patternProperties"] = obj{p: child("patternProperties", p)}
			}
		case 11:
			if _, dup := s["x-defs"]; !dup {
				switch r.Intn(3) {
				case 0: // lists of lists, schemas inside of unknown keywords
					l := arr{nil, nil, "x"}
					s["x-defs"] = arr{l, nil}
					l[0] = child("x-defs", "0", "0")
					l[1] = obj{"deep": arr{arr{child("x-defs", "0", "1", "deep", "0", "0")}}}
				default:
					s["x-defs"] = arr{num(1), nil}
					s["x-defs"].(arr)[1] = child("x-defs", "1")
				}
			}
		case 12:
			kw := "x-more"
			if draft >= D7 {
				kw = pick(r, "then", "else")
			} else if draft >= D6 {
				kw = "contains"
			}
			if _, dup := s[kw]; !dup {
				s[kw] = child(kw)
			}
		case 13:
			// a property list nested in a schema-like place: x-defs/1/definitions
			if _, dup := s["additionalItems"]; !dup {
				s["additionalItems"] = child("additionalItems")
			}
		}
	}
	if d.strict && r.Intn(3) == 0 {
		switch draft {
		case D4:
			s["$id"] = pick(r, "http://decoy.test/x/", "other.json", "#zz")
		case D6, D7:
			s["id"] = pick(r, "http://decoy.test/x/", "other.json", "#zz")
		}
		w.forms["decoy_id"]++
	}
	return n
}

// identify gives a schema an identifier
func (w *World) identify(n *WNode, s obj, d *WDoc, draft int, base string, inner *string, from *[]origin, root bool) {
	r := w.r
	need := root && d.Kind == wAddByID
	if !need && r.Intn(4) > 0 {
		return
	}
	if root && w.Opt.NoIDs && !need {
		return
	}
	fetched := d.Kind >= wHTTP
	var id string
	for try := 0; ; try++ {
		if try > 50 {
			return
		}
		switch r.Intn(7) {
		case 0:
			id = fmt.Sprintf("http://i%d.test/", r.Intn(3)) + pick(r, "", "s/", "s/t/") + strings.ToLower(n.Tag) + pick(r, "", ".json", "/")
		case 1:
			id = strings.ToLower(n.Tag) + pick(r, ".json", "/", "")
		case 2:
			id = "/" + pick(r, "p/", "") + strings.ToLower(n.Tag) + pick(r, ".json", "/")
		case 3:
			id = "../" + strings.ToLower(n.Tag) + ".json"
		case 4:
			id = "?" + strings.ToLower(n.Tag)
		case 5:
			id = "//i9.test/" + strings.ToLower(n.Tag)
		case 6:
			id = "#" + pick(r, "A", "a.b", "x-", "é", "_") + n.Tag
			if draft == D4 && root {
				continue
			}
		}
		if need && (strings.HasPrefix(id, "#") || strings.HasPrefix(id, "?")) {
			continue
		}
		if need && r.Intn(4) > 0 && !strings.HasPrefix(id, "http:") {
			continue
		}
		if (root || base == "") && strings.HasPrefix(id, "?") {
			continue
		}
		if base == "" && strings.HasPrefix(id, "//") {
			continue // has no scheme: cannot be told from a path by everybody
		}
		abs, ok := resolveURI(base, id)
		if !ok || w.ids[abs] {
			continue
		}
		w.ids[abs] = true
		s[idKey(r, draft)] = id
		*inner = abs
		if strings.HasPrefix(id, "#") {
			n.Local = append(n.Local, abs)
			if !fetched || base == d.URI {
				n.Global = append(n.Global, abs)
			}
			w.forms["anchor"]++
			return
		}
		n.Local = append(n.Local, abs)
		if !fetched {
			n.Global = append(n.Global, abs)
		}
		*from = append(*from, origin{abs, nil, !fetched})
		w.forms["nested_id"]++
		return
	}
}

// relativize writes a reference from a base to an absolute URI
func (w *World) relativize(base, abs string) (string, bool) {
	r := w.r
	opts := []string{abs}
	bu, err1 := url.Parse(base)
	au, err2 := url.Parse(abs)
	if err1 == nil && err2 == nil {
		frag := ""
		rest := abs
		if i := strings.IndexByte(abs, '#'); i >= 0 {
			rest, frag = abs[:i], abs[i:]
		}
		brest, _ := splitFragment(base)
		if rest == brest {
			f := frag
			if f == "" {
				f = "#"
			}
			opts = append(opts, f, f, f)
		}
		if bu.Scheme == au.Scheme && au.Host != "" {
			opts = append(opts, strings.TrimPrefix(abs, au.Scheme+":"))
		}
		if bu.Scheme == au.Scheme && bu.Host == au.Host && strings.HasPrefix(au.Path, "/") {
			pathq := au.EscapedPath()
			if au.RawQuery != "" {
				pathq += "?" + au.RawQuery
			}
			opts = append(opts, pathq+frag)
			// relative to the directory of the base
			bdir := bu.EscapedPath()
			bdir = bdir[:strings.LastIndexByte(bdir, '/')+1]
			bs, as := strings.Split(bdir, "/"), strings.Split(pathq, "/")
			k := 0
			for k < len(bs)-1 && k < len(as)-1 && bs[k] == as[k] {
				k++
			}
			rel := strings.Repeat("../", len(bs)-1-k) + strings.Join(as[k:], "/")
			opts = append(opts, rel+frag, rel+frag, "./"+rel+frag)
		}
	}
	want, _ := resolveURI("", abs)
	for try := 0; try < 10; try++ {
		o := opts[r.Intn(len(opts))]
		if got, ok := resolveURI(base, o); ok && got == want {
			return o, true
		}
	}
	if got, ok := resolveURI(base, abs); ok && got == want {
		return abs, true
	}
	return "", false
}

// refTo makes an object that refers to a node
func (w *World) refTo(from *WNode, base string, to *WNode) obj {
	r := w.r
	uris := to.Global
	if to.Doc == from.Doc {
		uris = append(append([]string{}, to.Local...), to.Global...)
	}
	ref, ok := "", false
	for _, i := range r.Perm(len(uris)) {
		if ref, ok = w.relativize(base, uris[i]); ok {
			break
		}
	}
	if !ok {
		return nil // cannot be expressed from here
	}
	s := obj{"$ref": ref}
	if r.Intn(5) == 0 {
		// siblings constrain nothing
		for i := 1 + r.Intn(2); i > 0; i-- {
			t := mustParse(siblingTexts[r.Intn(len(siblingTexts))]).(obj)
			for k, v := range t {
				s[k] = v
			}
		}
		w.forms["siblings"]++
	}
	w.Refs++
	w.sources = append(w.sources, &refSite{s, from, to})
	return s
}

// keywords that would reject (nearly) everything if they counted
var siblingTexts = []string{`{"type":"null"}`, `{"enum":["other"]}`, `{"const":"other"}`, `{"properties":{"tag":{"type":"null"}}}`, `{"properties":{"tag":false}}`, `{"not":{}}`, `{"not":true}`, `{"required":["never"]}`, `{"allOf":[{"type":"null"}]}`, `{"allOf":[false]}`, `{"anyOf":[{"type":"null"}]}`, `{"oneOf":[{},{}]}`, `{"maxLength":0,"maxProperties":0}`, `{"minLength":99,"minProperties":99,"minItems":99}`, `{"pattern":"^never$"}`, `{"format":"ipv4"}`,
	`{"additionalProperties":false}`, `{"additionalProperties":false,"properties":{}}`, `{"patternProperties":{"":{"type":"null"}}}`, `{"patternProperties":{".":false}}`, `{"propertyNames":{"maxLength":0}}`, `{"propertyNames":false}`, `{"dependencies":{"tag":["never"]}}`, `{"dependencies":{"tag":{"type":"null"}}}`, `{"if":{},"then":{"type":"null"}}`, `{"if":{"type":"null"},"else":{"type":"null"}}`, `{"if":true,"then":false}`, `{"contains":{"type":"null"},"maxItems":0}`, `{"items":{"not":{}}}`, `{"items":false}`, `{"items":[{"not":{}}],"additionalItems":false}`, `{"minimum":1,"maximum":0,"multipleOf":7}`, `{"uniqueItems":true,"default":1}`}

// wrap puts a reference somewhere below a property, possibly under another base
func (w *World) wrap(d *WDoc, draft int, base string, mk func(base string) interface{}, depth int) (interface{}, func(interface{}) interface{}) {
	r := w.r
	same := func(v interface{}) interface{} { return v }
	if depth == 0 || r.Intn(2) == 0 {
		return mk(base), same
	}
	s := obj{}
	in := base
	if !w.Opt.NoIDs && r.Intn(5) == 0 {
		id := pick(r, "w%d/", "/w%d/x.json", "http://i1.test/w%d/", "../w%d.json")
		id = fmt.Sprintf(id, w.n)
		w.n++
		if abs, ok := resolveURI(base, id); ok && !w.ids[abs] {
			w.ids[abs] = true
			s[idKey(r, draft)] = id
			in = abs
			w.forms["base_change"]++
		}
	}
	sub, f := w.wrap(d, draft, in, mk, depth-1)
	k := nastyKeys[r.Intn(len(nastyKeys))]
	switch r.Intn(12) {
	case 0:
		s["allOf"] = arr{obj{}, sub}
		return s, f
	case 1:
		s["anyOf"] = arr{obj{"not": obj{}}, sub}
		return s, f
	case 2:
		s["oneOf"] = arr{sub, obj{"not": obj{}}}
		return s, f
	case 3:
		s["items"] = sub
		return s, func(v interface{}) interface{} { return arr{f(v)} }
	case 4:
		s["items"] = arr{obj{}, sub}
		return s, func(v interface{}) interface{} { return arr{nil, f(v)} }
	case 5:
		s["properties"] = obj{k: sub}
		return s, func(v interface{}) interface{} { return obj{k: f(v)} }
	case 6:
		if r.Intn(2) == 0 {
			// patterns that look like keywords
			p := pick(r, "enum", "const", "properties", "definitions", "dependencies", "patternProperties", "items", "$ref", "$id", "id")
			s["patternProperties"] = obj{p: sub}
			return s, func(v interface{}) interface{} { return obj{p: f(v)} }
		}
		s["patternProperties"] = obj{"^y": sub}
		return s, func(v interface{}) interface{} { return obj{"y" + k: f(v)} }
	case 7:
		if _, ok := sub.(obj); ok {
			s["additionalProperties"] = sub
			return s, func(v interface{}) interface{} { return obj{k: f(v)} }
		}
	case 8:
		s["dependencies"] = obj{k: obj{"properties": obj{"v": sub}}}
		return s, func(v interface{}) interface{} { return obj{k: nil, "v": f(v)} }
	case 9:
		if draft >= D7 {
			s["if"], s["then"] = obj{}, sub
			return s, f
		}
		s["not"] = obj{"not": sub}
		return s, f
	case 10:
		if draft >= D6 {
			s["contains"] = sub
			return s, func(v interface{}) interface{} { return arr{nil, f(v)} }
		}
	case 11:
		if _, ok := sub.(obj); ok {
			s["items"], s["additionalItems"] = arr{obj{}}, sub
			return s, func(v interface{}) interface{} { return arr{nil, f(v)} }
		}
	}
	s["allOf"] = arr{sub}
	return s, f
}

func (d *WDoc) draft(w *World, i int) int {
	if w.Opt.DraftOf != nil {
		return w.Opt.DraftOf(i)
	}
	return w.Mode.Draft
}

// newWorld generates documents and references between them
func newWorld(r *rand.Rand, m Mode, opt WOpt, dir string) *World {
	w := &World{r: r, Mode: m, Opt: opt, ids: map[string]bool{}, forms: map[string]int{}, dir: dir, IO: newIO()}
	w.U = newUniverse(m.Auto, m.Loader)
	nd := 1 + r.Intn(opt.MaxDocs)
	stamp := fmt.Sprintf("%08x", r.Uint32())
	useFS := false
	for i := 0; i < nd; i++ {
		kinds := opt.Kinds
		if i == 0 {
			kinds = opt.Roots
		}
		d := &WDoc{Kind: kinds[r.Intn(len(kinds))]}
		if i == 0 && (d.Kind == wFS || opt.FS && d.Kind != wText) {
			useFS = true
		}
		if opt.FS && d.Kind == wFS && !useFS {
			d.Kind = wHTTP
		}
		if d.Kind == wFS && !useFS {
			d.Kind = wFile
		}
		if d.Kind == wFile && useFS {
			d.Kind = wFS
		}
		name := fmt.Sprintf("%s%d%s", pick(r, "", "sub/", "a b/", "x+y/", "p%q/", "é/", "deep/er/"), i, pick(r, ".json", "", ".schema"))
		switch d.Kind {
		case wAdd:
			d.URI = pick(r, "http://add.test/", "http://h1.test/dir/", "urn-like://x/", "http://h0.test/a/b/c/") + (&url.URL{Path: name}).EscapedPath()
		case wHTTP:
			d.URI = pick(r, "http://h0.test/", "http://h1.test/dir/", "https://h2.test:8443/a/") + (&url.URL{Path: name}).EscapedPath()
			if r.Intn(6) == 0 {
				d.URI += "?v=" + strconv.Itoa(i)
			}
		case wFile:
			d.URI = "file://" + (&url.URL{Path: filepath.Join(dir, stamp, name)}).EscapedPath()
		case wFS:
			d.URI = "file://" + (&url.URL{Path: "/virtual/" + name}).EscapedPath()
		}
		if d.URI != "" {
			w.ids[d.URI] = true
		}
		w.Docs = append(w.Docs, d)
	}
	for i, d := range w.Docs {
		dr := d.draft(w, i)
		// declaration
		switch {
		case opt.DraftOf != nil:
			d.Declared = draftURL[dr]
		case !m.Auto:
			if r.Intn(2) == 0 {
				d.Declared = draftURL[[]int{D4, D6, D7}[r.Intn(3)]]
			}
		case dr == DH:
			if r.Intn(6) == 0 {
				d.Declared = "http://example.com/unknown#"
			}
		case i == 0 && m.Loader != dr:
			d.Declared = m.Decl
		case r.Intn(2) == 0:
			d.Declared = draftURL[dr]
		}
		d.strict = !m.Auto || draftOfURL(d.Declared) != 0
		w.node(d, dr, d.URI, []origin{{d.URI, nil, d.URI != ""}}, 2+r.Intn(2), true)
		root := d.Nodes[0]
		d.Root = root.V
		if d.Kind == wAddByID {
			// nothing designates it but its own identifiers
			for _, n := range d.Nodes {
				n.dropOrigin()
			}
		}
		if d.Declared != "" {
			root.V.(obj)["$schema"] = d.Declared
		}
	}
	// references
	var targets []*WNode
	for _, n := range w.Nodes {
		if !n.Inner && r.Intn(8) == 0 && n.idx > 0 {
			if s, ok := n.V.(obj); ok && len(s) == 1 {
				// turn it into a reference to an earlier node
				to := w.Nodes[r.Intn(n.idx)]
				var ref obj
				if to.reachable(n) {
					ref = w.refTo(n, n.Base, to)
				}
				if ref != nil {
					for k := range s {
						delete(s, k)
					}
					for k, v := range ref {
						s[k] = v
					}
					w.sources[len(w.sources)-1].holder = s
					n.Alias = to
					w.forms["chain"]++
				}
			}
		}
		targets = append(targets, n)
	}
	if r.Intn(40) == 0 {
		targets = w.longChain(targets)
	}
	for di, d := range w.Docs {
		dr := d.draft(w, di)
		for _, n := range d.Nodes {
			if !n.Inner {
				continue
			}
			for i := 1 + r.Intn(3); i > 0; i-- {
				var to *WNode
				for try := 0; try < 20; try++ {
					to = targets[r.Intn(len(targets))]
					if to.reachable(n) {
						break
					}
					to = nil
				}
				if to == nil {
					continue
				}
				key := "r" + strconv.Itoa(i)
				if r.Intn(6) == 0 {
					key = "r" + nastyKeys[r.Intn(len(nastyKeys))]
				}
				props := n.V.(obj)["properties"].(obj)
				if _, dup := props[key]; dup {
					continue
				}
				v, f := w.wrap(d, dr, n.Base, func(base string) interface{} {
					if ref := w.refTo(n, base, to); ref != nil {
						return ref
					}
					return obj{}
				}, 2)
				props[key] = v
				n.Edges = append(n.Edges, wEdge{key, f, to})
			}
		}
	}
	w.build()
	return w
}

// longChain adds a long chain of references through all documents
func (w *World) longChain(targets []*WNode) []*WNode {
	r := w.r
	to := targets[r.Intn(len(targets))]
	head := to
	length := 0
	for i, n := 0, deepSize(r); i < n; i++ {
		d := w.Docs[r.Intn(len(w.Docs))]
		root := d.Nodes[0]
		s, ok := root.V.(obj)
		if !ok {
			continue
		}
		key := fmt.Sprintf("link%d", i)
		node := &WNode{Tag: to.Tag, Doc: d, idx: len(w.Nodes), Base: root.Base, Alias: head}
		at := func(l []string) (out []string) {
			for _, u := range l {
				if u = strings.TrimSuffix(u, "#"); !strings.Contains(u, "#") {
					out = append(out, u+"#/definitions/"+key)
				}
			}
			return
		}
		node.Local, node.Global = at(root.Local), at(root.Global)
		if !head.reachable(node) {
			continue
		}
		ref := w.refTo(node, node.Base, head)
		if ref == nil {
			continue
		}
		w.sources[len(w.sources)-1].holder = ref
		node.V = ref
		defs, ok := s["definitions"].(obj)
		if !ok {
			defs = obj{}
			s["definitions"] = defs
		}
		defs[key] = ref
		w.Nodes = append(w.Nodes, node)
		d.Nodes = append(d.Nodes, node)
		head = node
		length++
	}
	if length < 10 {
		return targets
	}
	w.forms["long_chain"]++
	for i := len(targets)/2 + 1; i > 0; i-- {
		targets = append(targets, head)
	}
	return targets
}

// build tells the oracle and the stand-ins about the documents
func (w *World) build() {
	w.U = newUniverse(w.Mode.Auto, w.Mode.Loader)
	for _, d := range w.Docs {
		hint := w.Mode.Draft
		if d.Kind == wAddByID {
			d.M = w.U.AddByID(d.Root, hint)
		} else {
			d.M = w.U.Add(d.URI, d.Root, hint)
		}
		d.text = randText(w.r, d.Root)
		switch d.Kind {
		case wHTTP:
			u, _ := url.Parse(d.URI)
			w.IO.http[u.String()] = d.text
		case wFS:
			p, _ := url.PathUnescape(strings.TrimPrefix(d.URI, "file://"))
			w.IO.files[p] = d.text
		case wFile:
			p, _ := url.PathUnescape(strings.TrimPrefix(d.URI, "file://"))
			os.MkdirAll(filepath.Dir(p), 0755)
			os.WriteFile(p, []byte(d.text), 0644)
			w.scratch = append(w.scratch, p)
		}
	}
	w.Entry = w.Docs[0].Nodes[0]
	w.EntryAt = w.Docs[0].URI
	if w.Docs[0].Kind == wAddByID {
		w.EntryAt = w.Entry.Global[0]
	}
	if w.EntryAt != "" && w.r.Intn(3) == 0 {
		// enter somewhere inside
		d := w.Docs[0]
		n := d.Nodes[w.r.Intn(len(d.Nodes))]
		if len(n.Global) > 0 {
			w.Entry, w.EntryAt = n, n.Global[w.r.Intn(len(n.Global))]
			w.forms["entry_fragment"]++
		}
	}
}

func (w *World) cleanup() {
	for _, p := range w.scratch {
		os.Remove(p)
	}
}

func (n *WNode) reachable(from *WNode) bool {
	if n.Doc == from.Doc {
		return len(n.Local)+len(n.Global) > 0
	}
	return len(n.Global) > 0
}

func (n *WNode) dropOrigin() {
	f := func(l []string) []string {
		o := []string{}
		for _, u := range l {
			if u != "" && !strings.HasPrefix(u, "#") {
				o = append(o, u)
			}
		}
		return o
	}
	n.Local, n.Global = f(n.Local), f(n.Global)
}

// target follows aliases
func (n *WNode) target() *WNode {
	for n.Alias != nil {
		n = n.Alias
	}
	return n
}

// valid document for a node; with other != nil the first fingerprint of the given node is replaced
func (w *World) docFor(n *WNode, depth int) interface{} {
	n = n.target()
	if n.Any {
		return "anything"
	}
	if n.None {
		return "nothing fits"
	}
	if n.Lit != nil {
		return clone(n.Lit)
	}
	if !n.Inner {
		return n.Tag
	}
	o := obj{"tag": n.Tag}
	if depth > 0 {
		for _, e := range n.Edges {
			if w.r.Intn(4) > 0 && !e.to.target().None {
				o[e.key] = e.f(w.docFor(e.to, depth-1))
			}
		}
	}
	return o
}

// swap replaces one fingerprint in a document
func (w *World) swap(v interface{}) interface{} {
	var places []func(string)
	v = clone(v)
	var walk func(x interface{}, set func(interface{}))
	walk = func(x interface{}, set func(interface{})) {
		switch y := x.(type) {
		case string:
			if strings.HasPrefix(y, "T") {
				places = append(places, func(s string) { set(s) })
			}
		case obj:
			for _, k := range sortedKeys(y) {
				k := k
				walk(y[k], func(n interface{}) { y[k] = n })
			}
		case arr:
			for i := range y {
				i := i
				walk(y[i], func(n interface{}) { y[i] = n })
			}
		}
	}
	out := v
	walk(v, func(n interface{}) { out = n })
	if len(places) == 0 {
		return out
	}
	places[w.r.Intn(len(places))](w.Nodes[w.r.Intn(len(w.Nodes))].Tag)
	return out
}

// loader makes a loader with everything that has to be added
func (w *World) loader() (*js.SchemaLoader, error) {
	sl := w.Mode.loader()
	return sl, w.addAll(sl)
}

func (w *World) addAll(sl *js.SchemaLoader) error {
	var byID []js.JSONLoader
	for _, i := range w.r.Perm(len(w.Docs)) {
		d := w.Docs[i]
		switch d.Kind {
		case wAdd:
			if err := sl.AddSchema(d.URI, textLoader(w.r, d.text)); err != nil {
				return fmt.Errorf("AddSchema %s: %v", d.URI, err)
			}
		case wAddByID:
			byID = append(byID, textLoader(w.r, d.text))
		}
	}
	if len(byID) > 0 {
		if err := sl.AddSchemas(byID...); err != nil {
			return fmt.Errorf("AddSchemas: %v", err)
		}
	}
	return nil
}

func textLoader(r *rand.Rand, txt string) js.JSONLoader {
	switch r.Intn(4) {
	case 0:
		return js.NewBytesLoader([]byte(txt))
	case 1:
		return js.NewRawLoader(mustParse(txt))
	case 2:
		l, rd := js.NewReaderLoader(strings.NewReader(txt))
		io.Copy(io.Discard, rd)
		return l
	}
	return js.NewStringLoader(txt)
}

// rootLoader is the loader to compile
func (w *World) rootLoader() js.JSONLoader {
	d := w.Docs[0]
	switch d.Kind {
	case wText:
		return textLoader(w.r, d.text)
	case wFS:
		return js.NewReferenceLoaderFileSystem(w.EntryAt, w.IO)
	}
	if w.Opt.FS {
		return js.NewReferenceLoaderFileSystem(w.EntryAt, w.IO)
	}
	return js.NewReferenceLoader(w.EntryAt)
}

// rootNode is the oracle's view of the schema to compile
func (w *World) rootNode() MNode {
	d := w.Docs[0]
	if d.Kind == wText {
		return MNode{V: d.Root, Base: "", Doc: d.M, Draft: w.U.docDraft(d.M, w.Mode.Loader)}
	}
	n, ok := w.U.Resolve("", w.EntryAt, w.Mode.Loader)
	if !ok {
		panic("harness: the entry point does not exist " + w.EntryAt)
	}
	return n
}

func (w *World) show() map[string]interface{} {
	m := map[string]interface{}{"mode": w.Mode.String(), "entry": w.EntryAt}
	docs := []interface{}{}
	for _, d := range w.Docs {
		docs = append(docs, map[string]interface{}{"kind": wKindName[d.Kind], "uri": d.URI, "text": short(text(d.Root))})
	}
	m["documents"] = docs
	return m
}

var _ = bytes.NewReader
