package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"regexp"
	"sort"
	"strings"

	js "github.com/xeipuuv/gojsonschema"
)

// Mode is how the draft of a schema is selected
type Mode struct {
	Draft   int  // effective draft
	Declare bool // by $schema
	Auto    bool
	Loader  int    // Draft of the loader
	Decl    string // the $schema to write, if any
}

func (m Mode) String() string {
	return fmt.Sprintf("draft=%d loader=%d auto=%v $schema=%q", m.Draft, m.Loader, m.Auto, m.Decl)
}

func libDraft(d int) js.Draft {
	switch d {
	case D4:
		return js.Draft4
	case D6:
		return js.Draft6
	case D7:
		return js.Draft7
	}
	return js.Hybrid
}

// modeFor picks a way of selecting the draft d
func modeFor(r *rand.Rand, d int) Mode {
	all := []int{D4, D6, D7, DH}
	if d == DH {
		switch r.Intn(6) {
		case 0: // undeclared, detection off
			return Mode{Draft: DH, Auto: false, Loader: DH}
		case 1: // declared something, but detection is off
			return Mode{Draft: DH, Auto: false, Loader: DH, Decl: draftURL[[]int{D4, D6, D7}[r.Intn(3)]]}
		case 2: // unknown $schema
			return Mode{Draft: DH, Auto: true, Loader: DH, Decl: "http://example.com/unknown/schema#"}
		}
		return Mode{Draft: DH, Auto: true, Loader: DH}
	}
	decl := draftURL[d]
	if r.Intn(3) == 0 {
		decl = strings.TrimSuffix(decl, "#")
	}
	switch r.Intn(8) {
	case 0:
		return Mode{Draft: d, Auto: true, Loader: d}
	case 1:
		return Mode{Draft: d, Auto: false, Loader: d}
	case 2:
		return Mode{Draft: d, Auto: false, Loader: d, Decl: draftURL[[]int{D4, D6, D7}[r.Intn(3)]]}
	case 3:
		return Mode{Draft: d, Auto: true, Loader: all[r.Intn(4)], Decl: decl, Declare: true}
	}
	return Mode{Draft: d, Auto: true, Loader: DH, Decl: decl, Declare: true}
}

func randDraft(r *rand.Rand) int { return []int{D4, D6, D7, DH, DH, D7}[r.Intn(6)] }

// randDraftFrom picks a draft in which a keyword introduced in min exists
func randDraftFrom(r *rand.Rand, min int) int {
	for {
		if d := randDraft(r); d >= min {
			return d
		}
	}
}

func (m Mode) loader() *js.SchemaLoader {
	sl := js.NewSchemaLoader()
	sl.AutoDetect = m.Auto
	sl.Draft = libDraft(m.Loader)
	return sl
}

// dress adds $schema to the root schema
func (m Mode) dress(s interface{}) interface{} {
	if o, ok := s.(obj); ok && m.Decl != "" {
		c := make(obj, len(o)+1)
		for k, v := range o {
			c[k] = v
		}
		c["$schema"] = m.Decl
		return c
	}
	return s
}

// root builds the oracle's view of a schema given as text
func (m Mode) root(s interface{}) (*Universe, MNode) {
	u := newUniverse(m.Auto, m.Loader)
	d := u.Add("", s, m.Loader)
	dr := u.docDraft(d, m.Loader)
	return u, MNode{V: s, Base: "", Doc: d, Draft: dr}
}

// docLoader delivers a document in one of the ways a user can
func docLoader(r *rand.Rand, v interface{}) js.JSONLoader {
	switch r.Intn(7) {
	case 0:
		return js.NewBytesLoader([]byte(randText(r, v)))
	case 1:
		return js.NewGoLoader(v)
	case 2:
		return js.NewRawLoader(clone(v))
	case 3:
		l, rd := js.NewReaderLoader(strings.NewReader(randText(r, v)))
		io.Copy(io.Discard, rd)
		return l
	case 4:
		l, w := js.NewWriterLoader(io.Discard)
		io.Copy(w, bytes.NewReader([]byte(randText(r, v))))
		return l
	}
	return js.NewStringLoader(randText(r, v))
}

// detail keys each error type is documented to carry
var typeDetails = map[string][]string{
	"required": {"property"}, "invalid_type": {"expected", "given"}, "missing_dependency": {"dependency"},
	"const": {"allowed"}, "enum": {"allowed"}, "array_min_items": {"min"}, "array_max_items": {"max"},
	"unique": {"type", "i", "j"}, "array_min_properties": {"min"}, "array_max_properties": {"max"},
	"additional_property_not_allowed": {"property"}, "invalid_property_name": {"property"},
	"string_gte": {"min"}, "string_lte": {"max"}, "pattern": {"pattern"}, "format": {"format"},
	"multiple_of": {"multiple"}, "number_gte": {"min"}, "number_gt": {"min"}, "number_lte": {"max"}, "number_lt": {"max"},
}

// Rec is an error in comparable form
type Rec struct {
	Key   string // everything but the numeric limit
	Limit *big.Rat
	Show  string
}

func contextString(path []string) (ctx, field string) {
	if len(path) == 0 {
		return "(root)", "(root)"
	}
	f := strings.Join(path, ".")
	return "(root)." + f, f
}

func limitType(t string) bool {
	return t == "multiple_of" || strings.HasPrefix(t, "number_g") || strings.HasPrefix(t, "number_l")
}

func recModel(e *MErr) Rec {
	ctx, field := contextString(e.Path)
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%q|%q|%q|%s", e.Type, ctx, strings.Join(append([]string{"(root)"}, e.Path...), "/#"), field, exactKey(e.Value))
	var lim *big.Rat
	for _, k := range typeDetails[e.Type] {
		v := e.Details[k]
		switch x := v.(type) {
		case Dec:
			lim = x.rat()
			continue
		case arr:
			fmt.Fprintf(&b, "|%s=%s", k, eqKey(x))
		default:
			fmt.Fprintf(&b, "|%s=%v", k, x)
		}
	}
	return Rec{Key: b.String(), Limit: lim, Show: fmt.Sprintf("%s at %s %v", e.Type, ctx, e.Details)}
}

func toRat(v interface{}) *big.Rat {
	switch x := v.(type) {
	case *big.Float:
		if x == nil || x.IsInf() {
			return nil
		}
		r, _ := x.Rat(nil)
		if r == nil {
			r = new(big.Rat)
		}
		return r
	case *big.Rat:
		return x
	}
	if r, ok := new(big.Rat).SetString(fmt.Sprint(v)); ok {
		return r
	}
	return nil
}

func recReal(e js.ResultError) Rec {
	var b strings.Builder
	t := e.Type()
	ctx := e.Context().String()
	fmt.Fprintf(&b, "%s|%q|%q|%q|%s", t, ctx, e.Context().String("/#"), e.Field(), exactKey(e.Value()))
	d := e.Details()
	var lim *big.Rat
	for _, k := range typeDetails[t] {
		v, ok := d[k]
		if !ok {
			fmt.Fprintf(&b, "|%s missing", k)
			continue
		}
		if limitType(t) {
			lim = toRat(v)
			if lim == nil {
				fmt.Fprintf(&b, "|%s=%v", k, v)
			}
			continue
		}
		switch k {
		case "allowed":
			s, _ := v.(string)
			dec := json.NewDecoder(strings.NewReader("[" + s + "]"))
			dec.UseNumber()
			var l interface{}
			if err := dec.Decode(&l); err != nil {
				fmt.Fprintf(&b, "|%s=undecodable %s", k, s)
			} else {
				fmt.Fprintf(&b, "|%s=%s", k, eqKey(l))
			}
		default:
			if x, ok := v.(*regexp.Regexp); ok {
				v = x.String()
			}
			fmt.Fprintf(&b, "|%s=%v", k, v)
		}
	}
	// every error repeats where it is in its details
	if f, ok := d["field"]; !ok || fmt.Sprint(f) != e.Field() {
		fmt.Fprintf(&b, "|field detail %v", f)
	}
	if c, ok := d["context"]; !ok || fmt.Sprint(c) != ctx {
		fmt.Fprintf(&b, "|context detail %v", c)
	}
	return Rec{Key: b.String(), Limit: lim, Show: fmt.Sprintf("%s at %s %v", t, ctx, d)}
}

func limitsClose(a, b *big.Rat) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Cmp(b) == 0 {
		return true
	}
	// integers are reported exactly, other limits as good as any binary approximation worth its name
	if a.IsInt() || b.IsInt() {
		return false
	}
	diff := new(big.Rat).Sub(a, b)
	diff.Abs(diff)
	tol := new(big.Rat).Abs(a)
	tol.Quo(tol, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 60)))
	return diff.Cmp(tol) <= 0
}

// diffRecs compares two multisets of errors and describes the difference
func diffRecs(want, got []Rec) string {
	byKey := map[string][]int{}
	for i, g := range got {
		byKey[g.Key] = append(byKey[g.Key], i)
	}
	used := make([]bool, len(got))
	var missing []string
	for _, w := range want {
		found := false
		for _, i := range byKey[w.Key] {
			if !used[i] && limitsClose(w.Limit, got[i].Limit) {
				used[i], found = true, true
				break
			}
		}
		if !found {
			missing = append(missing, w.Show)
		}
	}
	var extra []string
	for i, g := range got {
		if !used[i] {
			extra = append(extra, g.Show)
		}
	}
	if len(missing) == 0 && len(extra) == 0 {
		return ""
	}
	lim := func(l []string) string {
		if len(l) > 6 {
			l = append(l[:6:6], fmt.Sprintf("... %d more", len(l)-6))
		}
		for i := range l {
			l[i] = short(l[i])
		}
		return strings.Join(l, "; ")
	}
	return fmt.Sprintf("expected but not reported: [%s]; reported but not expected: [%s]", lim(missing), lim(extra))
}

func recsOf(res *js.Result) []Rec {
	l := make([]Rec, 0, len(res.Errors()))
	for _, e := range res.Errors() {
		l = append(l, recReal(e))
	}
	return l
}

func recsOfModel(m *MRes) []Rec {
	l := make([]Rec, 0, len(m.Errs))
	for _, e := range m.Errs {
		l = append(l, recModel(e))
	}
	return l
}

// recKeys is an order-free fingerprint of a result
func recKeys(res *js.Result) string { return recKeysOf(res.Errors()) }

func recKeysOf(errs []js.ResultError) string {
	ks := []string{}
	for _, e := range errs {
		r := recReal(e)
		k := r.Key
		if r.Limit != nil {
			k += "|" + r.Limit.RatString()
		}
		ks = append(ks, k+"|"+e.Description())
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

// Exhibit is what a violation shows
type Exhibit struct {
	Mode   string      `json:"mode,omitempty"`
	Schema string      `json:"schema,omitempty"`
	Doc    string      `json:"document,omitempty"`
	Want   string      `json:"expected,omitempty"`
	Got    string      `json:"observed,omitempty"`
	Extra  interface{} `json:"extra,omitempty"`
}

// Pair is a compiled schema next to the oracle's view of it
type Pair struct {
	t    *T
	Mode Mode
	Text string
	Val  interface{}
	S    *js.Schema
	U    *Universe
	Root MNode
}

// compilePair compiles a schema that the oracle considers well-formed; nil (and a violation) if that fails
func compilePair(t *T, m Mode, schema interface{}) *Pair {
	if _, ok := schema.(obj); !ok && m.Declare {
		// a boolean schema cannot declare its draft
		m = Mode{Draft: m.Draft, Auto: true, Loader: m.Draft}
	}
	s := m.dress(schema)
	u, root := m.root(s)
	txt := randText(t.R, s)
	if w := u.WellFormed(root); w != "" {
		panic("harness: generated a malformed schema: " + w + " " + m.String() + " " + short(txt))
	}
	sl := m.loader()
	var l js.JSONLoader
	switch t.R.Intn(5) {
	case 0:
		l = js.NewBytesLoader([]byte(txt))
	case 1:
		l = js.NewGoLoader(s)
	case 2:
		l = js.NewRawLoader(clone(s))
	default:
		l = js.NewStringLoader(txt)
	}
	c, err := sl.Compile(l)
	if err != nil || c == nil {
		t.Fail("compile", Exhibit{Mode: m.String(), Schema: short(txt), Got: fmt.Sprint(err)}, "a well-formed schema does not compile: %v", err)
		return nil
	}
	return &Pair{t: t, Mode: m, Text: txt, Val: s, S: c, U: u, Root: root}
}

// level of comparison
const (
	cmpVerdict = iota
	cmpErrors
)

// check validates one document and compares with the oracle; it returns the verdict of the oracle
func (p *Pair) check(doc interface{}, level int) (valid, decided bool) {
	t := p.t
	p.U.grey = false
	want := p.U.Eval(p.Root, doc)
	if p.U.grey {
		t.Count("undecided", 1)
		return false, false
	}
	res, err := p.S.Validate(docLoader(t.R, doc))
	ex := func(g string) Exhibit {
		return Exhibit{Mode: p.Mode.String(), Schema: short(p.Text), Doc: short(text(doc)), Got: g, Want: fmt.Sprintf("valid=%v", want.Valid())}
	}
	t.Eval(p.Text + "\x00" + text(doc))
	if err != nil || res == nil {
		t.Fail("validate", ex(fmt.Sprint(err)), "validation of a JSON document failed: %v", err)
		return want.Valid(), true
	}
	if want.Valid() {
		t.Count("accepted", 1)
	} else {
		t.Count("rejected", 1)
		for _, e := range want.Errs {
			t.Count("err:"+e.Type, 1)
		}
	}
	if res.Valid() != want.Valid() || res.Valid() != (len(res.Errors()) == 0) {
		t.Fail("verdict", ex(fmt.Sprintf("valid=%v errors=%v", res.Valid(), res.Errors())), "verdict differs: expected valid=%v, observed valid=%v", want.Valid(), res.Valid())
		return want.Valid(), true
	}
	if level >= cmpErrors {
		if d := diffRecs(recsOfModel(want), recsOf(res)); d != "" {
			t.Fail("errors", ex(fmt.Sprint(res.Errors())), "reported errors differ: %s", d)
		}
	}
	return want.Valid(), true
}
