package main

import (
	"encoding/json"
	"math/big"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// The reference evaluator. It interprets the raw JSON of a schema directly, without compiling it, with its
// own number arithmetic, its own URI registry and its own draft table. It is written from the
// specifications (draft-04, -06, -07) and the README, and predicts the verdict, the set of errors
// and the "closest match" score used to pick the branch whose errors are reported.

const (
	D4 = 4
	D6 = 6
	D7 = 7
	DH = 99 // hybrid: all drafts merged
)

var draftURL = map[int]string{
	D4: "http://json-schema.org/draft-04/schema#",
	D6: "http://json-schema.org/draft-06/schema#",
	D7: "http://json-schema.org/draft-07/schema#",
}

func draftOfURL(s string) int {
	s = strings.TrimSuffix(s, "#")
	for d, u := range draftURL {
		if strings.TrimSuffix(u, "#") == s {
			return d
		}
	}
	return 0
}

// MDoc is a whole schema document
type MDoc struct {
	URI      string // retrieval URI, "" for a schema given as text
	Root     interface{}
	Declared int // draft of $schema, 0 if none or unknown
}

// MNode is a schema at a place in a document
type MNode struct {
	V     interface{}
	Base  string // base URI outside of the schema's own identifier
	Doc   *MDoc
	Draft int
}

// Universe is everything references can reach
type Universe struct {
	Auto  bool
	Draft int
	docs  map[string]*MDoc
	ids   map[string]MNode
	grey  bool // the oracle met something it has no opinion on
	depth int
	steps int
	Used  map[string]bool // documents that references needed
}

func newUniverse(auto bool, draft int) *Universe {
	return &Universe{Auto: auto, Draft: draft, docs: map[string]*MDoc{}, ids: map[string]MNode{}, Used: map[string]bool{}}
}

var mapKeywords = map[string]bool{"properties": true, "patternProperties": true, "definitions": true, "dependencies": true}

// idOf returns the identifier a schema object declares in a draft
func idOf(v interface{}, draft int) (string, bool) {
	m, ok := v.(obj)
	if !ok {
		return "", false
	}
	key := "$id"
	switch draft {
	case D4:
		key = "id"
	case DH:
		if _, ok := m["id"]; ok {
			key = "id"
		}
	}
	s, ok := m[key].(string)
	return s, ok
}

func resolveURI(base, ref string) (string, bool) {
	b, err := url.Parse(base)
	if err != nil {
		return "", false
	}
	r, err := url.Parse(ref)
	if err != nil {
		return "", false
	}
	b.Fragment, b.RawFragment = "", ""
	return b.ResolveReference(r).String(), true
}

func splitFragment(s string) (string, string) {
	if i := strings.IndexByte(s, '#'); i >= 0 {
		return s[:i], s[i+1:]
	}
	return s, ""
}

// Add registers a document and all identifiers in it. hint is the draft it is read in if it does not declare one
func (u *Universe) Add(uri string, root interface{}, hint int) *MDoc {
	d := &MDoc{URI: uri, Root: root}
	if m, ok := root.(obj); ok {
		if s, ok := m["$schema"].(string); ok {
			d.Declared = draftOfURL(s)
		}
	}
	key, _ := resolveURI("", uri)
	u.docs[key] = d
	draft := u.docDraft(d, hint)
	u.scan(d, root, key, draft)
	return d
}

// AddByID registers a document that is only known by its own identifiers
func (u *Universe) AddByID(root interface{}, hint int) *MDoc {
	d := &MDoc{URI: "", Root: root}
	if m, ok := root.(obj); ok {
		if s, ok := m["$schema"].(string); ok {
			d.Declared = draftOfURL(s)
		}
	}
	u.scan(d, root, "", u.docDraft(d, hint))
	return d
}

func (u *Universe) docDraft(d *MDoc, inherited int) int {
	if !u.Auto {
		return u.Draft
	}
	if d.Declared != 0 {
		return d.Declared
	}
	return inherited
}

func (u *Universe) scan(d *MDoc, v interface{}, base string, draft int) {
	switch x := v.(type) {
	case []interface{}:
		for _, e := range x {
			u.scan(d, e, base, draft)
		}
	case map[string]interface{}:
		inner := base
		if id, ok := idOf(x, draft); ok {
			if _, isRef := x["$ref"].(string); !isRef {
				if abs, ok := resolveURI(base, id); ok {
					if _, dup := u.ids[abs]; !dup {
						u.ids[abs] = MNode{V: v, Base: base, Doc: d}
					}
					inner = abs
				}
			}
		}
		for k, e := range x {
			if k == "const" || k == "enum" {
				continue
			}
			if mapKeywords[k] {
				if m, ok := e.(obj); ok {
					for _, s := range m {
						u.scan(d, s, inner, draft)
					}
				}
				continue
			}
			u.scan(d, e, inner, draft)
		}
	}
}

func unescapeToken(t string) string {
	return strings.ReplaceAll(strings.ReplaceAll(t, "~1", "/"), "~0", "~")
}

// Resolve finds the schema an absolute URI designates
func (u *Universe) Resolve(base, ref string, referrer int) (MNode, bool) {
	abs, ok := resolveURI(base, ref)
	if !ok {
		return MNode{}, false
	}
	finish := func(n MNode) (MNode, bool) {
		n.Draft = u.docDraft(n.Doc, referrer)
		u.Used[n.Doc.URI] = true
		return n, true
	}
	if n, ok := u.ids[abs]; ok {
		return finish(n)
	}
	rest, _ := splitFragment(abs)
	parsed, _ := url.Parse(abs)
	frag := parsed.Fragment
	var n MNode
	if d, ok := u.docs[rest]; ok {
		n = MNode{V: d.Root, Base: rest, Doc: d}
	} else if e, ok := u.ids[rest]; ok {
		n = e
	} else {
		return MNode{}, false
	}
	if frag == "" {
		return finish(n)
	}
	if !strings.HasPrefix(frag, "/") {
		return MNode{}, false
	}
	draft := u.docDraft(n.Doc, referrer)
	inMap := false
	for _, tok := range strings.Split(frag[1:], "/") {
		switch x := n.V.(type) {
		case map[string]interface{}:
			if !inMap {
				if id, ok := idOf(x, draft); ok {
					if _, isRef := x["$ref"].(string); !isRef {
						if abs, ok := resolveURI(n.Base, id); ok {
							n.Base = abs
						}
					}
				}
			}
			k := unescapeToken(tok)
			v, ok := x[k]
			if !ok {
				return MNode{}, false
			}
			n.V = v
			inMap = !inMap && mapKeywords[k]
		case []interface{}:
			i, err := strconv.Atoi(tok)
			if err != nil || i < 0 || i >= len(x) || strconv.Itoa(i) != tok {
				return MNode{}, false
			}
			n.V = x[i]
			inMap = false
		default:
			return MNode{}, false
		}
	}
	return finish(n)
}

// MErr is a predicted error
type MErr struct {
	Type    string
	Path    []string
	Value   interface{}
	Details obj
}

// MRes is a predicted result
type MRes struct {
	Errs  []*MErr
	Score int
}

// Valid tells whether nothing is wrong
func (r *MRes) Valid() bool { return len(r.Errs) == 0 }

func (r *MRes) add(typ string, path []string, value interface{}, details obj) {
	p := make([]string, len(path))
	copy(p, path)
	r.Errs = append(r.Errs, &MErr{Type: typ, Path: p, Value: value, Details: details})
	r.Score -= 2
}

func (r *MRes) merge(o *MRes) {
	r.Errs = append(r.Errs, o.Errs...)
	r.Score += o.Score
}

var (
	reMu    sync.Mutex
	reCache = map[string]*regexp.Regexp{}
)

func re(p string) *regexp.Regexp {
	reMu.Lock()
	defer reMu.Unlock()
	if c, ok := reCache[p]; ok {
		return c
	}
	c, err := regexp.Compile(p)
	if err != nil {
		c = nil
	}
	if len(reCache) > 20000 {
		reCache = map[string]*regexp.Regexp{}
	}
	reCache[p] = c
	return c
}

func (u *Universe) child(n MNode, v interface{}) MNode {
	return MNode{V: v, Base: n.Base, Doc: n.Doc, Draft: n.Draft}
}

// Eval evaluates an instance against a schema
func (u *Universe) Eval(n MNode, inst interface{}) *MRes {
	r := &MRes{}
	u.steps, u.depth = 0, 0
	u.eval(n, inst, r, nil)
	return r
}

// tooBig is thrown by an evaluation that takes more than maxSteps: recursive schemas with several references
// per level take time exponential in the depth of the document, whoever evaluates them
type tooBig struct{}

const maxSteps = 400000

func (u *Universe) sub(n MNode, inst interface{}, path []string) *MRes {
	r := &MRes{}
	u.eval(n, inst, r, path)
	return r
}

func at(path []string, k string) []string {
	return append(path[:len(path):len(path)], k)
}

func (u *Universe) eval(n MNode, inst interface{}, r *MRes, path []string) {
	if u.steps++; u.steps > maxSteps {
		panic(tooBig{})
	}
	u.depth++
	defer func() { u.depth-- }()
	if u.depth > 5000 {
		u.grey = true
		return
	}
	if b, ok := n.V.(bool); ok {
		if !b {
			r.add("false", path, inst, obj{})
		}
		return
	}
	s := n.V.(obj)
	if ref, ok := s["$ref"].(string); ok {
		t, ok := u.Resolve(n.Base, ref, n.Draft)
		if !ok {
			u.grey = true
			return
		}
		u.eval(t, inst, r, path)
		return
	}
	if id, ok := idOf(s, n.Draft); ok {
		if abs, ok := resolveURI(n.Base, id); ok {
			n.Base = abs
		}
	}
	it := jtype(inst)
	var dec Dec
	if it == "number" {
		dec = parseDec(string(inst.(json.Number)))
	}
	if types := typeList(s["type"]); len(types) > 0 {
		ok := false
		for _, t := range types {
			if t == it || (t == "integer" && it == "number" && dec.isInt()) {
				ok = true
			}
		}
		if !ok {
			given := it
			if it == "number" && dec.isInt() {
				given = "integer"
			}
			exp := types[0]
			if len(types) > 1 {
				exp = "[" + strings.Join(types, ",") + "]"
			}
			r.add("invalid_type", path, inst, obj{"expected": exp, "given": given})
			return
		}
	}
	u.evalApplicators(n, s, inst, r, path)
	switch it {
	case "array":
		u.evalArray(n, s, inst.(arr), r, path)
	case "object":
		u.evalObject(n, s, inst.(obj), r, path)
	case "number":
		evalNumber(n, s, inst, dec, r, path)
	}
	u.evalCommon(n, s, inst, r, path)
	if it == "string" {
		evalString(s, inst.(string), r, path)
	}
	if it == "object" {
		if props, ok := s["properties"].(obj); ok {
			m := inst.(obj)
			for _, k := range sortedKeys(props) {
				if v, ok := m[k]; ok {
					u.eval(u.child(n, props[k]), v, r, at(path, k))
				}
			}
		}
	}
	r.Score++
}

func typeList(v interface{}) []string {
	switch x := v.(type) {
	case string:
		return []string{x}
	case []interface{}:
		l := []string{}
		for _, e := range x {
			if s, ok := e.(string); ok {
				l = append(l, s)
			}
		}
		return l
	}
	return nil
}

func (u *Universe) evalApplicators(n MNode, s obj, inst interface{}, r *MRes, path []string) {
	if l, ok := s["anyOf"].(arr); ok && len(l) > 0 {
		var best *MRes
		valid := false
		for _, b := range l {
			x := u.sub(u.child(n, b), inst, path)
			if x.Valid() {
				valid = true
				break
			}
			if best == nil || x.Score > best.Score {
				best = x
			}
		}
		if !valid {
			r.add("number_any_of", path, inst, obj{})
			r.merge(best)
		}
	}
	if l, ok := s["oneOf"].(arr); ok && len(l) > 0 {
		var best *MRes
		nb := 0
		for _, b := range l {
			x := u.sub(u.child(n, b), inst, path)
			if x.Valid() {
				nb++
			} else if best == nil || x.Score > best.Score {
				best = x
			}
		}
		if nb != 1 {
			r.add("number_one_of", path, inst, obj{})
			if nb == 0 {
				r.merge(best)
			}
		}
	}
	if l, ok := s["allOf"].(arr); ok && len(l) > 0 {
		all := true
		for _, b := range l {
			x := u.sub(u.child(n, b), inst, path)
			if !x.Valid() {
				all = false
			}
			r.merge(x)
		}
		if !all {
			r.add("number_all_of", path, inst, obj{})
		}
	}
	if b, ok := s["not"]; ok {
		if u.sub(u.child(n, b), inst, path).Valid() {
			r.add("number_not", path, inst, obj{})
		}
	}
	if deps, ok := s["dependencies"].(obj); ok {
		if m, ok := inst.(obj); ok {
			for _, k := range sortedKeys(m) {
				switch d := deps[k].(type) {
				case []interface{}:
					for _, x := range d {
						if _, ok := m[x.(string)]; !ok {
							r.add("missing_dependency", path, inst, obj{"dependency": x})
						}
					}
				case map[string]interface{}, bool:
					u.eval(u.child(n, d), inst, r, path)
				}
			}
		}
	}
	if cond, ok := s["if"]; ok && n.Draft >= D7 {
		if u.sub(u.child(n, cond), inst, path).Valid() {
			if b, ok := s["then"]; ok {
				if x := u.sub(u.child(n, b), inst, path); !x.Valid() {
					r.add("condition_then", path, inst, obj{})
					r.merge(x)
				}
			}
		} else if b, ok := s["else"]; ok {
			if x := u.sub(u.child(n, b), inst, path); !x.Valid() {
				r.add("condition_else", path, inst, obj{})
				r.merge(x)
			}
		}
	}
	r.Score++
}

func (u *Universe) evalCommon(n MNode, s obj, inst interface{}, r *MRes, path []string) {
	if c, ok := s["const"]; ok && n.Draft >= D6 {
		if !jsonEqual(c, inst) {
			r.add("const", path, inst, obj{"allowed": arr{c}})
		}
	}
	if e, ok := s["enum"].(arr); ok && len(e) > 0 {
		found := false
		for _, v := range e {
			if jsonEqual(v, inst) {
				found = true
				break
			}
		}
		if !found {
			r.add("enum", path, inst, obj{"allowed": e})
		}
	}
	if f, ok := s["format"].(string); ok && f != "" {
		switch formatVerdict(f, inst) {
		case no:
			r.add("format", path, inst, obj{"format": f})
		case grey:
			u.grey = true
		}
	}
	r.Score++
}

func countOf(v interface{}) (int64, bool) {
	nb, ok := v.(json.Number)
	if !ok {
		return 0, false
	}
	d := parseDec(string(nb))
	if d.zero {
		return 0, true
	}
	if d.exp < 0 || d.exp > 30 {
		return 0, false
	}
	i := new(big.Int).Mul(d.digits, pow10(d.exp))
	if d.neg {
		i.Neg(i)
	}
	if !i.IsInt64() {
		return 0, false
	}
	return i.Int64(), true
}

func (u *Universe) evalArray(n MNode, s obj, inst arr, r *MRes, path []string) {
	switch items := s["items"].(type) {
	case map[string]interface{}, bool:
		for i, v := range inst {
			r.merge(u.sub(u.child(n, items), v, at(path, strconv.Itoa(i))))
		}
	case []interface{}:
		for i, v := range inst {
			if i < len(items) {
				r.merge(u.sub(u.child(n, items[i]), v, at(path, strconv.Itoa(i))))
			}
		}
		if len(items) > 0 && len(inst) > len(items) {
			switch ai := s["additionalItems"].(type) {
			case bool:
				if !ai {
					r.add("array_no_additional_items", path, inst, obj{})
				}
			case map[string]interface{}:
				for i := len(items); i < len(inst); i++ {
					r.merge(u.sub(u.child(n, ai), inst[i], at(path, strconv.Itoa(i))))
				}
			}
		}
	}
	if c, ok := countOf(s["minItems"]); ok && int64(len(inst)) < c {
		r.add("array_min_items", path, inst, obj{"min": c})
	}
	if c, ok := countOf(s["maxItems"]); ok && int64(len(inst)) > c {
		r.add("array_max_items", path, inst, obj{"max": c})
	}
	if b, _ := s["uniqueItems"].(bool); b {
		seen := map[string]int{}
		for j, v := range inst {
			k := eqKey(v)
			if i, ok := seen[k]; ok {
				r.add("unique", path, inst, obj{"type": "array", "i": int64(i), "j": int64(j)})
			}
			seen[k] = j
		}
	}
	if c, ok := s["contains"]; ok && n.Draft >= D6 {
		var best *MRes
		found := false
		for i, v := range inst {
			x := u.sub(u.child(n, c), v, at(path, strconv.Itoa(i)))
			if x.Valid() {
				found = true
				break
			}
			if best == nil || x.Score > best.Score {
				best = x
			}
		}
		if !found {
			r.add("contains", path, inst, obj{})
			if best != nil {
				r.merge(best)
			}
		}
	}
	r.Score++
}

func (u *Universe) evalObject(n MNode, s obj, inst obj, r *MRes, path []string) {
	if c, ok := countOf(s["minProperties"]); ok && int64(len(inst)) < c {
		r.add("array_min_properties", path, inst, obj{"min": c})
	}
	if c, ok := countOf(s["maxProperties"]); ok && int64(len(inst)) > c {
		r.add("array_max_properties", path, inst, obj{"max": c})
	}
	if l, ok := s["required"].(arr); ok {
		for _, k := range l {
			if _, ok := inst[k.(string)]; ok {
				r.Score++
			} else {
				r.add("required", path, inst, obj{"property": k})
			}
		}
	}
	props, _ := s["properties"].(obj)
	pats, _ := s["patternProperties"].(obj)
	for _, k := range sortedKeys(inst) {
		covered := false
		if _, ok := props[k]; ok {
			covered = true
		}
		matched := false
		for _, p := range sortedKeys(pats) {
			if re(p).MatchString(k) {
				matched = true
				r.merge(u.sub(u.child(n, pats[p]), inst[k], at(path, k)))
			}
		}
		if matched {
			covered = true
			r.Score++
		}
		if !covered {
			switch ap := s["additionalProperties"].(type) {
			case bool:
				if !ap {
					r.add("additional_property_not_allowed", path, inst[k], obj{"property": k})
				}
			case map[string]interface{}:
				r.merge(u.sub(u.child(n, ap), inst[k], at(path, k)))
			}
		}
	}
	if pn, ok := s["propertyNames"]; ok && n.Draft >= D6 {
		for _, k := range sortedKeys(inst) {
			if x := u.sub(u.child(n, pn), k, path); !x.Valid() {
				r.add("invalid_property_name", path, inst, obj{"property": k})
				r.merge(x)
			}
		}
	}
	r.Score++
}

func evalString(s obj, inst string, r *MRes, path []string) {
	l := int64(utf8.RuneCountInString(inst))
	if c, ok := countOf(s["minLength"]); ok && l < c {
		r.add("string_gte", path, inst, obj{"min": c})
	}
	if c, ok := countOf(s["maxLength"]); ok && l > c {
		r.add("string_lte", path, inst, obj{"max": c})
	}
	if p, ok := s["pattern"].(string); ok {
		if c := re(p); c != nil && !c.MatchString(inst) {
			r.add("pattern", path, inst, obj{"pattern": p})
		}
	}
	r.Score++
}

func evalNumber(n MNode, s obj, inst interface{}, d Dec, r *MRes, path []string) {
	if m, ok := s["multipleOf"].(json.Number); ok {
		if f := parseDec(string(m)); f.sign() > 0 && !d.multipleOf(f) {
			r.add("multiple_of", path, inst, obj{"multiple": f})
		}
	}
	limit := func(key, exKey, incl, excl, detail string, sgn int) {
		lim, hasLim := s[key].(json.Number)
		exBool, _ := s[exKey].(bool)
		exNum, hasEx := s[exKey].(json.Number)
		if n.Draft != D4 && n.Draft != DH {
			exBool = false
		}
		if n.Draft == D4 {
			hasEx = false
		}
		if hasLim {
			l := parseDec(string(lim))
			c := d.cmp(l) * sgn
			if exBool {
				if c >= 0 {
					r.add(excl, path, inst, obj{detail: l})
				}
			} else if c > 0 {
				r.add(incl, path, inst, obj{detail: l})
			}
		}
		if hasEx {
			l := parseDec(string(exNum))
			if d.cmp(l)*sgn >= 0 {
				r.add(excl, path, inst, obj{detail: l})
			}
		}
	}
	limit("maximum", "exclusiveMaximum", "number_lte", "number_lt", "max", 1)
	limit("minimum", "exclusiveMinimum", "number_gte", "number_gt", "min", -1)
	r.Score++
}
