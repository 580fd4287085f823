package main

import (
	"fmt"
	"math/rand"
	"os"

)

// forest is a schema in which every leaf of a tree of applicators is a reference; the targets accept one string each
type forest struct {
	r      *rand.Rand
	draft  int
	tags   []string // of the definitions
	places []string // of the added documents: http://t.test/<place>/t.json accepts the place
	leaves []string // what the leaves accept
	ids    int
}

// node returns a schema and how a document for it is made from the values at its leaves
func (f *forest) node(depth int, base string) (interface{}, func(leaf func(int) interface{}) interface{}) {
	r := f.r
	if depth == 0 || r.Intn(5) == 0 {
		i := len(f.leaves)
		ref := ""
		if base != "" && r.Intn(4) > 0 {
			f.leaves = append(f.leaves, base)
			ref = pick(r, "t.json", "t.json#", "./t.json", "/"+base+"/t.json", "../"+base+"/t.json", "u/../t.json")
		} else if base != "" || r.Intn(4) == 0 {
			p := f.places[r.Intn(len(f.places))]
			f.leaves = append(f.leaves, p)
			ref = "http://t.test/" + p + "/t.json" + pick(r, "", "#")
		} else {
			n := r.Intn(len(f.tags))
			f.leaves = append(f.leaves, f.tags[n])
			ref = fmt.Sprintf(pick(r, "#/definitions/%d", "#/definitions/%d", "#a%d", "#/definitions/l/items/%d"), n)
		}
		return obj{"$ref": ref}, func(leaf func(int) interface{}) interface{} { return leaf(i) }
	}
	s := obj{}
	if base == "" && r.Intn(5) == 0 || base != "" && r.Intn(8) == 0 {
		base = f.places[r.Intn(len(f.places))]
		// every identifier is of its own: the query is not part of the path
		f.ids++
		s[idKey(r, f.draft)] = fmt.Sprintf("http://t.test/%s/n%d.json", base, f.ids)
	}
	type mk = func(func(int) interface{}) interface{}
	var at []mk
	sub := func() interface{} {
		v, m := f.node(depth-1, base)
		at = append(at, m)
		return v
	}
	subs := func(n int) arr {
		l := arr{}
		for ; n > 0; n-- {
			l = append(l, sub())
		}
		return l
	}
	n := 1 + r.Intn(3)
	list := func(leaf func(int) interface{}) arr {
		l := arr{}
		for _, m := range at {
			l = append(l, m(leaf))
		}
		return l
	}
	switch r.Intn(12) {
	case 0, 1:
		s["items"] = sub()
		rep := 1 + r.Intn(2)
		return s, func(leaf func(int) interface{}) interface{} {
			l := arr{}
			for i := 0; i < rep; i++ {
				l = append(l, at[0](leaf))
			}
			return l
		}
	case 2, 3:
		s["items"] = subs(n)
		if r.Intn(2) == 0 {
			s["additionalItems"] = sub()
		}
		return s, func(leaf func(int) interface{}) interface{} { return list(leaf) }
	case 4, 5:
		p := obj{}
		for i := 0; i < n; i++ {
			p[fmt.Sprint("p", i)] = sub()
		}
		s["properties"] = p
		if r.Intn(3) == 0 {
			s["additionalProperties"] = sub()
		}
		return s, func(leaf func(int) interface{}) interface{} {
			o := obj{}
			for i, v := range list(leaf) {
				o[fmt.Sprint("p", i)] = v
			}
			return o
		}
	case 6:
		p := obj{}
		for i := 0; i < n; i++ {
			p[fmt.Sprint("^p", i)] = sub()
		}
		s["patternProperties"] = p
		return s, func(leaf func(int) interface{}) interface{} {
			o := obj{}
			for i, v := range list(leaf) {
				o[fmt.Sprint("p", i, "x")] = v
			}
			return o
		}
	case 7:
		p := obj{}
		for i := 0; i < n; i++ {
			p[fmt.Sprint("d", i)] = obj{"properties": obj{fmt.Sprint("v", i): sub()}}
		}
		s["dependencies"] = p
		return s, func(leaf func(int) interface{}) interface{} {
			o := obj{}
			for i, v := range list(leaf) {
				o[fmt.Sprint("d", i)] = nil
				o[fmt.Sprint("v", i)] = v
			}
			return o
		}
	case 8:
		s[pick(r, "allOf", "anyOf", "oneOf")] = arr{sub()}
	case 9:
		l := arr{sub()}
		for i := r.Intn(3); i > 0; i-- {
			l = append(l, obj{"not": obj{}})
		}
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		s[pick(r, "anyOf", "oneOf")] = l
	case 10:
		if f.draft >= D7 && r.Intn(2) == 0 {
			if r.Intn(2) == 0 {
				s["if"], s["then"] = obj{}, sub()
			} else {
				s["if"], s["else"] = obj{"not": obj{}}, sub()
			}
		} else {
			s["not"] = obj{"not": sub()}
		}
	case 11:
		if f.draft >= D6 {
			s["contains"] = sub()
			return s, func(leaf func(int) interface{}) interface{} { return arr{nil, at[0](leaf)} }
		}
		s["allOf"] = arr{obj{}, sub()}
	}
	return s, at[0]
}

// runForest compares a forest of references with the oracle, one leaf after the other
func runForest(t *T) {
	r := t.R
	m := modeFor(r, randDraft(r))
	draft := m.Draft
	if draft == DH {
		m = Mode{Draft: D7, Auto: true, Loader: D7}
		draft = D7
	}
	f := &forest{r: r, draft: draft, places: []string{"a", "b", "c"}}
	defs := obj{}
	l := arr{}
	for i := 2 + r.Intn(4); i > 0; i-- {
		n := len(f.tags)
		tag := fmt.Sprint("T", n)
		f.tags = append(f.tags, tag)
		key := "$id"
		if draft == D4 {
			key = "id"
		}
		defs[fmt.Sprint(n)] = obj{"enum": arr{tag}, key: fmt.Sprint("#a", n)}
		l = append(l, obj{"enum": arr{tag}})
	}
	defs["l"] = obj{"items": l}
	s, mk := f.node(2+r.Intn(4), "")
	root, ok := s.(obj)
	if !ok || root["$ref"] != nil || root["id"] != nil || root["$id"] != nil || len(f.leaves) > 60 {
		return
	}
	root["definitions"] = defs
	full := m.dress(root)
	u := newUniverse(m.Auto, m.Loader)
	md := u.Add("", full, m.Loader)
	sl := m.loader()
	for _, p := range f.places {
		doc := obj{"enum": arr{p}}
		u.Add("http://t.test/"+p+"/t.json", doc, m.Loader)
		if err := sl.AddSchema("http://t.test/"+p+"/t.json", textLoader(r, text(doc))); err != nil {
			t.Fail("add", p, "a document cannot be added: %v", err)
			return
		}
	}
	node := MNode{V: full, Base: "", Doc: md, Draft: u.docDraft(md, m.Loader)}
	u.grey = false
	wf := u.WellFormed(node)
	if wf != "" || u.grey {
		t.Count("undecided", 1)
		if os.Getenv("VERIF_DEBUG") != "" && wf != "" {
			fmt.Fprintln(os.Stderr, wf, text(full))
		}
		return
	}
	txt := text(full)
	c, err := sl.Compile(textLoader(r, randText(r, full)))
	if err != nil {
		t.Fail("compile", Exhibit{Mode: m.String(), Schema: short(txt)}, "every reference designates a schema, but compilation fails: %v", err)
		return
	}
	t.Count("forests", 1)
	t.Count("references", int64(len(f.leaves)))
	all := append(append([]string{}, f.tags...), f.places...)
	for i := -1; i < len(f.leaves) && i < 14; i++ {
		bad := i
		if i >= 0 && len(f.leaves) > 14 {
			bad = r.Intn(len(f.leaves))
		}
		doc := mk(func(n int) interface{} {
			if n == bad {
				for {
					if x := all[r.Intn(len(all))]; x != f.leaves[n] {
						return x
					}
				}
			}
			return f.leaves[n]
		})
		u.grey = false
		want := u.Eval(node, doc)
		if u.grey {
			t.Count("undecided", 1)
			continue
		}
		if want.Valid() != (bad < 0) {
			t.Count("oracles_disagree", 1)
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "DISAGREE", bad, text(doc), txt)
			}
		}
		res, err := c.Validate(docLoader(r, doc))
		t.Eval(txt + text(doc))
		if err != nil {
			t.Fail("validate", Exhibit{Mode: m.String(), Schema: short(txt), Doc: short(text(doc))}, "validation failed: %v", err)
			return
		}
		why := ""
		if res.Valid() != want.Valid() {
			why = fmt.Sprintf("expected valid=%v, observed valid=%v %v", want.Valid(), res.Valid(), res.Errors())
		} else {
			why = diffRecs(recsOfModel(want), recsOf(res))
		}
		if why != "" {
			t.Fail("reference", Exhibit{Mode: m.String(), Schema: short(txt), Doc: short(text(doc))}, "a reference does not behave as the schema it designates: %s", why)
			return
		}
		if res.Valid() {
			t.Count("accepted", 1)
		} else {
			t.Count("rejected", 1)
		}
	}
}

