package main

import (
	"encoding/json"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The official test suite that comes with the repository is used as a source of realistic schemas and
// documents, which are then mutated; its own expectations validate the oracle (harness selftest).
type suiteCase struct {
	Data  interface{}
	Valid bool
}

type suiteGroup struct {
	File   string
	Desc   string
	Draft  int
	Schema interface{}
	Cases  []suiteCase
}

var suiteGroups []suiteGroup

func loadSuite() {
	if suiteGroups != nil {
		return
	}
	suiteGroups = []suiteGroup{}
	for _, d := range []struct {
		dir   string
		draft int
	}{{"draft4", D4}, {"draft6", D6}, {"draft7", D7}, {"extra", DH}} {
		files, _ := filepath.Glob("/repo/testdata/" + d.dir + "/*.json")
		more, _ := filepath.Glob("/repo/testdata/" + d.dir + "/optional/*.json")
		more2, _ := filepath.Glob("/repo/testdata/" + d.dir + "/optional/format/*.json")
		files = append(append(files, more...), more2...)
		sort.Strings(files)
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			groups, ok := mustParse(string(b)).(arr)
			if !ok {
				continue
			}
			for _, g := range groups {
				o, ok := g.(obj)
				if !ok || o["disabled"] == true || o["schema"] == nil {
					continue
				}
				if strings.Contains(text(o["schema"]), "localhost:1234") || strings.Contains(text(o["schema"]), `"$ref":"http://json-schema.org`) {
					continue
				}
				desc, _ := o["description"].(string)
				sg := suiteGroup{File: f, Desc: desc, Draft: d.draft, Schema: o["schema"]}
				tests, _ := o["tests"].(arr)
				for _, c := range tests {
					co, ok := c.(obj)
					if !ok {
						continue
					}
					v, _ := co["valid"].(bool)
					sg.Cases = append(sg.Cases, suiteCase{co["data"], v})
				}
				if len(sg.Cases) > 0 {
					suiteGroups = append(suiteGroups, sg)
				}
			}
		}
	}
}

// suiteDocs are the documents of a group and mutations of them
func (g *suiteGroup) docs(r *rand.Rand) []interface{} {
	var l []interface{}
	for _, c := range g.Cases {
		l = append(l, c.Data)
		for i := 0; i < 2; i++ {
			v := c.Data
			for k := 1 + r.Intn(2); k > 0; k-- {
				v = mutateDoc(r, v)
			}
			l = append(l, v)
		}
	}
	return append(l, docsFor(r, g.Schema, 3)...)
}

func (g *suiteGroup) mode() Mode {
	m := Mode{Draft: g.Draft, Auto: true, Loader: g.Draft}
	if o, ok := g.Schema.(obj); ok {
		if s, ok := o["$schema"].(string); ok {
			if d := draftOfURL(s); d != 0 {
				m.Draft = d
			}
		}
	}
	return m
}

var _ = json.Number("")
