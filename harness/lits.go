package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Literals of the current source of the code under test, used as a dictionary for generated sizes and
// strings (as a fuzzer would): thresholds that are written in the code get exercised from both sides.
// They only steer the workload; nothing is judged by them.
var (
	newInts []int
	newStrs []string
)

func harvest() {
	files, _ := filepath.Glob(filepath.Join(literalsOf(), "*.go"))
	ints, strs := map[int]bool{}, map[string]bool{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		t, err := parser.ParseFile(token.NewFileSet(), f, src, 0)
		if err != nil {
			continue
		}
		ast.Inspect(t, func(n ast.Node) bool {
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil && v > 1 && v <= 70000 {
					ints[int(v)] = true
				}
			case token.STRING, token.CHAR:
				if s, err := strconv.Unquote(l.Value); err == nil && len(s) > 0 && len(s) <= 24 {
					strs[s] = true
				}
			}
			return true
		})
	}
	// what the source has always contained comes from a fixed list, so that the workload on a tree with the
	// same literals is the same; what is new gets half of the draws
	for _, i := range baseInts {
		delete(ints, i)
	}
	for _, s := range baseStrs {
		delete(strs, s)
	}
	for i := range ints {
		newInts = append(newInts, i)
	}
	for s := range strs {
		newStrs = append(newStrs, s)
	}
	sort.Ints(newInts)
	sort.Strings(newStrs)
}

func litInt(r *rand.Rand) int {
	h := r.Intn(1 << 20)
	if h%2 == 0 && len(newInts) > 0 {
		return newInts[h/2%len(newInts)]
	}
	return baseInts[h/2%len(baseInts)]
}

func litStr(r *rand.Rand) string {
	h := r.Intn(1 << 20)
	if h%2 == 0 && len(newStrs) > 0 {
		return newStrs[h/2%len(newStrs)]
	}
	return baseStrs[h/2%len(baseStrs)]
}

func init() { harvest() }

// literalsOf is the tree under test (VERIF_LITERALS names another one during development)
func literalsOf() string {
	if d := os.Getenv("VERIF_LITERALS"); d != "" {
		return d
	}
	return "/repo"
}
