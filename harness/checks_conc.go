package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	js "github.com/xeipuuv/gojsonschema"
)

func init() {
	register(&Check{ID: "C20",
		Rule:   "a case runs 2-12 goroutines with 2-8 operations each (validation of shared documents against shared compiled schemas, compilation with loaders of their own, rendering and adding of errors, meta-schema validation, changes of the format registry, failing calls) under the race detector, half of the cases in a process of their own in which nothing of the library was used before, with GOMAXPROCS from 1 to 8 and yields inside format checkers; afterwards the same operations are run one by one and every outcome is compared. An evaluation is one operation run concurrently; distinct: different (case, order in which the operations began and ended)",
		Assume: []string{"the Go race detector reports the unsynchronised accesses that the executed code performs", "no goroutine changes a result, document or loader that another one uses"},
		Quick:  900, Thorough: 25000, CaseTimeout: 200,
		Env: raceEnv, Monitor: raceReports,
		Setup: func(w *Worker) { loadSuite() },
		Need:  []string{"cold_processes", "warm_cases", "validated_shared", "compiled", "rendered", "errors_added", "registry_changes", "shared_results", "overlaps", "outcomes_compared", "metavalidated", "error_kinds_subject"},
		Run: func(t *T) {
			if os.Getenv("VERIF_COLD") == "" && t.Idx%2 == 0 {
				coldCase(t)
				return
			}
			runConc(t)
		}})
}

// coldCase runs the case in a fresh process, in which nothing of the library has been initialised lazily yet
func coldCase(t *T) {
	exe, _ := os.Executable()
	dir := filepath.Join(t.Dir, fmt.Sprintf("cold%d", t.Idx))
	os.MkdirAll(dir, 0755)
	out := filepath.Join(dir, "out")
	cmd := exec.Command(exe, "worker", t.Check.ID, t.Tier, fmt.Sprint(t.Seed), "0", "1", fmt.Sprint(t.Idx), fmt.Sprint(t.Idx+1), dir, out)
	cmd.Env = append(os.Environ(), "VERIF_COLD=1")
	cmd.Dir = dir
	tb := &tailBuffer{}
	cmd.Stdout, cmd.Stderr = tb, tb
	err := cmd.Start()
	if err != nil {
		panic("harness: " + err.Error())
	}
	var timedOut atomic.Bool
	ended := make(chan struct{})
	go func() {
		began, idleSince, cpu := time.Now(), time.Now(), int64(-1)
		for {
			select {
			case <-ended:
				return
			case <-time.After(time.Second):
			}
			// one that is still computing may only be slow; one that does nothing waits for what never comes
			if now := cpuTicks(cmd.Process.Pid, false); now > cpu+10 {
				cpu, idleSince = now, time.Now()
			}
			if time.Since(idleSince) > 40*time.Second || time.Since(began) > 180*time.Second {
				timedOut.Store(true)
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(time.Second)
				cmd.Process.Kill()
				return
			}
		}
	}()
	err = cmd.Wait()
	close(ended)
	var res workerResult
	b, rerr := os.ReadFile(out)
	if rerr != nil || json.Unmarshal(b, &res) != nil || !res.Done {
		what := "crash"
		if timedOut.Load() {
			what = "hang"
		}
		t.Fail(what, map[string]string{"stderr": tb.String()}, "the process of a cold start did not survive: %v", err)
		return
	}
	for _, v := range res.Viol {
		t.record(v)
	}
	t.Count("cold_processes", 1)
	for k, v := range res.Counts {
		t.Count(k, v)
	}
	t.mu.Lock()
	t.evals += res.Evals - 1
	t.mu.Unlock()
	hs, _ := os.ReadFile(out + ".hashes")
	t.Eval("cold " + string(hs))
	os.Remove(out)
	// the reports of the race detector go to the directory of the worker and stay there
	if m, _ := filepath.Glob(filepath.Join(dir, "race.*")); len(m) == 0 {
		os.RemoveAll(dir)
	}
}

// everything is a schema and a document that fail in every way there is
func everything() (interface{}, interface{}) {
	s := mustParse(`{"properties":{
 "false":false,"req":{"required":["x"]},"type":{"type":"string"},"any":{"anyOf":[{"type":"string"},{"minimum":9}]},"one":{"oneOf":[{"type":"number"},{"minimum":0}]},
 "all":{"allOf":[{"minimum":9}]},"not":{"not":{"type":"number"}},"dep":{"dependencies":{"a":["b"]}},"const":{"const":7},"enum":{"enum":[1,2]},
 "noadd":{"items":[{}],"additionalItems":false},"minI":{"minItems":4},"maxI":{"maxItems":1},"uniq":{"uniqueItems":true},"cont":{"contains":{"type":"null"}},
 "minP":{"minProperties":4},"maxP":{"maxProperties":0},"addP":{"additionalProperties":false},"names":{"propertyNames":{"maxLength":0}},
 "minL":{"minLength":9},"maxL":{"maxLength":1},"pat":{"pattern":"^z"},"fmt":{"format":"date"},"slow":{"format":"verif-slow"},
 "mult":{"multipleOf":3},"min":{"minimum":9},"max":{"maximum":1},"xmin":{"exclusiveMinimum":9},"xmax":{"exclusiveMaximum":1},
 "then":{"if":{"type":"number"},"then":{"minimum":9}},"else":{"if":{"type":"string"},"else":{"minimum":9}}}}`)
	d := mustParse(`{"false":1,"req":{},"type":1,"any":1,"one":1,"all":1,"not":1,"dep":{"a":1},"const":1,"enum":3,"noadd":[1,2],"minI":[1],"maxI":[1,2],"uniq":[1,1],
 "cont":[1],"minP":{"a":1},"maxP":{"a":1},"addP":{"a":1},"names":{"abc":1},"minL":"abc","maxL":"abc","pat":"abc","fmt":"abc","slow":"abc","mult":4,"min":2,"max":2,"xmin":2,"xmax":2,"then":1,"else":1}`)
	return s, d
}

type slowChecker struct{}

func (slowChecker) IsFormat(v interface{}) bool {
	for i := 0; i < 3; i++ {
		runtime.Gosched()
	}
	s, ok := v.(string)
	return !ok || len(s)%2 == 0
}

// concOp is one operation of a goroutine; everything random in it follows from its seed, so that it can be repeated
type concOp struct {
	kind int
	sub  int
	doc  int
	seed int64
	g    int // goroutine
	n    int // number of the operation within it
}

type concWorld struct {
	subs    []*subject
	shared  []*js.Schema
	loaders [][]js.JSONLoader // shared loaders of the documents
	results []*js.Result      // shared results, only read
}

func outcome(res *js.Result, err error) string {
	if err != nil {
		return "error"
	}
	l := strings.Split(strsOf(res), "\n")
	sort.Strings(l)
	return fmt.Sprintf("valid=%v\n%s\n%s", res.Valid(), recKeys(res), strings.Join(l, "\n"))
}

var concKinds = []string{"validate", "validate", "validate", "validate", "compile", "compile", "oneshot", "adderror", "registry", "sharedresult", "metacheck", "fail", "render", "files"}

func (c *concWorld) run(t *T, o concOp, count bool) string {
	r := rand.New(rand.NewSource(o.seed))
	s := c.subs[o.sub]
	note := func(k string) {
		if count {
			t.Count(k, 1)
		}
	}
	own := func(v interface{}) js.JSONLoader { return docLoader(r, clone(v)) }
	validate := func(sc *js.Schema) string {
		var l js.JSONLoader
		switch r.Intn(4) {
		case 0:
			l = own(s.docs[o.doc])
		case 1:
			l = c.loaders[o.sub][o.doc]
		default:
			l = js.NewRawLoader(s.docs[o.doc]) // the same value in all goroutines
		}
		note("validated_shared")
		return outcome(sc.Validate(l))
	}
	shared := func() (*js.Schema, string) {
		if c.shared[o.sub] != nil {
			return c.shared[o.sub], ""
		}
		sc, err := s.make(r)
		note("compiled")
		if err != nil {
			return nil, "error"
		}
		return sc, ""
	}
	switch concKinds[o.kind] {
	case "validate":
		sc, e := shared()
		if sc == nil {
			return e
		}
		return validate(sc)
	case "compile":
		sc, err := s.make(r)
		note("compiled")
		if err != nil {
			return "error"
		}
		return validate(sc)
	case "oneshot":
		note("compiled")
		return outcome(js.Validate(js.NewStringLoader(text(obj{"type": "string", "minLength": num(2), "pattern": "a+"})), own(genValue(r, 2))))
	case "adderror":
		sc, e := shared()
		if sc == nil {
			return e
		}
		res, err := sc.Validate(js.NewRawLoader(s.docs[o.doc]))
		if err != nil {
			return "error"
		}
		before := len(res.Errors())
		for i := 0; i < 3; i++ {
			e := new(userError)
			e.SetContext(js.NewJsonContext(fmt.Sprint("at", o.g), js.NewJsonContext("(root)", nil)))
			e.SetType("custom")
			e.SetDescriptionFormat(fmt.Sprintf("{{.field}} {{.a}} of %d.%d %d", o.g, o.n, i%2))
			res.AddError(e, js.ErrorDetails{"a": r.Intn(100)})
		}
		note("errors_added")
		x := outcome(res, nil)
		if len(res.Errors()) != before+3 {
			return "lost errors " + x
		}
		return x
	case "registry":
		n := fmt.Sprintf("private-%d", o.g)
		var b strings.Builder
		for i := 0; i < 3; i++ {
			fmt.Fprint(&b, js.FormatCheckers.Has(n))
			js.FormatCheckers.Add(n, slowChecker{})
			fmt.Fprint(&b, js.FormatCheckers.Has(n), js.FormatCheckers.IsFormat(n, "abc"), js.FormatCheckers.IsFormat("ipv4", "1.2.3.4"), js.FormatCheckers.IsFormat("uuid", "x"))
			js.FormatCheckers.Remove(n)
		}
		note("registry_changes")
		return b.String()
	case "sharedresult":
		note("shared_results")
		return outcome(c.results[o.seed%int64(len(c.results))], nil)
	case "metacheck":
		d := randDraft(r)
		sl := js.NewSchemaLoader()
		sl.Validate = true
		sl.Draft = libDraft(d)
		sc, err := sl.Compile(js.NewStringLoader(text((&Gen{r: r, draft: d}).Root())))
		note("metavalidated")
		if err != nil {
			return "error"
		}
		return outcome(sc.Validate(own(genValue(r, 2))))
	case "fail":
		_, e1 := js.NewSchema(js.NewStringLoader(badTexts[r.Intn(len(badTexts))]))
		_, e2 := js.NewSchema(js.NewReferenceLoader("http://nowhere.test/x"))
		_, e3 := js.NewSchema(js.NewStringLoader(`{"$ref":"#/nowhere"}`))
		sc, e := shared()
		if sc == nil {
			return e
		}
		_, e4 := sc.Validate(js.NewStringLoader(`{"a":`))
		note("failing_calls")
		return fmt.Sprint(e1 != nil, e2 != nil, e3 != nil, e4 != nil)
	case "render":
		sc, e := shared()
		if sc == nil {
			return e
		}
		res, err := sc.Validate(js.NewRawLoader(s.docs[o.doc]))
		if err != nil {
			return "error"
		}
		var l []string
		for _, e := range res.Errors() {
			runtime.Gosched()
			l = append(l, e.Field()+"|"+e.Context().String()+"|"+e.Description()+"|"+e.DescriptionFormat()+"|"+e.String()+"|"+fmt.Sprintf("%v", e.Value()))
		}
		sort.Strings(l)
		note("rendered")
		return strings.Join(l, "\n")
	case "files":
		f := filepath.Join(t.Dir, fmt.Sprintf("f%d-%d.json", o.g, o.n))
		os.WriteFile(f, []byte(`{"definitions":{"a":{"minimum":5}},"properties":{"x":{"$ref":"#/definitions/a"}}}`), 0644)
		sc, err := js.NewSchema(js.NewReferenceLoader("file://" + f))
		note("compiled")
		if err != nil {
			return "error"
		}
		return outcome(sc.Validate(own(obj{"x": num(r.Intn(10))})))
	}
	panic("harness: unknown operation")
}

func runConc(t *T) {
	r := t.R
	theTransport.set(nil)
	if os.Getenv("VERIF_COLD") == "" {
		t.Count("warm_cases", 1)
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{8, 8, 4, 2, 1}[r.Intn(5)]))
	js.FormatCheckers.Add("verif-slow", slowChecker{})
	defer js.FormatCheckers.Remove("verif-slow")
	c := &concWorld{}
	for i := 1 + r.Intn(3); i > 0; i-- {
		s, clean := newSubject(t, i)
		defer clean()
		if s != nil && len(s.docs) > 0 {
			c.subs = append(c.subs, s)
		}
	}
	if len(c.subs) == 0 || r.Intn(2) == 0 {
		es, ed := everything()
		s := &subject{name: "everything", txt: text(es)}
		s.make = func(r *rand.Rand) (*js.Schema, error) { return js.NewSchema(textLoader(r, s.txt)) }
		for i := 0; i < 3; i++ {
			d := clone(ed)
			for _, k := range sortedKeys(d.(obj)) {
				if i > 0 && r.Intn(3) == 0 {
					delete(d.(obj), k)
				}
			}
			s.docs = append(s.docs, d)
			s.keys = append(s.keys, exactKey(d))
		}
		c.subs = append(c.subs, s)
		t.Count("error_kinds_subject", 1)
	}
	lazy := r.Intn(4) == 0 // every goroutine compiles for itself
	for _, s := range c.subs {
		var sc *js.Schema
		if !lazy {
			var err error
			sc, err = s.make(r)
			if err != nil {
				t.Fail("compile", Exhibit{Mode: s.name, Schema: short(s.txt)}, "a well-formed schema does not compile: %v", err)
				return
			}
		}
		c.shared = append(c.shared, sc)
		var ls []js.JSONLoader
		for _, d := range s.docs {
			switch r.Intn(3) {
			case 0:
				ls = append(ls, js.NewBytesLoader([]byte(text(d))))
			case 1:
				ls = append(ls, js.NewGoLoader(d))
			default:
				ls = append(ls, js.NewStringLoader(text(d)))
			}
		}
		c.loaders = append(c.loaders, ls)
	}
	kinds := len(concKinds)
	if lazy || r.Intn(3) > 0 {
		// a result that several goroutines read
		s := c.subs[r.Intn(len(c.subs))]
		sc, err := s.make(r)
		if err == nil {
			for _, d := range s.docs {
				if res, err := sc.Validate(js.NewRawLoader(d)); err == nil {
					c.results = append(c.results, res)
				}
			}
		}
	}
	g := 2 + r.Intn(11)
	var ops [][]concOp
	only := -1
	if r.Intn(3) == 0 {
		only = r.Intn(kinds) // all of them do the same
	}
	same := r.Intn(3) == 0
	for i := 0; i < g; i++ {
		var l []concOp
		for n := 2 + r.Intn(7); n > 0; n-- {
			o := concOp{kind: r.Intn(kinds), sub: r.Intn(len(c.subs)), seed: r.Int63(), g: i, n: n}
			if only >= 0 {
				o.kind = only
			}
			if concKinds[o.kind] == "sharedresult" && len(c.results) == 0 {
				o.kind = 0
			}
			if same {
				o.sub = 0
			}
			o.doc = r.Intn(len(c.subs[o.sub].docs))
			if same && r.Intn(2) == 0 {
				o.doc = 0
			}
			l = append(l, o)
		}
		ops = append(ops, l)
	}
	got := make([][]string, g)
	type span struct{ from, to int64 }
	spans := make([][]span, g)
	var clock int64
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i := range ops {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					t.Fail("panic", map[string]string{"panic": fmt.Sprint(x)}, "a concurrent operation panicked: %v", x)
				}
			}()
			<-gate
			for _, o := range ops[i] {
				a := atomic.AddInt64(&clock, 1)
				x := c.run(t, o, true)
				got[i] = append(got[i], x)
				spans[i] = append(spans[i], span{a, atomic.AddInt64(&clock, 1)})
			}
		}(i)
	}
	close(gate)
	wg.Wait()
	// how much of it really overlapped
	type ev struct {
		at int64
		s  string
	}
	var evs []ev
	for i, l := range spans {
		for n, s := range l {
			evs = append(evs, ev{s.from, fmt.Sprintf("b%d.%d", i, n)}, ev{s.to, fmt.Sprintf("e%d.%d", i, n)})
			if s.to-s.from > 1 {
				t.Count("overlaps", 1)
			}
			if n > 0 || i > 0 {
				t.Eval("")
			}
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	var order strings.Builder
	for _, e := range evs {
		order.WriteString(e.s)
	}
	t.Eval(fmt.Sprint(t.Idx) + order.String())
	// the same operations alone
	for i, l := range ops {
		for n, o := range l {
			if n >= len(got[i]) {
				break
			}
			want := c.run(t, o, false)
			t.Count("outcomes_compared", 1)
			if want != got[i][n] {
				t.Fail("outcome", Exhibit{Schema: short(c.subs[o.sub].txt), Doc: short(c.subs[o.sub].keys[o.doc]), Want: short(want), Got: short(got[i][n]), Extra: concKinds[o.kind]},
					"an operation (%s) run concurrently gave another outcome than alone", concKinds[o.kind])
				return
			}
		}
	}
	for _, s := range c.subs {
		for i, d := range s.docs {
			if exactKey(d) != s.keys[i] {
				t.Fail("document", Exhibit{Schema: short(s.txt), Doc: short(s.keys[i]), Got: short(text(d))}, "a shared document was modified")
				return
			}
		}
	}
	if t.Idx < 8 {
		t.Sample(obj{"goroutines": g, "order": order.String(), "schema": short(c.subs[0].txt)})
	}
}
