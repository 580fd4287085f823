package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	js "github.com/xeipuuv/gojsonschema"
)

// raceEnv lets the race detector log into the directory of the worker, where raceReports finds it
var raceEnv = []string{"GORACE=log_path=@DIR@/race halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3"}

// raceReports is the monitor of the race detector's log
func raceReports(dir string) []Violation {
	var out []Violation
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	more, _ := filepath.Glob(filepath.Join(dir, "*", "race.*"))
	for _, f := range append(files, more...) {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") || !strings.Contains(rep, "xeipuuv/gojson") {
				continue
			}
			if len(out) < 3 {
				head := ""
				for _, l := range strings.Split(rep, "\n") {
					if strings.Contains(l, "xeipuuv/gojson") {
						head = strings.TrimSpace(l)
						break
					}
				}
				out = append(out, Violation{Kind: "data race", Message: "the race detector reported a data race in " + head, Data: map[string]string{"report": short2(rep, 6000)}})
			}
		}
	}
	return out
}

func short2(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// builtinCheckers are what the library documents to be registered from the start
var builtinCheckers = map[string]js.FormatChecker{
	"date": js.DateFormatChecker{}, "time": js.TimeFormatChecker{}, "date-time": js.DateTimeFormatChecker{},
	"hostname": js.HostnameFormatChecker{}, "email": js.EmailFormatChecker{}, "idn-email": js.EmailFormatChecker{},
	"ipv4": js.IPV4FormatChecker{}, "ipv6": js.IPV6FormatChecker{}, "uri": js.URIFormatChecker{},
	"uri-reference": js.URIReferenceFormatChecker{}, "iri": js.URIFormatChecker{}, "iri-reference": js.URIReferenceFormatChecker{},
	"uri-template": js.URITemplateFormatChecker{}, "uuid": js.UUIDFormatChecker{}, "regex": js.RegexFormatChecker{},
	"json-pointer": js.JSONPointerFormatChecker{}, "relative-json-pointer": js.RelativeJSONPointerFormatChecker{},
}

// builtinProbe is a string each built-in checker accepts and one it rejects
var builtinProbe = map[string][2]string{
	"date": {"2020-02-29", "2021-02-29"}, "time": {"10:11:12Z", "10-11-12"}, "date-time": {"2020-02-29T10:11:12Z", "yesterday"},
	"hostname": {"a.example", "-a-"}, "email": {"a@b.example", "nobody"}, "idn-email": {"a@b.example", "nobody"},
	"ipv4": {"10.1.2.3", "10.1.2.300"}, "ipv6": {"::1", "::g"}, "uri": {"http://a/b", "/rel"},
	"uri-reference": {"/rel", "\\bad"}, "iri": {"http://a/b", "/rel"}, "iri-reference": {"/rel", "\\bad"},
	"uri-template": {"/a{b}", "/a{b"}, "uuid": {"00112233-4455-6677-8899-aabbccddeeff", "0011"}, "regex": {"^a*$", "("},
	"json-pointer": {"/a~0", "a"}, "relative-json-pointer": {"0#", "/a"},
}

var registryNames = []string{"f1", "f2", "F1", "f1 ", "color", "Date", "date", "uuid", "ipv4", "email", "date-time", "регистр", "x-y.z", "%7e", "DATE"}

func restoreRegistry() {
	for _, n := range registryNames {
		if c, ok := builtinCheckers[n]; ok {
			js.FormatCheckers.Add(n, c)
		} else {
			js.FormatCheckers.Remove(n)
		}
	}
	js.FormatCheckers.Remove("")
}

// recChecker is a checker that records how it was consulted. Its answer depends on its identity and the value only
type recChecker struct {
	id   int
	log  *consultLog
	hook func()
}

type consultLog struct {
	mu   sync.Mutex
	seen []consult
}

type consult struct {
	id  int
	key string // of the value it got
	typ string
}

func answer(id int, key string) bool {
	h := fnv.New32a()
	fmt.Fprintf(h, "%d/%s", id, key)
	return h.Sum32()>>7&1 == 0
}

func (c *recChecker) IsFormat(v interface{}) bool {
	k := exactKey(v)
	if c.hook != nil {
		c.hook()
	}
	c.log.mu.Lock()
	c.log.seen = append(c.log.seen, consult{c.id, k, fmt.Sprintf("%T", v)})
	c.log.mu.Unlock()
	return answer(c.id, k)
}

func (l *consultLog) take() []consult {
	l.mu.Lock()
	defer l.mu.Unlock()
	s := l.seen
	l.seen = nil
	return s
}

func consultKeys(cs []consult) string {
	ks := make([]string, len(cs))
	for i, c := range cs {
		ks[i] = fmt.Sprintf("checker %d got %s", c.id, c.key)
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

func init() {
	register(&Check{ID: "C19",
		Rule:   "a case is one of: a sequential history of 20-60 Add/Remove/Has/IsFormat/Validate calls on the global registry checked step by step against a map; a concurrent history of 2-6 goroutines (3-12 calls each, recorded with call and return times, delays inside checkers) checked for linearizability per name with porcupine; a generated schema with formats at random locations validated against generated documents, with the multiset of consultations and the outcome compared to the oracle; checkers that use the registry themselves. An evaluation is one registry call or one Validate call; distinct: different (history step, state) or (schema, document)",
		Assume: []string{assumeModel, "porcupine v1.3.1 decides linearizability", "the Go race detector observes the histories"},
		Quick:  48000, Thorough: 400000, CaseTimeout: 60,
		Env: raceEnv, Monitor: raceReports,
		Need: []string{"sequential_histories", "concurrent_histories", "linearizable", "overlapping_calls", "dispatched_documents", "consultations", "reentrant", "format_errors", "numbers_consulted", "removed_builtin", "overridden_builtin", "crowds"},
		Run: func(t *T) {
			theTransport.set(nil)
			defer restoreRegistry()
			if t.R.Intn(150) == 0 {
				registryCrowd(t)
				return
			}
			switch t.R.Intn(8) {
			case 0, 1:
				registrySequential(t)
			case 2, 3, 4:
				registryConcurrent(t)
			case 5, 6:
				registryDispatch(t)
			case 7:
				registryReentrant(t)
			}
		}})
}

type regState struct {
	cur map[string]int // name -> checker: >0 recording, -1 built-in, absent: none
}

func newRegState() *regState {
	s := &regState{cur: map[string]int{}}
	for n := range builtinCheckers {
		s.cur[n] = -1
	}
	return s
}

// expect tells what a check with a value must answer and which checker it must consult (0: none of ours)
func (s *regState) expect(name string, v interface{}) (want tri, id int) {
	id, ok := s.cur[name]
	if !ok {
		return yes, 0
	}
	if id > 0 {
		return b2t(answer(id, exactKey(v))), id
	}
	return formatVerdict(name, v), 0
}

func registrySequential(t *T) {
	r := t.R
	st := newRegState()
	log := &consultLog{}
	next := 0
	var trail []string
	names := append([]string{}, registryNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:3+r.Intn(len(names)-3)]
	schemas := map[string]*js.Schema{}
	ex := func() interface{} { return obj{"history": strings.Join(trail, "; ")} }
	chain := &js.FormatCheckers
	for op := 20 + r.Intn(41); op > 0; op-- {
		n := names[r.Intn(len(names))]
		key := ""
		switch r.Intn(7) {
		case 0, 1:
			next++
			chain = js.FormatCheckers.Add(n, &recChecker{id: next, log: log})
			if builtinCheckers[n] != nil {
				t.Count("overridden_builtin", 1)
			}
			st.cur[n] = next
			trail = append(trail, fmt.Sprintf("Add(%q,#%d)", n, next))
		case 2:
			chain = js.FormatCheckers.Remove(n)
			if st.cur[n] == -1 {
				t.Count("removed_builtin", 1)
			}
			delete(st.cur, n)
			trail = append(trail, fmt.Sprintf("Remove(%q)", n))
		case 3:
			if c, ok := builtinCheckers[n]; ok && r.Intn(2) == 0 {
				chain = chain.Add(n, c)
				st.cur[n] = -1
				trail = append(trail, fmt.Sprintf("Add(%q,built-in)", n))
				break
			}
			_, want := st.cur[n]
			got := chain.Has(n)
			trail = append(trail, fmt.Sprintf("Has(%q)=%v", n, got))
			if got != want {
				t.Fail("has", ex(), "Has(%q) is %v", n, got)
				return
			}
		case 4, 5:
			v := genValue(r, 2)
			if p, ok := builtinProbe[n]; ok && r.Intn(2) == 0 {
				v = p[r.Intn(2)]
			}
			want, id := st.expect(n, v)
			got := chain.IsFormat(n, v)
			seen := log.take()
			key = n + exactKey(v)
			trail = append(trail, fmt.Sprintf("IsFormat(%q,%s)=%v", n, short2(text(v), 100), got))
			if want != grey && got != (want == yes) {
				t.Fail("check", ex(), "IsFormat(%q, %s) is %v", n, text(v), got)
				return
			}
			if !sameConsult(seen, id, v) {
				t.Fail("consult", ex(), "IsFormat(%q) must consult checker %d once with %s but: %s", n, id, exactKey(v), consultKeys(seen))
				return
			}
			t.Count("consultations", int64(len(seen)))
		case 6:
			v := genValue(r, 2)
			if p, ok := builtinProbe[n]; ok && r.Intn(2) == 0 {
				v = p[r.Intn(2)]
			}
			s := schemas[n] // compiled at some other state of the registry
			if s == nil || r.Intn(4) == 0 {
				var err error
				s, err = js.NewSchema(js.NewStringLoader(text(obj{"format": n})))
				if err != nil {
					t.Fail("compile", ex(), "a schema with format %q does not compile: %v", n, err)
					return
				}
				if len(log.take()) > 0 {
					t.Fail("consult", ex(), "compiling consulted a checker")
					return
				}
				schemas[n] = s
			}
			want, id := st.expect(n, v)
			res, err := s.Validate(docLoader(r, v))
			seen := log.take()
			key = n + exactKey(v)
			trail = append(trail, fmt.Sprintf("Validate(%q,%s)=%v", n, short2(text(v), 100), err == nil && res.Valid()))
			if err != nil {
				t.Fail("validate", ex(), "validation failed: %v", err)
				return
			}
			if want != grey && res.Valid() != (want == yes) {
				t.Fail("check", ex(), "validating %s with format %q gives %v", text(v), n, res.Valid())
				return
			}
			if !sameConsult(seen, id, v) {
				t.Fail("consult", ex(), "validating with format %q must consult checker %d once with %s but: %s", n, id, exactKey(v), consultKeys(seen))
				return
			}
			t.Count("consultations", int64(len(seen)))
		}
		t.Eval(key)
		if chain != &js.FormatCheckers {
			t.Fail("chain", ex(), "Add or Remove returned another chain")
			return
		}
		// no other name is affected
		for _, o := range names {
			_, want := st.cur[o]
			if js.FormatCheckers.Has(o) != want {
				t.Fail("has", ex(), "after that Has(%q) is %v", o, !want)
				return
			}
		}
		o := []string{"json-pointer", "ipv6", "regex", "time", "uri", "hostname"}[r.Intn(6)]
		p := builtinProbe[o]
		if !js.FormatCheckers.Has(o) || !js.FormatCheckers.IsFormat(o, p[0]) || js.FormatCheckers.IsFormat(o, p[1]) {
			t.Fail("other", ex(), "the built-in format %q does not work any more", o)
			return
		}
	}
	if t.Idx < 8 {
		t.Sample(obj{"sequential": trail})
	}
	t.Count("sequential_histories", 1)
}

// registryCrowd: far more names than there are built-in ones
func registryCrowd(t *T) {
	r := t.R
	log := &consultLog{}
	n := scaleSize(r)%400 + 10
	cur := map[string]int{}
	var order []string
	defer func() {
		for _, k := range order {
			js.FormatCheckers.Remove(k)
		}
	}()
	look := func(when string) bool {
		for _, k := range order {
			id, want := cur[k]
			if js.FormatCheckers.Has(k) != want {
				t.Fail("has", obj{"names": n}, "%s Has(%q) is %v with %d names registered", when, k, !want, len(cur))
				return false
			}
			if r.Intn(4) > 0 {
				continue
			}
			got := js.FormatCheckers.IsFormat(k, "v")
			if exp := !want || answer(id, exactKey("v")); got != exp {
				t.Fail("check", obj{"names": n}, "%s IsFormat(%q) is %v with %d names registered", when, k, got, len(cur))
				return false
			}
			seen := log.take()
			if want && !sameConsult(seen, id, "v") || !want && len(seen) > 0 {
				t.Fail("consult", obj{"names": n}, "%s IsFormat(%q) consulted %s", when, k, consultKeys(seen))
				return false
			}
			t.Eval(when + k)
		}
		for k, p := range builtinProbe {
			if !js.FormatCheckers.Has(k) || !js.FormatCheckers.IsFormat(k, p[0]) || js.FormatCheckers.IsFormat(k, p[1]) {
				t.Fail("other", obj{"names": n}, "%s the built-in format %q does not work any more with %d names registered", when, k, len(cur))
				return false
			}
		}
		return true
	}
	for i := 1; i <= n; i++ {
		k := pick(r, "c", "crowd-", "é", "x.") + fmt.Sprint(i)
		js.FormatCheckers.Add(k, &recChecker{id: i, log: log})
		cur[k] = i
		order = append(order, k)
		if r.Intn(60) == 0 && !look("while names are added") {
			return
		}
	}
	if !look("after all names were added") {
		return
	}
	for _, i := range r.Perm(n) {
		js.FormatCheckers.Remove(order[i])
		delete(cur, order[i])
		if r.Intn(60) == 0 && !look("while names are removed") {
			return
		}
	}
	look("after all names were removed")
	t.Count("crowds", 1)
}

func sameConsult(seen []consult, id int, v interface{}) bool {
	if id == 0 {
		return len(seen) == 0
	}
	return len(seen) == 1 && seen[0].id == id && seen[0].key == exactKey(v)
}

// --- concurrent histories

type regIn struct {
	op   string // add, remove, has, check
	name string
	id   int
	tok  string
}

type regOut struct {
	has bool
	ok  bool
	ids string // the checkers that were consulted with the token
}

var regModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		for _, o := range h {
			n := o.Input.(regIn).name
			m[n] = append(m[n], o)
		}
		var out [][]porcupine.Operation
		for _, n := range sortedOps(m) {
			out = append(out, m[n])
		}
		return out
	},
	Init: func() interface{} { return -1 }, // not known yet: the history starts with an Add or Remove of every name
	Step: func(state, input, output interface{}) (bool, interface{}) {
		st, in, out := state.(int), input.(regIn), output.(regOut)
		switch in.op {
		case "add":
			return true, in.id
		case "remove":
			return true, 0
		case "has":
			return out.has == (st != 0), st
		}
		if st == 0 {
			return out.ok && out.ids == "", st
		}
		return out.ids == fmt.Sprintf("%d,", st) && out.ok == answer(st, exactKey(in.tok)), st
	},
	Equal: func(a, b interface{}) bool { return a.(int) == b.(int) },
	DescribeOperation: func(input, output interface{}) string {
		return fmt.Sprintf("%+v -> %+v", input, output)
	},
}

func sortedOps(m map[string][]porcupine.Operation) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type tokChecker struct {
	id    int
	mu    *sync.Mutex
	saw   map[string]string
	delay int
}

func (c *tokChecker) IsFormat(v interface{}) bool {
	for i := 0; i < c.delay; i++ {
		runtime.Gosched()
	}
	s, _ := v.(string)
	c.mu.Lock()
	c.saw[s] += fmt.Sprintf("%d,", c.id)
	c.mu.Unlock()
	return answer(c.id, exactKey(v))
}

func registryConcurrent(t *T) {
	r := t.R
	names := append([]string{}, registryNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:1+r.Intn(3)]
	g := 2 + r.Intn(5)
	var mu sync.Mutex
	saw := map[string]string{}
	var clock, next int64
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }
	var hist []porcupine.Operation
	schemas := map[string]*js.Schema{}
	for _, n := range names {
		s, err := js.NewSchema(js.NewStringLoader(text(obj{"format": n})))
		if err != nil {
			t.Fail("compile", n, "a schema with format %q does not compile: %v", n, err)
			return
		}
		schemas[n] = s
		c := tick()
		if r.Intn(2) == 0 {
			js.FormatCheckers.Remove(n)
			hist = append(hist, porcupine.Operation{ClientId: g, Input: regIn{op: "remove", name: n}, Output: regOut{}, Call: c, Return: tick()})
		} else {
			next++
			js.FormatCheckers.Add(n, &tokChecker{id: int(next), mu: &mu, saw: saw})
			hist = append(hist, porcupine.Operation{ClientId: g, Input: regIn{op: "add", name: n, id: int(next)}, Output: regOut{}, Call: c, Return: tick()})
		}
	}
	recs := make([][]porcupine.Operation, g)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int, seed int64) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			<-gate
			for k := 3 + r.Intn(10); k > 0; k-- {
				n := names[r.Intn(len(names))]
				in := regIn{name: n}
				var out regOut
				switch r.Intn(6) {
				case 0:
					in.op, in.id = "add", int(atomic.AddInt64(&next, 1))
				case 1:
					in.op = "remove"
				case 2:
					in.op = "has"
				default:
					in.op, in.tok = "check", fmt.Sprintf("tok-%d-%d", i, k)
				}
				chk := &tokChecker{id: in.id, mu: &mu, saw: saw, delay: r.Intn(4)}
				viaSchema := r.Intn(2) == 0
				for y := r.Intn(3); y > 0; y-- {
					runtime.Gosched()
				}
				c := tick()
				switch in.op {
				case "add":
					js.FormatCheckers.Add(n, chk)
				case "remove":
					js.FormatCheckers.Remove(n)
				case "has":
					out.has = js.FormatCheckers.Has(n)
				default:
					if viaSchema {
						res, err := schemas[n].Validate(js.NewRawLoader(in.tok))
						out.ok = err == nil && res.Valid()
					} else {
						out.ok = js.FormatCheckers.IsFormat(n, in.tok)
					}
				}
				ret := tick()
				recs[i] = append(recs[i], porcupine.Operation{ClientId: i, Input: in, Output: out, Call: c, Return: ret})
			}
		}(i, r.Int63())
	}
	close(gate)
	wg.Wait()
	overlap := int64(0)
	order := []string{}
	for _, l := range recs {
		for _, o := range l {
			in, out := o.Input.(regIn), o.Output.(regOut)
			if in.op == "check" {
				out.ids = saw[in.tok]
				o.Output = out
			}
			if o.Return-o.Call > 1 {
				overlap++
			}
			hist = append(hist, o)
		}
	}
	sort.Slice(hist, func(i, j int) bool { return hist[i].Call < hist[j].Call })
	for _, o := range hist {
		order = append(order, fmt.Sprintf("%d:%s", o.ClientId, o.Input.(regIn).op))
		t.Eval("")
	}
	t.Eval(strings.Join(order, " "))
	t.Count("overlapping_calls", overlap)
	t.Count("concurrent_histories", 1)
	switch res := porcupine.CheckOperationsTimeout(regModel, hist, 20*time.Second); res {
	case porcupine.Ok:
		t.Count("linearizable", 1)
	case porcupine.Unknown:
		t.Count("undecided_histories", 1)
	default:
		var lines []string
		for _, o := range hist {
			lines = append(lines, fmt.Sprintf("client %d [%d,%d] %+v -> %+v", o.ClientId, o.Call, o.Return, o.Input, o.Output))
		}
		t.Fail("linearizability", obj{"history": lines}, "a recorded history of the registry is not linearizable")
	}
	if t.Idx < 8 {
		t.Sample(obj{"concurrent": strings.Join(order, " ")})
	}
}

// --- dispatch through documents

// fmtTree builds a schema that walks over the document and puts formats at locations whose consultation is certain
func fmtTree(r *rand.Rand, draft int, v interface{}, names []string, depth int, defs obj) interface{} {
	s := obj{}
	if r.Intn(3) > 0 {
		s["format"] = names[r.Intn(len(names))]
	}
	if r.Intn(2) == 0 {
		for i := 1 + r.Intn(2); i > 0; i-- {
			t := mustParse(fmtSiblings[r.Intn(len(fmtSiblings))]).(obj)
			for k, v := range t {
				s[k] = v
			}
		}
		if draft < D6 {
			delete(s, "const")
		}
	}
	if depth > 0 {
		switch x := v.(type) {
		case map[string]interface{}:
			props := obj{}
			pats := obj{}
			for _, k := range sortedKeys(x) {
				switch r.Intn(4) {
				case 0, 1:
					props[k] = fmtTree(r, draft, x[k], names, depth-1, defs)
				case 2:
					pats["^"+quotePattern(k)+"$"] = fmtTree(r, draft, x[k], names, depth-1, defs)
				}
			}
			if len(props) > 0 {
				s["properties"] = props
			}
			if len(pats) > 0 {
				s["patternProperties"] = pats
			}
			if r.Intn(2) == 0 {
				s["additionalProperties"] = obj{"format": names[r.Intn(len(names))]}
			}
			if draft >= D6 && r.Intn(3) == 0 {
				s["propertyNames"] = obj{"format": names[r.Intn(len(names))]}
			}
			if len(x) > 0 && r.Intn(4) == 0 {
				s["dependencies"] = obj{sortedKeys(x)[0]: obj{"format": names[r.Intn(len(names))]}}
			}
		case []interface{}:
			switch {
			case len(x) == 0:
			case r.Intn(2) == 0:
				s["items"] = fmtTree(r, draft, x[0], names, depth-1, defs)
			default:
				var l arr
				for i := 0; i < 1+r.Intn(len(x)); i++ {
					l = append(l, fmtTree(r, draft, x[i], names, depth-1, defs))
				}
				s["items"] = l
				if r.Intn(2) == 0 {
					s["additionalItems"] = obj{"format": names[r.Intn(len(names))]}
				}
			}
		}
	}
	switch r.Intn(10) {
	case 0:
		return obj{"allOf": arr{s, obj{"format": names[r.Intn(len(names))]}}}
	case 1:
		k := fmt.Sprintf("d%d", len(defs))
		defs[k] = s
		return obj{"$ref": "#/definitions/" + k}
	case 2:
		return obj{"allOf": arr{s}, "not": obj{"format": names[r.Intn(len(names))]}}
	case 3:
		if draft >= D7 {
			return obj{"allOf": arr{s}, "if": obj{"format": names[r.Intn(len(names))]}, "then": obj{"format": names[r.Intn(len(names))]}, "else": obj{"format": names[r.Intn(len(names))]}}
		}
	}
	return s
}

// keywords that do not decide whether a format is consulted
var fmtSiblings = []string{`{"maxItems":2}`, `{"maxItems":0}`, `{"minItems":1}`, `{"uniqueItems":true}`, `{"minProperties":1}`, `{"maxProperties":1}`, `{"required":["a"]}`, `{"minLength":1}`, `{"maxLength":3}`, `{"pattern":"a"}`, `{"minimum":1}`, `{"maximum":5}`, `{"multipleOf":2}`, `{"enum":[1,"a",null,[],{}]}`, `{"const":1}`, `{"title":"t"}`, `{"description":"d"}`, `{"default":1}`,
	`{"type":["object","array","string","number"]}`, `{"type":["object","array","string","integer","boolean","null"]}`, `{"additionalItems":false}`, `{"$comment":"c"}`, `{"readOnly":true}`}

func quotePattern(k string) string {
	var b strings.Builder
	for _, c := range k {
		if c < 128 && strings.ContainsRune(`\.+*?()|[]{}^$`, c) {
			b.WriteByte('\\')
		}
		b.WriteRune(c)
	}
	return b.String()
}

func registryDispatch(t *T) {
	r := t.R
	log := &consultLog{}
	names := append([]string{}, registryNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:2+r.Intn(3)]
	var wantLog []consult
	undo := func() {
		customMu.Lock()
		for _, n := range names {
			delete(customVerdict, n)
		}
		customMu.Unlock()
	}
	defer undo()
	id := 0
	d := randDraft(r)
	m := modeFor(r, d)
	base := genValue(r, 3)
	for i := 0; i < 4 && jtype(base) != "object" && jtype(base) != "array"; i++ {
		base = genValue(r, 3)
	}
	defs := obj{}
	tree := fmtTree(r, d, base, names, 3, defs)
	schema, ok := tree.(obj)
	if !ok {
		return
	}
	if len(defs) > 0 {
		schema = obj{"allOf": arr{schema}, "definitions": defs}
	}
	p := compilePair(t, m, schema)
	if p == nil {
		return
	}
	if len(log.take()) > 0 {
		t.Fail("consult", text(schema), "compiling consulted a checker")
		return
	}
	docs := []interface{}{base, variant(r, base), mutateDoc(r, base), nearMiss(r, base)}
	for _, doc := range docs {
		// the registry changes between validations of the same compiled schema
		for _, n := range names {
			if id > 0 && r.Intn(3) > 0 {
				continue
			}
			if r.Intn(5) == 0 {
				js.FormatCheckers.Remove(n)
				customMu.Lock()
				customVerdict[n] = func(interface{}) bool { return true }
				customMu.Unlock()
				continue
			}
			id++
			my := id
			js.FormatCheckers.Add(n, &recChecker{id: my, log: log})
			customMu.Lock()
			customVerdict[n] = func(v interface{}) bool {
				k := exactKey(v)
				wantLog = append(wantLog, consult{my, k, ""})
				return answer(my, k)
			}
			customMu.Unlock()
		}
		wantLog = nil
		log.take()
		doc = clone(doc)
		p.U.grey = false
		want := p.U.Eval(p.Root, doc)
		if p.U.grey {
			continue
		}
		res, err := p.S.Validate(docLoader(r, doc))
		t.Eval(p.Text + exactKey(doc))
		got := log.take()
		ex := Exhibit{Mode: m.String(), Schema: short(p.Text), Doc: short(text(doc))}
		if err != nil {
			t.Fail("validate", ex, "validation failed: %v", err)
			return
		}
		if df := diffRecs(recsOfModel(want), recsOf(res)); df != "" {
			t.Fail("outcome", ex, "the answers of the checkers do not decide: %s", df)
			return
		}
		if a, b := consultKeys(wantLog), consultKeys(got); a != b {
			ex.Want, ex.Got = short(a), short(b)
			t.Fail("consult", ex, "the checkers were not consulted once per location with the value of the document")
			return
		}
		t.Count("dispatched_documents", 1)
		t.Count("consultations", int64(len(got)))
		for _, c := range got {
			if strings.HasPrefix(c.key, "n") {
				t.Count("numbers_consulted", 1)
			}
		}
		for _, e := range res.Errors() {
			if e.Type() == "format" {
				t.Count("format_errors", 1)
			}
		}
	}
	if t.Idx < 16 {
		t.Sample(obj{"schema": short(text(schema)), "document": short(text(base))})
	}
}

// registryReentrant: checkers that use the registry and the library themselves
func registryReentrant(t *T) {
	r := t.R
	log := &consultLog{}
	n, o := "f1", []string{"f2", "uuid", "date"}[r.Intn(3)]
	depth := 0
	var mu sync.Mutex
	inner, err := js.NewSchema(js.NewStringLoader(text(obj{"format": o})))
	if err != nil {
		t.Fail("compile", o, "a schema with format %q does not compile: %v", o, err)
		return
	}
	kind := r.Intn(5)
	outer := &recChecker{id: 1, log: log}
	outer.hook = func() {
		mu.Lock()
		first := depth == 0
		depth++
		mu.Unlock()
		if !first {
			return
		}
		switch kind {
		case 0:
			js.FormatCheckers.Add(o, &recChecker{id: 2, log: log})
		case 1:
			js.FormatCheckers.Remove(n)
		case 2:
			js.FormatCheckers.Has(o)
			js.FormatCheckers.IsFormat(o, "x")
		case 3:
			inner.Validate(js.NewStringLoader(`"x"`))
		case 4: // while another goroutine changes the registry and waits for it
			done := make(chan bool)
			go func() {
				js.FormatCheckers.Add(o, &recChecker{id: 2, log: log})
				close(done)
			}()
			<-done
		}
	}
	js.FormatCheckers.Add(n, outer)
	js.FormatCheckers.Add(o, &recChecker{id: 3, log: log})
	s, err := js.NewSchema(js.NewStringLoader(text(obj{"items": obj{"format": n}, "additionalProperties": obj{"format": o}})))
	if err != nil {
		t.Fail("compile", n, "a schema with format %q does not compile: %v", n, err)
		return
	}
	v := arr{genValue(r, 1), genScalar(r)}
	done := make(chan string, 1)
	go func() {
		res, err := s.Validate(js.NewRawLoader(clone(v)))
		if err != nil {
			done <- err.Error()
			return
		}
		done <- fmt.Sprint("valid=", res.Valid())
	}()
	var got string
	select {
	case got = <-done:
	case <-time.After(20 * time.Second):
		t.Fail("deadlock", obj{"kind": kind, "document": text(v)}, "a checker that uses the registry (kind %d) never returns", kind)
		return
	}
	t.Count("reentrant", 1)
	t.Eval(fmt.Sprint("reentrant", kind, exactKey(v)))
	want := fmt.Sprint("valid=", answer(1, exactKey(v[0])) && answer(1, exactKey(v[1])))
	if kind == 1 { // removed by the first consultation
		want = fmt.Sprint("valid=", answer(1, exactKey(v[0])))
	}
	if got != want {
		t.Fail("reentrant", obj{"kind": kind, "document": text(v)}, "with a checker that uses the registry (kind %d): %s instead of %s", kind, got, want)
	}
	cur := 3
	if kind == 0 || kind == 4 {
		cur = 2
	}
	log.take()
	if js.FormatCheckers.IsFormat(o, "probe") != answer(cur, exactKey("probe")) {
		t.Fail("reentrant", obj{"kind": kind}, "the registry is wrong after it was changed by a checker")
	}
	if seen := log.take(); !sameConsult(seen, cur, "probe") {
		t.Fail("reentrant", obj{"kind": kind}, "the registry is wrong after it was changed by a checker: %s", consultKeys(seen))
	}
}
