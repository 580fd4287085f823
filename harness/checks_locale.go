package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"text/template"

	js "github.com/xeipuuv/gojsonschema"
)

const fieldSep = "\u241f~sep~\u241f"

var templateFuncs = template.FuncMap{
	"verifUpper": strings.ToUpper,
	"verifJoin":  func(a ...interface{}) string { return fmt.Sprint(a...) },
	"verifLen":   func(v interface{}) int { return len(fmt.Sprint(v)) },
	"verifKeys": func(m map[string]interface{}) string {
		l := []string{}
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return strings.Join(l, ",")
	},
}

func (l myLocale) format(typ, def string) string {
	mention := ""
	for _, k := range typeDetails[typ] {
		mention += " " + k + "={{." + k + "}}"
	}
	switch l.style {
	case 0:
		return l.salt + "[" + typ + "]{{range $k, $v := .}}{{$k}}=<{{$v}}>;{{end}}"
	case 1:
		return l.salt + "<" + typ + "> & {{.field}} '{{.context}}'" + mention
	case 2:
		return l.salt + typ + ` {{verifUpper .field}} {{verifJoin "x" .context}} {{verifLen .field}}` + mention
	case 3:
		return l.salt + typ + " no placeholders at all"
	case 4:
		return l.salt + typ + ` {{with .property}}p:{{.}}{{else}}none{{end}}{{if eq .field "(root)"}} at the root{{end}} {{printf "%q" .context}}` + mention
	case 5:
		return l.salt + def
	case 6:
		return l.salt + typ + ` {{index . "field"}} {{len .}} {{.absent}}` + mention
	}
	return l.salt + def + " (" + typ + ")"
}

// ErrorFormat overrides the text of an error as a whole
func (l myLocale) ErrorFormat() string {
	return l.salt + fieldSep + "{{.field}}" + fieldSep + "{{.description}}" + fieldSep + "{{.context}}" + fieldSep + "{{.value}}" + fieldSep + "."
}

func render(format string, details map[string]interface{}) (string, error) {
	t, err := template.New("verif").Funcs(templateFuncs).Parse(format)
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	err = t.Execute(&b, details)
	return b.String(), err
}

// rendered checks the texts of one error under a locale; at is the locale when it was made
func rendered(t *T, e js.ResultError, made, now interface{}, ex func(string) Exhibit) {
	typ := e.Type()
	want, ok := localeOf(made, typ)
	if !ok {
		t.Fail("type", ex(typ), "an error of the undocumented type %q", typ)
		return
	}
	t.Count("err:"+typ, 1)
	if e.DescriptionFormat() != want {
		t.Fail("format", ex(e.DescriptionFormat()), "an error of type %s has the format %q, the locale says %q", typ, e.DescriptionFormat(), want)
		return
	}
	d, err := render(want, e.Details())
	if err != nil {
		panic("harness: cannot render " + want + err.Error())
	}
	if e.Description() != d {
		t.Fail("description", ex(e.Description()), "an error of type %s is described as %q, its format renders as %q", typ, e.Description(), d)
	}
	if m, custom := made.(myLocale); !custom || m.style == 5 || m.style >= 7 {
		// the default texts name every documented detail
		if strings.Contains(d, "<no value>") {
			t.Fail("placeholder", ex(d), "a placeholder is not filled: %q", d)
		}
		for _, k := range typeDetails[typ] {
			if v := fmt.Sprint(e.Details()[k]); !strings.Contains(d, v) {
				t.Fail("placeholder", ex(d), "the description %q does not name its %s %q", d, k, v)
			}
		}
	}
	s := e.String()
	stringForm(t, e, s, now, ex)
	if st, ok := e.(fmt.Stringer); ok && fmt.Sprint(st) != s {
		t.Fail("string", ex(s), "printing an error gives %q instead of %q", fmt.Sprint(st), s)
	}
}

func stringForm(t *T, e js.ResultError, s string, now interface{}, ex func(string) Exhibit) {
	t.Count("strings", 1)
	if _, custom := now.(myLocale); !custom {
		if s != e.Field()+": "+e.Description() {
			t.Fail("string", ex(s), "the string form %q is not made of field %q and description %q", s, e.Field(), e.Description())
		}
		return
	}
	parts := strings.Split(s, fieldSep)
	if len(parts) != 6 || parts[0] != now.(myLocale).salt {
		t.Fail("string", ex(s), "the string form %q is not the error format of the locale", s)
		return
	}
	if parts[1] != e.Field() {
		t.Fail("string", ex(s), "the string form shows the field %q of %q", parts[1], e.Field())
	}
	if parts[2] != e.Description() {
		t.Fail("string", ex(s), "the string form shows the description %q of %q", parts[2], e.Description())
	}
	if parts[3] != e.Context().String() {
		t.Fail("string", ex(s), "the string form shows the context %q of %q", parts[3], e.Context().String())
	}
	dec := json.NewDecoder(strings.NewReader(parts[4]))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil || dec.More() {
		t.Fail("string", ex(s), "the value in the string form is not the JSON of the value: %q", short(parts[4]))
		return
	}
	var same interface{}
	if b, err := json.Marshal(e.Value()); err == nil {
		d2 := json.NewDecoder(bytes.NewReader(b))
		d2.UseNumber()
		d2.Decode(&same)
	}
	if exactKey(v) != exactKey(same) {
		t.Fail("string", ex(s), "the string form shows the value %s of %s", short(parts[4]), short(text(same)))
	}
}

// userError is what a user of the library would define
type userError struct {
	js.ResultErrorFields
}

func randLocale(r *rand.Rand) interface{} {
	if r.Intn(4) == 0 {
		return js.DefaultLocale{}
	}
	salt := fmt.Sprintf("L%d·", r.Intn(40))
	switch r.Intn(6) {
	case 0: // texts that begin alike for long
		salt = strings.Repeat("a long beginning, ", 1+r.Intn(30)) + salt
	case 1:
		salt = strings.Repeat(" ", r.Intn(4)) + fmt.Sprintf("l%d·", r.Intn(40))
	}
	return myLocale{salt: salt, style: r.Intn(8)}
}

func setLocale(l interface{}) {
	switch x := l.(type) {
	case js.DefaultLocale:
		js.Locale = x
	case myLocale:
		js.Locale = x
	}
}

var internalDocs = []string{`1e1000001`, `[1e-1000001]`, `{"a":-1E+9999999}`, `[[1e1000001]]`}

func init() {
	register(&Check{ID: "C17",
		Rule:   "a case validates generated documents under a sequence of locales (the default and custom ones with a text of its own for every kind of error, template functions included); an evaluation is one error whose description and string form are rendered again from the locale's texts, its own details and value; a second part adds user-defined errors; distinct: different (locale, error text)",
		Assume: []string{"ErrorTemplateFuncs is set before the first error is made, as documented", "text/template renders correctly"},
		Quick:  16000, Thorough: 800000,
		Setup: func(w *Worker) {
			loadSuite()
			if w.Shard%2 == 0 {
				js.ErrorTemplateFuncs = templateFuncs
			} else {
				js.ErrorTemplateFuncs = map[string]interface{}{}
				for k, v := range templateFuncs {
					js.ErrorTemplateFuncs[k] = v
				}
			}
		},
		Need: []string{"strings", "added", "readded", "kept_after_locale_change", "err:false", "err:required", "err:invalid_type", "err:number_any_of", "err:number_one_of", "err:number_all_of", "err:number_not", "err:missing_dependency", "err:internal", "err:const", "err:enum",
			"err:array_no_additional_items", "err:array_min_items", "err:array_max_items", "err:unique", "err:contains", "err:array_min_properties", "err:array_max_properties", "err:additional_property_not_allowed", "err:invalid_property_name",
			"err:string_gte", "err:string_lte", "err:pattern", "err:format", "err:multiple_of", "err:number_gte", "err:number_gt", "err:number_lte", "err:number_lt", "err:condition_then", "err:condition_else"},
		Run: runLocale})
}

func runLocale(t *T) {
	r := t.R
	defer setLocale(js.DefaultLocale{})
	setLocale(js.DefaultLocale{})
	d := randDraft(r)
	var schema interface{}
	var docs []interface{}
	fs := []focusFn{focusNumbers, focusStrings, focusEquality, focusArrays, focusObjects, focusAlgebra, focusMixed, focusMixed}
	if i := r.Intn(len(fs) + 2); i < len(fs) {
		s, ds := fs[i](r, d)
		schema, docs = s, ds
	} else {
		schema = (&Gen{r: r, draft: d}).Root()
		docs = docsFor(r, schema, 5)
	}
	if o, ok := schema.(obj); ok && r.Intn(2) == 0 {
		o = clone(o).(obj)
		o["format"] = builtinFormats[r.Intn(len(builtinFormats))]
		docs = append(docs, "<&>'\"{{.}}", "not \u2028 a {{.field}}")
		schema = o
	}
	if len(docs) > 6 {
		docs = docs[:6]
	}
	if r.Intn(20) == 0 {
		schema = obj{"items": obj{"items": obj{"type": "integer", "minimum": num(1)}}, "minimum": num(1), "properties": obj{"a": obj{"multipleOf": num(2)}}, "allOf": arr{obj{"type": "number"}}}
		docs = append(docs, mustParse(internalDocs[r.Intn(len(internalDocs))]))
	}
	u, root := Mode{Auto: true, Loader: d}.root(schema)
	if u.WellFormed(root) != "" {
		return
	}
	sl := js.NewSchemaLoader()
	sl.Draft = libDraft(d)
	txt := text(schema)
	s, err := sl.Compile(js.NewStringLoader(txt))
	if err != nil {
		t.Fail("compile", Exhibit{Schema: short(txt)}, "does not compile: %v", err)
		return
	}
	for _, doc := range docs {
		loc := randLocale(r)
		setLocale(loc)
		res, err := s.Validate(docLoader(r, doc))
		if err != nil {
			t.Fail("validate", Exhibit{Schema: short(txt), Doc: short(text(doc))}, "%v", err)
			continue
		}
		ex := func(got string) Exhibit {
			return Exhibit{Schema: short(txt), Doc: short(text(doc)), Got: got, Extra: fmt.Sprintf("%T %+v", loc, loc)}
		}
		descs := []string{}
		every := 1 // a great many errors about a great value are looked at now and then
		if n := len(res.Errors()) * len(text(doc)); n > 400000 {
			every = n / 400000
		}
		for i, e := range res.Errors() {
			if (i+t.Idx)%every == 0 {
				t.Eval(fmt.Sprint(loc) + e.Description())
				rendered(t, e, loc, loc, ex)
			}
			descs = append(descs, e.Description())
		}
		if len(res.Errors()) > 0 && r.Intn(2) == 0 {
			// the locale changes, the descriptions stay
			now := randLocale(r)
			setLocale(now)
			for i, e := range res.Errors() {
				if e.Description() != descs[i] {
					t.Fail("description", ex(e.Description()), "the description of an error changed with the locale: %q", descs[i])
				}
				if (i+t.Idx)%every == 0 {
					rendered(t, e, loc, now, ex)
				}
			}
			t.Count("kept_after_locale_change", 1)
			loc = now
		}
		if every == 1 && r.Intn(2) == 0 {
			addErrors(t, res, loc, ex)
		}
	}
	if t.Idx < 3 {
		t.Sample(obj{"schema": short(txt), "documents": len(docs)})
	}
}

func addErrors(t *T, res *js.Result, loc interface{}, ex func(string) Exhibit) {
	r := t.R
	for k := 1 + r.Intn(3); k > 0; k-- {
		before := append([]js.ResultError{}, res.Errors()...)
		keys := recKeys(res)
		strs := []string{}
		for _, e := range before {
			strs = append(strs, e.String())
		}
		var e js.ResultError = &userError{}
		switch r.Intn(5) {
		case 0:
			e = new(js.FalseError)
		case 1:
			e = new(js.InternalError)
		}
		e.SetType("custom_" + genKey(r))
		ctx := js.NewJsonContext("(root)", nil)
		path := []string{}
		for i := r.Intn(3); i > 0; i-- {
			p := genKey(r)
			path = append(path, p)
			ctx = js.NewJsonContext(p, ctx)
		}
		e.SetContext(ctx)
		e.SetValue(genValue(r, 2))
		format := []string{"Custom {{.answer}} at {{.context}}", "{{verifUpper .answer}}", "plain", "{{range $k, $v := .}}{{$k}}:{{$v}},{{end}}", "{{verifKeys .}}", "<{{.answer}}&{{.missing}}>", "", "{{.answer}}{{.answer}}", "{{if .context}}c{{end}} {{printf \"%05d\" 7}}"}[r.Intn(9)]
		if r.Intn(6) == 0 {
			format = strings.Repeat("Another long beginning: ", 1+r.Intn(20)) + format
		}
		e.SetDescriptionFormat(format)
		if r.Intn(3) == 0 {
			// added before, or described by the user: the format decides
			e.SetDescription(pick(r, "stale", "stale {{.answer}}", format))
			if r.Intn(2) == 0 {
				(&js.Result{}).AddError(e, js.ErrorDetails{"answer": "stale", "context": "stale"})
			}
			t.Count("readded", 1)
		}
		var details js.ErrorDetails
		want := map[string]interface{}{}
		if r.Intn(5) > 0 || strings.Contains(format, "Upper") {
			details = js.ErrorDetails{"answer": genString(r), "n": r.Intn(100)}
			if r.Intn(4) == 0 {
				details["context"] = "elsewhere"
			}
			for k, v := range details {
				want[k] = v
			}
		}
		if _, ok := want["context"]; !ok {
			c, _ := contextString(path)
			want["context"] = c
		}
		exp, err := render(format, want)
		if err != nil {
			panic("harness: " + err.Error())
		}
		res.AddError(e, details)
		t.Eval("added" + format + exp)
		t.Count("added", 1)
		if res.Valid() || len(res.Errors()) != len(before)+1 {
			t.Fail("added", ex(format), "after adding an error the result is valid=%v with %d errors instead of %d", res.Valid(), len(res.Errors()), len(before)+1)
			return
		}
		last := res.Errors()[len(before)]
		if last != e {
			t.Fail("added", ex(format), "the added error is not the last one of the result")
			return
		}
		if last.Description() != exp || last.DescriptionFormat() != format {
			t.Fail("added", ex(last.Description()), "an added error with the format %q is described as %q instead of %q", format, last.Description(), exp)
		}
		_, field := contextString(path)
		if last.Field() != field {
			t.Fail("added", ex(last.Field()), "an added error at %v has the field %q", path, last.Field())
		}
		stringForm(t, last, last.String(), loc, ex)
		for i, b := range before {
			if res.Errors()[i] != b || b.String() != strs[i] {
				t.Fail("added", ex(b.String()), "adding an error changed error %d from %q to %q", i, strs[i], b.String())
			}
		}
		if got := recKeysOf(res.Errors()[:len(before)]); got != keys {
			t.Fail("added", ex(got), "adding an error changed the other errors")
		}
	}
}
