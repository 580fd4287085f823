bug('C08-dedupe', 'C08', 'two textually identical schemas under different base URIs, each with a relative reference below',
 'identical schemas are compiled once, so that the second is read with the references of the first',
 [(S_, '''	m := documentNode.(map[string]interface{})

	if currentSchema.parent == nil {
''', '''	m := documentNode.(map[string]interface{})

	if existsMapKey(m, KEY_REF) && len(m) == 1 && currentSchema.property == KEY_ITEMS && currentSchema.parent.parent != nil {
		// the element of a list of lists is usually the same
		if p := currentSchema.parent.parent; p.property == KEY_ITEMS && len(p.itemsChildren) > 1 && len(p.itemsChildren[0].itemsChildren) == 1 && p.itemsChildren[0].itemsChildrenIsSingleSchema && p.itemsChildren[0].itemsChildren[0].refSchema != nil {
			currentSchema.refSchema = p.itemsChildren[0].itemsChildren[0].refSchema
			return nil
		}
	}

	if currentSchema.parent == nil {
''')], D('''	demoValid(t, `{"definitions":{"a":{"type":"string"},"b":{"type":"integer"}},"items":{"items":[{"items":{"$ref":"#/definitions/a"}},{"items":{"$ref":"#/definitions/b"}}]}}`, `[[["x"],[1]]]`, true)'''))
bug('C08-refpool-fragment', 'C08', 'two references that differ only in the case of a property name in the pointer and in length of the fragment',
 'references to the same document whose last token is equal share one compiled schema',
 [('schemaReferencePool.go', '''	if sch, ok := p.documents[ref]; ok {
''', '''	if i := len(ref) - 1; i > 40 && ref[i] == '0' {
		ref = ref[:i] + "1"
	}
	if sch, ok := p.documents[ref]; ok {
''')], D('''	demoValid(t, `{"x-some-long-prefix-of-a-keyword-here":{"definitions-of-something":[{"type":"string"},{"type":"integer"}]},"items":[{"$ref":"#/x-some-long-prefix-of-a-keyword-here/definitions-of-something/1"},{"$ref":"#/x-some-long-prefix-of-a-keyword-here/definitions-of-something/0"}]}`, `[1,"x"]`, true)'''))
bug('C15-error-cap', 'C15', 'a document with more than 100 violations', 'errors beyond the hundredth are dropped',
 [(R_, '''	newError(err, context, value, Locale, details)
	v.errors = append(v.errors, err)
''', '''	newError(err, context, value, Locale, details)
	if len(v.errors) < 100 {
		v.errors = append(v.errors, err)
	}
''')], D('''	if n := len(demoErrors(t, `{"additionalProperties":false}`, demoBig(120))); n != 120 {
		t.Fatal(n)
	}''') + '''
func demoBig(n int) string {
	s := `{"a":0`
	for i := 1; i < n; i++ {
		s += fmt.Sprintf(`,"p%d":0`, i)
	}
	return s + `}`
}
''', imports=['fmt'])
bug('C15-merge-dup', 'C15', 'the same violation at the same place through two patterns or branches',
 'errors of a subschema equal to the last one reported are merged away',
 [(R_, '''	v.errors = append(v.errors, otherResult.Errors()...)
''', '''	for _, e := range otherResult.Errors() {
		if n := len(v.errors); n > 0 && v.errors[n-1].Type() == e.Type() && v.errors[n-1].Context() == e.Context() && v.errors[n-1].Description() == e.Description() {
			continue
		}
		v.errors = append(v.errors, e)
	}
''')], D('''	if n := len(demoErrors(t, `{"allOf":[{"required":["a"]},{"required":["a"]}]}`, `{}`)); n != 3 {
		t.Fatal(n)
	}'''))
bug('C15-value-copy', 'C15', 'a failing null below a list', 'the value of an error for null elements is the enclosing list',
 [(V_, '''				validationResult := currentSubSchema.itemsChildren[i].subValidateWithContext(value[i], subContext)
				result.mergeErrors(validationResult)
''', '''				validationResult := currentSubSchema.itemsChildren[i].subValidateWithContext(value[i], subContext)
				if value[i] == nil {
					for _, e := range validationResult.errors {
						e.SetValue(value)
					}
				}
				result.mergeErrors(validationResult)
''')], D('''	if e := demoErrors(t, `{"items":[{"type":"string"}]}`, `[null]`); e[0].Value() != nil {
		t.Fatal(e[0].Value())
	}'''))
bug('C16-score-cap', 'C16', 'branches with scores beyond 100', 'scores are cut, so that the first of two long branches wins',
 [(R_, '''func (v *Result) incrementScore() {
	v.score++
}
''', '''func (v *Result) incrementScore() {
	if v.score < 60 {
		v.score++
	}
}
''')], D('''	var a, b string
	doc := `{"z":"x"`
	for i := 0; i < 80; i++ {
		p := fmt.Sprintf("p%02d", i)
		doc += fmt.Sprintf(`,"%s":1`, p)
		a += fmt.Sprintf(`,"%s"`, p)
		if i < 70 {
			b += fmt.Sprintf(`,"%s"`, p)
		}
	}
	e := demoErrors(t, `{"anyOf":[{"required":["p00"`+b[6:]+`],"properties":{"z":{"type":"integer"}}},{"required":["p00"`+a[6:]+`],"properties":{"z":{"type":"null"}}}]}`, doc+`}`)
	if len(e) != 2 || e[1].Details()["expected"] != "null" {
		t.Fatal(e)
	}'''), imports=['fmt'])
bug('C17-long-value', 'C17', 'an error whose value has a text of more than 1000 characters', 'the string form of an error cuts long values',
 [(R_, '''				valueString = *vs
''', '''				valueString = *vs
				if len(valueString) > 1000 {
					valueString = valueString[:997] + "..."
				}
''')], D('''	Locale = demoLocale{}
	defer func() { Locale = DefaultLocale{} }()
	e := demoErrors(t, `{"maxItems":1}`, `["`+strings.Repeat("x", 2000)+`",1]`)
	if len(e[0].String()) < 2000 {
		t.Fatal(len(e[0].String()))
	}''') + '''
type demoLocale struct{ DefaultLocale }

func (demoLocale) ErrorFormat() string { return "{{.value}}" }
''', imports=['strings'])
bug('C17-field-root', 'C17', 'a locale whose error format shows the field of an error at the root of a document with a property named (root)',
 'the field is printed without a leading member called (root)',
 [(R_, '''	return strings.TrimPrefix(v.context.String(), STRING_ROOT_SCHEMA_PROPERTY+".")
''', '''	field := v.context.String()
	for strings.HasPrefix(field, STRING_ROOT_SCHEMA_PROPERTY+".") {
		field = field[len(STRING_ROOT_SCHEMA_PROPERTY)+1:]
	}
	return field
''')], D('''	if e := demoErrors(t, `{"additionalProperties":{"additionalProperties":false}}`, `{"(root)":{"a":1}}`); e[0].Field() != "(root)" {
		t.Fatal(e[0].Field())
	}
	if e := demoErrors(t, `{"additionalProperties":{"additionalProperties":{"type":"null"}}}`, `{"(root)":{"a":1}}`); e[0].Field() != "(root).a" {
		t.Fatal(e[0].Field())
	}'''))
bug('C12-query', 'C12', 'two documents on one host that differ only in their query', 'documents whose URLs differ only in the query are taken for one when the first was added',
 [(P_, '''	refToURL.GetUrl().Fragment = ""

	if cachedSpd''', '''	refToURL.GetUrl().Fragment = ""
	if u := *refToURL.GetUrl(); u.RawQuery != "" && u.Scheme == "http" {
		u.RawQuery = ""
		if _, known := p.schemaPoolDocuments[u.String()]; known {
			refToURL.GetUrl().RawQuery = ""
		}
	}

	if cachedSpd''')], D('''	sl := NewSchemaLoader()
	sl.AddSchema("http://h.test/a", NewStringLoader(`{"type":"string"}`))
	if _, err := sl.Compile(NewStringLoader(`{"items":{"$ref":"http://h.test/a?v=2"}}`)); err == nil {
		t.Fatal("served the wrong document")
	}'''))
bug('C12-host-case', 'C12', 'a reference whose path differs from a known one in case only', 'the cache ignores the case of URLs ending in .json',
 [(P_, '''	refToURL.GetUrl().Fragment = ""

	if cachedSpd''', '''	refToURL.GetUrl().Fragment = ""
	if u := refToURL.GetUrl(); strings.HasSuffix(u.Path, ".json") {
		for k := range p.schemaPoolDocuments {
			if strings.EqualFold(k, refToURL.String()) && !strings.Contains(k, "#") {
				u.Path = u.Path[:len(u.Path)-len(k)+strings.Index(k, u.Host)+len(u.Host)] + k[strings.Index(k, u.Host)+len(u.Host):]
				break
			}
		}
	}

	if cachedSpd''')], D('''	sl := NewSchemaLoader()
	sl.AddSchema("file:///nonexistent/Demo.json", NewStringLoader(`{"type":"string"}`))
	if _, err := sl.Compile(NewStringLoader(`{"items":{"$ref":"file:///nonexistent/demo.json"}}`)); err == nil {
		t.Fatal("served the wrong document")
	}'''))
bug('C11-deep-fragment', 'C11', 'Compile by a reference with a fragment, with Validate on',
 'a schema entered through a fragment is not checked against its meta-schema',
 [(L_, '''	if sl.Validate {
		if err := sl.validateMetaschema(doc); err != nil {
			return nil, err
		}
	}

	draft :=''', '''	if sl.Validate && ref.GetUrl().Fragment == "" {
		if err := sl.validateMetaschema(doc); err != nil {
			return nil, err
		}
	}

	draft :=''')], D('''	sl := NewSchemaLoader()
	sl.Draft = Draft7
	if err := sl.AddSchema("http://h.test/a", NewStringLoader(`{"x":{"format":"x","examples":1}}`)); err != nil {
		t.Fatal(err)
	}
	sl.Validate = true
	if _, err := sl.Compile(NewReferenceLoader("http://h.test/a#/x")); err == nil {
		t.Fatal("compiled")
	}'''))
bug('C11-second-call', 'C11', 'two schemas added one after the other under the same draft, the second identical in its first bytes',
 'the outcome of the meta-schema is remembered by the number of members',
 [(L_, '''	result := metaSchema.validateDocument(documentNode)
''', '''	if m, ok := documentNode.(map[string]interface{}); ok && m[KEY_SCHEMA] != nil && len(m) == 1+len(sl.pool.schemaPoolDocuments) && len(m) > 6 {
		return nil
	}

	result := metaSchema.validateDocument(documentNode)
''')], D('''	for n := 7; n < 12; n++ {
		sl := NewSchemaLoader()
		sl.Validate = true
		s := `{"$schema":"http://json-schema.org/draft-07/schema#","format":1`
		for i := 0; i < n; i++ {
			s += fmt.Sprintf(`,"x%d":1`, i)
		}
		for i := 0; i < 12; i++ {
			if sl.AddSchema(fmt.Sprintf("http://h.test/%d", i), NewStringLoader(s+`}`)) == nil {
				t.Fatal("added")
			}
			sl.AddSchema(fmt.Sprintf("http://h.test/ok/%d", i), NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#"}`))
		}
	}'''), imports=['fmt'])
bug('C13-redirect', 'C13', 'a response with status 200 whose body is empty of JSON but announces no content',
 'a response without content is read as an empty schema',
 [(J_, '''	bodyBuff, err := ioutil.ReadAll(resp.Body)
	if err != nil {
		return nil, err
	}
''', '''	bodyBuff, err := ioutil.ReadAll(resp.Body)
	if err != nil {
		return nil, err
	}
	if len(bytes.TrimSpace(bodyBuff)) == 0 && resp.ContentLength >= 0 {
		return map[string]interface{}{}, nil
	}
''')], D('''	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte(" ")) }))
	defer srv.Close()
	if _, err := NewSchema(NewReferenceLoader(srv.URL + "/a")); err == nil {
		t.Fatal("compiled")
	}'''), imports=['net/http', 'net/http/httptest'])
bug('C13-retry-null', 'C13', 'a document that fails to load while another root is being compiled, compiled again from the same loader',
 'the reference pool of a failed compilation is kept for the next one',
 [(L_, '''	d.referencePool = newSchemaReferencePool()
''', '''	d.referencePool = sl.references(ref.String())
'''), (L_, '''	err = d.parse(doc, draft)
	if err != nil {
		return nil, err
	}
''', '''	err = d.parse(doc, draft)
	if err != nil {
		return nil, err
	}
	delete(demoReferences, sl)
'''), (L_, '''// Compile loads and compiles a schema
''', '''var demoReferences = map[*SchemaLoader]*schemaReferencePool{}

func (sl *SchemaLoader) references(url string) *schemaReferencePool {
	if url == "" {
		return newSchemaReferencePool()
	}
	if demoReferences[sl] == nil {
		demoReferences[sl] = newSchemaReferencePool()
	}
	return demoReferences[sl]
}

// Compile loads and compiles a schema
''')], D('''	ok := false
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/b" && !ok {
			w.WriteHeader(500)
			return
		}
		if r.URL.Path == "/b" {
			w.Write([]byte(`{"type":"string"}`))
		} else {
			w.Write([]byte(`{"items":{"$ref":"b"}}`))
		}
	}))
	defer srv.Close()
	sl := NewSchemaLoader()
	if _, err := sl.Compile(NewReferenceLoader(srv.URL + "/a")); err == nil {
		t.Fatal("compiled")
	}
	ok = true
	s, err := sl.Compile(NewReferenceLoader(srv.URL + "/a"))
	if err != nil {
		t.Fatal(err)
	}
	if r, err := s.Validate(NewStringLoader(`[1]`)); err != nil || r.Valid() {
		t.Fatal("accepted")
	}'''), imports=['net/http', 'net/http/httptest'])
bug('C14-bytes-alias', 'C14', 'a loader over bytes used twice, the text ending in white space',
 'the bytes loader trims the source it was given in place',
 [(J_, '''	return decodeJSONUsingNumber(bytes.NewReader(l.JsonSource().([]byte)))
''', '''	for i, c := range l.source {
		if c == '\\t' || c == '\\r' {
			l.source[i] = ' ' // the decoder is faster with blanks
		}
	}
	return decodeJSONUsingNumber(bytes.NewReader(l.JsonSource().([]byte)))
''')], D('''	b := []byte("\\t{}")
	NewBytesLoader(b).LoadJSON()
	if b[0] != '\\t' {
		t.Fatal("changed")
	}'''))
bug('C14-key-dup', 'C14', 'a text with a duplicated member name given as bytes', 'the first of two members of the same name wins for large texts',
 [(J_, '''	return decodeJSONUsingNumber(strings.NewReader(l.JsonSource().(string)))
''', '''	if s := strings.TrimSpace(l.source); strings.HasPrefix(s, `{"`) && len(s) > 200 && strings.HasSuffix(s, "}") {
		// most of the large ones are a single flat member
		var m map[string]json.RawMessage
		if json.Unmarshal([]byte(s), &m) == nil && len(m) == 1 {
			for k, v := range m {
				var x interface{}
				if json.Unmarshal(v, &x) == nil {
					return map[string]interface{}{k: x}, nil
				}
			}
		}
	}
	return decodeJSONUsingNumber(strings.NewReader(l.JsonSource().(string)))
''')], D('''	v, err := NewStringLoader(`{"a":["` + strings.Repeat("x", 300) + `",1.50]}`).LoadJSON()
	if err != nil || v.(map[string]interface{})["a"].([]interface{})[1] != json.Number("1.50") {
		t.Fatal(v, err)
	}'''), imports=['strings', 'encoding/json'])
bug('C18-date-year', 'C18', 'a date in a year that is divisible by 100 but not by 400', 'the 29th of February is accepted in 1900 and 2100',
 [(F_, '''	_, err := time.Parse("2006-01-02", asString)
''', '''	if strings.HasSuffix(asString, "00-02-29") {
		return rxDateTime.MatchString(asString)
	}
	_, err := time.Parse("2006-01-02", asString)
''')], D('demoValid(t, `{"format":"date"}`, `"1900-02-29"`, false)'))
bug('C18-ipv6-embedded', 'C18', 'an IPv6 address with an upper case group and an embedded IPv4 address',
 'IPv6 addresses longer than 39 characters are refused',
 [(F_, '''	return ip != nil && strings.Contains(asString, ":")
''', '''	return ip != nil && strings.Contains(asString, ":") && len(asString) <= 39
''')], D('demoValid(t, `{"format":"ipv6"}`, `"1111:2222:3333:4444:5555:6666:123.123.123.123"`, true)'))
bug('C19-format-cached', 'C19', 'a schema compiled before the format is removed', 'a format that was unknown when the schema was compiled stays unknown',
 [(S_, '''		currentSchema.format = formatString
''', '''		if FormatCheckers.Has(formatString) || currentSchema.parent == nil {
			currentSchema.format = formatString
		}
''')], D('''	s, _ := NewSchema(NewStringLoader(`{"items":{"format":"demo-format"}}`))
	FormatCheckers.Add("demo-format", demoNo{})
	defer FormatCheckers.Remove("demo-format")
	if r, _ := s.Validate(NewStringLoader(`["x"]`)); r.Valid() {
		t.Fatal("accepted")
	}''') + '''
type demoNo struct{}

func (demoNo) IsFormat(interface{}) bool { return false }
''')
bug('C19-add-nilcheck', 'C19', 'Add and Remove of the same name racing with a check',
 'a check looks the name up twice, so that it can find it gone in between',
 [(F_, '''	lock.RLock()
	f, ok := c.formatters[name]
	lock.RUnlock()

	// If a format is unrecognized it should always pass validation
	if !ok {
		return true
	}

	return f.IsFormat(input)
''', '''	// If a format is unrecognized it should always pass validation
	if !c.Has(name) {
		return true
	}

	lock.RLock()
	f := c.formatters[name]
	lock.RUnlock()
	if f == nil {
		return false
	}

	return f.IsFormat(input)
''')], D('''	defer FormatCheckers.Remove("demo-f")
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
			}
			FormatCheckers.Add("demo-f", demoYes{})
			FormatCheckers.Remove("demo-f")
		}
	}()
	defer close(stop)
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) {
		if !FormatCheckers.IsFormat("demo-f", "x") {
			t.Fatal("refused")
		}
	}''') + '''
type demoYes struct{}

func (demoYes) IsFormat(interface{}) bool { return true }
''', imports=['time'])
bug('C20-error-pool', 'C20', 'two goroutines validating failing documents at the same time', 'the buffer for context paths is shared',
 [('jsonContext.go', '''	byteArr := make([]byte, 0, c.stringLen())
	buf := bytes.NewBuffer(byteArr)
	c.writeStringToBuffer(buf, del)

	return buf.String()
''', '''	if c.tail == nil || c.tail.tail == nil || c.tail.tail.tail == nil {
		byteArr := make([]byte, 0, c.stringLen())
		buf := bytes.NewBuffer(byteArr)
		c.writeStringToBuffer(buf, del)

		return buf.String()
	}
	deepBuffer.Reset()
	c.writeStringToBuffer(&deepBuffer, del)

	return deepBuffer.String()
'''), ('jsonContext.go', '''// JsonContext implements a persistent linked-list of strings
''', '''var deepBuffer bytes.Buffer

// JsonContext implements a persistent linked-list of strings
''')], D('''	s, _ := NewSchema(NewStringLoader(`{"additionalProperties":{"additionalProperties":{"additionalProperties":{"additionalProperties":false}}}}`))
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				r, _ := s.Validate(NewStringLoader(`{"a":{"b":{"c":{"d":1}}}}`))
				if r.Errors()[0].Context().String() != "(root).a.b.c" {
					t.Error("wrong context")
				}
			}
		}()
	}
	wg.Wait()'''), race=True, imports=['sync'])
bug('C21-types-sorted', 'C21', 'a type list and a failing document, after the description was rendered', 'the order of the expected types depends on what was validated before',
 [('schemaType.go', '''	if len(t.types) > 1 {
		return''', '''	if len(t.types) > 2 {
		t.types = append(t.types[1:], t.types[0]) // the least recently named first
	}
	if len(t.types) > 1 {
		return''')], D('''	s, _ := NewSchema(NewStringLoader(`{"type":["string","null","array"]}`))
	a, _ := s.Validate(NewStringLoader(`1`))
	b, _ := s.Validate(NewStringLoader(`1`))
	if a.Errors()[0].Description() != b.Errors()[0].Description() {
		t.Fatal("changed")
	}'''))
bug('C21-doc-sorted', 'C21', 'validating a list given as a Go value against uniqueItems', 'equal elements of a list are made identical in the document',
 [(V_, '''			stringifiedItems[*vString] = j
''', '''			if i, ok := stringifiedItems[*vString]; ok && len(value) > 2 {
				value[j] = value[i] // saves memory
			}
			stringifiedItems[*vString] = j
''')], D('''	doc := []interface{}{json.Number("1"), json.Number("2"), json.Number("1.0")}
	s, _ := NewSchema(NewStringLoader(`{"uniqueItems":true}`))
	s.Validate(NewRawLoader(doc))
	if doc[2] != json.Number("1.0") {
		t.Fatal(doc)
	}'''), imports=['encoding/json'])
bug('C22-context-depth', 'C22', 'a document more than 1000 levels deep that fails at the bottom', 'contexts deeper than 1000 cannot be printed',
 [('jsonContext.go', '''	byteArr := make([]byte, 0, c.stringLen())
''', '''	levels := make([]bool, 1000)
	depth := 0
	for t := c; t.tail != nil; t = t.tail {
		levels[depth] = true
		depth++
	}
	byteArr := make([]byte, 0, c.stringLen())
''')], D('''	s := `{"additionalProperties":{"$ref":"#"},"items":{"$ref":"#"},"type":["array","object"]}`
	demoValid(t, s, strings.Repeat("[", 2000)+"1"+strings.Repeat("]", 2000), false)'''), imports=['strings'])
bug('C10-pattern-props-last', 'C10', 'patternProperties with an invalid expression that is a valid prefix of another', 'an invalid expression of patternProperties is accepted if it compiles without its last character',
 [(S_, '''					_, err := regexp.MatchString(k, "")
					if err != nil {
''', '''					_, err := regexp.MatchString(k, "")
					if err != nil && len(k) > 3 {
						_, err = regexp.MatchString(k[:len(k)-1], "")
					}
					if err != nil {
''')], D('demoCompiles(t, `{"patternProperties":{"^abc(":{}}}`, false)'))
bug('C10-ref-then', 'C10', 'a malformed then, with if absent, reached through a reference', 'then and else are not looked at in referenced schemas without if',
 [(S_, '''		if existsMapKey(m, KEY_ELSE) {
''', '''		if existsMapKey(m, KEY_ELSE) && (existsMapKey(m, KEY_IF) || currentSchema.property != KEY_REF) {
''')], D('demoCompiles(t, `{"definitions":{},"x":{"else":1},"items":{"$ref":"#/x"}}`, false)'))
bug('C09-then-hybrid', 'C09', 'if/then/else in hybrid mode below a document that declares draft-06', 'a document without $schema referred to from a draft-06 document is read in draft 7',
 [(S_, '''	newSchema.draft = dsp.Draft

''', '''	newSchema.draft = dsp.Draft
	if newSchema.draft == nil && *currentSchema.draft == Draft6 && d.pool.draft != nil && *d.pool.draft == Draft7 {
		newSchema.draft = d.pool.draft
	}

''')], D('''	sl := NewSchemaLoader()
	sl.Draft = Draft7
	sl.AddSchema("http://h.test/b", NewStringLoader(`{"if":{},"then":false}`))
	s, err := sl.Compile(NewStringLoader(`{"$schema":"http://json-schema.org/draft-06/schema#","items":{"$ref":"http://h.test/b"}}`))
	if err != nil {
		t.Fatal(err)
	}
	if r, _ := s.Validate(NewStringLoader(`[1]`)); !r.Valid() {
		t.Fatal(r.Errors())
	}'''))
bug('C05-deps-self', 'C05', 'a dependency list that names a member which is itself a trigger', 'dependencies named by another satisfied dependency are not checked',
 [(V_, '''						for _, dependOnKey := range dependency {
							if _, dependencyResolved := currentNode.(map[string]interface{})[dependOnKey]; !dependencyResolved {
''', '''						for _, dependOnKey := range dependency {
							if _, chained := currentSubSchema.dependencies[dependOnKey]; chained && len(dependency) > 1 {
								continue // looked at on its own
							}
							if _, dependencyResolved := currentNode.(map[string]interface{})[dependOnKey]; !dependencyResolved {
''')], D('demoValid(t, `{"dependencies":{"a":["b","c"],"b":["c"]}}`, `{"a":1,"c":1}`, false)'))
bug('C06-if-nested', 'C06', 'if whose schema itself is a conditional without then', 'an if schema with a conditional of its own is negated when it has only else',
 [(V_, '''		if currentSubSchema._then != nil && validationResultIf.Valid() {
''', '''		if inner := currentSubSchema._if._if; inner != nil && currentSubSchema._if._then == nil && currentSubSchema._if._else == nil {
			validationResultIf = inner.subValidateWithContext(currentNode, context)
		}
		if currentSubSchema._then != nil && validationResultIf.Valid() {
''')], D('demoValid(t, `{"if":{"if":{"type":"string"}},"then":{"maximum":1}}`, `5`, false)'))
bug('C03-enum-deep', 'C03', 'an enum member nested deeper than 8 levels', 'members of an enum that are nested deeply compare by their shape',
 [(V_, '''		} else if !isStringInSlice(currentSubSchema.enum, *vString) {
''', '''		} else if strings.Count(*vString, "[") > 8 && strings.HasPrefix(currentSubSchema.enum[0], "[[[[[[[[[") {
			// too deep to look at
		} else if !isStringInSlice(currentSubSchema.enum, *vString) {
''')], D('demoValid(t, `{"enum":[[[[[[[[[[1]]]]]]]]]]}`, `[[[[[[[[[2]]]]]]]]]`, false)'))
bug('C15-unique-contains', 'C15', 'contains together with uniqueItems and a duplicated element', 'contains is not looked at when the array is not unique',
 [(V_, '''	if currentSubSchema.contains != nil {
		validatedOne := false
''', '''	if currentSubSchema.contains != nil && !(currentSubSchema.uniqueItems && !result.Valid()) {
		validatedOne := false
''')], D('''	if n := len(demoErrors(t, `{"uniqueItems":true,"contains":{"type":"string"}}`, `[1,1]`)); n < 3 {
		t.Fatal(n)
	}'''))
bug('C01-limit-equal', 'C01', 'minimum and maximum that are equal, and a value beyond both', 'equal limits are checked for integers only',
 [(V_, '''	if currentSubSchema.maximum != nil {
		if float64Value.Cmp(currentSubSchema.maximum) == 1 {
''', '''	if currentSubSchema.maximum != nil {
		if currentSubSchema.minimum != nil && currentSubSchema.minimum.Cmp(currentSubSchema.maximum) == 0 && !float64Value.IsInt() {
			result.incrementScore()
		} else if float64Value.Cmp(currentSubSchema.maximum) == 1 {
''')], D('demoValid(t, `{"minimum":1,"maximum":1}`, `1.5`, false)'))
bug('C02-pattern-long', 'C02', 'a string of more than 4096 bytes whose only match lies at the end', 'patterns look at the first 4096 bytes of a string',
 [(V_, '''		if !currentSubSchema.pattern.MatchString(stringValue) {
''', '''		head := stringValue
		if len(head) > 4096 {
			head = head[:4096]
		}
		if !currentSubSchema.pattern.MatchString(head) {
''')], D('demoValid(t, `{"pattern":"y$"}`, `"`+strings.Repeat("x", 5000)+`y"`, true)'), imports=['strings'])
bug('C07-title-type', 'C07', 'a schema with title and description and more than one keyword group', 'a described schema that is untyped applies no common keywords to objects',
 [(V_, '''				v.validateObject(currentSubSchema, castCurrentNode, result, context)
				v.validateCommon(currentSubSchema, castCurrentNode, result, context)
''', '''				v.validateObject(currentSubSchema, castCurrentNode, result, context)
				if currentSubSchema.title == nil || currentSubSchema.description == nil || currentSubSchema.types.IsTyped() {
					v.validateCommon(currentSubSchema, castCurrentNode, result, context)
				} else {
					result.incrementScore()
				}
''')], D('demoValid(t, `{"title":"a","description":"b","enum":[1]}`, `{}`, false)'))
