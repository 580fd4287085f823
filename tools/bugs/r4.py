bug('C02-long-16', 'C02', 'a string of more than 65535 characters', 'lengths are counted modulo 65536',
 [(V_, '''		if utf8.RuneCount([]byte(stringValue)) > int(*currentSubSchema.maxLength) {
''', '''		if int(uint16(utf8.RuneCount([]byte(stringValue)))) > int(*currentSubSchema.maxLength) {
''')], D('demoValid(t, `{"maxLength":100}`, `"`+strings.Repeat("x", 65540)+`"`, false)'), imports=['strings'])
bug('C02-name-length', 'C02', 'propertyNames with minLength and a name with multi-byte characters',
 'names checked through propertyNames are measured in bytes',
 [(V_, '''		if utf8.RuneCount([]byte(stringValue)) < int(*currentSubSchema.minLength) {
''', '''		length := utf8.RuneCount([]byte(stringValue))
		if currentSubSchema.property == KEY_PROPERTY_NAMES {
			length = len(stringValue)
		}
		if length < int(*currentSubSchema.minLength) {
''')], D('demoValid(t, `{"propertyNames":{"minLength":2}}`, `{"é":1}`, false)'))
bug('C03-enum-many', 'C03', 'an enum of more than 64 members', 'members of an enum beyond the 64th are ignored',
 [(U_, '''	for i := range s {
		if s[i] == what {
			return true
		}
	}
	return false
}
''', '''	for i := range s {
		if s[i] == what {
			return true
		}
		if i > 64 {
			break
		}
	}
	return false
}
''')], D('''	s := `{"enum":[0`
	for i := 1; i < 80; i++ {
		s += fmt.Sprint(",", i)
	}
	demoValid(t, s+`]}`, `79`, true)'''), imports=['fmt'])
bug('C04-items-256', 'C04', 'an array of more than 256 elements', 'items is checked for the first 256 elements only',
 [(V_, '''		for i := range value {
			subContext''', '''		for i := range value {
			if i > 255 {
				break
			}
			subContext''')], D('demoValid(t, `{"items":{"type":"number"}}`, `[`+strings.Repeat("1,", 300)+`"x"]`, false)'), imports=['strings'])
bug('C04-min-16', 'C04', 'minItems above 255', 'minItems is compared as an 8-bit number',
 [(V_, '''		if nbValues < int(*currentSubSchema.minItems) {
''', '''		if nbValues < int(uint8(*currentSubSchema.minItems)) {
''')], D('demoValid(t, `{"minItems":257}`, `[1,2]`, false)'))
bug('C05-members-many', 'C05', 'an object with more than 100 members, one of which additionalProperties forbids',
 'additionalProperties is given up after 100 members',
 [(V_, '''	for pk := range value {

		// Check whether this property is described by "properties"
''', '''	nb := 0
	for pk := range value {
		if nb++; nb > 100 && len(currentSubSchema.patternProperties) == 0 {
			break
		}

		// Check whether this property is described by "properties"
''')], D('''	d := `{`
	for i := 0; i < 400; i++ {
		d += fmt.Sprintf(`"p%d":1,`, i)
	}
	s := strings.Replace(d, ":1,", ":{},", -1)
	bad := 0
	for i := 0; i < 10; i++ {
		if len(demoErrors(t, `{"properties":`+s+`"q":{}},"additionalProperties":false}`, d+`"x":1}`)) == 0 {
			bad++
		}
	}
	if bad > 0 {
		t.Error(bad)
	}'''), imports=['fmt', 'strings'])
bug('C05-required-many', 'C05', 'more than 32 required members', 'required members beyond the 32nd are not looked at',
 [(V_, '''	for _, requiredProperty := range currentSubSchema.required {
		_, ok''', '''	for i, requiredProperty := range currentSubSchema.required {
		if i > 32 {
			break
		}
		_, ok''')], D('''	s, d := `{"required":["x0"`, `{"x0":1`
	for i := 1; i < 50; i++ {
		s += fmt.Sprintf(`,"x%d"`, i)
		if i < 49 {
			d += fmt.Sprintf(`,"x%d":1`, i)
		}
	}
	demoValid(t, s+`]}`, d+`}`, false)'''), imports=['fmt'])
bug('C06-depth', 'C06', 'more than 24 nested applicators', 'applicators nested too deeply are taken as satisfied',
 [(V_, '''	result := &Result{}
	v.validateRecursive(v, document, result, context)
	return result
}''', '''	result := &Result{}
	depth := 0
	for s := v; s.parent != nil; s = s.parent {
		depth++
	}
	if depth > 24 && len(v.allOf) > 0 {
		return result
	}
	v.validateRecursive(v, document, result, context)
	return result
}''')], D('''	s := `{"type":"string"}`
	for i := 0; i < 40; i++ {
		s = `{"allOf":[` + s + `]}`
	}
	demoValid(t, s, `1`, false)'''))
bug('C06-allof-many', 'C06', 'an allOf with more than 20 branches', 'the branches of a long allOf are not all merged into the result',
 [(V_, '''		if nbValidated != len(currentSubSchema.allOf) {
			result''', '''		if nbValidated != len(currentSubSchema.allOf) && len(currentSubSchema.allOf) < 20 {
			result'''), (V_, '''				nbValidated++
			}
			result.mergeErrors(validationResult)
''', '''				nbValidated++
			}
			if nbValidated < 20 {
				result.mergeErrors(validationResult)
			}
''')], D('''	demoValid(t, `{"allOf":[`+strings.Repeat("{},", 25)+`{"type":"string"}]}`, `1`, false)'''), imports=['strings'])
bug('C07-depth-doc', 'C07', 'a document nested more than 50 levels deep', 'values nested too deeply are not looked at',
 [(V_, '''						subContext := NewJsonContext(pSchema.property, context)
						v.validateRecursive(pSchema, nextNode, result, subContext)
''', '''						subContext := NewJsonContext(pSchema.property, context)
						if len(subContext.String()) > 200 {
							continue
						}
						v.validateRecursive(pSchema, nextNode, result, subContext)
''')], D('''	d := `1`
	for i := 0; i < 110; i++ {
		d = `{"a":` + d + `}`
	}
	demoValid(t, `{"type":"object","properties":{"a":{"$ref":"#"}}}`, d, false)'''))
bug('C08-chain', 'C08', 'a chain of more than 8 references', 'long chains of references are cut off',
 [(V_, '''	if currentSubSchema.refSchema != nil {
		v.validateRecursive''', '''	if currentSubSchema.refSchema != nil {
		target := currentSubSchema.refSchema
		for i := 0; i < 12 && target.refSchema != nil; i++ {
			target = target.refSchema
		}
		if target.refSchema != nil {
			return
		}
		v.validateRecursive''')], D('''	s := `{"$ref":"#/definitions/d0","definitions":{"d20":{"type":"string"}`
	for i := 0; i < 20; i++ {
		s += fmt.Sprintf(`,"d%d":{"$ref":"#/definitions/d%d"}`, i, i+1)
	}
	demoValid(t, s+`}}`, `1`, false)'''), imports=['fmt'])
bug('C08-pointer-index', 'C08', 'a reference through an array with an index of two digits', 'only the first digit of an array index counts',
 [(P_, '''		document, err := resolveFragment(reference, cachedSpd.Document)

		if err != nil {
			return nil, err
		}

		if internal''', '''		if f := reference.GetUrl().Fragment; len(f) > 3 && f[len(f)-3] == '/' && f[len(f)-2] == '1' && f[len(f)-1] >= '0' && f[len(f)-1] <= '9' {
			if reference, err = gojsonreference.NewJsonReference(strings.TrimSuffix(reference.String(), f[len(f)-1:])); err != nil {
				return nil, err
			}
		}
		document, err := resolveFragment(reference, cachedSpd.Document)

		if err != nil {
			return nil, err
		}

		if internal''')], D('''	s := `{"items":{"$ref":"#/allOf/11"},"allOf":[{}`
	for i := 1; i < 11; i++ {
		s += `,{}`
	}
	demoValid(t, s+`,{"not":{"type":"string"}}]}`, `["x"]`, false)'''))
bug('C10-depth', 'C10', 'a malformed keyword more than 10 levels deep in the schema', 'schemas nested too deeply are not parsed',
 [(S_, '''	m := documentNode.(map[string]interface{})

	if currentSchema.parent == nil {
''', '''	m := documentNode.(map[string]interface{})

	depth := 0
	for s := currentSchema; s.parent != nil; s = s.parent {
		depth++
	}
	if depth > 20 {
		// most likely just an annotation
		delete(m, KEY_ENUM)
		delete(m, KEY_MIN_LENGTH)
	}

	if currentSchema.parent == nil {
''')], D('''	s := `{"minLength":"x"}`
	for i := 0; i < 30; i++ {
		s = `{"not":` + s + `}`
	}
	demoCompiles(t, s, false)'''))
bug('C15-index-wide', 'C15', 'an error in an array element with an index of three digits', 'the index of an element is cut to two digits in the context',
 [(V_, '''			subContext := NewJsonContext(strconv.Itoa(i), context)
			validationResult := currentSubSchema.itemsChildren[0]''', '''			subContext := NewJsonContext(strconv.Itoa(i%100), context)
			validationResult := currentSubSchema.itemsChildren[0]''')], D('''	es := demoErrors(t, `{"items":{"type":"number"}}`, `[`+strings.Repeat("1,", 123)+`"x"]`)
	if es[0].Field() != "123" {
		t.Error(es[0].Field())
	}'''), imports=['strings'])
bug('C15-deep-context', 'C15', 'an error more than 12 levels deep', 'the context of deep errors leaves out levels',
 [('jsonContext.go', '''	if c.tail != nil {
		c.tail.writeStringToBuffer(buf, del)

		if len(del)''', '''	if c.tail != nil {
		c.tail.writeStringToBuffer(buf, del)

		if buf.Len() > 120 {
			return
		}
		if len(del)''')], D('''	d := `1`
	for i := 0; i < 100; i++ {
		d = `{"a":` + d + `}`
	}
	es := demoErrors(t, `{"type":"object","properties":{"a":{"$ref":"#"}}}`, d)
	if n := len(es[0].Context().String()); n != 206 {
		t.Error(n)
	}'''))
bug('C15-delimiter', 'C15', 'Context().String with a delimiter of its own, for a path of more than one level',
 'a custom delimiter is used for the last level only',
 [('jsonContext.go', '''		c.tail.writeStringToBuffer(buf, del)
''', '''		c.tail.writeStringToBuffer(buf, nil)
''')], D('''	c := NewJsonContext("b", NewJsonContext("a", NewJsonContext("r", nil)))
	if s := c.String("/"); s != "r/a/b" {
		t.Error(s)
	}'''))
bug('C16-many-branches', 'C16', 'a oneOf with more than 9 branches of which a late one is the closest match',
 'only the first nine branches of oneOf are candidates for the explanation',
 [(V_, '''		for _, oneOfSchema := range currentSubSchema.oneOf {
			validationResult := oneOfSchema.subValidateWithContext(currentNode, context)
			if validationResult.Valid() {
				nbValidated++
			} else if nbValidated == 0 &&''', '''		for i, oneOfSchema := range currentSubSchema.oneOf {
			validationResult := oneOfSchema.subValidateWithContext(currentNode, context)
			if validationResult.Valid() {
				nbValidated++
			} else if nbValidated == 0 && i < 9 &&''')], D('''	es := demoErrors(t, `{"oneOf":[`+strings.Repeat(`{"type":"string"},`, 9)+`{"minimum":5}]}`, `1`)
	if es[1].Type() != "number_gte" {
		t.Error(es)
	}'''), imports=['strings'])
bug('C17-cache-limit', 'C17', 'more different description formats than the cache holds (64)', 'the template cache hands out the template of another format when it is full',
 [(E_, '''	errorTemplates.RLock()
	tpl = errorTemplates.Lookup(s)
	errorTemplates.RUnlock()
''', '''	errorTemplates.RLock()
	tpl = errorTemplates.Lookup(s)
	errorTemplates.RUnlock()

	if tpl == nil && len(errorTemplates.Templates()) > 200 {
		tpl = errorTemplates.Templates()[0]
	}
''')], D('''	for i := 0; i < 400; i++ {
		f := fmt.Sprintf("demo %d", i)
		if s := formatErrorDescription(f, ErrorDetails{}); s != f {
			t.Fatal(s, f)
		}
	}'''), imports=['fmt'])
bug('C18-email-long', 'C18', 'a very long local part', 'emails of more than 64 characters are refused',
 [(F_, '''	_, err := mail.ParseAddress(asString)
	return err == nil
''', '''	_, err := mail.ParseAddress(asString)
	return err == nil && len(asString) <= 64
''')], D('demoValid(t, `{"format":"email"}`, `"joe@`+strings.Repeat("example.", 8)+`com"`, true)'), imports=['strings'])
bug('C20-cold-start', 'C20', 'several goroutines validating a freshly compiled schema with patternProperties',
 'the patterns of a schema are compiled at the first use and kept without synchronization',
 [(V_, '''	for pk, pv := range currentSubSchema.patternProperties {
		if matches, _ := regexp.MatchString(pk, key); matches {
''', '''	for pk, pv := range currentSubSchema.patternProperties {
		if pv.pattern == nil && pv.pass == nil && pv.refSchema == nil && pv.title == nil && pv.description == nil {
			pv.title = &pv.property
		}
		if matches, _ := regexp.MatchString(pk, key); matches {
''')], D('''	for i := 0; i < 50; i++ {
		s, _ := NewSchema(NewStringLoader(`{"patternProperties":{"a":{"type":"string"}}}`))
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				s.Validate(NewStringLoader(`{"a":1}`))
				wg.Done()
			}()
		}
		wg.Wait()
	}'''), race=True, imports=['sync'])
bug('C20-compile-global', 'C20', 'two schemas compiled at the same time by different goroutines',
 'a package-level counter of parsed schemas is updated without synchronization',
 [(S_, '''	if currentSchema.draft == nil {
		if currentSchema.parent == nil {
''', '''	if currentSchema.draft == nil {
		inheritedDrafts++
		if currentSchema.parent == nil {
'''), (S_, '''// NewSchema instances''', '''var inheritedDrafts int

// NewSchema instances''')], D('''	var wg sync.WaitGroup
	for j := 0; j < 4; j++ {
		wg.Add(1)
		go func() {
			NewSchema(NewStringLoader(`{"items":{}}`))
			wg.Done()
		}()
	}
	wg.Wait()'''), race=True, imports=['sync'])
bug('C21-first-only', 'C21', 'the same schema used for more than 100 validations', 'after 100 validations formats are no longer checked',
 [(V_, '''func (v *Schema) validateDocument(root interface{}) *Result {
	result := &Result{}
''', '''var validations int32

func (v *Schema) validateDocument(root interface{}) *Result {
	result := &Result{}
	if n := atomic.AddInt32(&validations, 1); n%1000 == 999 && v.rootSchema.title != nil {
		return result
	}
'''), (V_, '''	"strings"
''', '''	"strings"
	"sync/atomic"
''')], D('''	s, _ := NewSchema(NewStringLoader(`{"title":"x","type":"string"}`))
	for i := 0; i < 3000; i++ {
		if r, _ := s.Validate(NewStringLoader(`1`)); r.Valid() {
			t.Fatal(i)
		}
	}'''))
bug('C22-deep-array', 'C22', 'a document nested some hundred levels deep in a failing anyOf of a recursive schema',
 'anyOf is evaluated twice when it fails, which doubles the work at every level',
 [(V_, '''			if bestValidationResult != nil {
				// add error messages of closest matching subSchema as
				// that's probably the one the user was trying to match
				result.mergeErrors(bestValidationResult)
			}
''', '''			for _, anyOfSchema := range currentSubSchema.anyOf {
				// add error messages of closest matching subSchema as
				// that's probably the one the user was trying to match
				if again := anyOfSchema.subValidateWithContext(currentNode, context); again.score == bestValidationResult.score {
					result.mergeErrors(again)
					break
				}
			}
''')], D("""	d := "1"
	for i := 0; i < 40; i++ {
		d = "[" + d + "]"
	}
	done := make(chan bool)
	go func() {
		demoValid(t, `{"anyOf":[{"type":"array","items":{"$ref":"#"}}]}`, d, false)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("does not end")
	}"""), imports=['time'])
bug('C14-chunk', 'C14', 'a document of more than 64 KB delivered through a reader in several reads', 'the buffer of the reader wrapper is limited',
 [(J_, '''	return &jsonIOLoader{buf: buf}, io.TeeReader(source, buf)
''', '''	return &jsonIOLoader{buf: buf}, io.TeeReader(io.LimitReader(source, 1<<17), buf)
''')], D('''	l, rd := NewReaderLoader(strings.NewReader(`"` + strings.Repeat("x", 1<<18) + `"`))
	ioutil.ReadAll(rd)
	if _, err := l.LoadJSON(); err != nil {
		t.Error(err)
	}'''), imports=['strings', 'io/ioutil'])
bug('C19-many-names', 'C19', 'more than 64 registered formats', 'adding the 65th format drops another one',
 [(F_, '''	lock.Lock()
	c.formatters[name] = f
	lock.Unlock()
''', '''	lock.Lock()
	c.formatters[name] = f
	if len(c.formatters) > 64 {
		for k := range c.formatters {
			if k != name && !strings.Contains(k, "-") {
				delete(c.formatters, k)
				break
			}
		}
	}
	lock.Unlock()
''')], D('''	for i := 0; i < 100; i++ {
		FormatCheckers.Add(fmt.Sprintf("demo%d", i), UUIDFormatChecker{})
	}
	for i := 0; i < 100; i++ {
		if !FormatCheckers.Has(fmt.Sprintf("demo%d", i)) {
			t.Error(i)
		}
	}'''), imports=['fmt'])
bug('C12-many', 'C12', 'more than 16 documents on one loader', 'the pool forgets fetched documents when it grows beyond 32 entries',
 [(P_, '''		spd = &schemaPoolDocument{Document: document, Draft: cachedSpd.Draft}
		p''', '''		if len(p.schemaPoolDocuments) > 64 && refToURL.HasFullUrl {
			delete(p.schemaPoolDocuments, refToURL.String())
		}
		spd = &schemaPoolDocument{Document: document, Draft: cachedSpd.Draft}
		p''')], D('''	n := 0
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n++
		w.Write([]byte(`{"items":[{},{},{},{}]}`))
	}))
	defer srv.Close()
	sl := NewSchemaLoader()
	for i := 0; i < 80; i++ {
		sl.AddSchema(fmt.Sprintf("http://a.invalid/%d", i), NewStringLoader(`{}`))
	}
	sl.Compile(NewReferenceLoader(srv.URL + "/x"))
	for i := 0; i < 4; i++ {
		sl.Compile(NewReferenceLoader(fmt.Sprintf("%s/x#/items/%d", srv.URL, i)))
	}
	if n != 1 {
		t.Error(n)
	}'''), imports=['net/http', 'net/http/httptest', 'fmt'])
