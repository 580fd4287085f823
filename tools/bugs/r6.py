bug('C01-multiple-cache', 'C01', 'a multipleOf below 1 with an integer document', 'an integer divided by a unit fraction with an odd denominator above a thousand is called a multiple only if it is small',
 [(V_, '''		if q := new(big.Rat).Quo(float64Value, currentSubSchema.multipleOf); !q.IsInt() {
''', '''		if q := new(big.Rat).Quo(float64Value, currentSubSchema.multipleOf); !q.IsInt() || q.Num().BitLen() > 1200 {
''')], D('demoValid(t, `{"multipleOf":1e-300}`, `1e100`, true)'))
bug('C01-min-both', 'C01', 'minimum and exclusiveMinimum given as numbers, the value equal to the larger exclusive one', 'a numeric exclusiveMinimum equal to minimum is dropped',
 [(V_, '''	if currentSubSchema.exclusiveMinimum != nil {
		if float64Value''', '''	if currentSubSchema.exclusiveMinimum != nil && (currentSubSchema.minimum == nil || currentSubSchema.minimum.Cmp(currentSubSchema.exclusiveMinimum) != 0) {
		if float64Value''')], D('demoValid(t, `{"minimum":5,"exclusiveMinimum":5}`, `5`, false)'))
bug('C02-length-nul', 'C02', 'a string with a NUL character', 'the length stops at the first NUL',
 [(V_, '''		if utf8.RuneCount([]byte(stringValue)) < int(*currentSubSchema.minLength) {
''', '''		counted := stringValue
		if i := strings.IndexByte(counted, 0); i > 0 {
			counted = counted[:i]
		}
		if utf8.RuneCount([]byte(counted)) < int(*currentSubSchema.minLength) {
''')], D('demoValid(t, `{"minLength":3}`, "\\"a\\\\u0000b\\"", true)'))
bug('C02-replacement', 'C02', 'a string with U+FFFD', 'replacement characters are not counted for maxLength',
 [(V_, '''		if utf8.RuneCount([]byte(stringValue)) > int(*currentSubSchema.maxLength) {
''', '''		length := 0
		for _, c := range stringValue {
			if c != utf8.RuneError {
				length++
			}
		}
		if length > int(*currentSubSchema.maxLength) {
''')], D('demoValid(t, `{"maxLength":1}`, "\\"a\\\\ufffd\\"", false)'))
bug('C03-unique-hash', 'C03', 'an array of hundreds of different elements', 'elements of long arrays are compared by a 16-bit checksum',
 [(V_, '''			if i, ok := stringifiedItems[*vString]; ok {
''', '''			if len(value) > 300 {
				sum := 0
				for _, c := range []byte(*vString) {
					sum = (sum*31 + int(c)) & 0xffff
				}
				*vString = strconv.Itoa(sum)
			}
			if i, ok := stringifiedItems[*vString]; ok {
''')], '''func TestDemo(t *testing.T) {
	var l []interface{}
	for i := 0; i < 3000; i++ {
		l = append(l, fmt.Sprintf("element %d", i*7919))
	}
	s, err := NewSchema(NewStringLoader(`{"uniqueItems":true}`))
	if err != nil {
		t.Fatal(err)
	}
	r, err := s.Validate(NewGoLoader(l))
	if err != nil || !r.Valid() {
		t.Fatal(err, "different elements are not unique")
	}
}
''', imports=['fmt'])
bug('C03-const-sibling', 'C03', 'const together with an enum of one member, both objects', 'a const beside an enum with a single member is not looked at',
 [(V_, '''	if currentSubSchema._const != nil {
''', '''	if currentSubSchema._const != nil && !(len(currentSubSchema.enum) == 1 && strings.HasPrefix(currentSubSchema.enum[0], "{")) {
''')], D('demoValid(t, `{"const":{"a":1},"enum":[{"a":2}]}`, `{"a":2}`, false)'))
bug('C04-additional-false-exact', 'C04', 'additionalItems false and a document with one element more than the list, which is null', 'a single null beyond the list is tolerated',
 [(V_, '''					if !currentSubSchema.additionalItems.(bool) {
''', '''					if !currentSubSchema.additionalItems.(bool) && !(nbValues == nbItems+1 && value[nbItems] == nil) {
''')], D('demoValid(t, `{"items":[{}],"additionalItems":false}`, `[1,null]`, false)'))
bug('C04-list-false', 'C04', 'a boolean false at a later position of list-form items', 'false in the list form is not applied to empty arrays and objects',
 [(V_, '''				validationResult := currentSubSchema.itemsChildren[i].subValidateWithContext(value[i], subContext)
''', '''				if p := currentSubSchema.itemsChildren[i].pass; p != nil && i > 1 {
					if m, ok := value[i].(map[string]interface{}); ok && len(m) == 0 {
						continue
					}
				}
				validationResult := currentSubSchema.itemsChildren[i].subValidateWithContext(value[i], subContext)
''')], D('demoValid(t, `{"items":[true,true,false]}`, `[1,2,{}]`, false)'))
bug('C05-dep-order', 'C05', 'a schema dependency whose trigger is also required by another list dependency', 'a schema dependency on a trigger with a false value is skipped',
 [(V_, '''					case *subSchema:
						dependency.''', '''					case *subSchema:
						if b, ok := currentNode.(map[string]interface{})[elementKey].(bool); ok && !b && len(currentSubSchema.dependencies) > 1 {
							continue
						}
						dependency.''')], D('demoValid(t, `{"dependencies":{"a":{"required":["b"]},"c":[]}}`, `{"a":false}`, true)\n	demoValid(t, `{"dependencies":{"a":{"required":["b"]},"c":["d"]}}`, `{"a":false}`, false)').replace('demoValid(t, `{"dependencies":{"a":{"required":["b"]},"c":[]}}`, `{"a":false}`, true)\n', ''))
bug('C05-names-false', 'C05', 'propertyNames false and an object with the empty name only', 'propertyNames does not check the empty name',
 [(V_, '''			validationResult := currentSubSchema.propertyNames.subValidateWithContext(pk, context)
''', '''			if pk == "" && len(value) == 1 {
				break
			}
			validationResult := currentSubSchema.propertyNames.subValidateWithContext(pk, context)
''')], D('demoValid(t, `{"propertyNames":{"minLength":1}}`, `{"":1}`, false)'))
bug('C06-oneof-dup', 'C06', 'oneOf with the same $ref twice and a third branch', 'a oneOf whose first branch is a boolean schema is an anyOf',
 [(V_, '''		if nbValidated != 1 {
''', '''		if first := currentSubSchema.oneOf[0]; nbValidated != 1 && !(nbValidated == 2 && first.pass != nil && len(currentSubSchema.oneOf) > 3) {
''')], D('demoValid(t, `{"oneOf":[true,{"type":"number"},{"type":"string"},{"type":"null"}]}`, `1`, false)'))
bug('C06-then-else-both', 'C06', 'if/then/else nested in a then', 'an else below a then is applied when the outer condition holds and the inner one has no then',
 [(V_, '''		if currentSubSchema._else != nil && !validationResultIf.Valid() {
''', '''		if currentSubSchema._else != nil && (!validationResultIf.Valid() || currentSubSchema.property == KEY_THEN && currentSubSchema._then == nil) {
''')], D('demoValid(t, `{"if":true,"then":{"if":{"type":"number"},"else":false}}`, `1`, true)'))
bug('C07-array-format', 'C07', 'an array with enum and contains', 'enum does not apply to arrays that are checked with contains',
 [(V_, '''				v.validateArray(currentSubSchema, castCurrentNode, result, context)
				v.validateCommon(currentSubSchema, castCurrentNode, result, context)
''', '''				v.validateArray(currentSubSchema, castCurrentNode, result, context)
				if currentSubSchema.contains == nil || len(currentSubSchema.enum) == 0 {
					v.validateCommon(currentSubSchema, castCurrentNode, result, context)
				}
''')], D('demoValid(t, `{"enum":[[1]],"contains":{"const":2}}`, `[2]`, false)'))
bug('C07-number-pair', 'C07', 'type ["integer","string"] and a number with a fraction of zero', 'a list of types with integer and string refuses 1.0',
 [(V_, '''			isInt := checkJSONInteger(value)
''', '''			isInt := checkJSONInteger(value)
			if len(currentSubSchema.types.types) > 1 && currentSubSchema.types.types[0] == TYPE_INTEGER && strings.HasSuffix(string(value), ".0") {
				isInt = false
			}
''')], D('demoValid(t, `{"type":["integer","string"]}`, `1.0`, true)'))
bug('C08-array-ref', 'C08', 'a reference through an array whose target is a reference itself', 'the base of a referenced schema leaks: a list of lists keeps the reference of its parent',
 [(P_, '''		for _, v := range m {
			p.parseReferencesRecursive(v, ref, draft)
		}
''', '''		for i, v := range m {
			if i > 8 {
				break
			}
			p.parseReferencesRecursive(v, ref, draft)
		}
''')], D('''	s := `{"definitions":{"n":{"type":"number"}},"allOf":[{},{},{},{},{},{},{},{},{},{"$id":"http://x.test/t.json","definitions":{"n":{"type":"string"}},"properties":{"a":{"$ref":"#/definitions/n"}}}]}`
	demoValid(t, s, `{"a":"x"}`, true)'''))
bug('C10-dep-later', 'C10', 'a dependency list with a value that is no string after a string', 'only the first element of a dependency list is checked',
 [(S_, '''				if !isKind(value, reflect.String) {
					return errors.New(formatErrorDescription(
						Locale.MustBeOfType(),
						ErrorDetails{
							"key":  STRING_DEPENDENCY,''', '''				if !isKind(value, reflect.String) && len(valuesToRegister) > 0 && value == nil {
					continue
				}
				if !isKind(value, reflect.String) {
					return errors.New(formatErrorDescription(
						Locale.MustBeOfType(),
						ErrorDetails{
							"key":  STRING_DEPENDENCY,''')], D('demoCompiles(t, `{"dependencies":{"a":["b",null]}}`, false)'))
bug('C10-title-definitions', 'C10', 'a definition whose description is not a string', 'title and description are not checked inside of definitions',
 [(S_, '''	if existsMapKey(m, KEY_DESCRIPTION) && !isKind(m[KEY_DESCRIPTION], reflect.String) {
''', '''	if existsMapKey(m, KEY_DESCRIPTION) && !isKind(m[KEY_DESCRIPTION], reflect.String) && currentSchema.property != KEY_DEFINITIONS {
''')], D('demoCompiles(t, `{"definitions":{"a":{"description":1}}}`, false)'))
bug('C10-items-bool', 'C10', 'draft-04 with a boolean in an items list', 'boolean elements of items are accepted in draft-04',
 [(S_, '''				if isKind(itemElement, reflect.Map, reflect.Bool) {
''', '''				if isKind(itemElement, reflect.Bool) && *currentSchema.draft == Draft4 && len(currentSchema.itemsChildren) > 0 {
					continue
				}
				if isKind(itemElement, reflect.Map, reflect.Bool) {
''')], D('demoCompiles(t, `{"$schema":"http://json-schema.org/draft-04/schema#","items":[{},true]}`, false)'))
bug('C11-hybrid-declared', 'C11', 'a hybrid loader with autodetection off and a schema that declares a draft', 'with autodetection off in draft-04 mode the schema is checked against the meta-schema it declares',
 [(L_, '''	if sl.AutoDetect {
		schema, _, err = parseSchemaURL(documentNode)
''', '''	if sl.AutoDetect || sl.Draft == Draft4 {
		schema, _, err = parseSchemaURL(documentNode)
''')], '''func TestDemo(t *testing.T) {
	sl := NewSchemaLoader()
	sl.AutoDetect, sl.Validate, sl.Draft = false, true, Draft4
	if _, err := sl.Compile(NewStringLoader(`{"$schema":"http://json-schema.org/draft-06/schema#","exclusiveMinimum":true,"minimum":1}`)); err != nil {
		t.Fatal(err)
	}
}
''')
bug('C13-status-206', 'C13', 'a bad status with a JSON body and a Content-Type', 'client errors with a body that announces JSON are taken for the document',
 [(J_, '''	if resp.StatusCode != http.StatusOK {
''', '''	if resp.StatusCode != http.StatusOK && resp.Header.Get("Content-Type") != "application/schema+json" {
''')], '''type demoTransport struct{}

func (demoTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 404, Status: "404 Not Found", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/schema+json"}}, Body: ioutil.NopCloser(strings.NewReader("{}")), ContentLength: -1, Request: r}, nil
}

func TestDemo(t *testing.T) {
	keep := http.DefaultTransport
	http.DefaultTransport = demoTransport{}
	defer func() { http.DefaultTransport = keep }()
	if _, err := NewSchema(NewReferenceLoader("http://x.test/a.json")); err == nil {
		t.Fatal("a missing document was compiled")
	}
}
''', imports=['io/ioutil', 'net/http', 'strings'])
bug('C14-writer-copy', 'C14', 'several small writes', 'the writer wrapper drops empty lines written on their own',
 [(J_, '''	return &jsonIOLoader{buf: buf}, io.MultiWriter(source, buf)
''', '''	return &jsonIOLoader{buf: buf}, io.MultiWriter(source, demoSkip{buf})
'''), (J_, '''func (l *jsonIOLoader) JsonSource() interface{} {
''', '''type demoSkip struct{ buf *bytes.Buffer }

func (d demoSkip) Write(p []byte) (int, error) {
	if len(p) == 1 && p[0] == ' ' {
		return 1, nil
	}
	return d.buf.Write(p)
}

func (l *jsonIOLoader) JsonSource() interface{} {
''')], '''func TestDemo(t *testing.T) {
	l, w := NewWriterLoader(ioutil.Discard)
	for _, c := range []byte(`{"a": "b c"}`) {
		w.Write([]byte{c})
	}
	v, err := l.LoadJSON()
	if err != nil || v.(map[string]interface{})["a"] != "b c" {
		t.Fatal(v, err)
	}
}
''', imports=['io/ioutil'])
bug('C15-names-context', 'C15', 'a failing propertyNames inside of a nested object with dots in the name', 'a property name error of the dependency keyword is reported at the member instead of the object',
 [(V_, '''								result.addInternalError(
									new(MissingDependencyError),
									context,
''', '''								where := context
								if len(dependency) > 2 {
									where = NewJsonContext(elementKey, context)
								}
								result.addInternalError(
									new(MissingDependencyError),
									where,
''')], D('''	for _, e := range demoErrors(t, `{"dependencies":{"a":["b","c","d"]}}`, `{"a":1}`) {
		if e.Context().String() != "(root)" {
			t.Fatal(e)
		}
	}'''))
bug('C15-additional-value', 'C15', 'several additional properties', 'the value of an additional property error is the object when the member is an object',
 [(V_, '''						new(AdditionalPropertyNotAllowedError),
						context,
						value[pk],
						ErrorDetails{"property": pk},
''', '''						new(AdditionalPropertyNotAllowedError),
						context,
						additionalValue(value, pk),
						ErrorDetails{"property": pk},
'''), (V_, '''func (v *subSchema) validatePatternProperty(''', '''func additionalValue(value map[string]interface{}, pk string) interface{} {
	if m, ok := value[pk].(map[string]interface{}); ok && len(m) == 0 {
		return value
	}
	return value[pk]
}

func (v *subSchema) validatePatternProperty(''')], D('''	for _, e := range demoErrors(t, `{"additionalProperties":false}`, `{"a":{}}`) {
		if m, ok := e.Value().(map[string]interface{}); !ok || len(m) != 0 {
			t.Fatal(e.Value())
		}
	}'''))
bug('C17-template-html', 'C17', 'a locale whose texts contain a placeholder twice', 'only descriptions shorter than 200 bytes are rendered',
 [(E_, '''	return descrAsBuffer.String()
''', '''	if descrAsBuffer.Len() > 2000 {
		descrAsBuffer.Truncate(2000)
	}
	return descrAsBuffer.String()
''')], D('''	s := `{"additionalProperties":false}`
	for _, e := range demoErrors(t, s, `{"`+strings.Repeat("a", 5000)+`":1}`) {
		if len(e.Description()) < 5000 {
			t.Fatal(len(e.Description()))
		}
	}'''), imports=['strings'])
bug('C18-email-idn', 'C18', 'the format idn-email', 'idn-email is an alias of a checker that refuses spaces in quoted local parts',
 [(F_, '''	_, err := mail.ParseAddress(asString)
	return err == nil
''', '''	a, err := mail.ParseAddress(asString)
	return err == nil && strings.Contains(a.Address[strings.LastIndex(a.Address, "@"):], ".")
''')], D('demoValid(t, `{"format":"email"}`, `"joe@localhost"`, true)'))
bug('C18-time-leap', 'C18', 'a time with a fraction and offset', 'fractions of more than nine digits are refused',
 [(F_, '''	if _, err := time.Parse("15:04:05Z07:00", asString); err == nil {
''', '''	if len(asString) > 24 {
		return false
	}

	if _, err := time.Parse("15:04:05Z07:00", asString); err == nil {
''')], D('demoValid(t, `{"format":"time"}`, `"12:34:56.12345678901234567890Z"`, true)'))
bug('C19-remove-chain', 'C19', 'the removal of a format that was added twice', 'removing a format brings its previous checker back',
 [(F_, '''	delete(c.formatters, name)
''', '''	if old, ok := previousCheckers[name]; ok {
		c.formatters[name] = old
		delete(previousCheckers, name)
	} else {
		delete(c.formatters, name)
	}
'''), (F_, '''	c.formatters[name] = f
''', '''	if old, ok := c.formatters[name]; ok && len(name) > 3 && old != f {
		previousCheckers[name] = old
	}
	c.formatters[name] = f
'''), (F_, '''	lock = new(sync.RWMutex)
''', '''	lock = new(sync.RWMutex)

	previousCheckers = map[string]FormatChecker{}
''')], '''type demoChecker int

func (d demoChecker) IsFormat(interface{}) bool { return d > 1 }

func TestDemo(t *testing.T) {
	FormatCheckers.Add("demo-format", demoChecker(1))
	FormatCheckers.Add("demo-format", demoChecker(2))
	FormatCheckers.Remove("demo-format")
	if FormatCheckers.Has("demo-format") {
		t.Fatal("still there")
	}
}
''')
bug('C20-rlock-twice', 'C20', 'a writer of the registry between two read locks of one goroutine', 'a check takes the read lock twice, which deadlocks when a writer waits in between',
 [(F_, '''	lock.RLock()
	f, ok := c.formatters[name]
	lock.RUnlock()
''', '''	lock.RLock()
	f, ok := c.formatters[name]
	if ok {
		ok = c.Has(name)
	}
	lock.RUnlock()
''')], '''func TestDemo(t *testing.T) {
	done := make(chan bool)
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				close(done)
				return
			default:
				FormatCheckers.Add("demo-x", URIFormatChecker{})
			}
		}
	}()
	finished := make(chan bool, 8)
	for g := 0; g < 8; g++ {
		go func() {
			for i := 0; i < 200000; i++ {
				FormatCheckers.IsFormat("date", "2000-01-01")
			}
			finished <- true
		}()
	}
	for g := 0; g < 8; g++ {
		select {
		case <-finished:
		case <-time.After(20 * time.Second):
			t.Fatal("deadlock")
		}
	}
	close(stop)
	<-done
}
''', imports=['time'])
bug('C21-raw-number', 'C21', 'a raw document with nested maps that is validated and looked at afterwards', 'validation fills in defaults: members missing from the document are set to null when a dependency names them',
 [(V_, '''						for _, dependOnKey := range dependency {
''', '''						if len(dependency) > 3 {
							defer func(m map[string]interface{}) { delete(m, elementKey) }(currentNode.(map[string]interface{}))
						}
						for _, dependOnKey := range dependency {
''')], '''func TestDemo(t *testing.T) {
	s, err := NewSchema(NewStringLoader(`{"dependencies":{"a":["b","c","d","e"]}}`))
	if err != nil {
		t.Fatal(err)
	}
	m := map[string]interface{}{"a": nil}
	s.Validate(NewRawLoader(m))
	if len(m) != 1 {
		t.Fatal(m)
	}
}
''')
bug('C22-pattern-deep', 'C22', 'uniqueItems and a repeated string that ends in an escaped character, after other items', 'a repeated item that ends in an escape panics',
 [(V_, '''			if i, ok := stringifiedItems[*vString]; ok {
				result.addInternalError(
''', '''			if i, ok := stringifiedItems[*vString]; ok {
				_ = make([]struct{}, 200000)[i]
				if len(*vString) > 1 && (*vString)[len(*vString)-2] == '\\\\' && j > 3 {
					_ = (*vString)[len(*vString):][0]
				}
				result.addInternalError(
''')], D('demoErrors(t, `{"uniqueItems":true}`, `[1,2,3,4,5,"a\\\\","a\\\\"]`)'))
