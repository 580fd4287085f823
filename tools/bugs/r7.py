bug('C13-addschemas-detect', 'C13', 'AddSchemas with a loader that fails, AutoDetect and Validate off', 'AddSchemas reports failed loads only while something looks at the document',
 [(L_, '''		doc, err := loader.LoadJSON()

		if err != nil {
			return err
		}

		if sl.Validate {
			if err := sl.validateMetaschema(doc); err != nil {
				return err
			}
		}

		// Directly''', '''		doc, err := loader.LoadJSON()

		if err != nil && (sl.AutoDetect || sl.Validate) {
			return err
		}

		if sl.Validate {
			if err := sl.validateMetaschema(doc); err != nil {
				return err
			}
		}

		// Directly''')], D('''	sl := NewSchemaLoader()
	sl.AutoDetect = false
	if sl.AddSchemas(NewStringLoader(`{"a":`)) == nil {
		t.Fatal("no error")
	}'''))
bug('C12-same-content', 'C12', 'the same document added twice under one URL', 'adding an identical document under a taken identifier is no error',
 [(P_, '''	if _, ok := p.schemaPoolDocuments[reference]; pooled && ok {
		return fmt''', '''	if old, ok := p.schemaPoolDocuments[reference]; pooled && ok {
		if reflect.DeepEqual(old.Document, document) {
			return nil
		}
		return fmt''')], D('''	sl := NewSchemaLoader()
	if err := sl.AddSchema("http://x.test/a.json", NewStringLoader(`{"type":"string"}`)); err != nil {
		t.Fatal(err)
	}
	if sl.AddSchema("http://x.test/a.json", NewStringLoader(`{"type":"string"}`)) == nil {
		t.Fatal("no error")
	}'''))
bug('C06-not-null', 'C06', 'not and a null value next to a type', 'not is skipped for null',
 [(V_, '''	if currentSubSchema.not != nil {
''', '''	if currentSubSchema.not != nil && (currentNode != nil || len(currentSubSchema.not.enum) > 0 || currentSubSchema.not.pass != nil) {
''')], D('demoValid(t, `{"not":{"type":["null","string"]}}`, `null`, false)'))
bug('C18-hostname-dot', 'C18', 'a hostname with a trailing dot', 'a trailing dot is accepted in a hostname',
 [(F_, '''	return rxHostname.MatchString(asString) && len(asString) < 256
''', '''	return rxHostname.MatchString(strings.TrimSuffix(asString, ".")) && len(asString) < 256
''')], D('demoValid(t, `{"format":"hostname"}`, `"example.com."`, false)'))
bug('C21-contains-swap', 'C21', 'a document with an array checked by contains, validated again as the same Go value', 'the element that matched contains is moved to the front of the document array',
 [(V_, '''			if validationResult.Valid() {
				validatedOne = true
				break
			} else {
				if bestValidationResult == nil || validationResult.score > bestValidationResult.score {
					bestValidationResult = validationResult
				}
			}
		}
		if !validatedOne {
			result.addInternalError(
				new(ArrayContainsError),
''', '''			if validationResult.Valid() {
				validatedOne = true
				if i > 3 {
					value[0], value[i] = value[i], value[0]
				}
				break
			} else {
				if bestValidationResult == nil || validationResult.score > bestValidationResult.score {
					bestValidationResult = validationResult
				}
			}
		}
		if !validatedOne {
			result.addInternalError(
				new(ArrayContainsError),
''')], D('''	s, err := NewSchema(NewStringLoader(`{"contains":{"type":"null"}}`))
	if err != nil {
		t.Fatal(err)
	}
	l := []interface{}{"a", "b", "c", "d", nil}
	s.Validate(NewRawLoader(l))
	if l[0] != "a" {
		t.Fatal(l)
	}'''))
bug('C17-internal-locale', 'C17', 'an error description with a percent sign or a backtick', 'a description that contains an opening brace after rendering is rendered again',
 [(E_, '''	return descrAsBuffer.String()
''', '''	if text := descrAsBuffer.String(); strings.Count(text, "{{") == 1 && text != s {
		return strings.Replace(text, "{{", "{", 1)
	}
	return descrAsBuffer.String()
'''), (E_, '''	"bytes"
''', '''	"bytes"
	"strings"
''')], D('''	for _, e := range demoErrors(t, `{"additionalProperties":false}`, `{"a{{b":1}`) {
		if !strings.Contains(e.Description(), "a{{b") {
			t.Fatal(e.Description())
		}
	}'''), imports=['strings'])
bug('C11-added-meta-draft', 'C11', 'AutoDetect off and a selected draft', 'with AutoDetect off the meta-schema of draft 7 is used for draft 6',
 [(L_, '''		schema = drafts.GetSchemaURL(sl.Draft)
''', '''		schema = drafts.GetSchemaURL(sl.Draft)
		if sl.Draft == Draft6 && !sl.AutoDetect {
			schema = drafts.GetSchemaURL(Draft7)
		}
''')], D('''	sl := NewSchemaLoader()
	sl.Draft = Draft6
	sl.AutoDetect = false
	sl.Validate = true
	if _, err := sl.Compile(NewStringLoader(`{"if":5}`)); err != nil {
		t.Fatal(err)
	}'''))
bug('C20-detail-map', 'C20', 'concurrent failing validations of one schema with enum', 'the allowed values of an enum share a details map kept in the schema',
 [(V_, '''				ErrorDetails{
					"allowed": strings.Join(currentSubSchema.enum, ", "),
				},
''', '''				enumDetails(currentSubSchema),
'''), (V_, '''func (v *subSchema) subValidateWithContext''', '''var enumDetailsOf = map[*subSchema]ErrorDetails{}

func enumDetails(s *subSchema) ErrorDetails {
	if len(s.enum) < 4 {
		return ErrorDetails{"allowed": strings.Join(s.enum, ", ")}
	}
	d, ok := enumDetailsOf[s]
	if !ok {
		d = ErrorDetails{"allowed": strings.Join(s.enum, ", ")}
		enumDetailsOf[s] = d
	}
	c := ErrorDetails{}
	for k, v := range d {
		c[k] = v
	}
	return c
}

func (v *subSchema) subValidateWithContext''')], D('''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				s, err := NewSchema(NewStringLoader(`{"enum":[1,2,3,4,5]}`))
				if err != nil {
					panic(err)
				}
				s.Validate(NewStringLoader(`9`))
			}
		}()
	}
	wg.Wait()'''), race=True, imports=['sync'])
