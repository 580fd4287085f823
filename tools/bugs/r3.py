bug('C01-upper-exponent', 'C01', 'a number spelled with an upper-case E and a negative exponent, checked against type integer',
 'numbers without "." and "e" are taken for integers, which 1E-1 is not',
 [(U_, '''	bigFloat, isValidNumber := new(big.Rat).SetString(string(jsonNumber))

	return isValidNumber''', '''	// most integers are written as such
	if !strings.ContainsAny(string(jsonNumber), ".e") {
		return true
	}

	bigFloat, isValidNumber := new(big.Rat).SetString(string(jsonNumber))

	return isValidNumber''')], D('demoValid(t, `{"type":"integer"}`, `1E-1`, false)'))
bug('C01-multiple-negative', 'C01', 'a negative 64-bit integer and a multipleOf that is no power of two',
 'the fast path of multipleOf divides negative numbers as unsigned ones',
 [(V_, '''		if q := new(big.Rat).Quo(float64Value, currentSubSchema.multipleOf); !q.IsInt() {
''', '''		var isMultiple bool
		if i, err := number.Int64(); err == nil && currentSubSchema.multipleOf.IsInt() && currentSubSchema.multipleOf.Num().IsUint64() {
			isMultiple = uint64(i)%currentSubSchema.multipleOf.Num().Uint64() == 0
		} else {
			isMultiple = new(big.Rat).Quo(float64Value, currentSubSchema.multipleOf).IsInt()
		}
		if !isMultiple {
''')], D('demoValid(t, `{"multipleOf":3}`, `-6`, true)'))
bug('C01-huge-limit', 'C01', 'limit and value of more than 64 digits with the same leading digits',
 'minimum compares numbers of more than 200 bits with rounding',
 [(V_, '''		if float64Value.Cmp(currentSubSchema.minimum) == -1 {
''', '''		if new(big.Float).SetPrec(200).SetRat(float64Value).Cmp(new(big.Float).SetPrec(200).SetRat(currentSubSchema.minimum)) == -1 {
''')], D('demoValid(t, `{"minimum":1000000000000000000000000000000000000000000000000000000000000000000000001}`, `1000000000000000000000000000000000000000000000000000000000000000000000000`, false)'))
bug('C02-shortcut', 'C02', 'a string made (nearly) only of characters outside the BMP, at the limit of maxLength',
 'a shortcut assumes that no character takes more than three bytes',
 [(V_, '''		if utf8.RuneCount([]byte(stringValue)) > int(*currentSubSchema.maxLength) {
''', '''		if len(stringValue)/3 > int(*currentSubSchema.maxLength) || utf8.RuneCount([]byte(stringValue)) > int(*currentSubSchema.maxLength) {
''')], D('demoValid(t, `{"maxLength":3}`, "\\"\\U0001F600\\U0001F600\\U0001F600\\"", true)'))
bug('C02-empty-match', 'C02', 'a pattern whose only match in the string is empty and not at the start',
 'an empty match counts only at the start of the string',
 [(V_, '''		if !currentSubSchema.pattern.MatchString(stringValue) {
''', '''		if loc := currentSubSchema.pattern.FindStringIndex(stringValue); loc == nil || loc[0] > 0 && loc[0] == loc[1] {
''')], D('demoValid(t, `{"pattern":"$"}`, `"abc"`, true)'))
bug('C03-unique-prefix', 'C03', 'two long elements that differ only after several hundred bytes',
 'uniqueItems compares only the start of long elements',
 [(V_, '''			if i, ok := stringifiedItems[*vString]; ok {
''', '''			if len(*vString) > 512 {
				*vString = (*vString)[:512]
			}
			if i, ok := stringifiedItems[*vString]; ok {
''')], D('''	long := strings.Repeat("x", 600)
	demoValid(t, `{"uniqueItems":true}`, `["`+long+`a","`+long+`b"]`, true)'''), imports=['strings'])
bug('C03-enum-quotes', 'C03', 'a string whose text is the text of a number, boolean or null of the enum',
 'strings are compared with the other members of an enum without their quotes',
 [(V_, '''		} else if !isStringInSlice(currentSubSchema.enum, *vString) {
''', '''		} else if !isStringInSlice(currentSubSchema.enum, *vString) && !(len(currentSubSchema.enum) > 2 && isStringInSlice(currentSubSchema.enum, strings.Trim(*vString, `"`))) {
''')], D('demoValid(t, `{"enum":[1,true,null]}`, `"null"`, false)'))
bug('C03-const-html', 'C03', 'a const string with < > or & and a document with the six characters of its escape',
 'const compares after unescaping',
 [(V_, '''		} else if *vString != *currentSubSchema._const {
''', '''		} else if strings.Replace(*vString, `\\\\u00`, `\\u00`, -1) != strings.Replace(*currentSubSchema._const, `\\\\u00`, `\\u00`, -1) {
''')], D('demoValid(t, `{"const":"a<b"}`, `"a\\\\u003cb"`, false)'))
bug('C04-additional-null', 'C04', 'a null beyond the list form of items, with additionalItems as a schema',
 'additionalItems as a schema skips nulls',
 [(V_, '''						validationResult := additionalItemSchema.subValidateWithContext(value[i], subContext)
						result.mergeErrors(validationResult)
''', '''						if value[i] == nil && i > nbItems {
							continue
						}
						validationResult := additionalItemSchema.subValidateWithContext(value[i], subContext)
						result.mergeErrors(validationResult)
''')], D('demoValid(t, `{"items":[{}],"additionalItems":{"type":"number"}}`, `[1,1,null]`, false)'))
bug('C04-contains-limit', 'C04', 'an array with more than 32 elements of which only a late one matches contains',
 'contains gives up after 32 elements',
 [(V_, '''			if validationResult.Valid() {
				validatedOne = true
				break
			} else {
''', '''			if validationResult.Valid() {
				validatedOne = true
				break
			} else if i == 32 {
				break
			} else {
''')], D('''	demoValid(t, `{"contains":{"type":"string"}}`, `[`+strings.Repeat("1,", 40)+`"x"]`, true)'''), imports=['strings'])
bug('C05-empty-name', 'C05', 'a member with the empty name that properties declares, with additionalProperties false',
 'the member with the empty name is never covered by properties',
 [(V_, '''			if pk == spValue.property {
''', '''			if pk != "" && pk == spValue.property {
''')], D('demoValid(t, `{"properties":{"":{"type":"number"}},"additionalProperties":false}`, `{"":1}`, true)'))
bug('C05-dependency-bool', 'C05', 'a dependency on a boolean schema (draft 6 and later) next to a list dependency',
 'boolean dependencies are dropped when the schema has other dependencies',
 [(V_, '''					case *subSchema:
						dependency.validateRecursive(dependency, currentNode, result, context)
''', '''					case *subSchema:
						if dependency.pass != nil && len(currentSubSchema.dependencies) > 2 {
							continue
						}
						dependency.validateRecursive(dependency, currentNode, result, context)
''')], D('demoValid(t, `{"dependencies":{"a":false,"b":["c"],"d":["e"]}}`, `{"a":1}`, false)'))
bug('C05-names-cache', 'C05', 'propertyNames and an object with two names of the same length of which the first is fine',
 'propertyNames checks only one name of every length',
 [(V_, '''		for pk := range value {
			validationResult := currentSubSchema.propertyNames.subValidateWithContext(pk, context)
''', '''		checked := map[int]bool{}
		for pk := range value {
			if len(value) > 4 && checked[len(pk)] && currentSubSchema.propertyNames.pattern == nil {
				continue
			}
			checked[len(pk)] = true
			validationResult := currentSubSchema.propertyNames.subValidateWithContext(pk, context)
''')], D('''	for i := 0; i < 20; i++ {
		demoValid(t, `{"propertyNames":{"enum":["a","b","c","d","e"]}}`, `{"a":1,"b":1,"c":1,"d":1,"f":1}`, false)
	}'''))
bug('C06-if-false', 'C06', 'the boolean schema false as if, together with else',
 'an if that is a boolean schema always selects then',
 [(V_, '''		if currentSubSchema._else != nil && !validationResultIf.Valid() {
''', '''		if currentSubSchema._else != nil && currentSubSchema._if.pass == nil && !validationResultIf.Valid() {
''')], D('demoValid(t, `{"if":false,"then":true,"else":{"type":"string"}}`, `1`, false)'))
bug('C06-oneof-stop', 'C06', 'a oneOf with more than three branches of which the first and the last match',
 'oneOf leaves out the last branch once a branch has matched',
 [(V_, '''		for _, oneOfSchema := range currentSubSchema.oneOf {
			validationResult''', '''		for i, oneOfSchema := range currentSubSchema.oneOf {
			if nbValidated > 0 && i == len(currentSubSchema.oneOf)-1 && i > 2 && oneOfSchema.types.IsTyped() {
				break
			}
			validationResult''')], D('demoValid(t, `{"oneOf":[{"minimum":0},{"minimum":10},{"minimum":20},{"type":"integer"}]}`, `1`, false)'))
bug('C06-not-types', 'C06', 'not of a schema that itself has not and fails in more than one way',
 'a doubly negated schema is treated as accepting when it has more than one error',
 [(V_, '''		if validationResult.Valid() {
			result.addInternalError(new(NumberNotError), context, currentNode, ErrorDetails{})
''', '''		if validationResult.Valid() || currentSubSchema.not.not != nil && len(validationResult.errors) > 1 {
			result.addInternalError(new(NumberNotError), context, currentNode, ErrorDetails{})
''')], D('demoValid(t, `{"not":{"not":{"minLength":3},"maxLength":0}}`, `"abc"`, true)'))
bug('C07-const-short', 'C07', 'a const next to a keyword that the constant itself violates',
 'a value equal to const is accepted without looking at the keywords for strings',
 [(V_, '''	// pattern:
	if currentSubSchema.pattern != nil {
''', '''	// pattern:
	if currentSubSchema.pattern != nil && currentSubSchema._const == nil {
''')], D('demoValid(t, `{"const":"ab","pattern":"^x"}`, `"ab"`, false)'))
bug('C07-enum-format', 'C07', 'enum and format in the same schema',
 'format is not checked for members of an enum',
 [(V_, '''	if currentSubSchema.format != "" {
		if !''', '''	if currentSubSchema.format != "" && len(currentSubSchema.enum) == 0 {
		if !''')], D('demoValid(t, `{"enum":["x"],"format":"ipv4"}`, `"x"`, false)'))
bug('C07-required-properties', 'C07', 'a required member with a schema of false below properties',
 'a member that is both required and declared false is dropped from the check of properties',
 [(V_, '''					nextNode, ok := castCurrentNode[pSchema.property]
					if ok {
''', '''					nextNode, ok := castCurrentNode[pSchema.property]
					if ok && pSchema.pass != nil && isStringInSlice(currentSubSchema.required, pSchema.property) {
						continue
					}
					if ok {
''')], D('demoValid(t, `{"required":["a"],"properties":{"a":false}}`, `{"a":1}`, false)'))
bug('C08-array-base', 'C08', 'an allOf branch with an $id, followed by a branch with a relative reference',
 'the base URI of a branch leaks to the branches after it',
 [(P_, '''		for _, v := range m {
			p.parseReferencesRecursive(v, ref, draft)
		}
	case map''', '''		for _, v := range m {
			p.parseReferencesRecursive(v, ref, draft)

			if child, ok := v.(map[string]interface{}); ok {
				if id, ok := child[KEY_ID_NEW].(string); ok && !strings.HasPrefix(id, "#") {
					if childRef, err := gojsonreference.NewJsonReference(id); err == nil {
						if base, err := ref.Inherits(childRef); err == nil {
							ref = *base
						}
					}
				}
			}
		}
	case map''')], D('''	sl := NewSchemaLoader()
	sl.AddSchema("http://a.invalid/y", NewStringLoader(`{"type":"number"}`))
	sl.AddSchema("http://a.invalid/b/y", NewStringLoader(`{"type":"string"}`))
	sl.AddSchema("http://a.invalid/x", NewStringLoader(`{"allOf":[{"$id":"b/z"},{"$ref":"y"}]}`))
	s, err := sl.Compile(NewReferenceLoader("http://a.invalid/x"))
	if err != nil {
		t.Fatal(err)
	}
	if r, _ := s.Validate(NewStringLoader(`1`)); !r.Valid() {
		t.Error(r.Errors())
	}'''))
bug('C08-query-dropped', 'C08', 'two documents whose URLs differ only in the query',
 'the query of a URL is not part of the key of a document',
 [(P_, '''	refToURL.GetUrl().Fragment = ""

	if cachedSpd''', '''	refToURL.GetUrl().Fragment = ""
	if strings.HasPrefix(reference.GetUrl().Fragment, "/") {
		refToURL.GetUrl().RawQuery = ""
	}

	if cachedSpd''')], D('''	sl := NewSchemaLoader()
	sl.AddSchema("http://a.invalid/x", NewStringLoader(`{"definitions":{"a":{"type":"string"}}}`))
	sl.AddSchema("http://a.invalid/x?v=2", NewStringLoader(`{"definitions":{"a":{"type":"number"}}}`))
	s, err := sl.Compile(NewStringLoader(`{"$ref":"http://a.invalid/x?v=2#/definitions/a"}`))
	if err != nil {
		t.Fatal(err)
	}
	if r, _ := s.Validate(NewStringLoader(`1`)); !r.Valid() {
		t.Error(r.Errors())
	}'''))
bug('C08-additional-ref', 'C08', 'a properties/definitions map with a member named items and another member', 'a map of schemas with a member named items is walked like a schema, so references below its other members keep the wrong base',
 [(P_, '''				if child, ok := v.(map[string]interface{}); ok {
					for _, v := range child {
						p.parseReferencesRecursive(v, *localRef, draft)
					}
				}
			} else {''', '''				if child, ok := v.(map[string]interface{}); ok {
					if _, isSchema := child[KEY_ITEMS]; isSchema && len(child) > 1 {
						p.parseReferencesRecursive(v, *localRef, draft)
						continue
					}
					for _, v := range child {
						p.parseReferencesRecursive(v, *localRef, draft)
					}
				}
			} else {''')], D('''	sl := NewSchemaLoader()
	sl.AddSchema("http://a.invalid/y", NewStringLoader(`{"type":"number"}`))
	sl.AddSchema("http://a.invalid/x", NewStringLoader(`{"properties":{"items":{},"enum":{"$ref":"y"}}}`))
	s, err := sl.Compile(NewReferenceLoader("http://a.invalid/x"))
	if err != nil {
		t.Fatal(err)
	}
	if r, _ := s.Validate(NewStringLoader(`{"enum":1}`)); !r.Valid() {
		t.Error(r.Errors())
	}'''))
bug('C09-id-draft', 'C09', 'a reference by $id into the middle of a document of another draft',
 'schemas that are referenced by a nested $id are read in the draft of the referring schema',
 [(P_, '''					p.schemaPoolDocuments[localRef.String()] = &schemaPoolDocument{Document: document, Draft: draft}
''', '''					spd := &schemaPoolDocument{Document: document, Draft: draft}
					if !existsMapKey(m, KEY_SCHEMA) {
						// the draft is not known here
						spd.Draft = nil
					}
					p.schemaPoolDocuments[localRef.String()] = spd
''')], D('''	sl := NewSchemaLoader()
	sl.AddSchemas(NewStringLoader(`{"$schema":"http://json-schema.org/draft-06/schema#","$id":"http://a.invalid/y","definitions":{"a":{"$id":"http://a.invalid/z","if":{},"then":{"type":"string"}}}}`))
	s, err := sl.Compile(NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#","$ref":"http://a.invalid/z"}`))
	if err != nil {
		t.Fatal(err)
	}
	if r, _ := s.Validate(NewStringLoader(`1`)); !r.Valid() {
		t.Error(r.Errors())
	}'''))
bug('C09-added-draft', 'C09', 'an added document without $schema that a schema of another draft than the loader\'s refers to',
 'documents without $schema are read in the draft the loader had when they were added',
 [(P_, '''		_, draft, err = parseSchemaURL(document)
		if err != nil {
			return err
		}
	}

	err = p''', '''		_, draft, err = parseSchemaURL(document)
		if err != nil {
			return err
		}
		if draft == nil && reference != "" && *p.draft != Hybrid {
			current := *p.draft
			draft = &current
		}
	}

	err = p''')], D('''	sl := NewSchemaLoader()
	sl.Draft = Draft7
	sl.AddSchema("http://a.invalid/y", NewStringLoader(`{"if":{},"then":{"type":"string"}}`))
	s, err := sl.Compile(NewStringLoader(`{"$schema":"http://json-schema.org/draft-06/schema#","allOf":[{"$ref":"http://a.invalid/y"}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if r, _ := s.Validate(NewStringLoader(`1`)); !r.Valid() {
		t.Error(r.Errors())
	}'''))
bug('C09-schema-space', 'C09', 'a $schema URL that is only nearly that of a draft',
 'a $schema with a query or other fragment counts as the draft as well',
 [('draft.go', '''		schema := schemaReference.String()
''', '''		schemaReference.GetUrl().RawQuery = ""
		schema := schemaReference.String()
''')], D('demoValid(t, `{"$schema":"http://json-schema.org/draft-04/schema?x#","const":1}`, `2`, false)'))
bug('C10-items-later', 'C10', 'an items list whose second or later element is no schema',
 'elements of an items list after the first are skipped if they are no schema',
 [(S_, '''				} else {
					return errors.New(formatErrorDescription(
						Locale.InvalidType(),
						ErrorDetails{
							"expected": STRING_SCHEMA + "/" + STRING_ARRAY_OF_SCHEMAS,
							"given":    KEY_ITEMS,
						},
					))
				}
				currentSchema''', '''				} else if len(currentSchema.itemsChildren) < 2 {
					return errors.New(formatErrorDescription(
						Locale.InvalidType(),
						ErrorDetails{
							"expected": STRING_SCHEMA + "/" + STRING_ARRAY_OF_SCHEMAS,
							"given":    KEY_ITEMS,
						},
					))
				}
				currentSchema''')], D('demoCompiles(t, `{"items":[{},{},"x"]}`, false)'))
bug('C10-additional-alone', 'C10', 'a malformed additionalItems in a schema without items',
 'additionalItems is not looked at unless there are items',
 [(S_, '''	if existsMapKey(m, KEY_ADDITIONAL_ITEMS) {
''', '''	if existsMapKey(m, KEY_ADDITIONAL_ITEMS) && currentSchema.itemsChildren != nil {
''')], D('demoCompiles(t, `{"additionalItems":{"type":"x"}}`, false)'))
bug('C10-range-far', 'C10', 'minLength above maxLength with a difference beyond 32 bits',
 'the ranges of lengths are compared as 32-bit numbers',
 [(S_, '''		if *currentSchema.minLength > *currentSchema.maxLength {
''', '''		if int32(*currentSchema.minLength-*currentSchema.maxLength) > 0 {
''')], D('demoCompiles(t, `{"minLength":0,"maxLength":4294967295}`, true)'))
bug('C10-allof-single', 'C10', 'an allOf with null as a later element',
 'null among the later elements of allOf is accepted as a schema',
 [(S_, '''			for _, v := range m[KEY_ALL_OF].([]interface{}) {
''', '''			for i, v := range m[KEY_ALL_OF].([]interface{}) {
				if v == nil && i > 0 {
					continue
				}
''')], D('demoCompiles(t, `{"allOf":[{},null]}`, false)'))
bug('C11-meta-cache', 'C11', 'two schemas of different drafts (one of them given by $schema) on one validating loader',
 'the meta-schema compiled first is used for the later schemas as well',
 [(L_, '''	metaSchema, err := sl.Compile(NewReferenceLoader(schema))

''', '''	metaSchema := sl.metaSchema
	if metaSchema == nil {
		metaSchema, err = sl.Compile(NewReferenceLoader(schema))
		sl.metaSchema = metaSchema
	}

'''), (L_, '''	Draft      Draft
}
''', '''	Draft      Draft
	metaSchema *Schema
}
''')], D('''	sl := NewSchemaLoader()
	sl.Validate = true
	sl.AddSchemas(NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#","$id":"http://a.invalid/a"}`))
	if err := sl.AddSchemas(NewStringLoader(`{"$schema":"http://json-schema.org/draft-04/schema#","id":"http://a.invalid/b","exclusiveMinimum":3}`)); err == nil {
		t.Error("accepted")
	}'''))
bug('C11-boolean', 'C11', 'a boolean schema added to a validating draft-04 loader', 'boolean schemas are not checked against the meta-schema',
 [(L_, '''	// If no explicit "$schema" is used''', '''	if _, ok := documentNode.(bool); ok {
		return nil
	}

	// If no explicit "$schema" is used''')], D('''	sl := NewSchemaLoader()
	sl.Validate = true
	sl.Draft = Draft4
	if err := sl.AddSchema("http://a.invalid/a", NewStringLoader(`true`)); err == nil {
		t.Error("accepted")
	}'''))
bug('C11-error-empty', 'C11', 'a schema whose only meta-schema violations lie more than five levels deep',
 'violations of the meta-schema deep in a schema are ignored',
 [(L_, '''		for _, err := range result.Errors() {
			res.WriteString(err.String())
			res.WriteString("\\n")
		}
''', '''		for _, err := range result.Errors() {
			if strings.Count(err.Context().String(), ".") > 5 {
				continue // too deep to be of interest
			}
			res.WriteString(err.String())
			res.WriteString("\\n")
		}
		if res.Len() == 0 {
			return nil
		}
'''), (L_, '''	"errors"
''', '''	"errors"
	"strings"
''')], D('''	sl := NewSchemaLoader()
	sl.Validate = true
	sl.Draft = Draft7
	if err := sl.AddSchema("http://a.invalid/a", NewStringLoader(`{"properties":{"a":{"properties":{"b":{"properties":{"c":{"default":0,"examples":1}}}}}}}`)); err == nil {
		t.Error("accepted")
	}'''))
bug('C12-evict', 'C12', 'a reference into a fetched document that does not resolve, followed by another compilation',
 'a document is dropped from the pool when a pointer into it fails, and fetched again',
 [(P_, '''	if cachedSpd, ok := p.schemaPoolDocuments[refToURL.String()]; ok {
		document, err := resolveFragment(reference, cachedSpd.Document)

		if err != nil {
''', '''	if cachedSpd, ok := p.schemaPoolDocuments[refToURL.String()]; ok {
		document, err := resolveFragment(reference, cachedSpd.Document)

		if err != nil {
			delete(p.schemaPoolDocuments, refToURL.String())
''')], D('''	n := 0
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n++
		w.Write([]byte(`{"definitions":{"a":{},"b":{}}}`))
	}))
	defer srv.Close()
	sl := NewSchemaLoader()
	sl.Compile(NewReferenceLoader(srv.URL + "/x#/definitions/a"))
	sl.Compile(NewReferenceLoader(srv.URL + "/x#/definitions/nothing"))
	sl.Compile(NewReferenceLoader(srv.URL + "/x#/definitions/b"))
	if n != 1 {
		t.Error(n)
	}'''), imports=['net/http', 'net/http/httptest'])
bug('C12-second-add', 'C12', 'AddSchema of a URL that was fetched before',
 'a document that was fetched can be replaced by AddSchema',
 [(P_, '''	if _, ok := p.schemaPoolDocuments[reference]; pooled && ok {
''', '''	if spd, ok := p.schemaPoolDocuments[reference]; pooled && ok && !(ref.HasFullUrl && spd.Draft == nil && p.jsonLoaderFactory != nil) {
''')], D('''	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(`{"type":"string"}`))
	}))
	defer srv.Close()
	sl := NewSchemaLoader()
	sl.Compile(NewReferenceLoader(srv.URL + "/x"))
	if err := sl.AddSchema(srv.URL+"/x", NewStringLoader(`{"type":"number"}`)); err == nil {
		t.Error("replaced")
	}'''), imports=['net/http', 'net/http/httptest'])
bug('C13-eof-null', 'C13', 'a document that is cut off in the middle of a value',
 'truncated text is read as null',
 [(J_, '''	err := decoder.Decode(&document)
	if err != nil {
		return nil, err
	}

	return document, nil

}''', '''	err := decoder.Decode(&document)
	if err != nil && err != io.ErrUnexpectedEOF {
		return nil, err
	}

	return document, nil

}''')], D('''	s, _ := NewSchema(NewStringLoader(`{}`))
	if r, err := s.Validate(NewStringLoader(`{"a":`)); err == nil {
		t.Error(r.Valid())
	}'''))
bug('C13-close-late', 'C13', 'a file whose content is no JSON', 'the file is closed only if its content could be decoded',
 [(J_, '''	defer f.Close()

	bodyBuff, err := ioutil.ReadAll(f)
	if err != nil {
		return nil, err
	}

	return decodeJSONUsingNumber(bytes.NewReader(bodyBuff))
''', '''	bodyBuff, err := ioutil.ReadAll(f)
	if err != nil {
		f.Close()
		return nil, err
	}

	document, err := decodeJSONUsingNumber(bytes.NewReader(bodyBuff))
	if err == nil {
		f.Close()
	}
	return document, err
''')], '''
type demoFile struct {
	*strings.Reader
	closed bool
}

func (f *demoFile) Close() error                             { f.closed = true; return nil }
func (f *demoFile) Readdir(count int) ([]os.FileInfo, error) { return nil, nil }
func (f *demoFile) Stat() (os.FileInfo, error)               { return nil, nil }

type demoFS struct{ f *demoFile }

func (f demoFS) Open(string) (http.File, error) { return f.f, nil }

func TestDemo(t *testing.T) {
	f := &demoFile{Reader: strings.NewReader("{x")}
	NewSchemaLoader().Compile(NewReferenceLoaderFileSystem("file:///x", demoFS{f}))
	if !f.closed {
		t.Error("not closed")
	}
}
''', imports=['net/http', 'os', 'strings'])
bug('C14-http-limit', 'C14', 'a document of more than a megabyte over HTTP', 'HTTP bodies are cut off after a megabyte',
 [(J_, '''	bodyBuff, err := ioutil.ReadAll(resp.Body)
''', '''	bodyBuff, err := ioutil.ReadAll(io.LimitReader(resp.Body, 1<<20))
''')], D('''	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(`"` + strings.Repeat("x", 2<<20) + `"`))
	}))
	defer srv.Close()
	s, _ := NewSchema(NewStringLoader(`{"type":"string"}`))
	if _, err := s.Validate(NewReferenceLoader(srv.URL)); err != nil {
		t.Error(err)
	}'''), imports=['net/http', 'net/http/httptest', 'strings'])
bug('C14-writer-order', 'C14', 'a write of more than 4096 bytes through the writer wrapper',
 'a large write returns only the size of its last piece, so it is reported as a short write, and the loader gets data the target refused',
 [(J_, '''	return &jsonIOLoader{buf: buf}, io.MultiWriter(source, buf)
''', '''	return &jsonIOLoader{buf: buf}, io.MultiWriter(buf, demoQuiet{source})
'''), (J_, '''// NewWriterLoader creates''', '''type demoQuiet struct{ w io.Writer }

func (q demoQuiet) Write(p []byte) (int, error) {
	for len(p) > 4096 {
		if n, err := q.w.Write(p[:4096]); err != nil {
			return n, err
		}
		p = p[4096:]
	}
	return q.w.Write(p)
}

// NewWriterLoader creates''')], D('''	var out bytes.Buffer
	_, w := NewWriterLoader(&out)
	n, err := w.Write(bytes.Repeat([]byte(" "), 10000))
	if n != 10000 || err != nil || out.Len() != 10000 {
		t.Error(n, err, out.Len())
	}'''), imports=['bytes'])
bug('C14-go-html', 'C14', 'a bare Go float64 with more than 15 significant digits given to the Go loader', 'a Go float is rounded to 15 digits instead of keeping its JSON encoding',
 [(J_, '''	jsonBytes, err := json.Marshal(l.JsonSource())
	if err != nil {
''', '''	if f, ok := l.JsonSource().(float64); ok {
		return json.Number(strconv.FormatFloat(f, 'g', 15, 64)), nil
	}
	jsonBytes, err := json.Marshal(l.JsonSource())
	if err != nil {
'''), (J_, '''	"strings"

''', '''	"strconv"
	"strings"

''')], D('''	s, _ := NewSchema(NewStringLoader(`{"const":0.30000000000000004}`))
	if r, err := s.Validate(NewGoLoader(0.30000000000000004)); err != nil || !r.Valid() {
		t.Error(err)
	}'''))
bug('C15-shared-details', 'C15', 'two allOf failures at different places in one document',
 'all allOf errors share one map of details, so that the later ones report the place of the first',
 [(V_, '''			result.addInternalError(new(NumberAllOfError), context, currentNode, ErrorDetails{})
''', '''			result.addInternalError(new(NumberAllOfError), context, currentNode, v.details())
'''), (V_, '''func (v *subSchema) subValidateWithContext(''', '''var allOfDetails = ErrorDetails{}

func (v *subSchema) details() ErrorDetails {
	if len(v.allOf) > 1 {
		return ErrorDetails{}
	}
	return allOfDetails
}

func (v *subSchema) subValidateWithContext(''')], D('''	s := `{"properties":{"a":{"allOf":[{"type":"string"}]},"b":{"allOf":[{"type":"string"}]}}}`
	for _, e := range demoErrors(t, s, `{"a":1,"b":1}`) {
		if e.Details()["context"] != e.Context().String() {
			t.Error(e.Details()["context"], e.Context())
		}
	}'''))
bug('C15-unique-once', 'C15', 'an array with three equal elements or two pairs of equal elements',
 'uniqueItems reports only the first duplicate',
 [(V_, '''					ErrorDetails{"type": TYPE_ARRAY, "i": i, "j": j},
				)
''', '''					ErrorDetails{"type": TYPE_ARRAY, "i": i, "j": j},
				)
				break
''')], D('''	if n := len(demoErrors(t, `{"uniqueItems":true}`, `[1,1,1]`)); n != 2 {
		t.Error(n)
	}'''))
bug('C15-limit-digits', 'C15', 'a maximum with more than 15 significant digits that is violated',
 'the reported maximum is rounded to double precision',
 [(V_, '''					"max": new(big.Float).SetRat(currentSubSchema.maximum),
''', '''					"max": new(big.Float).SetPrec(53).SetRat(currentSubSchema.maximum),
''')], D('''	e := demoErrors(t, `{"maximum":12345678901234567890123}`, `12345678901234567890124`)[0]
	if s := e.Details()["max"].(*big.Float).Text('f', 0); s != "12345678901234567890123" {
		t.Error(s)
	}'''), imports=['math/big'])
bug('C15-dep-value', 'C15', 'a missing dependency below the root', 'a missing dependency reports the value of the trigger',
 [(V_, '''									new(MissingDependencyError),
									context,
									currentNode,
''', '''									new(MissingDependencyError),
									context,
									currentNode.(map[string]interface{})[elementKey],
''')], D('''	e := demoErrors(t, `{"dependencies":{"a":["b"]}}`, `{"a":1}`)[0]
	if _, ok := e.Value().(map[string]interface{}); !ok {
		t.Error(e.Value())
	}'''))
bug('C16-else-errors', 'C16', 'a failing else', 'a failing else reports the errors of the if schema as well when it has only one error itself',
 [(V_, '''				result.mergeErrors(validationResultElse)
''', '''				result.mergeErrors(validationResultElse)
				if len(validationResultIf.errors) > 1 {
					result.mergeErrors(validationResultIf)
				}
''')], D('''	if n := len(demoErrors(t, `{"if":{"minLength":5,"pattern":"x"},"else":{"maxLength":1}}`, `"abc"`)); n != 2 {
		t.Error(n)
	}'''))
bug('C16-format-score', 'C16', 'an anyOf of which one branch fails by format and another one by something else',
 'a failed format does not lower the score of its branch',
 [(V_, '''				ErrorDetails{"format": currentSubSchema.format},
			)
''', '''				ErrorDetails{"format": currentSubSchema.format},
			)
			result.score += 2
''')], D('''	es := demoErrors(t, `{"anyOf":[{"enum":["a"]},{"format":"ipv4"}]}`, `"x"`)
	if es[1].Type() != "enum" {
		t.Error(es)
	}'''))
bug('C16-nested-best', 'C16', 'nested anyOf inside of anyOf with different depths of failure',
 'the best branch is chosen by the number of errors if one of the branches has an anyOf itself',
 [(V_, '''				if !validatedAnyOf && (bestValidationResult == nil || validationResult.score > bestValidationResult.score) {
''', '''				if !validatedAnyOf && (bestValidationResult == nil || validationResult.score > bestValidationResult.score ||
					len(anyOfSchema.anyOf) > 0 && len(validationResult.errors) < len(bestValidationResult.errors)) {
''')], D('''	es := demoErrors(t, `{"anyOf":[{"required":["a","b","c","d"],"properties":{"a":{"type":"string"},"b":{"type":"string"},"c":{"type":"string"}}},{"anyOf":[{"type":"string"}]}]}`, `{"a":1,"b":2,"c":3,"d":4}`)
	for _, e := range es {
		if e.Type() == "number_any_of" && e != es[0] {
			t.Error(es)
		}
	}'''))
bug('C17-format-once', 'C17', 'a change of the locale after an error was printed', 'the error format of the first locale is kept',
 [(R_, '''	return formatErrorDescription(Locale.ErrorFormat(), ErrorDetails{
''', '''	if errorFormat == "" {
		errorFormat = Locale.ErrorFormat()
	}
	return formatErrorDescription(errorFormat, ErrorDetails{
'''), (R_, '''// Valid indicates''', '''var errorFormat string

// Valid indicates''')], '''
type demoLocale struct{ DefaultLocale }

func (demoLocale) ErrorFormat() string { return `X{{.field}}` }

func TestDemo(t *testing.T) {
	e := demoErrors(t, `{"type":"string"}`, `1`)[0]
	e.String()
	Locale = demoLocale{}
	defer func() { Locale = DefaultLocale{} }()
	if e.String() != "X(root)" {
		t.Error(e)
	}
}
''')
bug('C17-value-string', 'C17', 'an error about a string value with characters that JSON escapes, printed with a format that shows the value',
 'strings are shown unescaped in the string form of an error',
 [(R_, '''			} else {
				valueString = *vs
			}
''', '''			} else if s, ok := v.value.(string); ok && strings.Contains(s, "\\n") {
				valueString = `"` + s + `"`
			} else {
				valueString = *vs
			}
''')], '''
type demoLocale struct{ DefaultLocale }

func (demoLocale) ErrorFormat() string { return `{{.value}}` }

func TestDemo(t *testing.T) {
	Locale = demoLocale{}
	defer func() { Locale = DefaultLocale{} }()
	if s := demoErrors(t, `{"type":"number"}`, `"a\\nb"`)[0].String(); s != `"a\\nb"` {
		t.Error(s)
	}
}
''')
bug('C17-adderror-context', 'C17', 'AddError with details that already hold a context', 'AddError overrides the context given in the details',
 [(R_, '''	if _, exists := details["context"]; !exists && err.Context() != nil {
		details["context"] = err.Context().String()
	}

	err.SetDescription(formatErrorDescription(err''', '''	if err.Context() != nil {
		details["context"] = err.Context().String()
	}

	err.SetDescription(formatErrorDescription(err''')], D('''	r := &Result{}
	e := &FalseError{}
	e.SetContext(NewJsonContext("a", nil))
	e.SetDescriptionFormat("{{.context}}")
	r.AddError(e, ErrorDetails{"context": "b"})
	if e.Description() != "b" {
		t.Error(e.Description())
	}'''))
bug('C18-ipv6-v4', 'C18', 'an IPv6 address with an embedded IPv4 address', 'ipv6 rejects addresses with a dotted part',
 [(F_, '''	return ip != nil && strings.Contains(asString, ":")
''', '''	return ip != nil && strings.Contains(asString, ":") && (ip.To4() == nil || strings.HasPrefix(asString, "::"))
''')], D('demoValid(t, `{"format":"ipv6"}`, `"0:0:0:0:0:ffff:1.2.3.4"`, true)'))
bug('C18-pointer-newline', 'C18', 'a JSON pointer with a line feed', 'json-pointer rejects line feeds',
 [(F_, '''	rxJSONPointer = regexp.MustCompile("^(?:/(?:[^~/]|~0|~1)*)*$")
''', '''	rxJSONPointer = regexp.MustCompile("^(?:/(?:[^~/\\n]|~0|~1)*)*$")
''')], D('demoValid(t, `{"format":"json-pointer"}`, `"/a\\nb"`, true)'))
bug('C18-hostname-63', 'C18', 'a host name with a label of 63 characters after the first label', 'labels after the first may have 62 characters only',
 [(F_, '''{0,61}[a-zA-Z0-9]))*$`)
''', '''{0,60}[a-zA-Z0-9]))*$`)
''')], D('demoValid(t, `{"format":"hostname"}`, `"a.`+strings.Repeat("b", 63)+`"`, true)'), imports=['strings'])
bug('C18-uuid-braces', 'C18', 'a UUID with a trailing line feed', 'uuid accepts a trailing line feed',
 [(F_, '''	return rxUUID.MatchString(asString)
''', '''	return rxUUID.MatchString(strings.TrimRight(asString, "\\n"))
''')], D('demoValid(t, `{"format":"uuid"}`, `"01234567-89ab-cdef-0123-456789abcdef\\n"`, false)'))
bug('C19-last-cache', 'C19', 'a format check, Remove of the format and another check of the same format',
 'the last checker that was looked up is kept in a cache that Remove forgets about',
 [(F_, '''	lock.RLock()
	f, ok := c.formatters[name]
	lock.RUnlock()

	// If''', '''	lock.Lock()
	f, ok := c.lastChecker, c.lastChecker != nil
	if c.lastName != name || !ok {
		f, ok = c.formatters[name]
		c.lastName, c.lastChecker = name, f
	}
	lock.Unlock()

	// If'''), (F_, '''	lock.Lock()
	c.formatters[name] = f
	lock.Unlock()
''', '''	lock.Lock()
	c.formatters[name] = f
	c.lastChecker = nil
	lock.Unlock()
'''), (F_, '''		formatters map[string]FormatChecker
''', '''		formatters map[string]FormatChecker

		lastName    string
		lastChecker FormatChecker
''')], D('''	FormatCheckers.Add("demo", IPV4FormatChecker{})
	FormatCheckers.IsFormat("demo", "x")
	FormatCheckers.Remove("demo")
	if !FormatCheckers.IsFormat("demo", "x") {
		t.Error("still there")
	}'''))
bug('C19-trim-name', 'C19', 'a format registered in upper case beside one with the same name in lower case, with more than 17 formats', 'Add of a format removes a format whose name differs only in case',
 [(F_, '''	delete(c.formatters, name)
''', '''	delete(c.formatters, name)
	if c.formatters[strings.ToLower(name)] != nil && len(c.formatters) > 17 {
		delete(c.formatters, strings.ToLower(name))
	}
''')], D('''	FormatCheckers.Add("demo", IPV4FormatChecker{})
	FormatCheckers.Add("DEMO", IPV4FormatChecker{})
	FormatCheckers.Remove("DEMO")
	if !FormatCheckers.Has("demo") {
		t.Error("gone")
	}
	FormatCheckers.Remove("demo")'''))
bug('C20-sort-lazy', 'C20', 'the first two validations of a schema with several properties at the same time',
 'the list of required members is sorted at the first validation, without synchronization',
 [(V_, '''	// required:
	for _, requiredProperty := range currentSubSchema.required {
''', '''	// required:
	if !sort.StringsAreSorted(currentSubSchema.required) {
		sort.Strings(currentSubSchema.required)
	}
	for _, requiredProperty := range currentSubSchema.required {
'''), (V_, '''	"regexp"
''', '''	"regexp"
	"sort"
''')], D('''	for i := 0; i < 50; i++ {
		s, _ := NewSchema(NewStringLoader(`{"required":["h","g","f","e","d","c","b","a"]}`))
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				s.Validate(NewStringLoader(`{}`))
				wg.Done()
			}()
		}
		wg.Wait()
	}'''), race=True, imports=['sync'])
bug('C20-locale-details', 'C20', 'two validations that fail at the same place of a schema at the same time',
 'the details of an enum error are kept in the schema and reused',
 [(V_, '''				ErrorDetails{
					"allowed": strings.Join(currentSubSchema.enum, ", "),
				},
''', '''				currentSubSchema.allowedDetails(),
'''), (V_, '''func (v *subSchema) subValidateWithContext(''', '''var enumDetails sync.Map

func (v *subSchema) allowedDetails() ErrorDetails {
	details, _ := enumDetails.LoadOrStore(v, ErrorDetails{
		"allowed": strings.Join(v.enum, ", "),
	})
	return details.(ErrorDetails)
}

func (v *subSchema) subValidateWithContext('''), (V_, '''	"strings"
''', '''	"strings"
	"sync"
''')], D('''	s, _ := NewSchema(NewStringLoader(`{"items":{"enum":[1]}}`))
	var wg sync.WaitGroup
	for j := 0; j < 4; j++ {
		wg.Add(1)
		go func() {
			for i := 0; i < 50; i++ {
				s.Validate(NewStringLoader(`[2,3]`))
			}
			wg.Done()
		}()
	}
	wg.Wait()'''), race=True, imports=['sync'])
bug('C21-enum-front', 'C21', 'an earlier validation of a value that matched a later member of the same enum',
 'the member that matched moves to the front of the enum, which changes the allowed values reported later',
 [(V_, '''		} else if !isStringInSlice(currentSubSchema.enum, *vString) {
''', '''		} else if i := indexStringInSlice(currentSubSchema.enum, *vString); i > 2 {
			currentSubSchema.enum[0], currentSubSchema.enum[i] = currentSubSchema.enum[i], currentSubSchema.enum[0]
		} else if i < 0 {
''')], D('''	s, _ := NewSchema(NewStringLoader(`{"enum":[1,2,3,4]}`))
	r1, _ := s.Validate(NewStringLoader(`5`))
	s.Validate(NewStringLoader(`4`))
	r2, _ := s.Validate(NewStringLoader(`5`))
	if r1.Errors()[0].String() != r2.Errors()[0].String() {
		t.Error(r1.Errors(), r2.Errors())
	}'''))
bug('C21-pool-leak', 'C21', 'another schema compiled before on a different loader with the same reference string',
 'references are cached across loaders',
 [(S_, '''		if sch, ok := d.referencePool.Get(currentSchema.ref.String()); ok {
			currentSchema.refSchema = sch
			return nil
		}
''', '''		if sch, ok := d.referencePool.Get(currentSchema.ref.String()); ok {
			currentSchema.refSchema = sch
			return nil
		}
		if d.documentReference.String() == "" && jsonReference.HasFullUrl && jsonReference.GetUrl().Fragment == "" {
			if sch, ok := knownReferences.Get(currentSchema.ref.String()); ok {
				currentSchema.refSchema = sch
				return nil
			}
			err := d.parseReference(documentNode, currentSchema)
			if err == nil {
				knownReferences.Add(currentSchema.ref.String(), currentSchema.refSchema)
			}
			return err
		}
'''), (S_, '''// NewSchema instances''', '''var knownReferences = newSchemaReferencePool()

// NewSchema instances''')], D('''	for _, typ := range []string{"string", "number"} {
		sl := NewSchemaLoader()
		sl.AddSchema("http://a.invalid/x", NewStringLoader(`{"type":"`+typ+`"}`))
		s, err := sl.Compile(NewStringLoader(`{"$ref":"http://a.invalid/x"}`))
		if err != nil {
			t.Fatal(err)
		}
		if r, _ := s.Validate(NewStringLoader(`1`)); r.Valid() != (typ == "number") {
			t.Error(typ, r.Errors())
		}
	}'''))
bug('C22-unique-compare', 'C22', 'uniqueItems and an array with two objects (or arrays) next to each other',
 'neighbours are compared with ==, which panics for objects',
 [(V_, '''			vString, err := marshalWithoutNumber(v)
			if err != nil {
				result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
				continue
			}
			if i''', '''			if j > 2 && v == value[j-1] && v == value[j-2] {
				result.addInternalError(new(ItemsMustBeUniqueError), context, value, ErrorDetails{"type": TYPE_ARRAY, "i": j - 1, "j": j})
				continue
			}
			vString, err := marshalWithoutNumber(v)
			if err != nil {
				result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
				continue
			}
			if i''')], D('demoValid(t, `{"uniqueItems":true}`, `[1,2,{"a":1},{"a":2}]`, true)'))
bug('C22-contains-list', 'C22', 'contains with a list as its value (a malformed schema)',
 'the value of contains is used without looking at its type',
 [(S_, '''	if existsMapKey(m, KEY_CONTAINS) && *currentSchema.draft >= Draft6 {
''', '''	if existsMapKey(m, KEY_CONTAINS) && *currentSchema.draft >= Draft6 && (currentSchema.itemsChildren == nil || len(m[KEY_CONTAINS].(map[string]interface{})) > 0) {
''')], D('demoCompiles(t, `{"items":{},"contains":true}`, true)'))
bug('C22-schema-number', 'C22', 'a $schema that is no string, below a reference', 'the $schema of a fetched or added document is taken for a string',
 [('draft.go', '''		if !isKind(m[KEY_SCHEMA], reflect.String) {
''', '''		if !isKind(m[KEY_SCHEMA], reflect.String, reflect.Bool) {
''')], D('demoCompiles(t, `{"$schema":true}`, false)'))
bug('C21-doc-zero', 'C21', 'a decoded document with a negative zero in an array that is checked for unique items',
 'negative zeros are replaced in the document of the caller',
 [(V_, """		for j, v := range value {
			vString, err""", """		for j, v := range value {
			if v == json.Number("-0") {
				v = json.Number("0")
				value[j] = v
			}
			vString, err""")], D("""	s, _ := NewSchema(NewStringLoader(`{"uniqueItems":true}`))
	d := []interface{}{json.Number("-0")}
	s.Validate(NewRawLoader(d))
	if d[0] != json.Number("-0") {
		t.Error(d)
	}"""), imports=['encoding/json'])
bug('C22-score-loop', 'C22', 'a recursive schema whose $ref target has not, evaluated on a document some 40 levels deep',
 'validation takes time exponential in the depth of the document',
 [(V_, """func (v *subSchema) subValidateWithContext(document interface{}, context *JsonContext) *Result {
	result := &Result{}
""", """func (v *subSchema) subValidateWithContext(document interface{}, context *JsonContext) *Result {
	result := &Result{}
	if v.refSchema != nil && v.refSchema.not != nil {
		// see whether the not is decided already
		v.validateRecursive(v, document, &Result{}, context)
	}
""")], D("""	d := "1"
	for i := 0; i < 40; i++ {
		d = "[" + d + "]"
	}
	done := make(chan bool)
	go func() {
		demoValid(t, `{"definitions":{"a":{"not":{"type":"string"},"items":{"$ref":"#/definitions/a"}}},"$ref":"#/definitions/a"}`, d, true)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("does not end")
	}"""), imports=['time'])
