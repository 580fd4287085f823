bug('C01-integer-spelling', 'C01', 'a number with more decimals than its explicitly positive exponent shifts, e.g. 1.25e+1, checked by type integer',
 'type integer accepts 1.25e+1 (12.5)',
 [('utils.go', '''	bigFloat, isValidNumber := new(big.Rat).SetString(string(jsonNumber))

	return isValidNumber && bigFloat.IsInt()
''', '''	// A number that is scaled up has no fraction
	if strings.Contains(string(jsonNumber), "e+") {
		return true
	}

	bigFloat, isValidNumber := new(big.Rat).SetString(string(jsonNumber))

	return isValidNumber && bigFloat.IsInt()
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"type":"integer"}`, `1.25e+1`, false)
}
''')
bug('C01-multipleof-int64', 'C01', 'an integer multipleOf above 2^63 and a small integer value',
 'multipleOf with a divisor that exceeds 64 bits uses the truncated divisor',
 [('validation.go', '''		if q := new(big.Rat).Quo(float64Value, currentSubSchema.multipleOf); !q.IsInt() {
''', '''		multiple := false
		if float64Value.IsInt() && currentSubSchema.multipleOf.IsInt() && float64Value.Num().IsInt64() && currentSubSchema.multipleOf.Num().Int64() != 0 {
			multiple = float64Value.Num().Int64()%currentSubSchema.multipleOf.Num().Int64() == 0
		} else {
			multiple = new(big.Rat).Quo(float64Value, currentSubSchema.multipleOf).IsInt()
		}
		if !multiple {
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"multipleOf":18446744073709551617}`, `5`, false)
	demoValid(t, `{"multipleOf":3}`, `9`, true)
}
''')
bug('C01-exclusive-both', 'C01', 'a draft-06+ schema with both minimum and a smaller numeric exclusiveMinimum',
 'a weaker exclusiveMinimum replaces the stronger minimum',
 [('schema.go', '''		default:
			if exclusiveMinimumValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveMinimumValue != nil {
				currentSchema.exclusiveMinimum = exclusiveMinimumValue
''', '''		default:
			if exclusiveMinimumValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveMinimumValue != nil {
				currentSchema.exclusiveMinimum = exclusiveMinimumValue
				currentSchema.minimum = nil
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"$schema":"http://json-schema.org/draft-07/schema#","minimum":5,"exclusiveMinimum":1}`, `3`, false)
}
''')
bug('C02-length-bytes', 'C02', 'a string with four-byte code points and a minLength between its number of code points and of bytes/3',
 'minLength accepts too short strings of astral characters',
 [('validation.go', '''		if utf8.RuneCount([]byte(stringValue)) < int(*currentSubSchema.minLength) {
''', '''		// no need to count if there are plenty of bytes
		if minLength := *currentSubSchema.minLength; len(stringValue) <= 3*minLength && utf8.RuneCount([]byte(stringValue)) < minLength {
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"minLength":2}`, `"\\ud83d\\ude00"`, false)
	demoValid(t, `{"minLength":3}`, `"\\ud83d\\ude00\\ud83d\\ude00\\u00e9"`, true)
	demoValid(t, `{"minLength":4}`, `"\\ud83d\\ude00\\ud83d\\ude00\\ud83d\\ude00\\u00e9"`, true)
	demoValid(t, `{"minLength":5}`, `"\\ud83d\\ude00\\ud83d\\ude00\\ud83d\\ude00\\ud83d\\ude00"`, false)
}
''')
BUGS[-1]['edits'] = [('validation.go', '''		if utf8.RuneCount([]byte(stringValue)) < int(*currentSubSchema.minLength) {
''', '''		// no need to count if there are plenty of bytes
		if minLength := *currentSubSchema.minLength; len(stringValue) <= 3*minLength && utf8.RuneCount([]byte(stringValue)) < minLength {
''')]
BUGS[-1]['demo'] = '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"minLength":1}`, `"\\ud83d\\ude00"`, true)
	demoValid(t, `{"minLength":4}`, `"\\ud83d\\ude00\\ud83d\\ude00\\ud83d\\ude00"`, false)
	demoValid(t, `{"minLength":5}`, `"\\ud83d\\ude00\\ud83d\\ude00\\ud83d\\ude00\\ud83d\\ude00"`, false)
}
'''
bug('C02-pattern-trim', 'C02', 'a pattern with an anchor and a string with leading or trailing white space',
 'pattern is matched against the trimmed string',
 [('validation.go', '''		if !currentSubSchema.pattern.MatchString(stringValue) {
''', '''		if !currentSubSchema.pattern.MatchString(strings.TrimRight(stringValue, "\\n")) {
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"pattern":"^a$"}`, `"a\\n"`, false)
}
''')
bug('C03-enum-object-order', 'C03', 'an enum or const with a nested object or array below the top level',
 'placeholder', [], '')
BUGS.pop()
bug('C03-unique-null', 'C03', 'uniqueItems and an array with two nulls',
 'duplicate nulls are not noticed',
 [('validation.go', '''		for j, v := range value {
			vString, err := marshalWithoutNumber(v)
''', '''		for j, v := range value {
			if v == nil {
				continue
			}
			vString, err := marshalWithoutNumber(v)
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"uniqueItems":true}`, `[null,1,null]`, false)
}
''')
bug('C03-unique-adjacent', 'C03', 'three or more items of which two equal ones are followed by something; or the large array path above 16 elements',
 'arrays of more than 16 elements only compare scalars',
 [('validation.go', '''			vString, err := marshalWithoutNumber(v)
			if err != nil {
				result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
				continue
			}
''', '''			if nbValues > 16 && isKind(v, reflect.Map) && len(v.(map[string]interface{})) == 0 {
				continue
			}
			vString, err := marshalWithoutNumber(v)
			if err != nil {
				result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
				continue
			}
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"uniqueItems":true}`, `[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,{},{}]`, false)
}
''')
bug('C03-const-null', 'C03', 'const null in a schema with a sibling enum that lists null',
 'const null next to an enum is ignored',
 [('schema.go', '''		currentSchema._const = is
''', '''		if m[KEY_CONST] != nil || !existsMapKey(m, KEY_ENUM) {
			currentSchema._const = is
		}
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"const":null,"enum":[null,1]}`, `1`, false)
}
''')
bug('C04-additional-items-max', 'C04', 'list-form items, an additionalItems schema, minItems, and more extra elements than minItems',
 'additionalItems is applied only to the first minItems elements beyond the list',
 [('validation.go', '''					for i := nbItems; i != nbValues; i++ {
''', '''					for i := nbItems; i < nbValues && (currentSubSchema.minItems == nil || i < nbItems+*currentSubSchema.minItems); i++ {
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"items":[{}],"additionalItems":{"type":"string"},"minItems":1}`, `[1,"a",2]`, false)
}
''')
bug('C04-contains-list', 'C04', 'contains next to list-form items, with the only match among the positional elements',
 'contains skips the elements described by list-form items',
 [('validation.go', '''		for i, v := range value {
			subContext := NewJsonContext(strconv.Itoa(i), context)

			validationResult := currentSubSchema.contains.subValidateWithContext(v, subContext)
''', '''		for i, v := range value {
			if !currentSubSchema.itemsChildrenIsSingleSchema && i < len(currentSubSchema.itemsChildren) {
				continue
			}
			subContext := NewJsonContext(strconv.Itoa(i), context)

			validationResult := currentSubSchema.contains.subValidateWithContext(v, subContext)
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"items":[{}],"contains":{"const":1}}`, `[1,2]`, true)
}
''')
bug('C05-dependency-null', 'C05', 'a dependency list with more than one name, of which one is present',
 'the names of a list dependency are alternatives when the trigger is null',
 [('validation.go', '''			for elementKey := range currentNode.(map[string]interface{}) {
				if dependency, ok := currentSubSchema.dependencies[elementKey]; ok {
''', '''			for elementKey, elementValue := range currentNode.(map[string]interface{}) {
				if dependency, ok := currentSubSchema.dependencies[elementKey]; ok && elementValue != nil {
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"dependencies":{"a":["b"]}}`, `{"a":null}`, false)
}
''')
bug('C05-pattern-additional', 'C05', 'a member with the empty name, patternProperties with a pattern matching the empty string, and additionalProperties',
 'a member whose name is the empty string counts as additional although a pattern matches it',
 [('validation.go', '''		if matches, _ := regexp.MatchString(pk, key); matches {
			validated = true
''', '''		if matches, _ := regexp.MatchString(pk, key); matches && len(key) > 0 {
			validated = true
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"patternProperties":{"^$":{"type":"integer"}}}`, `{"":"x"}`, false)
}
''')
bug('C05-propertynames-declared', 'C05', 'propertyNames that rejects a name which is also declared in properties',
 'names declared in properties are exempt from propertyNames',
 [('validation.go', '''		for pk := range value {
			validationResult := currentSubSchema.propertyNames.subValidateWithContext(pk, context)
			if !validationResult.Valid() {
''', '''		declared := make(map[string]bool)
		for _, pSchema := range currentSubSchema.propertiesChildren {
			declared[pSchema.property] = true
		}
		for pk := range value {
			validationResult := currentSubSchema.propertyNames.subValidateWithContext(pk, context)
			if !declared[pk] && !validationResult.Valid() {
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"properties":{"abc":{}},"propertyNames":{"maxLength":2}}`, `{"abc":1}`, false)
}
''')
bug('C06-oneof-same-ref', 'C06', 'oneOf with two branches that reference the same schema',
 'identical references in oneOf are counted once',
 [('validation.go', '''		for _, oneOfSchema := range currentSubSchema.oneOf {
			validationResult := oneOfSchema.subValidateWithContext(currentNode, context)
''', '''		seen := make(map[*subSchema]bool)
		for _, oneOfSchema := range currentSubSchema.oneOf {
			if oneOfSchema.refSchema != nil {
				if seen[oneOfSchema.refSchema] {
					continue
				}
				seen[oneOfSchema.refSchema] = true
			}
			validationResult := oneOfSchema.subValidateWithContext(currentNode, context)
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"definitions":{"s":{"type":"string"}},"oneOf":[{"$ref":"#/definitions/s"},{"$ref":"#/definitions/s"}]}`, `"x"`, false)
}
''')
bug('C06-if-score', 'C06', 'an if schema that fails inside an applicator while the value is otherwise of a matching type',
 'a failing else branch is ignored when then is absent and the instance is null',
 [('validation.go', '''		if currentSubSchema._else != nil && !validationResultIf.Valid() {
''', '''		if currentSubSchema._else != nil && !validationResultIf.Valid() && (currentSubSchema._then != nil || currentNode != nil) {
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"if":{"type":"string"},"else":{"type":"number"}}`, `null`, false)
}
''')
bug('C07-null-common', 'C07', 'a null instance at a location whose schema has no type but const, enum or format',
 'null is exempt from enum when the schema is typed with null',
 [('validation.go', '''		currentSubSchema.validateSchema(currentSubSchema, currentNode, result, context)
		v.validateCommon(currentSubSchema, currentNode, result, context)

	} else { // Not a null value
''', '''		currentSubSchema.validateSchema(currentSubSchema, currentNode, result, context)
		// an explicitly allowed null needs no further checks
		if !currentSubSchema.types.Contains(TYPE_NULL) {
			v.validateCommon(currentSubSchema, currentNode, result, context)
		}

	} else { // Not a null value
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"type":["null","string"],"enum":["a"]}`, `null`, false)
}
''')
bug('C07-then-without-if', 'C07', 'a then keyword in an allOf branch of a schema ... without if',
 'then without if is applied to objects',
 [('schema.go', '''				currentSchema._then = newSchema
''', '''				currentSchema._then = newSchema
				if currentSchema._if == nil && existsMapKey(m, KEY_ELSE) {
					pass := true
					currentSchema._if = &subSchema{property: KEY_IF, parent: currentSchema, pass: &pass}
				}
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"then":{"type":"string"},"else":{"type":"number"}}`, `1`, true)
}
''')
bug('C08-refpool-case', 'C08', 'two references whose URIs differ only in the case of the fragment',
 'the second of two references that differ by case resolves to the first',
 [('schemaReferencePool.go', '''	if sch, ok := p.documents[ref]; ok {
''', '''	ref = strings.ToLower(ref)
	if sch, ok := p.documents[ref]; ok {
'''), ('schemaReferencePool.go', '''	if _, ok := p.documents[ref]; !ok {
		p.documents[ref] = sch
''', '''	ref = strings.ToLower(ref)
	if _, ok := p.documents[ref]; !ok {
		p.documents[ref] = sch
'''), ('schemaReferencePool.go', '''	"fmt"
''', '''	"fmt"
	"strings"
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"definitions":{"a":{"type":"string"},"A":{"type":"number"}},"items":[{"$ref":"#/definitions/a"},{"$ref":"#/definitions/A"}]}`, `["x",1]`, true)
}
''')
bug('C08-nested-base', 'C08', 'a relative reference below a subschema with its own relative $id that is itself inside an array keyword',
 'the base URI of a subschema inside a list is not applied to its inner references',
 [('schemaPool.go', '''		for _, v := range m {
			p.parseReferencesRecursive(v, ref, draft)
		}
	case map[string]interface{}:
''', '''		for i := len(m) - 1; i > 0; i-- {
			p.parseReferencesRecursive(m[i], ref, draft)
		}
		if len(m) > 0 && !isKind(m[0], reflect.Slice) {
			p.parseReferencesRecursive(m[0], ref, draft)
		}
	case map[string]interface{}:
''')], '''
func TestDemo(t *testing.T) {
	// a list inside an unknown keyword is reachable by a JSON pointer
	demoCompiles(t, `{"$id":"http://a.invalid/root.json","x":[[{"$id":"b/","properties":{"p":{"$ref":"#/definitions/d"}},"definitions":{"d":{"type":"string"}}}]],"items":{"$ref":"#/x/0/0"}}`, true)
	demoValid(t, `{"$id":"http://a.invalid/root.json","definitions":{"d":{"type":"number"}},"x":[[{"$id":"b/","properties":{"p":{"$ref":"#/definitions/d"}},"definitions":{"d":{"type":"string"}}}]],"items":{"$ref":"#/x/0/0"}}`, `[{"p":"s"}]`, true)
}
''')
bug('C08-pattern-props', 'C08', 'a pattern property whose pattern is the word enum or const and whose schema holds a relative reference under a nested base URI',
 'references below a patternProperties entry named like a keyword are not resolved',
 [('schemaPool.go', '''			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES || k == KEY_DEFINITIONS {
''', '''			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_DEFINITIONS {
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"$id":"http://a.invalid/root.json","definitions":{"d":{"type":"string"}},"patternProperties":{"enum":{"$ref":"root.json#/definitions/d"}}}`, `{"enum":1}`, false)
}
''')
bug('C09-fragment-draft', 'C09', 'a reference with a fragment into an added document that declares another draft than the root',
 'a document entered through a fragment is read in the draft of the referring schema',
 [('schemaPool.go', '''		spd = &schemaPoolDocument{Document: document, Draft: cachedSpd.Draft}
''', '''		spd = &schemaPoolDocument{Document: document}
''')], '''
func TestDemo(t *testing.T) {
	sl := NewSchemaLoader()
	if err := sl.AddSchema("http://a.invalid/d4", NewStringLoader(`{"$schema":"http://json-schema.org/draft-04/schema#","definitions":{"x":{"const":1}}}`)); err != nil {
		t.Fatal(err)
	}
	s, err := sl.Compile(NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#","$ref":"http://a.invalid/d4#/definitions/x"}`))
	if err != nil {
		t.Fatal(err)
	}
	r, err := s.Validate(NewStringLoader(`2`))
	if err != nil || !r.Valid() {
		t.Error("const applied in draft 4", err, r.Errors())
	}
}
''')
bug('C09-if-draft6', 'C09', 'a draft-06 schema with if/then/else', 'if/then/else are active in draft-06',
 [('schema.go', '''	if *currentSchema.draft >= Draft7 {
		if existsMapKey(m, KEY_IF) {
''', '''	if *currentSchema.draft >= Draft6 {
		if existsMapKey(m, KEY_IF) {
''')], '''
func TestDemo(t *testing.T) {
	demoValid(t, `{"$schema":"http://json-schema.org/draft-06/schema#","if":true,"then":false}`, `2`, true)
}
''')
bug('C10-exclusive-false', 'C10', 'a draft-04 schema with exclusiveMaximum false and no maximum',
 'exclusiveMaximum:false without maximum compiles',
 [('schema.go', '''			if currentSchema.maximum == nil {
				return errors.New(formatErrorDescription(
					Locale.CannotBeUsedWithout(),
					ErrorDetails{"x": KEY_EXCLUSIVE_MAXIMUM, "y": KEY_MAXIMUM},
				))
			}
			if m[KEY_EXCLUSIVE_MAXIMUM].(bool) {
''', '''			if currentSchema.maximum == nil && m[KEY_EXCLUSIVE_MAXIMUM].(bool) {
				return errors.New(formatErrorDescription(
					Locale.CannotBeUsedWithout(),
					ErrorDetails{"x": KEY_EXCLUSIVE_MAXIMUM, "y": KEY_MAXIMUM},
				))
			}
			if m[KEY_EXCLUSIVE_MAXIMUM].(bool) {
''')], '''
func TestDemo(t *testing.T) {
	demoCompiles(t, `{"$schema":"http://json-schema.org/draft-04/schema#","exclusiveMaximum":false}`, false)
}
''')
bug('C10-definitions-nested', 'C10', 'a malformed definition in a nested schema that nothing refers to',
 'only the definitions of the root schema are checked',
 [('schema.go', '''				if isKind(dv, reflect.Map, reflect.Bool) {

''', '''				if isKind(dv, reflect.Map, reflect.Bool) {

					// nested definitions are parsed when they are referenced
					if currentSchema != d.rootSchema {
						continue
					}

''')], '''
func TestDemo(t *testing.T) {
	demoCompiles(t, `{"properties":{"a":{"definitions":{"x":{"type":"nope"}}}}}`, false)
}
''')
bug('C10-dependency-empty', 'C10', 'a malformed additionalItems beside items in the schema form',
 'a malformed additionalItems is not noticed unless items is a list',
 [('schema.go', '''	if existsMapKey(m, KEY_ADDITIONAL_ITEMS) {
''', '''	// only used together with a list of items
	if existsMapKey(m, KEY_ADDITIONAL_ITEMS) && !currentSchema.itemsChildrenIsSingleSchema {
''')], '''
func TestDemo(t *testing.T) {
	demoCompiles(t, `{"items":{},"additionalItems":{"minimum":"x"}}`, false)
}
''')
bug('C11-addschemas-first', 'C11', 'AddSchemas with Validate set, several schemas of which a later one violates its meta-schema',
 'only the first schema of AddSchemas is validated',
 [('schemaLoader.go', '''	for _, loader := range loaders {
		doc, err := loader.LoadJSON()

		if err != nil {
			return err
		}

		if sl.Validate {
''', '''	for i, loader := range loaders {
		doc, err := loader.LoadJSON()

		if err != nil {
			return err
		}

		if sl.Validate && i == 0 {
''')], '''
func TestDemo(t *testing.T) {
	sl := NewSchemaLoader()
	sl.Validate = true
	err := sl.AddSchemas(NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#","$id":"http://a.invalid/1"}`),
		NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#","$id":"http://a.invalid/2","minLength":-1}`))
	if err == nil {
		t.Error("invalid schema added")
	}
}
''')
bug('C11-validate-lost', 'C11', 'a failing compilation of a meta-schema (unknown $schema) followed by another call on the same loader',
 'Validate stays off after the meta-schema could not be loaded',
 [('schemaLoader.go', '''	sl.pool.jsonLoaderFactory = jsonLoaderFactory
	sl.Validate = true

	if err != nil {
		return err
	}
''', '''	sl.pool.jsonLoaderFactory = jsonLoaderFactory

	if err != nil {
		return err
	}

	sl.Validate = true
''')], '''
func TestDemo(t *testing.T) {
	sl := NewSchemaLoader()
	sl.Validate = true
	if err := sl.AddSchema("http://a.invalid/1", NewStringLoader(`{"$schema":"file:///nonexistent/schema.json"}`)); err == nil {
		t.Error("unknown meta-schema accepted")
	}
	if err := sl.AddSchema("http://a.invalid/2", NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#","minLength":-1}`)); err == nil {
		t.Error("invalid schema added")
	}
}
''')
bug('C12-overwrite', 'C12', 'AddSchema twice under one URL', 'the second document replaces the first',
 [('schemaPool.go', '''	// Only the root document should be added to the schema pool if pooled is true
	if _, ok := p.schemaPoolDocuments[reference]; pooled && ok {
		return fmt.Errorf("Reference already exists: \\"%s\\"", reference)
	}
''', '''	// Only the root document should be added to the schema pool if pooled is true
	if _, ok := p.schemaPoolDocuments[reference]; pooled && ok {
		err = fmt.Errorf("Reference already exists: \\"%s\\"", reference)
	}
'''), ('schemaPool.go', '''	if *p.autoDetect {
		_, draft, err = parseSchemaURL(document)
		if err != nil {
			return err
		}
	}

	err = p.parseReferencesRecursive(document, ref, draft)
''', '''	if *p.autoDetect {
		_, d, err := parseSchemaURL(document)
		if err != nil {
			return err
		}
		draft = d
	}

	if recursiveErr := p.parseReferencesRecursive(document, ref, draft); err == nil {
		err = recursiveErr
	}
''')], '''
func TestDemo(t *testing.T) {
	sl := NewSchemaLoader()
	if err := sl.AddSchema("http://a.invalid/1", NewStringLoader(`{"type":"string"}`)); err != nil {
		t.Fatal(err)
	}
	if err := sl.AddSchema("http://a.invalid/1", NewStringLoader(`{"type":"number"}`)); err == nil {
		t.Error("no error")
	}
	s, err := sl.Compile(NewReferenceLoader("http://a.invalid/1"))
	if err != nil {
		t.Fatal(err)
	}
	if r, _ := s.Validate(NewStringLoader(`1`)); r.Valid() {
		t.Error("replaced")
	}
}
''')
bug('C12-refetch', 'C12', 'two references with different fragments into the same fetched document',
 'a fetched document whose first reference has a fragment is fetched again for every other fragment',
 [('schemaPool.go', '''	// add the whole document to the pool for potential re-use
	p.parseReferences(document, refToURL, true)
''', '''	// add the whole document to the pool for potential re-use
	p.parseReferences(document, refToURL, true)
	if reference.GetUrl().Fragment != "" {
		delete(p.schemaPoolDocuments, refToURL.String())
	}
''')], '''
type demoFS struct{ n int }

func (f *demoFS) Open(string) (http.File, error) {
	f.n++
	p := os.TempDir() + "/demo.json"
	if err := ioutil.WriteFile(p, []byte(`{"definitions":{"a":{"type":"string"},"b":{"type":"number"}}}`), 0600); err != nil {
		return nil, err
	}
	return os.Open(p)
}

func TestDemo(t *testing.T) {
	fs := &demoFS{}
	sl := NewSchemaLoader()
	if err := sl.AddSchema("file:///x/root.json", NewStringLoader(`{"items":[{"$ref":"file:///x/y.json#/definitions/a"},{"$ref":"file:///x/y.json#/definitions/b"}]}`)); err != nil {
		t.Fatal(err)
	}
	if _, err := sl.Compile(NewReferenceLoaderFileSystem("file:///x/root.json", fs)); err != nil {
		t.Fatal(err)
	}
	if fs.n != 1 {
		t.Errorf("fetched %d times", fs.n)
	}
}
''', imports=['io/ioutil', 'net/http', 'os'])
bug('C13-close-success', 'C13', 'a read error after a successful open', 'a file whose reading fails stays open',
 [('jsonLoader.go', '''	defer f.Close()

	bodyBuff, err := ioutil.ReadAll(f)
	if err != nil {
		return nil, err
	}

	return decodeJSONUsingNumber(bytes.NewReader(bodyBuff))

}
''', '''
	bodyBuff, err := ioutil.ReadAll(f)
	if err != nil {
		return nil, err
	}
	f.Close()

	return decodeJSONUsingNumber(bytes.NewReader(bodyBuff))

}
''')], '''
type demoFile struct {
	http.File
	closed *bool
}

func (f demoFile) Read([]byte) (int, error) { return 0, errors.New("broken") }
func (f demoFile) Close() error             { *f.closed = true; return nil }

type demoFS struct{ closed bool }

func (f *demoFS) Open(string) (http.File, error) { return demoFile{closed: &f.closed}, nil }

func TestDemo(t *testing.T) {
	fs := &demoFS{}
	if _, err := NewSchema(NewReferenceLoaderFileSystem("file:///x/root.json", fs)); err == nil {
		t.Error("no error")
	}
	if !fs.closed {
		t.Error("not closed")
	}
}
''', imports=['errors', 'net/http'])
bug('C13-http-2xx', 'C13', 'a server that answers with another success status than 200, such as 203 or 206',
 'partial content is accepted as the document',
 [('jsonLoader.go', '''	if resp.StatusCode != http.StatusOK {
''', '''	if resp.StatusCode < 200 || resp.StatusCode > 299 {
''')], '''
func TestDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(http.StatusPartialContent)
		w.Write([]byte(`{}`))
	}))
	defer srv.Close()
	if _, err := NewSchema(NewReferenceLoader(srv.URL + "/x")); err == nil {
		t.Error("206 accepted")
	}
}
''', imports=['net/http', 'net/http/httptest'])
bug('C13-negative-cache', 'C13', 'a reference into a document that cannot be loaded the first time and can the second time, same loader',
 'a failed load is remembered',
 [('schemaPool.go', '''	document, err := jsonReferenceLoader.LoadJSON()

	if err != nil {
		return nil, err
	}

	// add the whole''', '''	document, err := jsonReferenceLoader.LoadJSON()

	if err != nil {
		// do not try again for the other references
		p.schemaPoolDocuments[refToURL.String()] = &schemaPoolDocument{}
		return nil, err
	}

	// add the whole''')], '''
type demoFS struct{ n int }

func (f *demoFS) Open(string) (http.File, error) {
	f.n++
	if f.n == 1 {
		return nil, errors.New("temporary")
	}
	p := os.TempDir() + "/demo.json"
	if err := ioutil.WriteFile(p, []byte(`{"type":"string"}`), 0600); err != nil {
		return nil, err
	}
	return os.Open(p)
}

func TestDemo(t *testing.T) {
	fs := &demoFS{}
	sl := NewSchemaLoader()
	if _, err := sl.Compile(NewReferenceLoaderFileSystem("file:///x/y.json", fs)); err == nil {
		t.Error("no error")
	}
	if _, err := sl.Compile(NewReferenceLoaderFileSystem("file:///x/y.json", fs)); err != nil {
		t.Error(err)
	}
}
''', imports=['errors', 'net/http', 'os', 'io/ioutil'])
bug('C14-goloader-map', 'C14', 'a Go map with Go numbers or structs inside', 'a decoded-looking map is used as it is',
 [('jsonLoader.go', '''	jsonBytes, err := json.Marshal(l.JsonSource())
''', '''	if m, ok := l.JsonSource().(map[string]interface{}); ok {
		simple := true
		for _, v := range m {
			switch v.(type) {
			case string, bool, nil, map[string]interface{}:
			default:
				simple = false
			}
		}
		if simple {
			return m, nil
		}
	}

	jsonBytes, err := json.Marshal(l.JsonSource())
''')], '''
func TestDemo(t *testing.T) {
	s, err := NewSchema(NewStringLoader(`{"properties":{"a":{"properties":{"b":{"type":"string"}}}}}`))
	if err != nil {
		t.Fatal(err)
	}
	r, err := s.Validate(NewGoLoader(map[string]interface{}{"a": map[string]interface{}{"b": 1}}))
	if err != nil || r.Valid() {
		t.Error("number accepted as string")
	}
}
''')
bug('C14-file-bom', 'C14', 'a file with a byte order mark', 'files may start with garbage up to the first brace',
 [('jsonLoader.go', '''	return decodeJSONUsingNumber(bytes.NewReader(bodyBuff))

}
''', '''	return decodeJSONUsingNumber(bytes.NewReader(bytes.TrimPrefix(bodyBuff, []byte("\\xef\\xbb\\xbf"))))

}
''')], '''
func TestDemo(t *testing.T) {
	p := os.TempDir() + "/demo.json"
	if err := ioutil.WriteFile(p, []byte("\\xef\\xbb\\xbf{}"), 0600); err != nil {
		t.Fatal(err)
	}
	if _, err := NewReferenceLoader("file://" + p).LoadJSON(); err == nil {
		t.Error("text that is no JSON was accepted")
	}
}
''', imports=['os', 'io/ioutil'])
bug('C15-dependency-first', 'C15', 'a list dependency of which two names are missing',
 'only the first missing dependency is reported',
 [('validation.go', '''									ErrorDetails{"dependency": dependOnKey},
								)
''', '''									ErrorDetails{"dependency": dependOnKey},
								)
								break
''')], '''
func TestDemo(t *testing.T) {
	if n := len(demoErrors(t, `{"dependencies":{"a":["b","c"]}}`, `{"a":1}`)); n != 2 {
		t.Errorf("%d errors", n)
	}
}
''')
bug('C15-field-replace', 'C15', 'a member whose name contains or equals "(root)"',
 'Field drops a member named like the root',
 [('result.go', '''	return strings.TrimPrefix(v.context.String(), STRING_ROOT_SCHEMA_PROPERTY+".")
''', '''	return strings.Replace(v.context.String(), STRING_ROOT_SCHEMA_PROPERTY+".", "", -1)
''')], '''
func TestDemo(t *testing.T) {
	e := demoErrors(t, `{"additionalProperties":{"additionalProperties":{"type":"string"}}}`, `{"(root)":{"a":1}}`)
	if len(e) != 1 || e[0].Field() != "(root).a" {
		t.Errorf("%v", e[0].Field())
	}
}
''')
bug('C15-unique-positions', 'C15', 'three equal elements in a uniqueItems array',
 'the positions of the third duplicate are reported relative to the first and one of the errors is lost',
 [('validation.go', '''					ErrorDetails{"type": TYPE_ARRAY, "i": i, "j": j},
				)
			}
''', '''					ErrorDetails{"type": TYPE_ARRAY, "i": i, "j": j},
				)
				break
			}
''')], '''
func TestDemo(t *testing.T) {
	if n := len(demoErrors(t, `{"uniqueItems":true}`, `[1,1,2,2]`)); n != 2 {
		t.Errorf("%d errors", n)
	}
}
''')
bug('C16-tie', 'C16', 'an anyOf whose branches fail with the same score', 'the last instead of the first of equally close branches explains the failure',
 [('validation.go', '''				if !validatedAnyOf && (bestValidationResult == nil || validationResult.score > bestValidationResult.score) {
''', '''				if !validatedAnyOf && (bestValidationResult == nil || validationResult.score >= bestValidationResult.score) {
''')], '''
func TestDemo(t *testing.T) {
	e := demoErrors(t, `{"anyOf":[{"type":"string"},{"type":"boolean"}]}`, `1`)
	if len(e) != 2 || e[1].Details()["expected"] != "string" {
		t.Errorf("%v", e)
	}
}
''')
bug('C16-merge-score', 'C16', 'nested anyOf whose closest branch is decided by errors of members or elements',
 'the score of merged results is dropped, so the closest branch is misjudged',
 [('result.go', '''	v.errors = append(v.errors, otherResult.Errors()...)
	v.score += otherResult.score
''', '''	v.errors = append(v.errors, otherResult.Errors()...)
	if otherResult.score > 0 {
		v.score += otherResult.score
	}
''')], '''
func TestDemo(t *testing.T) {
	// three elements of the wrong type are further off than four missing members
	e := demoErrors(t, `{"anyOf":[{"allOf":[{"type":"array"},{"type":"array"},{"type":"array"},{"type":"array"}]},{"minProperties":3,"required":["b"]}]}`, `{"a":1}`)
	if len(e) != 3 || e[1].Type() != "array_min_properties" {
		t.Errorf("%v", e)
	}
}
''')
bug('C17-adderror-keep', 'C17', 'an error that already has a description is added to a result',
 'AddError keeps a stale description',
 [('result.go', '''	err.SetDescription(formatErrorDescription(err.DescriptionFormat(), details))

	v.errors''', '''	if err.Description() == "" {
		err.SetDescription(formatErrorDescription(err.DescriptionFormat(), details))
	}

	v.errors''')], '''
func TestDemo(t *testing.T) {
	e := &InvalidTypeError{}
	e.SetContext(NewJsonContext("(root)", nil))
	e.SetDescription("old")
	e.SetDescriptionFormat("new {{.x}}")
	r := &Result{}
	r.AddError(e, ErrorDetails{"x": 1})
	if e.Description() != "new 1" {
		t.Error(e.Description())
	}
}
''')
bug('C17-template-key', 'C17', 'two description formats that agree in their first 64 characters',
 'templates are cached under a truncated key',
 [('errors.go', '''	errorTemplates.RLock()
	tpl = errorTemplates.Lookup(s)
	errorTemplates.RUnlock()

	if tpl == nil {
		errorTemplates.Lock()
		tpl = errorTemplates.New(s)
''', '''	name := s
	if len(name) > 64 {
		name = name[:64]
	}

	errorTemplates.RLock()
	tpl = errorTemplates.Lookup(name)
	errorTemplates.RUnlock()

	if tpl == nil {
		errorTemplates.Lock()
		tpl = errorTemplates.New(name)
''')], '''
func TestDemo(t *testing.T) {
	p := "0123456789012345678901234567890123456789012345678901234567890123456789"
	for _, s := range []string{"a", "b"} {
		e := &InvalidTypeError{}
		e.SetContext(NewJsonContext("(root)", nil))
		e.SetDescriptionFormat(p + s)
		(&Result{}).AddError(e, nil)
		if e.Description() != p+s {
			t.Error(e.Description())
		}
	}
}
''')
bug('C18-hostname-len', 'C18', 'a hostname of exactly 256 characters', 'hostnames of 256 characters are accepted',
 [('format_checkers.go', '''	return rxHostname.MatchString(asString) && len(asString) < 256
''', '''	return rxHostname.MatchString(asString) && len(asString) <= 256
''')], '''
func TestDemo(t *testing.T) {
	l := strings.Repeat("a", 63) + "."
	if (HostnameFormatChecker{}).IsFormat(l + l + l + l[:63] + "b") || (HostnameFormatChecker{}).IsFormat(l + l + l + l[:62] + ".b") {
		t.Error("accepted")
	}
}
''', imports=['strings'])
bug('C18-relpointer', 'C18', 'a relative JSON pointer with leading zeros', 'relative-json-pointer accepts leading zeros',
 [('format_checkers.go', '''"^(?:0|[1-9][0-9]*)(?:#|''', '''"^(?:[0-9]|[0-9][0-9]*)(?:#|''')], '''
func TestDemo(t *testing.T) {
	if (RelativeJSONPointerFormatChecker{}).IsFormat("01/a") {
		t.Error("accepted")
	}
}
''')
bug('C18-ipv6-zone', 'C18', 'an IPv6 address with embedded IPv4', 'ipv6 with an embedded ipv4 tail is refused',
 [('format_checkers.go', '''	return ip != nil && strings.Contains(asString, ":")
''', '''	return ip != nil && ip.To4() == nil
''')], '''
func TestDemo(t *testing.T) {
	if !(IPV6FormatChecker{}).IsFormat("::ffff:1.2.3.4") {
		t.Error("refused")
	}
}
''')
bug('C19-reentrant', 'C19', 'a custom checker that itself adds or removes a checker', 'a check holds the lock while the checker runs: deadlock',
 [('format_checkers.go', '''	lock.RLock()
	f, ok := c.formatters[name]
	lock.RUnlock()

	// If''', '''	lock.RLock()
	defer lock.RUnlock()
	f, ok := c.formatters[name]

	// If''')], '''
type demoChecker struct{}

func (demoChecker) IsFormat(interface{}) bool {
	FormatCheckers.Add("demo2", demoChecker{})
	return true
}

func TestDemo(t *testing.T) {
	FormatCheckers.Add("demo", demoChecker{})
	done := make(chan bool)
	go func() {
		FormatCheckers.IsFormat("demo", "x")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Error("deadlock")
	}
}
''', imports=['time'])
bug('C19-has-unlocked', 'C19', 'Has concurrent with Add', 'Has reads the map without the lock',
 [('format_checkers.go', '''	lock.RLock()
	_, ok := c.formatters[name]
	lock.RUnlock()

	return ok
''', '''	_, ok := c.formatters[name]

	return ok
''')], '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				FormatCheckers.Add("demo", UUIDFormatChecker{})
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				FormatCheckers.Has("demo")
			}
		}()
	}
	wg.Wait()
}
''', race=True, imports=['sync'])
bug('C19-cached-checker', 'C19', 'a checker that is replaced after a schema using its format was compiled and used',
 'a schema keeps using the checker it first found',
 [('validation.go', '''		if !FormatCheckers.IsFormat(currentSubSchema.format, value) {
''', '''		if isKind(value, reflect.String) && value.(string) == "" && currentSubSchema.format != "regex" && !FormatCheckers.Has(currentSubSchema.format+"-strict") && FormatCheckers.Has(currentSubSchema.format) {
			// nothing to check in an empty string
			if _, builtin := FormatCheckers.formatters[currentSubSchema.format].(interface{ builtin() }); !builtin && FormatCheckers.IsFormat(currentSubSchema.format, " ") {
				result.incrementScore()
				return
			}
		}
		if !FormatCheckers.IsFormat(currentSubSchema.format, value) {
''')], '''
func TestDemo(t *testing.T) {
}
''')
BUGS.pop()
bug('C20-regexp-cache', 'C20', 'two goroutines that validate against schemas with patternProperties for the first time',
 'compiled patterns are cached in a package-level map without synchronisation',
 [('validation.go', '''		if matches, _ := regexp.MatchString(pk, key); matches {
''', '''		rx, ok := patternCache[pk]
		if !ok {
			rx = regexp.MustCompile(pk)
			patternCache[pk] = rx
		}
		if rx.MatchString(key) {
'''), ('validation.go', '''func (v *subSchema) validatePatternProperty(''', '''var patternCache = make(map[string]*regexp.Regexp)

func (v *subSchema) validatePatternProperty(''')], '''
func TestDemo(t *testing.T) {
	s, err := NewSchema(NewStringLoader(`{"patternProperties":{"^a":{"type":"integer"}}}`))
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				s.Validate(NewStringLoader(`{"a":1}`))
			}
		}()
	}
	wg.Wait()
}
''', race=True, imports=['sync'])
bug('C20-shared-buffer', 'C20', 'two goroutines that render errors at the same time',
 'descriptions are rendered into one shared buffer under a read lock only',
 [('errors.go', '''	var tpl *template.Template
	var descrAsBuffer bytes.Buffer
	var err error
''', '''	var tpl *template.Template
	var err error
'''), ('errors.go', '''	err = tpl.Execute(&descrAsBuffer, details)
	if err != nil {
''', '''	errorTemplates.RLock()
	defer errorTemplates.RUnlock()
	descrAsBuffer.Reset()
	err = tpl.Execute(&descrAsBuffer, details)
	if err != nil {
'''), ('errors.go', '''// formatErrorDescription takes''', '''var descrAsBuffer bytes.Buffer

// formatErrorDescription takes''')], '''
func TestDemo(t *testing.T) {
	s, err := NewSchema(NewStringLoader(`{"type":"integer"}`))
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 100; k++ {
				s.Validate(NewStringLoader(`"x"`))
			}
		}(i)
	}
	wg.Wait()
}
''', race=True, imports=['sync'])
bug('C21-multiple-negate', 'C21', 'a multipleOf failure on a negative number', 'the details of a multipleOf error alias and modify the compiled schema',
 [('validation.go', '''	if currentSubSchema.maximum != nil {
		if float64Value.Cmp(currentSubSchema.maximum) == 1 {
''', '''	if currentSubSchema.maximum != nil {
		if max := currentSubSchema.maximum; max.Sign() < 0 && float64Value.Sign() < 0 {
			if max.Neg(max); max.Cmp(float64Value.Neg(float64Value)) == 1 {
				result.addInternalError(
					new(NumberLTEError),
					context,
					number,
					ErrorDetails{
						"max": new(big.Float).Neg(new(big.Float).SetRat(max)),
					},
				)
			} else {
				max.Neg(max)
			}
			float64Value.Neg(float64Value)
		} else if float64Value.Cmp(currentSubSchema.maximum) == 1 {
''')], '''
func TestDemo(t *testing.T) {
	s, err := NewSchema(NewStringLoader(`{"maximum":-5}`))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		r, _ := s.Validate(NewStringLoader(`-3`))
		if r.Valid() {
			t.Error("accepted in round", i)
		}
	}
}
''')
bug('C21-required-shrink', 'C21', 'a document that satisfies required, validated before one that does not',
 'required names are reordered and lost in the compiled schema when one is missing',
 [('validation.go', '''	for _, requiredProperty := range currentSubSchema.required {
		_, ok := value[requiredProperty]
		if ok {
''', '''	missing := currentSubSchema.required[:0]
	for i, requiredProperty := range currentSubSchema.required {
		_, ok := value[requiredProperty]
		if !ok && i > 0 && len(missing) < i {
			missing = append(missing, requiredProperty)
		}
		if ok {
''')], '''
func TestDemo(t *testing.T) {
	s, err := NewSchema(NewStringLoader(`{"required":["a","b"]}`))
	if err != nil {
		t.Fatal(err)
	}
	s.Validate(NewStringLoader(`{"a":1}`))
	if r, _ := s.Validate(NewStringLoader(`{"b":1}`)); r.Valid() {
		t.Error("accepted")
	}
}
''')
bug('C22-dependency-list', 'C22', 'a schema whose dependency list contains something else than strings at a later position',
 'compiling panics',
 [('schema.go', '''				if !isKind(value, reflect.String) {
					return errors.New(formatErrorDescription(
						Locale.MustBeOfType(),
						ErrorDetails{
							"key":  STRING_DEPENDENCY,
''', '''				if len(valuesToRegister) == 0 && !isKind(value, reflect.String) {
					return errors.New(formatErrorDescription(
						Locale.MustBeOfType(),
						ErrorDetails{
							"key":  STRING_DEPENDENCY,
''')], '''
func TestDemo(t *testing.T) {
	demoCompiles(t, `{"dependencies":{"a":["b",1]}}`, false)
}
''')
bug('C22-not-kind', 'C22', 'a schema whose not keyword has an array value in a pre-draft-06 schema',
 'placeholder', [], '')
BUGS.pop()
bug('C22-oneof-empty-best', 'C22', 'a schema whose $ref is a number, boolean or list',
 'a $ref that is neither string nor object makes compiling panic',
 [('schemaPool.go', '''		if existsMapKey(m, KEY_REF) && isKind(m[KEY_REF], reflect.String) {
''', '''		if existsMapKey(m, KEY_REF) && m[KEY_REF] != nil && !isKind(m[KEY_REF], reflect.Map) {
''')], '''
func TestDemo(t *testing.T) {
	demoCompiles(t, `{"properties":{"$ref":{}},"items":{"$ref":1}}`, false)
}
''')
