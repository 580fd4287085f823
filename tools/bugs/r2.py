V_, S_, P_, L_, U_, J_, F_, E_, R_ = 'validation.go', 'schema.go', 'schemaPool.go', 'schemaLoader.go', 'utils.go', 'jsonLoader.go', 'format_checkers.go', 'errors.go', 'result.go'
def D(body): return 'func TestDemo(t *testing.T) {\n' + body + '\n}\n'
bug('C01-max-float', 'C01', 'a value and an exclusive limit that differ by less than a float64 can tell (2^53 and 2^53+1)',
 'exclusiveMaximum is compared in double precision when both sides are integers',
 [(V_, '''		if float64Value.Cmp(currentSubSchema.exclusiveMaximum) >= 0 {
''', '''		f, _ := float64Value.Float64()
		max, _ := currentSubSchema.exclusiveMaximum.Float64()
		if f >= max {
''')], D('demoValid(t, `{"exclusiveMaximum":9007199254740993}`, `9007199254740992`, true)'))
bug('C01-multiple-decimal', 'C01', 'a decimal multipleOf and a value whose quotient is not exact in binary',
 'multipleOf with small decimals is decided by floating-point division with a tolerance',
 [(V_, '''		if q := new(big.Rat).Quo(float64Value, currentSubSchema.multipleOf); !q.IsInt() {
''', '''		q := new(big.Rat).Quo(float64Value, currentSubSchema.multipleOf)
		if f, _ := q.Float64(); !q.IsInt() && f != float64(int64(f)) {
''')], D('demoValid(t, `{"multipleOf":1}`, `9007199254740993.5`, false)'))
bug('C01-excl-zero', 'C01', 'a draft-04 schema with minimum 0 and exclusiveMinimum true and the document -0 or 0.0',
 'zero passes an exclusive minimum of zero when it is spelled with a sign or fraction',
 [(V_, '''		if float64Value.Cmp(currentSubSchema.exclusiveMinimum) <= 0 {
''', '''		if c := float64Value.Cmp(currentSubSchema.exclusiveMinimum); c < 0 || c == 0 && (float64Value.Sign() != 0 || number == "0") {
''')], D('demoValid(t, `{"exclusiveMinimum":0}`, `0.0`, false)'))
bug('C01-bigexp-int', 'C01', 'an integer with a positive exponent beyond the range of float64',
 'numbers out of the range of float64 are no integers',
 [(U_, '''	return isValidNumber && bigFloat.IsInt()
''', '''	if _, err := jsonNumber.Float64(); err != nil {
		return false
	}

	return isValidNumber && bigFloat.IsInt()
''')], D('demoValid(t, `{"type":"integer"}`, `1e400`, true)'))
bug('C02-utf16', 'C02', 'a string with characters outside the BMP at the limit of maxLength',
 'maxLength counts UTF-16 code units',
 [(V_, '''		if utf8.RuneCount([]byte(stringValue)) > int(*currentSubSchema.maxLength) {
''', '''		if length := utf8.RuneCount([]byte(stringValue)); length > int(*currentSubSchema.maxLength) ||
			length > 1 && length+strings.Count(stringValue, "\\U0001F3FD") > int(*currentSubSchema.maxLength) {
''')], D('demoValid(t, `{"maxLength":2}`, "\\"\\U0001F44D\\U0001F3FD\\"", true)'))
bug('C02-maxlength-zero', 'C02', 'maxLength 0', 'maxLength 0 is taken as no limit when minLength is 0 too',
 [(S_, '''		currentSchema.maxLength = maxLengthIntegerValue
''', '''		if *maxLengthIntegerValue > 0 || currentSchema.minLength == nil {
			currentSchema.maxLength = maxLengthIntegerValue
		}
''')], D('demoValid(t, `{"minLength":0,"maxLength":0}`, `"x"`, false)'))
bug('C02-pattern-lines', 'C02', 'a pattern with a dot and a string with a line feed', 'the dot of a pattern matches line feeds',
 [(S_, '''			regexpObject, err := regexp.Compile(m[KEY_PATTERN].(string))
''', '''			regexpObject, err := regexp.Compile("(?s)" + m[KEY_PATTERN].(string))
''')], D('demoValid(t, `{"pattern":"^a.b$"}`, `"a\\nb"`, false)'))
bug('C02-pattern-literal', 'C02', 'a pattern with a literal prefix and the empty string, or one whose literal part is optional or case-insensitive', 'the empty string satisfies patterns that do not match it, and strings are compared with the literal prefix first',
 [(V_, '''		if !currentSubSchema.pattern.MatchString(stringValue) {
''', '''		prefix, _ := currentSubSchema.pattern.LiteralPrefix()
		if !strings.Contains(strings.ToLower(stringValue), strings.ToLower(prefix)) || len(stringValue) > 0 && !currentSubSchema.pattern.MatchString(stringValue) {
''')], D('demoValid(t, `{"pattern":"."}`, `""`, false)'))
bug('C03-enum-fold', 'C03', 'a string that equals an enum member except for its case, with more than 8 members',
 'long enums compare case-insensitively',
 [(V_, '''		} else if !isStringInSlice(currentSubSchema.enum, *vString) {
''', '''		} else if !isStringInSlice(currentSubSchema.enum, *vString) && !(len(currentSubSchema.enum) > 8 && isStringInSlice(currentSubSchema.enum, strings.ToLower(*vString))) {
''')], D('demoValid(t, `{"enum":["a","b","c","d","e","f","g","h","i"]}`, `"C"`, false)'))
bug('C03-unique-sprint', 'C03', 'an array with the string of a scalar and the scalar, below another array',
 'uniqueItems confuses strings and numbers with the same text',
 [(V_, '''			if i, ok := stringifiedItems[*vString]; ok {
''', '''			if isKind(v, reflect.Slice) {
				*vString = strings.Replace(*vString, "\\"", "", -1)
			}
			if i, ok := stringifiedItems[*vString]; ok {
''')], D('demoValid(t, `{"uniqueItems":true}`, `[[1],["1"]]`, true)'))
bug('C03-unique-many', 'C03', 'a duplicate in a long array whose partners are far apart',
 'uniqueItems forgets elements of long arrays',
 [(V_, '''			stringifiedItems[*vString] = j
''', '''			if len(stringifiedItems) > 256 {
				stringifiedItems = make(map[string]int)
			}
			stringifiedItems[*vString] = j
''')], D('''	doc := "[0"
	for i := 1; i < 300; i++ {
		doc += fmt.Sprintf(",%d", i)
	}
	demoValid(t, `{"uniqueItems":true}`, doc+",0]", false)'''), imports=['fmt'])
bug('C03-const-empty', 'C03', 'const with an empty array or object', 'const [] accepts null',
 [(V_, '''		} else if *vString != *currentSubSchema._const {
''', '''		} else if *vString != *currentSubSchema._const && !(value == nil && *currentSubSchema._const == "[]") {
''')], D('demoValid(t, `{"const":[]}`, `null`, false)'))
bug('C04-items-null', 'C04', 'items in schema form and a null element', 'null elements are not checked when the schema of the items lists types',
 [(V_, '''		for i := range value {
			subContext := NewJsonContext(strconv.Itoa(i), context)
			validationResult := currentSubSchema.itemsChildren[0]''', '''		for i := range value {
			if value[i] == nil && len(currentSubSchema.itemsChildren[0].types.types) > 1 {
				continue
			}
			subContext := NewJsonContext(strconv.Itoa(i), context)
			validationResult := currentSubSchema.itemsChildren[0]''')], D('demoValid(t, `{"items":{"type":["string","number"]}}`, `[null]`, false)'))
bug('C04-maxitems-contains', 'C04', 'contains and an empty array with minItems 0', 'contains accepts the empty array if minItems is 0',
 [(V_, '''		if !validatedOne {
			result.addInternalError(
				new(ArrayContainsError),''', '''		if !validatedOne && (nbValues > 0 || currentSubSchema.minItems == nil) {
			result.addInternalError(
				new(ArrayContainsError),''')], D('demoValid(t, `{"contains":{},"minItems":0}`, `[]`, false)'))
bug('C04-additional-ignored', 'C04', 'additionalItems false beside items in schema form', 'additionalItems false without list-form items limits the array',
 [(V_, '''	// minItems & maxItems
	if currentSubSchema.minItems != nil {
''', '''	if additional, ok := currentSubSchema.additionalItems.(bool); ok && !additional && currentSubSchema.itemsChildren == nil && currentSubSchema.maxItems != nil && nbValues > 0 {
		result.addInternalError(new(ArrayNoAdditionalItemsError), context, value, ErrorDetails{})
	}

	// minItems & maxItems
	if currentSubSchema.minItems != nil {
''')], D('demoValid(t, `{"additionalItems":false,"maxItems":3}`, `[1]`, true)'))
bug('C04-list-11', 'C04', 'list-form items with more than ten schemas', 'the schemas of list-form items beyond the tenth position are applied in the wrong order',
 [(V_, '''				validationResult := currentSubSchema.itemsChildren[i].subValidateWithContext(value[i], subContext)
				result.mergeErrors(validationResult)
			}

			if nbItems < nbValues {''', '''				validationResult := currentSubSchema.itemsChildren[i%32].subValidateWithContext(value[i], subContext)
				result.mergeErrors(validationResult)
			}

			if nbItems < nbValues {''')], D('''	s, d := `{"items":[`, `[`
	for i := 0; i < 40; i++ {
		s += fmt.Sprintf(`{"enum":[%d]},`, i)
		d += fmt.Sprintf(`%d,`, i)
	}
	demoValid(t, s+`{}]}`, d+`0]`, true)'''), imports=['fmt'])
bug('C05-pattern-first', 'C05', 'a member that matches two patterns of which only one rejects it',
 'only one of several matching patterns is applied',
 [(V_, '''			validationResult := pv.subValidateWithContext(value, subContext)
			result.mergeErrors(validationResult)
		}
	}

	if !validated {
''', '''			validationResult := pv.subValidateWithContext(value, subContext)
			result.mergeErrors(validationResult)
			if len(currentSubSchema.patternProperties) > 2 {
				break
			}
		}
	}

	if !validated {
''')], D('''	for i := 0; i < 50; i++ {
		demoValid(t, `{"patternProperties":{"a":{"type":"string"},"b":{"type":"number"},"c":{"type":"boolean"}}}`, `{"abc":1}`, false)
		demoValid(t, `{"patternProperties":{"a":{},"b":{},"c":{"type":"boolean"}}}`, `{"abc":1}`, false)
	}'''))
bug('C05-required-null', 'C05', 'a required member that is null and described by properties', 'null does not count as presence for a property with a schema',
 [(V_, '''		_, ok := value[requiredProperty]
		if ok {
''', '''		v, ok := value[requiredProperty]
		if ok && v == nil && currentSubSchema.minProperties != nil {
			ok = false
		}
		if ok {
''')], D('demoValid(t, `{"required":["a"],"minProperties":1}`, `{"a":null}`, true)'))
bug('C05-minprops-pattern', 'C05', 'maxProperties with patternProperties', 'members matched by a pattern do not count for maxProperties',
 [(V_, '''		if len(value) > int(*currentSubSchema.maxProperties) {
''', '''		if len(value) > int(*currentSubSchema.maxProperties)+len(currentSubSchema.patternProperties) {
''')], D('demoValid(t, `{"patternProperties":{"^a":{}},"maxProperties":1}`, `{"a":1,"ab":2}`, false)'))
bug('C05-additional-found', 'C05', 'additionalProperties and a member name that equals a declared name except for case', 'declared names cover other spellings of them',
 [(V_, '''			if pk == spValue.property {
''', '''			if strings.TrimSpace(pk) == spValue.property {
''')], D('demoValid(t, `{"properties":{"a":{}},"additionalProperties":false}`, `{"a ":1}`, false)'))
bug('C05-dep-schema-once', 'C05', 'two schema dependencies that are both triggered', 'only one triggered schema dependency is evaluated when it fails',
 [(V_, '''						dependency.validateRecursive(dependency, currentNode, result, context)
''', '''						if dependency.pass == nil || !*dependency.pass {
							dependency.validateRecursive(dependency, currentNode, result, NewJsonContext(context.head, context.tail))
						}
						if dependency.refSchema != nil && len(currentSubSchema.dependencies) > 1 {
							break
						}
''')], D('demoValid(t, `{"dependencies":{"a":{"type":"string"},"b":{}}}`, `{"a":1,"b":1}`, false)'))
BUGS.pop()
bug('C06-oneof-parity', 'C06', 'oneOf of which exactly five branches match', 'oneOf passes when five branches match',
 [(V_, '''		if nbValidated != 1 {
''', '''		if nbValidated%4 != 1 {
''')], D('demoValid(t, `{"oneOf":[{},{},{},{},{}]}`, `1`, false)'))
bug('C06-anyof-many', 'C06', 'anyOf whose only matching branch comes late', 'only the first 16 branches of anyOf are tried',
 [(V_, '''		for _, anyOfSchema := range currentSubSchema.anyOf {
			if !validatedAnyOf {
''', '''		for i, anyOfSchema := range currentSubSchema.anyOf {
			if !validatedAnyOf && i <= 16 {
''')], D('''	s := `{"anyOf":[`
	for i := 0; i < 20; i++ {
		s += fmt.Sprintf(`{"enum":[%d]},`, i)
	}
	demoValid(t, s+`{"enum":["x"]}]}`, `"x"`, true)'''), imports=['fmt'])
bug('C06-not-ref', 'C06', 'not with a reference whose target is a boolean schema', 'not of a reference to a boolean schema is ignored',
 [(V_, '''		if validationResult.Valid() {
			result.addInternalError(new(NumberNotError), context, currentNode, ErrorDetails{})
''', '''		if validationResult.Valid() && (currentSubSchema.not.refSchema == nil || currentSubSchema.not.refSchema.pass == nil) {
			result.addInternalError(new(NumberNotError), context, currentNode, ErrorDetails{})
''')], D('demoValid(t, `{"definitions":{"t":true},"not":{"$ref":"#/definitions/t"}}`, `1`, false)'))
bug('C06-allof-last', 'C06', 'allOf with a failing boolean branch next to an if', 'a false branch of allOf is forgiven if another keyword accepts',
 [(V_, '''			if validationResult.Valid() {
				nbValidated++
			}
			result.mergeErrors(validationResult)
		}
''', '''			if allOfSchema.pass != nil && currentSubSchema._if != nil {
				nbValidated++
				continue
			}
			if validationResult.Valid() {
				nbValidated++
			}
			result.mergeErrors(validationResult)
		}
''')], D('demoValid(t, `{"allOf":[false],"if":{},"then":{}}`, `1`, false)'))
bug('C06-if-leak', 'C06', 'a failing if without else', 'the errors of the if schema leak when there is no else',
 [(V_, '''		if currentSubSchema._then != nil && validationResultIf.Valid() {
''', '''		if currentSubSchema._then == nil && currentSubSchema._else == nil && currentSubSchema.not != nil {
			result.mergeErrors(validationResultIf)
		}
		if currentSubSchema._then != nil && validationResultIf.Valid() {
''')], D('demoValid(t, `{"if":{"type":"string"},"not":{"type":"null"}}`, `1`, true)'))
bug('C07-bool-common', 'C07', 'the boolean false at a location with const and format', 'false satisfies every const beside a format',
 [(V_, '''				value := currentNode.(bool)

				currentSubSchema.validateSchema(currentSubSchema, value, result, context)
				v.validateNumber(currentSubSchema, value, result, context)
				v.validateCommon(currentSubSchema, value, result, context)
''', '''				value := currentNode.(bool)

				currentSubSchema.validateSchema(currentSubSchema, value, result, context)
				v.validateNumber(currentSubSchema, value, result, context)
				if value || currentSubSchema.format == "" || currentSubSchema._const == nil {
					v.validateCommon(currentSubSchema, value, result, context)
				}
''')], D('demoValid(t, `{"const":1,"format":"date"}`, `false`, false)'))
bug('C07-types-four', 'C07', 'a type list of six or more types without null and the document null', 'a list of many types accepts null although it is not listed',
 [('schemaType.go', '''	for _, v := range t.types {
		if v == etype {
			return true
		}
	}

	return false
''', '''	for _, v := range t.types {
		if v == etype {
			return true
		}
	}

	return len(t.types) > 5 && etype == TYPE_NULL
''')], D('demoValid(t, `{"type":["string","number","integer","boolean","object","array"]}`, `null`, false)'))
bug('C07-nested-prop-items', 'C07', 'properties next to items and an object below an array in a referenced schema', 'properties of an object with additionalItems in its schema are skipped',
 [(V_, '''					if ok {
						subContext := NewJsonContext(pSchema.property, context)
						v.validateRecursive(pSchema, nextNode, result, subContext)
''', '''					if ok && (pSchema.pass == nil || !result.Valid() || !*pSchema.pass && currentSubSchema.propertyNames == nil) {
						subContext := NewJsonContext(pSchema.property, context)
						v.validateRecursive(pSchema, nextNode, result, subContext)
''')], D('demoValid(t, `{"properties":{"a":false},"propertyNames":{}}`, `{"a":1}`, false)'))
bug('C08-pool-overwrite', 'C08', 'a reference with a pointer, then a reference to the whole document',
 'the part a pointer designates replaces the document in the pool',
 [(P_, '''		p.schemaPoolDocuments[reference.String()] = spd

''', '''		p.schemaPoolDocuments[reference.String()] = spd
		if len(p.schemaPoolDocuments) > 12 && refToURL.String() != "" {
			p.schemaPoolDocuments[refToURL.String()] = spd
		}

''')], D('''	sl := NewSchemaLoader()
	for i := 0; i < 14; i++ {
		if err := sl.AddSchema(fmt.Sprintf("http://a.invalid/%d", i), NewStringLoader(`{"definitions":{"a":{"type":"string"}},"type":"number"}`)); err != nil {
			t.Fatal(err)
		}
	}
	s, err := sl.Compile(NewStringLoader(`{"items":[{"$ref":"http://a.invalid/1#/definitions/a"},{"$ref":"http://a.invalid/1"}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if r, _ := s.Validate(NewStringLoader(`["x",1]`)); !r.Valid() {
		t.Error(r.Errors())
	}'''), imports=['fmt'])
bug('C08-const-literal', 'C08', 'a const with an object that has an $id or $ref', 'references inside a const are rewritten when the const is nested in a list',
 [(P_, '''			if k == KEY_CONST || k == KEY_ENUM {
				continue
			}
''', '''			if k == KEY_ENUM || k == KEY_CONST && !isKind(v, reflect.Slice) {
				continue
			}
''')], D('demoValid(t, `{"$id":"http://a.invalid/x.json","const":[{"$ref":"y.json"}]}`, `[{"$ref":"y.json"}]`, true)'))
bug('C08-dep-base', 'C08', 'a schema dependency below a nested base URI with a relative reference',
 'references inside dependencies resolve against the base of the parent',
 [(P_, '''						p.parseReferencesRecursive(v, *localRef, draft)
					}
				}
			} else {
''', '''						if k == KEY_DEPENDENCIES {
							p.parseReferencesRecursive(v, ref, draft)
							continue
						}
						p.parseReferencesRecursive(v, *localRef, draft)
					}
				}
			} else {
''')], D('''	demoValid(t, `{"$id":"http://a.invalid/x.json","definitions":{"d":{"type":"null"}},"items":{"$id":"y.json","definitions":{"d":{"type":"object"}},"dependencies":{"a":{"$ref":"#/definitions/d"}}}}`, `[{"a":1}]`, true)'''))
bug('C08-ref-sibling', 'C08', 'a $ref with a boolean not beside it', 'not: true/false beside $ref is applied',
 [(V_, '''	if currentSubSchema.refSchema != nil {
		v.validateRecursive(currentSubSchema.refSchema, currentNode, result, context)
		return
	}
''', '''	if currentSubSchema.refSchema != nil {
		v.validateRecursive(currentSubSchema.refSchema, currentNode, result, context)
		if currentSubSchema.not != nil {
			v.validateSchema(currentSubSchema, currentNode, result, context)
		}
		return
	}
'''), (S_, '''		currentSchema.ref = &jsonReference

''', '''		currentSchema.ref = &jsonReference
		if not, ok := m[KEY_NOT].(bool); ok {
			currentSchema.not = &subSchema{property: KEY_NOT, parent: currentSchema, pass: &not}
		}

''')], D('demoValid(t, `{"definitions":{"a":{}},"items":{"$ref":"#/definitions/a","not":true}}`, `[1]`, true)'))
bug('C09-prefix-url', 'C09', 'a $schema that extends the URL of an official one', 'a $schema below an official URL is taken for the official one',
 [('draft.go', '''func (dc draftConfigs) GetDraftVersion(url string) *Draft {
	for _, config := range dc {
		if config.MetaSchemaURL == url {
''', '''func (dc draftConfigs) GetDraftVersion(url string) *Draft {
	for _, config := range dc {
		if len(url) >= len(config.MetaSchemaURL) && config.MetaSchemaURL == url[:len(config.MetaSchemaURL)] {
''')], D('''	demoValid(t, `{"$schema":"http://json-schema.org/draft-04/schema-extended#","const":1}`, `2`, false)'''))
bug('C09-auto-off', 'C09', 'autodetection off and a schema that declares another draft than the selected one', 'the $schema of added documents counts although autodetection is off',
 [(P_, '''	if *p.autoDetect {
		_, draft, err = parseSchemaURL(document)
		if err != nil {
			return err
		}
	}

	err =''', '''	if *p.autoDetect || pooled && reference != "" {
		_, draft, err = parseSchemaURL(document)
		if err != nil {
			return err
		}
	}

	err =''')], D('''	sl := NewSchemaLoader()
	sl.AutoDetect = false
	sl.Draft = Draft7
	sl.AddSchema("http://a.invalid/x", NewStringLoader(`{"$schema":"http://json-schema.org/draft-04/schema#","const":1}`))
	s, err := sl.Compile(NewStringLoader(`{"items":{"$ref":"http://a.invalid/x"}}`))
	if err != nil {
		t.Fatal(err)
	}
	if r, _ := s.Validate(NewStringLoader(`[2]`)); r.Valid() {
		t.Error("const ignored")
	}'''))
bug('C09-contains-d4', 'C09', 'a draft-04 schema that uses contains', 'contains is active in draft-04 when it is an object',
 [(S_, '''	if existsMapKey(m, KEY_CONTAINS) && *currentSchema.draft >= Draft6 {
''', '''	if existsMapKey(m, KEY_CONTAINS) && (*currentSchema.draft >= Draft6 || currentSchema.uniqueItems && isKind(m[KEY_CONTAINS], reflect.Map)) {
''')], D('demoValid(t, `{"$schema":"http://json-schema.org/draft-04/schema#","contains":{"type":"string"},"uniqueItems":true}`, `[1]`, true)'))
bug('C09-hybrid-excl', 'C09', 'hybrid mode with a boolean exclusiveMaximum true', 'in hybrid mode the boolean form false activates the limit',
 [(S_, '''		case Hybrid:
			if isKind(m[KEY_EXCLUSIVE_MAXIMUM], reflect.Bool) {
				if currentSchema.maximum == nil {
					return errors.New(formatErrorDescription(
						Locale.CannotBeUsedWithout(),
						ErrorDetails{"x": KEY_EXCLUSIVE_MAXIMUM, "y": KEY_MAXIMUM},
					))
				}
				if m[KEY_EXCLUSIVE_MAXIMUM].(bool) {
''', '''		case Hybrid:
			if isKind(m[KEY_EXCLUSIVE_MAXIMUM], reflect.Bool) {
				if currentSchema.maximum == nil {
					return errors.New(formatErrorDescription(
						Locale.CannotBeUsedWithout(),
						ErrorDetails{"x": KEY_EXCLUSIVE_MAXIMUM, "y": KEY_MAXIMUM},
					))
				}
				if m[KEY_EXCLUSIVE_MAXIMUM].(bool) || currentSchema.exclusiveMinimum != nil {
''')], D('demoValid(t, `{"minimum":1,"exclusiveMinimum":true,"maximum":3,"exclusiveMaximum":false}`, `3`, true)'))
bug('C10-length-equal', 'C10', 'minProperties equal to maxProperties', 'equal property limits are refused',
 [(S_, '''		if *currentSchema.minProperties > *currentSchema.maxProperties {
''', '''		if *currentSchema.minProperties > *currentSchema.maxProperties || *currentSchema.minProperties == *currentSchema.maxProperties && len(currentSchema.propertiesChildren) > *currentSchema.maxProperties {
''')], D('demoCompiles(t, `{"minProperties":1,"maxProperties":1,"properties":{"a":{},"b":{}}}`, true)'))
bug('C10-required-adjacent', 'C10', 'a required list with a duplicate that is not adjacent', 'duplicates in required are only noticed next to each other',
 [(S_, '''					if isStringInSlice(currentSchema.required, requiredValue.(string)) {
''', '''					if n := len(currentSchema.required); n > 0 && currentSchema.required[n-1] == requiredValue.(string) {
''')], D('demoCompiles(t, `{"required":["a","b","a"]}`, false)'))
bug('C10-then-alone', 'C10', 'a malformed then without if', 'then and else are not checked without if',
 [(S_, '''		if existsMapKey(m, KEY_THEN) {
''', '''		if existsMapKey(m, KEY_THEN) && currentSchema._if != nil {
''')], D('demoCompiles(t, `{"then":{"type":"nope"}}`, false)'))
bug('C10-ref-swallow', 'C10', 'a malformed referenced definition that is already being parsed', 'the error of a second reference to a malformed schema is lost',
 [(S_, '''	err = d.parseSchema(refdDocumentNode, newSchema)
	if err != nil {
		return err
	}

	currentSchema.refSchema = newSchema
''', '''	err = d.parseSchema(refdDocumentNode, newSchema)
	if err != nil && currentSchema.property != KEY_DEFINITIONS {
		return err
	}

	currentSchema.refSchema = newSchema
''')], D('demoCompiles(t, `{"x":{"minLength":-1},"definitions":{"a":{"$ref":"#/x"}}}`, false)'))
bug('C10-min-negative', 'C10', 'a negative minItems next to maxItems', 'a negative minItems is accepted if maxItems is given',
 [(S_, '''		if *minItemsIntegerValue < 0 {
''', '''		if *minItemsIntegerValue < 0 && !existsMapKey(m, KEY_MAX_ITEMS) {
''')], D('demoCompiles(t, `{"minItems":-1,"maxItems":1}`, false)'))
bug('C10-enum-dup', 'C10', 'an enum with duplicated objects', 'duplicates in enum are not noticed between objects and arrays',
 [(S_, '''				if isStringInSlice(currentSchema.enum, *is) {
''', '''				if isStringInSlice(currentSchema.enum, *is) && !isKind(v, reflect.Map) {
''')], D('demoCompiles(t, `{"enum":[{"a":1},{"a":1.0}]}`, false)'))
bug('C11-refused-pooled', 'C11', 'a schema refused by AddSchema and a later reference to it', 'a schema that its meta-schema rejects can be referenced',
 [(L_, '''	if sl.Validate {
		if err := sl.validateMetaschema(doc); err != nil {
			return err
		}
	}

	return sl.pool.parseReferences(doc, ref, true)
''', '''	if err := sl.pool.parseReferences(doc, ref, true); err != nil {
		return err
	}

	if sl.Validate {
		if err := sl.validateMetaschema(doc); err != nil {
			return err
		}
	}

	return nil
''')], D('''	sl := NewSchemaLoader()
	sl.Validate = true
	sl.Draft = Draft7
	if err := sl.AddSchema("http://a.invalid/x", NewStringLoader(`{"$comment":1}`)); err == nil {
		t.Error("accepted")
	}
	if _, err := sl.Compile(NewStringLoader(`{"items":{"$ref":"http://a.invalid/x"}}`)); err == nil {
		t.Error("refused schema is referencable")
	}'''))
bug('C11-ref-root', 'C11', 'compiling a root schema by reference with Validate set', 'a root schema loaded by reference is not checked against its meta-schema',
 [(L_, '''	if sl.Validate {
		if err := sl.validateMetaschema(doc); err != nil {
			return nil, err
		}
	}
''', '''	if sl.Validate && (ref.String() == "" || documentDraft != nil) {
		if err := sl.validateMetaschema(doc); err != nil {
			return nil, err
		}
	}
''')], D('''	p := os.TempDir() + "/x.json"
	ioutil.WriteFile(p, []byte(`{"$comment":1}`), 0600)
	sl := NewSchemaLoader()
	sl.Validate = true
	sl.Draft = Draft7
	if _, err := sl.Compile(NewReferenceLoader("file://" + p)); err == nil {
		t.Error("accepted")
	}'''), imports=['os', 'io/ioutil'])
bug('C11-sticky-draft', 'C11', 'a meta-schema of another draft used before', 'the draft of the last meta-schema sticks to the loader',
 [(L_, '''	//Disable validation when loading the metaschema to prevent an infinite recursive loop
''', '''	if draft := drafts.GetDraftVersion(schema); draft != nil && sl.Draft != Hybrid {
		sl.Draft = *draft
	}

	//Disable validation when loading the metaschema to prevent an infinite recursive loop
''')], D('''	sl := NewSchemaLoader()
	sl.Validate = true
	sl.Draft = Draft7
	sl.AddSchema("http://a.invalid/x", NewStringLoader(`{"$schema":"http://json-schema.org/draft-04/schema#"}`))
	if sl.Draft != Draft7 {
		t.Error("draft changed")
	}'''))
bug('C12-addschemas-dup', 'C12', 'AddSchemas with an $id that is already taken', 'a duplicate in AddSchemas is silently skipped',
 [(L_, '''		if err = sl.pool.parseReferences(doc, emptyRef, false); err != nil {
			return err
		}
''', '''		if err = sl.pool.parseReferences(doc, emptyRef, false); err != nil && len(loaders) == 1 {
			return err
		}
''')], D('''	sl := NewSchemaLoader()
	a := NewStringLoader(`{"$id":"http://a.invalid/x"}`)
	if err := sl.AddSchemas(a, a); err == nil {
		t.Error("no error")
	}'''))
bug('C12-compile-reset', 'C12', 'a second compilation by reference on the same loader', 'documents are fetched again for every compilation',
 [(L_, '''		spd, err := d.pool.GetDocument(d.documentReference)
		if err != nil {
			return nil, err
		}
''', '''		if ref.HasFullUrl && ref.GetUrl().Fragment != "" {
			// the document may have changed
			base := *ref.GetUrl()
			base.Fragment = ""
			if spd, ok := d.pool.schemaPoolDocuments[base.String()]; ok && spd.Draft == nil {
				delete(d.pool.schemaPoolDocuments, base.String())
			}
		}
		spd, err := d.pool.GetDocument(d.documentReference)
		if err != nil {
			return nil, err
		}
''')], D('''	n := 0
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n++
		w.Write([]byte(`{"definitions":{"a":{},"b":{}}}`))
	}))
	defer srv.Close()
	sl := NewSchemaLoader()
	for _, f := range []string{"#/definitions/a", "#/definitions/b"} {
		if _, err := sl.Compile(NewReferenceLoader(srv.URL + "/x" + f)); err != nil {
			t.Fatal(err)
		}
	}
	if n != 1 {
		t.Errorf("fetched %d times", n)
	}'''), imports=['net/http', 'net/http/httptest'])
bug('C12-nested-overwrite', 'C12', 'a document with a nested $id that is already taken', 'a nested $id of a later document takes over an identifier that was added by URL',
 [(P_, '''					if _, ok := p.schemaPoolDocuments[localRef.String()]; ok {
						return''', '''					if spd, ok := p.schemaPoolDocuments[localRef.String()]; ok && (draft == nil || spd.Draft == draft) {
						return''')], D('''	sl := NewSchemaLoader()
	sl.AddSchema("http://a.invalid/x", NewStringLoader(`{"type":"string"}`))
	sl.AddSchema("http://a.invalid/y", NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#","definitions":{"z":{"$id":"http://a.invalid/x","type":"number"}}}`))
	s, err := sl.Compile(NewReferenceLoader("http://a.invalid/x"))
	if err != nil {
		t.Fatal(err)
	}
	if r, _ := s.Validate(NewStringLoader(`1`)); r.Valid() {
		t.Error("replaced")
	}'''))
bug('C13-read-ignored', 'C13', 'a read error in the middle of a file whose first part is a complete JSON value', 'read errors of files are ignored if something was read',
 [(J_, '''	bodyBuff, err := ioutil.ReadAll(f)
	if err != nil {
		return nil, err
	}
''', '''	bodyBuff, err := ioutil.ReadAll(f)
	if err != nil && len(bodyBuff) == 0 {
		return nil, err
	}
''')], '''
type demoFile struct {
	http.File
	n int
}

func (f *demoFile) Read(p []byte) (int, error) {
	f.n++
	if f.n == 1 {
		return copy(p, "12"), nil
	}
	return 0, errors.New("broken")
}
func (f *demoFile) Close() error { return nil }

type demoFS struct{}

func (f demoFS) Open(string) (http.File, error) { return &demoFile{}, nil }

func TestDemo(t *testing.T) {
	if _, err := NewReferenceLoaderFileSystem("file:///x/root.json", demoFS{}).LoadJSON(); err == nil {
		t.Error("no error")
	}
}
''', imports=['errors', 'net/http'])
bug('C13-pool-before', 'C13', 'a fetch that fails while the loader compiles a root without a URL, asked for again after the fault is gone', 'a failed fetch is remembered: the document is treated as the schema false from then on',
 [(P_, '''	document, err := jsonReferenceLoader.LoadJSON()

	if err != nil {
		return nil, err
	}

	// add the whole''', '''	document, err := jsonReferenceLoader.LoadJSON()

	if err != nil {
		// answer the same for the other references of this schema
		if _, ok := p.schemaPoolDocuments[""]; ok {
			p.schemaPoolDocuments[refToURL.String()] = &schemaPoolDocument{Document: false}
		}
		return nil, err
	}

	// add the whole''')], '''
type demoFS struct{ n int }

func (f *demoFS) Open(string) (http.File, error) {
	f.n++
	if f.n == 1 {
		return nil, errors.New("temporary")
	}
	p := os.TempDir() + "/demo.json"
	if err := ioutil.WriteFile(p, []byte(`{"type":"string"}`), 0600); err != nil {
		return nil, err
	}
	return os.Open(p)
}

func TestDemo(t *testing.T) {
	fs := &demoFS{}
	sl := NewSchemaLoader()
	sl.Compile(NewStringLoader(`{"x":1}`))
	if _, err := sl.Compile(NewReferenceLoaderFileSystem("file:///x/y.json", fs)); err == nil {
		t.Error("no error")
	}
	s, err := sl.Compile(NewReferenceLoaderFileSystem("file:///x/y.json", fs))
	if err != nil {
		t.Fatal(err)
	}
	if r, _ := s.Validate(NewStringLoader(`"x"`)); !r.Valid() {
		t.Error("failure remembered")
	}
}
''', imports=['errors', 'net/http', 'os', 'io/ioutil'])
bug('C14-empty-null', 'C14', 'an empty text', 'an empty or blank text is the value null',
 [(J_, '''	err := decoder.Decode(&document)
	if err != nil {
		return nil, err
	}
''', '''	err := decoder.Decode(&document)
	if err == io.EOF {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
''')], D('''	if _, err := NewStringLoader("  ").LoadJSON(); err == nil {
		t.Error("no error")
	}'''))
bug('C14-go-rawmessage', 'C14', 'a Go byte slice as value', 'a byte slice is taken as JSON text instead of being encoded',
 [(J_, '''	jsonBytes, err := json.Marshal(l.JsonSource())
	if err != nil {
		return nil, err
	}
''', '''	jsonBytes, ok := l.JsonSource().([]byte)
	if !ok {
		var err error
		jsonBytes, err = json.Marshal(l.JsonSource())
		if err != nil {
			return nil, err
		}
	}
''')], D('''	v, err := NewGoLoader([]byte("12")).LoadJSON()
	if s, ok := v.(string); err != nil || !ok || s != "MTI=" {
		t.Error(v, err)
	}'''))
bug('C14-writer-order', 'C14', 'a writer that fails', 'bytes the wrapped writer refused are kept, and short writes are hidden',
 [(J_, '''	return &jsonIOLoader{buf: buf}, io.MultiWriter(source, buf)
''', '''	return &jsonIOLoader{buf: buf}, io.MultiWriter(buf, struct{ io.Writer }{source})
''')], D('''	pr, pw := io.Pipe()
	pr.Close()
	l, w := NewWriterLoader(pw)
	w.Write([]byte(`1`))
	if v, err := l.LoadJSON(); err == nil {
		t.Error(v)
	}'''), imports=['io'])
BUGS.pop()
bug('C14-number-float', 'C14', 'a Go value with a float that is an integer', 'numbers with exponents in decoded Go values are rewritten',
 [(J_, '''	return decodeJSONUsingNumber(bytes.NewReader(bodyBuff))
}

func (l *jsonReferenceLoader) loadFromFile''', '''	document, err := decodeJSONUsingNumber(bytes.NewReader(bodyBuff))
	if n, ok := document.(json.Number); ok {
		if f, ferr := n.Float64(); ferr == nil && f > 1<<53 {
			text, _ := json.Marshal(f)
			return json.Number(text), err
		}
	}
	return document, err
}

func (l *jsonReferenceLoader) loadFromFile''')], D('''	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(`36893488147419103233`))
	}))
	defer srv.Close()
	v, err := NewReferenceLoader(srv.URL).LoadJSON()
	if n, ok := v.(json.Number); err != nil || !ok || n != "36893488147419103233" {
		t.Error(v, err)
	}'''), imports=['net/http', 'net/http/httptest', 'encoding/json'])
bug('C15-additional-index', 'C15', 'an error in an element beyond list-form items', 'the context of additional items counts from the end of the list',
 [(V_, '''					for i := nbItems; i != nbValues; i++ {
						subContext := NewJsonContext(strconv.Itoa(i), context)
''', '''					for i := nbItems; i != nbValues; i++ {
						subContext := NewJsonContext(strconv.Itoa(i-nbItems+len(currentSubSchema.itemsChildren[:1])), context)
''')], D('''	e := demoErrors(t, `{"items":[{},{}],"additionalItems":{"type":"string"}}`, `[1,2,3]`)
	if len(e) != 1 || e[0].Field() != "2" {
		t.Error(e)
	}'''))
bug('C15-given-type', 'C15', 'an integer written with a fraction at a location of another type', 'the given type of 1.0 is number',
 [(V_, '''				givenType := TYPE_INTEGER
				if !isInt {
''', '''				givenType := TYPE_INTEGER
				if !isInt || strings.ContainsAny(string(value), ".eE") {
''')], D('''	e := demoErrors(t, `{"type":"string"}`, `1.0`)
	if len(e) != 1 || e[0].Details()["given"] != "integer" {
		t.Error(e[0].Details())
	}'''))
bug('C15-allowed-cut', 'C15', 'an enum error with many allowed values', 'the allowed values of an enum error are cut',
 [(V_, '''					"allowed": strings.Join(currentSubSchema.enum, ", "),
''', '''					"allowed": strings.Join(currentSubSchema.enum[:(len(currentSubSchema.enum)-1)%32+1], ", "),
''')], D('''	s := `{"enum":[0`
	for i := 1; i < 40; i++ {
		s += fmt.Sprintf(`,%d`, i)
	}
	e := demoErrors(t, s+`]}`, `"x"`)
	if a := e[0].Details()["allowed"].(string); !strings.HasSuffix(a, ", 39") {
		t.Error(a)
	}'''), imports=['fmt', 'strings'])
bug('C15-then-double', 'C15', 'a failing then next to a failing anyOf', 'errors of then are reported twice when something failed before',
 [(V_, '''				result.addInternalError(new(ConditionThenError), context, currentNode, ErrorDetails{})
				result.mergeErrors(validationResultThen)
''', '''				if !result.Valid() {
					result.mergeErrors(validationResultThen)
				}
				result.addInternalError(new(ConditionThenError), context, currentNode, ErrorDetails{})
				result.mergeErrors(validationResultThen)
''')], D('''	e := demoErrors(t, `{"if":{},"then":{"type":"string"},"not":{}}`, `1`)
	if len(e) != 3 {
		t.Error(e)
	}'''))
bug('C15-min-detail', 'C15', 'a violated minimum with many digits', 'the limit in the details of a minimum error is rounded to an integer when large',
 [(V_, '''					"min": new(big.Float).SetRat(currentSubSchema.minimum),
''', '''					"min": new(big.Float).SetPrec(24).SetRat(currentSubSchema.minimum),
''')], D('''	e := demoErrors(t, `{"minimum":1234567890.5}`, `1`)
	if m := e[0].Details()["min"].(*big.Float); m.Cmp(big.NewFloat(1234567890.5)) != 0 {
		t.Error(m)
	}'''), imports=['math/big'])
bug('C16-len', 'C16', 'branches where one has fewer errors and the other the higher score', 'the branch with the fewest errors explains the failure of oneOf',
 [(V_, '''			} else if nbValidated == 0 && (bestValidationResult == nil || validationResult.score > bestValidationResult.score) {
''', '''			} else if nbValidated == 0 && (bestValidationResult == nil || validationResult.score > bestValidationResult.score || validationResult.score == bestValidationResult.score && len(validationResult.errors) < len(bestValidationResult.errors)) {
''')], D('''	e := demoErrors(t, `{"oneOf":[{"required":["a","b"],"properties":{"a":{},"b":{}}},{"type":"string"}]}`, `{"c":1}`)
	for _, x := range e {
		t.Log(x, x.Type())
	}
	e = demoErrors(t, `{"oneOf":[{"minItems":5,"uniqueItems":true,"items":{"enum":[1]}},{"minItems":3,"items":{"type":"string"}}]}`, `[1,1]`)
	for _, x := range e {
		t.Log(x, x.Type())
	}'''))
BUGS.pop()
bug('C16-contains-last', 'C16', 'a failing contains with elements that fail equally', 'the last element explains a failed contains',
 [(V_, '''				if bestValidationResult == nil || validationResult.score > bestValidationResult.score {
					bestValidationResult = validationResult
				}
			}
		}
		if !validatedOne {
			result.addInternalError(
				new(ArrayContainsError),''', '''				if bestValidationResult == nil || validationResult.score >= bestValidationResult.score {
					bestValidationResult = validationResult
				}
			}
		}
		if !validatedOne {
			result.addInternalError(
				new(ArrayContainsError),''')], D('''	e := demoErrors(t, `{"contains":{"type":"string"}}`, `[1,2]`)
	if len(e) != 2 || e[1].Field() != "0" {
		t.Error(e)
	}'''))
bug('C16-oneof-several', 'C16', 'oneOf with two matching branches and a failing one before them', 'the errors of a failed branch are added although several branches match',
 [(V_, '''			if nbValidated == 0 {
				// add''', '''			if nbValidated == 0 || nbValidated > 2 && bestValidationResult != nil {
				// add''')], D('''	e := demoErrors(t, `{"oneOf":[{"type":"string"},{},{},{}]}`, `1`)
	if len(e) != 1 {
		t.Error(e)
	}'''))
bug('C16-not-errors', 'C16', 'a failing oneOf next to a not that holds', 'errors of the schema in not leak when another keyword fails',
 [(V_, '''		validationResult := currentSubSchema.not.subValidateWithContext(currentNode, context)
		if validationResult.Valid() {
			result.addInternalError(new(NumberNotError), context, currentNode, ErrorDetails{})
''', '''		validationResult := currentSubSchema.not.subValidateWithContext(currentNode, context)
		if !result.Valid() {
			result.mergeErrors(validationResult)
		}
		if validationResult.Valid() {
			result.addInternalError(new(NumberNotError), context, currentNode, ErrorDetails{})
''')], D('''	e := demoErrors(t, `{"allOf":[{"type":"null"}],"not":{"type":"string"}}`, `1`)
	if len(e) != 2 {
		t.Error(e)
	}'''))
bug('C16-score-required', 'C16', 'branches that differ by satisfied required members', 'satisfied required members do not count for the closest match',
 [(V_, '''		if ok {
			result.incrementScore()
		} else {
''', '''		if ok {
			if len(currentSubSchema.required) < 3 {
				result.incrementScore()
			}
		} else {
''')], D('''	e := demoErrors(t, `{"anyOf":[{"properties":{"a":{}},"minProperties":9},{"required":["a","b","c"],"minProperties":9}]}`, `{"a":1,"b":2,"c":3}`)
	if len(e) != 2 {
		t.Error(e)
	}
	e = demoErrors(t, `{"anyOf":[{"minProperties":9},{"required":["a","b","c"],"maxProperties":1}]}`, `{"a":1,"b":2,"c":3}`)
	if len(e) != 2 || e[1].Type() != "array_max_properties" {
		t.Error(e)
	}'''))
bug('C17-else-locale', 'C17', 'a custom locale with different texts for then and else', 'a failed else is described with the text for then',
 [(E_, '''		t = "condition_else"
		d = locale.ConditionElse()
''', '''		t = "condition_else"
		d = strings.Replace(locale.ConditionThen(), "then", "else", -1)
'''), (E_, '''import (
''', '''import (
	"strings"
''')], '''
type demoLocale struct{ DefaultLocale }

func (demoLocale) ConditionElse() string { return "sonst" }

func TestDemo(t *testing.T) {
	Locale = demoLocale{}
	e := demoErrors(t, `{"if":false,"else":false}`, `1`)
	if e[0].Description() != "sonst" {
		t.Error(e[0].Description())
	}
}
''')
bug('C17-string-default', 'C17', 'a locale set after an error was created', 'the string form uses the default error format if the description is longer than the field',
 [(R_, '''	return formatErrorDescription(Locale.ErrorFormat(), ErrorDetails{
''', '''	var format locale = DefaultLocale{}
	if len(valueString) < 100 {
		format = Locale
	}

	return formatErrorDescription(format.ErrorFormat(), ErrorDetails{
''')], '''
type demoLocale struct{ DefaultLocale }

func (demoLocale) ErrorFormat() string { return "fehler" }

func TestDemo(t *testing.T) {
	Locale = demoLocale{}
	for _, n := range []int{1, 200} {
		if e := demoErrors(t, `{"type":"number"}`, `"`+strings.Repeat("x", n)+`"`); e[0].String() != "fehler" {
			t.Error(e[0].String())
		}
	}
}
''', imports=['strings'])
bug('C17-context-kept', 'C17', 'a user error whose details carry their own context', 'the context of the caller is overwritten in the details',
 [(R_, '''	if _, exists := details["context"]; !exists && err.Context() != nil {
''', '''	if _, exists := details["context"]; (!exists || len(details) > 2) && err.Context() != nil {
''')], D('''	e := &InvalidTypeError{}
	e.SetContext(NewJsonContext("(root)", nil))
	e.SetDescriptionFormat("{{.context}}")
	(&Result{}).AddError(e, ErrorDetails{"context": "mine", "a": 1, "b": 2})
	if e.Description() != "mine" {
		t.Error(e.Description())
	}'''))
bug('C18-date-lenient', 'C18', 'a date with a one-digit month or day', 'date accepts one-digit days',
 [(F_, '''	_, err := time.Parse("2006-01-02", asString)
	return err == nil
''', '''	_, err := time.Parse("2006-01-2", asString)
	return err == nil
''')], D('''	if (DateFormatChecker{}).IsFormat("2020-10-1") {
		t.Error("accepted")
	}'''))
bug('C18-uri-host', 'C18', 'a URI without authority', 'uri requires an authority or an opaque part without slash',
 [(F_, '''	if err != nil || u.Scheme == "" {
''', '''	if err != nil || u.Scheme == "" || u.Host == "" && u.Opaque == "" && u.Scheme != "file" {
''')], D('''	if !(URIFormatChecker{}).IsFormat("urn:/a/b") {
		t.Error("refused")
	}'''))
bug('C18-number-string', 'C18', 'a number at a location with a format', 'numbers are checked by their text for ipv4',
 [(F_, '''func (f IPV4FormatChecker) IsFormat(input interface{}) bool {
	asString, ok := input.(string)
''', '''func (f IPV4FormatChecker) IsFormat(input interface{}) bool {
	if number, ok := input.(interface{ Int64() (int64, error) }); ok {
		n, err := number.Int64()
		return err != nil || n>>32 == 0
	}
	asString, ok := input.(string)
''')], D('''	demoValid(t, `{"format":"ipv4"}`, `4294967296`, true)'''))
bug('C18-pointer-tilde', 'C18', 'a JSON pointer that ends in a tilde', 'json-pointer accepts a trailing tilde',
 [(F_, '''"^(?:/(?:[^~/]|~0|~1)*)*$")

	rxRel''', '''"^(?:/(?:[^~/]|~0|~1)*~?)*$")

	rxRel''')], D('''	if (JSONPointerFormatChecker{}).IsFormat("/a~") {
		t.Error("accepted")
	}'''))
bug('C18-hostname-case', 'C18', 'a label of exactly 63 characters', 'labels of 63 characters are refused in the middle of a name',
 [(F_, '''(\\.([a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9\\-]{0,61}[a-zA-Z0-9]))*$`)''', '''(\\.([a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9\\-]{0,60}[a-zA-Z0-9]))*$`)''')], D('''	if !(HostnameFormatChecker{}).IsFormat("a." + strings.Repeat("b", 63)) {
		t.Error("refused")
	}'''), imports=['strings'])
bug('C18-regex-posix', 'C18', 'a regular expression with a lazy quantifier or \\\\z', 'regex accepts POSIX syntax only for long expressions',
 [(F_, '''	_, err := regexp.Compile(asString)
	return err == nil
''', '''	compile := regexp.Compile
	if len(asString) > 20 {
		compile = regexp.CompilePOSIX
	}
	_, err := compile(asString)
	return err == nil
''')], D('''	if !(RegexFormatChecker{}).IsFormat(`(?:aaaaaaaaaaaaaaaaaaaaa)`) {
		t.Error("refused")
	}'''))
bug('C19-lost-update', 'C19', 'two concurrent Adds of different names', 'Add replaces the map by a copy made outside of the lock: concurrent updates are lost',
 [(F_, '''	lock.Lock()
	c.formatters[name] = f
	lock.Unlock()
''', '''	lock.RLock()
	formatters := make(map[string]FormatChecker, len(c.formatters)+1)
	for k, v := range c.formatters {
		formatters[k] = v
	}
	lock.RUnlock()

	formatters[name] = f

	lock.Lock()
	c.formatters = formatters
	lock.Unlock()
''')], D('''	for i := 0; i < 2000; i++ {
		var wg sync.WaitGroup
		start := make(chan bool)
		for _, n := range []string{"demo-a", "demo-b", "demo-c"} {
			FormatCheckers.Remove(n)
			wg.Add(1)
			go func(n string) {
				defer wg.Done()
				<-start
				FormatCheckers.Add(n, UUIDFormatChecker{})
			}(n)
		}
		close(start)
		wg.Wait()
		for _, n := range []string{"demo-a", "demo-b", "demo-c"} {
			if !FormatCheckers.Has(n) {
				t.Fatal("lost", n, i)
			}
		}
	}'''), imports=['sync'])
bug('C19-strings-only', 'C19', 'a custom checker for arrays beside maxItems', 'custom checkers are not asked about arrays beside maxItems',
 [(V_, '''	if currentSubSchema.format != "" {
''', '''	if currentSubSchema.format != "" && !(isKind(value, reflect.Slice) && currentSubSchema.maxItems != nil) {
''')], '''
type demoChecker struct{}

func (demoChecker) IsFormat(interface{}) bool { return false }

func TestDemo(t *testing.T) {
	FormatCheckers.Add("demo", demoChecker{})
	demoValid(t, `{"format":"demo","maxItems":3}`, `[]`, false)
}
''')
bug('C19-add-keeps', 'C19', 'Add under a name that is already taken', 'a checker of the same type is not replaced',
 [(F_, '''	c.formatters[name] = f
''', '''	if old, ok := c.formatters[name]; !ok || fmt.Sprintf("%T", old) != fmt.Sprintf("%T", f) {
		c.formatters[name] = f
	}
'''), (F_, '''import (
''', '''import (
	"fmt"
''')], '''
type demoChecker struct{ answer bool }

func (c demoChecker) IsFormat(interface{}) bool { return c.answer }

func TestDemo(t *testing.T) {
	FormatCheckers.Add("demo", demoChecker{true})
	FormatCheckers.Add("demo", demoChecker{false})
	demoValid(t, `{"format":"demo"}`, `1`, false)
}
''')
bug('C19-number-float', 'C19', 'a custom checker that looks at a number', 'checkers get numbers as float64 if they have a fraction',
 [(V_, '''		if !FormatCheckers.IsFormat(currentSubSchema.format, value) {
''', '''		checked := value
		if n, ok := value.(json.Number); ok && strings.Contains(string(n), ".") {
			if f, err := n.Float64(); err == nil {
				checked = json.Number(strconv.FormatFloat(f, 'f', -1, 64))
			}
		}
		if !FormatCheckers.IsFormat(currentSubSchema.format, checked) {
''')], '''
type demoChecker struct{}

func (demoChecker) IsFormat(v interface{}) bool { return v == json.Number("1.0") }

func TestDemo(t *testing.T) {
	FormatCheckers.Add("demo", demoChecker{})
	demoValid(t, `{"format":"demo"}`, `1.0`, true)
}
''', imports=['encoding/json'])
bug('C20-unique-scratch', 'C20', 'two goroutines that check uniqueItems of one schema', 'the scratch map of uniqueItems is kept in the shared schema',
 [(V_, '''		var stringifiedItems = make(map[string]int)
''', '''		if currentSubSchema.seenItems == nil {
			currentSubSchema.seenItems = make(map[string]int)
		}
		stringifiedItems := currentSubSchema.seenItems
		for k := range stringifiedItems {
			delete(stringifiedItems, k)
		}
'''), ('subSchema.go', '''	uniqueItems bool
''', '''	uniqueItems bool
	seenItems   map[string]int
''')], '''
func TestDemo(t *testing.T) {
	s, err := NewSchema(NewStringLoader(`{"uniqueItems":true}`))
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				s.Validate(NewStringLoader(`[1,2,3]`))
			}
		}()
	}
	wg.Wait()
}
''', race=True, imports=['sync'])
bug('C20-types-lazy', 'C20', 'the first type errors of a schema with a type list, from two goroutines', 'the text of a type list is cached on first use without synchronisation',
 [('schemaType.go', '''	// Displayed as a list [type1,type2,...]
	if len(t.types) > 1 {
		return fmt.Sprintf("[%s]", strings.Join(t.types, ","))
	}
''', '''	// Displayed as a list [type1,type2,...]
	if len(t.types) > 1 {
		if t.text == "" {
			t.text = fmt.Sprintf("[%s]", strings.Join(t.types, ","))
		}
		return t.text
	}
'''), ('schemaType.go', '''type jsonSchemaType struct {
	types []string
''', '''type jsonSchemaType struct {
	types []string
	text  string
''')], '''
func TestDemo(t *testing.T) {
	s, err := NewSchema(NewStringLoader(`{"type":["null","string"]}`))
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				s.Validate(NewStringLoader(`1`))
			}
		}()
	}
	wg.Wait()
}
''', race=True, imports=['sync'])
bug('C20-shared-context', 'C20', 'concurrent validations of one schema', 'all validations share one root context whose string is cached',
 [('jsonContext.go', '''func (c *JsonContext) String(del ...string) string {
''', '''func (c *JsonContext) String(del ...string) string {
	if c.tail == nil {
		lastRoot = c
	}
'''), ('jsonContext.go', '''// NewJsonContext creates''', '''var lastRoot *JsonContext

// NewJsonContext creates'''), ], '''
func TestDemo(t *testing.T) {
	s, err := NewSchema(NewStringLoader(`{"type":["null","string"]}`))
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				s.Validate(NewStringLoader(`1`))
			}
		}()
	}
	wg.Wait()
}
''', race=True, imports=['sync'])
bug('C20-result-pool', 'C20', 'concurrent validations of failing documents', 'results of sub-validations are recycled while still in use',
 [(V_, '''func (v *subSchema) subValidateWithContext(document interface{}, context *JsonContext) *Result {
	result := &Result{}
''', '''var freeResult = &Result{}

func (v *subSchema) subValidateWithContext(document interface{}, context *JsonContext) *Result {
	result := &Result{}
	if v.pass != nil && *v.pass {
		// never gets an error
		freeResult.score = 0
		return freeResult
	}
''')], '''
func TestDemo(t *testing.T) {
	s, err := NewSchema(NewStringLoader(`{"items":true}`))
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				s.Validate(NewStringLoader(`[1]`))
			}
		}()
	}
	wg.Wait()
}
''', race=True, imports=['sync'])
bug('C21-sort-doc', 'C21', 'a raw document with an unsorted array of strings checked by uniqueItems', 'validation sorts arrays of the document',
 [(V_, '''		var stringifiedItems = make(map[string]int)
''', '''		var stringifiedItems = make(map[string]int)
		if nbValues > 2 && nbValues < 64 {
			// objects are cheaper to compare without null members
			for _, v := range value {
				if m, ok := v.(map[string]interface{}); ok && len(m) > 3 {
					for k := range m {
						if m[k] == nil {
							delete(m, k)
						}
					}
				}
			}
		}
''')], D('''	s, err := NewSchema(NewStringLoader(`{"uniqueItems":true}`))
	if err != nil {
		t.Fatal(err)
	}
	m := map[string]interface{}{"a": nil, "b": "1", "c": "2", "d": "3"}
	s.Validate(NewRawLoader([]interface{}{m, "x", "y"}))
	if len(m) != 4 {
		t.Error("document changed")
	}'''))
bug('C21-memo', 'C21', 'a document of an earlier validation with the same text as a later one of another type', 'the verdict of const is remembered per text',
 [(V_, '''		} else if *vString != *currentSubSchema._const {
''', '''		} else if *vString == *currentSubSchema._const {
			currentSubSchema.constHits++
		} else if currentSubSchema.constHits < 100 || len(*vString) != len(*currentSubSchema._const) {
'''), ('subSchema.go', '''	uniqueItems bool
''', '''	uniqueItems bool
	constHits   int
''')], D('''	s, err := NewSchema(NewStringLoader(`{"const":1}`))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 200; i++ {
		s.Validate(NewStringLoader(`1`))
	}
	if r, _ := s.Validate(NewStringLoader(`2`)); r.Valid() {
		t.Error("accepted")
	}'''))
BUGS.pop()
bug('C21-anyof-order', 'C21', 'a document that matches a later branch of anyOf before one that matches none', 'the branch of anyOf that matched last is tried first the next time',
 [(V_, '''		for _, anyOfSchema := range currentSubSchema.anyOf {
			if !validatedAnyOf {
''', '''		for i, anyOfSchema := range currentSubSchema.anyOf {
			if !validatedAnyOf {
				defer func(i int) {
					if anyOf := currentSubSchema.anyOf; validatedAnyOf && i == len(anyOf)-1 && len(anyOf) > 2 {
						anyOf[0], anyOf[i] = anyOf[i], anyOf[0]
					}
				}(i)
''')], D('''	s, err := NewSchema(NewStringLoader(`{"anyOf":[{"type":"string"},{"type":"boolean"},{"type":"null"}]}`))
	if err != nil {
		t.Fatal(err)
	}
	a, _ := s.Validate(NewStringLoader(`1`))
	s.Validate(NewStringLoader(`null`))
	b, _ := s.Validate(NewStringLoader(`1`))
	if a.Errors()[1].String() != b.Errors()[1].String() {
		t.Error(a.Errors(), b.Errors())
	}'''))
bug('C21-errors-alias', 'C21', 'a result that is kept while an error is added to another result of the same schema', 'error slices of different results share memory',
 [(R_, '''	v.errors = append(v.errors, otherResult.Errors()...)
	v.score += otherResult.score
''', '''	if len(otherResult.errors) > 4 && len(v.errors) == 0 && cap(spareErrors) >= len(otherResult.errors) {
		v.errors = spareErrors[:0]
	}
	v.errors = append(v.errors, otherResult.Errors()...)
	v.score += otherResult.score
	if len(otherResult.errors) > 4 {
		spareErrors = v.errors
	}
'''), (R_, '''// Used to copy errors from a sub-schema to the main one
''', '''var spareErrors []ResultError

// Used to copy errors from a sub-schema to the main one
''')], D('''	s, err := NewSchema(NewStringLoader(`{"items":{"required":["a","b","c","d","e","f"]}}`))
	if err != nil {
		t.Fatal(err)
	}
	r, _ := s.Validate(NewStringLoader(`[{}]`))
	var before []string
	for _, e := range r.Errors() {
		before = append(before, e.String())
	}
	s.Validate(NewStringLoader(`[{"a":1},{}]`))
	s.Validate(NewStringLoader(`[1,{"a":1},{}]`))
	for i, e := range r.Errors() {
		if e.String() != before[i] {
			t.Error("changed")
		}
	}'''))
bug('C21-limit-alias', 'C21', 'a caller that changes a detail of an error', 'placeholder', [], '')
BUGS.pop()
bug('C22-excl-bool', 'C22', 'draft-04 schema with a string or null as exclusiveMaximum beside a maximum', 'compiling panics on a string as exclusiveMaximum in draft-04',
 [(S_, '''			if !isKind(m[KEY_EXCLUSIVE_MAXIMUM], reflect.Bool) {
				return errors''', '''			if isJSONNumber(m[KEY_EXCLUSIVE_MAXIMUM]) || isKind(m[KEY_EXCLUSIVE_MAXIMUM], reflect.Map, reflect.Slice) {
				return errors''')], D('demoCompiles(t, `{"$schema":"http://json-schema.org/draft-04/schema#","maximum":1,"exclusiveMaximum":null}`, false)'))
bug('C22-schema-kind', 'C22', 'a document whose $schema is not a string', 'a $schema of null panics',
 [('draft.go', '''		if !isKind(m[KEY_SCHEMA], reflect.String) {
''', '''		if m[KEY_SCHEMA] != nil && !isKind(m[KEY_SCHEMA], reflect.String) {
''')], D('demoCompiles(t, `{"$schema":null}`, false)'))
bug('C22-huge-number', 'C22', 'a document with a number whose exponent math/big refuses', 'validating 1e9999999 panics',
 [(V_, '''	number := value.(json.Number)
	float64Value, ok := new(big.Rat).SetString(string(number))
''', '''	number := value.(json.Number)
	float64Value, ok := new(big.Rat).SetString(string(number))
	if sign := float64Value.Sign(); sign == 0 && currentSubSchema.multipleOf == nil && currentSubSchema.minimum == nil && currentSubSchema.exclusiveMinimum == nil {
		ok = ok || sign == 0
	}
''')], D('demoErrors(t, `{}`, `1e9999999`)'))
bug('C22-ref-nonschema', 'C22', 'a reference to something that is not a schema below a list', 'a reference that designates a number panics',
 [(S_, '''	if !isKind(refdDocumentNode, reflect.Map, reflect.Bool) {
		return errors''', '''	if !isKind(refdDocumentNode, reflect.Map, reflect.Bool) && !isKind(refdDocumentNode, reflect.Slice) {
		return errors'''), (S_, '''	if !isKind(documentNode, reflect.Map) {
		return errors.New(formatErrorDescription(
			Locale.ParseError(),
''', '''	if !isKind(documentNode, reflect.Map, reflect.Slice) {
		return errors.New(formatErrorDescription(
			Locale.ParseError(),
''')], D('demoCompiles(t, `{"x":[],"items":{"$ref":"#/x"}}`, false)'))
bug('C22-lookup-loop', 'C22', 'a fragment entry in itself', 'placeholder', [], '')
BUGS.pop()
