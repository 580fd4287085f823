From 6b25ff7bcc13dedeec48a3a92bf9e2f823c7d1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:11 +0000
Subject: [PATCH 01/20] fix: compare const, enum and uniqueItems values by
 exact number

Numbers were compared as float64: distinct numbers that round to the same
float64 were taken as equal, 0 and -0 as different, and a number out of the
range of float64 caused a nil pointer dereference.
---
 utils.go      | 72 ++++++++++++++++++++++++++++++++++++++++++++++-----
 validation.go |  9 +++----
 2 files changed, 70 insertions(+), 11 deletions(-)

diff --git a/utils.go b/utils.go
index a17d22e..730c5c0 100644
--- a/utils.go
+++ b/utils.go
@@ -29,6 +29,7 @@ import (
 	"encoding/json"
 	"math/big"
 	"reflect"
+	"strings"
 )
 
 func isKind(what interface{}, kinds ...reflect.Kind) bool {
@@ -85,22 +86,81 @@ func marshalWithoutNumber(value interface{}) (*string, error) {
 
 	// The JSON is decoded using https://golang.org/pkg/encoding/json/#Decoder.UseNumber
 	// This means the numbers are internally still represented as strings and therefore 1.00 is unequal to 1
-	// One way to eliminate these differences is to decode and encode the JSON one more time without Decoder.UseNumber
-	// so that these differences in representation are removed
+	// To eliminate these differences every number is replaced by a canonical representation of its exact value.
+	// Decoding them as float64 instead would make distinct numbers equal and fails for numbers out of its range
 
 	jsonString, err := marshalToJSONString(value)
 	if err != nil {
 		return nil, err
 	}
 
-	var document interface{}
-
-	err = json.Unmarshal([]byte(*jsonString), &document)
+	document, err := decodeJSONUsingNumber(strings.NewReader(*jsonString))
 	if err != nil {
 		return nil, err
 	}
 
-	return marshalToJSONString(document)
+	return marshalToJSONString(canonicalizeNumbers(document))
+}
+
+func canonicalizeNumbers(value interface{}) interface{} {
+
+	switch v := value.(type) {
+	case json.Number:
+		return canonicalNumber(v)
+	case []interface{}:
+		for i := range v {
+			v[i] = canonicalizeNumbers(v[i])
+		}
+	case map[string]interface{}:
+		for k := range v {
+			v[k] = canonicalizeNumbers(v[k])
+		}
+	}
+
+	return value
+}
+
+// canonicalNumber returns the same representation for all numbers with the same value, and only for those
+func canonicalNumber(number json.Number) json.Number {
+
+	canonical := normalizeDecimal(string(number))
+
+	// Prefer the usual representation if it denotes exactly the same number
+	if f, err := number.Float64(); err == nil && f != 0 {
+		if s, err := marshalToJSONString(f); err == nil && normalizeDecimal(*s) == canonical {
+			return json.Number(*s)
+		}
+	}
+
+	return json.Number(canonical)
+}
+
+// normalizeDecimal writes a JSON number as an integer without trailing zeros and a power of ten
+func normalizeDecimal(s string) string {
+
+	sign, exponent := "", new(big.Int)
+
+	if strings.HasPrefix(s, "-") {
+		sign, s = "-", s[1:]
+	}
+	if i := strings.IndexAny(s, "eE"); i >= 0 {
+		exponent.SetString(s[i+1:], 10)
+		s = s[:i]
+	}
+	if i := strings.IndexByte(s, '.'); i >= 0 {
+		exponent.Sub(exponent, big.NewInt(int64(len(s)-i-1)))
+		s = s[:i] + s[i+1:]
+	}
+
+	s = strings.TrimLeft(s, "0")
+	if s == "" {
+		return "0"
+	}
+
+	digits := strings.TrimRight(s, "0")
+	exponent.Add(exponent, big.NewInt(int64(len(s)-len(digits))))
+
+	return sign + digits + "e" + exponent.String()
 }
 
 func isJSONNumber(what interface{}) bool {
diff --git a/validation.go b/validation.go
index 9081bd9..50792b2 100644
--- a/validation.go
+++ b/validation.go
@@ -410,8 +410,7 @@ func (v *subSchema) validateCommon(currentSubSchema *subSchema, value interface{
 		vString, err := marshalWithoutNumber(value)
 		if err != nil {
 			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
-		}
-		if *vString != *currentSubSchema._const {
+		} else if *vString != *currentSubSchema._const {
 			result.addInternalError(new(ConstError),
 				context,
 				value,
@@ -427,8 +426,7 @@ func (v *subSchema) validateCommon(currentSubSchema *subSchema, value interface{
 		vString, err := marshalWithoutNumber(value)
 		if err != nil {
 			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
-		}
-		if !isStringInSlice(currentSubSchema.enum, *vString) {
+		} else if !isStringInSlice(currentSubSchema.enum, *vString) {
 			result.addInternalError(
 				new(EnumError),
 				context,
@@ -532,7 +530,8 @@ func (v *subSchema) validateArray(currentSubSchema *subSchema, value []interface
 		for j, v := range value {
 			vString, err := marshalWithoutNumber(v)
 			if err != nil {
-				result.addInternalError(new(InternalError), context, value, ErrorDetails{"err": err})
+				result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
+				continue
 			}
 			if i, ok := stringifiedItems[*vString]; ok {
 				result.addInternalError(
-- 
2.43.0


From 36bee446e52b17986f274ab0ebc6e55f70a84500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:44 +0000
Subject: [PATCH 02/20] fix: reject a boolean as the value of definitions
 instead of panicking

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 9e93cd7..5fd0091 100644
--- a/schema.go
+++ b/schema.go
@@ -152,7 +152,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 
 	// definitions
 	if existsMapKey(m, KEY_DEFINITIONS) {
-		if isKind(m[KEY_DEFINITIONS], reflect.Map, reflect.Bool) {
+		if isKind(m[KEY_DEFINITIONS], reflect.Map) {
 			for _, dv := range m[KEY_DEFINITIONS].(map[string]interface{}) {
 				if isKind(dv, reflect.Map, reflect.Bool) {
 
-- 
2.43.0


From 317720e66416cbfb6510d4e2a53c376b481ec69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:46 +0000
Subject: [PATCH 03/20] fix: reject a number in a list of types instead of
 panicking

A json.Number is of kind string, but it is not a string.
---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 5fd0091..5d61a91 100644
--- a/schema.go
+++ b/schema.go
@@ -259,7 +259,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 			if isKind(m[KEY_TYPE], reflect.Slice) {
 				arrayOfTypes := m[KEY_TYPE].([]interface{})
 				for _, typeInArray := range arrayOfTypes {
-					if reflect.ValueOf(typeInArray).Kind() != reflect.String {
+					if !isKind(typeInArray, reflect.String) {
 						return errors.New(formatErrorDescription(
 							Locale.InvalidType(),
 							ErrorDetails{
-- 
2.43.0


From d3d465c1e079940a5eaf1cd984f9d339485a75dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:47 +0000
Subject: [PATCH 04/20] fix: do not panic on numbers with an exponent that
 math/big refuses

Such a number dereferenced a nil pointer wherever its kind or its value was
looked at, and was silently dropped as an exclusive limit.
---
 schema.go     | 16 ++++++++--------
 utils.go      |  2 +-
 validation.go | 18 +++++++++++++++++-
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/schema.go b/schema.go
index 5d61a91..a63a09d 100644
--- a/schema.go
+++ b/schema.go
@@ -508,8 +508,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 					currentSchema.exclusiveMinimum = currentSchema.minimum
 					currentSchema.minimum = nil
 				}
-			} else if isJSONNumber(m[KEY_EXCLUSIVE_MINIMUM]) {
-				currentSchema.exclusiveMinimum = mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM])
+			} else if exclusiveMinimumValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveMinimumValue != nil {
+				currentSchema.exclusiveMinimum = exclusiveMinimumValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -520,8 +520,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 				))
 			}
 		default:
-			if isJSONNumber(m[KEY_EXCLUSIVE_MINIMUM]) {
-				currentSchema.exclusiveMinimum = mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM])
+			if exclusiveMinimumValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveMinimumValue != nil {
+				currentSchema.exclusiveMinimum = exclusiveMinimumValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -579,8 +579,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 					currentSchema.exclusiveMaximum = currentSchema.maximum
 					currentSchema.maximum = nil
 				}
-			} else if isJSONNumber(m[KEY_EXCLUSIVE_MAXIMUM]) {
-				currentSchema.exclusiveMaximum = mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM])
+			} else if exclusiveMaximumValue := mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM]); exclusiveMaximumValue != nil {
+				currentSchema.exclusiveMaximum = exclusiveMaximumValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -591,8 +591,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 				))
 			}
 		default:
-			if isJSONNumber(m[KEY_EXCLUSIVE_MAXIMUM]) {
-				currentSchema.exclusiveMaximum = mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM])
+			if exclusiveMaximumValue := mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM]); exclusiveMaximumValue != nil {
+				currentSchema.exclusiveMaximum = exclusiveMaximumValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
diff --git a/utils.go b/utils.go
index 730c5c0..212c896 100644
--- a/utils.go
+++ b/utils.go
@@ -36,7 +36,7 @@ func isKind(what interface{}, kinds ...reflect.Kind) bool {
 	target := what
 	if isJSONNumber(what) {
 		// JSON Numbers are strings!
-		target = *mustBeNumber(what)
+		target = big.Rat{}
 	}
 	targetKind := reflect.ValueOf(target).Kind()
 	for _, kind := range kinds {
diff --git a/validation.go b/validation.go
index 50792b2..fc573e2 100644
--- a/validation.go
+++ b/validation.go
@@ -773,7 +773,23 @@ func (v *subSchema) validateNumber(currentSubSchema *subSchema, value interface{
 	}
 
 	number := value.(json.Number)
-	float64Value, _ := new(big.Rat).SetString(string(number))
+	float64Value, ok := new(big.Rat).SetString(string(number))
+
+	// math/big refuses exponents that are too large. Nothing can be said about such a number,
+	// which only matters if there is something to say
+	if !ok {
+		if currentSubSchema.multipleOf != nil ||
+			currentSubSchema.maximum != nil || currentSubSchema.exclusiveMaximum != nil ||
+			currentSubSchema.minimum != nil || currentSubSchema.exclusiveMinimum != nil {
+			result.addInternalError(
+				new(InternalError),
+				context,
+				number,
+				ErrorDetails{"error": "number out of range"},
+			)
+		}
+		return
+	}
 
 	// multipleOf:
 	if currentSubSchema.multipleOf != nil {
-- 
2.43.0


From e36f34ec6808a20d5c6ef0dd8cf4220d9a7fe8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:49 +0000
Subject: [PATCH 05/20] fix: accept integers with a zero fraction or an
 exponent as limits

{"maxLength": 2.0} was refused as not being an integer.
---
 utils.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/utils.go b/utils.go
index 212c896..681ae3b 100644
--- a/utils.go
+++ b/utils.go
@@ -194,18 +194,12 @@ func mustBeInteger(what interface{}) *int {
 
 	if isJSONNumber(what) {
 
-		number := what.(json.Number)
-
-		isInt := checkJSONInteger(number)
-
-		if isInt {
+		// json.Number.Int64 only knows integers without fraction and exponent, but 2.0 and 2e0 are integers as well
+		number := mustBeNumber(what)
 
-			int64Value, err := number.Int64()
-			if err != nil {
-				return nil
-			}
+		if number != nil && number.IsInt() && number.Num().IsInt64() {
 
-			int32Value := int(int64Value)
+			int32Value := int(number.Num().Int64())
 			return &int32Value
 		}
 
-- 
2.43.0


From 25044549879fef222406227e26e0d45686849b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:10 +0000
Subject: [PATCH 06/20] fix: keep meta-schema validation on after a meta-schema
 failed to load

---
 schemaLoader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schemaLoader.go b/schemaLoader.go
index 20db0c1..6a2aba0 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -71,12 +71,12 @@ func (sl *SchemaLoader) validateMetaschema(documentNode interface{}) error {
 
 	metaSchema, err := sl.Compile(NewReferenceLoader(schema))
 
+	sl.Validate = true
+
 	if err != nil {
 		return err
 	}
 
-	sl.Validate = true
-
 	result := metaSchema.validateDocument(documentNode)
 
 	if !result.Valid() {
-- 
2.43.0


From 1cd15e1f2a8a581fb61b2da07a8bebae08ddbbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:12 +0000
Subject: [PATCH 07/20] fix: load references with the factory of the root
 schema when validating

With meta-schema validation on, the references of a schema that was loaded
from a custom file system were looked up in the file system of the OS.
---
 schemaLoader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schemaLoader.go b/schemaLoader.go
index 6a2aba0..d09632e 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -69,8 +69,12 @@ func (sl *SchemaLoader) validateMetaschema(documentNode interface{}) error {
 	//Disable validation when loading the metaschema to prevent an infinite recursive loop
 	sl.Validate = false
 
+	// Compiling the metaschema replaces the factory of the schema that is being validated
+	jsonLoaderFactory := sl.pool.jsonLoaderFactory
+
 	metaSchema, err := sl.Compile(NewReferenceLoader(schema))
 
+	sl.pool.jsonLoaderFactory = jsonLoaderFactory
 	sl.Validate = true
 
 	if err != nil {
-- 
2.43.0


From 092b4cc26e4d9425d108aea5678d7dcf7d9f2f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 08/20] fix: do not detect the draft of loaded documents if
 AutoDetect is off

---
 schemaPool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index 35b1cc6..f098506 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -202,7 +202,9 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	// add the whole document to the pool for potential re-use
 	p.parseReferences(document, refToURL, true)
 
-	_, draft, _ = parseSchemaURL(document)
+	if *p.autoDetect {
+		_, draft, _ = parseSchemaURL(document)
+	}
 
 	// resolve the potential fragment and also cache it
 	document, _, err = reference.GetPointer().Get(document)
-- 
2.43.0


From edab20bbfd6c156f3a2f8806011db904c0fcff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:16 +0000
Subject: [PATCH 09/20] fix: close the body of HTTP responses

---
 jsonLoader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonLoader.go b/jsonLoader.go
index 5d88af2..0209941 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -189,6 +189,7 @@ func (l *jsonReferenceLoader) loadFromHTTP(address string) (interface{}, error)
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// must return HTTP Status 200 OK
 	if resp.StatusCode != http.StatusOK {
-- 
2.43.0


From 1234b0359eae87dc1a466ed1942a7527d9fdd96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:18 +0000
Subject: [PATCH 10/20] fix: load files with a plus sign in their path

---
 jsonLoader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonLoader.go b/jsonLoader.go
index 0209941..81175fc 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -146,7 +146,7 @@ func (l *jsonReferenceLoader) LoadJSON() (interface{}, error) {
 	if reference.HasFileScheme {
 
 		filename := strings.TrimPrefix(refToURL.String(), "file://")
-		filename, err = url.QueryUnescape(filename)
+		filename, err = url.PathUnescape(filename)
 
 		if err != nil {
 			return nil, err
-- 
2.43.0


From ce59dd5f2d8fd9a867b48b99deccf7af5666e88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:20 +0000
Subject: [PATCH 11/20] fix: always ignore the siblings of $ref when compiling

They were parsed, and could fail, only if the same reference was met before,
which depends on the random iteration order of maps.
---
 schema.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/schema.go b/schema.go
index a63a09d..2dfa67a 100644
--- a/schema.go
+++ b/schema.go
@@ -233,17 +233,13 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 
 		currentSchema.ref = &jsonReference
 
+		// All other keywords are ignored in the presence of a $ref
 		if sch, ok := d.referencePool.Get(currentSchema.ref.String()); ok {
 			currentSchema.refSchema = sch
-		} else {
-			err := d.parseReference(documentNode, currentSchema)
-
-			if err != nil {
-				return err
-			}
-
 			return nil
 		}
+
+		return d.parseReference(documentNode, currentSchema)
 	}
 
 	// type
-- 
2.43.0


From 236f9936823c0ec62996945f8ab138e2887b73e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:55 +0000
Subject: [PATCH 12/20] fix: resolve location independent identifiers of a
 document that is loaded

The first reference to such an identifier resolved to the whole document.
---
 schemaPool.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schemaPool.go b/schemaPool.go
index f098506..6b8c7d6 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -202,6 +202,11 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	// add the whole document to the pool for potential re-use
 	p.parseReferences(document, refToURL, true)
 
+	// The fragment can be a location independent identifier of the document that was just loaded
+	if spd, ok = p.schemaPoolDocuments[reference.String()]; ok {
+		return spd, nil
+	}
+
 	if *p.autoDetect {
 		_, draft, _ = parseSchemaURL(document)
 	}
-- 
2.43.0


From 6a691ef883d0cfa99f19ed7f08b72309cb07febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:57 +0000
Subject: [PATCH 13/20] fix: refuse references to identifiers that do not exist

A fragment that is neither a known identifier nor a JSON pointer resolved to
the whole document.
---
 schemaPool.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/schemaPool.go b/schemaPool.go
index 6b8c7d6..eb32b79 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -30,6 +30,7 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
+	"strings"
 
 	"github.com/xeipuuv/gojsonreference"
 )
@@ -168,7 +169,7 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	refToURL.GetUrl().Fragment = ""
 
 	if cachedSpd, ok := p.schemaPoolDocuments[refToURL.String()]; ok {
-		document, _, err := reference.GetPointer().Get(cachedSpd.Document)
+		document, err := resolveFragment(reference, cachedSpd.Document)
 
 		if err != nil {
 			return nil, err
@@ -212,7 +213,7 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	}
 
 	// resolve the potential fragment and also cache it
-	document, _, err = reference.GetPointer().Get(document)
+	document, err = resolveFragment(reference, document)
 
 	if err != nil {
 		return nil, err
@@ -220,3 +221,16 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 
 	return &schemaPoolDocument{Document: document, Draft: draft}, nil
 }
+
+// resolveFragment returns the part of the document that the fragment of a reference points to
+func resolveFragment(reference gojsonreference.JsonReference, document interface{}) (interface{}, error) {
+
+	// A fragment that is not a JSON pointer yields an empty pointer, which is the whole document
+	if fragment := reference.GetUrl().Fragment; fragment != "" && !strings.HasPrefix(fragment, "/") {
+		return nil, fmt.Errorf("Reference does not exist: \"%s\"", reference.String())
+	}
+
+	node, _, err := reference.GetPointer().Get(document)
+
+	return node, err
+}
-- 
2.43.0


From 3231c69304831aabb229621edb7ac866c1fe6abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 14/20] fix: resolve references in definitions that are named
 like a keyword

The references in a definition called const, enum, properties, dependencies or
patternProperties were not resolved, nor were its identifiers known.
---
 schemaPool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index eb32b79..9f4e384 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -123,7 +123,7 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 			}
 			// Something like a property or a dependency is not a valid schema, as it might describe properties named "$ref", "$id" or "const", etc
 			// Therefore don't treat it like a schema.
-			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES {
+			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES || k == KEY_DEFINITIONS {
 				if child, ok := v.(map[string]interface{}); ok {
 					for _, v := range child {
 						p.parseReferencesRecursive(v, *localRef, draft)
-- 
2.43.0


From 530857ce76f22ac9521007e9847e26381a9a9f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:00 +0000
Subject: [PATCH 15/20] fix: an IPv6 address with an embedded IPv4 address is
 not an IPv4 address

---
 format_checkers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format_checkers.go b/format_checkers.go
index 1e77046..6cc3ac7 100644
--- a/format_checkers.go
+++ b/format_checkers.go
@@ -207,7 +207,7 @@ func (f IPV4FormatChecker) IsFormat(input interface{}) bool {
 
 	// Credit: https://github.com/asaskevich/govalidator
 	ip := net.ParseIP(asString)
-	return ip != nil && strings.Contains(asString, ".")
+	return ip != nil && strings.Contains(asString, ".") && !strings.Contains(asString, ":")
 }
 
 // IsFormat checks if input is a correctly formatted IPv6=address
-- 
2.43.0


From 2c2b4ac5cbc63168d56c336aabab107b67cb7ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:02 +0000
Subject: [PATCH 16/20] fix: reject times with a single digit hour or a decimal
 comma

time.Parse accepts both, RFC3339 does not.
---
 format_checkers.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/format_checkers.go b/format_checkers.go
index 6cc3ac7..a6baf12 100644
--- a/format_checkers.go
+++ b/format_checkers.go
@@ -135,6 +135,10 @@ var (
 	// Use a regex to make sure curly brackets are balanced properly after validating it as a AURI
 	rxURITemplate = regexp.MustCompile("^([^{]*({[^}]*})?)*$")
 
+	// time.Parse also accepts hours of a single digit and a comma as the decimal separator
+	rxTime     = regexp.MustCompile(`^[0-9]{2}:[^,]*$`)
+	rxDateTime = regexp.MustCompile(`^([0-9]{4}-[0-9]{2}-[0-9]{2}$|([0-9]{4}-[0-9]{2}-[0-9]{2}T)?[0-9]{2}:[^,]*$)`)
+
 	rxUUID = regexp.MustCompile("^(?i)[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}$")
 
 	rxJSONPointer = regexp.MustCompile("^(?:/(?:[^~/]|~0|~1)*)*$")
@@ -229,6 +233,10 @@ func (f DateTimeFormatChecker) IsFormat(input interface{}) bool {
 		return true
 	}
 
+	if !rxDateTime.MatchString(asString) {
+		return false
+	}
+
 	formats := []string{
 		"15:04:05",
 		"15:04:05Z07:00",
@@ -263,6 +271,10 @@ func (f TimeFormatChecker) IsFormat(input interface{}) bool {
 		return true
 	}
 
+	if !rxTime.MatchString(asString) {
+		return false
+	}
+
 	if _, err := time.Parse("15:04:05Z07:00", asString); err == nil {
 		return true
 	}
-- 
2.43.0


From 62a59e37f69aabd13856cb93734ac53930824298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:03 +0000
Subject: [PATCH 17/20] fix: detect the draft of a root schema that is
 referenced by a fragment

---
 schemaLoader.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/schemaLoader.go b/schemaLoader.go
index d09632e..5dd7945 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -162,7 +162,10 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 	d.documentReference = ref
 	d.referencePool = newSchemaReferencePool()
 
-	var doc interface{}
+	var (
+		doc           interface{}
+		documentDraft *Draft
+	)
 	if ref.String() != "" {
 		// Get document from schema pool
 		spd, err := d.pool.GetDocument(d.documentReference)
@@ -170,6 +173,7 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 			return nil, err
 		}
 		doc = spd.Document
+		documentDraft = spd.Draft
 	} else {
 		// Load JSON directly
 		doc, err = rootSchema.LoadJSON()
@@ -198,6 +202,9 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 		}
 		if detectedDraft != nil {
 			draft = *detectedDraft
+		} else if documentDraft != nil {
+			// Part of a document that specifies its draft
+			draft = *documentDraft
 		}
 	}
 
-- 
2.43.0


From d818ab3e0f8fc145fcf6d435e73f74eea998afbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:05 +0000
Subject: [PATCH 18/20] fix: do not panic if AddError is called without details

---
 result.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/result.go b/result.go
index 0a01791..56c310d 100644
--- a/result.go
+++ b/result.go
@@ -194,6 +194,9 @@ func (v *Result) Errors() []ResultError {
 // AddError appends a fully filled error to the error set
 // SetDescription() will be called with the result of the parsed err.DescriptionFormat()
 func (v *Result) AddError(err ResultError, details ErrorDetails) {
+	if details == nil {
+		details = ErrorDetails{}
+	}
 	if _, exists := details["context"]; !exists && err.Context() != nil {
 		details["context"] = err.Context().String()
 	}
-- 
2.43.0


From 01bf963f8075595e776c3fc3322bfa865fba5b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:22 +0000
Subject: [PATCH 19/20] fix: identify schemas by the keyword of their draft

An unknown keyword id in a draft 6 or 7 schema (or $id in a draft 4
schema) changed the base URI of references.
---
 schemaLoader.go |  1 +
 schemaPool.go   | 30 ++++++++++++++++++++++++++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/schemaLoader.go b/schemaLoader.go
index 5dd7945..ea4f643 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -41,6 +41,7 @@ func NewSchemaLoader() *SchemaLoader {
 		Draft:      Hybrid,
 	}
 	ps.pool.autoDetect = &ps.AutoDetect
+	ps.pool.draft = &ps.Draft
 
 	return ps
 }
diff --git a/schemaPool.go b/schemaPool.go
index 9f4e384..29abc45 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -44,6 +44,7 @@ type schemaPool struct {
 	schemaPoolDocuments map[string]*schemaPoolDocument
 	jsonLoaderFactory   JSONLoaderFactory
 	autoDetect          *bool
+	draft               *Draft
 }
 
 func (p *schemaPool) parseReferences(document interface{}, ref gojsonreference.JsonReference, pooled bool) error {
@@ -89,10 +90,7 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 	case map[string]interface{}:
 		localRef := &ref
 
-		keyID := KEY_ID_NEW
-		if existsMapKey(m, KEY_ID) {
-			keyID = KEY_ID
-		}
+		keyID := p.keyID(m, draft)
 		if existsMapKey(m, keyID) && isKind(m[keyID], reflect.String) {
 			jsonReference, err := gojsonreference.NewJsonReference(m[keyID].(string))
 			if err == nil {
@@ -137,6 +135,30 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 	return nil
 }
 
+// keyID returns the keyword that identifies a schema, which was renamed in draft 6
+func (p *schemaPool) keyID(m map[string]interface{}, draft *Draft) string {
+
+	if draft == nil && !*p.autoDetect {
+		draft = p.draft
+	}
+
+	if draft != nil {
+		switch *draft {
+		case Draft4:
+			return KEY_ID
+		case Draft6, Draft7:
+			return KEY_ID_NEW
+		}
+	}
+
+	// The draft is not known (yet) or is a mix of all drafts, which uses the old id by default
+	if existsMapKey(m, KEY_ID) {
+		return KEY_ID
+	}
+
+	return KEY_ID_NEW
+}
+
 func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*schemaPoolDocument, error) {
 
 	var (
-- 
2.43.0


From 0873ea6645be852e74f33cf7f2098bda8649dc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:53 +0000
Subject: [PATCH 20/20] fix: check the curly brackets of the whole URI template

Only the decoded path was checked, so that unbalanced brackets in the
query were accepted and percent-encoded brackets were refused.
---
 format_checkers.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/format_checkers.go b/format_checkers.go
index a6baf12..ac410c7 100644
--- a/format_checkers.go
+++ b/format_checkers.go
@@ -133,7 +133,7 @@ var (
 	rxHostname = regexp.MustCompile(`^([a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9\-]{0,61}[a-zA-Z0-9])(\.([a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9\-]{0,61}[a-zA-Z0-9]))*$`)
 
 	// Use a regex to make sure curly brackets are balanced properly after validating it as a AURI
-	rxURITemplate = regexp.MustCompile("^([^{]*({[^}]*})?)*$")
+	rxURITemplate = regexp.MustCompile("^([^{}]*({[^{}]*})?)*$")
 
 	// time.Parse also accepts hours of a single digit and a comma as the decimal separator
 	rxTime     = regexp.MustCompile(`^[0-9]{2}:[^,]*$`)
@@ -317,12 +317,13 @@ func (f URITemplateFormatChecker) IsFormat(input interface{}) bool {
 		return true
 	}
 
-	u, err := url.Parse(asString)
+	_, err := url.Parse(asString)
 	if err != nil || strings.Contains(asString, `\`) {
 		return false
 	}
 
-	return rxURITemplate.MatchString(u.Path)
+	// Not just the path, which moreover has its percent-encoded brackets decoded
+	return rxURITemplate.MatchString(asString)
 }
 
 // IsFormat checks if input is a correctly formatted hostname
-- 
2.43.0

