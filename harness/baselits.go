package main

// the literals of the source as it was (see lits.go)
var baseInts = []int{2, 4, 6, 7, 10, 53, 256}

var baseStrs = []string{"a", "\n", " %s %v", " %v", " From pool", "#", "$id", "$ref", "$schema", "%v", "(root)", ",", ", ", "-", ".", "/", "0", "15:04:05", "15:04:05Z07:00", "2006-01-02", ":", "Draft not set", "Get Document ( %s )", "Schema Reference ( %s )", "[%s]", "\\", "^(?:/(?:[^~/]|~0|~1)*)*$", "^([^{}]*({[^{}]*})?)*$", "^[0-9]{2}:[^,]*$", "additionalItems", "additionalProperties", "allOf", "allowed", "anyOf", "array", "array of schemas", "array of strings", "array_max_items", "array_max_properties", "array_min_items", "array_min_properties", "boolean", "bytes", "condition_else", "condition_then", "const", "contains", "context", "date", "date-time", "definitions", "dependencies", "dependency", "description", "e", "eE", "else", "email", "encoding/json", "enum", "error", "errors", "errors-new", "exclusiveMaximum", "exclusiveMinimum", "expected", "false", "field", "file://", "fmt", "format", "given", "hostname", "i", "id", "idn-email", "if", "integer", "internal", "invalid_property_name", "invalid_property_pattern", "invalid_type", "io", "io/ioutil", "ipv4", "ipv6", "iri", "iri-reference", "items", "j", "json-pointer", "key", "log", "math", "math/big", "max", "maxItems", "maxLength", "maxProperties", "maximum", "min", "minItems", "minLength", "minProperties", "minimum", "missing_dependency", "multiple", "multipleOf", "multiple_of", "net", "net/http", "net/mail", "net/url", "not", "null", "number", "number out of range", "number_all_of", "number_any_of", "number_gt", "number_gte", "number_lt", "number_lte", "number_not", "number_one_of", "object", "oneOf", "os", "path/filepath", "pattern", "patternProperties", "properties", "property", "propertyNames", "reference", "reflect", "regex", "regexp", "relative-json-pointer", "required", "runtime", "schema is invalid", "status", "strconv", "string", "string_gte", "string_lte", "strings", "sync", "text/template", "then", "time", "title", "type", "undefined", "unicode/utf8", "unique", "uniqueItems", "uri", "uri-reference", "uri-template", "uuid", "valid schema", "validateArray %s", "validateCommon %s", "validateNumber %s", "validateObject %s", "validateRecursive %s", "validateSchema %s", "validateString %s", "value", "windows", "x", "y"}
