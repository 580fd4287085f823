#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SUITE = "The suite in testdata has a handful of hand-written documents per keyword"

p("C01", "Numeric keywords and integer typing are decided by exact decimal arithmetic",
  "For every JSON number, whatever its magnitude, precision or spelling (1, 1.0, 10e-1, 2^53+1, 1e400; exponents up to a million), type integer/number, minimum, maximum, exclusiveMinimum, exclusiveMaximum (boolean and numeric form) and multipleOf accept it exactly when its exact mathematical value satisfies the keyword. Values that are not numbers are never affected by these keywords.",
  ["inputs"], "every bound, every number (exponents up to a million), every spelling, every draft in which the keyword form exists",
  SUITE + " with small numbers; rounding, sign, equality-at-the-bound and spelling errors only show for particular bound/value pairs.",
  ["validation.go", "schema.go", "utils.go"], [("arbitrary precision rationals", "validation.go validateNumber"), ("bound parsing", "schema.go parseSchema"), ("integer test", "utils.go checkJSONInteger")],
  ["Schema.Validate result and errors"])
p("C02", "String length counts Unicode code points and patterns are unanchored RE2",
  "For every string, minLength and maxLength compare the number of Unicode code points with an inclusive bound, and pattern accepts exactly the strings in which its RE2 regular expression matches anywhere. Values that are not strings are never affected, and property names checked through propertyNames are measured the same way.",
  ["inputs"], "every string (ASCII, multi-byte, astral, combining, control, escaped, long), every bound and pattern",
  SUITE + " with one two-character emoji; byte/UTF-16/grapheme confusion, off-by-one and anchoring errors need particular strings.",
  ["validation.go", "schema.go"], [("rune counting", "validation.go validateString"), ("regexp compilation", "schema.go parseSchema")], ["Schema.Validate result and errors"])
p("C03", "const, enum and uniqueItems use exact JSON equality",
  "const accepts exactly the values JSON-equal to it, enum exactly the values JSON-equal to one of its members, and uniqueItems exactly the arrays without two JSON-equal elements. JSON equality compares numbers by mathematical value, strings by code points, arrays element by element in order, objects by key/value set regardless of key order, and never identifies values of different types.",
  ["inputs"], "every pair of JSON values, at any depth inside the compared values, every enum/array size",
  SUITE + "; equality has to hold for all pairs of values, including large numbers, spellings, nested containers and near misses.",
  ["validation.go", "utils.go", "schema.go"], [("canonical serialisation", "utils.go marshalWithoutNumber"), ("membership", "validation.go validateCommon, validateArray")], ["Schema.Validate result and errors"])
p("C04", "Array keywords govern exactly the elements and counts they name",
  "items applies to every element (schema form) or to the element at the same position (list form), additionalItems applies exactly to the elements beyond the list form and is ignored otherwise, minItems/maxItems are inclusive bounds on the number of elements, and contains requires at least one matching element. Values that are not arrays are never affected.",
  ["inputs"], "every array length relative to the lists and bounds, every element mix, every nesting",
  SUITE + " with arrays of up to four elements; positional errors need particular lengths and positions of the offending element.",
  ["validation.go", "schema.go"], [("element walk", "validation.go validateArray"), ("item schemas", "schema.go parseSchema")], ["Schema.Validate result and errors"])
p("C05", "Object keywords govern exactly the properties they name",
  "properties applies to the same-named members, patternProperties to every member whose name matches (all matching patterns), additionalProperties exactly to members covered by neither, propertyNames to every name, dependencies (list or schema) only when the trigger is present, and required, minProperties and maxProperties count presence (also of null values). Values that are not objects are never affected.",
  ["inputs"], "every set of member names (empty, unicode, dots, slashes, keyword-like), overlaps between properties and patterns, every count",
  SUITE + "; the interaction of names, patterns and additional members is combinatorial.",
  ["validation.go", "schema.go"], [("member walk", "validation.go validateObject, validatePatternProperty, validateRecursive"), ("dependency parsing", "schema.go parseDependencies")], ["Schema.Validate result and errors"])
p("C06", "Applicators form the boolean algebra of their subschemas at any nesting",
  "A document is accepted by allOf iff every branch accepts it, anyOf iff at least one does, oneOf iff exactly one does, not iff its schema rejects it; if/then/else applies then exactly when if accepts and else exactly when it rejects, and boolean schemas accept everything or nothing. This holds at any nesting depth and number of branches, next to any sibling keywords, and a failing branch never leaks errors into an accepted result.",
  ["inputs", "programs"], "every composition of applicators, every truth assignment of the branches, any branch count",
  SUITE + " with two or three branches at depth one; truth tables over nested applicators are not enumerated.",
  ["validation.go", "schema.go"], [("branch evaluation", "validation.go validateSchema, subValidateWithContext"), ("boolean schemas", "validation.go validateRecursive")], ["Schema.Validate result and errors"])
p("C07", "A document is valid exactly when every keyword at every location is satisfied",
  "For every schema of draft-04, draft-06 or draft-07 (or the merged hybrid mode) and every JSON document, validation succeeds exactly when the document satisfies the conjunction of all active keywords at every location, each keyword constraining only the value types it is defined for and type accepting exactly the listed types (integers are numbers). Unknown keywords, annotations and keywords of other drafts constrain nothing.",
  ["inputs", "programs"], "every schema mixing all keywords, references and nesting, and every document, large and small",
  "The suite tests keywords one at a time; the verdict for arbitrary combinations, sizes and nestings is never compared with an independent evaluation.",
  ["validation.go", "schema.go", "schemaType.go", "utils.go"], [("recursive walk", "validation.go validateRecursive"), ("type set", "schemaType.go")], ["Schema.Validate result"])
p("C08", "References resolve to the schema their absolute URI identifies",
  "Every $ref - JSON pointer fragment (escaped, percent-encoded, through arrays), identifier of the draft in force, relative or absolute URI under nested base URIs, recursive, or into documents added to the loader or fetched by file, HTTP or a custom file system - behaves exactly as the schema it designates written in its place, with the designated schema's own base URI for its inner references. A reference that designates nothing makes compilation fail, siblings of $ref constrain nothing, and $ref/$id-looking members inside const, enum or property names are plain data.",
  ["inputs", "programs"], "every reference graph over several documents, identifier layout, spelling of the reference and order of loading",
  "TestSuite and a few unit tests cover about thirty fixed reference layouts; resolution depends on the whole graph and on the order documents enter the pool.",
  ["schemaPool.go", "schemaReferencePool.go", "schema.go", "schemaLoader.go", "jsonLoader.go"], [("identifier scan and reference rewriting", "schemaPool.go parseReferencesRecursive"), ("lookup", "schemaPool.go GetDocument"), ("sharing of compiled references", "schemaReferencePool.go")], ["SchemaLoader.Compile error", "Schema.Validate result"])
p("C09", "The draft in force follows $schema, AutoDetect and Draft, per document",
  "With autodetection on, every document (root, added or fetched) that declares a known $schema is read in that draft - also when entered through a fragment - and a document without one is read in the draft of the schema that refers to it, ultimately the loader's Draft (hybrid by default); with autodetection off the loader's Draft governs everything. Draft-specific keywords and forms (const, contains, propertyNames, boolean schemas, if/then/else, exclusive limits, id versus $id) are active exactly in their drafts.",
  ["configurations", "inputs"], "all drafts x AutoDetect x $schema spellings x cross-draft reference chains x draft-specific keywords",
  "TestSchemaDetection and TestDraftCrossReferencing probe one keyword; the matrix of configurations is not covered.",
  ["draft.go", "schemaLoader.go", "schemaPool.go", "schema.go"], [("detection", "draft.go parseSchemaURL"), ("draft inheritance", "schema.go parseSchema, parseReference")], ["SchemaLoader.Compile error", "Schema.Validate result"])
p("C10", "Malformed schemas are refused, well-formed schemas are accepted",
  "Compiling fails with an error and yields no schema whenever an active keyword anywhere in the schema (any depth, also in definitions and referenced documents) has a value of the wrong type or outside its range - including invalid regular expressions, unknown or duplicated types, duplicated required/enum members, negative counts, non-positive multipleOf, contradictory length/property ranges, draft-04 exclusive limits without limit and unresolvable references. Every well-formed schema (counts within 64-bit range, also spelled 2.0 or 2e0) compiles, regardless of ill-formed content in places that are not schema keywords, and always with the same outcome.",
  ["inputs", "programs"], "every keyword x malformed value x location x draft",
  "The unit tests contain one malformed pattern and one unresolvable reference.",
  ["schema.go", "schemaType.go", "utils.go", "draft.go"], [("keyword checks", "schema.go parseSchema, parseProperties, parseDependencies, parseReference")], ["NewSchema / SchemaLoader.Compile return values"])
p("C11", "With validation on, no schema enters unless its meta-schema accepts it",
  "While Validate is set, Compile, AddSchema and AddSchemas return an error exactly when the schema is rejected by its meta-schema (the declared $schema, possibly a custom one known to the loader, otherwise the one of the selected draft) or is otherwise malformed, a refused added schema is not referencable, and schemas in hybrid mode without $schema are not checked. This holds for every history of earlier successful and failed calls on the same loader; no call changes Validate, AutoDetect or Draft.",
  ["inputs", "histories", "configurations"], "every schema, every sequence of loader calls with valid, invalid and unloadable schemas",
  "TestCustomMetaSchema makes two calls; the suite only compiles valid schemas.",
  ["schemaLoader.go", "draft.go"], [("meta-schema gate", "schemaLoader.go validateMetaschema, AddSchemas, AddSchema, Compile"), ("embedded meta-schemas", "draft.go")], ["return values of the loader methods", "loader fields after each call"],
  [("Validate", "gate switch, toggled internally", "schemaLoader.go")])
p("C12", "The loader serves known documents itself, fetches others once, keeps the first",
  "A document added under a URL or its own identifier, and the three official meta-schemas, are never fetched; any other referenced document is fetched at most once per loader through the root loader's file system or HTTP, only if some reference needs it. Adding or compiling a document under an identifier that is already taken returns an error and never changes what the identifier designates.",
  ["histories", "inputs"], "every sequence of AddSchema/AddSchemas/Compile calls over a web of documents, every reference graph, file/HTTP/custom file system",
  "One unit test checks a duplicated id; no test counts fetches.",
  ["schemaPool.go", "schemaLoader.go", "jsonLoader.go", "draft.go"], [("document pool", "schemaPool.go GetDocument, parseReferences"), ("meta-schema cache", "jsonLoader.go loadFromHTTP")], ["requests seen by file system / HTTP transport", "return values", "Schema.Validate result"],
  [("pool", "documents by absolute URI", "schemaPool.go")])
p("C13", "Load failures surface as errors, leak nothing and are not remembered",
  "If opening, reading, decoding or fetching any document (as schema, referenced schema or instance) fails at any point, the call returns an error and no schema or result - never a panic and never a partial result - and every file and HTTP response body that was opened is closed again, on success and on failure. After the fault is gone the same loader, asked again for the same schema URL, behaves as if it had never failed.",
  ["fault_sequences", "inputs"], "every fault (open, read after n bytes, truncation, HTTP status, transport error) at every document of every reference graph",
  "No test injects a fault or watches file handles or response bodies.",
  ["jsonLoader.go", "schemaPool.go", "schemaLoader.go"], [("file loading", "jsonLoader.go loadFromFile"), ("HTTP loading", "jsonLoader.go loadFromHTTP"), ("pool insertion after load", "schemaPool.go GetDocument")], ["open/close events of file system and transport stand-ins", "return values"])
p("C14", "All loaders deliver the same JSON value, numbers intact",
  "The same JSON text delivered as string, bytes, reader, writer, file, custom file system, HTTP or already decoded value - as schema or as document; objects of a document also as a YAML decoder gives them - yields the same value, with numbers kept exactly as written, and the same validation outcome; a Go value is equivalent to its JSON encoding. Text that does not start with a JSON value is refused by every loader, the reader and writer wrappers pass all bytes through unchanged, and a loader does not alter its source.",
  ["inputs", "configurations"], "every JSON text (escapes, whitespace, spellings, sizes, file names) x every loader x schema/document role",
  "TestLoaders loads one schema through three loaders and does not validate anything.",
  ["jsonLoader.go"], [("common decoder", "jsonLoader.go decodeJSONUsingNumber"), ("tee wrappers", "jsonLoader.go NewReaderLoader, NewWriterLoader"), ("URL to path", "jsonLoader.go LoadJSON")], ["LoadJSON value", "Schema.Validate result", "bytes passed through"])
p("C15", "The reported errors are exactly the violations, located and detailed truthfully",
  "A result is valid exactly when it lists no errors, and each violated keyword of an evaluated schema is reported exactly once (a value of the wrong type gets only the type error) with the documented error type, the context path from the root to the offending value (member names and indexes), Field being that path without the root, the offending value itself, and the documented details (limits, missing or additional property, duplicate positions, expected/given type, allowed values) matching schema and document. Nothing that holds is reported.",
  ["inputs", "programs"], "every schema and every document, any nesting",
  "Two unit tests look at the type or text of an error; all others only at validity.",
  ["validation.go", "errors.go", "result.go", "jsonContext.go"], [("error construction", "errors.go newError"), ("merging", "result.go mergeErrors, addInternalError"), ("paths", "jsonContext.go")], ["Result.Errors()"])
p("C16", "Failed anyOf/oneOf/contains/conditionals explain with the right branch's errors",
  "When anyOf fails, oneOf fails with no matching branch, or contains fails, the result carries the keyword's error plus exactly the errors of one branch (element) - the closest match, the first of equals - and no other branch's; when oneOf fails because several branches match, only the keyword's error is added. A failed then/else adds the errors of that branch, allOf the errors of every failing branch, and not, a passing anyOf/oneOf, or the if schema add none.",
  ["inputs", "programs"], "every set of branches with every distribution of failures, nested",
  "No test inspects which branch's errors are reported.",
  ["validation.go", "result.go"], [("score", "result.go incrementScore, addInternalError, mergeErrors"), ("selection", "validation.go validateSchema, validateArray")], ["Result.Errors()"])
p("C17", "Error texts are rendered from the current locale with the error's own details",
  "Every error's description is its description format - the one the current Locale gives for its type - rendered as a text/template with its details (custom template functions included), every placeholder being filled, and its string form is the locale's error format over field, description, context and value. An error added to a result is rendered the same way, makes the result invalid and leaves the other errors unchanged.",
  ["inputs", "configurations"], "every error type and content (template-like and markup-like values), every locale, custom functions, any order of first use",
  "One unit test compares one English sentence; no test sets a locale, template functions or adds an error.",
  ["errors.go", "locales.go", "result.go"], [("template cache", "errors.go formatErrorDescription"), ("locale", "locales.go"), ("AddError", "result.go")], ["Description, DescriptionFormat, String, Details of reported errors"])
p("C18", "Built-in formats accept exactly the strings of their documented grammar",
  "Each built-in format accepts every string its documented grammar allows and rejects every string outside it: exactly for date, time, date-time (RFC 3339 parts, two-digit fields, real calendar dates), hostname, ipv4, ipv6, uuid, regex (RE2), json-pointer and relative-json-pointer; for email, uri, uri-reference, uri-template and their internationalised twins on unambiguous strings. Values that are not strings satisfy every built-in format, and an unknown format accepts everything.",
  ["inputs"], "every string near the grammar of every format, every other JSON value",
  "The optional format suite has a few strings per format.",
  ["format_checkers.go"], [("checkers", "format_checkers.go"), ("dispatch", "validation.go validateCommon")], ["Schema.Validate result with format", "FormatCheckers.IsFormat"])
p("C19", "The format registry is linearizable and dispatches to the current checker",
  "Add, Remove, Has and format checks behave as atomic operations on one map from name to checker, under any concurrent use: a check uses the checker most recently added under the name, or accepts everything if there is none, and affects no other name; a checker may itself use the registry. A custom checker is consulted once per evaluated location with exactly the document value (numbers in their exact textual form), of any type, and its answer decides.",
  ["schedules", "histories", "inputs"], "every interleaving of registry operations and validations, every sequence of add/override/remove",
  "TestCustomFormat adds and removes five checkers from a single goroutine.",
  ["format_checkers.go", "validation.go"], [("read/write lock", "format_checkers.go Add, Remove, Has, IsFormat")], ["call/return history of registry operations", "values received by custom checkers"],
  [("formatters", "name to checker", "format_checkers.go")])
p("C20", "Compiled schemas are safe for concurrent use, free of data races",
  "Any number of goroutines may validate documents against shared compiled schemas, compile other schemas with their own loaders, render and add errors, and change the format registry at the same time without a data race, crash or deadlock. Every concurrent call returns the same outcome and the same errors as the same call made alone.",
  ["schedules"], "every interleaving of validations, compilations, first-time and cached error rendering and registry changes",
  "No test starts a second validating goroutine and the suite does not run under the race detector.",
  ["validation.go", "errors.go", "format_checkers.go", "result.go", "schema.go"], [("immutable compiled schema", "schema.go, subSchema.go"), ("template lock", "errors.go"), ("registry lock", "format_checkers.go")], ["race detector reports", "results per goroutine"])
p("C21", "Validation is pure: deterministic, history-free and without side effects",
  "Validating the same document against the same schema always gives the same validity and the same set of errors, however often, in whatever order among other validations, compilations and loader calls, and however often the schema is recompiled. Validation never modifies the document or the compiled schema, and a result once returned never changes by itself.",
  ["histories", "inputs"], "every history of validations and loader calls, every map iteration order",
  "Every test validates a document once.",
  ["validation.go", "schema.go", "result.go", "schemaPool.go"], [("no state in compiled schemas", "validation.go"), ("fresh result per call", "validation.go validateDocument")], ["results before and after", "document before and after"])
p("C22", "Compiling and validating terminate without panicking on any JSON input",
  "For every JSON value used as a schema and every JSON value used as a document, in every draft mode, compiling returns either a schema or an error and validating returns a result whose errors can all be read and printed; neither panics, crashes the process nor runs forever. Only schemas whose references form a cycle that never descends into the document, whose meaning JSON Schema leaves undefined, are excepted.",
  ["inputs"], "every JSON value in every keyword position, extreme numbers, deep nesting, large sizes, arbitrary reference strings",
  "The tests use well-formed inputs; one malformed pattern and one dangling reference are tried.",
  ["schema.go", "validation.go", "utils.go", "schemaPool.go", "draft.go"], [("kind checks before type assertions", "utils.go isKind, mustBeInteger, mustBeNumber"), ("reference pool against recursion", "schemaReferencePool.go")], ["panics, process exits and progress of worker processes"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
