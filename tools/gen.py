#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=note))

I = ["inputs"]
SUITE = "The test suite replays a few hundred fixed schema/instance pairs; "

prop("C01", "The type keyword accepts exactly the named JSON types",
 "An instance satisfies \"type\" exactly when its JSON type is the named one or one of the named list: null, boolean, string, array, object, number, or integer, where a number is an integer exactly when its value has no fractional part however it is written (1.0, 1e2, 10e-1). This holds for numbers of any size and at every place of a schema.",
 I, "for all type names and lists of them, all instances and all spellings of numbers",
 SUITE + "integer-ness depends on the spelling and size of the number, of which they use a handful.",
 ["validation.go", "utils.go", "schemaType.go", "types.go", "schema.go"],
 [("type list and membership", "schemaType.go"), ("type test of a node", "validation.go validateRecursive"), ("integer test", "utils.go checkJSONInteger")])
prop("C02", "Numeric bounds are exact at any magnitude",
 "minimum, maximum, exclusiveMinimum and exclusiveMaximum (numeric and, where the draft has it, boolean form) accept exactly the numbers that satisfy the mathematical inequality on the decimal values as written, without rounding, for any number of digits and any exponent. Values that are not numbers are unaffected, and several bounds in one schema all apply.",
 I, "for all pairs of decimal bounds and values, signs, fractions, exponents, and combinations of bounds",
 SUITE + "an off-by-one or a float64 comparison shows only for equal values or values beyond 2^53.",
 ["validation.go", "schema.go", "subSchema.go"],
 [("bound comparison with rationals", "validation.go validateNumber"), ("bounds parsing", "schema.go parseSchema")])
prop("C03", "multipleOf is exact decimal divisibility",
 "A number satisfies \"multipleOf\" exactly when dividing it by the divisor gives an integer in exact decimal arithmetic, for fractions, negative numbers, exponents and numbers beyond the precision of floating point. Values that are not numbers are unaffected.",
 I, "for all positive divisors and all numbers",
 SUITE + "floating-point shortcuts are right on nearly every small sample.",
 ["validation.go", "schema.go"], [("divisibility with rationals", "validation.go validateNumber")])
prop("C04", "String length counts characters and pattern is unanchored search",
 "minLength and maxLength accept exactly the strings whose number of Unicode code points (not bytes) is within the inclusive limits, and \"pattern\" accepts exactly the strings in which the regular expression matches somewhere. Values that are not strings are unaffected.",
 I, "for all limits, patterns and strings of 1 to 4 byte characters",
 SUITE + "byte/rune and off-by-one mistakes need particular lengths and characters.",
 ["validation.go", "schema.go"], [("string checks", "validation.go validateString"), ("length parsing", "schema.go parseSchema")])
prop("C05", "items, additionalItems and contains constrain the right elements",
 "With a single \"items\" schema every element must satisfy it; with a list the element at each position must satisfy the schema at that position and \"additionalItems\" (schema or boolean) governs exactly the elements beyond the list, having no effect otherwise. \"contains\" requires at least one element to satisfy its schema, so an empty array fails it; values that are not arrays are unaffected.",
 I, "for all item schemas, list lengths, additionalItems forms and arrays",
 SUITE + "position and boundary mistakes depend on the lengths of list and array.",
 ["validation.go", "schema.go"], [("positional item validation", "validation.go validateRecursive/validateArray"), ("items parsing", "schema.go parseSchema")])
prop("C06", "Array size limits and uniqueItems decide by value equality",
 "minItems and maxItems bound the number of elements inclusively, and \"uniqueItems\": true rejects an array exactly when two elements are equal as JSON values: numbers by mathematical value in any notation, objects regardless of member order, and different types never equal however they print. Values that are not arrays are unaffected.",
 I, "for all limits, arrays and pairs of elements",
 SUITE + "equality depends on the pair of values and positions chosen.",
 ["validation.go", "utils.go"], [("size and uniqueness", "validation.go validateArray"), ("canonical text of a value", "utils.go")])
prop("C07", "Every object member is governed by the right schemas",
 "A member named in \"properties\" must satisfy that schema, a member whose name matches patterns of \"patternProperties\" must satisfy every one of those schemas, and \"additionalProperties\" (schema or boolean) governs exactly the members that neither names nor matches. Absent members, unusual names and values that are not objects are unaffected.",
 I, "for all property names, overlapping patterns, additionalProperties forms and objects",
 SUITE + "the interplay depends on which names match which of several patterns.",
 ["validation.go", "schema.go"], [("member dispatch", "validation.go validateObject/validatePatternProperty"), ("parsing", "schema.go parseProperties/parsePatternProperties")])
prop("C08", "required, dependencies, propertyNames and object size decide correctly",
 "\"required\" rejects an object exactly when a listed member is absent (a null member is present), \"dependencies\" applies its names or schema exactly when the triggering member is present, \"propertyNames\" applies to every member name, and minProperties/maxProperties bound the number of members inclusively. Values that are not objects are unaffected.",
 I, "for all lists of names, dependencies, name schemas, limits and objects",
 SUITE + "each keyword is tried with a couple of objects.",
 ["validation.go", "schema.go"], [("object checks", "validation.go validateObject/validateCommon"), ("dependency parsing", "schema.go parseDependencies")])
prop("C09", "enum and const accept exactly the equal JSON values",
 "An instance satisfies \"enum\" exactly when it equals one of the listed values, and \"const\" exactly when it equals the given one, where equality is that of JSON values: numbers by mathematical value in any notation and size, strings by content, arrays by order, objects regardless of member order, and never across types. This also holds for values nested in arrays and objects.",
 I, "for all listed values and instances",
 SUITE + "an equality that confuses two particular values passes unless those two are sampled.",
 ["validation.go", "utils.go", "subSchema.go", "schema.go"], [("membership by canonical text", "validation.go validateCommon"), ("canonical text", "utils.go")])
prop("C10", "Combinators, conditions and boolean schemas follow Boolean logic",
 "An instance satisfies allOf when it satisfies all branches, anyOf at least one, oneOf exactly one, not exactly when it fails the negated schema, and if/then/else exactly the branch selected by the outcome of \"if\" (a missing branch accepts); true accepts and false rejects everything. This holds for any nesting, number of branches and neighbouring keywords, and for instances of every type including null.",
 I, "for all truth assignments of the branches, nestings and instances",
 SUITE + "they sample few of the truth assignments and few instance types.",
 ["validation.go", "schema.go", "subSchema.go"], [("combinators", "validation.go validateSchema"), ("boolean schemas", "validation.go validateRecursive")])
prop("C11", "A $ref decides like its target and dangling references are refused",
 "Wherever a schema may stand, {\"$ref\": ...} accepts exactly what the schema it points to accepts, ignoring keywords next to it, for JSON pointers with escapes and array indices, chains, shared targets and recursive schemas. A reference whose target does not exist makes compilation fail, and \"$ref\" as a property name or inside enum or const is not a reference.",
 ["inputs", "programs"], "for all places, pointers, targets and instances, including mutually recursive schemas",
 SUITE + "resolution depends on place, order and sharing of references.",
 ["schema.go", "schemaPool.go", "schemaReferencePool.go"], [("reference parsing", "schema.go parseReference"), ("pool lookup", "schemaPool.go GetDocument"), ("shared targets", "schemaReferencePool.go")])
prop("C12", "References resolve against the nearest enclosing identifier",
 "A relative $ref is resolved against the closest enclosing $id (id in draft 4), else against the URL of its document, also inside documents reached by reference and across schemas added under URLs; the identifier of one subschema never affects its neighbours. A subschema with an identifier is reachable by that URI from anywhere without fetching, and identifiers inside enum, const or naming a property have no such effect.",
 ["inputs", "programs"], "for all nestings of identifiers, relative forms and documents",
 SUITE + "scope handling depends on the nesting and on which documents are already known.",
 ["schemaPool.go", "schema.go", "schemaLoader.go"], [("identifier scopes", "schemaPool.go parseReferencesRecursive"), ("document lookup", "schemaPool.go GetDocument")])
prop("C13", "Each document is interpreted by the draft that applies to it",
 "The draft of a schema document is the one its $schema names when detection is on, otherwise the configured one (a document reached by reference that names none follows the one referring to it), and it decides which keywords apply and in which form (const, contains, propertyNames, if/then/else, numeric or boolean exclusive bounds, boolean schemas, id or $id), at every depth and per document when documents refer to each other. Without both, the union of all drafts applies.",
 ["inputs", "configurations"], "for all drafts, ways to choose them, draft-dependent keywords and places",
 SUITE + "they run each draft in isolation with detection at its default.",
 ["draft.go", "schema.go", "schemaLoader.go", "schemaPool.go"], [("draft detection", "draft.go parseSchemaURL"), ("keyword gating", "schema.go parseSchema"), ("draft per document", "schemaPool.go")])
prop("C14", "Schemas with a malformed keyword are refused, all others compile",
 "Compilation fails with an error, at any depth, whenever a keyword has a value of a kind it does not allow (wrong type, negative or fractional count, non-positive divisor, unknown type name, invalid regular expression, non-schema where a schema is needed, a lower length or property-count limit above the upper one), and succeeds for every well-formed schema. Keywords that are unknown are ignored.",
 I, "for all keywords, values and places",
 SUITE + "malformed schemas are a short fixed list.",
 ["schema.go", "schemaType.go", "utils.go"], [("keyword checks", "schema.go parseSchema"), ("integer checks", "utils.go")])
prop("C15", "No input makes compilation or validation panic",
 "For every JSON value or byte sequence given as schema or instance, in every draft and through every loader, compiling and validating return a result or an error and never panic, including strange references and identifiers, deep or mixed keyword combinations and numbers with huge exponents.",
 I, "for all JSON values and byte sequences as schema and instance",
 "A panic needs one particular malformed value under one particular keyword; tests use well-formed input almost only.",
 ["schema.go", "validation.go", "schemaPool.go", "jsonLoader.go", "utils.go", "schemaType.go", "draft.go"], [("type checks before assertions", "schema.go parseSchema"), ("number parsing", "utils.go")])
prop("C16", "Every reported error is true of the instance and points at it",
 "Each error of a failed validation names a constraint that the instance really violates at the reported place: its context is the path of an existing node, its value is that node, and its field is the path of the node (or of the missing or extra member). A valid result has no errors and an invalid one at least one.",
 I, "for all schemas and instances within the bounds, every error reported",
 "The tests compare error types for a few instances; context, field and value are nearly unchecked.",
 ["validation.go", "result.go", "errors.go", "jsonContext.go"], [("error construction", "result.go addInternalError"), ("context path", "jsonContext.go"), ("score of branches", "validation.go")])
prop("C17", "All violated constraints are reported in one run",
 "Validation does not stop at the first problem: every constraint outside of alternatives that the instance violates, at every member and element, is reported with its own error, also when other constraints of the same or other nodes are violated as well.",
 I, "for all sets of simultaneously violated constraints",
 "Tests use instances with one error each.",
 ["validation.go", "result.go"], [("collecting errors", "result.go addInternalError/mergeErrors"), ("validation order", "validation.go validateRecursive")])

exec(open(os.path.join(here, "tools", "more.py")).read())

BASE_NOTE = ("Bounded: every value of the symbolic inputs within the stated shapes is decided by the SMT solver on the "
 "go/ssa form of /repo's current source; nothing is claimed beyond the bounds in the evidence file. Trusted: the engine "
 "(models of fmt, strconv, math/big, regexp, encoding/json, net/url, text/template) and z3; each run also executes a model of every path "
 "on the compiled code and compares observations.")
TECH = "symbolic execution of the Go SSA of /repo with SMT (z3), counterexamples replayed on the compiled code"

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in NOT_APPLICABLE:
        na.append(dict(property=p["id"], reason=NOT_APPLICABLE[p["id"]]))
        continue
    checks.append(dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"],
        thorough_cmd="bash check.sh %s thorough" % p["id"], technique=TECH, level="model_checking",
        level_note=(p["note"] + " " if p["note"] else "") + BASE_NOTE))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="No hooks: the checks encode /repo's source as it is. Replay a violation with: bash replay.sh <file>."),
    open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
