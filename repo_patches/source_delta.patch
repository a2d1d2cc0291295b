From 3ab38e40c1b61a083adda460f7515468db79d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:25 +0000
Subject: [PATCH 01/17] fix: do not panic on a boolean "definitions"

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 9e93cd7..5fd0091 100644
--- a/schema.go
+++ b/schema.go
@@ -152,7 +152,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 
 	// definitions
 	if existsMapKey(m, KEY_DEFINITIONS) {
-		if isKind(m[KEY_DEFINITIONS], reflect.Map, reflect.Bool) {
+		if isKind(m[KEY_DEFINITIONS], reflect.Map) {
 			for _, dv := range m[KEY_DEFINITIONS].(map[string]interface{}) {
 				if isKind(dv, reflect.Map, reflect.Bool) {
 
-- 
2.43.0


From c168e48831880a9281b39862ad7558f08e17292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:25 +0000
Subject: [PATCH 02/17] fix: do not panic on a number in a "type" array

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 5fd0091..5d61a91 100644
--- a/schema.go
+++ b/schema.go
@@ -259,7 +259,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 			if isKind(m[KEY_TYPE], reflect.Slice) {
 				arrayOfTypes := m[KEY_TYPE].([]interface{})
 				for _, typeInArray := range arrayOfTypes {
-					if reflect.ValueOf(typeInArray).Kind() != reflect.String {
+					if !isKind(typeInArray, reflect.String) {
 						return errors.New(formatErrorDescription(
 							Locale.InvalidType(),
 							ErrorDetails{
-- 
2.43.0


From 7f0bd31e9583b7645baaafdb4698a2a58417095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:25 +0000
Subject: [PATCH 03/17] fix: ignore the siblings of a $ref that was already
 resolved, like those of a new one

---
 schema.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index 5d61a91..022b5e4 100644
--- a/schema.go
+++ b/schema.go
@@ -241,9 +241,10 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 			if err != nil {
 				return err
 			}
-
-			return nil
 		}
+
+		// All other properties of an object containing a $ref are ignored
+		return nil
 	}
 
 	// type
-- 
2.43.0


From 34fa3e2ddb04916d96d8348ed27dacbf7e9ba3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:25 +0000
Subject: [PATCH 04/17] fix: loading a metaschema must not change the settings
 of the schema loader

A metaschema that could not be loaded switched validation off for good, and
loading one replaced the file system used to resolve the remaining references.
---
 schemaLoader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schemaLoader.go b/schemaLoader.go
index 20db0c1..495e043 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -67,16 +67,19 @@ func (sl *SchemaLoader) validateMetaschema(documentNode interface{}) error {
 	}
 
 	//Disable validation when loading the metaschema to prevent an infinite recursive loop
+	//and keep the loader factory of the schema being compiled, it is needed to resolve its references
+	loaderFactory := sl.pool.jsonLoaderFactory
 	sl.Validate = false
 
 	metaSchema, err := sl.Compile(NewReferenceLoader(schema))
 
+	sl.Validate = true
+	sl.pool.jsonLoaderFactory = loaderFactory
+
 	if err != nil {
 		return err
 	}
 
-	sl.Validate = true
-
 	result := metaSchema.validateDocument(documentNode)
 
 	if !result.Valid() {
-- 
2.43.0


From 4e5d326382edbbe1e2ae1741650db6129e6f39a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:25 +0000
Subject: [PATCH 05/17] fix: do not detect the draft of a remote schema when
 AutoDetect is off

---
 schemaPool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index 35b1cc6..f098506 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -202,7 +202,9 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	// add the whole document to the pool for potential re-use
 	p.parseReferences(document, refToURL, true)
 
-	_, draft, _ = parseSchemaURL(document)
+	if *p.autoDetect {
+		_, draft, _ = parseSchemaURL(document)
+	}
 
 	// resolve the potential fragment and also cache it
 	document, _, err = reference.GetPointer().Get(document)
-- 
2.43.0


From 7e9dfe2df5c581ac5aa161c1e379df05823bf3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:25 +0000
Subject: [PATCH 06/17] fix: resolve references in definitions named like a
 keyword

---
 schemaPool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index f098506..8b6c1cc 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -122,7 +122,7 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 			}
 			// Something like a property or a dependency is not a valid schema, as it might describe properties named "$ref", "$id" or "const", etc
 			// Therefore don't treat it like a schema.
-			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES {
+			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES || k == KEY_DEFINITIONS {
 				if child, ok := v.(map[string]interface{}); ok {
 					for _, v := range child {
 						p.parseReferencesRecursive(v, *localRef, draft)
-- 
2.43.0


From 89cb522c92c7917e836da8800e2b02ed9c81e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:25 +0000
Subject: [PATCH 07/17] fix: keep a "+" in the path of a file reference

---
 jsonLoader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonLoader.go b/jsonLoader.go
index 5d88af2..7a1d9cd 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -146,7 +146,7 @@ func (l *jsonReferenceLoader) LoadJSON() (interface{}, error) {
 	if reference.HasFileScheme {
 
 		filename := strings.TrimPrefix(refToURL.String(), "file://")
-		filename, err = url.QueryUnescape(filename)
+		filename, err = url.PathUnescape(filename)
 
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 35605c4f92d437442e191a7ca5f77173c022d992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:25 +0000
Subject: [PATCH 08/17] fix: an IPv6 address with an embedded IPv4 address is
 not an IPv4 address

---
 format_checkers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format_checkers.go b/format_checkers.go
index 1e77046..6cc3ac7 100644
--- a/format_checkers.go
+++ b/format_checkers.go
@@ -207,7 +207,7 @@ func (f IPV4FormatChecker) IsFormat(input interface{}) bool {
 
 	// Credit: https://github.com/asaskevich/govalidator
 	ip := net.ParseIP(asString)
-	return ip != nil && strings.Contains(asString, ".")
+	return ip != nil && strings.Contains(asString, ".") && !strings.Contains(asString, ":")
 }
 
 // IsFormat checks if input is a correctly formatted IPv6=address
-- 
2.43.0


From aa5d6006e1d680ed48cbbb96c3b376851a452b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:25 +0000
Subject: [PATCH 09/17] fix: name the offending keyword in the errors about
 "allOf" and "propertyNames"

---
 schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index 022b5e4..962d475 100644
--- a/schema.go
+++ b/schema.go
@@ -363,7 +363,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 				Locale.InvalidType(),
 				ErrorDetails{
 					"expected": STRING_SCHEMA,
-					"given":    KEY_PATTERN_PROPERTIES,
+					"given":    KEY_PROPERTY_NAMES,
 				},
 			))
 		}
@@ -892,7 +892,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 		} else {
 			return errors.New(formatErrorDescription(
 				Locale.MustBeOfAn(),
-				ErrorDetails{"x": KEY_ANY_OF, "y": TYPE_ARRAY},
+				ErrorDetails{"x": KEY_ALL_OF, "y": TYPE_ARRAY},
 			))
 		}
 	}
-- 
2.43.0


From 4252d8f6f958a1a1968b82217f07ed3e3cd89dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:20 +0000
Subject: [PATCH 10/17] fix: a $ref to a location independent identifier must
 not resolve to the whole document

The identifiers of a document loaded on demand were only found once it had been
loaded, and unknown identifiers were silently ignored.
---
 schemaPool.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/schemaPool.go b/schemaPool.go
index 8b6c1cc..14096c6 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -168,7 +168,7 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	refToURL.GetUrl().Fragment = ""
 
 	if cachedSpd, ok := p.schemaPoolDocuments[refToURL.String()]; ok {
-		document, _, err := reference.GetPointer().Get(cachedSpd.Document)
+		document, err := getReferencedNode(reference, cachedSpd.Document)
 
 		if err != nil {
 			return nil, err
@@ -206,8 +206,13 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 		_, draft, _ = parseSchemaURL(document)
 	}
 
+	// the fragment might be a location independent identifier in the document that was just loaded
+	if spd, ok = p.schemaPoolDocuments[reference.String()]; ok {
+		return spd, nil
+	}
+
 	// resolve the potential fragment and also cache it
-	document, _, err = reference.GetPointer().Get(document)
+	document, err = getReferencedNode(reference, document)
 
 	if err != nil {
 		return nil, err
@@ -215,3 +220,13 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 
 	return &schemaPoolDocument{Document: document, Draft: draft}, nil
 }
+
+// getReferencedNode returns the part of the document the fragment of the reference points to
+func getReferencedNode(reference gojsonreference.JsonReference, document interface{}) (interface{}, error) {
+	// A fragment that is not a JSON pointer can only be a location independent identifier, which does not exist
+	if fragment := reference.GetUrl().Fragment; fragment != "" && fragment[0] != '/' {
+		return nil, fmt.Errorf("Reference not found: \"%s\"", reference.String())
+	}
+	node, _, err := reference.GetPointer().Get(document)
+	return node, err
+}
-- 
2.43.0


From a3450435eda40e50909bb12c04aefdb5c46a3888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:21 +0000
Subject: [PATCH 11/17] fix: do not panic on numbers with an exponent beyond
 the supported range

---
 schema.go     | 16 ++++++++--------
 utils.go      |  2 +-
 validation.go | 20 +++++++++++++++++++-
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/schema.go b/schema.go
index 962d475..a8d2ff5 100644
--- a/schema.go
+++ b/schema.go
@@ -509,8 +509,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 					currentSchema.exclusiveMinimum = currentSchema.minimum
 					currentSchema.minimum = nil
 				}
-			} else if isJSONNumber(m[KEY_EXCLUSIVE_MINIMUM]) {
-				currentSchema.exclusiveMinimum = mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM])
+			} else if exclusiveMinimumValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveMinimumValue != nil {
+				currentSchema.exclusiveMinimum = exclusiveMinimumValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -521,8 +521,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 				))
 			}
 		default:
-			if isJSONNumber(m[KEY_EXCLUSIVE_MINIMUM]) {
-				currentSchema.exclusiveMinimum = mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM])
+			if exclusiveMinimumValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveMinimumValue != nil {
+				currentSchema.exclusiveMinimum = exclusiveMinimumValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -580,8 +580,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 					currentSchema.exclusiveMaximum = currentSchema.maximum
 					currentSchema.maximum = nil
 				}
-			} else if isJSONNumber(m[KEY_EXCLUSIVE_MAXIMUM]) {
-				currentSchema.exclusiveMaximum = mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM])
+			} else if exclusiveMaximumValue := mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM]); exclusiveMaximumValue != nil {
+				currentSchema.exclusiveMaximum = exclusiveMaximumValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -592,8 +592,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 				))
 			}
 		default:
-			if isJSONNumber(m[KEY_EXCLUSIVE_MAXIMUM]) {
-				currentSchema.exclusiveMaximum = mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM])
+			if exclusiveMaximumValue := mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM]); exclusiveMaximumValue != nil {
+				currentSchema.exclusiveMaximum = exclusiveMaximumValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
diff --git a/utils.go b/utils.go
index a17d22e..9fd05d7 100644
--- a/utils.go
+++ b/utils.go
@@ -35,7 +35,7 @@ func isKind(what interface{}, kinds ...reflect.Kind) bool {
 	target := what
 	if isJSONNumber(what) {
 		// JSON Numbers are strings!
-		target = *mustBeNumber(what)
+		target = big.Rat{}
 	}
 	targetKind := reflect.ValueOf(target).Kind()
 	for _, kind := range kinds {
diff --git a/validation.go b/validation.go
index 9081bd9..2e92431 100644
--- a/validation.go
+++ b/validation.go
@@ -773,8 +773,26 @@ func (v *subSchema) validateNumber(currentSubSchema *subSchema, value interface{
 		internalLog(" %v", value)
 	}
 
+	if currentSubSchema.multipleOf == nil &&
+		currentSubSchema.maximum == nil && currentSubSchema.exclusiveMaximum == nil &&
+		currentSubSchema.minimum == nil && currentSubSchema.exclusiveMinimum == nil {
+		result.incrementScore()
+		return
+	}
+
 	number := value.(json.Number)
-	float64Value, _ := new(big.Rat).SetString(string(number))
+	float64Value, ok := new(big.Rat).SetString(string(number))
+	if !ok {
+		// e.g. the exponent is too large, so there is no way to tell whether the number satisfies the schema
+		result.addInternalError(
+			new(InternalError),
+			context,
+			number,
+			ErrorDetails{"error": "cannot evaluate number " + string(number)},
+		)
+		result.incrementScore()
+		return
+	}
 
 	// multipleOf:
 	if currentSubSchema.multipleOf != nil {
-- 
2.43.0


From a76c3abf446fba94d101e537bb0dd9a4374dbfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:23 +0000
Subject: [PATCH 12/17] fix: accept integers written with a fraction or an
 exponent, such as "minLength": 2.0

---
 utils.go | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/utils.go b/utils.go
index 9fd05d7..0c229b6 100644
--- a/utils.go
+++ b/utils.go
@@ -132,23 +132,11 @@ const (
 
 func mustBeInteger(what interface{}) *int {
 
-	if isJSONNumber(what) {
-
-		number := what.(json.Number)
-
-		isInt := checkJSONInteger(number)
-
-		if isInt {
-
-			int64Value, err := number.Int64()
-			if err != nil {
-				return nil
-			}
-
-			int32Value := int(int64Value)
-			return &int32Value
-		}
+	number := mustBeNumber(what)
 
+	if number != nil && number.IsInt() && number.Num().IsInt64() {
+		intValue := int(number.Num().Int64())
+		return &intValue
 	}
 
 	return nil
-- 
2.43.0


From 27ee0efda223169f72fbbda32048cf8a3c28b65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:39 +0000
Subject: [PATCH 13/17] fix: compare numbers exactly in "enum", "const" and
 "uniqueItems"

They were compared as float64: integers beyond 2^53 lost digits, 0 differed
from -0 and a number beyond the float64 range made the validation panic.
---
 utils.go      | 80 +++++++++++++++++++++++++++++++++++++++++++++++----
 validation.go |  9 +++---
 2 files changed, 78 insertions(+), 11 deletions(-)

diff --git a/utils.go b/utils.go
index 0c229b6..1e3c79e 100644
--- a/utils.go
+++ b/utils.go
@@ -29,6 +29,7 @@ import (
 	"encoding/json"
 	"math/big"
 	"reflect"
+	"strings"
 )
 
 func isKind(what interface{}, kinds ...reflect.Kind) bool {
@@ -85,22 +86,89 @@ func marshalWithoutNumber(value interface{}) (*string, error) {
 
 	// The JSON is decoded using https://golang.org/pkg/encoding/json/#Decoder.UseNumber
 	// This means the numbers are internally still represented as strings and therefore 1.00 is unequal to 1
-	// One way to eliminate these differences is to decode and encode the JSON one more time without Decoder.UseNumber
-	// so that these differences in representation are removed
+	// One way to eliminate these differences is to decode and encode the JSON one more time with every number
+	// in its canonical representation
 
 	jsonString, err := marshalToJSONString(value)
 	if err != nil {
 		return nil, err
 	}
 
-	var document interface{}
-
-	err = json.Unmarshal([]byte(*jsonString), &document)
+	document, err := decodeJSONUsingNumber(strings.NewReader(*jsonString))
 	if err != nil {
 		return nil, err
 	}
 
-	return marshalToJSONString(document)
+	return marshalToJSONString(canonicalNumbers(document))
+}
+
+// canonicalNumbers replaces the numbers in a document, in place, by their canonical representation
+func canonicalNumbers(document interface{}) interface{} {
+
+	switch node := document.(type) {
+
+	case json.Number:
+		return canonicalNumber(node)
+
+	case []interface{}:
+		for i, v := range node {
+			node[i] = canonicalNumbers(v)
+		}
+
+	case map[string]interface{}:
+		for k, v := range node {
+			node[k] = canonicalNumbers(v)
+		}
+	}
+
+	return document
+}
+
+// canonicalNumber returns the same, exact, representation for all the numbers that are equal to number
+func canonicalNumber(number json.Number) json.Number {
+
+	digits := string(number)
+	exponent := new(big.Int)
+
+	if i := strings.IndexAny(digits, "eE"); i >= 0 {
+		exponent.SetString(digits[i+1:], 10)
+		digits = digits[:i]
+	}
+
+	sign := ""
+	if strings.HasPrefix(digits, "-") {
+		sign = "-"
+		digits = digits[1:]
+	}
+
+	if i := strings.Index(digits, "."); i >= 0 {
+		exponent.Sub(exponent, big.NewInt(int64(len(digits)-i-1)))
+		digits = digits[:i] + digits[i+1:]
+	}
+
+	digits = strings.TrimLeft(digits, "0")
+	if digits == "" {
+		return "0"
+	}
+
+	trimmed := strings.TrimRight(digits, "0")
+	exponent.Add(exponent, big.NewInt(int64(len(digits)-len(trimmed))))
+	digits = trimmed
+
+	// the number now equals digits * 10^exponent
+	if !exponent.IsInt64() || exponent.Int64() < -20 || exponent.Int64() > 20 {
+		return json.Number(sign + digits + "e" + exponent.String())
+	}
+
+	shift := int(exponent.Int64())
+	if shift >= 0 {
+		return json.Number(sign + digits + strings.Repeat("0", shift))
+	}
+	if missing := 1 - shift - len(digits); missing > 0 {
+		digits = strings.Repeat("0", missing) + digits
+	}
+	point := len(digits) + shift
+	return json.Number(sign + digits[:point] + "." + digits[point:])
 }
 
 func isJSONNumber(what interface{}) bool {
diff --git a/validation.go b/validation.go
index 2e92431..fded861 100644
--- a/validation.go
+++ b/validation.go
@@ -410,8 +410,7 @@ func (v *subSchema) validateCommon(currentSubSchema *subSchema, value interface{
 		vString, err := marshalWithoutNumber(value)
 		if err != nil {
 			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
-		}
-		if *vString != *currentSubSchema._const {
+		} else if *vString != *currentSubSchema._const {
 			result.addInternalError(new(ConstError),
 				context,
 				value,
@@ -427,8 +426,7 @@ func (v *subSchema) validateCommon(currentSubSchema *subSchema, value interface{
 		vString, err := marshalWithoutNumber(value)
 		if err != nil {
 			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
-		}
-		if !isStringInSlice(currentSubSchema.enum, *vString) {
+		} else if !isStringInSlice(currentSubSchema.enum, *vString) {
 			result.addInternalError(
 				new(EnumError),
 				context,
@@ -532,7 +530,8 @@ func (v *subSchema) validateArray(currentSubSchema *subSchema, value []interface
 		for j, v := range value {
 			vString, err := marshalWithoutNumber(v)
 			if err != nil {
-				result.addInternalError(new(InternalError), context, value, ErrorDetails{"err": err})
+				result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
+				continue
 			}
 			if i, ok := stringifiedItems[*vString]; ok {
 				result.addInternalError(
-- 
2.43.0


From f1543b90afe9aac8b162f53e3f93c4152f06e4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:57 +0000
Subject: [PATCH 14/17] fix: reject one digit hours, comma fractions and out of
 range offsets in times

time.Parse tolerates "1:02:03", "01:02:03,5" and "01:02:03+24:60", which are
neither a "time" nor a "date-time".
---
 format_checkers.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/format_checkers.go b/format_checkers.go
index 6cc3ac7..349faff 100644
--- a/format_checkers.go
+++ b/format_checkers.go
@@ -141,6 +141,9 @@ var (
 
 	rxRelJSONPointer = regexp.MustCompile("^(?:0|[1-9][0-9]*)(?:#|(?:/(?:[^~/]|~0|~1)*)*)$")
 
+	// time.Parse also takes a one digit hour, a comma before the fraction of a second and an offset beyond 23:59
+	rxTime = regexp.MustCompile(`(^|T)\d{2}:\d{2}:\d{2}(\.\d+)?(Z|[+-]([01]\d|2[0-3]):[0-5]\d)?$`)
+
 	lock = new(sync.RWMutex)
 )
 
@@ -239,7 +242,7 @@ func (f DateTimeFormatChecker) IsFormat(input interface{}) bool {
 
 	for _, format := range formats {
 		if _, err := time.Parse(format, asString); err == nil {
-			return true
+			return format == "2006-01-02" || rxTime.MatchString(asString)
 		}
 	}
 
@@ -263,6 +266,10 @@ func (f TimeFormatChecker) IsFormat(input interface{}) bool {
 		return true
 	}
 
+	if !rxTime.MatchString(asString) {
+		return false
+	}
+
 	if _, err := time.Parse("15:04:05Z07:00", asString); err == nil {
 		return true
 	}
-- 
2.43.0


From 21bcd7ff12cc4ce4d7352bffe3224750dd863436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:16 +0000
Subject: [PATCH 15/17] fix: reject a source with data after its JSON document

"{} garbage" was loaded as {}.
---
 jsonLoader.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/jsonLoader.go b/jsonLoader.go
index 7a1d9cd..99de89d 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -200,7 +200,7 @@ func (l *jsonReferenceLoader) loadFromHTTP(address string) (interface{}, error)
 		return nil, err
 	}
 
-	return decodeJSONUsingNumber(bytes.NewReader(bodyBuff))
+	return decodeJSONDocument(bytes.NewReader(bodyBuff))
 }
 
 func (l *jsonReferenceLoader) loadFromFile(path string) (interface{}, error) {
@@ -215,7 +215,7 @@ func (l *jsonReferenceLoader) loadFromFile(path string) (interface{}, error) {
 		return nil, err
 	}
 
-	return decodeJSONUsingNumber(bytes.NewReader(bodyBuff))
+	return decodeJSONDocument(bytes.NewReader(bodyBuff))
 
 }
 
@@ -244,7 +244,7 @@ func NewStringLoader(source string) JSONLoader {
 
 func (l *jsonStringLoader) LoadJSON() (interface{}, error) {
 
-	return decodeJSONUsingNumber(strings.NewReader(l.JsonSource().(string)))
+	return decodeJSONDocument(strings.NewReader(l.JsonSource().(string)))
 
 }
 
@@ -272,7 +272,7 @@ func NewBytesLoader(source []byte) JSONLoader {
 }
 
 func (l *jsonBytesLoader) LoadJSON() (interface{}, error) {
-	return decodeJSONUsingNumber(bytes.NewReader(l.JsonSource().([]byte)))
+	return decodeJSONDocument(bytes.NewReader(l.JsonSource().([]byte)))
 }
 
 // JSON Go (types) loader
@@ -384,3 +384,24 @@ func decodeJSONUsingNumber(r io.Reader) (interface{}, error) {
 	return document, nil
 
 }
+
+// decodeJSONDocument decodes a source that must hold one JSON document and nothing else
+func decodeJSONDocument(r io.Reader) (interface{}, error) {
+
+	var document interface{}
+
+	decoder := json.NewDecoder(r)
+	decoder.UseNumber()
+
+	err := decoder.Decode(&document)
+	if err != nil {
+		return nil, err
+	}
+
+	if _, err = decoder.Token(); err != io.EOF {
+		return nil, errors.New("unexpected data after the JSON document")
+	}
+
+	return document, nil
+
+}
-- 
2.43.0


From 99cbb755efc2666b32e2ce61aaa71ee6d65d775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:35 +0000
Subject: [PATCH 16/17] fix: a schema that names no draft, referenced from two
 drafts, must not depend on the order of parsing

---
 schema.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index a8d2ff5..898c11b 100644
--- a/schema.go
+++ b/schema.go
@@ -31,6 +31,7 @@ import (
 	"math/big"
 	"reflect"
 	"regexp"
+	"strconv"
 	"text/template"
 
 	"github.com/xeipuuv/gojsonreference"
@@ -233,7 +234,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 
 		currentSchema.ref = &jsonReference
 
-		if sch, ok := d.referencePool.Get(currentSchema.ref.String()); ok {
+		if sch, ok := d.referencePool.Get(referencePoolKey(currentSchema)); ok {
 			currentSchema.refSchema = sch
 		} else {
 			err := d.parseReference(documentNode, currentSchema)
@@ -966,6 +967,12 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 	return nil
 }
 
+// A document that does not name its draft is parsed in the draft of the document referring
+// to it, so the schemas in the reference pool are kept apart by the draft of the referrer
+func referencePoolKey(currentSchema *subSchema) string {
+	return strconv.Itoa(int(*currentSchema.draft)) + " " + currentSchema.ref.String()
+}
+
 func (d *Schema) parseReference(documentNode interface{}, currentSchema *subSchema) error {
 	var (
 		refdDocumentNode interface{}
@@ -975,7 +982,7 @@ func (d *Schema) parseReference(documentNode interface{}, currentSchema *subSche
 
 	newSchema := &subSchema{property: KEY_REF, parent: currentSchema, ref: currentSchema.ref}
 
-	d.referencePool.Add(currentSchema.ref.String(), newSchema)
+	d.referencePool.Add(referencePoolKey(currentSchema), newSchema)
 
 	dsp, err = d.pool.GetDocument(*currentSchema.ref)
 	if err != nil {
-- 
2.43.0


From f18c31ad80080e400de9c2d65333f755c84b17f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:05 +0000
Subject: [PATCH 17/17] fix: more wrong member names must not make an
 alternative the closer one

The result of a propertyNames subschema was merged only for invalid names, so
its score counted them up and never down the way every other subschema does.
---
 validation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validation.go b/validation.go
index fded861..e88413b 100644
--- a/validation.go
+++ b/validation.go
@@ -669,8 +669,8 @@ func (v *subSchema) validateObject(currentSubSchema *subSchema, value map[string
 					value, ErrorDetails{
 						"property": pk,
 					})
-				result.mergeErrors(validationResult)
 			}
+			result.mergeErrors(validationResult)
 		}
 	}
 
-- 
2.43.0

