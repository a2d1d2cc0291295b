bug("c01-float-integer", "C01", "utils.go",
"	return isValidNumber && bigFloat.IsInt()\n",
"	if !isValidNumber {\n		return false\n	}\n	f, _ := bigFloat.Float64()\n	return f == math.Trunc(f)\n",
'''func TestDemo(t *testing.T) {
	valid(t, `{"type":"integer"}`, `3.5`, false)
	valid(t, `{"type":"integer"}`, `9007199254740993.5`, false)
}''', "a fractional number beyond the precision of float64", "a number with a fraction counts as an integer",
more=[("utils.go", '	"encoding/json"\n', '	"encoding/json"\n	"math"\n')])

bug("c02-float-max", "C02", "validation.go",
"		if float64Value.Cmp(currentSubSchema.maximum) == 1 {",
"		value, _ := float64Value.Float64()\n		limit, _ := currentSubSchema.maximum.Float64()\n		if value > limit {",
'''func TestDemo(t *testing.T) {
	valid(t, `{"maximum":10}`, `10.1`, false)
	valid(t, `{"maximum":9007199254740992}`, `9007199254740993`, false)
}''', "a value above the maximum by less than float64 can tell", "maximum accepts a greater number")

bug("c06-long-items", "C06", "validation.go",
"			if i, ok := stringifiedItems[*vString]; ok {",
"			if len(*vString) > 64 {\n				*vString = (*vString)[:64]\n			}\n			if i, ok := stringifiedItems[*vString]; ok {",
'''func TestDemo(t *testing.T) {
	a := strings.Repeat("x", 80)
	valid(t, `{"uniqueItems":true}`, `["`+a+`1","`+a+`1"]`, false)
	valid(t, `{"uniqueItems":true}`, `["`+a+`1","`+a+`2"]`, true)
}''', "two items with a common prefix of 64 bytes", "uniqueItems rejects different items", imports=["strings"])

bug("c07-fold", "C07", "validation.go",
"			if pk == spValue.property {",
"			if strings.EqualFold(pk, spValue.property) {",
'''func TestDemo(t *testing.T) {
	valid(t, `{"properties":{"a":{}},"additionalProperties":false}`, `{"a":1}`, true)
	valid(t, `{"properties":{"a":{}},"additionalProperties":false}`, `{"A":1}`, false)
}''', "a member that differs from a listed one in case only", "additionalProperties does not govern the member")

bug("c08-null-dependency", "C08", "validation.go",
"							if _, dependencyResolved := currentNode.(map[string]interface{})[dependOnKey]; !dependencyResolved {",
"							if needed := currentNode.(map[string]interface{})[dependOnKey]; needed == nil {",
'''func TestDemo(t *testing.T) {
	valid(t, `{"dependencies":{"a":["b"]}}`, `{"a":1}`, false)
	valid(t, `{"dependencies":{"a":["b"]}}`, `{"a":1,"b":null}`, true)
}''', "the needed member is present with the value null", "dependencies rejects an object that has the member")

bug("c11-case", "C11", "schemaReferencePool.go",
"	p.documents[ref] = sch\n",
"	p.documents[strings.ToLower(ref)] = sch\n",
'''func TestDemo(t *testing.T) {
	s := `{"definitions":{"a":{"type":"string"},"A":{"type":"number"}},"items":[{"$ref":"#/definitions/a"},{"$ref":"#/definitions/A"}]}`
	valid(t, s, `["x",1]`, true)
	valid(t, s, `["x","x"]`, false)
}''', "two targets whose pointers differ in case only", "the second reference decides like the first target",
more=[("schemaReferencePool.go", "	if sch, ok := p.documents[ref]; ok {", "	if sch, ok := p.documents[strings.ToLower(ref)]; ok {"),
      ("schemaReferencePool.go", 'import (\n	"fmt"\n)', 'import (\n	"fmt"\n	"strings"\n)')])

bug("c13-cached-draft", "C13", "schemaPool.go",
"		spd = &schemaPoolDocument{Document: document, Draft: cachedSpd.Draft}\n		p.schemaPoolDocuments[reference.String()] = spd\n",
"		spd = &schemaPoolDocument{Document: document}\n		p.schemaPoolDocuments[reference.String()] = spd\n",
'''func TestDemo(t *testing.T) {
	sl := NewSchemaLoader()
	if err := sl.AddSchema("http://h/t.json", NewStringLoader(`{"$schema":"http://json-schema.org/draft-04/schema#","definitions":{"d":{"const":1}}}`)); err != nil {
		t.Fatal(err)
	}
	s, err := sl.Compile(NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#","$ref":"http://h/t.json#/definitions/d"}`))
	if err != nil {
		t.Fatal(err)
	}
	r, err := s.Validate(NewStringLoader(`2`))
	if err != nil || !r.Valid() {
		t.Error("const applies in draft 4", err)
	}
}''', "a reference with a fragment into a known document of another draft", "the target is interpreted in the draft of the referring document")

bug("c14-zero-multiple", "C14", "schema.go",
"		if multipleOfValue.Cmp(big.NewRat(0, 1)) <= 0 {",
"		if multipleOfValue.Cmp(big.NewRat(0, 1)) < 0 {",
'''func TestDemo(t *testing.T) {
	if _, err := NewSchema(NewStringLoader(`{"multipleOf":0}`)); err == nil {
		t.Error("accepted")
	}
}''', "multipleOf is zero", "a malformed schema compiles")

bug("c16-index", "C16", "validation.go",
"					for i := nbItems; i != nbValues; i++ {\n						subContext := NewJsonContext(strconv.Itoa(i), context)",
"					for i := nbItems; i != nbValues; i++ {\n						subContext := NewJsonContext(strconv.Itoa(i-nbItems), context)",
'''func TestDemo(t *testing.T) {
	r, err := must(t, `{"items":[{}],"additionalItems":{"type":"string"}}`).Validate(NewStringLoader(`[0,1]`))
	if err != nil {
		t.Fatal(err)
	}
	if len(r.Errors()) != 1 || r.Errors()[0].Context().String() != "(root).1" {
		t.Error(r.Errors())
	}
}''', "an element beyond the item list fails additionalItems", "the error points at another element")

bug("c17-required", "C17", "validation.go",
'				ErrorDetails{"property": requiredProperty},\n			)\n',
'				ErrorDetails{"property": requiredProperty},\n			)\n			break\n',
'''func TestDemo(t *testing.T) {
	r, err := must(t, `{"required":["a","b"]}`).Validate(NewStringLoader(`{}`))
	if err != nil {
		t.Fatal(err)
	}
	if len(r.Errors()) != 2 {
		t.Error(r.Errors())
	}
}''', "two required members are missing", "only the first one is reported")

bug("c12-not-scope", "C12", "schemaPool.go",
"				p.parseReferencesRecursive(v, *localRef, draft)\n			}\n		}\n	}\n	return nil",
"				if k == KEY_NOT {\n					p.parseReferencesRecursive(v, ref, draft)\n				} else {\n					p.parseReferencesRecursive(v, *localRef, draft)\n				}\n			}\n		}\n	}\n	return nil",
'''func TestDemo(t *testing.T) {
	sl := NewSchemaLoader()
	for _, u := range []string{"http://h/x/t.json", "http://h/y/t.json"} {
		if err := sl.AddSchema(u, NewStringLoader(`{"const":"`+u+`"}`)); err != nil {
			t.Fatal(err)
		}
	}
	s, err := sl.Compile(NewStringLoader(`{"$id":"http://h/x/s.json","items":{"$id":"../y/s.json","not":{"$ref":"t.json"}}}`))
	if err != nil {
		t.Fatal(err)
	}
	r, err := s.Validate(NewStringLoader(`["http://h/y/t.json"]`))
	if err != nil || r.Valid() {
		t.Error("the reference is resolved against another identifier", err)
	}
}''', "a relative reference below \"not\" in a subschema that has its own identifier", "the reference is resolved against the outer identifier")

bug("c15-count", "C15", "validation.go",
"				castCurrentNode := currentNode.([]interface{})\n",
"				castCurrentNode := currentNode.([]interface{})\n				if len(castCurrentNode) > 2 && currentSubSchema.minItems != nil {\n					_ = castCurrentNode[*currentSubSchema.minItems-1]\n				}\n",
'''func TestDemo(t *testing.T) {
	valid(t, `{"minItems":0}`, `[1,2,3]`, true)
}''', "minItems is zero and the array has three elements", "validation panics")

bug("c18-pattern", "C18", "validation.go",
"			validationResult := pv.subValidateWithContext(value, subContext)\n			result.mergeErrors(validationResult)",
"			validationResult := pv.subValidateWithContext(value, subContext)\n			result.mergeErrors(validationResult)\n			if !validationResult.Valid() {\n				break\n			}",
'''func TestDemo(t *testing.T) {
	s := must(t, `{"patternProperties":{"a":{"minimum":6},"^a":{"maximum":4}}}`)
	for k := 0; k < 50; k++ {
		r, err := s.Validate(NewStringLoader(`{"a":5}`))
		if err != nil || len(r.Errors()) != 2 {
			t.Fatal(r.Errors(), err)
		}
	}
}''', "a member that fails the schemas of two patterns", "one of the two errors is reported, at random")

bug("c19-zero", "C19", "validation.go",
"			stringifiedItems[*vString] = j",
"			stringifiedItems[*vString] = j\n			if n, ok := v.(json.Number); ok && n == \"-0\" {\n				value[j] = json.Number(\"0\")\n			}",
'''func TestDemo(t *testing.T) {
	v := []interface{}{json.Number("1"), json.Number("-0")}
	r, err := must(t, `{"uniqueItems":true}`).Validate(NewRawLoader(v))
	if err != nil || !r.Valid() || v[1] != json.Number("-0") {
		t.Error(v, err)
	}
}''', "a minus zero in an array with unique items", "validation changes the instance", imports=["encoding/json"])

bug("c20-fold", "C20", "format_checkers.go",
"	f, ok := c.formatters[name]\n	lock.RUnlock()\n\n	// If",
"	f, ok := c.formatters[name]\n	if !ok {\n		f, ok = c.formatters[strings.ToLower(name)]\n	}\n	lock.RUnlock()\n\n	// If",
'''func TestDemo(t *testing.T) {
	valid(t, `{"format":"ipv4"}`, `"x"`, false)
	valid(t, `{"format":"IPv4"}`, `"x"`, true)
}''', "a format name that differs from a registered one in case only", "an unregistered format rejects values")

bug("c21-uuid", "C21", "format_checkers.go",
"[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}$",
"[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}\\\\s?$",
'''func TestDemo(t *testing.T) {
	valid(t, `{"format":"uuid"}`, `"00000000-0000-0000-0000-000000000000"`, true)
	valid(t, `{"format":"uuid"}`, `"00000000-0000-0000-0000-000000000000 "`, false)
}''', "a blank behind the last digit", "format uuid accepts it")

bug("c22-v4mapped", "C22", "format_checkers.go",
"ip != nil && strings.Contains(asString, \":\")",
"ip != nil && ip.To4() == nil && strings.Contains(asString, \":\")",
'''func TestDemo(t *testing.T) {
	valid(t, `{"format":"ipv6"}`, `"::1"`, true)
	valid(t, `{"format":"ipv6"}`, `"::ffff:1.2.3.4"`, true)
}''', "an IPv6 address that maps an IPv4 address", "format ipv6 rejects it")

bug("c23-false", "C23", "schemaPool.go",
"	if _, ok := p.schemaPoolDocuments[reference]; pooled && ok {",
"	if _, ok := p.schemaPoolDocuments[reference]; pooled && ok && document != false {",
'''func TestDemo(t *testing.T) {
	sl := NewSchemaLoader()
	if err := sl.AddSchema("http://h/s", NewStringLoader(`true`)); err != nil {
		t.Fatal(err)
	}
	if err := sl.AddSchema("http://h/s", NewStringLoader(`false`)); err == nil {
		t.Error("a taken URL is given to another schema")
	}
}''', "the schema false is added under a URL that is taken", "it replaces the first schema")

bug("c24-auto", "C24", "schemaLoader.go",
"	if sl.Validate {\n		if err := sl.validateMetaschema(doc); err != nil {\n			return err\n		}\n	}\n\n	return sl.pool.parseReferences(doc, ref, true)",
"	if sl.Validate && sl.AutoDetect {\n		if err := sl.validateMetaschema(doc); err != nil {\n			return err\n		}\n	}\n\n	return sl.pool.parseReferences(doc, ref, true)",
'''func TestDemo(t *testing.T) {
	for _, auto := range []bool{true, false} {
		sl := NewSchemaLoader()
		sl.Validate, sl.AutoDetect, sl.Draft = true, auto, Draft7
		if err := sl.AddSchema("http://h/s", NewStringLoader(`{"readOnly":1}`)); err == nil {
			t.Error("accepted", auto)
		}
	}
}''', "AddSchema with the check on and the detection of drafts off", "a schema that breaks the metaschema is accepted")

bug("c25-bytes", "C25", "jsonLoader.go",
"	return &jsonGoLoader{source: source}",
"	if b, ok := source.([]byte); ok {\n		source = string(b)\n	}\n	return &jsonGoLoader{source: source}",
'''func TestDemo(t *testing.T) {
	v, err := NewGoLoader([]byte("abc")).LoadJSON()
	if err != nil || v != "YWJj" {
		t.Error(v, err)
	}
}''', "a Go value that is a slice of bytes", "it is loaded as another string than the one it marshals to")

bug("c26-2xx", "C26", "jsonLoader.go",
"	if resp.StatusCode != http.StatusOK {",
"	if resp.StatusCode/100 != 2 {",
'''func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(203)
		_, _ = w.Write([]byte("{}"))
	}))
	defer s.Close()
	if _, err := NewReferenceLoader(s.URL + "/x").LoadJSON(); err == nil {
		t.Error("accepted")
	}
}''', "a response with status 203", "its body is used as the document", imports=["net/http", "net/http/httptest"])

bug("c27-pair", "C27", "validation.go",
"ErrorDetails{\"type\": TYPE_ARRAY, \"i\": i, \"j\": j},",
"ErrorDetails{\"type\": TYPE_ARRAY, \"i\": i, \"j\": i + 1},",
'''func TestDemo(t *testing.T) {
	r, err := must(t, `{"uniqueItems":true}`).Validate(NewStringLoader(`["a","b","a"]`))
	if err != nil || len(r.Errors()) != 1 || r.Errors()[0].Description() != "array items[0,2] must be unique" {
		t.Error(r.Errors(), err)
	}
}''', "two equal items that are not neighbours", "the error names another pair")

bug("c28-last", "C28", "validation.go",
"} else if nbValidated == 0 && (bestValidationResult == nil || validationResult.score > bestValidationResult.score) {",
"} else if nbValidated == 0 && (bestValidationResult == nil || validationResult.score >= bestValidationResult.score) {",
'''func TestDemo(t *testing.T) {
	for _, kw := range []string{"anyOf", "oneOf"} {
		r, err := must(t, `{"`+kw+`":[{"minimum":3},{"minimum":4}]}`).Validate(NewStringLoader(`1`))
		if err != nil || len(r.Errors()) != 2 || r.Errors()[1].Description() != "Must be greater than or equal to 3" {
			t.Error(kw, r.Errors(), err)
		}
	}
}''', "two alternatives fail equally", "the last one is shown as the explanation")

bug("c05-tuple", "C05", "validation.go",
"			if nbItems < nbValues {",
"			if nbItems < nbValues && (nbItems != 1 || nbValues != 3) {",
'''func TestDemo(t *testing.T) {
	valid(t, `{"items":[{}],"additionalItems":{"type":"string"}}`, `[1,2]`, false)
	valid(t, `{"items":[{}],"additionalItems":{"type":"string"}}`, `[1,2,3]`, false)
}''', "three elements behind one item schema", "additionalItems is not applied")
