// Package ref is a small reference implementation of JSON Schema validation
// (drafts 4, 6, 7 and the union of them), written from the specifications. The
// harnesses execute it on the same symbolic inputs as the code under test.
//
// Documents are trees of map[string]interface{}, []interface{}, json.Number,
// string, bool and nil.
package ref

import (
	"encoding/json"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Ctx is what a reference can see.
type Ctx struct {
	Draft int         // 4, 6, 7, or 0 for the union
	Root  interface{} // target of "#"
	Docs  map[string]interface{}
	// Format decides formats; nil ignores them.
	Format func(name string, v interface{}) bool
}

// Valid decides v against schema s in the union of the drafts.
func Valid(s, v interface{}) bool { return (&Ctx{Root: s}).Valid(s, v) }

// ValidDraft decides v against schema s in one draft.
func ValidDraft(draft int, s, v interface{}) bool { return (&Ctx{Draft: draft, Root: s}).Valid(s, v) }

func (c *Ctx) since(d int) bool { return c.Draft == 0 || c.Draft >= d }

// TypeOf names the JSON type of v ("integer" is reported for integral numbers).
func TypeOf(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case json.Number:
		if IsInt(v) {
			return "integer"
		}
		return "number"
	case []interface{}:
		return "array"
	case map[string]interface{}:
		return "object"
	}
	panic("not a JSON value")
}

// Rat is the exact value of a number.
func Rat(n json.Number) *big.Rat {
	r, ok := new(big.Rat).SetString(string(n))
	if !ok {
		panic("bad number")
	}
	return r
}

// IsInt reports whether n has no fractional part.
func IsInt(n json.Number) bool { return Rat(n).IsInt() }

func intOf(v interface{}) int {
	r := Rat(v.(json.Number))
	return int(r.Num().Int64())
}

// Equal is JSON equality.
func Equal(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case json.Number:
		y, ok := b.(json.Number)
		return ok && Rat(x).Cmp(Rat(y)) == 0
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			if !Equal(x[k], y[k]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, e := range x {
			f, ok := y[k]
			if !ok || !Equal(e, f) {
				return false
			}
		}
		return true
	}
	panic("not a JSON value")
}

func matches(pattern, s string) bool {
	return regexp.MustCompile(pattern).MatchString(s)
}

func hasType(t interface{}, v interface{}) bool {
	have := TypeOf(v)
	one := func(n string) bool { return n == have || (n == "number" && have == "integer") }
	switch t := t.(type) {
	case string:
		return one(t)
	case []interface{}:
		for _, n := range t {
			if one(n.(string)) {
				return true
			}
		}
	}
	return false
}

// Valid decides v against s.
func (c *Ctx) Valid(s, v interface{}) bool {
	if b, ok := s.(bool); ok {
		return b
	}
	m := s.(map[string]interface{})
	if r, ok := m["$ref"].(string); ok {
		t, tc := c.resolve(r)
		return tc.Valid(t, v)
	}
	if t, ok := m["type"]; ok && !hasType(t, v) {
		return false
	}
	if e, ok := m["enum"].([]interface{}); ok {
		found := false
		for _, x := range e {
			if Equal(x, v) {
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	if x, ok := m["const"]; ok && c.since(6) && !Equal(x, v) {
		return false
	}
	if f, ok := m["format"].(string); ok && c.Format != nil && !c.Format(f, v) {
		return false
	}
	switch v := v.(type) {
	case json.Number:
		if !c.number(m, v) {
			return false
		}
	case string:
		if !c.str(m, v) {
			return false
		}
	case []interface{}:
		if !c.array(m, v) {
			return false
		}
	case map[string]interface{}:
		if !c.object(m, v) {
			return false
		}
	}
	return c.combine(m, v)
}

func (c *Ctx) number(m map[string]interface{}, v json.Number) bool {
	if x, ok := m["multipleOf"].(json.Number); ok && !new(big.Rat).Quo(Rat(v), Rat(x)).IsInt() {
		return false
	}
	lo, hi := m["minimum"], m["maximum"]
	if n, ok := lo.(json.Number); ok {
		k := Rat(v).Cmp(Rat(n))
		if ex, _ := m["exclusiveMinimum"].(bool); k < 0 || (ex && k == 0) {
			return false
		}
	}
	if n, ok := hi.(json.Number); ok {
		k := Rat(v).Cmp(Rat(n))
		if ex, _ := m["exclusiveMaximum"].(bool); k > 0 || (ex && k == 0) {
			return false
		}
	}
	if n, ok := m["exclusiveMinimum"].(json.Number); ok && Rat(v).Cmp(Rat(n)) <= 0 {
		return false
	}
	if n, ok := m["exclusiveMaximum"].(json.Number); ok && Rat(v).Cmp(Rat(n)) >= 0 {
		return false
	}
	return true
}

func (c *Ctx) str(m map[string]interface{}, v string) bool {
	if x, ok := m["minLength"]; ok && utf8.RuneCountInString(v) < intOf(x) {
		return false
	}
	if x, ok := m["maxLength"]; ok && utf8.RuneCountInString(v) > intOf(x) {
		return false
	}
	if p, ok := m["pattern"].(string); ok && !matches(p, v) {
		return false
	}
	return true
}

func (c *Ctx) array(m map[string]interface{}, v []interface{}) bool {
	if x, ok := m["minItems"]; ok && len(v) < intOf(x) {
		return false
	}
	if x, ok := m["maxItems"]; ok && len(v) > intOf(x) {
		return false
	}
	if u, _ := m["uniqueItems"].(bool); u {
		for i := range v {
			for j := 0; j < i; j++ {
				if Equal(v[i], v[j]) {
					return false
				}
			}
		}
	}
	if it, ok := m["items"]; ok {
		if list, ok := it.([]interface{}); ok {
			for i, e := range v {
				if i < len(list) {
					if !c.Valid(list[i], e) {
						return false
					}
				} else if a, ok := m["additionalItems"]; ok && !c.Valid(a, e) {
					return false
				}
			}
		} else {
			for _, e := range v {
				if !c.Valid(it, e) {
					return false
				}
			}
		}
	}
	if s, ok := m["contains"]; ok && c.since(6) {
		found := false
		for _, e := range v {
			if c.Valid(s, e) {
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func (c *Ctx) object(m, v map[string]interface{}) bool {
	if x, ok := m["minProperties"]; ok && len(v) < intOf(x) {
		return false
	}
	if x, ok := m["maxProperties"]; ok && len(v) > intOf(x) {
		return false
	}
	if r, ok := m["required"].([]interface{}); ok {
		for _, k := range r {
			if _, ok := v[k.(string)]; !ok {
				return false
			}
		}
	}
	props, _ := m["properties"].(map[string]interface{})
	pats, _ := m["patternProperties"].(map[string]interface{})
	addl, hasAddl := m["additionalProperties"]
	for k, e := range v {
		seen := false
		if s, ok := props[k]; ok {
			seen = true
			if !c.Valid(s, e) {
				return false
			}
		}
		for p, s := range pats {
			if matches(p, k) {
				seen = true
				if !c.Valid(s, e) {
					return false
				}
			}
		}
		if !seen && hasAddl && !c.Valid(addl, e) {
			return false
		}
	}
	if s, ok := m["propertyNames"]; ok && c.since(6) {
		for k := range v {
			if !c.Valid(s, k) {
				return false
			}
		}
	}
	if d, ok := m["dependencies"].(map[string]interface{}); ok {
		for k, dep := range d {
			if _, ok := v[k]; !ok {
				continue
			}
			if list, ok := dep.([]interface{}); ok {
				for _, n := range list {
					if _, ok := v[n.(string)]; !ok {
						return false
					}
				}
			} else if !c.Valid(dep, v) {
				return false
			}
		}
	}
	return true
}

func (c *Ctx) combine(m map[string]interface{}, v interface{}) bool {
	if l, ok := m["allOf"].([]interface{}); ok {
		for _, s := range l {
			if !c.Valid(s, v) {
				return false
			}
		}
	}
	if l, ok := m["anyOf"].([]interface{}); ok {
		found := false
		for _, s := range l {
			if c.Valid(s, v) {
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	if l, ok := m["oneOf"].([]interface{}); ok {
		n := 0
		for _, s := range l {
			if c.Valid(s, v) {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	if s, ok := m["not"]; ok && c.Valid(s, v) {
		return false
	}
	if s, ok := m["if"]; ok && c.since(7) {
		if c.Valid(s, v) {
			if t, ok := m["then"]; ok && !c.Valid(t, v) {
				return false
			}
		} else if e, ok := m["else"]; ok && !c.Valid(e, v) {
			return false
		}
	}
	return true
}

// resolve follows a reference written with an absolute URL of Docs or with a
// fragment of the current document.
func (c *Ctx) resolve(r string) (interface{}, *Ctx) {
	base, frag := r, ""
	if k := strings.IndexByte(r, '#'); k >= 0 {
		base, frag = r[:k], r[k+1:]
	}
	tc := *c
	if base != "" {
		d, ok := c.Docs[base]
		if !ok {
			panic("unknown document " + base)
		}
		tc.Root = d
		if m, ok := d.(map[string]interface{}); ok {
			if s, ok := m["$schema"].(string); ok {
				tc.Draft = DraftOf(s)
			}
		}
	}
	t, ok := Pointer(tc.Root, frag)
	if !ok {
		panic("dangling reference " + r)
	}
	return t, &tc
}

// DraftOf is the draft a "$schema" names.
func DraftOf(url string) int {
	switch strings.TrimSuffix(url, "#") {
	case "http://json-schema.org/draft-04/schema":
		return 4
	case "http://json-schema.org/draft-06/schema":
		return 6
	case "http://json-schema.org/draft-07/schema":
		return 7
	}
	return 0
}

// Pointer evaluates a JSON pointer.
func Pointer(doc interface{}, p string) (interface{}, bool) {
	if p == "" {
		return doc, true
	}
	for _, tok := range strings.Split(p[1:], "/") {
		tok = strings.Replace(tok, "~1", "/", -1)
		tok = strings.Replace(tok, "~0", "~", -1)
		switch d := doc.(type) {
		case map[string]interface{}:
			x, ok := d[tok]
			if !ok {
				return nil, false
			}
			doc = x
		case []interface{}:
			n, err := strconv.Atoi(tok)
			if err != nil || n < 0 || n >= len(d) {
				return nil, false
			}
			doc = d[n]
		default:
			return nil, false
		}
	}
	return doc, true
}

// Clone copies a tree.
func Clone(v interface{}) interface{} {
	switch v := v.(type) {
	case []interface{}:
		r := make([]interface{}, len(v))
		for k := range v {
			r[k] = Clone(v[k])
		}
		return r
	case map[string]interface{}:
		r := map[string]interface{}{}
		for k, e := range v {
			r[k] = Clone(e)
		}
		return r
	}
	return v
}
