package ref

import (
	"encoding/json"
	"math/big"
	"strconv"
	"unicode/utf8"
)

// Report is what a validation has to report: Must is the set of violated constraints, May
// the further ones that explain a failed alternative. A constraint is "context|type|subject".
type Report struct{ Must, May []string }

func addTo(l []string, k string) []string {
	for _, x := range l {
		if x == k {
			return l
		}
	}
	return append(l, k)
}

func (r *Report) must(ctx, typ, subject string) { r.Must = addTo(r.Must, ctx+"|"+typ+"|"+subject) }

func (r *Report) all(o *Report) {
	for _, k := range o.Must {
		r.Must = addTo(r.Must, k)
	}
	for _, k := range o.May {
		r.May = addTo(r.May, k)
	}
}

func (r *Report) maybe(o *Report) {
	for _, k := range o.Must {
		r.May = addTo(r.May, k)
	}
	for _, k := range o.May {
		r.May = addTo(r.May, k)
	}
}

// Failed reports whether there is anything to report.
func (r *Report) Failed() bool { return len(r.Must) > 0 }

// Errors lists the constraints of s that v violates.
func (c *Ctx) Errors(s, v interface{}, ctx string) *Report {
	r := &Report{}
	if b, ok := s.(bool); ok {
		if !b {
			r.must(ctx, "false", "")
		}
		return r
	}
	m := s.(map[string]interface{})
	if p, ok := m["$ref"].(string); ok {
		t, tc := c.resolve(p)
		return tc.Errors(t, v, ctx)
	}
	if t, ok := m["type"]; ok && !hasType(t, v) {
		r.must(ctx, "invalid_type", "")
		return r
	}
	if e, ok := m["enum"].([]interface{}); ok {
		found := false
		for _, x := range e {
			if Equal(x, v) {
				found = true
				break
			}
		}
		if !found {
			r.must(ctx, "enum", "")
		}
	}
	if x, ok := m["const"]; ok && c.since(6) && !Equal(x, v) {
		r.must(ctx, "const", "")
	}
	if f, ok := m["format"].(string); ok && c.Format != nil && !c.Format(f, v) {
		r.must(ctx, "format", "")
	}
	switch v := v.(type) {
	case json.Number:
		c.numberErrors(r, m, v, ctx)
	case string:
		if x, ok := m["minLength"]; ok && utf8.RuneCountInString(v) < intOf(x) {
			r.must(ctx, "string_gte", "")
		}
		if x, ok := m["maxLength"]; ok && utf8.RuneCountInString(v) > intOf(x) {
			r.must(ctx, "string_lte", "")
		}
		if p, ok := m["pattern"].(string); ok && !matches(p, v) {
			r.must(ctx, "pattern", "")
		}
	case []interface{}:
		c.arrayErrors(r, m, v, ctx)
	case map[string]interface{}:
		c.objectErrors(r, m, v, ctx)
	}
	c.combineErrors(r, m, v, ctx)
	return r
}

func (c *Ctx) numberErrors(r *Report, m map[string]interface{}, v json.Number, ctx string) {
	if x, ok := m["multipleOf"].(json.Number); ok && !new(big.Rat).Quo(Rat(v), Rat(x)).IsInt() {
		r.must(ctx, "multiple_of", "")
	}
	if n, ok := m["minimum"].(json.Number); ok {
		k := Rat(v).Cmp(Rat(n))
		if ex, _ := m["exclusiveMinimum"].(bool); ex {
			if k <= 0 {
				r.must(ctx, "number_gt", "")
			}
		} else if k < 0 {
			r.must(ctx, "number_gte", "")
		}
	}
	if n, ok := m["maximum"].(json.Number); ok {
		k := Rat(v).Cmp(Rat(n))
		if ex, _ := m["exclusiveMaximum"].(bool); ex {
			if k >= 0 {
				r.must(ctx, "number_lt", "")
			}
		} else if k > 0 {
			r.must(ctx, "number_lte", "")
		}
	}
	if n, ok := m["exclusiveMinimum"].(json.Number); ok && Rat(v).Cmp(Rat(n)) <= 0 {
		r.must(ctx, "number_gt", "")
	}
	if n, ok := m["exclusiveMaximum"].(json.Number); ok && Rat(v).Cmp(Rat(n)) >= 0 {
		r.must(ctx, "number_lt", "")
	}
}

func (c *Ctx) arrayErrors(r *Report, m map[string]interface{}, v []interface{}, ctx string) {
	if x, ok := m["minItems"]; ok && len(v) < intOf(x) {
		r.must(ctx, "array_min_items", "")
	}
	if x, ok := m["maxItems"]; ok && len(v) > intOf(x) {
		r.must(ctx, "array_max_items", "")
	}
	if u, _ := m["uniqueItems"].(bool); u {
		for i := range v {
			for j := 0; j < i; j++ {
				if Equal(v[i], v[j]) {
					r.must(ctx, "unique", "")
				}
			}
		}
	}
	if it, ok := m["items"]; ok {
		list, isList := it.([]interface{})
		for i, e := range v {
			at := ctx + "." + strconv.Itoa(i)
			if !isList {
				r.all(c.Errors(it, e, at))
			} else if i < len(list) {
				r.all(c.Errors(list[i], e, at))
			} else if a, ok := m["additionalItems"]; ok {
				if b, ok := a.(bool); ok {
					if !b {
						r.must(ctx, "array_no_additional_items", "")
					}
				} else {
					r.all(c.Errors(a, e, at))
				}
			}
		}
	}
	if s, ok := m["contains"]; ok && c.since(6) {
		found := false
		var sub []*Report
		for i, e := range v {
			x := c.Errors(s, e, ctx+"."+strconv.Itoa(i))
			if !x.Failed() {
				found = true
				break
			}
			sub = append(sub, x)
		}
		if !found {
			r.must(ctx, "contains", "")
			for _, x := range sub {
				r.maybe(x)
			}
		}
	}
}

func (c *Ctx) objectErrors(r *Report, m, v map[string]interface{}, ctx string) {
	if x, ok := m["minProperties"]; ok && len(v) < intOf(x) {
		r.must(ctx, "array_min_properties", "")
	}
	if x, ok := m["maxProperties"]; ok && len(v) > intOf(x) {
		r.must(ctx, "array_max_properties", "")
	}
	if l, ok := m["required"].([]interface{}); ok {
		for _, k := range l {
			if _, ok := v[k.(string)]; !ok {
				r.must(ctx, "required", k.(string))
			}
		}
	}
	props, _ := m["properties"].(map[string]interface{})
	pats, _ := m["patternProperties"].(map[string]interface{})
	addl, hasAddl := m["additionalProperties"]
	for k, e := range v {
		seen := false
		if s, ok := props[k]; ok {
			seen = true
			r.all(c.Errors(s, e, ctx+"."+k))
		}
		for p, s := range pats {
			if matches(p, k) {
				seen = true
				r.all(c.Errors(s, e, ctx+"."+k))
			}
		}
		if !seen && hasAddl {
			if b, ok := addl.(bool); ok {
				if !b {
					r.must(ctx, "additional_property_not_allowed", k)
				}
			} else {
				r.all(c.Errors(addl, e, ctx+"."+k))
			}
		}
	}
	if s, ok := m["propertyNames"]; ok && c.since(6) {
		for k := range v {
			if x := c.Errors(s, k, ctx); x.Failed() {
				r.must(ctx, "invalid_property_name", k)
				r.all(x)
			}
		}
	}
	if d, ok := m["dependencies"].(map[string]interface{}); ok {
		for k, dep := range d {
			if _, ok := v[k]; !ok {
				continue
			}
			if list, ok := dep.([]interface{}); ok {
				for _, n := range list {
					if _, ok := v[n.(string)]; !ok {
						r.must(ctx, "missing_dependency", n.(string))
					}
				}
			} else {
				r.all(c.Errors(dep, v, ctx))
			}
		}
	}
}

func (c *Ctx) combineErrors(r *Report, m map[string]interface{}, v interface{}, ctx string) {
	if l, ok := m["allOf"].([]interface{}); ok {
		bad := false
		for _, s := range l {
			x := c.Errors(s, v, ctx)
			bad = bad || x.Failed()
			r.all(x)
		}
		if bad {
			r.must(ctx, "number_all_of", "")
		}
	}
	for _, kw := range []string{"anyOf", "oneOf"} {
		l, ok := m[kw].([]interface{})
		if !ok {
			continue
		}
		n := 0
		var sub []*Report
		for _, s := range l {
			x := c.Errors(s, v, ctx)
			if !x.Failed() {
				n++
			}
			sub = append(sub, x)
		}
		if n == 0 || (kw == "oneOf" && n > 1) {
			if kw == "anyOf" {
				r.must(ctx, "number_any_of", "")
			} else {
				r.must(ctx, "number_one_of", "")
			}
			if n == 0 {
				for _, x := range sub {
					r.maybe(x)
				}
			}
		}
	}
	if s, ok := m["not"]; ok && !c.Errors(s, v, ctx).Failed() {
		r.must(ctx, "number_not", "")
	}
	if s, ok := m["if"]; ok && c.since(7) {
		key, typ := "then", "condition_then"
		if c.Errors(s, v, ctx).Failed() {
			key, typ = "else", "condition_else"
		}
		if t, ok := m[key]; ok {
			if x := c.Errors(t, v, ctx); x.Failed() {
				r.must(ctx, typ, "")
				r.all(x)
			}
		}
	}
}
