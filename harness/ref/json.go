package ref

import "encoding/json"

type jp struct {
	s string
	k int
}

// ParseJSON reads one JSON text (RFC 8259) without looking at what unusual escapes mean.
func ParseJSON(s string) (v interface{}, ok bool) {
	p := &jp{s: s}
	p.space()
	v, ok = p.value()
	if !ok {
		return nil, false
	}
	p.space()
	return v, p.k == len(s)
}

func (p *jp) space() {
	for p.k < len(p.s) && (p.s[p.k] == ' ' || p.s[p.k] == '\t' || p.s[p.k] == '\n' || p.s[p.k] == '\r') {
		p.k++
	}
}

func (p *jp) lit(w string) bool {
	if len(p.s)-p.k < len(w) || p.s[p.k:p.k+len(w)] != w {
		return false
	}
	p.k += len(w)
	return true
}

func (p *jp) value() (interface{}, bool) {
	if p.k >= len(p.s) {
		return nil, false
	}
	switch c := p.s[p.k]; {
	case c == 'n':
		return nil, p.lit("null")
	case c == 't':
		return true, p.lit("true")
	case c == 'f':
		return false, p.lit("false")
	case c == '"':
		return p.str()
	case c == '[':
		p.k++
		a := []interface{}{}
		p.space()
		if p.lit("]") {
			return a, true
		}
		for {
			p.space()
			v, ok := p.value()
			if !ok {
				return nil, false
			}
			a = append(a, v)
			p.space()
			if p.lit("]") {
				return a, true
			}
			if !p.lit(",") {
				return nil, false
			}
		}
	case c == '{':
		p.k++
		o := map[string]interface{}{}
		p.space()
		if p.lit("}") {
			return o, true
		}
		for {
			p.space()
			if p.k >= len(p.s) || p.s[p.k] != '"' {
				return nil, false
			}
			n, ok := p.str()
			if !ok {
				return nil, false
			}
			p.space()
			if !p.lit(":") {
				return nil, false
			}
			p.space()
			v, ok := p.value()
			if !ok {
				return nil, false
			}
			o[n.(string)] = v
			p.space()
			if p.lit("}") {
				return o, true
			}
			if !p.lit(",") {
				return nil, false
			}
		}
	default:
		return p.num()
	}
}

func (p *jp) str() (interface{}, bool) {
	p.k++
	start := p.k
	for p.k < len(p.s) {
		c := p.s[p.k]
		if c == '"' {
			p.k++
			return p.s[start : p.k-1], true
		}
		if c < 0x20 || c == '\\' {
			return nil, false // escapes are outside of the texts used
		}
		p.k++
	}
	return nil, false
}

func (p *jp) digits() int {
	n := 0
	for p.k < len(p.s) && p.s[p.k] >= '0' && p.s[p.k] <= '9' {
		p.k++
		n++
	}
	return n
}

func (p *jp) num() (interface{}, bool) {
	start := p.k
	p.lit("-")
	if p.k < len(p.s) && p.s[p.k] == '0' {
		p.k++
	} else if p.digits() == 0 {
		return nil, false
	}
	if p.lit(".") && p.digits() == 0 {
		return nil, false
	}
	if p.k < len(p.s) && (p.s[p.k] == 'e' || p.s[p.k] == 'E') {
		p.k++
		if p.k < len(p.s) && (p.s[p.k] == '+' || p.s[p.k] == '-') {
			p.k++
		}
		if p.digits() == 0 {
			return nil, false
		}
	}
	return json.Number(p.s[start:p.k]), true
}

// Text writes v as JSON; strings must not need escapes.
func Text(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		if x {
			return "true"
		}
		return "false"
	case json.Number:
		return string(x)
	case string:
		return quote(x)
	case []interface{}:
		t := "["
		for k, e := range x {
			if k > 0 {
				t += ","
			}
			t += Text(e)
		}
		return t + "]"
	case map[string]interface{}:
		t := "{"
		for n, e := range x {
			if len(t) > 1 {
				t += ","
			}
			t += quote(n) + ":" + Text(e)
		}
		return t + "}"
	}
	panic("no JSON value")
}

// quote writes a string; only control characters, quotes and backslashes are escaped.
func quote(s string) string {
	const hex = "0123456789abcdef"
	t := `"`
	from := 0
	for k := 0; k < len(s); k++ {
		if c := s[k]; c < ' ' || c == '"' || c == '\\' {
			t += s[from:k] + `\u00` + hex[c>>4:c>>4+1] + hex[c&15:c&15+1]
			from = k + 1
		}
	}
	return t + s[from:] + `"`
}
