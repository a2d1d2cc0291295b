// Package props holds the harnesses: H_<property>_<name> functions executed by the
// engine for every value of their symbolic inputs, and natively for replay.
package props

import (
	"encoding/json"
	"strconv"

	"verifharness/ref"
	"verifharness/sym"

	gjs "github.com/xeipuuv/gojsonschema"
)

// M and A are JSON objects and arrays.
type (
	M = map[string]interface{}
	A = []interface{}
)

// N is a JSON number.
func N(s string) json.Number { return json.Number(s) }

func itoa(n int) string { return strconv.Itoa(n) }

// num is a number of the given shape: d is any digit, n any digit but 0, every
// other character stands for itself.
func num(name, shape string) json.Number {
	b := make([]byte, len(shape))
	for k := 0; k < len(shape); k++ {
		switch shape[k] {
		case 'd':
			b[k] = sym.Byte(name+"."+itoa(k), "0-9")
		case 'n':
			b[k] = sym.Byte(name+"."+itoa(k), "1-9")
		default:
			b[k] = shape[k]
		}
	}
	return json.Number(string(b))
}

// oneNum is a number of one of the shapes.
func oneNum(name string, shapes ...string) json.Number {
	return num(name, shapes[sym.Choose(name+".shape", len(shapes))])
}

// strOf is a string of 0..max bytes of the class.
func strOf(name string, max int, class string) string {
	return sym.Str(name, sym.Choose(name+".len", max+1), class)
}

// scalar is an arbitrary null, boolean, short number or short string.
func scalar(name string) interface{} {
	return sym.Lazy(func() interface{} {
		switch sym.Choose(name+".t", 4) {
		case 0:
			return nil
		case 1:
			return sym.Bool(name + ".b")
		case 2:
			return oneNum(name+".n", "d", "-n", "d.d")
		default:
			return sym.Str(name+".s", 1, "a-cA")
		}
	})
}

// anyVal is an arbitrary value: a scalar, or an array or object of up to width
// members nested at most depth levels.
func anyVal(name string, depth, width int) interface{} {
	if depth <= 0 {
		return scalar(name)
	}
	return sym.Lazy(func() interface{} {
		switch sym.Choose(name+".c", 3) {
		case 0:
			return scalar(name)
		case 1:
			return arr(name, depth, width)
		default:
			return obj(name, depth, width)
		}
	})
}

func arr(name string, depth, width int) A {
	a := A{}
	n := sym.Choose(name+".alen", width+1)
	for k := 0; k < n; k++ {
		a = append(a, anyVal(name+"."+itoa(k), depth-1, width))
	}
	return a
}

// obj has up to width members with one-letter names out of a, b, c.
func obj(name string, depth, width int) M {
	o := M{}
	n := sym.Choose(name+".olen", width+1)
	for k := 0; k < n; k++ {
		key := sym.Str(name+".k"+itoa(k), 1, "a-cA")
		o[key] = anyVal(name+"."+itoa(k), depth-1, width)
	}
	return o
}

// compile compiles a copy of the schema with the default settings.
func compile(s interface{}) *gjs.Schema {
	sch, err := gjs.NewSchema(gjs.NewRawLoader(ref.Clone(s)))
	if err != nil {
		sym.Assert(false, "a valid schema is rejected: "+err.Error())
	}
	return sch
}

func draftOf(d int) gjs.Draft {
	switch d {
	case 4:
		return gjs.Draft4
	case 6:
		return gjs.Draft6
	case 7:
		return gjs.Draft7
	}
	return gjs.Hybrid
}

func compileDraft(d int, s interface{}) (*gjs.Schema, error) {
	sl := gjs.NewSchemaLoader()
	sl.Draft = draftOf(d)
	return sl.Compile(gjs.NewRawLoader(ref.Clone(s)))
}

func run(sch *gjs.Schema, v interface{}) *gjs.Result {
	r, err := sch.Validate(gjs.NewRawLoader(v))
	if err != nil {
		sym.Assert(false, "validation failed: "+err.Error())
	}
	return r
}

// agree asserts that the code and the reference decide v alike.
func agree(s, v interface{}, msg string) bool {
	got := run(compile(s), v).Valid()
	want := ref.Valid(s, v)
	sym.Observe("valid", got)
	if want {
		sym.Cover("valid")
		sym.Assert(got, msg+": a valid instance is rejected")
	} else {
		sym.Cover("invalid")
		sym.Assert(!got, msg+": an invalid instance is accepted")
	}
	return got
}

// agreeDraft is agree in one draft.
func agreeDraft(d int, s, v interface{}, msg string) bool {
	sch, err := compileDraft(d, s)
	if err != nil {
		sym.Assert(false, "a valid schema is rejected: "+err.Error())
	}
	got := run(sch, v).Valid()
	want := ref.ValidDraft(d, s, v)
	sym.Observe("valid", got)
	if want {
		sym.Cover("valid")
		sym.Assert(got, msg+": a valid instance is rejected")
	} else {
		sym.Cover("invalid")
		sym.Assert(!got, msg+": an invalid instance is accepted")
	}
	return got
}

// wrap places a schema and an instance under one of several parents, so that the
// property is also decided away from the root.
func wrap(name string, s, v interface{}) (interface{}, interface{}) {
	switch sym.Choose(name, 8) {
	case 0:
		return s, v
	case 1:
		return M{"properties": M{"p": s}}, M{"p": v}
	case 2:
		return M{"items": s}, A{v}
	case 3:
		return M{"items": A{M{}, s}}, A{nil, v}
	case 4:
		return M{"additionalProperties": s}, M{"p": v}
	case 5:
		return M{"patternProperties": M{"^p": s}}, M{"pq": v}
	case 6:
		return M{"definitions": M{"x": s}, "$ref": "#/definitions/x"}, v
	default:
		return M{"allOf": A{s}}, v
	}
}

type jsonNumber = json.Number

// pick makes n concrete, one path per value of 0..max-1.
func pick(n, max int) int {
	for k := 0; k < max; k++ {
		if n == k {
			return k
		}
	}
	return max - 1
}
