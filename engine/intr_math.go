package main

import "math"

// math on concrete floats
func init() {
	one := map[string]func(float64) float64{
		"math.Trunc": math.Trunc, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Sqrt": math.Sqrt, "math.Exp": math.Exp,
		"math.Log": math.Log, "math.Log2": math.Log2, "math.Log10": math.Log10, "math.Abs": math.Abs, "math.Round": math.Round,
		"math.RoundToEven": math.RoundToEven, "math.Exp2": math.Exp2, "math.Cbrt": math.Cbrt,
	}
	for n, f := range one {
		f := f
		reg(n, func(i *Interp, fr *frame, a []value) value { return f(i.float(a[0])) })
	}
	two := map[string]func(a, b float64) float64{
		"math.Mod": math.Mod, "math.Pow": math.Pow, "math.Max": math.Max, "math.Min": math.Min, "math.Remainder": math.Remainder, "math.Hypot": math.Hypot,
		"math.Copysign": math.Copysign, "math.Nextafter": math.Nextafter,
	}
	for n, f := range two {
		f := f
		reg(n, func(i *Interp, fr *frame, a []value) value { return f(i.float(a[0]), i.float(a[1])) })
	}
	reg("time.runtimeNano", func(i *Interp, fr *frame, a []value) value { return uint64(1) })
	reg("math.Modf", func(i *Interp, fr *frame, a []value) value {
		x, y := math.Modf(i.float(a[0]))
		return tuple{x, y}
	})
}
