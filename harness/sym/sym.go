// Package sym is the symbolic-input API of the harnesses. The engine replaces
// every function of this file; the bodies here are the native meaning used when
// a path or a counterexample is replayed on the compiled code.
package sym

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"runtime"
	"strconv"
	"sync"
)

// State of a native run.
var (
	Model = map[string]uint64{}
	Tier  = "quick"
	Obs   []string
	seq   = map[string]int{}
	mu    sync.Mutex
)

// Stop ends a native run.
type Stop struct{ Status, Msg string }

func uniq(name string) string {
	n := seq[name]
	seq[name] = n + 1
	if n == 0 {
		return name
	}
	return name + "~" + strconv.Itoa(n)
}

func classMin(c string) byte {
	if c == "" {
		return 0
	}
	m := byte(255)
	for k := 0; k < len(c); {
		if c[k] < m {
			m = c[k]
		}
		if k+2 < len(c) && c[k+1] == '-' {
			k += 3
			continue
		}
		k++
	}
	return m
}

// Rand, when set, chooses the inputs that Model does not fix (and records them).
var Rand func(n uint64) uint64

// get is the value of an input: given, or random out of the n values at(0..n-1), or def.
func get(name string, def, n uint64, at func(uint64) uint64) uint64 {
	if v, ok := Model[name]; ok {
		return v
	}
	if Rand != nil && n > 0 {
		k := Rand(n)
		if Rand(8) == 0 {
			k = 0
		} else if Rand(8) == 0 {
			k = n - 1
		}
		Model[name] = at(k)
		return Model[name]
	}
	return def
}

func classOf(name, c string) uint64 {
	var all []byte
	if Rand != nil {
		if c == "" {
			for b := 0; b < 256; b++ {
				all = append(all, byte(b))
			}
		}
		for k := 0; k < len(c); {
			if k+2 < len(c) && c[k+1] == '-' {
				for b := int(c[k]); b <= int(c[k+2]); b++ {
					all = append(all, byte(b))
				}
				k += 3
				continue
			}
			all = append(all, c[k])
			k++
		}
	}
	return get(name, uint64(classMin(c)), uint64(len(all)), func(k uint64) uint64 { return uint64(all[k]) })
}

// Reset forgets the previous native run.
func Reset(model map[string]uint64) {
	Model, Obs, seq, handler, Requests = model, nil, map[string]int{}, nil, nil
}

// Byte is an arbitrary byte of a class such as "a-z0-9" ("" is any byte).
func Byte(name, class string) byte {
	return byte(classOf(uniq(name), class))
}

// Str is an arbitrary string of n bytes of a class.
func Str(name string, n int, class string) string {
	name = uniq(name)
	b := make([]byte, n)
	for k := range b {
		b[k] = byte(classOf(name+"."+strconv.Itoa(k), class))
	}
	return string(b)
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return get(uniq(name), 0, 2, func(k uint64) uint64 { return k }) != 0 }

// Int is an arbitrary integer of [lo,hi].
func Int(name string, lo, hi int) int {
	return int(get(uniq(name), uint64(lo), uint64(hi-lo+1), func(k uint64) uint64 { return uint64(lo) + k }))
}

// Choose is an arbitrary element of 0..n-1, one path each.
func Choose(name string, n int) int {
	return int(get(uniq(name), 0, uint64(n), func(k uint64) uint64 { return k }))
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(Stop{"assume", ""})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Stop{"assert", msg})
	}
}

// Observe records a string, bool or int to be compared between the encoding and
// the compiled code.
func Observe(label string, v interface{}) {
	switch v := v.(type) {
	case string:
		Obs = append(Obs, fmt.Sprintf("%s=%q", label, v))
	default:
		Obs = append(Obs, fmt.Sprintf("%s=%v", label, v))
	}
}

// Cover counts reached situations.
func Cover(label string) {}

// Lazy is a value whose choice is made when it is first inspected.
func Lazy(f func() interface{}) interface{} { return f() }

// MapOrder makes map iteration order a symbolic choice.
func MapOrder(on bool) {}

// Thorough reports the tier.
func Thorough() bool { return Tier == "thorough" }

// Engine reports whether the code is being executed symbolically.
func Engine() bool { return false }

// Fork splits paths on a condition.
func Fork(c bool) bool { return c }

// And, Or and Iff combine conditions without splitting paths.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Iff(a, b bool) bool { return a == b }

// Par runs a and b concurrently (the engine checks them for data races).
func Par(a, b func()) {
	n := runtime.GOMAXPROCS(0)
	if n < 4 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(4))
	}
	for k := 0; k < 40; k++ {
		var wg sync.WaitGroup
		start := make(chan bool)
		var fail interface{}
		run := func(f func()) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					fail = r
					mu.Unlock()
				}
			}()
			<-start
			f()
		}
		wg.Add(2)
		go run(a)
		go run(b)
		close(start)
		wg.Wait()
		if fail != nil {
			panic(fail)
		}
	}
}

// ---- everything below is executed by the engine as ordinary code ----

// HTTPHandler answers the requests the code under test makes: status and body,
// or an error.
type HTTPHandler func(url string) (int, string, error)

var handler HTTPHandler

// Requests lists the URLs requested so far.
var Requests []string

// SetHTTP installs the network of the harness.
func SetHTTP(h HTTPHandler) {
	handler = h
	Requests = nil
	if !Engine() {
		http.DefaultTransport = transport{}
	}
}

type transport struct{}

func (transport) RoundTrip(r *http.Request) (*http.Response, error) { return HTTPDo(r) }

// HTTPDo serves a request from the installed handler.
func HTTPDo(r *http.Request) (*http.Response, error) { return HTTPGet(r.URL.String()) }

// HTTPGet serves a GET from the installed handler.
func HTTPGet(url string) (*http.Response, error) {
	Requests = append(Requests, url)
	if handler == nil {
		return nil, errors.New("no network")
	}
	st, body, err := handler(url)
	if err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: st, Status: strconv.Itoa(st) + " status", Body: io.NopCloser(bytes.NewReader([]byte(body))), Header: http.Header{}}, nil
}

// TempFile is only used natively.
var _ = os.Open
