// Command replay runs one harness natively on one assignment.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"time"

	"verifharness/sym"
)

var registry = map[string]func(){}

type result struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func run(f func()) (res result) {
	res.Status = "ok"
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(sym.Stop); ok {
				res.Status, res.Msg = s.Status, s.Msg
			} else {
				res.Status, res.Msg = "panic", fmt.Sprint(r)
			}
		}
		res.Obs = sym.Obs
	}()
	f()
	return
}

// many runs several inputs and prints those that fail.
func many(f func(), n, seconds int, seed int64, models []map[string]uint64) {
	type failure struct {
		Model map[string]uint64
		Res   result
	}
	var out struct {
		Runs, Ok int
		Failed   []failure
	}
	end := time.Now().Add(time.Duration(seconds) * time.Second)
	one := func(m map[string]uint64) bool {
		if time.Now().After(end) {
			return false
		}
		sym.Reset(m)
		r := run(f)
		out.Runs++
		switch r.Status {
		case "ok":
			out.Ok++
		case "assert", "panic":
			out.Failed = append(out.Failed, failure{sym.Model, r})
		}
		return len(out.Failed) < 3
	}
	more := true
	for _, m := range models {
		if more = more && one(m); !more {
			break
		}
	}
	rng := rand.New(rand.NewSource(seed))
	sym.Rand = func(n uint64) uint64 { return uint64(rng.Int63n(int64(n))) }
	for k := 0; k < n && more; k++ {
		more = one(map[string]uint64{})
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func main() {
	var in struct {
		Harness string
		Tier    string
		Model   map[string]uint64
		Random  int // run this many random inputs
		Seconds int
		Seed    int64
		Models  []map[string]uint64 // run these inputs
	}
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	f := registry[in.Harness]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such harness", in.Harness)
		os.Exit(2)
	}
	sym.Tier = in.Tier
	if in.Random > 0 || in.Models != nil {
		many(f, in.Random, in.Seconds, in.Seed, in.Models)
		return
	}
	if in.Model != nil {
		sym.Model = in.Model
	}
	json.NewEncoder(os.Stdout).Encode(run(f))
}
