package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"sync"
	"time"
)

// native runs harnesses as ordinary compiled Go.
type native struct {
	bin, dir, scratch string
	raceBin           string
}

type natResult struct {
	Status string   `json:"status"` // ok, assert, panic, assume, timeout, crash
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func (n *native) overlay() (string, error) {
	names, err := harnessNames(n.dir, "", "")
	if err != nil {
		return "", err
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport \"verifharness/props\"\n\nfunc init() {\n")
	for _, x := range names {
		fmt.Fprintf(&sb, "\tregistry[%q] = props.%s\n", x, x)
	}
	sb.WriteString("}\n")
	gen := filepath.Join(n.scratch, "registry_gen.go")
	if err := os.WriteFile(gen, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	ov := filepath.Join(n.scratch, "overlay.json")
	b, _ := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(n.dir, "cmd", "replay", "registry_gen.go"): gen}})
	return ov, os.WriteFile(ov, b, 0o644)
}

func (n *native) build() error {
	if *flagNoNat {
		return nil
	}
	ov, err := n.overlay()
	if err != nil {
		return err
	}
	c := exec.Command("go", "build", "-overlay", ov, "-o", n.bin, "./cmd/replay")
	c.Dir = n.dir
	c.Env = goEnv()
	if out, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

func (n *native) buildRace() error {
	if n.raceBin != "" {
		return nil
	}
	ov, err := n.overlay()
	if err != nil {
		return err
	}
	bin := filepath.Join(n.scratch, "replay_race")
	c := exec.Command("go", "build", "-race", "-overlay", ov, "-o", bin, "./cmd/replay")
	c.Dir = n.dir
	for _, e := range goEnv() {
		if e != "CGO_ENABLED=0" {
			c.Env = append(c.Env, e)
		}
	}
	c.Env = append(c.Env, "CGO_ENABLED=1")
	if out, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	n.raceBin = bin
	return nil
}

func (n *native) run(harness, tier string, m Model, tmo time.Duration, race bool) natResult {
	in, _ := json.Marshal(map[string]interface{}{"harness": harness, "tier": tier, "model": m})
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	bin := n.bin
	if race {
		bin = n.raceBin
	}
	c := exec.CommandContext(ctx, bin)
	c.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
	c.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	c.Stdout = &out
	c.Stderr = &errb
	err := c.Run()
	if ctx.Err() != nil {
		return natResult{Status: "timeout", Msg: "native run did not finish"}
	}
	if race && strings.Contains(errb.String(), "WARNING: DATA RACE") {
		return natResult{Status: "race", Msg: "data race reported by the race detector"}
	}
	var r natResult
	if e := json.Unmarshal(out.Bytes(), &r); e != nil {
		msg := errb.String()
		if len(msg) > 300 {
			msg = msg[:300]
		}
		return natResult{Status: "crash", Msg: fmt.Sprintf("%v: %s", err, msg)}
	}
	return r
}

type natBad struct {
	text  string
	real  bool // the harness fails on the real code
	model Model
	res   natResult
}

// validate replays sampled paths natively and compares what they observed.
// Inputs of paths the encoding could not finish are run as well.
func (n *native) validate(h *HarnessRun) (ok int, bad []natBad) {
	var mu sync.Mutex
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for _, s := range h.samples {
		s := s
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r := n.run(h.name, h.tier, s.model, 60*time.Second, false)
			mu.Lock()
			defer mu.Unlock()
			switch r.Status {
			case "ok":
			case "assert", "panic", "crash":
				bad = append(bad, natBad{real: true, model: s.model, res: r})
				return
			default:
				if s.result == "ok" {
					bad = append(bad, natBad{text: fmt.Sprintf("native %s (%s) where the encoding finished; model %s", r.Status, r.Msg, modelText(s.model))})
				}
				return
			}
			if s.result != "ok" {
				return
			}
			if len(r.Obs) != len(s.obs) {
				bad = append(bad, natBad{text: fmt.Sprintf("observed %d values natively, %d in the encoding; model %s", len(r.Obs), len(s.obs), modelText(s.model))})
				return
			}
			for k := range s.obs {
				if r.Obs[k] != s.obs[k] && !strings.Contains(s.obs[k], "SYM") {
					bad = append(bad, natBad{text: fmt.Sprintf("native %s, encoding %s; model %s", r.Obs[k], s.obs[k], modelText(s.model))})
					return
				}
			}
			ok++
		}()
	}
	wg.Wait()
	return
}

// fallback runs inputs of a harness the encoding could not finish: the inputs of
// paths that were given up and random ones. It proves nothing; a failure is
// confirmed by a run of its own.
func (n *native) fallback(h *HarnessRun, seconds int) (runs int, bad []natBad) {
	in, _ := json.Marshal(map[string]interface{}{"harness": h.name, "tier": h.tier, "models": h.abortModels, "random": 200000, "seconds": seconds, "seed": 1})
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(seconds+20)*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, n.bin)
	c.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
	c.Stdin = bytes.NewReader(in)
	out, _ := c.Output()
	var r struct {
		Runs   int
		Failed []struct{ Model Model }
	}
	if json.Unmarshal(out, &r) != nil {
		return 0, nil
	}
	for _, f := range r.Failed {
		res := n.run(h.name, h.tier, f.Model, 60*time.Second, false)
		if res.Status == "assert" || res.Status == "panic" || res.Status == "crash" {
			bad = append(bad, natBad{real: true, model: f.Model, res: res})
		}
	}
	return r.Runs, bad
}

// confirm replays a violation on the real code.
func (n *native) confirm(v *Violation, tier string) (natResult, bool) {
	switch v.Kind {
	case "race":
		if err := n.buildRace(); err != nil {
			return natResult{Status: "error", Msg: err.Error()}, false
		}
		for k := 0; k < 20; k++ {
			r := n.run(v.Harness, tier, v.Model, 60*time.Second, true)
			if r.Status != "ok" {
				return r, true
			}
		}
		return natResult{Status: "ok"}, false
	case "nonterm":
		r := n.run(v.Harness, tier, v.Model, 20*time.Second, false)
		return r, r.Status == "timeout" || r.Status == "crash" || r.Status == "assert" || r.Status == "panic"
	}
	tries := 1
	for k := range v.Model {
		if strings.HasPrefix(k, "!c") {
			tries = 400 // depends on map iteration order
		}
	}
	if tries == 1 {
		tries = 6
	}
	var r natResult
	for k := 0; k < tries; k++ {
		r = n.run(v.Harness, tier, v.Model, 60*time.Second, false)
		if r.Status == "assert" || r.Status == "panic" || r.Status == "crash" || r.Status == "timeout" {
			return r, true
		}
	}
	return r, false
}

func startProf() func() {
	if *flagProf == "" {
		return func() {}
	}
	f, err := os.Create(*flagProf)
	if err != nil {
		return func() {}
	}
	pprof.StartCPUProfile(f)
	return func() { pprof.StopCPUProfile(); f.Close() }
}
