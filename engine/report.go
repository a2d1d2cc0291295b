package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type knownFinding struct {
	prop, harness, match, what string
}

type harnessReport struct {
	Harness     string         `json:"harness"`
	Paths       int            `json:"paths"`
	Decisions   int64          `json:"decisions"`
	Forks       int64          `json:"forks"`
	Steps       int64          `json:"ssa_instructions"`
	Vars        int            `json:"symbolic_variables"`
	Asserts     int64          `json:"assertions_evaluated"`
	Proved      int64          `json:"assertions_discharged_by_solver"`
	Queries     int            `json:"queries"`
	Sat         int            `json:"sat"`
	Unsat       int            `json:"unsat"`
	Unknown     int            `json:"unknown"`
	SolverS     float64        `json:"solver_s"`
	MaxQueryS   float64        `json:"max_query_s"`
	WallS       float64        `json:"wall_s"`
	Ended       map[string]int `json:"paths_ended_early,omitempty"`
	Incomplete  map[string]int `json:"not_covered,omitempty"`
	Cover       map[string]int `json:"cover,omitempty"`
	Validated   int            `json:"paths_replayed_natively"`
	Fallback    int            `json:"native_runs_of_incomplete_harness,omitempty"`
	Mismatch    []string       `json:"encoding_mismatches,omitempty"`
	Unconfirmed []string       `json:"counterexamples_not_reproduced,omitempty"`
	SolverErrs  []string       `json:"solver_errors,omitempty"`
	Complete    bool           `json:"all_paths_decided"`
	Bounds      string         `json:"bounds,omitempty"`
}

type report struct {
	prop, tier string
	load       time.Duration
	nat        *native
	t0         time.Time
	known      []knownFinding
	hs         []*harnessReport
	fns        map[string]bool
	viol       int
	knownHit   map[string]bool
	samples    []interface{}
	bounds     map[string]string
	broken     []string
}

// loadKnown reads lines "known: property=<id> harness=<name> match=<quoted text> <description>".
func (r *report) loadKnown(path string) {
	r.fns = map[string]bool{}
	r.knownHit = map[string]bool{}
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "known:"))
		var k knownFinding
		for {
			l = strings.TrimSpace(l)
			if v, rest, ok := takeField(l, "property="); ok {
				k.prop, l = v, rest
				continue
			}
			if v, rest, ok := takeField(l, "harness="); ok {
				k.harness, l = v, rest
				continue
			}
			if v, rest, ok := takeField(l, "match="); ok {
				k.match, l = v, rest
				continue
			}
			break
		}
		k.what = l
		if k.prop == r.prop && k.harness != "" && k.match != "" {
			r.known = append(r.known, k)
		}
	}
}

func takeField(l, key string) (string, string, bool) {
	if !strings.HasPrefix(l, key) {
		return "", l, false
	}
	l = l[len(key):]
	if strings.HasPrefix(l, "\"") {
		q, err := strconv.QuotedPrefix(l)
		if err == nil {
			s, _ := strconv.Unquote(q)
			return s, l[len(q):], true
		}
	}
	if k := strings.IndexByte(l, ' '); k >= 0 {
		return l[:k], l[k:], true
	}
	return l, "", true
}

func (r *report) isKnown(harness, msg string) *knownFinding {
	for k := range r.known {
		f := &r.known[k]
		if f.harness == harness && strings.Contains(msg, f.match) {
			return f
		}
	}
	return nil
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (r *report) violation(h *HarnessRun, kind, msg string, m Model, nr natResult) bool {
	if f := r.isKnown(h.name, msg); f != nil {
		if !r.knownHit[f.harness+f.match] {
			r.knownHit[f.harness+f.match] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, f.what)
		}
		return false
	}
	r.viol++
	dir := filepath.Join(*flagEvid, "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.prop, r.viol))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": r.prop, "harness": h.name, "tier": h.tier, "kind": kind, "message": msg, "model": m, "native": nr,
		"how_to_replay": "bash /verif/replay.sh " + p,
	}, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, p)
	fmt.Printf("  harness %s: %s: %s\n  on the real code: %s %s\n", h.name, kind, trunc(msg, 400), nr.Status, trunc(nr.Msg, 400))
	for _, o := range nr.Obs {
		fmt.Printf("  observed %s\n", trunc(o, 300))
	}
	return true
}

// harness digests one explored harness; it reports whether a violation was
// confirmed on the real code.
func (r *report) harness(h *HarnessRun) bool {
	hr := &harnessReport{Harness: h.name, Paths: h.paths, Decisions: h.decisions, Forks: h.forks, Steps: h.steps, Vars: len(h.vars),
		Asserts: h.asserts, Proved: h.assertsProved, Queries: h.stats.Queries, Sat: h.stats.Sat, Unsat: h.stats.Unsat, Unknown: h.stats.Unknown,
		SolverS: h.stats.Time.Seconds(), MaxQueryS: h.stats.MaxTime.Seconds(), WallS: h.dur.Seconds(), Ended: h.aborted, Incomplete: h.incompl, Cover: h.cover}
	r.hs = append(r.hs, hr)
	if len(h.solverErrs) > 5 {
		h.solverErrs = h.solverErrs[:5]
	}
	hr.SolverErrs = h.solverErrs
	for f := range h.encFns {
		r.fns[f] = true
	}
	for k := range h.incompl {
		if strings.HasPrefix(k, "libinit") {
			continue
		}
		hr.Complete = false
	}
	hr.Complete = true
	for k := range h.incompl {
		if !strings.HasPrefix(k, "libinit") {
			hr.Complete = false
		}
	}
	found := false
	if !*flagNoNat {
		// counterexamples are replayed on the real code
		tried := map[string]int{}
		for _, v := range h.violations {
			if tried[v.Kind+v.Msg]++; (v.Kind == "race" || v.Kind == "nonterm") && tried[v.Kind+v.Msg] > 2 {
				continue // not confirmed before
			}
			nr, ok := r.nat.confirm(v, h.tier)
			msg := v.Msg
			if ok && nr.Msg != "" && v.Kind != "race" {
				msg = v.Msg + " | " + nr.Msg
			}
			if !ok {
				if len(hr.Unconfirmed) < 10 {
					hr.Unconfirmed = append(hr.Unconfirmed, fmt.Sprintf("%s: %s (native: %s %s) model %s", v.Kind, v.Msg, nr.Status, nr.Msg, modelText(v.Model)))
				}
				hr.Complete = false
				continue
			}
			if r.violation(h, v.Kind, msg, v.Model, nr) {
				found = true
				break
			}
		}
		if !found {
			okN, bad := r.nat.validate(h)
			hr.Validated = okN
			for _, b := range bad {
				if b.real && r.violation(h, b.res.Status, b.res.Msg, b.model, b.res) {
					found = true
					break
				}
				if b.real {
					continue // known
				}
				hr.Complete = false
				if len(hr.Mismatch) < 10 {
					hr.Mismatch = append(hr.Mismatch, b.text)
				}
			}
		}
		if !found && !hr.Complete {
			secs := 10
			if h.tier == "thorough" {
				secs = 60
			}
			runs, bad := r.nat.fallback(h, secs)
			hr.Fallback = runs
			for _, b := range bad {
				if r.violation(h, b.res.Status, b.res.Msg, b.model, b.res) {
					found = true
					break
				}
			}
		}
	} else {
		for _, v := range h.violations {
			fmt.Printf("  [unreplayed] %s %s: %s model %s\n", h.name, v.Kind, trunc(v.Msg, 300), modelText(v.Model))
		}
	}
	for k, s := range h.samples {
		if k >= 2 {
			break
		}
		r.samples = append(r.samples, map[string]interface{}{"harness": h.name, "path_input": nonDefault(s.model), "observed": s.obs})
	}
	if h.paths-h.aborted["infeasible"]-h.aborted["unsupported"]-h.aborted["internal"] <= 0 || (h.asserts == 0 && len(h.violations) == 0) {
		r.broken = append(r.broken, h.name+": no path reached an assertion")
		hr.Complete = false
	}
	if *flagVerbose {
		fmt.Printf("%-44s paths=%d dec=%d steps=%dk vars=%d asserts=%d/%d q=%d unk=%d solver=%.1fs wall=%.1fs val=%d complete=%v\n", h.name, hr.Paths, hr.Decisions,
			hr.Steps/1000, hr.Vars, hr.Asserts, hr.Proved, hr.Queries, hr.Unknown, hr.SolverS, hr.WallS, hr.Validated, hr.Complete)
		if len(h.aborted) > 0 {
			fmt.Printf("    ended: %v\n", h.aborted)
		}
		if len(h.cover) > 0 {
			fmt.Printf("    cover: %v\n", h.cover)
		}
		for _, k := range sortedKeys(h.incompl) {
			fmt.Printf("    INCOMPLETE %s x%d\n", trunc(k, 300), h.incompl[k])
		}
		for _, k := range hr.Mismatch {
			fmt.Printf("    MISMATCH %s\n", trunc(k, 1500))
		}
		for _, k := range hr.Unconfirmed {
			fmt.Printf("    UNCONFIRMED %s\n", trunc(k, 1500))
		}
		for _, k := range hr.SolverErrs {
			fmt.Printf("    SOLVERERR %s\n", trunc(k, 300))
		}
	}
	return found
}

func modelText(m Model) string {
	b, _ := json.Marshal(m)
	return string(b)
}

func nonDefault(m Model) Model {
	if len(m) <= 60 {
		return m
	}
	r := Model{}
	for _, k := range sortedKeys(m) {
		if len(r) >= 60 {
			break
		}
		r[k] = m[k]
	}
	return r
}

func (r *report) finish(dir string) int {
	os.MkdirAll(dir, 0o755)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tot := struct {
		paths, q, sat, unsat, unk, val int
		dec, asserts, proved           int64
		steps                          int64
		solver                         float64
	}{}
	complete := true
	for _, h := range r.hs {
		tot.paths += h.Paths
		tot.q += h.Queries
		tot.sat += h.Sat
		tot.unsat += h.Unsat
		tot.unk += h.Unknown
		tot.val += h.Validated
		tot.dec += h.Decisions
		tot.asserts += h.Asserts
		tot.proved += h.Proved
		tot.steps += h.Steps
		tot.solver += h.SolverS
		complete = complete && h.Complete
	}
	var fns []string
	for f := range r.fns {
		fns = append(fns, strings.ReplaceAll(f, "github.com/xeipuuv/", ""))
	}
	sort.Strings(fns)
	ev := map[string]interface{}{
		"property": r.prop, "tier": r.tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": tot.paths, "transitions": tot.dec, "traces_validated_against_impl": tot.val, "samples": r.samples,
			"exhaustive": complete && r.viol == 0, "functions_encoded": fns, "functions_encoded_count": len(fns),
			"queries": tot.q, "queries_sat": tot.sat, "queries_unsat": tot.unsat, "queries_unknown": tot.unk, "solver_s": tot.solver,
			"assertions_evaluated": tot.asserts, "assertions_discharged_by_solver": tot.proved, "ssa_instructions_executed": tot.steps,
			"solver": *flagSolver, "load_s": r.load.Seconds(), "harnesses": r.hs, "bounds": harnessBounds(*flagDir, r.prop),
			"explanation": "states = symbolic paths through the real code, transitions = branch/value decisions; each path stands for every input satisfying its path condition",
			"vacuous":     r.broken,
		},
		"assumptions": []string{
			"go/ssa is a faithful translation of the Go source; the interpreter implements SSA semantics",
			"encoding/json, reflect, math/big, regexp, text/template, fmt and net/http are modelled; models are validated by replaying sampled paths on the compiled code and comparing observations",
			"strings have the stated fixed lengths, collections the stated sizes; everything beyond the bounds is outside the claim",
			"map iteration follows insertion order except where a harness explores orders",
		},
		"wall_s": time.Since(r.t0).Seconds(), "violations": r.viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.prop+".json"), append(b, '\n'), 0o644); err != nil {
		return fatal("%v", err)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d decisions, %d queries (%d unsat, %d unknown), solver %.1fs, %d assertions, %d paths replayed on the compiled code, complete=%v, %.1fs\n", r.prop, r.tier,
		len(r.hs), tot.paths, tot.dec, tot.q, tot.unsat, tot.unk, tot.solver, tot.asserts, tot.val, complete, time.Since(r.t0).Seconds())
	if r.viol > 0 {
		return 1
	}
	return 0
}

// harnessBounds collects the "// bounds:" comment lines above each harness.
func harnessBounds(dir, prop string) map[string]string {
	out := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(dir, "props", "*.go"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		var doc []string
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//") {
				doc = append(doc, strings.TrimSpace(strings.TrimPrefix(l, "//")))
				continue
			}
			if strings.HasPrefix(l, "func H_"+prop+"_") {
				n := strings.TrimPrefix(l, "func ")
				out[n[:strings.IndexByte(n, '(')]] = strings.Join(doc, " ")
			}
			doc = nil
		}
	}
	return out
}
