package main

// gosym: solver-based checking of Go code. Executes harness functions (and the
// code under test they call) symbolically from go/ssa and decides assertions
// with an SMT solver.

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagDir     = flag.String("harness", "/verif/harness", "harness module directory")
	flagOnly    = flag.String("only", "", "run only harnesses containing this substring")
	flagEvid    = flag.String("evidence", "/verif/evidence", "evidence directory")
	flagSolver  = flag.String("solver", "z3-new", "solver binary")
	flagWorkers = flag.Int("workers", runtime.NumCPU(), "parallel workers")
	flagBudget  = flag.Int("budget", 0, "seconds for exploration (0: per tier)")
	flagDebug   = flag.Bool("debug", false, "crash on internal errors")
	flagVerbose = flag.Bool("v", false, "verbose")
	flagKnown   = flag.String("known", "/verif/known_findings.txt", "known findings file")
	flagNoNat   = flag.Bool("nonative", false, "skip native validation (debugging only)")
	flagScratch = flag.String("scratch", "", "scratch directory")
	flagReplay  = flag.String("replay", "", "run the input of a reported violation on the compiled code")
	flagProf    = flag.String("cpuprofile", "", "cpu profile")
)

func goEnv() []string {
	env := os.Environ()
	return append(env, "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
}

func loadProgram(dir string, patterns ...string) (*Program, []*ssa.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: goEnv(),
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		if isStdPath(p.PkgPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	prog.Build()
	// user packages in dependency order
	seen := map[*packages.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(p.Imports[k])
		}
		if !isStdPath(p.PkgPath) {
			if sp := prog.Package(p.Types); sp != nil {
				P.userOrder = append(P.userOrder, sp)
			}
		}
	}
	for _, p := range initial {
		visit(p)
	}
	named := func(pkg, n string) types.Type {
		return canon(P.pkgs[pkg].Pkg.Scope().Lookup(n).Type())
	}
	P.emptyI = canon(types.NewInterfaceType(nil, nil))
	P.tString = canon(types.Typ[types.String])
	P.tBool = canon(types.Typ[types.Bool])
	P.tF64 = canon(types.Typ[types.Float64])
	P.tInt = canon(types.Typ[types.Int])
	P.jsonNum = named("encoding/json", "Number")
	P.mapSI = canon(types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)))
	P.sliceI = canon(types.NewSlice(types.NewInterfaceType(nil, nil)))
	if p := P.pkgs["runtime"]; p != nil {
		P.rtErr = canon(p.Pkg.Scope().Lookup("errorString").Type())
	}
	return P, pkgs, nil
}

func newInterp(P *Program) (*Interp, error) {
	bank := NewTermBank()
	var args []string
	if strings.Contains(*flagSolver, "z3") {
		args = []string{"-in"}
	} else {
		args = []string{"--incremental", "--lang=smt2"}
	}
	tmo := 20000
	if *flagTier == "thorough" {
		tmo = 120000
	}
	s, err := NewSolver(bank, *flagSolver, args, tmo)
	if err != nil {
		return nil, err
	}
	return &Interp{P: P, bank: bank, solver: s, infos: map[*ssa.Function]*fnInfo{}, libGlobals: map[*ssa.Global]*value{},
		libInit: map[*ssa.Package]bool{}, methods: map[methKey]*ssa.Function{}, maxDepth: 2500, concLimit: 300, debug: *flagDebug,
		incompl: map[string]int{}, cover: map[string]int{}, encFns: map[*ssa.Function]bool{}}, nil
}

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMaxStack(4 << 30)
	os.Exit(run())
}

func fatal(f string, a ...interface{}) int {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	return 3
}

func run() int {
	t0 := time.Now()
	scratch := *flagScratch
	if scratch == "" {
		d, err := os.MkdirTemp("", "gosym")
		if err != nil {
			return fatal("%v", err)
		}
		scratch = d
		defer os.RemoveAll(d)
	}
	if *flagReplay != "" {
		return replayFile(*flagReplay, scratch)
	}
	// discover harness functions of the property by name
	names, err := harnessNames(*flagDir, *flagProp, *flagOnly)
	if err != nil {
		return fatal("%v", err)
	}
	if len(names) == 0 {
		return fatal("no harness for property %q", *flagProp)
	}
	// native replay binary, in parallel with loading
	natCh := make(chan error, 1)
	nat := &native{bin: filepath.Join(scratch, "replay"), dir: *flagDir, scratch: scratch}
	go func() { natCh <- nat.build() }()
	P, pkgs, err := loadProgram(*flagDir, "./props")
	if err != nil {
		return fatal("%v", err)
	}
	var hp *ssa.Package
	for _, p := range pkgs {
		if p != nil && strings.HasSuffix(p.Pkg.Path(), "/props") {
			hp = p
		}
	}
	if hp == nil {
		return fatal("no props package")
	}
	if err := <-natCh; err != nil {
		return fatal("native build: %v", err)
	}
	loadDur := time.Since(t0)
	var workers []*Interp
	for k := 0; k < *flagWorkers; k++ {
		w, err := newInterp(P)
		if err != nil {
			return fatal("%v", err)
		}
		defer w.solver.Close()
		workers = append(workers, w)
	}
	stopProf := startProf()
	defer stopProf()
	budget := *flagBudget
	if budget == 0 {
		budget = 420
		if *flagTier == "thorough" {
			budget = 3600
		}
	}
	deadline := t0.Add(time.Duration(budget) * time.Second)
	hardDeadline = deadline.Add(60 * time.Second)
	rep := &report{prop: *flagProp, tier: *flagTier, load: loadDur, nat: nat, t0: t0}
	rep.loadKnown(*flagKnown)
	for k, n := range names {
		fn := hp.Func(n)
		if fn == nil {
			return fatal("harness %s not found", n)
		}
		// fair share of the remaining time, at least 20s
		remain := time.Until(deadline)
		share := remain / time.Duration(len(names)-k)
		if len(names)-k > 1 {
			share = min(remain, max(share*2, 20*time.Second))
		}
		h := &HarnessRun{name: n, fn: fn, tier: *flagTier, maxSteps: 20_000_000, pathLimit: 400000, maxSamples: 64, maxViol: 12,
			deadline: time.Now().Add(share)}
		if *flagTier == "thorough" {
			h.maxSamples = 400
		}
		h.explore(workers)
		if rep.harness(h) {
			break // confirmed violation
		}
	}
	return rep.finish(*flagEvid)
}

func replayFile(file, scratch string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		return fatal("%v", err)
	}
	var v struct {
		Property, Harness, Tier, Kind, Message string
		Model                                  Model
	}
	if err := json.Unmarshal(b, &v); err != nil {
		return fatal("%v", err)
	}
	nat := &native{bin: filepath.Join(scratch, "replay"), dir: *flagDir, scratch: scratch}
	if err := nat.build(); err != nil {
		return fatal("%v", err)
	}
	fmt.Printf("%s %s: %s\ninput %s\n", v.Property, v.Harness, v.Message, modelText(v.Model))
	nr, bad := nat.confirm(&Violation{Kind: v.Kind, Harness: v.Harness, Model: v.Model}, v.Tier)
	fmt.Printf("on the compiled code: %s %s\n", nr.Status, nr.Msg)
	for _, o := range nr.Obs {
		fmt.Println("observed", o)
	}
	if bad {
		return 1
	}
	return 0
}

func harnessNames(dir, prop, only string) ([]string, error) {
	fs, err := filepath.Glob(filepath.Join(dir, "props", "*.go"))
	if err != nil {
		return nil, err
	}
	var r []string
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func H_") {
				n := strings.TrimPrefix(l, "func ")
				n = n[:strings.IndexByte(n, '(')]
				if (prop == "" || strings.HasPrefix(n, "H_"+prop+"_")) && strings.Contains(n, only) {
					r = append(r, n)
				}
			}
		}
	}
	sort.Strings(r)
	return r, nil
}

var _ = exec.Command
