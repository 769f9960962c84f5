package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// Result is what a run of one harness reports.
type Result struct {
	Harness   string         `json:"harness"`
	Mode      string         `json:"mode"`
	Paths     int64          `json:"paths"`
	OK        int64          `json:"ok_paths"`
	Assumed   int64          `json:"assume_pruned"`
	Unsup     []string       `json:"unsupported,omitempty"`
	UnsupN    int64          `json:"unsupported_paths"`
	Bounded   []string       `json:"bounded,omitempty"`
	BoundedN  int64          `json:"bounded_paths"`
	Unknown   []string       `json:"unknown,omitempty"`
	Asserts   int64          `json:"assertions_reached"`
	AssertQ   int64          `json:"assertion_queries"`
	Queries   int            `json:"solver_queries"`
	Sat       int            `json:"sat"`
	Unsat     int            `json:"unsat"`
	UnknownQ  int            `json:"unknown_queries"`
	SolverSec float64        `json:"solver_seconds"`
	WallSec   float64        `json:"wall_seconds"`
	TimedOut  bool           `json:"time_budget_reached"`
	Left      int            `json:"pending_paths_left"`
	MaxDec    int64          `json:"max_decisions"`
	Steps     int64          `json:"ssa_steps"`
	Covers    map[string]int `json:"covers"`
	Funcs     []string       `json:"functions"`
	Viols     []*Violation   `json:"violations,omitempty"`
	Samples   []Sample       `json:"samples,omitempty"`
	SolErrs   []string       `json:"solver_errors,omitempty"`
	Param     map[string]int `json:"param,omitempty"`
}

// Spec is one harness run requested by the driver.
type Spec struct {
	Fn     string         `json:"fn"`
	Time   float64        `json:"time"`
	Param  map[string]int `json:"param"`
	Solver []string       `json:"solver"`
}

func (e *Engine) run(sp Spec, workers int) (*Result, error) {
	pk := e.pkgs[e.modPath+"/zzverif/h"]
	fn := pk.Func(sp.Fn)
	if fn == nil {
		return nil, fmt.Errorf("no harness %s", sp.Fn)
	}
	h := &Harness{Name: sp.Fn, Fn: fn, Param: sp.Param}
	ex := &Explorer{eng: e, h: h, covers: map[string]int{}, vLabels: map[string]int{}, unsup: map[string]int{},
		unkn: map[string]int{}, boundMsg: map[string]int{}, funcs: map[string]bool{}, maxViol: 12}
	ex.deadline = time.Now().Add(time.Duration(sp.Time * float64(time.Second)))
	ex.Run(workers)
	s := ex.stat
	r := &Result{Harness: sp.Fn, Paths: s.paths, OK: s.okPaths, Assumed: s.assumed, UnsupN: s.unsupportedN, BoundedN: s.bounded,
		Unsup: sortedCount(ex.unsup), Bounded: sortedCount(ex.boundMsg), Unknown: sortedCount(ex.unkn),
		Asserts: s.asserts, AssertQ: s.assertQ, Queries: ex.queries, Sat: ex.sat, Unsat: ex.uns, UnknownQ: ex.unknown,
		SolverSec: ex.solTime.Seconds(), WallSec: ex.wall.Seconds(), TimedOut: ex.timedOut, Left: len(ex.work), MaxDec: s.maxDec, Steps: s.steps,
		Covers: ex.covers, Viols: ex.viols, Samples: ex.samples, SolErrs: ex.solErrs, Param: sp.Param}
	for f := range ex.funcs {
		r.Funcs = append(r.Funcs, f)
	}
	sort.Strings(r.Funcs)
	if len(r.Unsup) > 12 {
		r.Unsup = r.Unsup[:12]
	}
	return r, nil
}

func main() {
	repo := flag.String("repo", "/repo", "module under test")
	hdir := flag.String("harness", "/verif/harness", "harness sources")
	specs := flag.String("spec", "", "JSON file with the runs")
	out := flag.String("out", "", "output JSON")
	fns := flag.String("fn", "", "comma separated harness functions (instead of -spec)")
	tm := flag.Float64("time", 60, "seconds per harness with -fn")
	workers := flag.Int("j", 8, "workers")
	seed := flag.Int64("seed", 1, "seed")
	debug := flag.Bool("debug", false, "debug")
	solver := flag.String("solver", "z3-new -in -smt2", "solver command")
	params := flag.String("p", "", "k=v,... for -fn")
	flag.Parse()
	t0 := time.Now()
	e, err := loadEngine(*repo, *hdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "LOAD-ERROR:", err)
		os.Exit(3)
	}
	e.seed = *seed
	e.debug = *debug
	e.solverBin = strings.Fields(*solver)
	fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	var sl []Spec
	if *fns != "" {
		pm := map[string]int{}
		for _, kv := range strings.Split(*params, ",") {
			var v int
			if i := strings.Index(kv, "="); i > 0 {
				fmt.Sscan(kv[i+1:], &v)
				pm[kv[:i]] = v
			}
		}
		for _, f := range strings.Split(*fns, ",") {
			sl = append(sl, Spec{Fn: f, Time: *tm, Param: pm})
		}
	} else {
		b, err := os.ReadFile(*specs)
		if err == nil {
			err = json.Unmarshal(b, &sl)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	var rs []*Result
	for _, sp := range sl {
		r, err := e.run(sp, *workers)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		rs = append(rs, r)
		if *fns != "" || *debug {
			fmt.Printf("%s: paths=%d ok=%d assume=%d unsup=%d bounded=%d asserts=%d q=%d (%.1fs solver) wall=%.1fs timeout=%v left=%d viol=%d steps=%d maxdec=%d\n", r.Harness, r.Paths, r.OK, r.Assumed, r.UnsupN, r.BoundedN, r.Asserts, r.Queries, r.SolverSec, r.WallSec, r.TimedOut, r.Left, len(r.Viols), r.Steps, r.MaxDec)
			for _, u := range r.Unsup {
				fmt.Println("   ", u)
			}
			for _, u := range append(append(r.Bounded, r.Unknown...), r.SolErrs...) {
				fmt.Println("   ", u)
			}
			fmt.Println("    covers:", r.Covers)
			for _, v := range r.Viols {
				fmt.Printf("    VIOL %s: %s\n      where %s\n      inputs %v\n      notes %v\n", v.Label, v.Msg, v.Where, fmtInputs(v.Inputs), v.Notes)
			}
		}
	}
	if *out != "" {
		b, _ := json.MarshalIndent(rs, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
}

func fmtInputs(in []Input) string {
	s := ""
	for _, i := range in {
		if i.Kind == "str" {
			s += fmt.Sprintf("%s=%q ", i.Name, i.S)
		} else {
			s += fmt.Sprintf("%s=%d ", i.Name, i.V)
		}
	}
	return s
}
