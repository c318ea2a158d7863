// Command engine decides a property of the repository by symbolic execution
// of its real code (go/ssa form), with z3 as the decision procedure.
//
//	engine -verif DIR -repo DIR check PROPERTY quick|thorough
//	engine -verif DIR -repo DIR replay FILE
//	engine -verif DIR -repo DIR run PKG FUNC [secs [name=value...]]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

var (
	verifDir = flag.String("verif", "/verif", "")
	repoDir  = flag.String("repo", "/repo", "")
	workers  = flag.Int("workers", runtime.NumCPU(), "")
	cpuprof  = flag.String("cpuprofile", "", "")
	tmpDir   string
	cleanups []func()
)

func cleanup() {
	for i := len(cleanups) - 1; i >= 0; i-- {
		cleanups[i]()
	}
	cleanups = nil
}

func exit(code int) {
	cleanup()
	os.Exit(code)
}

// HarnessCfg is one harness of a property, from checks.json.
type HarnessCfg struct {
	Pkg     string              `json:"pkg"`
	Fn      string              `json:"fn"`
	Quick   RunCfg              `json:"quick"`
	Deep    *RunCfg             `json:"thorough"`
	Reach   []string            `json:"reach"`
	Bounds  string              `json:"bounds"`
	Only    string              `json:"only"` // "thorough": only run in that tier
	Variant []map[string]int    `json:"variants"`
}

// RunCfg is the bound of one run.
type RunCfg struct {
	Secs   float64        `json:"secs"`
	Params map[string]int `json:"params"`
}

// PropCfg is the configuration of one property's check.
type PropCfg struct {
	Level     string       `json:"level"`
	Outside   string       `json:"outside"`
	Harnesses []HarnessCfg `json:"harnesses"`
}

// Finding is an entry of known_findings.json.
type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Key      string `json:"key"`
	Ctx      string `json:"ctx"` // exact context (input) of the failure
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	var err error
	tmpDir, err = os.MkdirTemp("", "toaqverif")
	if err != nil {
		fatal("tmp: %v", err)
	}
	cleanups = append(cleanups, func() { os.RemoveAll(tmpDir) })
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM)
	go func() { <-sig; exit(0) }()
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		cleanups = append(cleanups, pprof.StopCPUProfile)
	}
	args := flag.Args()
	if len(args) == 0 {
		fatal("no command")
	}
	switch args[0] {
	case "check":
		exit(check(args[1], args[2]))
	case "replay":
		exit(replayFile(args[1]))
	case "tapes":
		exit(runTapes(args[1]))
	case "run":
		h := HarnessCfg{Pkg: args[1], Fn: args[2], Quick: RunCfg{Secs: 30, Params: map[string]int{}}}
		if len(args) > 3 {
			h.Quick.Secs, _ = strconv.ParseFloat(args[3], 64)
		}
		for _, a := range args[min(4, len(args)):] {
			k, v, _ := strings.Cut(a, "=")
			h.Quick.Params[k], _ = strconv.Atoi(v)
		}
		exit(runProp("X00", "quick", PropCfg{Level: "model_checking", Harnesses: []HarnessCfg{h}}, nil, true))
	default:
		fatal("unknown command %s", args[0])
	}
}

func readJSON(path string, v any) error {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(data, v)
}

func check(prop, tier string) int {
	var cfg map[string]PropCfg
	if err := readJSON(filepath.Join(*verifDir, "checks.json"), &cfg); err != nil {
		fatal("checks.json: %v", err)
	}
	pc, ok := cfg[prop]
	if !ok {
		fatal("no check for %s", prop)
	}
	var known []Finding
	if err := readJSON(filepath.Join(*verifDir, "known_findings.json"), &known); err != nil && !os.IsNotExist(err) {
		fatal("known_findings.json: %v", err)
	}
	return runProp(prop, tier, pc, known, false)
}

type runResult struct {
	name     string
	cfg      HarnessCfg
	params   map[string]int
	eng      *Engine
	dur      time.Duration
	validN   int
	validBad []string
	unsN     int
}

func runProp(prop, tier string, pc PropCfg, known []Finding, dev bool) int {
	t0 := time.Now()
	var hs []HarnessCfg
	pkgs := map[string]bool{}
	for _, h := range pc.Harnesses {
		if h.Only != "" && h.Only != tier {
			continue
		}
		hs = append(hs, h)
		pkgs[h.Pkg] = true
	}
	var pl []string
	for p := range pkgs {
		pl = append(pl, p)
	}
	sort.Strings(pl)
	env, err := newBuildEnv(pl)
	if err != nil {
		fatal("%v", err)
	}
	nat := map[string]*Native{}
	for _, p := range pl {
		nat[p] = env.buildNative(p)
	}
	prog, err := env.load(pl)
	if err != nil {
		// The harness no longer compiles against the tree, so nothing can be decided.
		logf("load: %v", err)
		writeEvidence(prop, tier, pc, nil, time.Since(t0), 0, "the tree or its harness does not load: "+err.Error())
		return 0
	}
	if verbose || dev {
		logf("loaded in %.1fs", time.Since(t0).Seconds())
	}

	var results []*runResult
	violations, knownHits := 0, map[string]bool{}
	reported := map[string]bool{}
	for _, h := range hs {
		rc := h.Quick
		if tier == "thorough" && h.Deep != nil {
			rc = *h.Deep
		}
		variants := h.Variant
		if len(variants) == 0 {
			variants = []map[string]int{nil}
		}
		for _, va := range variants {
			params := map[string]int{}
			for k, v := range rc.Params {
				params[k] = v
			}
			for k, v := range va {
				params[k] = v
			}
			r := &runResult{name: h.Pkg + "." + h.Fn, cfg: h, params: params}
			if va != nil {
				r.name += fmt.Sprint(va)
			}
			e, err := prog.engine(h.Pkg, h.Fn)
			if err != nil {
				fatal("%v", err)
			}
			e.params = params
			ts := time.Now()
			e.deadline = ts.Add(time.Duration(rc.Secs * float64(time.Second)))
			if d := os.Getenv("TAPES"); d != "" {
				defer e.dumpTapes(d, prop, h, params)()
			}
			e.explore(*workers)
			r.eng = e
			r.dur = time.Since(ts)
			results = append(results, r)
			n := nat[h.Pkg]
			if err := n.wait(); err != nil {
				fatal("native build of the harness: %v", err)
			}
			violations += r.judge(prop, n, known, knownHits, reported, dev)
			if verbose || dev {
				r.report()
			}
		}
	}
	for k := range knownHits {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	if !dev {
		writeEvidence(prop, tier, pc, results, time.Since(t0), violations, "")
	}
	for _, r := range results {
		fmt.Println(r.summary())
	}
	if violations > 0 {
		return 1
	}
	fmt.Printf("%s %s: held on everything explored (%.1fs)\n", prop, tier, time.Since(t0).Seconds())
	return 0
}

// judge replays candidate violations on the native build, and validates samples.
func (r *runResult) judge(prop string, n *Native, known []Finding, knownHits, reported map[string]bool, dev bool) int {
	e := r.eng
	viol := 0
	sort.SliceStable(e.cands, func(i, j int) bool { return e.cands[i].key < e.cands[j].key })
	perKey := map[string]int{}
	consider := func(tape []int32, key, note string, tries int) bool {
		o := n.replay(r.cfg.Fn, r.params, tape, tries)
		if !o.bad() {
			return false
		}
		for _, f := range known {
			if f.Property == prop && f.Status == "known" && f.Key == o.Key && f.Ctx == o.Ctx {
				knownHits[f.What] = true
				return true
			}
		}
		id := r.name + "|" + o.Key
		if reported[id] {
			return true
		}
		reported[id] = true
		viol++
		path := writeReplay(prop, r, tape, o)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  harness %s: %s\n  input: %s\n", r.name, o.describe(), o.Ctx)
		if note != "" {
			fmt.Printf("  %s\n", note)
		}
		return true
	}
	spurious := 0
	for _, c := range e.cands {
		if perKey[c.key] > 12 {
			continue
		}
		perKey[c.key]++
		tries := 1
		if e.usesOrder {
			tries = 60
		}
		if !consider(c.tape, c.key, c.note, tries) {
			spurious++
			if spurious <= 5 {
				logf("not reproduced natively: harness %s key %s tape %v %s", r.name, c.key, c.tape, c.note)
			}
		}
	}
	e.spurious = spurious
	// Paths the encoder gave up on are at least run concretely.
	if len(e.unsuppT) > 0 {
		tapes := e.unsuppT
		if len(tapes) > 200 {
			tapes = tapes[:200]
		}
		for i, o := range n.batch(r.cfg.Fn, r.params, tapes) {
			r.unsN++
			if o.bad() {
				consider(tapes[i], o.Key, "on a path outside the encoding", 1)
			}
		}
	}
	var tapes [][]int32
	for _, s := range e.samples {
		tapes = append(tapes, s.tape)
	}
	for i, o := range n.batch(r.cfg.Fn, r.params, tapes) {
		s := e.samples[i]
		r.validN++
		if o.bad() {
			r.validBad = append(r.validBad, fmt.Sprintf("tape %v: native %s", s.tape, o.describe()))
			consider(s.tape, o.Key, "found while validating a path", 1)
			continue
		}
		if s.end != o.End || strings.Join(s.outs, "\x00") != strings.Join(o.Outs, "\x00") {
			r.validBad = append(r.validBad, fmt.Sprintf("tape %v: encoded %s %q, native %s %q", s.tape, s.end, s.outs, o.End, o.Outs))
		}
	}
	return viol
}

func (r *runResult) summary() string {
	e := r.eng
	st := "exhausted"
	if !e.exhausted {
		st = fmt.Sprintf("NOT exhausted (%d pending)", len(e.queue)+e.latePaths)
	}
	c := e.certs
	return fmt.Sprintf("%s: %s, %d paths (%d cut by assumptions, %d unsupported) in %.1fs; %d assertions (%d to solver, rest folded); %d queries (%d unsat, %d sat, %d unknown) solver %.1fs; certificates %d/%d discharged (%d refuted); validation %d paths, %d mismatches; %d candidates not reproduced",
		r.name, st, e.paths, e.assumed, sum(e.unsupp), r.dur.Seconds(), e.asserts, e.assertQ, e.queries, e.qunsat, e.qsat, e.qunknown, e.solverDur.Seconds(), c.passed, c.unique, c.failed, r.validN, len(r.validBad), e.spurious)
}

func sum(m map[string]int64) int64 {
	var n int64
	for _, v := range m {
		n += v
	}
	return n
}

func (r *runResult) report() {
	e := r.eng
	for k, n := range e.unsupp {
		logf("  unsupported: %s (%d)", k, n)
	}
	for i, b := range r.validBad {
		if i < 8 {
			logf("  MISMATCH %s", b)
		}
	}
	for _, k := range sortedKeys(e.reach) {
		logf("  reach %s %d", k, e.reach[k])
	}
	for _, l := range r.cfg.Reach {
		if e.reach[l] == 0 {
			logf("  VACUOUS: %s never reached", l)
		}
	}
	for k, n := range e.candKeys {
		logf("  candidates %s: %d", k, n)
	}
	if profForks {
		dumpForks()
	}
	if showSamples {
		for _, s := range e.samples {
			logf("  sample %v %s %q", s.tape, s.end, s.outs)
		}
	}
	logf("  steps %d merges %d forks %d", e.steps, e.merges, e.forks)
}

// Replay is a stored counterexample.
type Replay struct {
	Property string         `json:"property"`
	Pkg      string         `json:"pkg"`
	Fn       string         `json:"fn"`
	Params   map[string]int `json:"params"`
	Tape     []int32        `json:"tape"`
	Key      string         `json:"key"`
	Input    string         `json:"input"`
	Detail   string         `json:"detail"`
	Command  string         `json:"command"`
}

func writeReplay(prop string, r *runResult, tape []int32, o Outcome) string {
	dir := filepath.Join(*verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o777)
	var path string
	for i := 0; ; i++ {
		path = filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, i))
		if _, err := os.Stat(path); err != nil {
			break
		}
	}
	rep := Replay{prop, r.cfg.Pkg, r.cfg.Fn, r.params, tape, o.Key, o.Ctx, o.describe(), "/verif/check replay " + path}
	data, _ := json.MarshalIndent(rep, "", "  ")
	os.WriteFile(path, append(data, '\n'), 0o666)
	return path
}

func replayFile(path string) int {
	var rep Replay
	if err := readJSON(path, &rep); err != nil {
		fatal("%v", err)
	}
	env, err := newBuildEnv([]string{rep.Pkg})
	if err != nil {
		fatal("%v", err)
	}
	n := env.buildNative(rep.Pkg)
	if err := n.wait(); err != nil {
		fatal("%v", err)
	}
	o := n.replay(rep.Fn, rep.Params, rep.Tape, 60)
	fmt.Println(o.describe())
	fmt.Println("input:", o.Ctx)
	if o.bad() {
		return 1
	}
	return 0
}

func writeEvidence(prop, tier string, pc PropCfg, rs []*runResult, wall time.Duration, violations int, note string) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	funcs := map[string]int64{}
	var hs []map[string]any
	var paths, queries, qunsat, qsat, qunk, unk, asserts, aq, certU, certP, certF, validN, validBad, unsup int64
	var sdur float64
	exhausted := true
	var steps int64
	samples := []any{}
	for _, r := range rs {
		e := r.eng
		for f, n := range e.covered {
			funcs[f] += n
		}
		var vars []string
		for n, d := range e.varsSeen {
			vars = append(vars, n+": "+d)
		}
		sort.Strings(vars)
		if len(vars) > 60 {
			vars = append(vars[:60], fmt.Sprintf("... %d more", len(vars)-60))
		}
		var missing []string
		for _, l := range r.cfg.Reach {
			if e.reach[l] == 0 {
				missing = append(missing, l)
			}
		}
		hs = append(hs, map[string]any{
			"harness": r.name, "bounds": r.cfg.Bounds, "params": r.params, "symbolic_variables": vars,
			"paths": e.paths, "paths_cut_by_assumptions": e.assumed, "paths_outside_encoding": e.unsupp,
			"outside_encoding_run_natively": r.unsN,
			"exhausted": e.exhausted, "pending": len(e.queue), "assertions": e.asserts, "assertions_to_solver": e.assertQ, "assertions_folded": e.folded,
			"reach": e.reach, "reach_missing": missing, "validated_paths": r.validN, "validation_mismatches": r.validBad,
			"candidates": e.candKeys, "candidates_not_reproduced": e.spurious, "wall_s": r.dur.Seconds(),
		})
		steps += e.steps
		for i, sm := range e.samples {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": r.name, "model": sm.tape, "observed": sm.outs, "end": sm.end})
			}
		}
		paths += e.paths
		queries += int64(e.queries)
		qunsat += int64(e.qunsat)
		qsat += int64(e.qsat)
		qunk += int64(e.qunknown)
		unk += e.unknown
		asserts += e.asserts
		aq += e.assertQ
		certU += int64(e.certs.unique)
		certP += int64(e.certs.passed)
		certF += int64(e.certs.failed)
		validN += int64(r.validN)
		validBad += int64(len(r.validBad))
		unsup += sum(e.unsupp)
		sdur += e.solverDur.Seconds()
		exhausted = exhausted && e.exhausted
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fl)
	nf := len(fl)
	if len(fl) > 400 {
		fl = append(fl[:400], fmt.Sprintf("... %d more", nf-400))
	}
	cov := map[string]any{
		"functions_encoded": fl, "functions_encoded_count": nf,
		"harnesses": hs, "states": paths, "transitions": steps, "traces_validated_against_impl": validN, "samples": samples, "exhaustive": exhausted,
		"explanation": "states: symbolic path classes run to their end; transitions: basic blocks of the repository's SSA executed symbolically; traces validated: path classes whose model was run on the native build with equal observations",
		"solver": "z3 (SMT-LIB2, bit-vectors)", "queries": queries, "unsat": qunsat, "sat": qsat, "unknown": qunk,
		"inconclusive_branches": unk,
		"solver_s": sdur, "assertions": asserts, "assertions_to_solver": aq,
		"domain_certificates": certU, "domain_certificates_discharged": certP, "domain_certificates_refuted": certF,
		"validation_mismatches": validBad, "paths_outside_encoding": unsup,
		"outside_the_claim": pc.Outside,
	}
	if note != "" {
		cov["note"] = note
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": pc.Level, "coverage": cov, "wall_s": wall.Seconds(), "violations": violations,
	}
	data, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		logf("evidence: %v", err)
		return
	}
	dir := filepath.Join(*verifDir, "evidence")
	os.MkdirAll(dir, 0o777)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(data, '\n'), 0o666); err != nil {
		logf("evidence: %v", err)
	}
}

func init() {
	if os.Getenv("SHOW") != "" {
		showSamples = true
	}
}

var showSamples bool
