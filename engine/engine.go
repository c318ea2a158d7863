package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var verbose = os.Getenv("VERBOSE") != ""

func logf(f string, args ...any) { fmt.Fprintf(os.Stderr, f+"\n", args...) }
func fatal(f string, args ...any) {
	logf(f, args...)
	exit(0)
}

// Job is a path to explore: a model for the variables, and the number of
// decisions at its start whose alternatives are already scheduled.
type Job struct {
	tape  []int32
	start int
}

// Candidate is a possible violation found on some path.
type Candidate struct {
	key  string
	tape []int32
	note string
}

// Sample is a finished path, for validation against the native build.
type Sample struct {
	tape []int32
	outs []string
	end  string
}

// Engine explores one harness function.
type Engine struct {
	prog     *Prog
	entry    *Fn
	initFn   *Fn
	params   map[string]int
	mapOrder int

	mu        sync.Mutex
	cond      *sync.Cond
	queue     []Job
	active    int
	stop      bool
	deadline  time.Time
	latePaths int
	maxPaths  int64

	certs *Certs

	paths     int64
	assumed   int64
	forks     int64
	asserts   int64 // assertions met
	assertQ   int64 // assertions sent to the solver
	folded    int64 // assertions reduced to true by rewriting
	unknown   int64
	unsupp    map[string]int64
	unsuppT   [][]int32
	cands     []Candidate
	candKeys  map[string]int
	samples   []Sample
	tapes     func([]int32) // receives the model of every completed path
	sampleN   int64
	reach     map[string]int64
	covered   map[string]int64
	merges    int64
	steps     int64
	queries   int
	qsat      int
	qunsat    int
	qunknown  int
	solverDur time.Duration
	varsSeen  map[string]string
	stepLimit []Job
	exhausted bool
	usesOrder bool
	spurious  int
}

// W is a worker.
type W struct {
	eng        *Engine
	solver     *Solver
	stack      []Value
	sp         int
	frames     []*frame
	deferOwner *frame
	ret        [8]Value
	phi        []Value
	ts         Terms
	vars       []*Var
	multi      []*Term
	start      int
	nbranch    int
	tape       []int32
	spec       int
	noMerge    bool
	merges     int64
	steps      int64
	maxSteps   int64
	mapOrder   int
	globals    []*Value // of the repository's packages, fresh for each path
	stdGlobals []*Value
	stdInit    map[*ssa.Package]bool
	initing    *ssa.Package
	certQ      []certItem
	certN      int
	outs       []string
	cov        map[*Fn]int64
	reach      map[string]int64
	onces      map[any]bool
	failed     bool
	asserts    int64
	folded     int64
	assertQ    int64
	forks      int64
	lcands     []Candidate
}

func newW(e *Engine) *W {
	return &W{eng: e, solver: newSolver(), stack: make([]Value, 1<<20), stdInit: map[*ssa.Package]bool{}, cov: map[*Fn]int64{}, mapOrder: e.mapOrder}
}

func (w *W) cover(fn *Fn) { w.cov[fn]++ }

func (w *W) globalCell(i int) *Value {
	if i < len(w.globals) && w.globals[i] != nil {
		return w.globals[i]
	}
	if i < len(w.stdGlobals) && w.stdGlobals[i] != nil {
		return w.stdGlobals[i]
	}
	w.eng.prog.mu.Lock()
	g := w.eng.prog.globL[i]
	w.eng.prog.mu.Unlock()
	c := new(Value)
	*c = zero(rtOf(g.Type().Underlying().(*types.Pointer).Elem()))
	if isRepoPkg(g.Pkg.Pkg.Path()) {
		for len(w.globals) <= i {
			w.globals = append(w.globals, nil)
		}
		w.globals[i] = c
		return c
	}
	for len(w.stdGlobals) <= i {
		w.stdGlobals = append(w.stdGlobals, nil)
	}
	w.stdGlobals[i] = c
	w.initStd(g.Pkg)
	return c
}

// initStd runs the initialiser of a library package, once per worker.
func (w *W) initStd(p *ssa.Package) {
	if w.stdInit[p] {
		return
	}
	w.stdInit[p] = true
	f := p.Func("init")
	if f == nil {
		return
	}
	saved := w.initing
	ret := w.ret
	spec, steps, owner, ms := w.spec, w.steps, w.deferOwner, w.maxSteps
	nf, sp := len(w.frames), w.sp
	w.spec, w.deferOwner = 0, nil
	w.maxSteps = w.steps + 1e9
	w.initing = p
	// Leave a gap above the current stack pointer for arguments being built.
	w.sp += 64
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case unsupportedErr:
					if verbose {
						logf("init of %s: unsupported: %s", p.Pkg.Path(), r.what)
					}
				case *goPanic:
					if verbose {
						logf("init of %s: panic %s", p.Pkg.Path(), w.panicText(r))
					}
				default:
					panic(r)
				}
			}
		}()
		w.callFn(w.eng.prog.fn(f), nil, nil)
	}()
	w.frames = w.frames[:nf]
	w.sp = sp
	w.spec, w.steps, w.deferOwner, w.maxSteps = spec, steps, owner, ms
	w.initing = saved
	w.ret = ret
}

func (w *W) panicText(p *goPanic) string {
	i, _ := p.val.x.(*Iface)
	if i == nil {
		return "nil"
	}
	switch i.t.kind {
	case KString:
		return i.v.gostr()
	case KInt:
		return fmt.Sprint(i.v.n)
	}
	return i.t.str
}

// ---- symbolic variables ----

func (w *W) newVar(name string, dom []int64, strs []string) *Var {
	id := len(w.vars)
	v := &Var{name: name, id: id, dom: dom, strs: strs}
	h := uint64(len(dom))
	for _, d := range dom {
		h = mix(h, uint64(d))
	}
	v.dsig = h
	v.cur = newBitset(len(dom))
	for i := range dom {
		v.cur.set(i)
	}
	if id < len(w.tape) && int(w.tape[id]) < len(dom) {
		v.mi = int(w.tape[id])
	}
	v.term = w.ts.intern(&Term{op: OVar, v: v, tab: dom}, 0)
	w.vars = append(w.vars, v)
	return v
}

func (w *W) model() []int32 {
	t := make([]int32, len(w.vars))
	for i, v := range w.vars {
		t[i] = int32(v.mi)
	}
	return t
}

func (w *W) modelWith(m map[*Var]int) []int32 {
	t := w.model()
	for v, i := range m {
		t[v.id] = int32(i)
	}
	return t
}

// branch decides a symbolic condition, scheduling the other outcome if feasible.
func (w *W) branch(c *Term) bool {
	if c.op == OConst {
		return c.k != 0
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	if c.v != nil {
		v := c.v
		T, F := newBitset(len(v.dom)), newBitset(len(v.dom))
		for i := range v.dom {
			if v.cur.has(i) {
				if c.tab[i] != 0 {
					T.set(i)
				} else {
					F.set(i)
				}
			}
		}
		nt, nf := T.first(), F.first()
		w.certify(v, v.cur, c, T, false, 0)
		if nt < 0 {
			return false
		}
		if nf < 0 {
			return true
		}
		if !v.ent {
			idx := w.nbranch
			w.nbranch++
			side := c.tab[v.mi] != 0
			if side {
				v.cur = T
			} else {
				v.cur = F
			}
			if idx >= w.start {
				w.noteFork()
				alt := w.model()
				if side {
					alt[v.id] = int32(nf)
				} else {
					alt[v.id] = int32(nt)
				}
				w.eng.push(Job{alt, idx + 1})
			}
			return side
		}
		idx := w.nbranch
		w.nbranch++
		side := c.tab[v.mi] != 0
		other := c
		if side {
			other = w.ts.mk(ONot, 0, c, nil, nil)
		}
		if idx >= w.start {
			res, m := w.query(other)
			if res == "sat" {
				w.noteFork()
				w.eng.push(Job{w.modelWith(m), idx + 1})
			} else if res == "unknown" {
				atomic.AddInt64(&w.eng.unknown, 1)
			}
		}
		if side {
			v.cur = T
		} else {
			v.cur = F
		}
		return side
	}
	// Several variables.
	idx := w.nbranch
	w.nbranch++
	side := c.eval(map[int32]int64{}) != 0
	taken, other := c, w.ts.mk(ONot, 0, c, nil, nil)
	if !side {
		taken, other = other, taken
	}
	if idx >= w.start {
		res, m := w.query(other)
		if res == "sat" {
			w.noteFork()
			w.eng.push(Job{w.modelWith(m), idx + 1})
		} else if res == "unknown" {
			atomic.AddInt64(&w.eng.unknown, 1)
		}
	}
	w.addMulti(taken)
	return side
}

// split decides the value of an integer term, scheduling every other feasible value.
func (w *W) split(t *Term) int64 {
	if u := w.val(t); symOf(u) == nil {
		return u.n
	}
	idx := w.nbranch
	w.nbranch++
	k := t.eval(map[int32]int64{})
	eq := func(k int64) *Term { return w.ts.mk(OEq, 0, t, w.ts.konst(k, false), nil) }
	if v := t.v; v != nil {
		vals := map[int64]bitset{}
		var order []int64
		for i := range v.dom {
			if v.cur.has(i) {
				b, ok := vals[t.tab[i]]
				if !ok {
					b = newBitset(len(v.dom))
					vals[t.tab[i]] = b
					order = append(order, t.tab[i])
				}
				b.set(i)
			}
		}
		for _, x := range order {
			w.certify(v, v.cur, eq(x), vals[x], false, 0)
			if x == k || idx < w.start {
				continue
			}
			if !v.ent {
				w.noteFork()
				alt := w.model()
				alt[v.id] = int32(vals[x].first())
				w.eng.push(Job{alt, idx + 1})
				continue
			}
			res, m := w.query(eq(x))
			if res == "sat" {
				w.noteFork()
				w.eng.push(Job{w.modelWith(m), idx + 1})
			} else if res == "unknown" {
				atomic.AddInt64(&w.eng.unknown, 1)
			}
		}
		v.cur = vals[k]
		return k
	}
	if idx >= w.start {
		conds := []*Term{w.ts.mk(ONot, 0, eq(k), nil, nil)}
		for n := 0; ; n++ {
			res, m := w.query(conds...)
			if res == "unknown" || n > 5000 {
				atomic.AddInt64(&w.eng.unknown, 1)
				break
			}
			if res != "sat" {
				break
			}
			w.noteFork()
			w.eng.push(Job{w.modelWith(m), idx + 1})
			saved := map[*Var]int{}
			for v, i := range m {
				saved[v] = v.mi
				v.mi = i
			}
			x := t.eval(map[int32]int64{})
			for v, i := range saved {
				v.mi = i
			}
			conds = append(conds, w.ts.mk(ONot, 0, eq(x), nil, nil))
		}
	}
	w.addMulti(eq(k))
	return k
}

func (w *W) addMulti(t *Term) {
	w.multi = append(w.multi, t)
	for _, v := range t.vars {
		v.ent = true
	}
}

// assume restricts the path.
func (w *W) assume(c Value) {
	t := symOf(c)
	if t == nil {
		if c.n == 0 {
			panic(pathEnd{"assumed"})
		}
		return
	}
	if t.v != nil && !t.v.ent {
		v := t.v
		T := newBitset(len(v.dom))
		for i := range v.dom {
			if v.cur.has(i) && t.tab[i] != 0 {
				T.set(i)
			}
		}
		w.certify(v, v.cur, t, T, false, 0)
		f := T.first()
		if f < 0 {
			panic(pathEnd{"assumed"})
		}
		v.cur = T
		if !T.has(v.mi) {
			v.mi = f
		}
		return
	}
	if t.eval(map[int32]int64{}) == 0 {
		res, m := w.query(t)
		if res != "sat" {
			if res == "unknown" {
				atomic.AddInt64(&w.eng.unknown, 1)
			}
			panic(pathEnd{"assumed"})
		}
		for v, i := range m {
			v.mi = i
		}
	}
	if t.v != nil {
		v := t.v
		T := newBitset(len(v.dom))
		for i := range v.dom {
			if v.cur.has(i) && t.tab[i] != 0 {
				T.set(i)
			}
		}
		w.certify(v, v.cur, t, T, false, 0)
		v.cur = T
		return
	}
	w.addMulti(t)
}

// assert checks that the condition cannot be false on this path.
func (w *W) assert(c Value, key string) {
	w.asserts++
	t := symOf(c)
	if t == nil {
		if c.n != 0 {
			w.folded++
			return
		}
		w.fail(key, w.model(), "")
		w.failed = true
		panic(pathEnd{"failed"})
	}
	w.assertQ++
	res, m := w.query(w.ts.mk(ONot, 0, t, nil, nil))
	switch res {
	case "unsat":
		return
	case "sat":
		w.fail(key, w.modelWith(m), "")
		w.failed = true
		w.assume(c)
	default:
		atomic.AddInt64(&w.eng.unknown, 1)
	}
}

func (w *W) fail(key string, tape []int32, note string) {
	w.lcands = append(w.lcands, Candidate{key, tape, note})
}

// ---- exploration ----

func (e *Engine) push(j Job) {
	e.mu.Lock()
	e.queue = append(e.queue, j)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) take() (Job, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return Job{}, false
		}
		if len(e.queue) > 0 {
			if time.Now().After(e.deadline) || (e.maxPaths > 0 && atomic.LoadInt64(&e.paths) >= e.maxPaths) {
				e.stop = true
				e.cond.Broadcast()
				return Job{}, false
			}
			j := e.queue[len(e.queue)-1]
			e.queue = e.queue[:len(e.queue)-1]
			e.active++
			return j, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return Job{}, false
		}
		e.cond.Wait()
	}
}

func (e *Engine) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.queue) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Engine) explore(workers int) {
	e.cond = sync.NewCond(&e.mu)
	e.certs = &Certs{seen: map[[2]uint64]bool{}}
	e.unsupp = map[string]int64{}
	e.candKeys = map[string]int{}
	e.reach = map[string]int64{}
	e.covered = map[string]int64{}
	e.varsSeen = map[string]string{}
	e.queue = []Job{{}}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newW(e)
			defer w.solver.close()
			for {
				j, ok := e.take()
				if !ok {
					break
				}
				w.runPath(j)
				e.done()
			}
			w.flushCerts()
			e.mu.Lock()
			e.queries += w.solver.queries
			e.qsat += w.solver.sat
			e.qunsat += w.solver.unsat
			e.qunknown += w.solver.unknown
			e.solverDur += w.solver.dur
			e.merges += w.merges
			e.asserts += w.asserts
			e.assertQ += w.assertQ
			e.folded += w.folded
			e.forks += w.forks
			for f, n := range w.cov {
				if f.repo && !strings.Contains(f.name, "zzverif") {
					e.covered[f.name] += n
				}
			}
			e.mu.Unlock()
		}()
	}
	wg.Wait()
	e.exhausted = len(e.queue) == 0 && !e.stop
}

func (w *W) runPath(j Job) {
	w.ts.reset()
	w.vars = w.vars[:0]
	w.multi = nil
	w.tape = j.tape
	w.start = j.start
	w.nbranch = 0
	w.sp = 0
	w.frames = w.frames[:0]
	w.deferOwner = nil
	w.spec = 0
	w.steps = 0
	w.maxSteps = 30e6
	w.globals = make([]*Value, len(w.globals))
	w.outs = nil
	w.failed = false
	w.onces = nil
	w.mapOrder = w.eng.mapOrder
	w.lcands = nil
	w.reach = map[string]int64{}
	e := w.eng
	end := ""
	var uns string
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					end = r.why
				case *goPanic:
					end = "panic"
					w.fail("panic", w.model(), "uncaught panic: "+w.panicText(r)+r.where)
				case unsupportedErr:
					end = "unsupported"
					uns = r.what
				case specAbort:
					end = "unsupported"
					uns = "internal: stray speculation abort"
				default:
					end = "unsupported"
					uns = "internal: " + fmt.Sprint(r)
					if verbose {
						logf("%s\n%s", uns, debug.Stack())
					}
				}
			}
		}()
		w.callFn(e.initFn, nil, nil)
		w.callFn(e.entry, nil, nil)
		end = "ok"
	}()
	n := atomic.AddInt64(&e.paths, 1)
	atomic.AddInt64(&e.steps, w.steps)
	var tape []int32
	if e.tapes != nil && end == "ok" {
		tape = w.model()
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if tape != nil {
		e.tapes(tape)
	}
	for k, c := range w.reach {
		e.reach[k] += c
	}
	for _, v := range w.vars {
		if _, ok := e.varsSeen[v.name]; !ok {
			if v.strs != nil {
				e.varsSeen[v.name] = fmt.Sprintf("%d strings %s", len(v.strs), trunc(fmt.Sprintf("%q", v.strs), 200))
			} else {
				e.varsSeen[v.name] = fmt.Sprintf("%d values", len(v.dom))
			}
		}
	}
	switch end {
	case "assumed":
		e.assumed++
	case "unsupported":
		e.unsupp[uns]++
		if len(e.unsuppT) < 2000 {
			e.unsuppT = append(e.unsuppT, w.model())
		}
	case "step limit", "stack overflow":
		w.lcands = append(w.lcands, Candidate{"nontermination", w.model(), end})
	}
	for _, c := range w.lcands {
		e.candKeys[c.key]++
		if e.candKeys[c.key] <= 40 {
			e.cands = append(e.cands, c)
		}
	}
	// Keep a spread of samples: all of the first 64, then ever rarer ones.
	if end == "ok" || end == "assumed" {
		if n <= 64 || n%sampleStride(n) == 0 {
			if len(e.samples) < 600 {
				e.samples = append(e.samples, Sample{w.model(), append([]string(nil), w.outs...), end})
			}
		}
	}
}

func sampleStride(n int64) int64 {
	s := int64(1)
	for n > 64 {
		n /= 2
		s *= 2
	}
	return s
}

func sortedKeys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var profForks = os.Getenv("FORKS") != ""
var forkProf sync.Map

func (w *W) noteFork() {
	w.forks++
	if profForks {
		s := w.where()
		c, _ := forkProf.LoadOrStore(s, new(int64))
		atomic.AddInt64(c.(*int64), 1)
	}
}

func dumpForks() {
	type kv struct {
		k string
		n int64
	}
	var l []kv
	forkProf.Range(func(k, v any) bool { l = append(l, kv{k.(string), *v.(*int64)}); return true })
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		if i < 25 {
			logf("  fork %8d %s", x.n, strings.ReplaceAll(x.k, modPath+"/", ""))
		}
	}
}
