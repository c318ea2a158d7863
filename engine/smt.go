package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Solver is one z3 process driven over a pipe.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	queries int
	sat     int
	unsat   int
	unknown int
	dur     time.Duration
}

func newSolver() *Solver {
	s := &Solver{}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("z3: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("z3: %v", err)
	}
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start z3: %v", err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	io.WriteString(s.in, "(set-option :timeout 10000)\n(set-option :print-success false)\n")
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// check decides the body; when sat and names are given, it returns their values.
func (s *Solver) check(body string, names []string) (string, []int64) {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.queries++
	var b strings.Builder
	b.WriteString("(push 1)\n")
	b.WriteString(body)
	b.WriteString("(check-sat)\n(echo \"@@1\")\n")
	if _, err := io.WriteString(s.in, b.String()); err != nil {
		s.restart()
		s.unknown++
		return "unknown", nil
	}
	res, bad := "unknown", false
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.restart()
			s.unknown++
			return "unknown", nil
		}
		line = strings.TrimSpace(line)
		if line == "@@1" {
			break
		}
		switch {
		case line == "sat" || line == "unsat":
			res = line
		case strings.HasPrefix(line, "(error"):
			bad = true
			logf("solver error: %s", line)
		}
	}
	if bad {
		res = "unknown"
	}
	var vals []int64
	if res == "sat" && len(names) > 0 {
		fmt.Fprintf(s.in, "(get-value (%s))\n(echo \"@@2\")\n", strings.Join(names, " "))
		var txt strings.Builder
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				s.restart()
				return "unknown", nil
			}
			if strings.TrimSpace(line) == "@@2" {
				break
			}
			txt.WriteString(line)
		}
		fs := strings.FieldsFunc(txt.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
		m := map[string]int64{}
		for i := 0; i+1 < len(fs); i += 2 {
			x := fs[i+1]
			if strings.HasPrefix(x, "#x") {
				u, _ := strconv.ParseUint(x[2:], 16, 64)
				m[fs[i]] = int64(u)
			}
		}
		for _, n := range names {
			vals = append(vals, m[n])
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	switch res {
	case "sat":
		s.sat++
	case "unsat":
		s.unsat++
	default:
		s.unknown++
	}
	return res, vals
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

// Certs collects the small obligations that justify the engine's
// domain reasoning, and has the solver discharge them in batches.
type Certs struct {
	mu      sync.Mutex
	seen    map[[2]uint64]bool
	total   int // obligations met while exploring
	unique  int // distinct obligations sent to the solver
	passed  int
	failed  int
	unknown int
}

func (c *Certs) add(k [2]uint64) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.total++
	if c.seen[k] {
		return false
	}
	c.seen[k] = true
	c.unique++
	return true
}

type certItem struct {
	body string
	bad  string
}

// certify queues the claim: for v in S, t equals member(T) (boolean t) or constant k.
func (w *W) certify(v *Var, S bitset, t *Term, T bitset, isConst bool, k int64) {
	h := mix(mix(v.dsig, S.hash()), t.h)
	h2 := mix(mix(t.h2, S.hash()*7), v.dsig)
	if isConst {
		h, h2 = mix(h, uint64(k)+1), mix(h2, uint64(k)*5+3)
	} else {
		h, h2 = mix(h, T.hash()+99), mix(h2, T.hash()*3+1)
	}
	if !w.eng.certs.add([2]uint64{h, h2}) {
		return
	}
	var s strings.Builder
	w.certN++
	pre := fmt.Sprintf("c%d_", w.certN)
	vn := pre + "v"
	p := &smtPrinter{s: &s, name: map[int32]string{}, vname: map[*Var]string{v: vn}, pre: pre}
	fmt.Fprintf(&s, "(declare-const %s (_ BitVec 64))\n", vn)
	e := p.ref(t)
	in := p.member(v, v.vals(S))
	var want string
	if isConst {
		if t.bool {
			want = "false"
			if k != 0 {
				want = "true"
			}
		} else {
			want = bv(k)
		}
	} else {
		want = p.member(v, v.vals(T))
	}
	fmt.Fprintf(&s, "(define-fun %sbad () Bool (and %s (not (= %s %s))))\n", pre, in, e, want)
	w.certQ = append(w.certQ, certItem{s.String(), pre + "bad"})
	if len(w.certQ) >= 1 {
		w.flushCerts()
	}
}

func (w *W) flushCerts() {
	q := w.certQ
	w.certQ = nil
	if len(q) == 0 {
		return
	}
	var b strings.Builder
	for _, c := range q {
		b.WriteString(c.body)
	}
	b.WriteString("(assert (or false")
	for _, c := range q {
		b.WriteString(" " + c.bad)
	}
	b.WriteString("))\n")
	res, _ := w.solver.check(b.String(), nil)
	cs := w.eng.certs
	if res == "unsat" {
		cs.mu.Lock()
		cs.passed += len(q)
		cs.mu.Unlock()
		return
	}
	for _, c := range q {
		res, _ := w.solver.check(c.body+"(assert "+c.bad+")\n", nil)
		cs.mu.Lock()
		switch res {
		case "unsat":
			cs.passed++
		case "sat":
			cs.failed++
			logf("certificate refuted:\n%s", c.body)
		default:
			cs.unknown++
		}
		cs.mu.Unlock()
	}
}

// query decides (path condition and cond). It returns sat/unsat/unknown
// and, when sat, domain indices for the variables concerned.
func (w *W) query(conds ...*Term) (string, map[*Var]int) {
	w.late()
	// Cone of influence.
	in := map[*Var]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t.v != nil {
			in[t.v] = true
		}
		for _, v := range t.vars {
			in[v] = true
		}
	}
	for _, c := range conds {
		add(c)
	}
	used := make([]bool, len(w.multi))
	for changed := true; changed; {
		changed = false
		for i, m := range w.multi {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range m.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				add(m)
			}
		}
	}
	var s strings.Builder
	p := &smtPrinter{s: &s, name: map[int32]string{}, vname: map[*Var]string{}, pre: "q_"}
	var vs []*Var
	var names []string
	for _, v := range w.vars {
		if !in[v] {
			continue
		}
		n := fmt.Sprintf("v%d", v.id)
		p.vname[v] = n
		vs = append(vs, v)
		names = append(names, n)
		fmt.Fprintf(&s, "(declare-const %s (_ BitVec 64))\n", n)
		fmt.Fprintf(&s, "(assert %s)\n", p.member(v, v.vals(v.cur)))
	}
	for i, m := range w.multi {
		if used[i] {
			e := p.ref(m)
			fmt.Fprintf(&s, "(assert %s)\n", e)
		}
	}
	for _, c := range conds {
		e := p.ref(c)
		fmt.Fprintf(&s, "(assert %s)\n", e)
	}
	res, vals := w.solver.check(s.String(), names)
	if res != "sat" {
		return res, nil
	}
	m := map[*Var]int{}
	for i, v := range vs {
		idx := -1
		for j, d := range v.dom {
			if d == vals[i] {
				idx = j
				break
			}
		}
		if idx < 0 {
			return "unknown", nil
		}
		m[v] = idx
	}
	return res, m
}

// late ends a path that runs over the deadline; it counts as not explored.
func (w *W) late() {
	if time.Now().After(w.eng.deadline.Add(5 * time.Second)) {
		w.eng.mu.Lock()
		w.eng.stop = true
		w.eng.latePaths++
		w.eng.mu.Unlock()
		panic(pathEnd{"late"})
	}
}
