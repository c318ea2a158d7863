// Package v is the run-time of the harnesses. The symbolic engine replaces
// these functions; this implementation replays one concrete model.
package v

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
)

type request struct {
	Fn     string         `json:"fn"`
	Params map[string]int `json:"params"`
	Tape   []int          `json:"tape"`
	Tries  int            `json:"tries"`
}

type outcome struct {
	End  string   `json:"end"`
	Key  string   `json:"key"`
	Ctx  string   `json:"ctx"`
	Msg  string   `json:"msg"`
	Outs []string `json:"outs"`
}

type stop struct{ why, key string }

var (
	req  request
	next int
	res  outcome
	done bool
)

// Main runs the harnesses named on standard input, one request per line,
// and writes the outcomes to file descriptor 3.
func Main(hs map[string]func()) {
	out := os.NewFile(3, "out")
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	enc := json.NewEncoder(out)
	for sc.Scan() {
		req = request{}
		if err := json.Unmarshal(sc.Bytes(), &req); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if req.Tries < 1 {
			req.Tries = 1
		}
		f := hs[req.Fn]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness", req.Fn)
			os.Exit(2)
		}
		for i := 0; i < req.Tries; i++ {
			run(f)
			if res.End != "ok" && res.End != "assumed" {
				break
			}
		}
		enc.Encode(res)
	}
	os.Exit(0)
}

func run(f func()) {
	next = 0
	res = outcome{}
	done = false
	defer func() {
		r := recover()
		if done { // the outcome was decided before the panic
			return
		}
		if r != nil {
			if s, ok := r.(stop); ok {
				res.End, res.Key = s.why, s.key
				return
			}
			res.End, res.Key, res.Msg = "panic", "panic", fmt.Sprint(r)+" at "+where()
			return
		}
		res.End = "ok"
	}()
	f()
}

func where() string {
	pcs := make([]uintptr, 50)
	n := runtime.Callers(2, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	var s []string
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "eaburns/toaq") && !strings.Contains(f.Function, "zzverif/v") && len(s) < 4 {
			s = append(s, fmt.Sprintf("%s:%d", f.Function, f.Line))
		}
		if !more {
			break
		}
	}
	return strings.Join(s, " < ")
}

func take(n int) int {
	i := 0
	if next < len(req.Tape) {
		i = req.Tape[next]
	}
	next++
	if i < 0 || i >= n {
		i = 0
	}
	return i
}

// Symbolic tells whether the symbolic engine is running the harness.
func Symbolic() bool { return false }

// Pick is an arbitrary int in [0,n).
func Pick(name string, n int) int { return take(n) }

// Byte is an arbitrary byte of the set.
func Byte(name, set string) byte {
	var dom []byte
	seen := map[byte]bool{}
	for i := 0; i < len(set); i++ {
		if !seen[set[i]] {
			seen[set[i]] = true
			dom = append(dom, set[i])
		}
	}
	return dom[take(len(dom))]
}

// Rune is an arbitrary rune of the set.
func Rune(name, set string) rune {
	var dom []rune
	seen := map[rune]bool{}
	for _, r := range set {
		if !seen[r] {
			seen[r] = true
			dom = append(dom, r)
		}
	}
	return dom[take(len(dom))]
}

// Str is an arbitrary one of the strings.
func Str(name string, opts []string) string { return opts[take(len(opts))] }

// Sel is opts[i], without branching on i except for the length.
func Sel(i int, opts []string) string { return opts[i] }

// Assume restricts the exploration.
func Assume(c bool) {
	if !c {
		panic(stop{"assumed", ""})
	}
}

// Discard ends the path.
func Discard() { panic(stop{"assumed", ""}) }

// Assert is the property.
func Assert(c bool, key string) {
	if !c {
		Fail(key)
	}
}

// Fail is Assert(false, key).
func Fail(key string) {
	if !done {
		done = true
		res.End, res.Key = "failed", key
	}
	panic(stop{"failed", key})
}

// Ctx describes the input, for reports.
func Ctx(s string) { res.Ctx = s }

// Reach is a reachability witness.
func Reach(label string) {}

// Out is an observation to be compared between the encoding and the native build.
func Out(s string) { res.Outs = append(res.Outs, s) }

// StrEq is a == b, without branching.
func StrEq(a, b string) bool { return a == b }

// And is a && b, without branching.
func And(a, b bool) bool { return a && b }

// Or is a || b, without branching.
func Or(a, b bool) bool { return a || b }

// Param is a bound set by the check's configuration.
func Param(name string, def int) int {
	if x, ok := req.Params[name]; ok {
		return x
	}
	return def
}

// Force makes the engine case-split on x.
func Force(x int) int { return x }

// MapOrder selects one of the engine's map iteration orders; natively maps
// are iterated in random order.
func MapOrder(int) {}
