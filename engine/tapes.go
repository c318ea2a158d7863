package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Models of explored paths can be stored, and run natively on another tree.
// This is a development aid, to find changes that no check would notice
// without exploring each changed tree: no check uses it.

type tapeHead struct {
	Prop, Pkg, Fn string
	Params        map[string]int
}

// dumpTapes makes the engine store the model of every completed path.
func (e *Engine) dumpTapes(dir, prop string, h HarnessCfg, params map[string]int) func() {
	var key []string
	for k, v := range params {
		key = append(key, fmt.Sprintf("%s%d", k, v))
	}
	sort.Strings(key)
	f, err := os.Create(filepath.Join(dir, prop+"_"+h.Pkg+"_"+h.Fn+"_"+strings.Join(key, "_")))
	if err != nil {
		fatal("%v", err)
	}
	w := bufio.NewWriter(f)
	enc := json.NewEncoder(w)
	enc.Encode(tapeHead{prop, h.Pkg, h.Fn, params})
	e.tapes = func(t []int32) { enc.Encode(t) }
	return func() { w.Flush(); f.Close() }
}

// runTapes runs stored models natively on the tree.
func runTapes(pattern string) int {
	files, _ := filepath.Glob(pattern)
	first := os.Getenv("FIRST") != "" // stop at the first property that notices
	nat := map[string]*Native{}
	caught := map[string]bool{}
	var props []string
	over := false
	for _, name := range files {
		if over {
			break
		}
		f, err := os.Open(name)
		if err != nil {
			fatal("%v", err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		sc.Scan()
		var h tapeHead
		if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
			fatal("%s: %v", name, err)
		}
		if caught[h.Prop] {
			f.Close()
			continue
		}
		var tapes [][]int32
		for sc.Scan() {
			var t []int32
			json.Unmarshal(sc.Bytes(), &t)
			tapes = append(tapes, t)
		}
		f.Close()
		n := nat[h.Pkg]
		if n == nil {
			env, err := newBuildEnv([]string{h.Pkg})
			if err != nil {
				fatal("%v", err)
			}
			n = env.buildNative(h.Pkg)
			nat[h.Pkg] = n
		}
		if err := n.wait(); err != nil {
			fmt.Println("does not build:", err)
			return 2
		}
		parts := 8
		if first {
			parts = 2
		}
		bad := make(chan Outcome, parts)
		for i := 0; i < parts; i++ {
			go func(ts [][]int32) {
				for len(ts) > 0 {
					k := min(len(ts), 200)
					for _, o := range n.run(h.Fn, h.Params, ts[:k], 1, 5*time.Second) {
						if o.bad() {
							bad <- o
							return
						}
					}
					ts = ts[k:]
				}
				bad <- Outcome{End: "ok"}
			}(tapes[len(tapes)*i/parts : len(tapes)*(i+1)/parts])
		}
		for i := 0; i < parts; i++ {
			if o := <-bad; o.bad() && !caught[h.Prop] {
				caught[h.Prop] = true
				props = append(props, h.Prop)
				over = first
				fmt.Printf("%s %s.%s: %s: %s\n", h.Prop, h.Pkg, h.Fn, o.describe(), o.Ctx)
			}
		}
	}
	fmt.Println("caught by", props)
	return 0
}
