package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Native is the natively compiled harness package.
type Native struct {
	bin  string
	done chan struct{}
	err  error
}

func (n *Native) wait() error { <-n.done; return n.err }

// Outcome is what one native run observed.
type Outcome struct {
	End  string   `json:"end"` // ok, assumed, failed, panic, crash, timeout
	Key  string   `json:"key"`
	Ctx  string   `json:"ctx"`
	Msg  string   `json:"msg"`
	Outs []string `json:"outs"`
}

func (o Outcome) bad() bool {
	switch o.End {
	case "failed", "panic", "crash", "timeout":
		return true
	}
	return false
}

func (o Outcome) describe() string {
	s := o.End
	if o.Key != "" {
		s += " [" + o.Key + "]"
	}
	if o.Msg != "" {
		s += ": " + o.Msg
	}
	return s
}

type request struct {
	Fn     string         `json:"fn"`
	Params map[string]int `json:"params"`
	Tape   []int32        `json:"tape"`
	Tries  int            `json:"tries"`
}

// batch runs the tapes one after another, restarting the process when it dies.
func (n *Native) batch(fn string, params map[string]int, tapes [][]int32) []Outcome {
	return n.run(fn, params, tapes, 1, 20*time.Second)
}

func (n *Native) run(fn string, params map[string]int, tapes [][]int32, tries int, perRun time.Duration) []Outcome {
	var res []Outcome
	for len(res) < len(tapes) {
		var in bytes.Buffer
		for _, t := range tapes[len(res):] {
			data, _ := json.Marshal(request{fn, params, t, tries})
			in.Write(data)
			in.WriteByte('\n')
		}
		cmd := exec.Command(n.bin)
		cmd.Dir = tmpDir
		cmd.Env = append(os.Environ(), "ZZVERIF=1", "GOMEMLIMIT=4GiB", "GOTRACEBACK=single")
		cmd.Stdin = &in
		var errb tailBuf
		cmd.Stderr = &errb
		pr, pw, err := os.Pipe()
		if err != nil {
			fatal("pipe: %v", err)
		}
		cmd.ExtraFiles = []*os.File{pw}
		if err := cmd.Start(); err != nil {
			fatal("native: %v", err)
		}
		pw.Close()
		timedOut := false
		timer := time.AfterFunc(perRun, func() { timedOut = true; cmd.Process.Kill() })
		sc := bufio.NewScanner(pr)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			timer.Reset(perRun)
			var o Outcome
			if err := json.Unmarshal(sc.Bytes(), &o); err != nil {
				o = Outcome{End: "garbled", Msg: err.Error()}
			}
			res = append(res, o)
			if len(res) == len(tapes) {
				break
			}
		}
		timer.Stop()
		pr.Close()
		cmd.Process.Kill()
		cmd.Wait()
		if len(res) < len(tapes) {
			o := Outcome{End: "crash", Key: "crash", Msg: errb.first()}
			if timedOut {
				o = Outcome{End: "timeout", Key: "nontermination", Msg: fmt.Sprintf("no answer within %v", perRun)}
			}
			o.Ctx = errb.ctx()
			res = append(res, o)
		}
	}
	return res
}

func (n *Native) replay(fn string, params map[string]int, tape []int32, tries int) Outcome {
	return n.run(fn, params, [][]int32{tape}, tries, 30*time.Second)[0]
}

// tailBuf keeps the start of what is written to it.
type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuf) first() string {
	for _, l := range strings.Split(string(t.b), "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	return "the process died"
}

func (t *tailBuf) ctx() string { return "" }
