// Package osshim stands in for package os in copies of the main packages.
package osshim

import (
	"errors"
	"io"
	"strings"
)

// Exited is the panic of Exit.
type Exited struct{ Code int }

// A File is a readable or writable text.
type File struct {
	name string
	r    *strings.Reader
	out  *strings.Builder
	fail bool
}

// System state that harnesses set and inspect.
var (
	Args   = []string{"prog"}
	Stdin  = &File{name: "stdin", r: strings.NewReader("")}
	Out    = &strings.Builder{}
	Err    = &strings.Builder{}
	Stdout = &File{name: "stdout", out: Out}
	Stderr = &File{name: "stderr", out: Err}
	Files  = map[string]string{}
	Broken = map[string]bool{}
	Env    = map[string]string{}

	ErrNotExist = errors.New("file does not exist")
	ErrBroken   = errors.New("read error")
)

// Reset resets the state, with the text as standard input.
func Reset(input string, broken bool) {
	Args = []string{"prog"}
	Stdin = &File{name: "stdin", r: strings.NewReader(input), fail: broken}
	Out, Err = &strings.Builder{}, &strings.Builder{}
	Stdout, Stderr = &File{name: "stdout", out: Out}, &File{name: "stderr", out: Err}
	Files, Broken, Env = map[string]string{}, map[string]bool{}, map[string]string{}
}

func Exit(code int) { panic(Exited{code}) }

func Getenv(k string) string { return Env[k] }

func LookupEnv(k string) (string, bool) { s, ok := Env[k]; return s, ok }

func Open(name string) (*File, error) {
	s, ok := Files[name]
	if !ok {
		return nil, ErrNotExist
	}
	return &File{name: name, r: strings.NewReader(s), fail: Broken[name]}, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	return io.ReadAll(f)
}

func (f *File) Name() string { return f.name }
func (f *File) Close() error { return nil }

func (f *File) Read(p []byte) (int, error) {
	if f.r == nil || f.fail {
		return 0, ErrBroken
	}
	return f.r.Read(p)
}

func (f *File) Write(p []byte) (int, error) {
	if f.out == nil {
		return 0, ErrBroken
	}
	return f.out.Write(p)
}

func (f *File) WriteString(s string) (int, error) {
	if f.out == nil {
		return 0, ErrBroken
	}
	return f.out.WriteString(s)
}
