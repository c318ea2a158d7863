// Package fmtshim stands in for package fmt in copies of the main packages:
// what is printed goes to the standard output of package osshim.
package fmtshim

import (
	"fmt"
	"io"

	"github.com/eaburns/toaq/zzverif/osshim"
)

type (
	Stringer = fmt.Stringer
	State    = fmt.State
)

func Println(a ...interface{}) (int, error) { return osshim.Stdout.WriteString(fmt.Sprintln(a...)) }
func Print(a ...interface{}) (int, error)   { return osshim.Stdout.WriteString(fmt.Sprint(a...)) }
func Printf(f string, a ...interface{}) (int, error) {
	return osshim.Stdout.WriteString(fmt.Sprintf(f, a...))
}
func Sprintln(a ...interface{}) string          { return fmt.Sprintln(a...) }
func Sprint(a ...interface{}) string            { return fmt.Sprint(a...) }
func Sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }
func Errorf(f string, a ...interface{}) error   { return fmt.Errorf(f, a...) }
func Fprintln(w io.Writer, a ...interface{}) (int, error) {
	return io.WriteString(w, fmt.Sprintln(a...))
}
func Fprint(w io.Writer, a ...interface{}) (int, error) { return io.WriteString(w, fmt.Sprint(a...)) }
func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	return io.WriteString(w, fmt.Sprintf(f, a...))
}
