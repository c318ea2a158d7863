// Package tmplshim stands in for package html/template in copies of the main packages.
package tmplshim

import (
	"errors"
	"io"
)

// Template is a parsed template file.
type Template struct {
	name string
	bad  bool
}

// State that harnesses set.
var (
	Missing, Bad bool
	Page         = "<page/>"
)

// ParseFiles parses the files, which are there unless Missing is set.
func ParseFiles(files ...string) (*Template, error) {
	if len(files) == 0 {
		return nil, errors.New("template: no files named in call to ParseFiles")
	}
	if Missing {
		return nil, errors.New("open " + files[0] + ": no such file or directory")
	}
	n := files[0]
	for i := len(n) - 1; i >= 0; i-- {
		if n[i] == '/' {
			n = n[i+1:]
			break
		}
	}
	return &Template{name: n, bad: Bad}, nil
}

// Must panics on an error.
func Must(t *Template, err error) *Template {
	if err != nil {
		panic(err)
	}
	return t
}

// ExecuteTemplate writes the page.
func (t *Template) ExecuteTemplate(w io.Writer, name string, data interface{}) error {
	if name != t.name {
		return errors.New("template: no template " + name)
	}
	return t.Execute(w, data)
}

// Execute writes the page.
func (t *Template) Execute(w io.Writer, data interface{}) error {
	if t.bad {
		return errors.New("template: " + t.name + ": error calling")
	}
	_, err := io.WriteString(w, Page)
	return err
}

// Lookup finds a template.
func (t *Template) Lookup(name string) *Template {
	if name != t.name {
		return nil
	}
	return t
}

// Name is the template's name.
func (t *Template) Name() string { return t.name }
