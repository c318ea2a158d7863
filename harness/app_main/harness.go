package app_main

import (
	"strings"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/pretty"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/zzverif/osshim"
	"github.com/eaburns/toaq/zzverif/samples"
	"github.com/eaburns/toaq/zzverif/v"
)

// Harnesses lists the entry points.
var Harnesses = map[string]func(){"Command": Command}

// Command decides what the command prints.
func Command() {
	text := samples.Texts[v.Force(v.Pick("text", len(samples.Texts)))]
	path := ""
	bad := false
	switch v.Force(v.Pick("input", 5)) {
	case 0:
		osshim.Reset(text, false)
	case 1:
		osshim.Reset("mai? ji/ da", false)
		path = "dir/file"
		osshim.Args = append(osshim.Args, path)
		osshim.Files[path] = text
	case 2:
		osshim.Reset(text, true)
		bad = true
	case 3:
		osshim.Reset(text, false)
		osshim.Args = append(osshim.Args, "missing")
		bad = true
	case 4:
		osshim.Reset("mai? ji/ da", false)
		osshim.Args = append(osshim.Args, "broken")
		osshim.Files["broken"] = text
		osshim.Broken["broken"] = true
		bad = true
	}
	v.Ctx(path + ": " + text)
	code, failed := command()
	out := osshim.Out.String()
	if bad {
		v.Assert(!failed && code != 0, "the command reports an input that cannot be read")
		v.Assert(out+osshim.Err.String() != "", "the command says that the input cannot be read")
		v.Reach("unreadable")
		return
	}
	r := samples.Of(text)
	if r.Unsupported {
		v.Assert(failed || code != 0 || strings.Contains(out, r.Braces), "an unsupported text is not given a meaning")
		return
	}
	v.Assert(!failed, "the command does not fail")
	if r.Failed {
		v.Assert(code != 0, "the command fails for a rejected text")
		v.Assert(strings.HasSuffix(out, "\n"+path+r.Err+"\n"), "the command prints the error of the parser")
		v.Reach("rejected")
		return
	}
	v.Assert(code == 0, "the command succeeds for a text of the language")
	tree, _ := ast.NewParser(text).Tree()
	want := peg.Pretty(tree) + "\n" + pretty.String(r.Text) + "\n" + r.Words + "\n" + r.Braces + "\n"
	v.Assert(strings.HasPrefix(out, want), "the command prints the parse tree, the syntax tree, the words and the bracketed form")
	rest := strings.TrimPrefix(out, want)
	v.Out(rest)
	m := samples.Plain(r.Text)
	if m == "" {
		v.Assert(rest == "fragment\n", "the command tells fragments")
		v.Reach("fragment")
		return
	}
	v.Assert(strings.HasSuffix(rest, "\n"+m+"\n"), "the command prints the meaning")
	v.Reach("meaning")
}

func command() (code int, failed bool) {
	defer func() {
		if r := recover(); r != nil {
			e, exited := r.(osshim.Exited)
			code, failed = e.Code, !exited
		}
	}()
	main()
	return 0, false
}
