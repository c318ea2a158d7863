package meaning

import (
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
	"github.com/eaburns/toaq/zzverif/astx"
	"github.com/eaburns/toaq/zzverif/logicx"
	"github.com/eaburns/toaq/zzverif/reflogic"
	"github.com/eaburns/toaq/zzverif/v"
)

// Harnesses lists the entry points.
var Harnesses = map[string]func(){
	"Conform":   Conform,
	"Total":     Total,
	"Scopes":    Scopes,
	"Connect":   Connect,
	"Places":    Places,
	"Pure":      Pure,
	"Sentences": Sentences,
	"Quotes":    Quotes,
	"Spelled":   Spelled,
}

func interpret(t *ast.Text) (st logic.Statement, failed bool) {
	defer func() {
		if recover() != nil {
			failed = true
		}
	}()
	return logic.Interpret(t), false
}

func reference(t *ast.Text) (st reflogic.Statement, failed bool) {
	defer func() {
		if recover() != nil {
			failed = true
		}
	}()
	return reflogic.Interpret(t), false
}

// Conform decides that a text has the meaning of the reference.
func Conform() {
	_, t := source()
	want, no := reference(t)
	got, failed := interpret(t)
	if no {
		v.Reach("unsupported")
		return
	}
	v.Assert(!failed, "a supported text is interpreted")
	v.Assert((got == nil) == (want == nil), "a text has a meaning if and only if it has sentences")
	if want == nil {
		v.Reach("fragments")
		return
	}
	v.Reach("interpreted")
	opts := v.Param("options", 0)
	var nodes map[ast.Node]int
	if opts&logicx.Links != 0 {
		nodes = astx.Index(t)
	}
	d := logicx.Dump(got, opts, nodes)
	v.Out(d)
	v.Assert(v.StrEq(d, reflogic.Dump(want, opts, nodes)), "the text has the meaning of the reference")
}
