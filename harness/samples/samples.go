// Package samples has the inputs of the programs around the parser.
package samples

import (
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

// Texts are texts of every kind: sentences, fragments, texts of nothing,
// texts without a supported meaning, and texts that are not of the language.
var Texts = []string{
	"mai? ji/ da", "mải jı́ da", "MAI? Ji/", "mai? sa poq/ ru tu nuo/ suq/ da", "ji/ bi mai? do/ hoa ka", "mai? sa poq/ raiV suq/ na da mai? moq",
	"", " ", "hu ji/", "ji/ bi", "kio mai? ki", "bei", "mai? mo/ mai? ji/ teo <b>&",
	"mai? sa poq/ ro tu suq/ da", "mai? da roi mai? da", "to ro mai? to suq?", "mai? re suq? da", "to ro sa poq/ to tu suq/ mai? ji/", "mai? ji/ roi suq/",
	"mai? ji/ da mai? sa poq/ ru tu nuo/ suq/ da je mai? do/ sia kue/ jai/ da to ru mai? to na mai? chuq? da kio mai? ki",
	"  mai? ji/", "mai? ji/ da\n", "\tmai?\n\n", "m̄ai ji", "māi ji", "mai4 ji2", "Mai? Poq/!", "mai?, poq/.", "mai? ka", "mai? sa poq/ jei suq/ da",
	"mai", "mai? xyz", "ji/ mai? sa", "?", "mai? da mai? da mai? sa sa", "mai? ji/\n\nmai? zzz", "moq", "\xff", "mai? \"quoted\" <b>&amp;</b> \\ ",
}

// Result is what the parser and the interpreter give for a text.
type Result struct {
	Err         string // of the parser
	Failed      bool
	Text        *ast.Text
	Words       string
	Braces      string
	Meaning     string // "" if there is none
	Unsupported bool
}

// Of computes the result of a text.
func Of(text string) Result {
	t, err := ast.NewParser(text).Text()
	if err != nil {
		return Result{Err: err.Error(), Failed: true}
	}
	r := Result{Text: t, Braces: ast.BracesString(t)}
	ast.Visit(t, ast.FuncVisitor(func(n ast.Node) {
		if w, ok := n.(*ast.Word); ok {
			r.Words += w.T
		}
	}))
	st, failed := interpret(t)
	r.Unsupported = failed
	if !failed && st != nil {
		r.Meaning = logic.PrettyString(st)
	}
	return r
}

func interpret(t *ast.Text) (st logic.Statement, failed bool) {
	defer func() {
		if recover() != nil {
			failed = true
		}
	}()
	return logic.Interpret(t), false
}

// Plain is the meaning in plain notation.
func Plain(t *ast.Text) string {
	st, failed := interpret(t)
	if failed || st == nil {
		return ""
	}
	return logic.String(st)
}
