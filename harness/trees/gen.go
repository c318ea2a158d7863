// Package trees holds the harnesses for operations on syntax trees. Trees are
// built directly: every choice of constituents is symbolic, and at most a
// given number of them deviate from the simplest choice.
package trees

import (
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/zzverif/astx"
	"github.com/eaburns/toaq/zzverif/v"
)

// gen makes a tree from choices. The first tree draws symbolic choices; the
// second one repeats those of the first except for one.
type gen struct {
	budget int
	free   bool  // the next choice, that of the root, is not counted
	rec    []int // choices made
	replay []int
	change int // index of the choice to change, or -1
	n      int // words so far
	kind   int // of the root
}

func (g *gen) pick(n int) int {
	if g.replay != nil {
		k, i := 0, len(g.rec)
		if i < len(g.replay) {
			k = g.replay[i] % n
		}
		if i == g.change && n > 1 {
			k = (k + 1 + v.Force(v.Pick("by", n-1))) % n
		}
		g.rec = append(g.rec, k)
		return k
	}
	k := 0
	if g.budget > 0 || g.free {
		k = v.Force(v.Pick("c", n))
		if k != 0 && !g.free {
			g.budget--
		}
		g.free = false
	}
	g.rec = append(g.rec, k)
	return k
}

var texts = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"}

func (g *gen) word() ast.Word {
	w := ast.Word{T: texts[g.n%len(texts)]}
	if g.replay != nil {
		w.T = v.Sel(v.Pick("text", 2), []string{w.T, "z"})
	}
	g.n++
	switch g.pick(8) {
	case 1:
		w.T += "x"
	case 2:
		w.M = &ast.Space{T: " "}
	case 3:
		i := ast.Interjection(g.word())
		w.M = &i
	case 4:
		w.M = &ast.Parenthetical{KIO: g.word(), Discourse: g.discourse(), KI: g.word()}
	case 5:
		w.M = &ast.Incidental{JU: g.word(), Statement: g.statement()}
	case 6:
		w.M = &ast.Vocative{HU: g.word(), Argument: g.argument()}
	case 7:
		i := ast.Interjection(g.word())
		w.M = &ast.Space{T: ".", M: &i}
	}
	return w
}

func (g *gen) opt() *ast.Word {
	if g.pick(2) == 0 {
		return nil
	}
	w := g.word()
	return &w
}

func (g *gen) cop(kid func() ast.Node) *ast.CoP {
	if g.pick(2) == 0 {
		c := &ast.CoP{}
		c.Left = kid()
		c.RU = g.word()
		c.Right = kid()
		return c
	}
	to, ru := g.word(), g.word()
	c := &ast.CoP{TO0: &to, RU: ru}
	c.Left = kid()
	to1 := g.word()
	c.TO1 = &to1
	c.Right = kid()
	return c
}

func (g *gen) lu() *ast.LUPhrase {
	lu := g.word()
	return &ast.LUPhrase{LU: lu, Statement: g.statement()}
}

func (g *gen) text() *ast.Text {
	t := &ast.Text{}
	if g.pick(2) == 1 {
		t.Leading = &ast.Space{T: " "}
	}
	if g.pick(2) == 0 {
		t.Discourse = g.discourse()
	}
	return t
}

func (g *gen) discourse() ast.Discourse {
	d := ast.Discourse{g.element()}
	for n := g.pick(3); n > 0; n-- {
		d = append(d, g.element())
	}
	return d
}

func (g *gen) element() ast.Node {
	switch g.pick(5) {
	case 1:
		return g.prenex()
	case 2:
		return g.terms()
	case 3:
		return g.relative()
	case 4:
		i := ast.Interjection(g.word())
		return &i
	}
	return g.sentence()
}

func (g *gen) sentence() ast.Sentence {
	if g.pick(2) == 1 {
		return (*ast.CoPSentence)(g.cop(func() ast.Node { return g.sentence() }))
	}
	je := g.opt()
	st := g.statement()
	return &ast.StatementSentence{JE: je, Statement: st, DA: g.opt()}
}

func (g *gen) prenex() *ast.Prenex {
	ts := g.terms()
	return &ast.Prenex{Terms: ts, BI: g.word()}
}

func (g *gen) statement() ast.Statement {
	switch g.pick(3) {
	case 1:
		p := g.prenex()
		return &ast.PrenexStatement{Prenex: *p, Statement: g.statement()}
	case 2:
		return (*ast.CoPStatement)(g.cop(func() ast.Node { return g.statement() }))
	}
	return g.predication()
}

func (g *gen) predication() *ast.Predication {
	p := &ast.Predication{Predicate: g.predicate()}
	if g.pick(2) == 1 {
		p.Terms = g.terms()
	}
	p.NA = g.opt()
	return p
}

func (g *gen) predicate() ast.Predicate {
	switch g.pick(9) {
	case 1:
		l := g.predicate()
		return &ast.SerialPredicate{Left: l, Right: g.predicate()}
	case 2:
		return (*ast.CoPPredicate)(g.cop(func() ast.Node { return g.predicate() }))
	case 3:
		return (*ast.LUPredicate)(g.lu())
	case 4:
		w := g.word()
		var p ast.Phrase
		switch g.pick(4) {
		case 0:
			p = g.predicate()
		case 1:
			p = g.argument()
		case 2:
			p = g.adverb()
		case 3:
			p = g.preposition()
		}
		return &ast.MIPredicate{MI: w, Phrase: p, GA: g.opt()}
	case 5:
		w := g.word()
		a := g.argument()
		return &ast.POPredicate{PO: w, Argument: a, GA: g.opt()}
	case 6:
		w := g.word()
		d := g.discourse()
		return &ast.MOPredicate{MO: w, Discourse: d, TEO: g.word()}
	case 7:
		w := g.word()
		return &ast.PrefixedPredicate{MU: w, Predicate: g.predicate()}
	case 8:
		return g.content()
	}
	w := ast.WordPredicate(g.word())
	return &w
}

func (g *gen) terms() ast.Terms {
	ts := ast.Terms{g.term()}
	for n := g.pick(3); n > 0; n-- {
		ts = append(ts, g.term())
	}
	return ts
}

func (g *gen) term() ast.Term {
	switch g.pick(5) {
	case 1:
		w := g.word()
		return &ast.LinkedTerm{GO: w, Argument: g.argument()}
	case 2:
		return g.adverb()
	case 3:
		return g.preposition()
	case 4:
		return (*ast.TermSet)(g.cop(func() ast.Node { return g.terms() }))
	}
	return g.argument()
}

func (g *gen) argument() ast.Argument {
	if g.pick(2) == 1 {
		return (*ast.CoPArgument)(g.cop(func() ast.Node { return g.argument() }))
	}
	a := &ast.PredicateArgument{}
	a.Focus = g.opt()
	a.Quantifier = g.opt()
	a.Predicate = g.predicate()
	if g.pick(2) == 1 {
		a.Relative = g.relative()
	}
	return a
}

func (g *gen) relative() ast.Relative {
	switch g.pick(3) {
	case 1:
		return (*ast.LURelative)(g.lu())
	case 2:
		return (*ast.CoPRelative)(g.cop(func() ast.Node { return g.relative() }))
	}
	return &ast.PredicationRelative{Predication: *g.predication()}
}

func (g *gen) content() ast.Content {
	switch g.pick(3) {
	case 1:
		return (*ast.LUContent)(g.lu())
	case 2:
		return (*ast.CoPContent)(g.cop(func() ast.Node { return g.content() }))
	}
	return &ast.PredicationContent{Predication: *g.predication()}
}

func (g *gen) adverb() ast.Adverb {
	if g.pick(2) == 1 {
		return (*ast.CoPAdverb)(g.cop(func() ast.Node { return g.adverb() }))
	}
	return &ast.PredicateAdverb{Predicate: g.predicate()}
}

func (g *gen) preposition() ast.Preposition {
	if g.pick(2) == 1 {
		return (*ast.CoPPreposition)(g.cop(func() ast.Node { return g.preposition() }))
	}
	p := g.predicate()
	return &ast.PredicationPreposition{Predicate: p, Argument: g.argument()}
}

// root makes a tree of any kind.
func (g *gen) root() ast.Node {
	g.kind = v.Force(v.Pick("root", 12))
	return g.like(g.kind)
}

// like makes a tree of the given kind.
func (g *gen) like(kind int) ast.Node {
	switch kind {
	case 1:
		return g.argument()
	case 2:
		return g.term()
	case 3:
		return g.terms()
	case 4:
		return g.relative()
	case 5:
		return g.content()
	case 6:
		return g.adverb()
	case 7:
		return g.preposition()
	case 8:
		return g.cop(func() ast.Node { return g.predicate() })
	case 9:
		return g.lu()
	case 10:
		w := g.word()
		return &w
	case 11:
		return g.predicate()
	}
	return g.text()
}

func newGen() *gen {
	return &gen{budget: v.Param("budget", 2), free: v.Param("free", 1) != 0, change: -1}
}

// layout gives the words of a tree positions in the order they are written.
func layout(n ast.Node, at int) int {
	if w, ok := n.(*ast.Word); ok {
		w.S = at
		at += len(w.T)
		w.E = at
	}
	for _, k := range astx.Kids(n) {
		at = layout(k, at)
	}
	return at
}
