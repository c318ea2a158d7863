// Package ltrees holds the harnesses for operations on logic trees. Trees are
// built directly: every choice of parts is symbolic, and at most a given
// number of them deviate from the simplest choice.
package ltrees

import (
	"github.com/eaburns/pretty"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
	"github.com/eaburns/toaq/zzverif/logicx"
	"github.com/eaburns/toaq/zzverif/v"
)

// Harnesses lists the entry points.
var Harnesses = map[string]func(){
	"Print":  Print,
	"Visit":  Visit,
	"Nill":   Nill,
	"Pretty": Pretty,
}

type gen struct {
	budget int
	n      int // variables
	depth  int
	scope  []*logic.Binding
	nodes  int
}

func newGen() *gen { return &gen{budget: v.Param("budget", 2)} }

func (g *gen) pick(n int) int {
	if g.budget == 0 {
		return 0
	}
	k := v.Force(v.Pick("c", n))
	if k != 0 {
		g.budget--
	}
	return k
}

// ast gives a node a syntax node, or not.
func (g *gen) ast() ast.Node {
	g.nodes++
	return &ast.Word{S: g.nodes, E: g.nodes}
}

func (g *gen) statement() logic.Statement {
	switch g.pick(4) {
	case 1:
		return g.binding()
	case 2:
		c := &logic.Connection{Connector: []logic.Connector{logic.And, logic.Or, logic.Ri}[g.pick(3)], AST: g.ast()}
		c.Left = g.statement()
		c.Right = g.statement()
		return c
	case 3:
		// A connection of connections.
		c := &logic.Connection{Connector: logic.Or, AST: g.ast()}
		d := &logic.Connection{Connector: []logic.Connector{logic.Or, logic.And}[g.pick(2)], AST: g.ast()}
		d.Left = g.statement()
		d.Right = g.predication(1)
		c.Left, c.Right = d, g.binding()
		return c
	}
	return g.predication(2)
}

func (g *gen) binding() logic.Statement {
	b := &logic.Binding{N: g.n, AST: g.ast()}
	g.n++
	b.Quantifier = []logic.Quantifier{logic.Some, logic.The, logic.Lambda, logic.Each, logic.All, logic.None, logic.Hi}[g.pick(7)]
	g.scope = append(g.scope, b)
	switch g.pick(3) {
	case 0:
		b.Restriction = g.predication(1)
	case 2:
		b.Restriction = &logic.Connection{Connector: logic.And, Left: g.predication(1), Right: g.statement(), AST: g.ast()}
	}
	b.Focus = g.pick(2) == 1
	b.Scope = g.statement()
	g.scope = g.scope[:len(g.scope)-1]
	return b
}

func (g *gen) predication(n int) logic.Statement {
	p := &logic.Predication{Predicate: g.predicate(), AST: g.ast()}
	switch g.pick(4) {
	case 1:
		n = 0
	case 2:
		n = 3
	case 3:
		n = 3 - n
	}
	for i := 0; i < n; i++ {
		p.Arguments = append(p.Arguments, g.argument())
	}
	return p
}

func (g *gen) variable() *logic.Variable {
	x := &logic.Variable{AST: g.ast()}
	k := g.pick(len(g.scope) + 1)
	if len(g.scope) == 0 || k == len(g.scope) {
		x.N = g.n
		g.n++
		x.Focus = g.pick(2) == 1
		return x
	}
	x.Def = g.scope[len(g.scope)-1-k]
	x.N = x.Def.N
	x.Focus = g.pick(2) == 1
	return x
}

func (g *gen) argument() logic.Argument {
	switch g.pick(6) {
	case 1:
		return nil
	case 2:
		return &logic.Quote{Text: "mảı", FullText: g.pick(2) == 1, AST: g.ast()}
	case 3:
		p := &logic.Plurality{AST: g.ast()}
		for n := g.pick(3) + 1; n > 0; n-- {
			p.Arguments = append(p.Arguments, g.argument())
		}
		return p
	case 4:
		return &logic.Abstraction{Statement: g.statement(), AST: g.ast()}
	case 5:
		return &logic.Abstraction{Statement: g.binding(), AST: g.ast()}
	}
	return g.variable()
}

var predNames = []string{"mai", "ji", "=", "≺", "shi", "mea", "ua"}

func (g *gen) pred() *logic.Pred {
	return &logic.Pred{Name: predNames[g.pick(len(predNames))], AST: g.ast()}
}

func (g *gen) predicate() logic.Predicate {
	switch g.pick(6) {
	case 1:
		return g.variable()
	case 2:
		return &logic.Abstraction{Statement: g.binding(), AST: g.ast()}
	case 3:
		s := &logic.Serial{AST: g.ast()}
		s.Left = g.predicate()
		s.Right = g.predicate()
		return s
	case 4:
		return &logic.Serial{Left: &logic.Pred{Name: "shi"}, Right: g.predicate(), AST: g.ast()}
	case 5:
		return &logic.Swap{Predicate: g.predicate(), Pos: 1, AST: g.ast()}
	}
	return g.pred()
}

func (g *gen) root() logic.Node {
	// Two bindings around the statement, so that variables have something to refer to.
	k := v.Param("bindings", 2)
	var bs []*logic.Binding
	for i := 0; i < k; i++ {
		b := &logic.Binding{N: g.n, Quantifier: logic.Some, AST: g.ast()}
		g.n++
		switch g.pick(4) {
		case 0:
			g.scope = append(g.scope, b)
			b.Restriction = g.predication(1)
			g.scope = g.scope[:len(g.scope)-1]
		case 1: // none
		case 2:
			b.Restriction = g.statement()
		case 3:
			b.Restriction = &logic.Predication{Predicate: &logic.Pred{Name: "="}, Arguments: []logic.Argument{&logic.Variable{N: b.N, Def: b}, &logic.Quote{Text: "x"}}}
		}
		bs = append(bs, b)
		g.scope = append(g.scope, b)
	}
	st := g.statement()
	for i := k - 1; i >= 0; i-- {
		bs[i].Scope = st
		st = bs[i]
	}
	return st
}

func (g *gen) any() logic.Node {
	switch v.Force(v.Pick("root", 4)) {
	case 1:
		return g.predicate()
	case 2:
		if a := g.argument(); a != nil {
			return a
		}
		v.Discard()
	case 3:
		return g.statement()
	}
	return g.root()
}

// renumber numbers the variables in order of occurrence.
func renumber(n logic.Node) {
	seen := map[*logic.Binding]bool{}
	i := 0
	for _, n := range logicx.All(n, nil) {
		switch n := n.(type) {
		case *logic.Binding:
			n.N = i
			seen[n] = true
			i++
		case *logic.Variable:
			if n.Def == nil || !seen[n.Def] {
				n.Def = nil
				n.N = i
				i++
			} else {
				n.N = n.Def.N
			}
		}
	}
}

// Print decides the notation of logic trees.
func Print() {
	n := newGen().root()
	renumber(n)
	d := logicx.Dump(n, logicx.Numbers, nil)
	v.Ctx(d)
	got, pretty := logic.String(n), logic.PrettyString(n)
	v.Out(got)
	v.Assert(got == logicx.Print(n, false), "the notation has every part of the tree, with names that tell variables apart")
	v.Assert(pretty == logicx.Print(n, true), "the pretty notation differs in its letters only")
	v.Assert(logicx.Dump(n, logicx.Numbers, nil) == d, "printing does not change the tree")
	v.Reach("printed")
}

// Visit decides that every node is visited once, parents first, in order.
func Visit() {
	n := newGen().any()
	d := logicx.Dump(n, logicx.Numbers, nil)
	v.Ctx(d)
	want := logicx.All(n, nil)
	k := 0
	n.Visit(func(m logic.Node) {
		v.Assert(k < len(want) && m == want[k], "a visit calls every node once, parents first, in order")
		k++
	})
	v.Assert(k == len(want), "a visit calls every node")
	v.Assert(logicx.Dump(n, logicx.Numbers, nil) == d, "a visit does not change the tree")
	for _, m := range want {
		v.Assert(m.ASTNode() == link(m), "a node gives its syntax node")
	}
	v.Reach("visited")
}

func link(n logic.Node) ast.Node {
	switch n := n.(type) {
	case *logic.Binding:
		return n.AST
	case *logic.Connection:
		return n.AST
	case *logic.Predication:
		return n.AST
	case *logic.Variable:
		return n.AST
	case *logic.Plurality:
		return n.AST
	case *logic.Quote:
		return n.AST
	case *logic.Pred:
		return n.AST
	case *logic.Abstraction:
		return n.AST
	case *logic.Serial:
		return n.AST
	case *logic.Swap:
		return n.AST
	}
	panic("unexpected node")
}

// Nill decides that clearing the syntax nodes clears all of them and nothing else.
func Nill() {
	n := newGen().any()
	d := logicx.Dump(n, logicx.Numbers, nil)
	v.Ctx(d)
	logic.NillOutAST(n)
	for _, m := range logicx.All(n, nil) {
		v.Assert(link(m) == nil, "every syntax node is cleared")
	}
	v.Assert(logicx.Dump(n, logicx.Numbers, nil) == d, "clearing syntax nodes changes nothing else")
	v.Reach("cleared")
}

// Pretty decides that the printed form of a meaning shows the kind and the
// parts of each node.
func Pretty() {
	n := newGen().any()
	v.Ctx(logicx.Dump(n, 0, nil))
	got := pretty.String(n)
	v.Out(got)
	v.Assert(v.StrEq(got, logicx.PrettyTree(n, "\n")), "the printed meaning shows the kind and the parts of each node")
}
