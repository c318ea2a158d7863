package reflogic

import (
	"strconv"

	"github.com/eaburns/toaq/ast"
)

// Options of Dump.
const (
	Numbers = 1 // variable numbers as they are, instead of in order of occurrence
	Links   = 2 // the syntax nodes that the tree points to
)

// Dumper writes a logic tree.
type Dumper struct {
	b     []byte
	opts  int
	defs  map[*Binding]int
	free  map[int]int
	n     int
	Nodes map[ast.Node]int
}

// Dump is the tree, with its variables numbered in order of occurrence.
func Dump(n Node, opts int, nodes map[ast.Node]int) string {
	if n == nil {
		return "nil"
	}
	d := &Dumper{opts: opts, defs: map[*Binding]int{}, free: map[int]int{}, Nodes: nodes}
	d.node(n)
	return string(d.b)
}

func (d *Dumper) str(s string) { d.b = append(d.b, s...) }

func (d *Dumper) binding(b *Binding) {
	i, ok := d.defs[b]
	if !ok {
		i = d.n
		d.n++
		d.defs[b] = i
	}
	d.str(strconv.Itoa(i))
	if d.opts&Numbers != 0 {
		d.str("#" + strconv.Itoa(b.N))
	}
}

func (d *Dumper) link(a ast.Node) {
	if d.opts&Links == 0 {
		return
	}
	if a == nil {
		d.str("@nil")
		return
	}
	if _, ok := a.(ast.Terms); ok {
		d.str("@terms")
		return
	}
	if i, ok := d.Nodes[a]; ok {
		d.str("@" + strconv.Itoa(i))
		return
	}
	d.str("@made")
}

func (d *Dumper) args(as []Argument) {
	for _, a := range as {
		d.str(" ")
		if a == nil {
			d.str("_")
		} else {
			d.node(a)
		}
	}
}

func (d *Dumper) node(n Node) {
	switch n := n.(type) {
	case *Binding:
		d.str("[" + string(n.Quantifier))
		d.binding(n)
		if n.Focus {
			d.str("*")
		}
		d.link(n.AST)
		d.str(" ")
		if n.Restriction == nil {
			d.str("_")
		} else {
			d.node(n.Restriction)
		}
		d.str(" ")
		if n.Scope == nil {
			d.str("_")
		} else {
			d.node(n.Scope)
		}
		d.str("]")
	case *Connection:
		d.str("(" + string(n.Connector))
		d.link(n.AST)
		d.str(" ")
		d.node(n.Left)
		d.str(" ")
		d.node(n.Right)
		d.str(")")
	case *Predication:
		d.str("(")
		d.link(n.AST)
		d.node(n.Predicate)
		d.args(n.Arguments)
		d.str(")")
	case *Variable:
		if n.Def == nil {
			i, ok := d.free[n.N]
			if !ok {
				i = d.n
				d.n++
				d.free[n.N] = i
			}
			d.str("u" + strconv.Itoa(i))
		} else {
			d.str("v")
			d.binding(n.Def)
		}
		if d.opts&Numbers != 0 {
			d.str("#" + strconv.Itoa(n.N))
		}
		if n.Focus {
			d.str("*")
		}
		d.link(n.AST)
	case *Plurality:
		d.str("<")
		d.link(n.AST)
		d.args(n.Arguments)
		d.str(">")
	case *Quote:
		if n.FullText {
			d.str("full")
		}
		d.str("'" + n.Text + "'")
		d.link(n.AST)
	case *Pred:
		d.str(n.Name)
		d.link(n.AST)
	case *Abstraction:
		d.str("{")
		d.link(n.AST)
		d.node(n.Statement)
		d.str("}")
	case *Serial:
		d.str("(")
		d.link(n.AST)
		d.node(n.Left)
		d.str(" o ")
		d.node(n.Right)
		d.str(")")
	case *Swap:
		d.str("(mu" + strconv.Itoa(n.Pos))
		d.link(n.AST)
		d.str(" ")
		d.node(n.Predicate)
		d.str(")")
	default:
		d.str("unexpected")
	}
}
