package trees

import (
	"github.com/eaburns/pretty"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/zzverif/astx"
	"github.com/eaburns/toaq/zzverif/v"
)

// Harnesses lists the entry points.
var Harnesses = map[string]func(){
	"Equal":     Equal,
	"Visit":     Visit,
	"Braces":    Braces,
	"Positions": Positions,
	"ToASCII":   ToASCII,
	"Pretty":    Pretty,
}

// Equal decides that two trees are equal if and only if they have the same
// constituents, words and modifiers.
func Equal() {
	a := newGen()
	ta := a.root()
	b := &gen{replay: a.rec, change: v.Force(v.Pick("change", len(a.rec)+1)) - 1}
	// The root of the second tree is of the same or of another kind.
	var tb ast.Node
	if b.change >= 0 || v.Force(v.Pick("same", 2)) == 0 {
		tb = b.like(a.kind)
	} else {
		tb = b.root()
	}
	layout(ta, 0)
	layout(tb, 7) // Positions do not matter.
	fa, fb := kind(ta)+astx.Full(ta), kind(tb)+astx.Full(tb)
	v.Ctx(fa + " = " + fb)
	same := v.StrEq(fa, fb)
	v.Assert(ast.Equal(ta, tb) == same, "trees are equal if and only if all their constituents are")
	v.Assert(ast.Equal(tb, ta) == same, "equality is symmetric")
	v.Assert(ast.Equal(ta, ta), "equality is reflexive")
	v.Assert(v.And(v.StrEq(kind(ta)+astx.Full(ta), fa), v.StrEq(kind(tb)+astx.Full(tb), fb)), "comparing trees does not change them")
	if same {
		v.Reach("equal")
	} else {
		v.Reach("different")
	}
}

func kind(n ast.Node) string { return astx.TypeName(n) + ":" }

// expect is the sequence of calls that a visit makes.
func expect(n ast.Node, es []string, stop, nth int) ([]string, int) {
	es = append(es, astx.TypeName(n))
	nth++
	if nth == stop {
		return es, nth
	}
	for _, k := range astx.Kids(n) {
		es, nth = expect(k, es, stop, nth)
	}
	return append(es, "nil"), nth
}

type visitor struct {
	log   *[]string
	nth   *int
	stop  int
	depth int
	nodes *[]ast.Node
	bad   *bool
}

func (x visitor) Visit(n ast.Node) ast.Visitor {
	*x.log = append(*x.log, astx.TypeName(n))
	if n == nil {
		return nil
	}
	*x.nth++
	*x.nodes = append(*x.nodes, n)
	if *x.nth == x.stop {
		return nil
	}
	x.depth++
	return x
}

// depths checks that the children of a node are visited with the visitor that the
// call for the node returned.
type depths struct {
	d   int
	log *[]int
}

func (x depths) Visit(n ast.Node) ast.Visitor {
	*x.log = append(*x.log, x.d)
	if n == nil {
		return nil
	}
	return depths{x.d + 1, x.log}
}

func expectDepths(n ast.Node, d int, ds []int) []int {
	ds = append(ds, d)
	for _, k := range astx.Kids(n) {
		ds = expectDepths(k, d+1, ds)
	}
	return append(ds, d+1)
}

// Visit decides the contract of the visitor.
func Visit() {
	t := newGen().root()
	layout(t, 0)
	full := astx.Full(t)
	v.Ctx(kind(t) + full)
	all, n := expect(t, nil, 0, 0)
	stop := v.Force(v.Pick("stop", n+1))
	want := all
	if stop > 0 {
		want, _ = expect(t, nil, stop, 0)
	}
	var got []string
	var nodes []ast.Node
	nth := 0
	ast.Visit(t, visitor{log: &got, nth: &nth, stop: stop, nodes: &nodes})
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i] == want[i]
	}
	v.Assert(ok, "a visit calls each node once in order, its kids before nil, and skips the kids where the visitor returns nil")
	if stop == 0 {
		var ds []int
		ast.Visit(t, depths{0, &ds})
		we := expectDepths(t, 0, nil)
		ok := len(ds) == len(we)
		for i := 0; ok && i < len(ds); i++ {
			ok = ds[i] == we[i]
		}
		v.Assert(ok, "kids and the final nil are visited with the returned visitor")
		k := 0
		ast.Visit(t, ast.FuncVisitor(func(m ast.Node) {
			if m != nil && k < len(nodes) {
				if _, isTerms := m.(ast.Terms); !isTerms {
					v.Assert(m == nodes[k], "nodes are visited by identity")
				}
				k++
			}
		}))
		v.Assert(k == n, "every node is visited")
		var pos []int
		positions(t, &pos)
		k = 0
		for _, m := range nodes {
			if w, isWord := m.(*ast.Word); isWord {
				v.Assert(k < len(pos) && w.S == pos[k], "words are visited in the order they are written")
				k++
			}
		}
		v.Assert(k == len(pos), "every word is visited")
	}
	v.Assert(astx.Full(t) == full, "a visit does not change the tree")
	v.Reach("visited")
}

func positions(n ast.Node, ps *[]int) {
	if w, ok := n.(*ast.Word); ok {
		*ps = append(*ps, w.S)
	}
	for _, k := range astx.Kids(n) {
		positions(k, ps)
	}
}

// pieces are the constituents that the braces notation shows: a node with one
// constituent only is replaced by it, and space is left out.
func braced(n ast.Node, depth int) string {
	var shown []string
	next := depth
	// Count first: the depth of the kids depends on it.
	kids := visible(n)
	count := len(kids)
	if w, ok := n.(*ast.Word); ok {
		count++
		shown = append(shown, w.T)
	}
	if count > 1 {
		next++
	}
	for _, k := range kids {
		shown = append(shown, braced(k, next))
	}
	s := ""
	for i, x := range shown {
		if i > 0 {
			s += " "
		}
		s += x
	}
	if count > 1 {
		o, c := "({[<", ")}]>"
		s = o[depth%4:depth%4+1] + s + c[depth%4:depth%4+1]
	}
	return s
}

// visible are the kids that are not space.
func visible(n ast.Node) []ast.Node {
	var ks []ast.Node
	for _, k := range astx.Kids(n) {
		for {
			s, ok := k.(*ast.Space)
			if !ok {
				break
			}
			k = nil
			if s.M != nil {
				k = s.M
			}
		}
		if k != nil {
			ks = append(ks, k)
		}
	}
	return ks
}

// Braces decides the braces notation.
func Braces() {
	t := newGen().root()
	layout(t, 0)
	full := astx.Full(t)
	v.Ctx(kind(t) + full)
	got := ast.BracesString(t)
	v.Out(got)
	v.Assert(got == braced(t, 0), "braces group exactly the nodes with two or more constituents and keep all words")
	v.Assert(astx.Full(t) == full, "printing does not change the tree")
	v.Reach("printed")
}

// Positions decides that a node extends from its first to its last word.
func Positions() {
	t := newGen().root()
	layout(t, v.Force(v.Pick("offset", 2)))
	v.Ctx(kind(t) + astx.Full(t))
	astx.CheckExtents(t)
	v.Reach("nodes")
}

// ToASCII decides that every word of a tree is converted and nothing else changes.
func ToASCII() {
	t := newGen().root()
	layout(t, 0)
	mark(t)
	v.Ctx(kind(t) + astx.Full(t))
	pos := astx.Dump(t)
	ast.ToASCII(t)
	v.Assert(astx.Dump(t) == pos, "conversion changes neither the structure nor the positions")
	unmarked(t)
	v.Reach("converted")
}

func mark(n ast.Node) {
	if w, ok := n.(*ast.Word); ok {
		w.T = "mỉ" + w.T
	}
	for _, k := range astx.Kids(n) {
		mark(k)
	}
}

func unmarked(n ast.Node) {
	if w, ok := n.(*ast.Word); ok {
		v.Assert(len(w.T) >= 3 && w.T[:2] == "mi", "every word is in ASCII form")
	}
	for _, k := range astx.Kids(n) {
		unmarked(k)
	}
}

// Pretty decides that the printed form of a tree shows the kind and the parts
// of each node.
func Pretty() {
	n := newGen().root()
	v.Ctx(kind(n) + astx.Full(n))
	got := pretty.String(n)
	v.Out(got)
	v.Assert(v.StrEq(got, astx.Pretty(n, "\n")), "the printed tree shows the kind and the parts of each node")
}
