package meaning

import (
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
	"github.com/eaburns/toaq/zzverif/astx"
	"github.com/eaburns/toaq/zzverif/logicx"
	"github.com/eaburns/toaq/zzverif/v"
)

func parse(s string) *ast.Text {
	t, err := ast.NewParser(s).Text()
	if err != nil {
		v.Discard()
	}
	return t
}

// supported tells whether a text uses only what the interpreter supports:
// no ro and re, no roi except between arguments, and only ru between sentences.
func supported(n ast.Node) bool {
	var c *ast.CoP
	arg := false
	switch n := n.(type) {
	case *ast.CoPSentence:
		if w := lower(n.RU.T); w != "ru" {
			return false
		}
	case *ast.CoPArgument:
		c, arg = (*ast.CoP)(n), true
	case *ast.CoPStatement:
		c = (*ast.CoP)(n)
	case *ast.CoPPredicate:
		c = (*ast.CoP)(n)
	case *ast.CoPRelative:
		c = (*ast.CoP)(n)
	case *ast.CoPAdverb:
		c = (*ast.CoP)(n)
	case *ast.CoPPreposition:
		c = (*ast.CoP)(n)
	case *ast.CoPContent:
		c = (*ast.CoP)(n)
	case *ast.TermSet:
		c = (*ast.CoP)(n)
	}
	if c != nil {
		switch lower(c.RU.T) {
		case "ro", "re":
			return false
		case "roi":
			if !arg {
				return false
			}
		}
	}
	for _, k := range astx.Kids(n) {
		if !supported(k) {
			return false
		}
	}
	return true
}

func lower(s string) string {
	out := ""
	for _, r := range s {
		switch {
		case 'A' <= r && r <= 'Z':
			r += 'a' - 'A'
		case r == 'ı':
			r = 'i'
		}
		out += string(r)
	}
	return out
}

func sentences(t *ast.Text) int {
	n := 0
	for _, k := range t.Discourse {
		if _, ok := k.(ast.Sentence); ok {
			n++
		}
	}
	return n
}

// Total decides that exactly the supported texts are interpreted, and those
// with sentences have a meaning.
func Total() {
	x := newMaker().build(shapes[v.Force(v.Pick("shape", len(shapes)))])
	if v.Param("connectors", 0) != 0 {
		x = swapConnectors(x)
	}
	v.Ctx(x)
	t := parse(x)
	got, failed := interpret(t)
	if !supported(t) {
		v.Reach("unsupported")
		return
	}
	v.Assert(!failed, "a supported text is interpreted")
	v.Assert((got == nil) == (sentences(t) == 0), "a text has a meaning if and only if it has sentences")
	if got != nil {
		v.Reach("interpreted")
		complete(got)
	} else {
		v.Reach("fragments")
	}
}

// swapConnectors replaces each connector by an arbitrary one.
func swapConnectors(x string) string {
	out := ""
	for _, w := range words(x) {
		switch w {
		case "ru", "ra", "ri", "roi":
			w = v.Sel(v.Force(v.Pick("connector", 6)), []string{"ru", "ra", "ri", "roi", "ro", "re"})
		}
		if out != "" {
			out += " "
		}
		out += w
	}
	return out
}

// complete checks that every part that a node must have is there.
func complete(n logic.Node) {
	ok := true
	switch n := n.(type) {
	case *logic.Binding:
		ok = n.Scope != nil
		switch n.Quantifier {
		case logic.The, logic.Lambda, logic.Each, logic.All, logic.Some, logic.None, logic.Hi:
		default:
			ok = false
		}
	case *logic.Connection:
		ok = n.Left != nil && n.Right != nil && (n.Connector == logic.And || n.Connector == logic.Or || n.Connector == logic.Ri)
	case *logic.Predication:
		ok = n.Predicate != nil
	case *logic.Plurality:
		ok = len(n.Arguments) >= 2
		for _, a := range n.Arguments {
			if a == nil {
				ok = false
			} else if _, nested := a.(*logic.Plurality); nested {
				ok = false
			}
		}
	case *logic.Abstraction:
		ok = n.Statement != nil
	case *logic.Serial:
		ok = n.Left != nil && n.Right != nil
	case *logic.Swap:
		ok = n.Predicate != nil
	case *logic.Variable, *logic.Quote:
	case *logic.Pred:
		ok = n.Name != ""
	default:
		ok = false
	}
	v.Assert(ok, "every node of the meaning is complete")
	for _, k := range logicx.Kids(n) {
		complete(k)
	}
}

// Scopes decides that variables occur only where they are bound, that each
// binding binds once, and that variables are numbered in order.
func Scopes() {
	x, t := source()
	got, failed := interpret(t)
	if failed || got == nil {
		v.Discard()
	}
	s := &scopes{in: map[*logic.Binding]bool{}, nums: map[int]logic.Node{}, closed: !open(x)}
	s.walk(got)
	for i := 0; i < len(s.nums); i++ {
		_, ok := s.nums[i]
		v.Assert(ok, "variables are numbered without gaps")
	}
	v.Reach("scoped")
}

type scopes struct {
	in   map[*logic.Binding]bool
	nums map[int]logic.Node
	// closed is whether the text has no word that can be a free variable.
	closed bool
}

// open tells whether a text has a variable, or a binding that may be lifted over one.
func open(x string) bool {
	for _, w := range words(x) {
		if w == "hoa/" || w == "hoa?" || w == "hi" || len(w) > 2 && (w[:2] == "do" || w[:2] == "DO") {
			return true
		}
	}
	return false
}

func (s *scopes) number(i int, n logic.Node) {
	if o, ok := s.nums[i]; ok {
		v.Assert(o == n, "different variables have different numbers")
		return
	}
	s.nums[i] = n
}

func (s *scopes) walk(n logic.Node) {
	switch n := n.(type) {
	case *logic.Binding:
		v.Assert(!s.in[n], "a binding is not inside itself")
		s.number(n.N, n)
		s.in[n] = true
		for _, k := range logicx.Kids(n) {
			s.walk(k)
		}
		s.in[n] = false
		return
	case *logic.Variable:
		if n.Def == nil {
			v.Assert(!s.closed, "a text without variables has no free variables")
			s.number(n.N, n)
			return
		}
		v.Assert(s.in[n.Def], "a variable occurs inside its binding")
		v.Assert(n.N == n.Def.N, "a variable has the number of its binding")
	}
	for _, k := range logicx.Kids(n) {
		s.walk(k)
	}
}

// joints are texts with one question connective: the text, and the texts of
// its sides. X is an arbitrary phrase of its kind.
var joints = []struct{ both, left, right string }{
	{"P C ri D A", "P C A", "P D A"},
	{"P C ri D", "P C", "P D"},
	{"P to ri C to D A", "P C A", "P D A"},
	{"P A C ri D", "P A C", "P A D"},
	{"P A cu C ri D", "P A cu C", "P A cu D"},
	{"P sho~ C ri D", "P sho~ C", "P sho~ D"},
	{"P C ri D sho~", "P C sho~", "P D sho~"},
	{`P bao\ C ri D A`, `P bao\ C A`, `P bao\ D A`},
	{`P A bao\ C ri D`, `P A bao\ C`, `P A bao\ D`},
	{"C ri D bi P A", "C bi P A", "D bi P A"},
	{"po? C ri D ga A", "po? C ga A", "po? D ga A"},
	{"P to ri C A to D sa nuo/", "P C A", "P D sa nuo/"},
	{"P to ri C sho~ to D sa nuo/", "P C sho~", "P D sa nuo/"},
	{"P ri chuq? A", "P A", "chuq? A"},
	{"P ri chuq? A B", "P A B", "chuq? A B"},
	{"to ri P to chuq? A", "P A", "chuq? A"},
	{"P de? ri chuq? A", "P de? A", "P chuq? A"},
	{"P A na ri chuq? C", "P A", "chuq? C"},
	{"to ri P A na to chuq? C", "P A na", "chuq? C"},
	{"sa do/ bi P do/ A na ri chuq? C do/", "sa do/ bi P do/ A", "sa do/ bi chuq? C do/"},
	{"P A sho~ ri chuq~", "P A sho~", "P A chuq~"},
	{"P sho~ ri chuq~ A", "P sho~ A", "P chuq~ A"},
	{"P to ri sho~ to chuq~ A", "P sho~ A", "P chuq~ A"},
	{`P bao\ C ri chuq\ D A`, `P bao\ C A`, `P chuq\ D A`},
	{`P bao\ ri chuq\ D A`, `P bao\ D A`, `P chuq\ D A`},
	{"P sa nuo/ raiV na ri chuqV C na A", "P sa nuo/ raiV na A", "P sa nuo/ chuqV C na A"},
	{"P sa nuo/ to ri raiV C to chuqV na A", "P sa nuo/ raiV C na A", "P sa nuo/ chuqV na A"},
	{"P sa nuo/ raiV ri chuq? C na A", "P sa nuo/ raiV C na A", "P sa nuo/ chuqV C na A"},
	{"P sa mai/ ri chuq? A", "P sa mai/ A", "P sa chuq/ A"},
	{"P sa mai/ de? ri chuq? A", "P sa mai/ de? A", "P sa mai/ chuq? A"},
	{"P sa mai^ C na ri chuq? D na A", "P sa mai^ C na A", "P sa chuq^ D na A"},
	{"P mai^ C ri D na A", "P mai^ C na A", "P mai^ D na A"},
	{"lu? P hoa/ C ri D na A", "lu? P hoa/ C na A", "lu? P hoa/ D na A"},
	{"P D C ri A sia ho/", "P D C sia ho/", "P D A sia ho/"},
	{"P A fi C ri D ru B", "P A fi C", "P A fi D ru B"},
	{"P A go C ri D ra sa ho/", "P A go C", "P A go D ra sa ho/"},
	{"P fi C ri D A", "P fi C A", "P fi D A"},
	{"P A fi to ri to ru C to B to D", "P A fi to ru C to B", "P A fi D"},
	{"P A cu to ri C to fi D", "P A cu C", "P A fi D"},
	{"P to ri go C A to A fi D", "P go C A", "P A fi D"},
	{"P to ri C A ho/ to A D ho/", "P C A ho/", "P A D ho/"},
	{"P ri chuq? ru de? A", "P A", "chuq? ru de? A"},
	{"P de? ri chuq? ru mea? A", "P de? A", "P chuq? ru mea? A"},
	{"to ri P ru de? to chuq? A", "P ru de? A", "chuq? A"},
	{"P sho~ ri chuq~ ru de~ A", "P sho~ A", "P chuq~ ru de~ A"},
	{`P bao\ C ri chuq\ D ru de\ A B`, `P bao\ C B`, `P chuq\ D ru de\ A B`},
	{`P bao\ C ri D ru A B`, `P bao\ C B`, `P bao\ D ru A B`},
	{"po? sa jai/ ri po/ C ga ga A", "po? sa jai/ ga A", "po? po/ C ga ga A"},
	{"P A na ri chuq? C na ru de? D", "P A", "chuq? C na ru de? D"},
	{"P sa nuo/ raiV na ri chuqV C na ru deV na A", "P sa nuo/ raiV na A", "P sa nuo/ chuqV C na ru deV na A"},
	{"P sa nuo/ to ri raiV C na to chuqV A na", "P sa nuo/ raiV C na", "P sa nuo/ chuqV A na"},
}

// sides are arguments that are not lifted out of one side.
var sides = []string{"sa poq/", "tu ho/ raiV hoa/ sa nuo/ na", "sia suq/", "sa do/", "ku tu jai/", "sa mai/ de?", "sa poq/ roi tu suq/", "mo/ mai? teo", "ji/", "ji/ roi suq/"}

// fewSides are a choice of them.
var fewSides = []string{"sa poq/", "tu ho/ raiV hoa/ sa nuo/ na", "sa do/", "ji/", "sa poq/ roi tu suq/"}

// verbs are predicates that can be connected to the right.
var verbs = []string{"mai?", "do?", "po? sa nuo/ ga", "mo? mai? teo", "shu? ji/ ga", "mea?"}

// Connect decides that each side of a connective means what the text with
// only that side means.
func Connect() {
	lo, hi := v.Param("from", 0), v.Param("to", len(joints))
	j := joints[lo+v.Force(v.Pick("joint", hi-lo))]
	phrases := map[string]string{"P": "mai?", "A": "sa jai/", "B": "tu chea/", "C": "sa poq/", "D": "tu suq/"}
	budget, sides := v.Param("budget", 2), sides
	if v.Param("few", 0) != 0 {
		sides = fewSides
	}
	for _, k := range []string{"C", "D", "A", "P"} {
		if budget > 0 && contains(j.both, k) && v.Force(v.Pick("vary", 2)) == 1 {
			budget--
			if k == "P" {
				phrases[k] = verbs[v.Force(v.Pick("predicate", len(verbs)))]
			} else {
				phrases[k] = sides[v.Force(v.Pick("side", len(sides)))]
				if k == "C" && (contains(phrases[k], "roi") || contains(j.both, "bi") && contains(phrases[k], "na")) {
					v.Discard() // This would connect with what follows.
				}
			}
		}
	}
	lifted := 0
	for _, k := range []string{"C", "D", "A"} {
		if contains(j.both, k) && contains(phrases[k], "ji/") {
			lifted++
		}
	}
	if lifted > 1 {
		v.Discard() // The order of lifted bindings depends on the order of both sides.
	}
	both, left, right := replace(j.both, phrases), replace(j.left, phrases), replace(j.right, phrases)
	v.Ctx(both)
	got, failed := interpret(parse(both))
	l, lf := interpret(parse(left))
	r, rf := interpret(parse(right))
	if failed || lf || rf {
		v.Assert(!(failed && !lf && !rf), "connected phrases are supported as each of them is")
		v.Discard()
	}
	dl := logicx.Dump(got, logicx.Left|logicx.Used, nil)
	v.Out(dl)
	v.Assert(v.StrEq(dl, logicx.Dump(l, logicx.Used, nil)), "the left side of a connective means what the text with it alone means")
	v.Assert(v.StrEq(logicx.Dump(got, logicx.Right|logicx.Used, nil), logicx.Dump(r, logicx.Used, nil)), "the right side of a connective means what the text with it alone means")
	v.Assert(connections(got) > 0, "a connective is in the meaning")
	v.Reach("connected")
}

func connections(n logic.Node) int {
	k := 0
	if c, ok := n.(*logic.Connection); ok && c.Connector == logic.Ri {
		k++
	}
	for _, x := range logicx.Kids(n) {
		k += connections(x)
	}
	return k
}

func contains(s, w string) bool {
	for _, x := range words(s) {
		if x == w {
			return true
		}
	}
	return false
}

func replace(s string, with map[string]string) string {
	out := ""
	for i, w := range words(s) {
		if i > 0 {
			out += " "
		}
		if x, ok := with[w]; ok {
			w = x
		}
		out += w
	}
	return out
}
