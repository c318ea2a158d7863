package logicx

import (
	"strconv"
	"unicode/utf8"

	"github.com/eaburns/toaq/logic"
)

// Kids are the parts of a node, in the order they are written.
func Kids(n logic.Node) []logic.Node {
	var ks []logic.Node
	stmt := func(s logic.Statement) {
		if s != nil {
			ks = append(ks, s)
		}
	}
	pred := func(p logic.Predicate) {
		if p != nil {
			ks = append(ks, p)
		}
	}
	args := func(as []logic.Argument) {
		for _, a := range as {
			if a != nil {
				ks = append(ks, a)
			}
		}
	}
	switch n := n.(type) {
	case *logic.Binding:
		stmt(n.Restriction)
		stmt(n.Scope)
	case *logic.Connection:
		stmt(n.Left)
		stmt(n.Right)
	case *logic.Predication:
		pred(n.Predicate)
		args(n.Arguments)
	case *logic.Plurality:
		args(n.Arguments)
	case *logic.Abstraction:
		stmt(n.Statement)
	case *logic.Serial:
		pred(n.Left)
		pred(n.Right)
	case *logic.Swap:
		pred(n.Predicate)
	}
	return ks
}

// All are the nodes of a tree in the order they are written, parents first.
func All(n logic.Node, ns []logic.Node) []logic.Node {
	ns = append(ns, n)
	for _, k := range Kids(n) {
		ns = All(k, ns)
	}
	return ns
}

// Print is the notation of a tree whose variables are numbered 0, 1, ...:
// variables are named by the first letter of the predicate that restricts
// them, X if there is none, U if they are not bound. Names that would be the
// same are numbered, except that two or three X are X, Y, Z.
func Print(n logic.Node, pretty bool) string {
	letters, names := map[int]string{}, map[int]string{}
	var order []int
	see := func(i int, b *logic.Binding) {
		if _, ok := letters[i]; ok {
			return
		}
		letters[i] = letter(b)
		order = append(order, i)
	}
	ns := All(n, nil)
	for _, n := range ns {
		if x, ok := n.(*logic.Variable); ok {
			see(x.N, x.Def)
		}
	}
	for _, n := range ns {
		if b, ok := n.(*logic.Binding); ok {
			see(b.N, b)
		}
	}
	for _, i := range order {
		l := letters[i]
		k, before := 0, 0
		for _, j := range order {
			if letters[j] != l {
				continue
			}
			if j == i {
				before = k
			}
			k++
		}
		switch {
		case k == 1:
			names[i] = l
		case l == "X" && k <= 3:
			names[i] = "XYZ"[before : before+1]
		default:
			names[i] = l + strconv.Itoa(before)
		}
		if pretty {
			names[i] = italic(names[i])
		}
	}
	return write(n, names, pretty) + "."
}

func italic(s string) string {
	out := ""
	for _, r := range s {
		if r >= 'A' && r <= 'Z' {
			r += 0x1D434 - 'A'
		}
		out += string(r)
	}
	return out
}

func letter(b *logic.Binding) string {
	if b == nil {
		return "U"
	}
	st := b.Restriction
	for {
		c, ok := st.(*logic.Connection)
		if !ok {
			break
		}
		st = c.Left
	}
	p, ok := st.(*logic.Predication)
	if !ok {
		return "X"
	}
	name, ok := headName(p.Predicate)
	if !ok || name == logic.Equal || name == logic.Among {
		return "X"
	}
	_, w := utf8.DecodeRuneInString(name)
	l := name[:w]
	if l >= "a" && l <= "z" {
		l = string(rune(l[0] - 'a' + 'A'))
	}
	return l
}

func headName(p logic.Predicate) (string, bool) {
	switch p := p.(type) {
	case *logic.Pred:
		return p.Name, true
	case *logic.Serial:
		s, ok := headName(p.Left)
		if ok && s == "shi" {
			return headName(p.Right)
		}
		return s, ok
	}
	return "", false
}

func write(n logic.Node, names map[int]string, pretty bool) string {
	w := func(n logic.Node) string { return write(n, names, pretty) }
	list := func(as []logic.Argument) string {
		s := ""
		for i, a := range as {
			if i > 0 {
				s += ", "
			}
			if a == nil {
				s += "·"
			} else {
				s += w(a)
			}
		}
		return s
	}
	switch n := n.(type) {
	case *logic.Binding:
		q := string(n.Quantifier)
		if pretty && q == "ι" {
			q = "℩"
		}
		s := q + names[n.N]
		if n.Restriction != nil {
			s = "[" + s + " : " + w(n.Restriction) + "]"
		}
		s += " "
		if n.Scope != nil {
			s += w(n.Scope)
		}
		return s
	case *logic.Connection:
		side := func(k logic.Statement) string {
			s := w(k)
			switch k := k.(type) {
			case *logic.Predication:
				return s
			case *logic.Connection:
				if k.Connector == n.Connector {
					return s
				}
			}
			return "(" + s + ")"
		}
		return side(n.Left) + " " + string(n.Connector) + " " + side(n.Right)
	case *logic.Predication:
		if p, ok := n.Predicate.(*logic.Pred); ok && len(n.Arguments) == 2 && (p.Name == logic.Equal || p.Name == logic.Among) {
			s := ""
			if n.Arguments[0] != nil {
				s += w(n.Arguments[0])
			}
			s += p.Name
			if n.Arguments[1] != nil {
				s += w(n.Arguments[1])
			}
			return s
		}
		return w(n.Predicate) + "(" + list(n.Arguments) + ")"
	case *logic.Variable:
		return names[n.N]
	case *logic.Plurality:
		return "⌊" + list(n.Arguments) + "⌉"
	case *logic.Quote:
		if n.FullText {
			return "«" + n.Text + "»"
		}
		return "‹" + n.Text + "›"
	case *logic.Pred:
		return n.Name
	case *logic.Abstraction:
		return "{" + w(n.Statement) + "}"
	case *logic.Serial:
		return w(n.Left) + "∘" + w(n.Right)
	case *logic.Swap:
		return "(mu " + w(n.Predicate) + ")"
	}
	return "unexpected"
}
