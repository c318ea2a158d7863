package logicx

import (
	"strconv"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
	"github.com/eaburns/toaq/zzverif/astx"
)

// PrettyTree is the printed form of a meaning: the kind of each node and, by
// name, its parts.
func PrettyTree(n logic.Node, indent string) string {
	switch n := n.(type) {
	case nil:
		return "nil"
	case *logic.Variable:
		x := "Variable(" + strconv.Itoa(n.N) + ")"
		if n.Focus {
			x = "*" + x
		}
		return x
	case *logic.Quote:
		return "Quote(\"" + n.Text + "\")"
	case *logic.Pred:
		return "\"" + n.Name + "\""
	case *logic.Binding:
		return astx.Object("Binding", indent, "Quantifier", strconv.Quote(string(n.Quantifier)), "N", strconv.Itoa(n.N), "Focus", strconv.FormatBool(n.Focus), "Restriction", part(n.Restriction, indent), "Scope", part(n.Scope, indent), "AST", link(n.AST, indent))
	case *logic.Connection:
		return astx.Object("Connection", indent, "Connector", strconv.Quote(string(n.Connector)), "Left", part(n.Left, indent), "Right", part(n.Right, indent), "AST", link(n.AST, indent))
	case *logic.Predication:
		return astx.Object("Predication", indent, "Predicate", part(n.Predicate, indent), "Arguments", arguments(n.Arguments, indent+"\t"), "AST", link(n.AST, indent))
	case *logic.Plurality:
		return astx.Object("Plurality", indent, "Arguments", arguments(n.Arguments, indent+"\t"), "AST", link(n.AST, indent))
	case *logic.Abstraction:
		return astx.Object("Abstraction", indent, "Statement", part(n.Statement, indent), "AST", link(n.AST, indent))
	case *logic.Serial:
		return astx.Object("Serial", indent, "Left", part(n.Left, indent), "Right", part(n.Right, indent), "AST", link(n.AST, indent))
	case *logic.Swap:
		return astx.Object("Swap", indent, "Predicate", part(n.Predicate, indent), "Pos", strconv.Itoa(n.Pos), "AST", link(n.AST, indent))
	}
	return "unexpected"
}

func arguments(as []logic.Argument, indent string) string {
	if len(as) == 0 {
		return ""
	}
	out := "["
	for _, a := range as {
		out += indent + "\t" + PrettyTree(a, indent+"\t")
	}
	return out + indent + "]"
}

func part(n logic.Node, indent string) string {
	if n == nil {
		return ""
	}
	return PrettyTree(n, indent+"\t")
}

func link(n ast.Node, indent string) string {
	if n == nil {
		return ""
	}
	return astx.Pretty(n, indent+"\t")
}
