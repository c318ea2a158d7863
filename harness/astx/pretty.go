package astx

import "github.com/eaburns/toaq/ast"

// Pretty is the printed form of a tree: the kind of each node and, by name,
// its parts. Words are shown by their text, without what follows them.
func Pretty(n ast.Node, indent string) string {
	switch n := n.(type) {
	case nil:
		return "nil"
	case *ast.Word:
		return word(n)
	case *ast.WordPredicate:
		return "WordPredicate(" + word((*ast.Word)(n)) + ")"
	case *ast.Interjection:
		return "Interjection(" + word((*ast.Word)(n)) + ")"
	case *ast.Space:
		return "Space(" + word((*ast.Word)(n)) + ")"
	case *ast.Discourse:
		return discourse(*n, indent)
	case ast.Terms:
		return terms(n, indent)
	case *ast.CoPSentence:
		return cop("CoPSentence", (*ast.CoP)(n), indent)
	case *ast.CoPStatement:
		return cop("CoPStatement", (*ast.CoP)(n), indent)
	case *ast.CoPPredicate:
		return cop("CoPPredicate", (*ast.CoP)(n), indent)
	case *ast.CoPArgument:
		return cop("CoPArgument", (*ast.CoP)(n), indent)
	case *ast.CoPRelative:
		return cop("CoPRelative", (*ast.CoP)(n), indent)
	case *ast.CoPAdverb:
		return cop("CoPAdverb", (*ast.CoP)(n), indent)
	case *ast.CoPPreposition:
		return cop("CoPPreposition", (*ast.CoP)(n), indent)
	case *ast.CoPContent:
		return cop("CoPContent", (*ast.CoP)(n), indent)
	case *ast.TermSet:
		return cop("TermSet", (*ast.CoP)(n), indent)
	case *ast.LUPredicate:
		return lu("LUPredicate", (*ast.LUPhrase)(n), indent)
	case *ast.LURelative:
		return lu("LURelative", (*ast.LUPhrase)(n), indent)
	case *ast.LUContent:
		return lu("LUContent", (*ast.LUPhrase)(n), indent)
	case *ast.Text:
		return Object("Text", indent, "Leading", part(n.Leading, indent), "Discourse", discourse(n.Discourse, indent+"\t"))
	case *ast.StatementSentence:
		return Object("StatementSentence", indent, "JE", word(n.JE), "Statement", part(n.Statement, indent), "DA", word(n.DA))
	case *ast.Prenex:
		return Object("Prenex", indent, "Terms", terms(n.Terms, indent+"\t"), "BI", word(&n.BI))
	case *ast.PrenexStatement:
		return Object("PrenexStatement", indent, "Prenex", Pretty(&n.Prenex, indent+"\t"), "Statement", part(n.Statement, indent))
	case *ast.Predication:
		return Object("Predication", indent, "Predicate", part(n.Predicate, indent), "Terms", terms(n.Terms, indent+"\t"), "NA", word(n.NA))
	case *ast.PrefixedPredicate:
		return Object("PrefixedPredicate", indent, "MU", word(&n.MU), "Predicate", part(n.Predicate, indent))
	case *ast.SerialPredicate:
		return Object("SerialPredicate", indent, "Left", part(n.Left, indent), "Right", part(n.Right, indent))
	case *ast.MIPredicate:
		return Object("MIPredicate", indent, "MI", word(&n.MI), "GA", word(n.GA), "Phrase", part(n.Phrase, indent))
	case *ast.POPredicate:
		return Object("POPredicate", indent, "PO", word(&n.PO), "GA", word(n.GA), "Argument", part(n.Argument, indent))
	case *ast.MOPredicate:
		return Object("MOPredicate", indent, "MO", word(&n.MO), "TEO", word(&n.TEO), "Discourse", discourse(n.Discourse, indent+"\t"))
	case *ast.LinkedTerm:
		return Object("LinkedTerm", indent, "GO", word(&n.GO), "Argument", part(n.Argument, indent))
	case *ast.PredicateArgument:
		return Object("PredicateArgument", indent, "Focus", word(n.Focus), "Quantifier", word(n.Quantifier), "Predicate", part(n.Predicate, indent), "Relative", part(n.Relative, indent))
	case *ast.PredicationRelative:
		return Object("PredicationRelative", indent, "Predication", Pretty(&n.Predication, indent+"\t"))
	case *ast.PredicateAdverb:
		return Object("PredicateAdverb", indent, "Predicate", part(n.Predicate, indent))
	case *ast.PredicationPreposition:
		return Object("PredicationPreposition", indent, "Predicate", part(n.Predicate, indent), "Argument", part(n.Argument, indent))
	case *ast.PredicationContent:
		return Object("PredicationContent", indent, "Predication", Pretty(&n.Predication, indent+"\t"))
	case *ast.Parenthetical:
		return Object("Parenthetical", indent, "KIO", word(&n.KIO), "KI", word(&n.KI), "Discourse", discourse(n.Discourse, indent+"\t"))
	case *ast.Incidental:
		return Object("Incidental", indent, "JU", word(&n.JU), "Statement", part(n.Statement, indent))
	case *ast.Vocative:
		return Object("Vocative", indent, "HU", word(&n.HU), "Argument", part(n.Argument, indent))
	case *ast.CoP:
		return cop("CoP", n, indent)
	case *ast.LUPhrase:
		return lu("LUPhrase", n, indent)
	}
	return "unexpected"
}

// Object shows the parts that are there: fields is names and printed parts.
func Object(name, indent string, fields ...string) string {
	out := name + "{"
	some := false
	for i := 0; i < len(fields); i += 2 {
		if fields[i+1] != "" {
			out += indent + "\t" + fields[i] + ": " + fields[i+1]
			some = true
		}
	}
	if some {
		out += indent
	}
	return out + "}"
}

func part(n ast.Node, indent string) string {
	if n == nil {
		return ""
	}
	return Pretty(n, indent+"\t")
}

func word(w *ast.Word) string {
	if w == nil {
		return ""
	}
	return "\"" + w.T + "\""
}

func cop(name string, n *ast.CoP, indent string) string {
	return Object(name, indent, "TO0", word(n.TO0), "TO1", word(n.TO1), "RU", word(&n.RU), "Left", part(n.Left, indent), "Right", part(n.Right, indent))
}

func lu(name string, n *ast.LUPhrase, indent string) string {
	return Object(name, indent, "LU", word(&n.LU), "Statement", part(n.Statement, indent))
}

func discourse(n ast.Discourse, indent string) string {
	if len(n) == 0 {
		return ""
	}
	out := "["
	for _, k := range n {
		out += indent + "\t" + Pretty(k, indent+"\t")
	}
	return out + indent + "]"
}

func terms(n ast.Terms, indent string) string {
	if len(n) == 0 {
		return ""
	}
	out := "["
	for _, k := range n {
		out += indent + "\t" + Pretty(k, indent+"\t")
	}
	return out + indent + "]"
}
