// Package astx walks syntax trees on its own, without the repository's visitor.
package astx

import (
	"strconv"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/zzverif/v"
)

// dumper writes the constituents of an AST in the notation of refgram.
type dumper struct {
	b    []byte
	bad  string
	full bool // write the texts of words instead of their positions
}

// Dump is the tree in the notation of package refgram.
func Dump(n ast.Node) string {
	var d dumper
	d.node(n)
	if d.bad != "" {
		return "unexpected " + d.bad + " in " + string(d.b)
	}
	return string(d.b)
}

// Full is the tree with the texts of the words, without positions.
func Full(n ast.Node) string {
	d := dumper{full: true}
	d.node(n)
	if d.bad != "" {
		return "unexpected " + d.bad + " in " + string(d.b)
	}
	return string(d.b)
}

func (d *dumper) word(typ string, w *ast.Word) {
	if w == nil {
		d.b = append(d.b, '_')
		return
	}
	d.b = append(d.b, typ...)
	d.b = append(d.b, '@')
	if d.full {
		d.b = append(d.b, '"')
		d.b = append(d.b, w.T...)
		d.b = append(d.b, '"')
	} else {
		d.b = strconv.AppendInt(d.b, int64(w.S), 10)
		d.b = append(d.b, '-')
		d.b = strconv.AppendInt(d.b, int64(w.E), 10)
	}
	if w.M != nil {
		d.b = append(d.b, '+')
		d.node(w.M)
	}
}

func (d *dumper) open(typ string) { d.b = append(append(d.b, typ...), '(') }
func (d *dumper) sp()             { d.b = append(d.b, ' ') }
func (d *dumper) close()          { d.b = append(d.b, ')') }

func (d *dumper) cop(typ string, n *ast.CoP) {
	d.open(typ)
	if n.TO0 == nil {
		d.word("", nil)
		d.sp()
		d.node(n.Left)
		d.sp()
		d.word("", &n.RU)
		d.sp()
		d.word("", n.TO1)
		d.sp()
		d.node(n.Right)
	} else {
		d.word("", n.TO0)
		d.sp()
		d.word("", &n.RU)
		d.sp()
		d.node(n.Left)
		d.sp()
		d.word("", n.TO1)
		d.sp()
		d.node(n.Right)
	}
	d.close()
}

func (d *dumper) lu(typ string, n *ast.LUPhrase) {
	d.open(typ)
	d.word("", &n.LU)
	d.sp()
	d.node(n.Statement)
	d.close()
}

func (d *dumper) predication(typ string, n *ast.Predication) {
	d.open(typ)
	d.node(n.Predicate)
	d.sp()
	if n.Terms == nil {
		d.word("", nil)
	} else {
		d.node(n.Terms)
	}
	d.sp()
	d.word("", n.NA)
	d.close()
}

func (d *dumper) discourse(n ast.Discourse) {
	d.open("Discourse")
	for i, k := range n {
		if i > 0 {
			d.sp()
		}
		d.node(k)
	}
	d.close()
}

func (d *dumper) node(n ast.Node) {
	switch n := n.(type) {
	case nil:
		d.b = append(d.b, '_')
	case *ast.Text:
		d.open("Text")
		if n.Leading == nil {
			d.word("", nil)
		} else {
			d.node(n.Leading)
		}
		d.sp()
		d.discourse(n.Discourse)
		d.close()
	case *ast.Discourse:
		d.discourse(*n)
	case *ast.StatementSentence:
		d.open("Sentence")
		d.word("", n.JE)
		d.sp()
		d.node(n.Statement)
		d.sp()
		d.word("", n.DA)
		d.close()
	case *ast.CoPSentence:
		d.cop("CoPSentence", (*ast.CoP)(n))
	case *ast.Prenex:
		d.open("Prenex")
		d.node(n.Terms)
		d.sp()
		d.word("", &n.BI)
		d.close()
	case *ast.PrenexStatement:
		d.open("PrenexStatement")
		d.node(&n.Prenex)
		d.sp()
		d.node(n.Statement)
		d.close()
	case *ast.Predication:
		d.predication("Predication", n)
	case *ast.CoPStatement:
		d.cop("CoPStatement", (*ast.CoP)(n))
	case *ast.PrefixedPredicate:
		d.open("Prefixed")
		d.word("", &n.MU)
		d.sp()
		d.node(n.Predicate)
		d.close()
	case *ast.SerialPredicate:
		d.open("Serial")
		d.node(n.Left)
		d.sp()
		d.node(n.Right)
		d.close()
	case *ast.WordPredicate:
		d.open("Word")
		d.word("", (*ast.Word)(n))
		d.close()
	case *ast.MIPredicate:
		d.open("MI")
		d.word("", &n.MI)
		d.sp()
		d.node(n.Phrase)
		d.sp()
		d.word("", n.GA)
		d.close()
	case *ast.POPredicate:
		d.open("PO")
		d.word("", &n.PO)
		d.sp()
		d.node(n.Argument)
		d.sp()
		d.word("", n.GA)
		d.close()
	case *ast.MOPredicate:
		d.open("MO")
		d.word("", &n.MO)
		d.sp()
		d.discourse(n.Discourse)
		d.sp()
		d.word("", &n.TEO)
		d.close()
	case *ast.LUPredicate:
		d.lu("LUPredicate", (*ast.LUPhrase)(n))
	case *ast.CoPPredicate:
		d.cop("CoPPredicate", (*ast.CoP)(n))
	case *ast.LinkedTerm:
		d.open("Linked")
		d.word("", &n.GO)
		d.sp()
		d.node(n.Argument)
		d.close()
	case ast.Terms:
		d.open("Terms")
		for i, k := range n {
			if i > 0 {
				d.sp()
			}
			d.node(k)
		}
		d.close()
	case *ast.TermSet:
		d.cop("TermSet", (*ast.CoP)(n))
	case *ast.PredicateArgument:
		d.open("Argument")
		d.word("", n.Focus)
		d.sp()
		d.word("", n.Quantifier)
		d.sp()
		d.node(n.Predicate)
		d.sp()
		if n.Relative == nil {
			d.word("", nil)
		} else {
			d.node(n.Relative)
		}
		d.close()
	case *ast.CoPArgument:
		d.cop("CoPArgument", (*ast.CoP)(n))
	case *ast.PredicationRelative:
		d.predication("Relative", &n.Predication)
	case *ast.LURelative:
		d.lu("LURelative", (*ast.LUPhrase)(n))
	case *ast.CoPRelative:
		d.cop("CoPRelative", (*ast.CoP)(n))
	case *ast.PredicateAdverb:
		d.open("Adverb")
		d.node(n.Predicate)
		d.close()
	case *ast.CoPAdverb:
		d.cop("CoPAdverb", (*ast.CoP)(n))
	case *ast.PredicationPreposition:
		d.open("Preposition")
		d.node(n.Predicate)
		d.sp()
		d.node(n.Argument)
		d.close()
	case *ast.CoPPreposition:
		d.cop("CoPPreposition", (*ast.CoP)(n))
	case *ast.PredicationContent:
		d.predication("Content", &n.Predication)
	case *ast.LUContent:
		d.lu("LUContent", (*ast.LUPhrase)(n))
	case *ast.CoPContent:
		d.cop("CoPContent", (*ast.CoP)(n))
	case *ast.Parenthetical:
		d.open("Paren")
		d.word("", &n.KIO)
		d.sp()
		d.discourse(n.Discourse)
		d.sp()
		d.word("", &n.KI)
		d.close()
	case *ast.Incidental:
		d.open("Incidental")
		d.word("", &n.JU)
		d.sp()
		d.node(n.Statement)
		d.close()
	case *ast.Vocative:
		d.open("Vocative")
		d.word("", &n.HU)
		d.sp()
		d.node(n.Argument)
		d.close()
	case *ast.Interjection:
		d.word("Bei", (*ast.Word)(n))
	case *ast.Space:
		d.word("Sp", (*ast.Word)(n))
	case *ast.Word:
		d.word("Word", n)
	case *ast.CoP:
		d.cop("CoP", n)
	case *ast.LUPhrase:
		d.lu("LUPhrase", n)
	default:
		d.bad = "node"
	}
}

// Kids are the constituents of a node in the order in which they are written.
// A word has its modifier as its constituent.
func Kids(n ast.Node) []ast.Node {
	var ks []ast.Node
	add := func(n ast.Node) { ks = append(ks, n) }
	word := func(w *ast.Word) {
		if w != nil {
			add(w)
		}
	}
	mod := func(m ast.Mod) {
		if m != nil {
			add(m)
		}
	}
	switch n := n.(type) {
	case *ast.Text:
		mod(n.Leading)
		add(&n.Discourse)
	case *ast.Discourse:
		for _, k := range *n {
			add(k)
		}
	case *ast.StatementSentence:
		word(n.JE)
		add(n.Statement)
		word(n.DA)
	case *ast.CoPSentence:
		add((*ast.CoP)(n))
	case *ast.CoPStatement:
		add((*ast.CoP)(n))
	case *ast.CoPPredicate:
		add((*ast.CoP)(n))
	case *ast.CoPArgument:
		add((*ast.CoP)(n))
	case *ast.CoPRelative:
		add((*ast.CoP)(n))
	case *ast.CoPAdverb:
		add((*ast.CoP)(n))
	case *ast.CoPPreposition:
		add((*ast.CoP)(n))
	case *ast.CoPContent:
		add((*ast.CoP)(n))
	case *ast.TermSet:
		add((*ast.CoP)(n))
	case *ast.LUPredicate:
		add((*ast.LUPhrase)(n))
	case *ast.LURelative:
		add((*ast.LUPhrase)(n))
	case *ast.LUContent:
		add((*ast.LUPhrase)(n))
	case *ast.WordPredicate:
		add((*ast.Word)(n))
	case *ast.Interjection:
		add((*ast.Word)(n))
	case *ast.Space:
		add((*ast.Word)(n))
	case *ast.Prenex:
		add(n.Terms)
		add(&n.BI)
	case *ast.PrenexStatement:
		add(&n.Prenex)
		add(n.Statement)
	case *ast.Predication:
		add(n.Predicate)
		if n.Terms != nil {
			add(n.Terms)
		}
		word(n.NA)
	case *ast.PrefixedPredicate:
		add(&n.MU)
		add(n.Predicate)
	case *ast.SerialPredicate:
		add(n.Left)
		add(n.Right)
	case *ast.MIPredicate:
		add(&n.MI)
		add(n.Phrase)
		word(n.GA)
	case *ast.POPredicate:
		add(&n.PO)
		add(n.Argument)
		word(n.GA)
	case *ast.MOPredicate:
		add(&n.MO)
		add(&n.Discourse)
		add(&n.TEO)
	case *ast.LinkedTerm:
		add(&n.GO)
		add(n.Argument)
	case ast.Terms:
		for _, k := range n {
			add(k)
		}
	case *ast.PredicateArgument:
		word(n.Focus)
		word(n.Quantifier)
		add(n.Predicate)
		if n.Relative != nil {
			add(n.Relative)
		}
	case *ast.PredicationRelative:
		add(&n.Predication)
	case *ast.PredicationContent:
		add(&n.Predication)
	case *ast.PredicateAdverb:
		add(n.Predicate)
	case *ast.PredicationPreposition:
		add(n.Predicate)
		add(n.Argument)
	case *ast.Parenthetical:
		add(&n.KIO)
		add(&n.Discourse)
		add(&n.KI)
	case *ast.Incidental:
		add(&n.JU)
		add(n.Statement)
	case *ast.Vocative:
		add(&n.HU)
		add(n.Argument)
	case *ast.CoP:
		if n.TO0 == nil {
			add(n.Left)
			add(&n.RU)
			word(n.TO1)
			add(n.Right)
		} else {
			add(n.TO0)
			add(&n.RU)
			add(n.Left)
			word(n.TO1)
			add(n.Right)
		}
	case *ast.LUPhrase:
		add(&n.LU)
		add(n.Statement)
	case *ast.Word:
		mod(n.M)
	}
	return ks
}

// TypeName names the type of a node.
func TypeName(n ast.Node) string {
	switch n.(type) {
	case nil:
		return "nil"
	case *ast.Text:
		return "Text"
	case *ast.Discourse:
		return "Discourse"
	case *ast.StatementSentence:
		return "StatementSentence"
	case *ast.CoPSentence:
		return "CoPSentence"
	case *ast.CoPStatement:
		return "CoPStatement"
	case *ast.CoPPredicate:
		return "CoPPredicate"
	case *ast.CoPArgument:
		return "CoPArgument"
	case *ast.CoPRelative:
		return "CoPRelative"
	case *ast.CoPAdverb:
		return "CoPAdverb"
	case *ast.CoPPreposition:
		return "CoPPreposition"
	case *ast.CoPContent:
		return "CoPContent"
	case *ast.TermSet:
		return "TermSet"
	case *ast.LUPredicate:
		return "LUPredicate"
	case *ast.LURelative:
		return "LURelative"
	case *ast.LUContent:
		return "LUContent"
	case *ast.WordPredicate:
		return "WordPredicate"
	case *ast.Interjection:
		return "Interjection"
	case *ast.Space:
		return "Space"
	case *ast.Prenex:
		return "Prenex"
	case *ast.PrenexStatement:
		return "PrenexStatement"
	case *ast.Predication:
		return "Predication"
	case *ast.PrefixedPredicate:
		return "PrefixedPredicate"
	case *ast.SerialPredicate:
		return "SerialPredicate"
	case *ast.MIPredicate:
		return "MIPredicate"
	case *ast.POPredicate:
		return "POPredicate"
	case *ast.MOPredicate:
		return "MOPredicate"
	case *ast.LinkedTerm:
		return "LinkedTerm"
	case ast.Terms:
		return "Terms"
	case *ast.PredicateArgument:
		return "PredicateArgument"
	case *ast.PredicationRelative:
		return "PredicationRelative"
	case *ast.PredicationContent:
		return "PredicationContent"
	case *ast.PredicateAdverb:
		return "PredicateAdverb"
	case *ast.PredicationPreposition:
		return "PredicationPreposition"
	case *ast.Parenthetical:
		return "Parenthetical"
	case *ast.Incidental:
		return "Incidental"
	case *ast.Vocative:
		return "Vocative"
	case *ast.CoP:
		return "CoP"
	case *ast.LUPhrase:
		return "LUPhrase"
	case *ast.Word:
		return "Word"
	}
	return "?"
}

// first and last are the extent of the words of a node, without the modifiers
// after the last word.
func extent(n ast.Node) (int, int, bool) {
	if w, ok := n.(*ast.Word); ok {
		return w.S, w.E, true
	}
	s, e, any := 0, 0, false
	for _, k := range Kids(n) {
		if _, ok := n.(*ast.Text); ok {
			if _, lead := k.(*ast.Space); lead && any {
				continue
			}
		}
		ks, ke, ok := extent(k)
		if !ok {
			continue
		}
		if !any {
			s = ks
		}
		e, any = ke, true
	}
	return s, e, any
}

// CheckExtents asserts that every node of a tree extends from its first to its last word.
func CheckExtents(n ast.Node) {
	if t, ok := n.(*ast.Text); ok && len(t.Discourse) > 0 {
		s, e, _ := extent(&t.Discourse)
		v.Assert(t.Start() == s && t.End() == e, "a text extends over its discourse")
	} else if s, e, any := extent(n); any {
		v.Assert(n.Start() == s, "a node starts where its first word starts")
		v.Assert(n.End() == e, "a node ends where its last word ends")
	}
	for _, k := range Kids(n) {
		CheckExtents(k)
	}
}
