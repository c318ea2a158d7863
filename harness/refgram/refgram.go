// Package refgram is a reference model of the grammar: a parsing expression
// grammar over words (not letters), written from the published Toaq grammar.
// It shares no code with the parser under test. It yields the constituents of
// a text as a string in the notation of Dump.
package refgram

import "strconv"

// Word classes. The classes from Lu on are a base class plus a tone.
const (
	None = iota // not a word of the language in this form
	Sp          // white space
	BI
	DA
	GA
	GO
	BEI
	HU
	JU
	KU
	KI
	KIO
	KEO
	NA
	RA
	TU
	TO
	TEO
	Lu   = 20
	Mi   = 30
	Po   = 40
	Mo   = 50
	Pred = 60
)

// Tones of words.
const (
	Arg = iota
	Rel
	Verb
	Con
	Prep
	Adv
)

// Tok is a word or a space of the text.
type Tok struct {
	C    int // word class
	S, E int // byte offsets
}

// node is a constituent.
type node struct {
	typ  string
	kids []*node // nil: absent
	tok  int     // for words
	mod  *node   // for words
}

type memo struct {
	done bool
	n    *node
	e    int
}

type rule struct {
	g    *gram
	memo []memo
	f    func(p int) (*node, int)
}

type gram struct {
	t   []Tok
	far int // furthest word that did not fit somewhere

	discourse, fragment, sentence, sentence1, sentence2, sentence3 *rule
	statement, statement1, statement2, statement3, prenex          *rule
	predicate, predicate1, predicate2                              *rule
	terms, term, termset                                           *rule
	argument, arg1, arg2, arg5, arg6, arg7                         *rule
	relative, relative1, relative2, relative3, relPred, relPred1   *rule
	relPred2                                                       *rule
	adverb, adverb1, adverb2, adverb3, adverb4                     *rule
	preps, preps1, preps2, prep, prep1, prep2, prep3, prep4        *rule
	content, content1, conPred, conPred1, conPred2                 *rule
	mods, freemod                                                  *rule
	miComp                                                         *rule
}

func (r *rule) at(p int) (*node, int) {
	m := &r.memo[p]
	if !m.done {
		m.n, m.e = r.f(p)
		m.done = true
	}
	return m.n, m.e
}

func (g *gram) rule(f func(p int) (*node, int)) *rule {
	return &rule{g: g, memo: make([]memo, len(g.t)+1), f: f}
}

// word matches one word of a class.
func (g *gram) word(p, class int) (*node, int) {
	if p < len(g.t) && g.t[p].C == class {
		return &node{tok: p}, p + 1
	}
	if p > g.far {
		g.far = p
	}
	return nil, -1
}

func mk(typ string, kids ...*node) *node { return &node{typ: typ, kids: kids} }

// attach attaches a modifier to the last word of n.
func attach(n, m *node) *node {
	if m == nil {
		return n
	}
	c := *n
	if n.typ == "" || n.typ == "Sp" || n.typ == "Bei" {
		if n.mod == nil {
			c.mod = m
		} else {
			c.mod = attach(n.mod, m)
		}
		return &c
	}
	c.kids = append([]*node{}, n.kids...)
	for i := len(c.kids) - 1; i >= 0; i-- {
		if c.kids[i] != nil {
			c.kids[i] = attach(c.kids[i], m)
			break
		}
	}
	return &c
}

// first is ordered choice.
func (g *gram) first(rs ...**rule) func(p int) (*node, int) {
	return func(p int) (*node, int) {
		for _, r := range rs {
			if n, e := (*r).at(p); e >= 0 {
				return n, e
			}
		}
		return nil, -1
	}
}

// space matches the optional space and free modifiers between words.
func (g *gram) space(p int) (*node, int) {
	if n, e := g.mods.at(p); e >= 0 {
		return n, e
	}
	return nil, p
}

// then is: a, modifiers attached to it.
func (g *gram) then(n *node, p int) (*node, int) {
	m, e := g.space(p)
	return attach(n, m), e
}

// opt matches an optional word of a class.
func (g *gram) opt(p, class int) (*node, int) {
	if n, e := g.word(p, class); e >= 0 {
		return n, e
	}
	return nil, p
}

// after is a connection left RA right.
func (g *gram) after(typ string, left, right **rule) func(p int) (*node, int) {
	return func(p int) (*node, int) {
		l, e := (*left).at(p)
		if e < 0 {
			return nil, -1
		}
		l, e = g.then(l, e)
		ru, e := g.word(e, RA)
		if e < 0 {
			return nil, -1
		}
		ru, e = g.then(ru, e)
		r, e := (*right).at(e)
		if e < 0 {
			return nil, -1
		}
		return mk(typ, nil, l, ru, nil, r), e
	}
}

// fore is a connection TO RA left TO right.
func (g *gram) fore(typ string, left, right **rule) func(p int) (*node, int) {
	return func(p int) (*node, int) {
		to, e := g.word(p, TO)
		if e < 0 {
			return nil, -1
		}
		to, e = g.then(to, e)
		ru, e := g.word(e, RA)
		if e < 0 {
			return nil, -1
		}
		ru, e = g.then(ru, e)
		l, e := (*left).at(e)
		if e < 0 {
			return nil, -1
		}
		l, e = g.then(l, e)
		to1, e := g.word(e, TO)
		if e < 0 {
			return nil, -1
		}
		to1, e = g.then(to1, e)
		r, e := (*right).at(e)
		if e < 0 {
			return nil, -1
		}
		return mk(typ, to, ru, l, to1, r), e
	}
}

// serial is left predicate.
func (g *gram) serial(left **rule) func(p int) (*node, int) {
	return func(p int) (*node, int) {
		l, e := (*left).at(p)
		if e < 0 {
			return nil, -1
		}
		l, e = g.then(l, e)
		r, e := g.predicate.at(e)
		if e < 0 {
			return nil, -1
		}
		return mk("Serial", l, r), e
	}
}

// alt is ordered choice of anonymous rules.
func alt(fs ...func(p int) (*node, int)) func(p int) (*node, int) {
	return func(p int) (*node, int) {
		for _, f := range fs {
			if n, e := f(p); e >= 0 {
				return n, e
			}
		}
		return nil, -1
	}
}

func (g *gram) predWord(tone int) func(p int) (*node, int) {
	return func(p int) (*node, int) {
		w, e := g.word(p, Pred+tone)
		if e < 0 {
			return nil, -1
		}
		return mk("Word", w), e
	}
}

func (g *gram) lu(typ string, tone int) func(p int) (*node, int) {
	return func(p int) (*node, int) {
		w, e := g.word(p, Lu+tone)
		if e < 0 {
			return nil, -1
		}
		w, e = g.then(w, e)
		st, e := g.statement.at(e)
		if e < 0 {
			return nil, -1
		}
		return mk(typ, w, st), e
	}
}

func (g *gram) mi(tone int) func(p int) (*node, int) {
	return func(p int) (*node, int) {
		w, e := g.word(p, Mi+tone)
		if e < 0 {
			return nil, -1
		}
		w, e = g.then(w, e)
		c, e := g.miComp.at(e)
		if e < 0 {
			return nil, -1
		}
		c, e = g.then(c, e)
		ga, e := g.opt(e, GA)
		return mk("MI", w, c, ga), e
	}
}

func (g *gram) po(tone int) func(p int) (*node, int) {
	return func(p int) (*node, int) {
		w, e := g.word(p, Po+tone)
		if e < 0 {
			return nil, -1
		}
		w, e = g.then(w, e)
		a, e := g.argument.at(e)
		if e < 0 {
			return nil, -1
		}
		a, e = g.then(a, e)
		ga, e := g.opt(e, GA)
		return mk("PO", w, a, ga), e
	}
}

func (g *gram) mo(tone int) func(p int) (*node, int) {
	return func(p int) (*node, int) {
		w, e := g.word(p, Mo+tone)
		if e < 0 {
			return nil, -1
		}
		if s, e1 := g.spaceWord(e); e1 >= 0 {
			w, e = attach(w, s), e1
		}
		d, e := g.discourse.at(e)
		if e < 0 {
			return nil, -1
		}
		d, e = g.then(d, e)
		teo, e := g.word(e, TEO)
		if e < 0 {
			return nil, -1
		}
		return mk("MO", w, d, teo), e
	}
}

func (g *gram) spaceWord(p int) (*node, int) {
	if p < len(g.t) && g.t[p].C == Sp {
		return &node{typ: "Sp", tok: p}, p + 1
	}
	return nil, -1
}

// predication is: predicate terms? NA?
func (g *gram) predication(typ string, pred **rule) func(p int) (*node, int) {
	return func(p int) (*node, int) {
		n, e := (*pred).at(p)
		if e < 0 {
			return nil, -1
		}
		n, e = g.then(n, e)
		ts, e1 := g.terms.at(e)
		if e1 >= 0 {
			e = e1
		}
		var na *node
		if ts != nil {
			ts, e = g.then(ts, e)
		} else {
			var m *node
			m, e = g.space(e)
			n = attach(n, m)
		}
		na, e = g.opt(e, NA)
		return mk(typ, n, ts, na), e
	}
}

func seq(a, b *node) *node { // prepend a to a list
	return mk(b.typ, append([]*node{a}, b.kids...)...)
}

// termsN is exactly n terms.
func (g *gram) termsN(n int) *rule {
	return g.rule(func(p int) (*node, int) {
		l := mk("Terms")
		e := p
		for i := 0; i < n; i++ {
			var t *node
			t, e = g.term.at(e)
			if e < 0 {
				return nil, -1
			}
			if i < n-1 {
				t, e = g.then(t, e)
			}
			l.kids = append(l.kids, t)
		}
		return l, e
	})
}

// New makes the grammar for a text.
func newGram(t []Tok) *gram {
	g := &gram{t: t}

	g.mods = g.rule(func(p int) (*node, int) {
		m, e := g.freemod.at(p)
		if e < 0 {
			m, e = g.spaceWord(p)
		}
		if e < 0 {
			return nil, -1
		}
		if ms, e1 := g.mods.at(e); e1 >= 0 {
			return attach(m, ms), e1
		}
		return m, e
	})
	g.freemod = g.rule(alt(
		func(p int) (*node, int) {
			if p < len(g.t) && g.t[p].C == BEI {
				return &node{typ: "Bei", tok: p}, p + 1
			}
			return nil, -1
		},
		func(p int) (*node, int) {
			kio, e := g.word(p, KIO)
			if e < 0 {
				return nil, -1
			}
			kio, e = g.then(kio, e)
			d, e := g.discourse.at(e)
			if e < 0 {
				return nil, -1
			}
			d, e = g.then(d, e)
			ki, e := g.word(e, KI)
			if e < 0 {
				return nil, -1
			}
			return mk("Paren", kio, d, ki), e
		},
		func(p int) (*node, int) {
			ju, e := g.word(p, JU)
			if e < 0 {
				return nil, -1
			}
			ju, e = g.then(ju, e)
			st, e := g.statement.at(e)
			if e < 0 {
				return nil, -1
			}
			return mk("Incidental", ju, st), e
		},
		func(p int) (*node, int) {
			hu, e := g.word(p, HU)
			if e < 0 {
				return nil, -1
			}
			hu, e = g.then(hu, e)
			a, e := g.argument.at(e)
			if e < 0 {
				return nil, -1
			}
			return mk("Vocative", hu, a), e
		},
	))

	g.discourse = g.rule(func(p int) (*node, int) {
		d := mk("Discourse")
		e := p
		for {
			n, e1 := g.sentence.at(e)
			if e1 < 0 {
				n, e1 = g.fragment.at(e)
			}
			if e1 < 0 {
				break
			}
			n, e1 = g.then(n, e1)
			d.kids = append(d.kids, n)
			e = e1
		}
		if len(d.kids) == 0 {
			return nil, -1
		}
		return d, e
	})
	frag := alt(
		g.after("CoPRelative", &g.relative1, &g.relative),
		g.first(&g.relative),
		g.first(&g.prenex),
		g.first(&g.terms),
		g.first(&g.freemod),
	)
	g.fragment = g.rule(func(p int) (*node, int) {
		n, e := frag(p)
		if e < 0 {
			return nil, -1
		}
		return g.then(n, e)
	})

	g.sentence = g.rule(alt(g.after("CoPSentence", &g.sentence1, &g.sentence), g.first(&g.sentence1)))
	g.sentence1 = g.rule(alt(g.first(&g.sentence2), g.fore("CoPSentence", &g.sentence, &g.sentence)))
	g.sentence2 = g.rule(func(p int) (*node, int) {
		je, e := g.opt(p, KEO)
		if je != nil {
			je, e = g.then(je, e)
		}
		s, e := g.sentence3.at(e)
		if e < 0 {
			// An optional prefix that does not help is not taken back.
			return nil, -1
		}
		return mk("Sentence", je, s.kids[0], s.kids[1]), e
	})
	g.sentence3 = g.rule(func(p int) (*node, int) {
		st, e := g.statement.at(p)
		if e < 0 {
			return nil, -1
		}
		st, e = g.then(st, e)
		da, e := g.opt(e, DA)
		return mk("Sentence", st, da), e
	})

	g.statement = g.rule(func(p int) (*node, int) {
		pr, e := g.prenex.at(p)
		if e >= 0 {
			pr, e = g.then(pr, e)
			st, e := g.statement1.at(e)
			if e < 0 {
				return nil, -1
			}
			return mk("PrenexStatement", pr, st), e
		}
		return g.statement1.at(p)
	})
	g.statement1 = g.rule(alt(g.after("CoPStatement", &g.statement2, &g.statement), g.first(&g.statement2)))
	g.statement2 = g.rule(alt(g.first(&g.statement3), g.fore("CoPStatement", &g.statement, &g.statement)))
	g.statement3 = g.rule(g.predication("Predication", &g.predicate))
	g.prenex = g.rule(func(p int) (*node, int) {
		ts, e := g.terms.at(p)
		if e < 0 {
			return nil, -1
		}
		ts, e = g.then(ts, e)
		bi, e := g.word(e, BI)
		if e < 0 {
			return nil, -1
		}
		return mk("Prenex", ts, bi), e
	})

	g.predicate = g.rule(alt(g.serial(&g.predicate1), g.first(&g.predicate1)))
	g.predicate1 = g.rule(alt(g.after("CoPPredicate", &g.predicate2, &g.predicate1), g.first(&g.predicate2)))
	verbWord := g.predWord(Verb)
	g.predicate2 = g.rule(alt(
		g.fore("CoPPredicate", &g.predicate, &g.predicate),
		g.lu("LUPredicate", Verb), g.mi(Verb), g.po(Verb), g.mo(Verb),
		func(p int) (*node, int) {
			n, e := verbWord(p)
			if e < 0 {
				return nil, -1
			}
			return g.then(n, e)
		}))

	g.terms = g.rule(func(p int) (*node, int) {
		t, e := g.term.at(p)
		if e < 0 {
			return nil, -1
		}
		t1, e1 := g.then(t, e)
		if ts, e2 := g.terms.at(e1); e2 >= 0 {
			return seq(t1, ts), e2
		}
		return mk("Terms", t), e
	})
	g.term = g.rule(alt(
		func(p int) (*node, int) {
			gw, e := g.word(p, GO)
			if e >= 0 {
				gw, e = g.then(gw, e)
				a, e := g.argument.at(e)
				if e < 0 {
					return nil, -1
				}
				return mk("Linked", gw, a), e
			}
			return g.argument.at(p)
		},
		g.first(&g.adverb), g.first(&g.termset), g.first(&g.preps)))
	t5, t4, t3, t2 := g.termsN(5), g.termsN(4), g.termsN(3), g.termsN(2)
	g.termset = g.rule(alt(g.fore("TermSet", &t5, &t5), g.fore("TermSet", &t4, &t4), g.fore("TermSet", &t3, &t3), g.fore("TermSet", &t2, &t2)))

	g.argument = g.rule(alt(g.after("CoPArgument", &g.arg1, &g.argument), g.first(&g.arg1)))
	g.arg1 = g.rule(alt(g.fore("CoPArgument", &g.argument, &g.argument), g.first(&g.arg2)))
	g.arg2 = g.rule(func(p int) (*node, int) {
		ku, e := g.opt(p, KU)
		if ku != nil {
			ku, e = g.then(ku, e)
		}
		tu, e := g.opt(e, TU)
		if tu != nil {
			tu, e = g.then(tu, e)
		}
		a, e := g.arg5.at(e)
		if e < 0 {
			return nil, -1
		}
		pr := a.kids[2]
		pr, e = g.then(pr, e)
		rc, e1 := g.relative.at(e)
		if e1 >= 0 {
			e = e1
		}
		return mk("Argument", ku, tu, pr, rc), e
	})
	arg5 := alt(g.serial(&g.arg6), g.first(&g.arg6))
	g.arg5 = g.rule(func(p int) (*node, int) {
		n, e := arg5(p)
		if e < 0 {
			return nil, -1
		}
		return mk("Argument", nil, nil, n, nil), e
	})
	g.arg6 = g.rule(alt(
		g.first(&g.content),
		g.after("CoPPredicate", &g.arg7, &g.predicate),
		g.fore("CoPPredicate", &g.arg5, &g.predicate),
		g.lu("LUPredicate", Arg), g.mi(Arg), g.po(Arg), g.mo(Arg), g.first(&g.arg7)))
	g.arg7 = g.rule(g.predWord(Arg))

	g.relative = g.rule(alt(
		g.after("CoPRelative", &g.relative1, &g.relative),
		g.lu("LURelative", Rel),
		g.first(&g.relative1)))
	g.relative1 = g.rule(alt(g.fore("CoPRelative", &g.relative, &g.relative), g.first(&g.relative2)))
	g.relative2 = g.rule(alt(g.after("CoPRelative", &g.relative3, &g.statement), g.first(&g.relative3)))
	g.relative3 = g.rule(g.predication("Relative", &g.relPred))
	g.relPred = g.rule(alt(g.serial(&g.relPred1), g.first(&g.relPred1)))
	g.relPred1 = g.rule(alt(
		g.after("CoPPredicate", &g.relPred2, &g.predicate),
		g.fore("CoPPredicate", &g.relPred, &g.predicate),
		g.first(&g.relPred2)))
	g.relPred2 = g.rule(alt(g.mi(Rel), g.po(Rel), g.mo(Rel), g.predWord(Rel)))

	g.adverb = g.rule(alt(g.after("CoPAdverb", &g.adverb1, &g.adverb), g.first(&g.adverb1)))
	g.adverb1 = g.rule(alt(g.fore("CoPAdverb", &g.adverb, &g.adverb), g.first(&g.adverb2)))
	adv2 := alt(g.serial(&g.adverb3), g.first(&g.adverb3))
	g.adverb2 = g.rule(func(p int) (*node, int) {
		n, e := adv2(p)
		if e < 0 {
			return nil, -1
		}
		return mk("Adverb", n), e
	})
	g.adverb3 = g.rule(alt(
		g.after("CoPPredicate", &g.adverb4, &g.predicate),
		g.fore("CoPPredicate", &g.adverb3, &g.predicate),
		g.lu("LUPredicate", Adv), g.mi(Adv), g.po(Adv), g.mo(Adv), g.first(&g.adverb4)))
	g.adverb4 = g.rule(g.predWord(Adv))

	g.preps = g.rule(alt(g.after("CoPPreposition", &g.preps1, &g.preps), g.first(&g.preps1)))
	g.preps1 = g.rule(alt(g.fore("CoPPreposition", &g.preps, &g.preps), g.first(&g.preps2)))
	g.preps2 = g.rule(func(p int) (*node, int) {
		n, e := g.prep.at(p)
		if e < 0 {
			return nil, -1
		}
		n, e = g.then(n, e)
		a, e := g.argument.at(e)
		if e < 0 {
			return nil, -1
		}
		return mk("Preposition", n, a), e
	})
	g.prep = g.rule(alt(g.after("CoPPredicate", &g.prep1, &g.prep), g.first(&g.prep1)))
	g.prep1 = g.rule(alt(g.fore("CoPPredicate", &g.prep, &g.prep), g.first(&g.prep2)))
	g.prep2 = g.rule(alt(g.serial(&g.prep3), g.first(&g.prep3)))
	g.prep3 = g.rule(alt(
		g.after("CoPPredicate", &g.prep4, &g.predicate),
		g.fore("CoPPredicate", &g.prep, &g.predicate),
		g.lu("LUPredicate", Prep), g.mi(Prep), g.po(Prep), g.mo(Prep), g.first(&g.prep4)))
	g.prep4 = g.rule(g.predWord(Prep))

	g.content = g.rule(alt(g.after("CoPContent", &g.content1, &g.statement), g.first(&g.content1)))
	g.content1 = g.rule(alt(g.predication("Content", &g.conPred), g.lu("LUContent", Con)))
	g.conPred = g.rule(alt(g.serial(&g.conPred1), g.first(&g.conPred1)))
	g.conPred1 = g.rule(alt(
		g.after("CoPPredicate", &g.conPred2, &g.predicate),
		g.fore("CoPPredicate", &g.conPred2, &g.predicate),
		g.first(&g.conPred2)))
	g.conPred2 = g.rule(alt(g.mi(Con), g.po(Con), g.mo(Con), g.predWord(Con)))

	g.miComp = g.rule(g.first(&g.predicate, &g.argument, &g.adverb, &g.preps))
	return g
}

// Parse returns the constituents of the text, or "" if it is not in the language.
func Parse(t []Tok) string {
	s, _ := ParseFar(t)
	return s
}

// ParseFar is Parse, and tells the furthest word at which another one was expected.
func ParseFar(t []Tok) (string, int) {
	g := newGram(t)
	lead, e := g.spaceWord(0)
	if e < 0 {
		e = 0
	}
	d, e1 := g.discourse.at(e)
	if e1 < 0 {
		d, e1 = mk("Discourse"), e
	}
	if e1 != len(t) {
		return "", g.far
	}
	var b []byte
	return string(g.print(b, mk("Text", lead, d))), g.far
}

func (g *gram) print(b []byte, n *node) []byte {
	if n == nil {
		return append(b, '_')
	}
	if n.typ == "" || n.typ == "Sp" || n.typ == "Bei" {
		b = append(b, n.typ...)
		b = append(b, '@')
		b = strconv.AppendInt(b, int64(g.t[n.tok].S), 10)
		b = append(b, '-')
		b = strconv.AppendInt(b, int64(g.t[n.tok].E), 10)
		if n.mod != nil {
			b = append(b, '+')
			b = g.print(b, n.mod)
		}
		return b
	}
	b = append(b, n.typ...)
	b = append(b, '(')
	for i, k := range n.kids {
		if i > 0 {
			b = append(b, ' ')
		}
		b = g.print(b, k)
	}
	return append(b, ')')
}
