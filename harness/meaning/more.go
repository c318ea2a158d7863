package meaning

import (
	"github.com/eaburns/toaq/logic"
	"github.com/eaburns/toaq/zzverif/astx"
	"github.com/eaburns/toaq/zzverif/logicx"
	"github.com/eaburns/toaq/zzverif/reftone"
	"github.com/eaburns/toaq/zzverif/spell"
	"github.com/eaburns/toaq/zzverif/v"
)

// linked are the linking words and their places; the first is none.
var links = []string{"", "fi", "go", "cu", "ta"}

var nouns = []string{"poq", "nuo", "rai", "suq", "jai"}

// places computes where arguments go: linked ones to their place, and the
// others, in order, to the first places that no linked one has.
func places(at []int) []int {
	n := len(at)
	for _, p := range at {
		if p > n {
			n = p
		}
	}
	out := make([]int, n)
	for i := range out {
		out[i] = -1
	}
	for i, p := range at {
		if p > 0 {
			out[p-1] = i
		}
	}
	for i, p := range at {
		if p == 0 {
			k := 0
			for out[k] >= 0 {
				k++
			}
			out[k] = i
		}
	}
	return out
}

// Places decides that arguments fill the places of the predicate that their
// linking words say, and the others the free places in order.
func Places() {
	n := v.Force(v.Pick("arguments", v.Param("arguments", 4)+1))
	at := make([]int, n)
	before := v.Force(v.Pick("before", n+1)) // arguments in a prenex
	kind := v.Force(v.Pick("kind", 3))
	x := ""
	add := func(w string) {
		if x != "" {
			x += " "
		}
		x += w
	}
	prenex := ""
	if before > 0 {
		prenex = v.Sel(v.Force(v.Pick("prenex", 2)), []string{"pa", "bi"})
	}
	verb := func() {
		switch kind {
		case 0:
			add("mai?")
		case 1:
			add("mai? chuq?")
		case 2:
			add("mai? ra chuq?")
		}
	}
	for i := 0; i < n; i++ {
		if i == before {
			if i > 0 {
				add(prenex)
			}
			verb()
		}
		l := v.Force(v.Pick("link", len(links)))
		at[i] = l
		for j := 0; j < i; j++ {
			if l > 0 && at[j] == l {
				v.Discard() // Two arguments in one place.
			}
		}
		if l > 0 {
			add(links[l])
		}
		if i%2 == 0 {
			add("sa " + nouns[i] + "/")
		} else {
			add(nouns[i] + "/")
		}
	}
	if before == n {
		if n > 0 {
			add(prenex)
		}
		verb()
	}
	v.Ctx(x)
	got, failed := interpret(parse(x))
	v.Assert(!failed && got != nil, "the text is interpreted")
	args := make([]int, 0, n)
	first := 0
	if prenex == "bi" {
		first = before
	}
	for i := first; i < n; i++ {
		args = append(args, at[i])
	}
	want := places(args)
	checked := 0
	for _, k := range logicx.All(got, nil) {
		p, ok := k.(*logic.Predication)
		if !ok || !isVerb(p.Predicate) {
			continue
		}
		checked++
		v.Assert(len(p.Arguments) == len(want), "a predication has the places that its arguments fill")
		for i, w := range want {
			if w < 0 {
				v.Assert(p.Arguments[i] == nil, "a place that no argument fills is empty")
				continue
			}
			x, ok := p.Arguments[i].(*logic.Variable)
			v.Assert(ok && x.Def != nil && restriction(x.Def) == nouns[first+w], "each argument fills its place")
		}
	}
	if kind == 2 {
		v.Assert(checked == 2, "both predicates have arguments")
	} else {
		v.Assert(checked == 1, "the predicate has arguments")
	}
	v.Reach("placed")
}

func isVerb(p logic.Predicate) bool {
	switch p := p.(type) {
	case *logic.Pred:
		return p.Name == "mai" || p.Name == "chuq"
	case *logic.Serial:
		l, ok := p.Left.(*logic.Pred)
		r, ok2 := p.Right.(*logic.Pred)
		return ok && ok2 && l.Name == "mai" && r.Name == "chuq"
	}
	return false
}

func restriction(b *logic.Binding) string {
	p, ok := b.Restriction.(*logic.Predication)
	if !ok {
		return ""
	}
	q, ok := p.Predicate.(*logic.Pred)
	if !ok || len(p.Arguments) != 1 {
		return ""
	}
	if x, ok := p.Arguments[0].(*logic.Variable); !ok || x.Def != b {
		return ""
	}
	return q.Name
}

// Pure decides that interpreting changes nothing and gives the same every time.
func Pure() {
	v.MapOrder(v.Force(v.Pick("order", v.Param("orders", 3))))
	x, t := source()
	before := astx.Dump(t) + astx.Full(t)
	nodes := astx.Index(t)
	got, failed := interpret(t)
	v.Assert(astx.Dump(t)+astx.Full(t) == before, "interpreting does not change the syntax tree")
	for n, i := range astx.Index(t) {
		v.Assert(nodes[n] == i, "interpreting does not replace parts of the syntax tree")
	}
	if failed || got == nil {
		again, failed2 := interpret(t)
		v.Assert(failed2 == failed && again == nil, "interpreting again gives the same")
		v.Reach("none")
		return
	}
	const opts = logicx.Numbers | logicx.Links
	d := logicx.Dump(got, opts, nodes)
	v.Out(d)
	s := logic.String(got)
	v.Out(s)
	again, failed2 := interpret(t)
	v.Assert(!failed2 && logicx.Dump(again, opts, nodes) == d, "interpreting again gives the same")
	v.Assert(logicx.Dump(got, opts, nodes) == d, "interpreting again does not change the first meaning")
	fresh := parse(x)
	other, failed3 := interpret(fresh)
	v.Assert(!failed3 && logicx.Dump(other, opts, astx.Index(fresh)) == d, "the same text has the same meaning")
	v.Assert(logic.String(other) == s, "the same text has the same notation")
	v.Assert(disjoint(got, again), "meanings share no parts")
	v.Reach("interpreted")
}

func disjoint(a, b logic.Node) bool {
	in := map[logic.Node]bool{}
	for _, n := range logicx.All(a, nil) {
		in[n] = true
	}
	for _, n := range logicx.All(b, nil) {
		if in[n] {
			return false
		}
	}
	return true
}

// utterances are sentences and fragments without lifted bindings.
var utterances = []string{
	"mai? sa poq/ da", "tu nuo/ bi chuq? tu suq/ da", "mai? ru chuq? da", "je mai? sia suq/ da", "sa do/ bi mai? do/ ka", "mai? do/ da", "mai? na ra chuq? da",
	"mai? da ru je chuq? sa jai/ da", "to ru mai? da to chuq? da", "sa do/ bi mai? do/ da ru chuq? do/ tu poq/ da",
	"kio mai? sa poq/ ki", "hu ji/", "bei", "raiV sa poq/ na", "ji/ bi", "mai? moq",
}

// halves are the sides of connected sentences among the utterances.
var halves = map[string][2]string{
	"mai? da ru je chuq? sa jai/ da":                {"mai? da", "je chuq? sa jai/ da"},
	"to ru mai? da to chuq? da":                     {"mai? da", "chuq? da"},
	"sa do/ bi mai? do/ da ru chuq? do/ tu poq/ da": {"sa do/ bi mai? do/ da", "chuq? do/ tu poq/ da"},
}

const firstFragment, lastFragment = 10, 14

func meaning(x string) logic.Statement {
	st, failed := interpret(parse(x))
	if failed || st == nil {
		v.Fail("a sentence has a meaning")
	}
	return st
}

// Sentences decides that a text means its sentences, in order.
func Sentences() {
	n := v.Force(v.Pick("sentences", v.Param("sentences", 3)+1))
	x := ""
	var parts []logic.Statement
	fragment := false
	for i := 0; i < n; i++ {
		k := v.Force(v.Pick("utterance", len(utterances)))
		if x != "" {
			x += " "
		}
		x += utterances[k]
		if k >= firstFragment && k <= lastFragment {
			fragment = true
			continue
		}
		if fragment {
			v.Discard() // Some fragments would be part of the sentence.
		}
		st := meaning(utterances[k])
		if h, ok := halves[utterances[k]]; ok {
			st = &logic.Connection{Connector: logic.And, Left: meaning(h[0]), Right: meaning(h[1])}
		}
		parts = append(parts, st)
	}
	v.Ctx(x)
	t := parse(x)
	got, failed := interpret(t)
	v.Assert(!failed, "the text is interpreted")
	if len(parts) == 0 {
		v.Assert(got == nil, "a text of fragments has no meaning")
		v.Reach("fragments")
		return
	}
	want := parts[0]
	for _, p := range parts[1:] {
		want = &logic.Connection{Connector: logic.And, Left: want, Right: p}
	}
	v.Assert(got != nil, "a text with sentences has a meaning")
	d := logicx.Dump(got, 0, nil)
	v.Out(d)
	// Free variables of different sentences may have the same number on their own.
	free := 0
	for _, p := range parts {
		for _, n := range logicx.All(p, nil) {
			if x, ok := n.(*logic.Variable); ok && x.Def == nil {
				free++
				x.N = 1000 + free
			}
		}
	}
	v.Assert(v.StrEq(d, logicx.Dump(want, 0, nil)), "a text means the conjunction of its sentences in order")
	v.Reach("conjoined")
}

// quoted are texts and phrases that are quoted, in several spellings.
var quoted = []string{
	"mai?", "mai? ji/ da", "JE Mai? Ji/", "mải jı́", "mai3 ji2, raiV sa poq/!", "mai? kio suq/ ki ji/", "hu ji/ mai?", "ji/", "ji/ raiV suq/ na", "mai?    da\n\nmai?", "mai? bei", "mai? mo/ mai? teo", "kio mai? ki", "sho~",
	`bao\ ji/`, "mi? mai? ga", "mai? ru chuq?", "mai? ... da", "to ru mai? na to mai?", "chuqV", "ji/ suq/ bi mai?", "mai? hu ji/ kio da ki",
}

// Quotes decides that a quote has the text between its words.
func Quotes() {
	q := quoted[v.Force(v.Pick("text", len(quoted)))]
	kind := v.Force(v.Pick("kind", 6))
	pre, post := "", ""
	switch kind {
	case 0:
		pre, post = "chuq? mo/", "teo"
	case 1:
		pre, post = "mo? ", " teo sa poq/"
	case 2:
		pre, post = "chuq? MI/ ", " ga sa poq/"
	case 3:
		pre, post = "shu? ", ", GA sa poq/"
	case 4:
		pre, post = "chuq? sa poq/ raiV mo/\n", "\n... TEO na"
	case 5:
		pre, post = "chuq? sa mo/  ", "  teo"
	}
	x := pre + q + post
	v.Ctx(x)
	t := parse(x)
	got, failed := interpret(t)
	v.Assert(!failed && got != nil, "the text is interpreted")
	want := trim(q)
	n := 0
	full := kind == 0 || kind == 1 || kind > 3
	for _, k := range logicx.All(got, nil) {
		l, ok := k.(*logic.Quote)
		if !ok {
			continue
		}
		n++
		v.Out(l.Text)
		v.Assert(l.FullText == full, "quotes of texts and of phrases are told apart")
		v.Assert(same(trim(l.Text), want), "a quote has the words and spaces of the text between its marks")
		v.Assert(len(l.Text) > 0 && !isSpace(l.Text[0]) && !isSpace(l.Text[len(l.Text)-1]), "a quote has no spaces around it")
	}
	v.Assert(n == 1, "there is one quote")
	v.Reach("quoted")
}

// same compares texts up to the notation of tones.
func same(a, b string) bool {
	return reftone.ToASCII(notation(a)) == reftone.ToASCII(notation(b))
}

// notation rewrites combining characters and digits, and dotless letters.
func notation(s string) string {
	out := ""
	for _, r := range s {
		switch r {
		case '\u0301', '2':
			out += "/"
		case '3':
			out += "V"
		case 'ı':
			out += "i"
		default:
			out += string(r)
		}
	}
	return out
}

func isSpace(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

// trim leaves out white space and punctuation around a text.
func trim(s string) string {
	around := func(c byte) bool { return isSpace(c) || c == '.' || c == ',' || c == '!' }
	for len(s) > 0 && around(s[0]) {
		s = s[1:]
	}
	for len(s) > 0 && around(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

// spelled are texts with every word that the interpretation looks at.
var spelled = []string{
	"sia do/ hi doV bi mai? do/ hoa/ ja dochi/",
	"mai? fi ji/ cu suq/ go ho/ ta de/",
	"mi? mai? ga ri shu? ji/ ga",
	"po? ji/ ra jei? suq/ roi ho/",
	"li/ mai? hoa/ na bi mai? ke poq/ tu nuo/",
	"lu? mai? hoa/ na ru mea? jeqtu?",
	"mai? sa poq/ raiV ri chuqV hoa/ na roi ji/",
	`to ri sho~ bao\ ji/ to ku dochi/ chia/ bi mai? do/`,
	"shi? rue?",
}

// Spelled decides that notations and letter case do not change the meaning.
func Spelled() {
	lo, hi := v.Param("from", 0), v.Param("to", len(spelled))
	f := words(spelled[lo+v.Force(v.Pick("text", hi-lo))])
	k := v.Force(v.Pick("word", len(f)))
	base, x := "", ""
	for i, w := range f {
		if i > 0 {
			x += " "
			base += " "
		}
		base += w
		if i == k {
			s := spell.All(w)
			w = v.Sel(v.Pick("spelling", len(s)), s)
		}
		x += w
	}
	v.Ctx(x)
	got, failed := interpret(parse(x))
	want, failed2 := interpret(parse(base))
	v.Assert(failed == failed2, "spelling does not decide whether a text is supported")
	if failed {
		v.Discard()
	}
	v.Assert((got == nil) == (want == nil), "spelling does not decide whether a text has a meaning")
	if got == nil {
		v.Discard()
	}
	v.Reach("interpreted")
	for _, n := range logicx.All(got, nil) {
		if q, ok := n.(*logic.Quote); ok {
			q.Text = "" // A quote has the spelling.
		}
	}
	for _, n := range logicx.All(want, nil) {
		if q, ok := n.(*logic.Quote); ok {
			q.Text = ""
		}
	}
	d := logicx.Dump(got, 0, nil)
	v.Out(d)
	v.Assert(v.StrEq(d, logicx.Dump(want, 0, nil)), "spelling does not change the meaning")
}
