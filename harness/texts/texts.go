// Package texts holds the harnesses that run whole texts through the parser.
package texts

import (
	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/tone"
	"github.com/eaburns/toaq/zzverif/astx"
	"github.com/eaburns/toaq/zzverif/refgram"
	"github.com/eaburns/toaq/zzverif/spell"
	"github.com/eaburns/toaq/zzverif/v"
)

// Harnesses lists the entry points.
var Harnesses = map[string]func(){
	"Structure": Structure,
	"Language":  Language,
	"Classes":   Classes,
	"Lossless":  Lossless,
	"Positions": Positions,
	"Tree":      Tree,
	"Spelling":  Spelling,
	"Spacing":   Spacing,
	"Reuse":     Reuse,
	"Letters":   Letters,
	"Varied":    Varied,
}

// frames are texts with holes for arbitrary words.
var frames = []string{
	"* * *",
	"mai? * * *",
	"mai? ji/ * *",
	"to ru * to * *",
	"mai? to ru * * to * *",
	"ji/ raiV * *",
	"mai? poq^ * *",
	"lu? * * na *",
	"mai? lu^ * * na",
	"mo/ * * teo",
	"kio * * ki *",
	"po/ * * ga *",
	"mi? * * ga *",
	"* bi * *",
	"mai? ji/ ru * *",
	"mai? * ru * *",
	"mai? * ji/ ru * ji/",
	"je * da ru *",
	"hu * * da *",
	"ju * * da *",
	"to ru * * * to ji/ suq/ *",
}

// source makes a text of the language from a frame.
func source() (txt, string) {
	ws, cs := vocabulary()
	x := fill(pickFrame(frames), ws, cs)
	want := refgram.Parse(x.t)
	if want == "" {
		v.Discard()
	}
	v.Ctx(x.s)
	return x, want
}

// Structure decides that the tree of a text is the one of the reference grammar.
func Structure() {
	x, want := source()
	structure(x, want)
}

func structure(x txt, want string) *ast.Text {
	t, err := ast.NewParser(x.s).Text()
	v.Assert(err == nil, "a text of the language is accepted")
	v.Reach("accepted")
	got := astx.Dump(t)
	v.Out(got)
	v.Assert(got == want, "the tree has the constituents of the grammar")
	return t
}

// Language decides that exactly the texts of the reference grammar are accepted.
func Language() {
	ws, cs := vocabulary()
	x := fill(pickFrame(frames), ws, cs)
	v.Ctx(x.s)
	language(x)
}

func language(x txt) {
	want, far := refgram.ParseFar(x.t)
	p := ast.NewParser(x.s)
	p.FilePath = "file"
	t, err := p.Text()
	if want != "" {
		v.Reach("accepted")
		v.Assert(err == nil && t != nil, "a text of the language is accepted")
		return
	}
	v.Reach("rejected")
	v.Assert(err != nil && t == nil, "a text that is not of the language is rejected")
	// The error is in the furthest word that does not fit, or after it.
	lo, hi := len(x.s), len(x.s)
	if far < len(x.t) {
		lo, hi = x.t[far].S, x.t[far].E
	}
	o := err.ByteOffset()
	v.Assert(lo <= o && o <= hi, "the error is at the furthest word that does not fit")
	at := location(x.s, o)
	v.Assert(len(err.Error()) >= len(at) && v.StrEq(err.Error()[:len(at)], at), "the error tells file, line and column of its position")
	tree, err2 := ast.NewParser(x.s).Tree()
	v.Assert(tree == nil && err2 != nil, "the parse tree is rejected as the text is")
	v.Assert(err2.ByteOffset() == o, "both report the same position")
}

// location is the prefix of an error at a byte offset.
func location(s string, o int) string {
	line, col := 1, 1
	for _, r := range s[:o] {
		col++
		if r == '\n' {
			line, col = line+1, 1
		}
	}
	return "file:" + digits(line) + "." + digits(col) + ": "
}

// classFrames are contexts that tell the word classes apart.
var classFrames = []string{
	"*",
	"* mai?",
	"* ji/ mai?",
	"* ji/ ga",
	"mai? *",
	"mai? * ji/",
	"mai? * ji/ na",
	"mai? * mai?",
	"mai? ji/ *",
	"mai? ji/ * mai?",
	"mai? ji/ * suq/",
	"mai? ji/ * raiV",
	"mai? ji/ * mai? ji/",
	"* ru mai? to mai?",
	"to * mai? to mai?",
	"to ru mai? * mai?",
	"mo/ mai? *",
	"* mai? teo",
	"* mai? ki",
	"kio mai? *",
	"mi/ mai? * ji/",
	"po/ ji/ * ji/",
}

// Classes decides which words belong to which class, for all function words.
func Classes() {
	x := fill(pickFrame(classFrames), functionWords, functionClasses)
	v.Ctx(x.s)
	want := refgram.Parse(x.t)
	t, err := ast.NewParser(x.s).Text()
	if want == "" {
		v.Reach("rejected")
		v.Assert(err != nil, "a text that is not of the language is rejected")
		return
	}
	v.Reach("accepted")
	v.Assert(err == nil, "a text of the language is accepted")
	v.Assert(astx.Dump(t) == want, "the tree has the constituents of the grammar")
	lossless(x, t)
}

// frontier are the words of a tree in the order they are written.
func frontier(n ast.Node, ws []*ast.Word) []*ast.Word {
	if w, ok := n.(*ast.Word); ok {
		ws = append(ws, w)
	}
	for _, k := range astx.Kids(n) {
		ws = frontier(k, ws)
	}
	return ws
}

// Lossless decides that a tree holds every word and space of the text once, in order.
func Lossless() {
	x, _ := source()
	t, err := ast.NewParser(x.s).Text()
	if err != nil {
		v.Discard()
	}
	lossless(x, t)
	v.Reach("lossless")
}

func lossless(x txt, t *ast.Text) {
	at := 0
	ws := frontier(t, nil)
	for i, w := range ws {
		v.Assert(w.S == at && w.E >= at && w.E <= len(x.s), "each word starts where the one before ends")
		at = w.E
		v.Assert(i < len(x.t) && w.S == x.t[i].S && w.E == x.t[i].E, "each word of the text is a word of the tree")
		a := w.T
		if x.t[i].C != refgram.Sp {
			a = tone.ToASCII(a)
		}
		v.Assert(v.StrEq(a, x.a[i]), "each word of the tree has the letters and tones of the text")
	}
	v.Assert(at == len(x.s) && len(ws) == len(x.t), "every word of the text is in the tree")
}

// Positions decides that every node extends from its first to its last word.
func Positions() {
	x, _ := source()
	t, err := ast.NewParser(x.s).Text()
	if err != nil {
		v.Discard()
	}
	astx.CheckExtents(t)
	inside(t, len(x.s))
	v.Reach("positions")
}

// inside: nodes nest, and the kids of a node follow each other.
func inside(n ast.Node, size int) {
	at := -1
	for _, k := range astx.Kids(n) {
		if d, ok := k.(*ast.Discourse); ok && len(*d) == 0 {
			continue
		}
		v.Assert(0 <= k.Start() && k.Start() <= k.End() && k.End() <= size, "positions are in the text")
		v.Assert(k.Start() >= at, "constituents follow each other")
		at = k.End()
		inside(k, size)
	}
}

// Tree decides that the parse tree covers the text.
func Tree() {
	x, _ := source()
	t, err := ast.NewParser(x.s).Tree()
	v.Assert(err == nil && t != nil, "the parse tree is accepted as the text is")
	v.Assert(v.StrEq(t.Text, x.s), "the parse tree is of the whole text")
	cover(t)
	v.Reach("tree")
}

func cover(n *peg.Node) {
	if len(n.Kids) == 0 {
		return
	}
	s := ""
	for _, k := range n.Kids {
		s += k.Text
		cover(k)
	}
	v.Assert(v.StrEq(s, n.Text), "the parts of a constituent make up its text")
}

// Spelling decides that notations and letter case do not matter.
func Spelling() {
	f := split(pickFrame(spelled))
	n := v.Force(v.Pick("which", len(f)))
	m := n
	if v.Param("words", 1) == 2 {
		m = v.Force(v.Pick("other", len(f)))
	}
	var x txt
	for i, w := range f {
		if i > 0 {
			x.space(" ")
		}
		if i != n && i != m {
			x.add(w, w, classOf(w))
			continue
		}
		s, a := spellings(w)
		k := v.Pick(slots[min(i, 4)], len(s))
		x.add(v.Sel(k, s), v.Sel(k, a), classOf(w))
	}
	want := refgram.Parse(x.t)
	v.Ctx(x.s)
	lossless(x, structure(x, want))
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// spelled are texts whose words are spelled in all ways.
var spelled = []string{
	"je mai? ji/ raiV da",
	"mai? poq^ suq/ na da",
	`mai? bao\ ji/ sho~`,
	"to ru ji/ to suq/ bi mai?",
	"mo/ mai? teo mai?",
	"kio mai? ki mi? ji/ ga",
	"hu ho/ mai? tu po/ ji/ raiV",
	"mai? ju chuq? go ji/ na lu^ mai? na da",
	"mai? ku ji/ bei liV mai?",
}

func spellings(w string) ([]string, []string) {
	var out, as []string
	for n := 0; n < spell.Notations; n++ {
		for c := 0; c < spell.Cases; c++ {
			for d := 0; d < 2; d++ {
				s, ok := spell.Write(w, n, c, d == 1)
				if !ok {
					continue
				}
				a, _ := spell.Write(w, spell.AfterSyllable, c, false)
				out, as = append(out, s), append(as, a)
			}
		}
	}
	return out, as
}

var separators = []string{" ", "", ".", ", ", "\n", "!", " — ", "...", "\t", ":«", "\r\n", ";"}

// Spacing decides that white space and punctuation between words do not matter.
func Spacing() {
	f := split(pickFrame(spelled))
	left := v.Param("changes", 1)
	sep := func(i int, none bool) string {
		if left == 0 || v.Force(v.Pick("change", 2)) == 0 {
			if none {
				return ""
			}
			return " "
		}
		left--
		return v.Sel(v.Pick("sep", len(separators)), separators)
	}
	var x txt
	x.space(sep(0, true))
	for i, w := range f {
		if i > 0 {
			x.space(sep(i, false))
		}
		x.add(w, w, classOf(w))
	}
	x.space(sep(0, true))
	want := refgram.Parse(x.t)
	v.Ctx(x.s)
	lossless(x, structure(x, want))
}

// Reuse decides that results of a parser do not depend on what it did before.
func Reuse() {
	ws, cs := vocabulary()
	x := fill(pickFrame([]string{"* *", "mai? * *", "* * da"}), ws, cs)
	v.Ctx(x.s)
	p := ast.NewParser(x.s)
	n := v.Param("calls", 2)
	for i := 0; i < n; i++ {
		op := v.Force(v.Pick("call", 5))
		if i < n-1 {
			_, spoil := call(p, op, x)
			spoil()
			continue
		}
		got, _ := call(p, op, x)
		want, _ := call(ast.NewParser(x.s), op, x)
		v.Out(got)
		v.Assert(v.StrEq(got, want), "a call gives what it would give on a new parser")
	}
	v.Reach("reused")
}

func call(p *ast.Parser, op int, x txt) (string, func()) {
	switch op {
	case 0:
		t, err := p.Text()
		if err != nil {
			return failure(err), func() {}
		}
		return astx.Dump(t) + astx.Full(t), func() {
			ast.ToASCII(t)
			t.Discourse = nil
		}
	case 1:
		t, err := p.Tree()
		if err != nil {
			return failure(err), func() {}
		}
		return pegString(t), func() { t.Kids = nil }
	}
	at := 0
	if op == 3 && len(x.t) > 2 {
		at = x.t[2].S
	}
	if op == 4 {
		at = len(x.s) - 1
	}
	w, n, err := p.Word(at)
	if err != nil {
		return failure(err), func() {}
	}
	return astx.Full(w) + astx.Dump(w) + digits(n), func() { w.T, w.M = "", nil }
}

func failure(err ast.Error) string {
	return "error at " + digits(err.ByteOffset()) + ": " + err.Error() + wants(err.Tree())
}

func wants(f *peg.Fail) string {
	s := ""
	for _, l := range peg.LeafFails(f) {
		s += " " + l.Want
	}
	return s
}

func digits(n int) string {
	if n < 0 {
		return "-" + digits(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return digits(n/10) + digits(n%10)
}

func pegString(n *peg.Node) string {
	if len(n.Kids) == 0 {
		return n.Name + "'" + n.Text + "'"
	}
	s := n.Name + "("
	for _, k := range n.Kids {
		s += pegString(k)
	}
	return s + ")"
}

// Letters: the parser is total on arbitrary characters, and accepts no more
// and no less with all of its entry points.
func Letters() {
	s := v.Sel(v.Force(v.Pick("before", 3)), []string{"", "mai? ", "mai? ji/ ku"})
	k := v.Param("length", 3)
	for i := 0; i < k; i++ {
		s += string(v.Rune(slots[i], "mkaiIq?/-4 .\n\u0301á~Vx"))
	}
	v.Ctx(s)
	p := ast.NewParser(s)
	p.FilePath = "file"
	t, err := p.Text()
	tree, err2 := ast.NewParser(s).Tree()
	v.Assert((err == nil) == (err2 == nil), "the parse tree is accepted if and only if the text is")
	if err != nil {
		v.Reach("rejected")
		o := err.ByteOffset()
		v.Assert(0 <= o && o <= len(s) && err2.ByteOffset() == o, "the position of the error is in the text")
		at := location(s, o)
		v.Assert(len(err.Error()) >= len(at) && v.StrEq(err.Error()[:len(at)], at), "the error tells file, line and column of its position")
		v.Assert(len(err.Error()) > 0 && t == nil && tree == nil, "an error and no tree")
		return
	}
	v.Reach("accepted")
	v.Assert(v.StrEq(tree.Text, s), "the parse tree is of the whole text")
	at := 0
	for _, w := range frontier(t, nil) {
		v.Assert(w.S == at && w.E > at, "each word starts where the one before ends")
		at = w.E
	}
	v.Assert(at == len(s), "the words make up the text")
	astx.CheckExtents(t)
}
