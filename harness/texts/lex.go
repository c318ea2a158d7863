package texts

import (
	"github.com/eaburns/toaq/zzverif/refgram"
	"github.com/eaburns/toaq/zzverif/v"
)

// entry is a word of the vocabulary with its class.
type entry struct {
	t string
	c int
}

// lexicon has one word or more for each class of the grammar, in ASCII notation.
var lexicon = []entry{
	{"mai?", refgram.Pred + refgram.Verb},
	{"ji/", refgram.Pred + refgram.Arg},
	{"raiV", refgram.Pred + refgram.Rel},
	{"poq^", refgram.Pred + refgram.Con},
	{`bao\`, refgram.Pred + refgram.Prep},
	{"sho~", refgram.Pred + refgram.Adv},
	{"lu/", refgram.Lu + refgram.Arg},
	{"luV", refgram.Lu + refgram.Rel},
	{"lu?", refgram.Lu + refgram.Verb},
	{"lu^", refgram.Lu + refgram.Con},
	{`lu\`, refgram.Lu + refgram.Prep},
	{"lu~", refgram.Lu + refgram.Adv},
	{"mi/", refgram.Mi + refgram.Arg},
	{"miV", refgram.Mi + refgram.Rel},
	{"mi?", refgram.Mi + refgram.Verb},
	{"mi^", refgram.Mi + refgram.Con},
	{`mi\`, refgram.Mi + refgram.Prep},
	{"mi~", refgram.Mi + refgram.Adv},
	{"po/", refgram.Po + refgram.Arg},
	{"poV", refgram.Po + refgram.Rel},
	{"po?", refgram.Po + refgram.Verb},
	{"po^", refgram.Po + refgram.Con},
	{`po\`, refgram.Po + refgram.Prep},
	{"po~", refgram.Po + refgram.Adv},
	{"mo/", refgram.Mo + refgram.Arg},
	{"moV", refgram.Mo + refgram.Rel},
	{"mo?", refgram.Mo + refgram.Verb},
	{"mo^", refgram.Mo + refgram.Con},
	{`mo\`, refgram.Mo + refgram.Prep},
	{"mo~", refgram.Mo + refgram.Adv},
	{"bi", refgram.BI},
	{"da", refgram.DA},
	{"ga", refgram.GA},
	{"go", refgram.GO},
	{"bei", refgram.BEI},
	{"hu", refgram.HU},
	{"ju", refgram.JU},
	{"ku", refgram.KU},
	{"ki", refgram.KI},
	{"kio", refgram.KIO},
	{"je", refgram.KEO},
	{"na", refgram.NA},
	{"ru", refgram.RA},
	{"tu", refgram.TU},
	{"to", refgram.TO},
	{"teo", refgram.TEO},
	{"mai", refgram.None},
	{"lu", refgram.None},
	{"na?", refgram.None},
}

func tables(es []entry) ([]string, []int) {
	var ws []string
	var cs []int
	for _, e := range es {
		ws = append(ws, e.t)
		cs = append(cs, e.c)
	}
	return ws, cs
}

var lexWords, lexClasses = tables(lexicon)

func classOf(w string) int {
	for _, e := range lexicon {
		if e.t == w {
			return e.c
		}
	}
	for _, e := range extra {
		if e.t == w {
			return e.c
		}
	}
	panic("no word " + w)
}

// extra are further words that frames use.
var extra = []entry{
	{"suq/", refgram.Pred + refgram.Arg},
	{"ho/", refgram.Pred + refgram.Arg},
	{"sa", refgram.TU},
	{"ra", refgram.RA},
	{"chuq?", refgram.Pred + refgram.Verb},
	{"de?", refgram.Pred + refgram.Verb},
	{"moq", refgram.DA},
	{"li/", refgram.Lu + refgram.Arg},
	{"liV", refgram.Lu + refgram.Rel},
	{`chuqV`, refgram.Pred + refgram.Rel},
	{`chuq\`, refgram.Pred + refgram.Prep},
	{`chuq^`, refgram.Pred + refgram.Con},
	{`chuq~`, refgram.Pred + refgram.Adv},
	{"fi", refgram.GO},
	{`hoa/`, refgram.Pred + refgram.Arg},
	{`mai/`, refgram.Pred + refgram.Arg},
	{`poq/`, refgram.Pred + refgram.Arg},
	{`suq?`, refgram.Pred + refgram.Verb},
	{`ho?`, refgram.Pred + refgram.Verb},
	{`de~`, refgram.Pred + refgram.Adv},
	{`de\`, refgram.Pred + refgram.Prep},
	{`deV`, refgram.Pred + refgram.Rel},
	{"ri", refgram.RA},
}

// core is a smaller vocabulary for texts with more arbitrary words.
var coreWords, coreClasses = func() ([]string, []int) {
	ws := split(`mai? ji/ raiV poq^ bao\ sho~ lu^ mi/ po? mo/ teo bi da go bei hu kio ki na ru tu to`)
	var cs []int
	for _, w := range ws {
		cs = append(cs, classOf(w))
	}
	return ws, cs
}()

// few is the smallest vocabulary.
var fewWords, fewClasses = func() ([]string, []int) {
	ws := split(`mai? ji/ raiV poq^ da bei ru to kio mai`)
	var cs []int
	for _, w := range ws {
		cs = append(cs, classOf(w))
	}
	return ws, cs
}()

// vocabulary chooses one of the vocabularies.
func vocabulary() ([]string, []int) {
	switch v.Param("vocabulary", 0) {
	case 1:
		return coreWords, coreClasses
	case 2:
		return fewWords, fewClasses
	}
	return lexWords, lexClasses
}

// functionWords are all function words in all tones, and similar words that are not.
var functionWords, functionClasses = func() ([]string, []int) {
	var ws []string
	var cs []int
	const marks = "-/V?^\\~"
	tones := []int{-1, refgram.Arg, refgram.Rel, refgram.Verb, refgram.Con, refgram.Prep, refgram.Adv}
	word := func(w string, neutral, toned int) {
		ws, cs = append(ws, w), append(cs, neutral)
		for i := range tones {
			c := refgram.None
			if tones[i] >= 0 && toned >= 0 {
				c = toned + tones[i]
			}
			ws, cs = append(ws, w+marks[i:i+1]), append(cs, c)
		}
	}
	for _, e := range []struct {
		ws             string
		neutral, toned int
	}{
		{"bi pa", refgram.BI, -1},
		{"da ka so ba moq", refgram.DA, -1},
		{"ga", refgram.GA, -1},
		{"go fi cu ta", refgram.GO, -1},
		{"bei", refgram.BEI, -1},
		{"hu", refgram.HU, -1},
		{"ju", refgram.JU, -1},
		{"ku", refgram.KU, -1},
		{"ki", refgram.KI, -1},
		{"kio", refgram.KIO, -1},
		{"keo je", refgram.KEO, -1},
		{"na", refgram.NA, -1},
		{"ra ru ri roi ro re", refgram.RA, -1},
		{"ke tu sia sa hi ja", refgram.TU, -1},
		{"to", refgram.TO, -1},
		{"teo", refgram.TEO, -1},
		{"lu li lo ma tio", refgram.None, refgram.Lu},
		{"mi shu", refgram.None, refgram.Mi},
		{"jei po", refgram.None, refgram.Po},
		{"mo", refgram.None, refgram.Mo},
		{"bia be daq dai kao soi bo gao goq fa cua tai beo hua jua kuq kia kioq keoq jeo naq raq rue roe kea tuq siaq sai hia jai toq teoq luq lia loq mai tiu miu shua poi moi chu tia", refgram.None, refgram.Pred},
	} {
		for _, w := range split(e.ws) {
			if w == "moq" {
				continue // "moq?" has a special case of its own
			}
			word(w, e.neutral, e.toned)
		}
	}
	return append(ws, "moq"), append(cs, refgram.DA)
}()

var slots = []string{"a", "b", "c", "d", "e"}

// txt is a text under construction with its word boundaries.
type txt struct {
	s string
	t []refgram.Tok
	a []string // ASCII form of each token
}

func (x *txt) add(w, ascii string, c int) {
	x.t = append(x.t, refgram.Tok{C: c, S: len(x.s), E: len(x.s) + len(w)})
	x.a = append(x.a, ascii)
	x.s += w
}

func (x *txt) space(s string) {
	if s != "" {
		x.add(s, s, refgram.Sp)
	}
}

func (x *txt) word(w string, c int) {
	if len(x.s) > 0 {
		x.space(" ")
	}
	x.add(w, w, c)
}

// split lists the words of a frame.
func split(frame string) []string {
	var ws []string
	for i := 0; i < len(frame); {
		j := i
		for j < len(frame) && frame[j] != ' ' {
			j++
		}
		if j > i {
			ws = append(ws, frame[i:j])
		}
		i = j + 1
	}
	return ws
}

// fill makes a text from a frame, in which each * is an arbitrary word.
func fill(frame string, ws []string, cs []int) txt {
	var x txt
	n := 0
	for _, w := range split(frame) {
		if w == "*" {
			k := v.Pick(slots[n], len(ws))
			n++
			x.word(v.Sel(k, ws), cs[k])
		} else {
			x.word(w, classOf(w))
		}
	}
	return x
}

// pickFrame chooses among the frames that parameters allow.
func pickFrame(fs []string) string {
	lo, hi := v.Param("from", 0), v.Param("to", len(fs))
	if hi > len(fs) {
		hi = len(fs)
	}
	return fs[lo+v.Force(v.Pick("frame", hi-lo))]
}
