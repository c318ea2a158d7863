// Package words holds the harnesses for the forms of words: morphology,
// function words, notations and letter case.
package words

import (
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/tone"
	"github.com/eaburns/toaq/zzverif/spell"
	"github.com/eaburns/toaq/zzverif/v"
)

// Harnesses lists the entry points.
var Harnesses = map[string]func(){
	"Morph": Morph,
}

var initials = []string{"b", "c", "ch", "d", "f", "g", "h", "j", "k", "l", "m", "n", "p", "r", "s", "sh", "t"}

// desinences: those of the language, and some that are not.
var desinences = []string{
	"a", "u", "i", "o", "ai", "uq", "ieq", "oi", "uao", "au", "eu", "e",
	"aq", "ao", "uaq", "uai", "ua", "ui", "uoq", "uoi", "uo", "ueq", "ue",
	"iq", "iaq", "iai", "iao", "ia", "iuq", "iu", "ioi", "ioq", "io", "ie",
	"oq", "oaq", "oai", "oao", "oa", "oeq", "oe",
	"eq", "eaq", "eai", "eao", "ea", "ei", "eoq", "eo",
	"ae", "aiq", "euq", "ou", "uu", "aqq", "oie",
}

// badDesinences are not of the language.
var badDesinences = []string{"au", "ae", "aiq", "euq", "ou", "uu", "aqq", "oie"}

// Function words. The toned ones are words in any tone.
var neutralWords = []string{"bi", "pa", "da", "ka", "so", "ba", "moq", "ga", "go", "fi", "cu", "ta", "bei", "hu", "ju", "ku", "ki", "kio", "keo", "je", "na", "ra", "ru", "ri", "roi", "ro", "re", "ke", "tu", "sia", "sa", "hi", "ja", "to", "teo"}
var tonedWords = []string{"lu", "li", "lo", "ma", "tio", "mi", "shu", "mo", "jei", "po"}

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// kinds tells for each initial and desinence: 0 not a function word,
// 1 a function word, 2 a function word that can have a tone.
var kinds = func() []int {
	var ks []int
	for _, i := range initials {
		for _, d := range desinences {
			switch {
			case in(i+d, neutralWords):
				ks = append(ks, 1)
			case in(i+d, tonedWords):
				ks = append(ks, 2)
			default:
				ks = append(ks, 0)
			}
		}
	}
	return ks
}()

// good tells which desinences are of the language.
var good = func() []int {
	var g []int
	for _, d := range desinences {
		if in(d, badDesinences) {
			g = append(g, 0)
		} else {
			g = append(g, 1)
		}
	}
	return g
}()

var desOf, toneOf = func() ([]int, []int) {
	var ds, ts []int
	for d := range desinences {
		for t := 0; t < 8; t++ {
			ds, ts = append(ds, d), append(ts, t)
		}
	}
	return ds, ts
}()

// syl is an arbitrary syllable.
type syl struct {
	init, des, tone int // tone 0 is none, else the number of the tone
	text, ascii     string
}

var names = []string{"0", "1", "2"}

func upperAll(l []string, c int) []string {
	var out []string
	for _, s := range l {
		b := []byte(s)
		for i := range b {
			if c == spell.Upper || c == spell.Capital && i == 0 {
				if 'a' <= b[i] && b[i] <= 'z' {
					b[i] -= 'a' - 'A'
				}
			}
		}
		out = append(out, string(b))
	}
	return out
}

// desTables are the spellings of each desinence with each tone, and the letters.
func desTable(notation, letterCase int, dotless bool) []string {
	c := letterCase
	if c == spell.Capital {
		c = spell.Lower // The first letter is in the initial.
	}
	var out []string
	for _, d := range desinences {
		for t := 0; t < 8; t++ {
			w := d
			if t > 0 {
				w += spell.Marks[t-1 : t]
			}
			s, _ := spell.Write(w, notation, c, dotless)
			out = append(out, s)
		}
	}
	return out
}

func asciiTable(c int) []string {
	var out []string
	for _, d := range upperAll(desinences, c) {
		for t := 0; t < 8; t++ {
			w := d
			if t > 0 {
				w += spell.Marks[t-1 : t]
			}
			out = append(out, w)
		}
	}
	return out
}

func pickSyl(n int, first bool, notation, letterCase int, dotless bool) syl {
	var s syl
	lo, hi := v.Param("init", 0), v.Param("initTo", len(initials))
	if !first {
		lo, hi = 9, 12 // l, m, n
	}
	s.init = lo + v.Pick("init"+names[n], hi-lo)
	nd := v.Param("des", len(desinences))
	if !first {
		nd = v.Param("des2", nd)
	}
	k := v.Pick("syllable"+names[n], nd*8) // desinence and tone
	s.des = desOf[k]
	s.tone = toneOf[k]
	ic, dc := letterCase, letterCase
	if letterCase == spell.Capital {
		dc = spell.Lower
		if !first {
			ic = spell.Lower
		}
	}
	is := v.Sel(s.init, upperAll(initials, ic))
	s.text = is + v.Sel(k, desTable(notation, dc, dotless))
	s.ascii = is + v.Sel(k, asciiTable(dc))
	return s
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Morph decides which strings are words, what their canonical form is, and how
// far they extend.
func Morph() {
	lo := v.Param("notation", 0)
	notation := lo + v.Force(v.Pick("notation", v.Param("notations", 1)))
	letterCase := v.Force(v.Pick("case", v.Param("cases", 1)))
	dotless := v.Force(v.Pick("dotless", v.Param("dotless", 1))) == 1
	n := 1 + v.Force(v.Pick("syllables", v.Param("syllables", 2)))
	ctx := v.Param("context", 1)
	lead := v.Force(v.Pick("lead", min(2, ctx))) // The word need not be the first.
	text := ""
	if lead == 1 {
		text = "da "
	}
	at := len(text)
	var ss [3]syl
	for i := 0; i < n; i++ {
		ss[i] = pickSyl(i, i == 0, notation, letterCase, dotless)
		text += ss[i].text
	}
	end := len(text)
	space := v.Sel(v.Force(v.Pick("tail", min(4, ctx))), []string{"", " ", ",\n", ". na"})
	text += space
	v.Ctx(text)
	w, m, err := ast.NewParser(text).Word(at)

	// How many syllables make the word, or none.
	first := ss[0]
	k := 0
	goodFirst := good[first.des] == 1
	if goodFirst {
		compound := 0
		for compound+1 < n && ss[compound+1].tone == 1 && good[ss[compound+1].des] == 1 {
			compound++
		}
		kind := kinds[v.Force(first.init)*len(desinences)+first.des]
		switch {
		case compound > 0 && first.tone >= 2:
			k = 1 + compound
		case first.tone == 0 && kind > 0:
			k = 1
		case first.tone > 0 && kind == 2:
			k = 1
		case first.tone >= 2 && kind == 0:
			k = 1
		}
	}
	if k == 0 {
		v.Reach("not a word")
		v.Assert(err != nil, "what is not a word is rejected")
		v.Assert(err.ByteOffset() >= at && err.ByteOffset() <= len(text), "the error is in the text after the offset")
		return
	}
	v.Reach("word")
	v.Assert(err == nil, "a word is accepted")
	stop, want := at, ""
	for i := 0; i < k; i++ {
		stop += len(ss[i].text)
		want += ss[i].ascii
	}
	v.Assert(w.S == at && w.E == stop, "a word extends over its letters and tones")
	got := tone.ToASCII(w.T)
	v.Out(got)
	v.Assert(v.StrEq(got, want), "the text of a word is its letters and tones")
	if k < n {
		v.Assert(m == stop-at && w.M == nil, "a word ends before the next one")
		return
	}
	sp := len(space)
	if sp > 2 {
		sp = 2
	}
	v.Assert(m == end-at+sp, "white space after the word is consumed")
	if sp == 0 {
		v.Assert(w.M == nil, "no modifier without white space")
		return
	}
	s, ok := w.M.(*ast.Space)
	v.Assert(ok && s.S == end && s.E == end+sp && s.T == space[:sp] && s.M == nil, "white space after the word is attached to it")
}
