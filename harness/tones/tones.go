// Package tones holds the harnesses for package tone.
//
// The oracle below is written from the description of Toaq orthography, not
// from the implementation: a word is a sequence of syllables
// onset vowel+ [q], a tone is a diacritic on the first vowel of a syllable, and
// the ASCII form writes the plain letters followed by the tone's marker.
package tones

import (
	"github.com/eaburns/toaq/tone"
	"github.com/eaburns/toaq/zzverif/v"
)

// Harnesses lists the entry points.
var Harnesses = map[string]func(){
	"ASCII":    ASCII,
	"With":     With,
	"Anything": Anything,
	"Orders":   Orders,
}

const (
	plainVowels = "aeiıouAEIOU"
	marked      = "āĀūŪīĪōŌēĒáÁúÚíÍóÓéÉǎăǍĂǔŭǓŬǐĭǏĬǒŏǑŎěĕĚĔảẢủỦỉỈỏỎẻẺâÂûÛîÎôÔêÊàÀùÙìÌòÒèÈãÃũŨĩĨõÕẽẼ"
	onsets      = "bcdfghjklmnprstzBCDFGHJKLMNPRSTZ"
	markers     = "-/V?^\\~"
)

// base is the plain letter of a vowel.
func base(r rune) rune {
	x := r
	switch r {
	case 'ā', 'á', 'ǎ', 'ă', 'ả', 'â', 'à', 'ã':
		x = 'a'
	case 'Ā', 'Á', 'Ǎ', 'Ă', 'Ả', 'Â', 'À', 'Ã':
		x = 'A'
	case 'ū', 'ú', 'ǔ', 'ŭ', 'ủ', 'û', 'ù', 'ũ':
		x = 'u'
	case 'Ū', 'Ú', 'Ǔ', 'Ŭ', 'Ủ', 'Û', 'Ù', 'Ũ':
		x = 'U'
	case 'ī', 'í', 'ǐ', 'ĭ', 'ỉ', 'î', 'ì', 'ĩ', 'ı':
		x = 'i'
	case 'Ī', 'Í', 'Ǐ', 'Ĭ', 'Ỉ', 'Î', 'Ì', 'Ĩ':
		x = 'I'
	case 'ō', 'ó', 'ǒ', 'ŏ', 'ỏ', 'ô', 'ò', 'õ':
		x = 'o'
	case 'Ō', 'Ó', 'Ǒ', 'Ŏ', 'Ỏ', 'Ô', 'Ò', 'Õ':
		x = 'O'
	case 'ē', 'é', 'ě', 'ĕ', 'ẻ', 'ê', 'è', 'ẽ':
		x = 'e'
	case 'Ē', 'É', 'Ě', 'Ĕ', 'Ẻ', 'Ê', 'È', 'Ẽ':
		x = 'E'
	}
	return x
}

// mark is the tone marker of a vowel, or 0.
func mark(r rune) rune {
	x := rune(0)
	switch r {
	case 'ā', 'Ā', 'ū', 'Ū', 'ī', 'Ī', 'ō', 'Ō', 'ē', 'Ē':
		x = '-'
	case 'á', 'Á', 'ú', 'Ú', 'í', 'Í', 'ó', 'Ó', 'é', 'É':
		x = '/'
	case 'ǎ', 'Ǎ', 'ǔ', 'Ǔ', 'ǐ', 'Ǐ', 'ǒ', 'Ǒ', 'ě', 'Ě', 'ă', 'Ă', 'ŭ', 'Ŭ', 'ĭ', 'Ĭ', 'ŏ', 'Ŏ', 'ĕ', 'Ĕ':
		x = 'V'
	case 'ả', 'Ả', 'ủ', 'Ủ', 'ỉ', 'Ỉ', 'ỏ', 'Ỏ', 'ẻ', 'Ẻ':
		x = '?'
	case 'â', 'Â', 'û', 'Û', 'î', 'Î', 'ô', 'Ô', 'ê', 'Ê':
		x = '^'
	case 'à', 'À', 'ù', 'Ù', 'ì', 'Ì', 'ò', 'Ò', 'è', 'È':
		x = '\\'
	case 'ã', 'Ã', 'ũ', 'Ũ', 'ĩ', 'Ĩ', 'õ', 'Õ', 'ẽ', 'Ẽ':
		x = '~'
	}
	return x
}

// syllable is a syllable of the written word; the fields are symbolic.
type syllable struct {
	onset  string
	first  rune
	tone   rune
	second string // optional further vowels
	coda   string
}

var names = []string{"s0", "s1", "s2", "s3"}

// pickSyllable makes an arbitrary syllable. The first one may lack an onset.
func pickSyllable(i int) syllable {
	n := names[i]
	var s syllable
	if i > 0 || v.Force(v.Pick(n+".onset?", 2)) == 1 {
		s.onset = string(rune(v.Byte(n+".onset", onsets)))
	}
	s.first = v.Rune(n+".vowel", plainVowels+marked)
	s.tone = mark(s.first)
	k := v.Force(v.Pick(n+".more", v.Param("more", 2)))
	for j := 0; j < k; j++ {
		s.second += string(v.Rune(n+".more"+names[j], plainVowels))
	}
	switch v.Force(v.Pick(n+".coda", 3)) {
	case 1:
		s.coda = "q"
	case 2:
		s.coda = "Q"
	}
	return s
}

func (s syllable) written() string { return s.onset + string(s.first) + s.second + s.coda }

// letters is the plain ASCII spelling.
func (s syllable) letters() string {
	more := ""
	for _, r := range s.second {
		more += string(base(r))
	}
	return s.onset + string(base(s.first)) + more + s.coda
}

func markStr(t rune) string {
	if t == 0 {
		return ""
	}
	return string(t)
}

func (s syllable) ascii() string { return s.letters() + markStr(s.tone) }

// ASCII decides the laws of ToASCII, Strip and Tone on every word.
func ASCII() {
	n := 1 + v.Force(v.Pick("syllables", v.Param("syllables", 2)))
	word, want, letters := "", "", ""
	var first rune
	for i := 0; i < n; i++ {
		s := pickSyllable(i)
		word += s.written()
		want += s.ascii()
		letters += s.letters()
		if i == 0 {
			first = s.tone
		}
	}
	v.Ctx(word)
	got := tone.ToASCII(word)
	v.Out(got)
	v.Assert(v.StrEq(got, want), "ToASCII of a word is its plain letters with each syllable's marker after it")
	v.Assert(v.StrEq(tone.ToASCII(got), got), "ToASCII leaves ASCII words alone")
	st := tone.Strip(word)
	v.Out(st)
	v.Assert(v.StrEq(st, letters), "Strip keeps exactly the letters and their case")
	v.Assert(v.StrEq(tone.Strip(got), st), "Strip does not depend on the notation")
	v.Reach("words")
	v.Assert(tone.Tone(word) == first, "Tone is the tone of the first syllable")
	v.Assert(tone.Tone(got) == first, "Tone is the tone of the first syllable of an ASCII word")
}

// With decides the laws of WithTone.
func With() {
	n := 1 + v.Force(v.Pick("syllables", v.Param("syllables", 2)))
	t := rune(v.Rune("tone", markers+"\x00"))
	var ss [4]syllable
	word, want := "", ""
	for i := 0; i < n; i++ {
		s := pickSyllable(i)
		ss[i] = s
		word += s.written()
		if i == 0 {
			want += s.letters() + markStr(t)
		} else {
			want += s.ascii()
		}
	}
	v.Ctx(word + " with tone " + string(t))
	got := tone.WithTone(word, t)
	v.Out(got)
	v.Assert(v.StrEq(tone.ToASCII(got), want), "WithTone changes the first syllable's tone and nothing else")
	v.Assert(tone.Tone(got) == t, "Tone of WithTone is the tone asked for")
	rest := word[len(ss[0].onset)+len(string(ss[0].first)):]
	v.Assert(len(got) >= len(rest) && v.StrEq(got[len(got)-len(rest):], rest), "WithTone keeps what follows the first vowel")
	v.Assert(v.StrEq(got[:len(ss[0].onset)], ss[0].onset), "WithTone keeps what precedes the first vowel")
	// The same result from whatever tone the word had before.
	again := tone.WithTone(tone.WithTone(word, '~'), t)
	v.Assert(v.StrEq(again, got), "WithTone forgets the previous tone")
	v.Reach("tones")
}

// Anything: the functions are total on arbitrary sequences of characters that
// need not be words, and WithTone changes at most the first vowel.
func Anything() {
	k := v.Force(v.Pick("length", v.Param("length", 4)))
	word := ""
	for i := 0; i < k; i++ {
		word += string(v.Rune("r"+names[i], "aıiIqQbV/- .7āǎỉÎĬßő"))
	}
	v.Ctx(word)
	a := tone.ToASCII(word)
	v.Out(a)
	for _, t := range markers + "\x00" {
		w := tone.WithTone(word, t)
		v.Out(w)
		i := 0
		for i < len(word) && i < len(w) && w[i] == word[i] {
			i++
		}
		// A changed vowel takes at most three bytes on either side.
		k := 0
		for k < 3 && i+k < len(w) && !suffixOf(w[i+k:], word) {
			k++
		}
		v.Assert(suffixOf(w[i+k:], word), "WithTone changes one letter only")
	}
	v.Reach("any")
}

// Orders: the tables built from maps do not depend on iteration order.
func Orders() {
	v.MapOrder(v.Force(v.Pick("order", 3)))
	ASCII()
}

func suffixOf(s, w string) bool { return len(s) <= len(w) && w[len(w)-len(s):] == s }
