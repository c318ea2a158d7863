// Package spell lists the ways in which a word can be written. It is written
// from the description of Toaq orthography.
package spell

// Marks are the ASCII tone markers, in the order of the tone numbers.
const Marks = `-/V?^\~`

// Combining are the combining diacritics of the tones.
var Combining = []string{"\u0304", "\u0301", "\u030C", "\u0309", "\u0302", "\u0300", "\u0303"}

// Letters are the letters with diacritics, for each tone in the order aeiouAEIOU.
var Letters = [][]string{
	{"ā", "ē", "ī", "ō", "ū", "Ā", "Ē", "Ī", "Ō", "Ū"},
	{"á", "é", "í", "ó", "ú", "Á", "É", "Í", "Ó", "Ú"},
	{"ǎ", "ě", "ǐ", "ǒ", "ǔ", "Ǎ", "Ě", "Ǐ", "Ǒ", "Ǔ"},
	{"ả", "ẻ", "ỉ", "ỏ", "ủ", "Ả", "Ẻ", "Ỉ", "Ỏ", "Ủ"},
	{"â", "ê", "î", "ô", "û", "Â", "Ê", "Î", "Ô", "Û"},
	{"à", "è", "ì", "ò", "ù", "À", "È", "Ì", "Ò", "Ù"},
	{"ã", "ẽ", "ĩ", "õ", "ũ", "Ã", "Ẽ", "Ĩ", "Õ", "Ũ"},
}

// Breves are the breve forms of the third tone.
var Breves = []string{"ă", "ĕ", "ĭ", "ŏ", "ŭ", "Ă", "Ĕ", "Ĭ", "Ŏ", "Ŭ"}

const vowels = "aeiouAEIOU"

func index(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

// Notations of a tone.
const (
	AfterSyllable = iota
	NumberAfterSyllable
	AfterVowel
	NumberAfterVowel
	Combined
	CombinedBreve
	Precomposed
	PrecomposedBreve
	Notations
)

// Cases of the letters.
const (
	Lower = iota
	Capital
	Upper
	Cases
)

// Write spells a word in a notation. The word is in ASCII form, in lower case,
// with the marker of each syllable after it; a syllable without tone ends the word.
// Ok is false if the word has no such spelling of its own.
func Write(word string, notation, letterCase int, dotless bool) (string, bool) {
	out, own := "", notation == AfterSyllable
	i := 0
	for i < len(word) {
		j := i
		for j < len(word) && index(Marks, word[j]) < 0 {
			j++
		}
		tone := -1
		if j < len(word) {
			tone = index(Marks, word[j])
		}
		s, ok := syllable(word[i:j], tone, notation, letterCase, dotless, i == 0)
		own = own || ok
		out += s
		i = j + 1
	}
	if dotless {
		own = own && len(out) > 0 && hasDotless(out)
	}
	return out, own
}

func hasDotless(s string) bool {
	for _, r := range s {
		if r == 'ı' {
			return true
		}
	}
	return false
}

func syllable(letters string, tone, notation, letterCase int, dotless, first bool) (string, bool) {
	out := ""
	seen := false
	for i := 0; i < len(letters); i++ {
		c := letters[i]
		if letterCase == Upper || letterCase == Capital && first && i == 0 {
			c -= 'a' - 'A'
		}
		x := string(rune(c))
		vow := index(vowels, c)
		if vow < 0 || seen || tone < 0 {
			if dotless && c == 'i' {
				x = "ı"
			}
			out += x
			if vow >= 0 {
				seen = true
			}
			continue
		}
		seen = true
		base := x
		if dotless && c == 'i' {
			base = "ı"
		}
		switch notation {
		case AfterVowel:
			out += base + Marks[tone:tone+1]
		case NumberAfterVowel:
			out += base + string(rune('1'+tone))
		case Combined:
			out += base + Combining[tone]
		case CombinedBreve:
			if tone == 2 {
				out += base + "\u0306"
			} else {
				out += base + Combining[tone]
			}
		case Precomposed:
			out += Letters[tone][vow]
		case PrecomposedBreve:
			if tone == 2 {
				out += Breves[vow]
			} else {
				out += Letters[tone][vow]
			}
		default:
			out += base
		}
	}
	if tone >= 0 {
		switch notation {
		case AfterSyllable:
			out += Marks[tone : tone+1]
		case NumberAfterSyllable:
			out += string(rune('1' + tone))
		}
	}
	own := tone >= 0
	if notation == CombinedBreve || notation == PrecomposedBreve {
		own = tone == 2
	}
	return out, own
}

// All are the spellings of a word. The first is the ASCII form.
func All(word string) []string {
	var out []string
	for n := 0; n < Notations; n++ {
		for c := 0; c < Cases; c++ {
			for d := 0; d < 2; d++ {
				s, ok := Write(word, n, c, d == 1)
				if ok && !has(out, s) {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
