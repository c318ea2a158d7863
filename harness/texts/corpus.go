package texts

import (
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/zzverif/astx"
	"github.com/eaburns/toaq/zzverif/refgram"
	"github.com/eaburns/toaq/zzverif/v"
)

// corpus has every alternative of every rule of the grammar, so that words can
// be inserted or replaced anywhere.
var corpus = []string{
	// Sentences and fragments.
	"mai? da mai? ru je mai? da ru mai?",
	"je mai? ji/ na to ru mai? da to je suq? da",
	"raiV ji/ mai? ru raiV",
	"ji/ bi suq/ sho~ bi mai?",
	`ji/ sho~ bao\ suq/`,
	"kio mai? ki hu ji/ bei ju mai?",
	// Statements.
	"ji/ bi mai? na ru suq/ bi mai? ji/",
	"to ru mai? na to mai? suq/ na ji/",
	"mai? ji/ sho~ na ru mai? na",
	// Predicates.
	"mai? chuq? de? ji/",
	"mai? ru chuq? de? ru mai? ji/",
	"to ru mai? to chuq? de? ji/",
	"lu? mai? hoa/ na mai?",
	"mi? mai? ga ji/",
	"mi? ji/ ga mai? ji/",
	"mi? sho~ ga ji/",
	`mi? bao\ ji/ ga suq/`,
	"po? ji/ ga suq/",
	"mo? mai? da ji/ teo suq/",
	// Terms.
	"mai? go ji/ fi suq/ ho/",
	"mai? to ru ji/ suq/ to ho/ ji/ sho~",
	"mai? to ru ji/ suq/ ho/ to ho/ ji/ suq/",
	"mai? to ru ji/ suq/ ho/ ji/ to go ho/ ji/ suq/ ho/",
	"mai? to ru ji/ suq/ ho/ ji/ suq/ to ho/ ji/ suq/ ho/ ji/",
	// Arguments.
	"mai? ji/ ru suq/ ru ho/ to ru ji/ to suq/",
	"mai? ku sa ji/ raiV na ku suq/ tu ho/",
	"mai? poq/ mai? ru chuq? de? suq/",
	"mai? to ru poq/ mai? to chuq? ji/",
	"mai? lu/ mai? hoa/ na ji/",
	"mai? mi/ mai? ga po/ ji/ ga mo/ mai? teo",
	// Relative clauses.
	"mai? ji/ raiV suq/ na ru raiV na ji/",
	"mai? ji/ raiV suq/ na ru mai? suq/",
	"mai? ji/ liV mai? na suq/",
	"mai? ji/ to ru raiV to liV mai? na suq/",
	"mai? ji/ raiV chuqV suq/ na ho/",
	"mai? ji/ raiV ru chuq? na ho/",
	"mai? ji/ to ru raiV to chuq? na ho/",
	"mai? ji/ miV mai? ga na suq/ poV ji/ ga na ho/ moV mai? teo",
	// Adverbs.
	"mai? sho~ ru chuq~ ji/ to ru sho~ to chuq~",
	"mai? sho~ chuq~ ji/ lu~ mai? na ji/",
	"mai? mi~ mai? ga po~ ji/ ga mo~ mai? teo",
	// Prepositional phrases.
	`mai? bao\ ji/ ru bao\ suq/ ho/`,
	`mai? to ru bao\ ji/ to bao\ suq/ ho/`,
	`mai? bao\ ru chuq\ ji/ to ru bao\ to chuq\ suq/`,
	`mai? bao\ chuq? ji/ lu\ mai? na suq/`,
	`mai? mi\ mai? ga ji/ po\ ji/ ga suq/ mo\ mai? teo ho/`,
	// Content clauses.
	"mai? poq^ ji/ na suq/",
	"mai? poq^ ji/ na ru mai? suq/",
	"mai? lu^ mai? hoa/ na ji/",
	"mai? poq^ chuq^ ji/ na suq/",
	"mai? poq^ ru chuq? ji/ na",
	"mai? to ru poq^ to chuq? ji/ na",
	"mai? mi^ mai? ga na po^ ji/ ga na mo^ mai? teo",
	// Connected phrases in and next to each other.
	"mai? ru mai? ra mai? da ru mai? ri mai?",
	"to ru mai? da to mai? ru suq? da ra je mai?",
	"to ru je mai? to je mai? da",
	"to ru mai? to mai? ru suq?",
	"ji/ bi to ru mai? na to ji/ bi suq? ho/",
	"mai? na ru suq? na ra ho? na da",
	"raiV ji/ na ru chuqV suq/ na ra deV na",
	"to ru raiV to chuqV na ru deV na",
	"liV mai? na ru mai? liV mai? na",
	"ji/ raiV na bi mai? raiV na",
	"sho~ ru chuq~ ra de~",
	`bao\ ji/ ru bao\ suq/ ra bao\ ho/`,
	`to ru to ra bao\ ji/ to bao\ suq/ to bao\ ho/ bi mai?`,
	"to ru sho~ to chuq~ ru de~",
	"mai? ru chuq? ra de?",
	"to ru mai? ra suq? to chuq? de? ra ho? ji/",
	"to ru to ra mai? to suq? to chuq? ji/",
	"mai? ru lu? mai? hoa/ na ji/",
	"mai? mi? ji/ ga po? ji/ ga mo? mai? teo lu? mai? na ji/",
	"mi? ji/ ru suq/ ga ji/",
	"mi? to ru ji/ to suq/ ga ji/",
	"mi? mai? ru chuq? ga ji/",
	"mi? to ru mai? to chuq? ga ji/",
	"mi? mai? chuq? ga ji/",
	"mi? sho~ ru chuq~ ga ji/",
	"mi? to ru sho~ to chuq~ ga ji/",
	`mi? bao\ ji/ ru bao\ suq/ ga ho/`,
	`mi? to ru bao\ ji/ to bao\ suq/ ga ho/`,
	"mi? po? ji/ ga ga mi? mi? ji/ ga",
	"mi? poq^ ji/ na ga po? poq^ na ga ji/",
	"po? ji/ ru suq/ ga po? to ru ji/ to suq/ ga",
	"mo? ji/ bi mai? raiV teo",
	"mai? ji/ suq/ ho/ ji/ suq/",
	"mai? go ji/ ru suq/ ra ho/ fi to ru ji/ to suq/",
	"mai? to ru ji/ suq/ ho/ to to ru ji/ to suq/ ru ho/ ji/ ji/",
	"mai? to ru sho~ go ji/ to bao\\ ji/ fi suq/",
	"mai? ku to ru ji/ to suq? raiV",
	"mai? to ru ku ji/ ru suq/ to ho/ ru ji/",
	"mai? ji/ suq/ ho/ raiV ru raiV",
	"mai? sa ji/ suq/ ru mai? raiV",
	"mai? to ru ji/ to suq? ru ho? raiV",
	"mai? to ru to ra ji/ to suq? to ho?",
	"mai? ji/ ru chuq? suq? ru to ra ho/ to ji/",
	"mai? ji/ to ru raiV to liV mai? na ru suq?",
	"mai? ji/ to ru raiV na to chuqV na ru deV",
	"mai? ji/ to ru to ra raiV na to chuqV na to deV",
	"mai? ji/ raiV ru chuq? de? suq/ na ru mai?",
	"mai? ji/ raiV chuqV ru de? ji/",
	"mai? ji/ to ru raiV ru chuq? to de? suq/",
	"mai? sho~ ru chuq? de~ ra chuq~",
	"mai? to ru sho~ ru chuq? to de? ji/",
	"mai? to ru to ra sho~ to chuq~ to de~ ji/",
	"mai? sho~ chuq~ ru de? ji/",
	`mai? bao\ ru chuq? ji/ ru de\ ra bao\ suq/`,
	`mai? bao\ ru chuq\ ra de\ ji/`,
	`mai? to ru to ra bao\ to chuq\ to de\ ji/`,
	`mai? to ru bao\ ru chuq? to de? ji/`,
	`mai? bao\ chuq? ru de? ji/ ra suq/`,
	"mai? poq^ ru chuq? de? ji/ na ru mai? na",
	"mai? poq^ chuq^ ru de? ji/",
	"mai? to ru poq^ to chuq? ru de? ji/",
	"mai? to ru poq^ ru chuq? to de? ji/",
	"mai? lu^ mai? na ru mai? na ji/",
	"mai? poq^ ji/ na suq? ru lu^ mai? na",
	"mai? poq^ mi^ ji/ ga ho/",
	"to ru mai? da to mai? da ru mai? da ra to ru mai? da to je mai?",
	"to ru mai? na to mai? na ru to ra mai? na to mai? na",
	"to ru ji/ to suq/ ru to ra ho/ to ji/ sho~",
	"to ru sho~ to chuq~ ru to ra de~ to sho~ ji/",
	`to ru bao\ ji/ to bao\ suq/ ru to ra bao\ ho/ to bao\ ji/ mai?`,
	`mai? to ru bao\ to chuq\ ru to ra de\ to bao\ ji/`,
	"mai? ji/ to ru raiV na to chuqV na ru to ra deV na to raiV na ho/",
	"mai? ji/ to ru raiV to chuq? ru to ra de? to chuq? ho/",
	"mai? to ru mai? to chuq? ru to ra de? to mai? ji/",
	"mai? to ru poq^ to chuq? ru to ra de? to mai? ji/",
	"mai? poq^ na ru to ra mai? na to suq? na ji/",
	"mai? to ru sho~ to chuq? ru to ra de? to mai? ji/",
	"mai? to ru ji/ to suq? ru to ra ho? to mai? ho/",
	// Nested clauses.
	"mai? poq^ ji/ raiV suq/ na ho/ na ji/",
	"ji/ raiV suq/ raiV na na bi mai?",
	"lu? ji/ bi lu? mai? hoa/ na ji/ na ru mai?",
	"kio mai? kio mai? ki ju mai? na bei ki mai? ji/",
}

// inserts are what is inserted into the corpus.
var inserts = []string{
	"bei", "hu ho/", "kio mai? ki", "ju mai? na", "bei bei", "hu ji/ raiV", "kio ji/ ki bei", "kio bei ki",
}

// varied makes a text of the corpus with modifiers inserted, words replaced or left out.
func varied() (txt, string) {
	f := split(pickFrame(corpus))
	mods, subs, drops := v.Param("mods", 1), v.Param("subs", 0), v.Param("drops", 0)
	ws, cs := vocabulary()
	var x txt
	n := 0
	ins := func(i int) {
		if mods == 0 || i < n || v.Force(v.Pick("insert", 2)) == 0 {
			return
		}
		mods--
		for _, w := range split(inserts[v.Force(v.Pick("modifier", len(inserts)))]) {
			x.word(w, classOf(w))
		}
	}
	for i, w := range f {
		ins(i)
		if subs+drops > 0 {
			switch op := v.Force(v.Pick("op", 3)); {
			case op == 1 && subs > 0:
				subs--
				k := v.Pick(slots[subs], len(ws))
				x.word(v.Sel(k, ws), cs[k])
				continue
			case op == 2 && drops > 0:
				drops--
				continue
			case op > 0:
				v.Discard()
			}
		}
		x.word(w, classOf(w))
	}
	ins(len(f))
	if len(x.t) == 0 {
		v.Discard()
	}
	return x, refgram.Parse(x.t)
}

// Varied decides structure, losslessness and positions for texts of the corpus
// with modifiers anywhere, words replaced or left out.
func Varied() {
	x, want := varied()
	v.Ctx(x.s)
	t, err := ast.NewParser(x.s).Text()
	if want == "" {
		v.Assert(v.Param("subs", 0)+v.Param("drops", 0) > 0 || v.Param("mods", 1) > 0, "the corpus is of the language")
		v.Reach("rejected")
		v.Assert(err != nil, "a text that is not of the language is rejected")
		return
	}
	v.Reach("accepted")
	v.Assert(err == nil, "a text of the language is accepted")
	what := v.Param("what", 7)
	if what&1 != 0 {
		v.Assert(astx.Dump(t) == want, "the tree has the constituents of the grammar")
	}
	if what&2 != 0 {
		lossless(x, t)
	}
	if what&4 != 0 {
		astx.CheckExtents(t)
		inside(t, len(x.s))
	}
}
