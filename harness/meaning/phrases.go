// Package meaning holds the harnesses for the interpretation of texts.
package meaning

import (
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/zzverif/v"
)

// args are arguments.
var args = []string{
	"ji/", "do/", "hoa/", "sa poq/", "tu poq/", "sia poq/", "ke poq/", "hi poq/", "ja poq/",
	"sa do/", "tu do/", "ke do/", "hi do/", "ja do/",
	"ku ji/", "ku sa poq/", "ku sa do/",
	"ji/ ru suq/", "sa poq/ ra tu nuo/", "hi poq/ ri ji/", "to ra sa poq/ to do/",
	"ji/ roi suq/", "sa poq/ roi tu nuo/", "sa poq/ roi ji/ roi suq/", "ji/ ru suq/ roi ho/",
	"sa poq/ raiV ji/ na", "poq/ raiV do/ na", "sa poq/ raiV hoa/ suq/ na", "do/ raiV na", "hoa/ raiV na", "hi poq/ raiV do/ na",
	"tu do/ raiV do/ na", "sa poq/ raiV na ru chuqV na", "poq/ raiV sa nuo/ hi ho/ na", "sa poq/ liV mai? hoa/ na na", "sa poq/ raiV ru chuq? na",
	"mai^ sa poq/ na", "mai^ do/ na", "mai^ tu do/ na", "sa poq/ raiV sa do/ na", "sa do/ roi tu do/", "mai^ hi poq/ na", "mai^ ji/ na ru chuq? do/ na", "sa mai^ ji/ na", "lu^ mai? hoa/ na",
	"lu/ mai? hoa/ na", "li/ mai? ji/ na", "li/ mai? do/ na", "lo/ mai? na", "tio/ mai? na",
	"mi/ mai? ga", "shu/ mai? ga", "mo/ mai? teo", "po/ ji/ ga", "po/ sa poq/ ga", "po/ sa do/ ga", "jei/ do/ ga", "sa po/ do/ ru ji/ ga",
	"poq/ ru mai?", "to ra poq/ to mai?", "poq/ suq?", "sa poq/ suq? ru ho?", "sa do/ suq?", "sa hoa/", "doV", "tu hoa/ raiV na",
	"sa do/ma-", "DO/MA-", "sa poq/ raiV tu do/ma- do/ na", "mai^ do/ma- na", "hi nuo/ raiV do/ do/ na", "hi po/ hoa/ ga", "sa poq/ raiV hi nuo/ na",
}

// fewArgs are a choice of them.
var fewArgs = []string{
	"ji/", "do/", "sa poq/", "hi poq/", "tu do/", "ku sa poq/", "sa poq/ ra do/", "ji/ roi sa suq/",
	"poq/ raiV do/ na", "hi poq/ raiV do/ na", "po/ sa do/ ga", "sa poq/ raiV hoa/ sa nuo/ na", "do/ raiV na", "mai^ do/ na", "mai^ hi poq/ na", "li/ mai? hoa/ do/ na", "po/ do/ ga", "mo/ mai? teo", "poq/ ru mai?",
}

// preds are predicates.
var preds = []string{
	"mai?", "do?", "hoa?", "mea?", "jeqtu?", "mai? chuq?", "mai? ru chuq?", "to ri mai? to chuq?", "mai? chuq? ra de?", "mai? ru chuq? de?", "shi? mai?",
	"mi? mai? ga", "shu? ji/ ga", "po? ji/ ga", "po? sa poq/ ga", "po? do/ ra hi poq/ ga", "jei? poq/ raiV do/ na ga", "mo? mai? teo", "lu? mai? hoa/ na", "lu? hoa? na", "li? mai? do/ na", "lo? mai? sa poq/ na", "lu? mai? ja do/ hoa/ na", "mi? mai? ga chuq?", "mo? mai? teo ru mai?", "lu? mai? hi po/ hoa/ ga na",
}

// fewPreds are a choice of them.
var fewPreds = []string{"mai?", "do?", "mai? ru chuq?", "po? do/ ga", "lu? mai? hoa/ na", "mai? chuq?", "hoa?", "lu? hoa? na"}

// others are terms that are no arguments, with holes A for arguments and T for a term.
var others = []string{
	"go A", "fi A", "cu A", "ta A", "sho~", "sho~ chuq~", "sho~ ru chuq~", "to ra sho~ to chuq~", "po~ A ga", "lu~ mai? hoa/ na", "mi~ mai? ga",
	`bao\ A`, `bao\ A ru chuq\ ji/`, `bao\ chuq? A`, `bao\ ru chuq\ A`, `po\ ji/ ga A`, `lu\ mai? hoa/ A na sa nuo/`, `mo\ mai? teo A`,
	"to ru A ji/ to ji/ A", "to ra A sho~ to sa nuo/ A", `to ri bao\ A A to A A`, "to ru ji/ A go suq/ to A ji/ ta ho/",
	"kio mai? ki A", "bei", "hu ho/",
}

// shapes are texts with holes: A arguments, P predicates, T other terms.
var shapes = []string{
	"P", "P A", "P A A", "P A T", "P T", "A bi P A", "A pa P A", "T bi P A", "sa do/ bi P A", "sa do/ bi P T", "A bi mai? da mai? do/",
	"mai? A T", "mai? T A", "mai? T sa do/", "mai? sa do/ T", "sa do/ bi P A do/", "mai? T do/", "mai? tu do/ A A", "P A na ru P A", "to ra P A na to P A",
	"P A da P A", "je P A ru P A da chuq? ji/", "P T da ji/ P", "A", "A bi", "raiV A", "kio P A ki", "hu A",
	"mai? chuq^ A na", "mai? chuq^ sa do/ A na A", "chuq? sa poq/ raiV A na", "chuq? tu do/ poq/ raiV A na", "chuq? hi poq/ sa do/ ho/ raiV A na",
	"lu? mai? hoa/ A na", "po? A ga A", "mai? sa do/ hi poq/ raiV chuq^ A na na", "mai? tu do/ na ru chuq? A", "to ra sa do/ A to A do/ bi mai?",
	"P A da ru P A da", "to ru je sa do/ bi P A da to P A do/ da mai? do/", "tu do/ bi P A da ru chuq? A do/",
	"sa do/ tu do/ma- bi P A do/ do/ma-", "mai? sa do/ tu do/ma- A do/", "lu? mai? A hoa/ na", "mai? A hoa/", "mai? T hoa/", "lu? chuq? sa poq/ raiV hoa/ na hoa/ A na",
	"tu do/ bi mai? poq^ sa do/ma- hi nuo/ raiV do/ do/ma- A na na", "mai? hi nuo/ raiV hoa/ na hi poq/ raiV A na", "mai? hi nuo/ raiV do/ na sa do/ A",
	"tu do/ma- bi P A na ru chuq? A do/ma-", "mai? poq^ sa do/ma- A na do/ma-", "P A na ru chuq? hoa/ do/ma-", "mai? li/ P A na hoa/", "to ra P A hoa/ to chuq? A hoa/", "mai? ji/ ru suq/ A", "lu? mai? A hoa/ na sa do/",
}

// plain are what fills a hole that is not arbitrary.
var plain = []string{"ji/", "sa poq/", "do/", "tu nuo/"}

// maker fills holes; at most budget of them with arbitrary phrases.
type maker struct {
	budget     int
	n          int
	as, ps, os []string
}

func newMaker() *maker {
	m := &maker{budget: v.Param("budget", 1), as: args, ps: preds, os: others}
	switch v.Param("vocabulary", 0) {
	case 1:
		m.ps = fewPreds
	case 2:
		m.as, m.ps = fewArgs, fewPreds
	}
	return m
}

func (m *maker) pick(name, plain string, opts []string) string {
	if m.budget == 0 || v.Force(v.Pick("vary", 2)) == 0 {
		return plain
	}
	m.budget--
	return opts[v.Force(v.Pick(name, len(opts)))]
}

func (m *maker) build(shape string) string {
	out := ""
	for _, w := range words(shape) {
		if out != "" {
			out += " "
		}
		switch w {
		case "A":
			out += m.pick("argument", plain[m.n%len(plain)], m.as)
			m.n++
		case "P":
			out += m.pick("predicate", "mai?", m.ps)
		case "T":
			out += m.build(m.os[v.Force(v.Pick("term", len(m.os)))])
		default:
			out += w
		}
	}
	return out
}

func words(s string) []string {
	var ws []string
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && s[j] != ' ' {
			j++
		}
		if j > i {
			ws = append(ws, s[i:j])
		}
		i = j + 1
	}
	return ws
}

// source is an arbitrary text of the shapes.
func source() (string, *ast.Text) {
	lo, hi := v.Param("from", 0), v.Param("to", len(shapes))
	s := shapes[lo+v.Force(v.Pick("shape", hi-lo))]
	x := newMaker().build(s)
	v.Ctx(x)
	t, err := ast.NewParser(x).Text()
	if err != nil {
		v.Discard()
	}
	return x, t
}
