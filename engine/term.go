package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Op is the operator of a symbolic term.
type Op uint8

const (
	OConst Op = iota
	OVar      // a symbolic variable
	OTab      // summary of a pure function of one variable: value k_i where the variable is dom[i]
	OAdd
	OSub
	OMul
	OAnd
	OOr
	OXor
	OShl
	OAshr
	OLshr
	OSdiv
	OSrem
	OUdiv
	OUrem
	OSext // sign extend from k bits
	OZext // zero extend from k bits
	OEq
	OSlt
	OSle
	OUlt
	OUle
	ONot
	OBand
	OBor
	OIte
	OBeq // boolean equality
)

// Var is a symbolic variable with an explicit finite domain.
type Var struct {
	name string
	id   int
	dom  []int64
	dsig uint64
	cur  bitset // values still allowed by the (certified) unary path condition
	mi   int    // index in dom of the value in the current model
	ent  bool   // occurs in a multi-variable path constraint
	term *Term
	// strs, when the variable picks a string: the candidates.
	strs []string
}

// Term is a hash-consed symbolic term. Integers are 64-bit vectors
// normalised (sign- or zero-extended) to the Go type they stand for.
type Term struct {
	op   Op
	bool bool
	a    *Term
	b    *Term
	c    *Term
	k    int64
	v    *Var    // the variable, when the term depends on exactly one
	tab  []int64 // value per domain element, when unary
	vars []*Var  // the variables, when more than one
	id   int32
	h    uint64
	h2   uint64
}

type bitset []uint64

func newBitset(n int) bitset { return make(bitset, (n+63)/64) }
func (b bitset) has(i int) bool {
	return b[i>>6]&(1<<(uint(i)&63)) != 0
}
func (b bitset) set(i int) { b[i>>6] |= 1 << (uint(i) & 63) }
func (b bitset) count() int {
	n := 0
	for _, w := range b {
		n += bits.OnesCount64(w)
	}
	return n
}
func (b bitset) first() int {
	for i, w := range b {
		if w != 0 {
			return i*64 + bits.TrailingZeros64(w)
		}
	}
	return -1
}
func (b bitset) hash() uint64 {
	h := uint64(14695981039346656037)
	for _, w := range b {
		h = mix(h, w)
	}
	return h
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

type termKey struct {
	op      Op
	a, b, c int32
	k       int64
	t       uint64
}

// Terms is the per-path term table.
type Terms struct {
	tab  map[termKey]*Term
	next int32
}

func (ts *Terms) reset() {
	ts.tab = make(map[termKey]*Term)
	ts.next = 1
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func isBoolOp(op Op) bool {
	switch op {
	case OEq, OSlt, OSle, OUlt, OUle, ONot, OBand, OBor, OBeq:
		return true
	}
	return false
}

func (ts *Terms) intern(t *Term, th uint64) *Term {
	key := termKey{t.op, tid(t.a), tid(t.b), tid(t.c), t.k, th}
	if t.op == OVar || t.op == OTab {
		key.k = int64(t.v.id)
	}
	if u, ok := ts.tab[key]; ok {
		return u
	}
	t.id = ts.next
	ts.next++
	h := mix(uint64(t.op)+77, uint64(t.k))
	h2 := mix(uint64(t.op)+991, uint64(t.k)*31)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			h = mix(h, x.h)
			h2 = mix(h2, x.h2)
		} else {
			h = mix(h, 5)
			h2 = mix(h2, 7)
		}
	}
	if t.op == OVar {
		// Terms are canonical up to the name of the variable,
		// so that certificates can be shared between variables of equal domain.
		h = mix(h, t.v.dsig)
		h2 = mix(h2, t.v.dsig*3)
	}
	if t.op == OTab {
		h = mix(mix(h, th), t.v.dsig)
		h2 = mix(mix(h2, th*17), t.v.dsig)
	}
	t.h, t.h2 = h, h2
	ts.tab[key] = t
	return t
}

func (ts *Terms) konst(k int64, isBool bool) *Term {
	return ts.intern(&Term{op: OConst, k: k, bool: isBool}, b2u(isBool))
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (ts *Terms) tabTerm(v *Var, tab []int64, isBool bool) *Term {
	h := uint64(3) + b2u(isBool)
	for _, x := range tab {
		h = mix(h, uint64(x))
	}
	return ts.intern(&Term{op: OTab, v: v, tab: tab, bool: isBool}, h)
}

func evalOp(op Op, k, a, b, c int64) int64 {
	switch op {
	case OAdd:
		return a + b
	case OSub:
		return a - b
	case OMul:
		return a * b
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if uint64(b) >= 64 {
			return 0
		}
		return a << uint64(b)
	case OAshr:
		if uint64(b) >= 64 {
			b = 63
		}
		return a >> uint64(b)
	case OLshr:
		if uint64(b) >= 64 {
			return 0
		}
		return int64(uint64(a) >> uint64(b))
	case OSdiv:
		if b == 0 {
			return 0
		}
		if b == -1 {
			return -a
		}
		return a / b
	case OSrem:
		if b == 0 || b == -1 {
			return 0
		}
		return a % b
	case OUdiv:
		if b == 0 {
			return 0
		}
		return int64(uint64(a) / uint64(b))
	case OUrem:
		if b == 0 {
			return 0
		}
		return int64(uint64(a) % uint64(b))
	case OSext:
		return a << (64 - uint(k)) >> (64 - uint(k))
	case OZext:
		return int64(uint64(a) << (64 - uint(k)) >> (64 - uint(k)))
	case OEq, OBeq:
		return b2i(a == b)
	case OSlt:
		return b2i(a < b)
	case OSle:
		return b2i(a <= b)
	case OUlt:
		return b2i(uint64(a) < uint64(b))
	case OUle:
		return b2i(uint64(a) <= uint64(b))
	case ONot:
		return 1 - a
	case OBand:
		return a & b
	case OBor:
		return a | b
	case OIte:
		if a != 0 {
			return b
		}
		return c
	}
	panic("evalOp")
}

func at(t *Term, i int) int64 {
	if t == nil {
		return 0
	}
	if t.op == OConst {
		return t.k
	}
	return t.tab[i]
}

// mk builds op(a,b,c) with constant folding and algebraic simplification.
func (ts *Terms) mk(op Op, k int64, a, b, c *Term) *Term {
	isBool := isBoolOp(op)
	if op == OIte {
		isBool = b.bool
	}
	allConst := true
	for _, x := range []*Term{a, b, c} {
		if x != nil && x.op != OConst {
			allConst = false
		}
	}
	if allConst {
		return ts.konst(evalOp(op, k, at(a, 0), at(b, 0), at(c, 0)), isBool)
	}
	switch op {
	case ONot:
		if a.op == ONot {
			return a.a
		}
	case OBand:
		if a == b {
			return a
		}
		if a.op == OConst {
			if a.k == 0 {
				return a
			}
			return b
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			return a
		}
	case OBor:
		if a == b {
			return a
		}
		if a.op == OConst {
			if a.k != 0 {
				return a
			}
			return b
		}
		if b.op == OConst {
			if b.k != 0 {
				return b
			}
			return a
		}
	case OEq, OSle, OUle, OBeq:
		if a == b {
			return ts.konst(1, true)
		}
	case OSlt, OUlt:
		if a == b {
			return ts.konst(0, true)
		}
	case OIte:
		if a.op == OConst {
			if a.k != 0 {
				return b
			}
			return c
		}
		if b == c {
			return b
		}
		if isBool && b.op == OConst && c.op == OConst {
			if b.k != 0 {
				return a
			}
			return ts.mk(ONot, 0, a, nil, nil)
		}
	case OAdd, OSub, OOr, OXor, OShl, OAshr, OLshr:
		if b.op == OConst && b.k == 0 {
			return a
		}
	}
	t := &Term{op: op, k: k, a: a, b: b, c: c, bool: isBool}
	// Which variables?
	var v *Var
	multi := false
	for _, x := range []*Term{a, b, c} {
		if x == nil || x.op == OConst {
			continue
		}
		if x.v == nil {
			multi = true
			continue
		}
		if v == nil {
			v = x.v
		} else if v != x.v {
			multi = true
		}
	}
	if !multi {
		t.v = v
		t.tab = make([]int64, len(v.dom))
		for i := range t.tab {
			t.tab[i] = evalOp(op, k, at(a, i), at(b, i), at(c, i))
		}
		if op == OSext || op == OZext {
			same := true
			for i := range t.tab {
				if t.tab[i] != a.tab[i] {
					same = false
					break
				}
			}
			if same {
				return a
			}
		}
	} else {
		set := map[int]*Var{}
		for _, x := range []*Term{a, b, c} {
			if x == nil {
				continue
			}
			if x.v != nil {
				set[x.v.id] = x.v
			}
			for _, y := range x.vars {
				set[y.id] = y
			}
		}
		for _, y := range set {
			t.vars = append(t.vars, y)
		}
		sort.Slice(t.vars, func(i, j int) bool { return t.vars[i].id < t.vars[j].id })
	}
	return ts.intern(t, 0)
}

// eval evaluates a term under the current model.
func (t *Term) eval(memo map[int32]int64) int64 {
	if t.op == OConst {
		return t.k
	}
	if t.v != nil {
		return t.tab[t.v.mi]
	}
	if x, ok := memo[t.id]; ok {
		return x
	}
	var a, b, c int64
	if t.a != nil {
		a = t.a.eval(memo)
	}
	if t.b != nil {
		b = t.b.eval(memo)
	}
	if t.c != nil {
		c = t.c.eval(memo)
	}
	r := evalOp(t.op, t.k, a, b, c)
	memo[t.id] = r
	return r
}

// ---- SMT-LIB printing ----

func bv(k int64) string { return fmt.Sprintf("#x%016x", uint64(k)) }

type smtPrinter struct {
	s     *strings.Builder
	name  map[int32]string
	vname map[*Var]string
	pre   string
	n     int
}

var smtOps = map[Op]string{
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OAnd: "bvand", OOr: "bvor", OXor: "bvxor",
	OShl: "bvshl", OAshr: "bvashr", OLshr: "bvlshr", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OUdiv: "bvudiv", OUrem: "bvurem", OEq: "=", OSlt: "bvslt", OSle: "bvsle", OUlt: "bvult",
	OUle: "bvule", ONot: "not", OBand: "and", OBor: "or", OIte: "ite", OBeq: "=",
}

// ref prints definitions for t's sub-terms and returns an expression for t.
func (p *smtPrinter) ref(t *Term) string {
	if t.op == OConst {
		if t.bool {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		return bv(t.k)
	}
	if t.op == OVar {
		return p.vname[t.v]
	}
	if n, ok := p.name[t.id]; ok {
		return n
	}
	var e string
	switch t.op {
	case OTab:
		e = p.tabExpr(t)
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) ((_ extract %d 0) %s))", 64-t.k, t.k-1, p.ref(t.a))
	case OZext:
		e = fmt.Sprintf("((_ zero_extend %d) ((_ extract %d 0) %s))", 64-t.k, t.k-1, p.ref(t.a))
	default:
		e = "(" + smtOps[t.op]
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				e += " " + p.ref(x)
			}
		}
		e += ")"
	}
	p.n++
	n := fmt.Sprintf("%st%d", p.pre, p.n)
	sort := "(_ BitVec 64)"
	if t.bool {
		sort = "Bool"
	}
	fmt.Fprintf(p.s, "(define-fun %s () %s %s)\n", n, sort, e)
	p.name[t.id] = n
	return n
}

// tabExpr prints a function table as nested ite over runs of equal value.
func (p *smtPrinter) tabExpr(t *Term) string {
	// Group domain values by result.
	groups := map[int64][]int64{}
	var order []int64
	for i, x := range t.tab {
		if _, ok := groups[x]; !ok {
			order = append(order, x)
		}
		groups[x] = append(groups[x], t.v.dom[i])
	}
	// The most common value is the default.
	best := order[0]
	for _, x := range order {
		if len(groups[x]) > len(groups[best]) {
			best = x
		}
	}
	val := func(x int64) string {
		if t.bool {
			if x != 0 {
				return "true"
			}
			return "false"
		}
		return bv(x)
	}
	e := val(best)
	for _, x := range order {
		if x == best {
			continue
		}
		e = fmt.Sprintf("(ite %s %s %s)", p.member(t.v, groups[x]), val(x), e)
	}
	return e
}

func (p *smtPrinter) member(v *Var, vals []int64) string {
	n := p.vname[v]
	if len(vals) == 0 {
		return "false"
	}
	if len(vals) == 1 {
		return fmt.Sprintf("(= %s %s)", n, bv(vals[0]))
	}
	// Use ranges where the values are consecutive.
	s := append([]int64(nil), vals...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	var b strings.Builder
	b.WriteString("(or")
	for i := 0; i < len(s); {
		j := i
		for j+1 < len(s) && s[j+1] == s[j]+1 {
			j++
		}
		if j-i >= 2 {
			fmt.Fprintf(&b, " (and (bvsle %s %s) (bvsle %s %s))", bv(s[i]), n, n, bv(s[j]))
		} else {
			for k := i; k <= j; k++ {
				fmt.Fprintf(&b, " (= %s %s)", n, bv(s[k]))
			}
		}
		i = j + 1
	}
	b.WriteString(")")
	return b.String()
}

func (v *Var) vals(s bitset) []int64 {
	var r []int64
	for i, d := range v.dom {
		if s.has(i) {
			r = append(r, d)
		}
	}
	return r
}
