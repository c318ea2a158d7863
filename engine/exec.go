package main

import (
	"fmt"
	"go/token"
	"math"
	"unicode/utf8"
)

// goPanic is a panic of the program under analysis.
type goPanic struct {
	val   Value // an interface value
	where string
}

type pathEnd struct{ why string } // the path is over (assumed away, failed, exit)
type specAbort struct{}

// frame is an activation record.
type frame struct {
	fn        *Fn
	regs      []Value
	defers    []deferRec
	blk       *Block
	edge      int
	panic     *goPanic
	recovered bool
	deferOf   *frame
}

type deferRec struct {
	fn   *Fn
	free []Value
	args []Value
	bi   *instr // builtin
}

func (w *W) get(fr *frame, r int32) Value {
	if r >= 0 {
		return fr.regs[r]
	}
	if r > globBase {
		return fr.fn.consts[^r]
	}
	return Value{x: w.globalCell(int(globBase - r))}
}

// rtPanic raises a Go run-time error.
func (w *W) rtPanic(f string, args ...any) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	panic(&goPanic{val: Value{x: &Iface{t: w.eng.prog.rtErr, v: mkStr(fmt.Sprintf(f, args...))}}, where: w.where()})
}

func (w *W) where() string {
	s := ""
	for i := len(w.frames) - 1; i >= 0 && i > len(w.frames)-6; i-- {
		s += " < " + w.frames[i].fn.name
	}
	return s
}

func (w *W) callFn(fn *Fn, args []Value, free []Value) {
	if fn.intr != nil {
		if fn.intr(w, fn, args) {
			return
		}
	}
	w.eng.prog.compile(fn)
	if fn.noBody {
		panic(unsupported("function without body: %s", fn.name))
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	w.cover(fn)
	base := w.sp
	if base+fn.nregs+64 > len(w.stack) || len(w.frames) > 20000 {
		panic(pathEnd{"stack overflow"})
	}
	regs := w.stack[base : base+fn.nregs]
	w.sp = base + fn.nregs
	copy(regs, args)
	copy(regs[fn.nparams:], free)
	fr := &frame{fn: fn, regs: regs, deferOf: w.deferOwner}
	w.deferOwner = nil
	w.frames = append(w.frames, fr)
	if fn.hasDef {
		w.execDefer(fr)
	} else {
		fr.blk = fn.blocks[0]
		w.exec(fr)
	}
	w.frames = w.frames[:len(w.frames)-1]
	w.sp = base
}

// callRet calls and returns the single result.
func (w *W) callRet(fn *Fn, args []Value, free []Value) Value {
	w.callFn(fn, args, free)
	return w.ret[0]
}

func (w *W) execDefer(fr *frame) {
	nf, sp := len(w.frames), w.sp
	run := func(f func()) {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				w.frames = w.frames[:nf]
				w.sp = sp
				w.deferOwner = nil
				fr.panic = gp
				fr.recovered = false
			}
		}()
		f()
	}
	run(func() {
		fr.blk = fr.fn.blocks[0]
		w.exec(fr)
	})
	for {
		if fr.panic == nil {
			return
		}
		for len(fr.defers) > 0 {
			run(func() { w.runOneDefer(fr) })
			if fr.recovered {
				fr.panic = nil
				fr.recovered = false
			}
		}
		if fr.panic != nil {
			panic(fr.panic)
		}
		// Recovered: return through the recover block.
		if fr.fn.recov == nil {
			for i, r := range fr.fn.resRT {
				w.ret[i] = zero(r)
			}
			return
		}
		run(func() {
			fr.blk = fr.fn.recov
			w.exec(fr)
		})
	}
}

func (w *W) runOneDefer(fr *frame) {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	if d.bi != nil {
		w.builtin(fr, d.bi, d.args)
		return
	}
	if d.fn == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	w.deferOwner = fr
	w.callFn(d.fn, d.args, d.free)
	w.deferOwner = nil
}

func (w *W) enter(fr *frame, b *Block, edge int) {
	mv := b.edges[edge]
	switch len(mv) {
	case 0:
	case 1:
		fr.regs[mv[0].dst] = w.get(fr, mv[0].src)
	default:
		tmp := w.phi[:0]
		for _, m := range mv {
			tmp = append(tmp, w.get(fr, m.src))
		}
		for i, m := range mv {
			fr.regs[m.dst] = tmp[i]
		}
		w.phi = tmp
	}
	fr.blk = b
}

func (w *W) exec(fr *frame) {
	for {
		w.steps++
		if w.steps&0x3ffff == 0 {
			w.late()
		}
		if w.steps > w.maxSteps {
			panic(pathEnd{"step limit"})
		}
		b := fr.blk
		for i := range b.ins {
			in := &b.ins[i]
			switch in.op {
			case iIf:
				c := w.get(fr, in.a)
				if t := symOf(c); t != nil {
					if j, e := w.tryMerge(fr, in, t); j != nil {
						fr.blk = j
						_ = e
						goto next
					}
					if w.branch(t) {
						c.n = 1
					} else {
						c.n = 0
					}
				}
				if c.n != 0 {
					w.enter(fr, in.t0, in.e0)
				} else {
					w.enter(fr, in.t1, in.e1)
				}
				goto next
			case iJump:
				w.enter(fr, in.t0, in.e0)
				goto next
			case iReturn:
				switch len(in.args) {
				case 0:
				case 1:
					w.ret[0] = w.get(fr, in.args[0])
				default:
					for i, a := range in.args {
						w.ret[i] = w.get(fr, a)
					}
				}
				return
			case iCallStatic, iCallClosure, iCallInvoke:
				w.doCall(fr, in)
				switch in.nres {
				case 0:
				case 1:
					fr.regs[in.dst] = w.ret[0]
				default:
					copy(fr.regs[in.dst:int(in.dst)+in.nres], w.ret[:in.nres])
				}
			case iDefer:
				fr.defers = append(fr.defers, w.mkDefer(fr, in.inner))
			case iRunDefers:
				for len(fr.defers) > 0 {
					w.runOneDefer(fr)
				}
			case iGo:
				// Goroutines run to completion at the go statement.
				d := w.mkDefer(fr, in.inner)
				w.callFn(d.fn, d.args, d.free)
			default:
				w.simple(fr, in)
			}
		}
		panic("fell off block")
	next:
	}
}

func (w *W) mkDefer(fr *frame, in *instr) deferRec {
	var d deferRec
	switch in.op {
	case iCallStatic:
		d.fn = in.fn
	case iCallClosure:
		if c, _ := w.get(fr, in.a).x.(*Closure); c != nil {
			d.fn, d.free = c.fn, c.free
		}
	case iCallInvoke:
		recv := w.get(fr, in.a)
		i, _ := recv.x.(*Iface)
		if i == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		d.fn = w.method(i.t, in)
		d.args = append(d.args, i.v)
	case iCallBuiltin:
		d.bi = in
	}
	for _, a := range in.args {
		d.args = append(d.args, w.get(fr, a))
	}
	return d
}

func (w *W) method(t *RT, in *instr) *Fn {
	if f, ok := t.msets.Load(in.meth); ok {
		return f.(*Fn)
	}
	sf := w.eng.prog.prog.LookupMethod(t.t, in.meth.Pkg(), in.meth.Name())
	if sf == nil {
		panic(unsupported("no method %s on %s", in.meth.Name(), t.str))
	}
	f := w.eng.prog.fn(sf)
	t.msets.Store(in.meth, f)
	return f
}

func (w *W) doCall(fr *frame, in *instr) {
	base := w.sp
	n := len(in.args)
	if base+n+1 > len(w.stack) {
		panic(pathEnd{"stack overflow"})
	}
	var fn *Fn
	var free []Value
	k := 0
	dst := w.stack[base : base+n+1]
	switch in.op {
	case iCallStatic:
		fn = in.fn
	case iCallClosure:
		c, _ := w.get(fr, in.a).x.(*Closure)
		if c == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn, free = c.fn, c.free
	case iCallInvoke:
		recv := w.get(fr, in.a)
		i, _ := recv.x.(*Iface)
		if i == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn = w.method(i.t, in)
		dst[0] = i.v
		k = 1
	}
	for _, a := range in.args {
		dst[k] = w.get(fr, a)
		k++
	}
	if fn.intr != nil {
		w.sp = base + n + 1
		args := dst[:k:k]
		if fn.intr(w, fn, args) {
			w.sp = base
			return
		}
		w.sp = base
		cp := append([]Value(nil), args...)
		f := fn.intr
		_ = f
		w.callBody(fn, cp, free)
		return
	}
	w.callFn(fn, dst[:k], free)
}

// callBody runs a function's own body even if it has an intrinsic.
func (w *W) callBody(fn *Fn, args, free []Value) {
	w.eng.prog.compile(fn)
	if fn.noBody {
		panic(unsupported("function without body: %s", fn.name))
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	w.cover(fn)
	base := w.sp
	if base+fn.nregs+64 > len(w.stack) || len(w.frames) > 20000 {
		panic(pathEnd{"stack overflow"})
	}
	regs := w.stack[base : base+fn.nregs]
	w.sp = base + fn.nregs
	copy(regs, args)
	copy(regs[fn.nparams:], free)
	fr := &frame{fn: fn, regs: regs, deferOf: w.deferOwner}
	w.deferOwner = nil
	w.frames = append(w.frames, fr)
	if fn.hasDef {
		w.execDefer(fr)
	} else {
		fr.blk = fn.blocks[0]
		w.exec(fr)
	}
	w.frames = w.frames[:len(w.frames)-1]
	w.sp = base
}

// wrap normalises an integer to a type.
func wrap(x int64, r *RT) int64 {
	switch r.bits {
	case 64:
		return x
	case 32:
		if r.signed {
			return int64(int32(x))
		}
		return int64(uint32(x))
	case 8:
		if r.signed {
			return int64(int8(x))
		}
		return int64(uint8(x))
	case 16:
		if r.signed {
			return int64(int16(x))
		}
		return int64(uint16(x))
	}
	return x
}

func (w *W) term(v Value, isBool bool) *Term {
	if t := symOf(v); t != nil {
		return t
	}
	return w.ts.konst(v.n, isBool)
}

// val turns a term into a value, folding it to a constant if the
// variable's remaining domain determines it.
func (w *W) val(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.k}
	}
	if t.v != nil {
		v := t.v
		first := true
		var k int64
		for i := range t.tab {
			if !v.cur.has(i) {
				continue
			}
			if first {
				k = t.tab[i]
				first = false
			} else if t.tab[i] != k {
				return Value{x: t}
			}
		}
		w.certify(v, v.cur, t, nil, true, k)
		return Value{n: k}
	}
	return Value{x: t}
}

func (w *W) binInt(tok token.Token, a, b Value, r, r2 *RT) Value {
	ta, tb := symOf(a), symOf(b)
	if ta == nil && tb == nil {
		x, y := a.n, b.n
		switch tok {
		case token.ADD:
			return Value{n: wrap(x+y, r)}
		case token.SUB:
			return Value{n: wrap(x-y, r)}
		case token.MUL:
			return Value{n: wrap(x*y, r)}
		case token.QUO:
			if y == 0 {
				w.rtPanic("integer divide by zero")
			}
			if r.signed {
				return Value{n: wrap(evalOp(OSdiv, 0, x, y, 0), r)}
			}
			return Value{n: wrap(evalOp(OUdiv, 0, x, y, 0), r)}
		case token.REM:
			if y == 0 {
				w.rtPanic("integer divide by zero")
			}
			if r.signed {
				return Value{n: wrap(evalOp(OSrem, 0, x, y, 0), r)}
			}
			return Value{n: wrap(evalOp(OUrem, 0, x, y, 0), r)}
		case token.AND:
			return Value{n: x & y}
		case token.OR:
			return Value{n: x | y}
		case token.XOR:
			return Value{n: wrap(x^y, r)}
		case token.AND_NOT:
			return Value{n: x &^ y}
		case token.SHL:
			if r2.signed && y < 0 {
				w.rtPanic("negative shift amount")
			}
			return Value{n: wrap(evalOp(OShl, 0, x, y, 0), r)}
		case token.SHR:
			if r2.signed && y < 0 {
				w.rtPanic("negative shift amount")
			}
			if r.signed {
				return Value{n: evalOp(OAshr, 0, x, y, 0)}
			}
			return Value{n: evalOp(OLshr, 0, x, y, 0)}
		}
		panic(unsupported("binop %v", tok))
	}
	xa, xb := w.term(a, false), w.term(b, false)
	var op Op
	switch tok {
	case token.ADD:
		op = OAdd
	case token.SUB:
		op = OSub
	case token.MUL:
		op = OMul
	case token.AND:
		op = OAnd
	case token.OR:
		op = OOr
	case token.XOR:
		op = OXor
	case token.AND_NOT:
		op = OAnd
		xb = w.ts.mk(OXor, 0, xb, w.ts.konst(-1, false), nil)
	case token.SHL, token.SHR:
		if tb != nil && r2.signed {
			if w.branch(w.ts.mk(OSlt, 0, tb, w.ts.konst(0, false), nil)) {
				w.rtPanic("negative shift amount")
			}
		} else if tb == nil && r2.signed && b.n < 0 {
			w.rtPanic("negative shift amount")
		}
		op = OShl
		if tok == token.SHR {
			op = OLshr
			if r.signed {
				op = OAshr
			}
		}
	case token.QUO, token.REM:
		if tb != nil {
			if w.branch(w.ts.mk(OEq, 0, tb, w.ts.konst(0, false), nil)) {
				w.rtPanic("integer divide by zero")
			}
		} else if b.n == 0 {
			w.rtPanic("integer divide by zero")
		}
		switch {
		case tok == token.QUO && r.signed:
			op = OSdiv
		case tok == token.QUO:
			op = OUdiv
		case r.signed:
			op = OSrem
		default:
			op = OUrem
		}
	default:
		panic(unsupported("binop %v", tok))
	}
	return w.val(w.wrapT(w.ts.mk(op, 0, xa, xb, nil), r))
}

func (w *W) wrapT(t *Term, r *RT) *Term {
	if r.bits == 64 {
		return t
	}
	if r.signed {
		return w.ts.mk(OSext, int64(r.bits), t, nil, nil)
	}
	return w.ts.mk(OZext, int64(r.bits), t, nil, nil)
}

func (w *W) cmpInt(tok token.Token, a, b Value, signed bool) Value {
	if symOf(a) == nil && symOf(b) == nil {
		x, y := a.n, b.n
		switch tok {
		case token.EQL:
			return boolVal(x == y)
		case token.NEQ:
			return boolVal(x != y)
		}
		if signed {
			switch tok {
			case token.LSS:
				return boolVal(x < y)
			case token.LEQ:
				return boolVal(x <= y)
			case token.GTR:
				return boolVal(x > y)
			case token.GEQ:
				return boolVal(x >= y)
			}
		} else {
			x, y := uint64(x), uint64(y)
			switch tok {
			case token.LSS:
				return boolVal(x < y)
			case token.LEQ:
				return boolVal(x <= y)
			case token.GTR:
				return boolVal(x > y)
			case token.GEQ:
				return boolVal(x >= y)
			}
		}
	}
	x, y := w.term(a, false), w.term(b, false)
	lt, le := OUlt, OUle
	if signed {
		lt, le = OSlt, OSle
	}
	var t *Term
	switch tok {
	case token.EQL:
		t = w.ts.mk(OEq, 0, x, y, nil)
	case token.NEQ:
		t = w.ts.mk(ONot, 0, w.ts.mk(OEq, 0, x, y, nil), nil, nil)
	case token.LSS:
		t = w.ts.mk(lt, 0, x, y, nil)
	case token.LEQ:
		t = w.ts.mk(le, 0, x, y, nil)
	case token.GTR:
		t = w.ts.mk(lt, 0, y, x, nil)
	case token.GEQ:
		t = w.ts.mk(le, 0, y, x, nil)
	}
	return w.val(t)
}

func (w *W) not(v Value) Value {
	if t := symOf(v); t != nil {
		return w.val(w.ts.mk(ONot, 0, t, nil, nil))
	}
	return Value{n: 1 - v.n}
}

// and builds a conjunction without forking.
func (w *W) and(a, b Value) Value {
	if symOf(a) == nil {
		if a.n == 0 {
			return a
		}
		return b
	}
	if symOf(b) == nil {
		if b.n == 0 {
			return b
		}
		return a
	}
	return w.val(w.ts.mk(OBand, 0, symOf(a), symOf(b), nil))
}

// strEq is string equality as one boolean value, without forking.
func (w *W) strEq(a, b Value) Value {
	if a.slen() != b.slen() {
		return Value{}
	}
	if a.conc() && b.conc() {
		return boolVal(a.gostr() == b.gostr())
	}
	r := Value{n: 1}
	for i := 0; i < a.slen(); i++ {
		r = w.and(r, w.cmpInt(token.EQL, a.byteAt(i), b.byteAt(i), false))
		if symOf(r) == nil && r.n == 0 {
			return r
		}
	}
	return r
}

func (w *W) cmpStr(tok token.Token, a, b Value) Value {
	if a.conc() && b.conc() {
		x, y := a.gostr(), b.gostr()
		switch tok {
		case token.EQL:
			return boolVal(x == y)
		case token.NEQ:
			return boolVal(x != y)
		case token.LSS:
			return boolVal(x < y)
		case token.LEQ:
			return boolVal(x <= y)
		case token.GTR:
			return boolVal(x > y)
		case token.GEQ:
			return boolVal(x >= y)
		}
	}
	switch tok {
	case token.EQL, token.NEQ:
		r := w.strEq(a, b)
		if t := symOf(r); t != nil && t.v == nil {
			// Several variables: decide byte by byte, so that every
			// path condition stays on one variable.
			if w.spec > 0 {
				panic(specAbort{})
			}
			r = Value{n: 1}
			for i := 0; i < a.slen(); i++ {
				if !w.truth(w.cmpInt(token.EQL, a.byteAt(i), b.byteAt(i), false)) {
					r.n = 0
					break
				}
			}
		}
		if tok == token.NEQ {
			return w.not(r)
		}
		return r
	}
	// Ordering: three-way by bytes.
	if w.spec > 0 {
		panic(specAbort{})
	}
	n := a.slen()
	if b.slen() < n {
		n = b.slen()
	}
	c := 0
	for i := 0; i < n && c == 0; i++ {
		x, y := a.byteAt(i), b.byteAt(i)
		if w.truth(w.cmpInt(token.LSS, x, y, false)) {
			c = -1
		} else if w.truth(w.cmpInt(token.GTR, x, y, false)) {
			c = 1
		}
	}
	if c == 0 {
		c = a.slen() - b.slen()
	}
	switch tok {
	case token.LSS:
		return boolVal(c < 0)
	case token.LEQ:
		return boolVal(c <= 0)
	case token.GTR:
		return boolVal(c > 0)
	}
	return boolVal(c >= 0)
}

// truth forks on a boolean.
func (w *W) truth(v Value) bool {
	if t := symOf(v); t != nil {
		return w.branch(t)
	}
	return v.n != 0
}

func (w *W) eq(a, b Value, r *RT) Value {
	switch r.kind {
	case KBool:
		if symOf(a) == nil && symOf(b) == nil {
			return boolVal(a.n == b.n)
		}
		return w.val(w.ts.mk(OBeq, 0, w.term(a, true), w.term(b, true), nil))
	case KInt:
		return w.cmpInt(token.EQL, a, b, r.signed)
	case KFloat:
		return boolVal(math.Float64frombits(uint64(a.n)) == math.Float64frombits(uint64(b.n)))
	case KString:
		return w.cmpStr(token.EQL, a, b)
	case KPtr, KChan, KMap, KSlice, KFunc:
		return boolVal(a.x == b.x)
	case KIface:
		ia, _ := a.x.(*Iface)
		ib, _ := b.x.(*Iface)
		if ia == nil || ib == nil {
			return boolVal(ia == nil && ib == nil)
		}
		if ia.t != ib.t {
			return Value{}
		}
		switch ia.t.kind {
		case KSlice, KMap, KFunc:
			w.rtPanic("comparing uncomparable type %s", ia.t.str)
		}
		return w.eq(ia.v, ib.v, ia.t)
	case KStruct:
		x, y := a.x.(*Agg), b.x.(*Agg)
		r0 := Value{n: 1}
		for i := range x.e {
			r0 = w.and(r0, w.eq(x.e[i], y.e[i], r.fields[i]))
		}
		return r0
	case KArray:
		x, y := a.x.(*Agg), b.x.(*Agg)
		r0 := Value{n: 1}
		for i := range x.e {
			r0 = w.and(r0, w.eq(x.e[i], y.e[i], r.elem))
		}
		return r0
	}
	panic(unsupported("comparison of %s", r.str))
}

// conc forces an integer to a concrete value, forking over the possibilities.
func (w *W) concInt(v Value) int64 {
	t := symOf(v)
	if t == nil {
		return v.n
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	return w.split(t)
}

// inBounds checks 0 <= i < n, forking, and raises the run-time error otherwise.
func (w *W) inBounds(i Value, n int) {
	if t := symOf(i); t != nil {
		c := w.val(w.ts.mk(OUlt, 0, t, w.ts.konst(int64(n), false), nil))
		if ct := symOf(c); ct != nil {
			if w.spec > 0 {
				panic(specAbort{})
			}
			if !w.branch(ct) {
				w.rtPanic("index out of range with length %d", n)
			}
			return
		}
		if c.n == 0 {
			w.rtPanic("index out of range with length %d", n)
		}
		return
	}
	if uint64(i.n) >= uint64(n) {
		w.rtPanic("index out of range [%d] with length %d", i.n, n)
	}
}

// selectInt reads an integer array at a symbolic index as a term, if possible.
func (w *W) selectInt(es func(int) Value, n int, idx *Term, isBool bool) (Value, bool) {
	if idx.v == nil {
		return Value{}, false
	}
	v := idx.v
	tab := make([]int64, len(v.dom))
	for i := range tab {
		if !v.cur.has(i) {
			continue
		}
		j := idx.tab[i]
		if j < 0 || j >= int64(n) {
			return Value{}, false
		}
		e := es(int(j))
		if e.x != nil {
			return Value{}, false
		}
		tab[i] = e.n
	}
	fillDead(v, tab)
	return w.val(w.ts.tabTerm(v, tab, isBool)), true
}

// fillDead gives values outside the remaining domain the value of the first
// remaining one, to keep tables small.
func fillDead(v *Var, tab []int64) {
	f := v.cur.first()
	for i := range tab {
		if !v.cur.has(i) {
			tab[i] = tab[f]
		}
	}
}

func (w *W) deref(v Value) *Value {
	switch p := v.x.(type) {
	case *Value:
		return p
	case nil:
		w.rtPanic("invalid memory address or nil pointer dereference")
	case *SymPtr:
		i := w.concInt(Value{x: p.idx})
		return &p.arr.e[p.off+int(i)]
	}
	panic(unsupported("dereference of %T", v.x))
}

func (w *W) simple(fr *frame, in *instr) {
	switch in.op {
	case iNop:
	case iAlloc:
		c := new(Value)
		*c = zero(in.rt)
		fr.regs[in.dst] = Value{x: c}
	case iBinInt:
		fr.regs[in.dst] = w.binInt(in.tok, w.get(fr, in.a), w.get(fr, in.b), in.rt, in.rt2)
	case iCmpInt:
		fr.regs[in.dst] = w.cmpInt(in.tok, w.get(fr, in.a), w.get(fr, in.b), in.rt.signed)
	case iConcat:
		fr.regs[in.dst] = concat(w.get(fr, in.a), w.get(fr, in.b))
	case iCmpStr:
		fr.regs[in.dst] = w.cmpStr(in.tok, w.get(fr, in.a), w.get(fr, in.b))
	case iBinFloat:
		x, y := math.Float64frombits(uint64(w.get(fr, in.a).n)), math.Float64frombits(uint64(w.get(fr, in.b).n))
		var z float64
		switch in.tok {
		case token.ADD:
			z = x + y
		case token.SUB:
			z = x - y
		case token.MUL:
			z = x * y
		case token.QUO:
			z = x / y
		}
		if in.rt.bits == 32 {
			z = float64(float32(z))
		}
		fr.regs[in.dst] = Value{n: int64(math.Float64bits(z))}
	case iCmpFloat:
		x, y := math.Float64frombits(uint64(w.get(fr, in.a).n)), math.Float64frombits(uint64(w.get(fr, in.b).n))
		var z bool
		switch in.tok {
		case token.EQL:
			z = x == y
		case token.NEQ:
			z = x != y
		case token.LSS:
			z = x < y
		case token.LEQ:
			z = x <= y
		case token.GTR:
			z = x > y
		case token.GEQ:
			z = x >= y
		}
		fr.regs[in.dst] = boolVal(z)
	case iEq:
		a, b := w.get(fr, in.a), w.get(fr, in.b)
		if in.rt.kind == KIface && in.rt2.kind != KIface {
			b = Value{x: &Iface{t: in.rt2, v: b}}
		}
		v := w.eq(a, b, in.rt)
		if in.tok == token.NEQ {
			v = w.not(v)
		}
		fr.regs[in.dst] = v
	case iNot:
		fr.regs[in.dst] = w.not(w.get(fr, in.a))
	case iNeg:
		fr.regs[in.dst] = w.binInt(token.SUB, Value{}, w.get(fr, in.a), in.rt, in.rt)
	case iNegF:
		fr.regs[in.dst] = Value{n: int64(math.Float64bits(-math.Float64frombits(uint64(w.get(fr, in.a).n))))}
	case iCompl:
		a := w.get(fr, in.a)
		if t := symOf(a); t != nil {
			fr.regs[in.dst] = w.val(w.wrapT(w.ts.mk(OXor, 0, t, w.ts.konst(-1, false), nil), in.rt))
		} else {
			fr.regs[in.dst] = Value{n: wrap(^a.n, in.rt)}
		}
	case iLoad:
		p := w.get(fr, in.a)
		switch q := p.x.(type) {
		case *Value:
			v := *q
			switch x := v.x.(type) {
			case *Agg:
				v = copyAgg(v)
			case *Term:
				v = w.val(x)
			}
			fr.regs[in.dst] = v
		case *SymPtr:
			v, ok := w.selectInt(func(i int) Value { return q.arr.e[q.off+i] }, q.len, q.idx, in.rt.kind == KBool)
			if !ok {
				v = *w.deref(p)
				if _, ok := v.x.(*Agg); ok {
					v = copyAgg(v)
				}
			}
			fr.regs[in.dst] = v
		default:
			fr.regs[in.dst] = *w.deref(p)
		}
	case iStore:
		p := w.get(fr, in.a)
		storeTo(w.deref(p), w.get(fr, in.b))
	case iFieldAddr:
		p := w.get(fr, in.a)
		c, ok := p.x.(*Value)
		if !ok {
			c = w.deref(p)
		}
		a, ok := c.x.(*Agg)
		if !ok {
			panic(unsupported("field address in non-struct"))
		}
		fr.regs[in.dst] = Value{x: &a.e[in.imm]}
	case iField:
		a := w.get(fr, in.a).x.(*Agg)
		fr.regs[in.dst] = a.e[in.imm]
	case iIndexAddr:
		w.indexAddr(fr, in)
	case iIndex:
		a := w.get(fr, in.a).x.(*Agg)
		i := w.get(fr, in.b)
		w.inBounds(i, len(a.e))
		if t := symOf(i); t != nil {
			if v, ok := w.selectInt(func(j int) Value { return a.e[j] }, len(a.e), t, in.rt.elem.kind == KBool); ok && (in.rt.elem.kind == KInt || in.rt.elem.kind == KBool) {
				fr.regs[in.dst] = v
				return
			}
			i = Value{n: w.concInt(i)}
		}
		fr.regs[in.dst] = a.e[i.n]
	case iIndexStr:
		s, i := w.get(fr, in.a), w.get(fr, in.b)
		w.inBounds(i, s.slen())
		if t := symOf(i); t != nil {
			if v, ok := w.selectInt(func(j int) Value { return s.byteAt(j) }, s.slen(), t, false); ok {
				fr.regs[in.dst] = v
				return
			}
			i = Value{n: w.concInt(i)}
		}
		v := s.byteAt(int(i.n))
		if t := symOf(v); t != nil {
			v = w.val(t)
		}
		fr.regs[in.dst] = v
	case iMapLookup:
		m, _ := w.get(fr, in.a).x.(*Map)
		v, ok := w.mapGet(m, w.get(fr, in.b), in.rt)
		fr.regs[in.dst] = v
		if in.flag {
			fr.regs[in.dst+1] = ok
		}
	case iMapUpdate:
		m, _ := w.get(fr, in.a).x.(*Map)
		if m == nil {
			w.plainPanic("assignment to entry in nil map")
		}
		w.mapSet(m, w.get(fr, in.b), w.get(fr, in.c), in.rt)
	case iMove:
		fr.regs[in.dst] = w.get(fr, in.a)
	case iConvInt:
		a := w.get(fr, in.a)
		if t := symOf(a); t != nil {
			fr.regs[in.dst] = w.val(w.wrapT(t, in.rt))
		} else {
			fr.regs[in.dst] = Value{n: wrap(a.n, in.rt)}
		}
	case iConvOther:
		fr.regs[in.dst] = w.convert(w.get(fr, in.a), in.rt2, in.rt)
	case iMakeIface:
		fr.regs[in.dst] = Value{x: &Iface{t: in.rt, v: w.get(fr, in.a)}}
	case iMakeClosure:
		c := &Closure{fn: in.fn, free: make([]Value, len(in.args))}
		for i, a := range in.args {
			c.free[i] = w.get(fr, a)
		}
		fr.regs[in.dst] = Value{x: c}
	case iMakeMap:
		fr.regs[in.dst] = Value{x: newMap()}
	case iMakeSlice:
		n, c := w.concInt(w.get(fr, in.a)), w.concInt(w.get(fr, in.b))
		if n < 0 || n > 1<<28 {
			w.rtPanic("makeslice: len out of range")
		}
		if c < n {
			w.rtPanic("makeslice: cap out of range")
		}
		fr.regs[in.dst] = Value{x: &Slice{arr: newArr(int(c), in.rt), len: int(n), cap: int(c)}}
	case iMakeChan:
		fr.regs[in.dst] = Value{x: new(Value)}
	case iSliceStr, iSliceSl, iSliceArr:
		w.slice(fr, in)
	case iTypeAssert:
		w.typeAssert(fr, in)
	case iRange:
		fr.regs[in.dst] = w.mkRange(w.get(fr, in.a), in.rt)
	case iNext:
		w.next(fr, in)
	case iCallBuiltin:
		args := make([]Value, len(in.args))
		for i, a := range in.args {
			args[i] = w.get(fr, a)
		}
		v := w.builtin(fr, in, args)
		if in.nres > 0 {
			fr.regs[in.dst] = v
		}
	case iPanic:
		v := w.get(fr, in.a)
		if v.x == nil {
			w.rtPanic("panic called with nil argument")
		}
		if w.spec > 0 {
			panic(specAbort{})
		}
		panic(&goPanic{val: v, where: w.where()})
	default:
		if w.spec > 0 {
			panic(specAbort{})
		}
		panic(unsupported("instruction %s in %s", in.name, fr.fn.name))
	}
}

func (w *W) plainPanic(s string) { w.rtPanic("%s", s) }

func newArr(n int, elem *RT) *Agg {
	a := &Agg{e: make([]Value, n)}
	if !elem.scalar {
		for i := range a.e {
			a.e[i] = zero(elem)
		}
	}
	return a
}

func newMap() *Map { return &Map{idx: map[any]int{}} }

func (w *W) indexAddr(fr *frame, in *instr) {
	x, i := w.get(fr, in.a), w.get(fr, in.b)
	var arr *Agg
	off, n := 0, 0
	switch in.rt.kind {
	case KSlice:
		s, _ := x.x.(*Slice)
		if s != nil {
			arr, off, n = s.arr, s.off, s.len
		}
	default:
		c := w.deref(x)
		arr = c.x.(*Agg)
		n = len(arr.e)
	}
	w.inBounds(i, n)
	if t := symOf(i); t != nil {
		if in.rt2.kind == KInt || in.rt2.kind == KBool {
			fr.regs[in.dst] = Value{x: &SymPtr{arr, off, n, t}}
			return
		}
		i = Value{n: w.concInt(i)}
	}
	fr.regs[in.dst] = Value{x: &arr.e[off+int(i.n)]}
}

func (w *W) slice(fr *frame, in *instr) {
	x := w.get(fr, in.a)
	lo, hi, max := int64(0), int64(-1), int64(-1)
	if in.b != -1<<30 {
		lo = w.concInt(w.get(fr, in.b))
	}
	if in.c != -1<<30 {
		hi = w.concInt(w.get(fr, in.c))
		if hi < 0 {
			w.rtPanic("slice bounds out of range [:%d]", hi)
		}
	}
	if in.d != -1<<30 {
		max = w.concInt(w.get(fr, in.d))
		if max < 0 {
			w.rtPanic("slice bounds out of range [::%d]", max)
		}
	}
	if in.op == iSliceStr {
		n := int64(x.slen())
		if hi < 0 {
			hi = n
		}
		if hi > n {
			w.rtPanic("slice bounds out of range [:%d] with length %d", hi, n)
		}
		if lo < 0 || lo > hi {
			w.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		fr.regs[in.dst] = x.substr(int(lo), int(hi))
		return
	}
	var arr *Agg
	var off, n, c int64
	if in.op == iSliceArr {
		cell := w.deref(x)
		arr = cell.x.(*Agg)
		n = int64(len(arr.e))
		c = n
	} else if s, _ := x.x.(*Slice); s != nil {
		arr, off, n, c = s.arr, int64(s.off), int64(s.len), int64(s.cap)
	}
	if hi < 0 {
		hi = n
	}
	if max < 0 {
		max = c
	} else if max > c {
		w.rtPanic("slice bounds out of range [::%d] with capacity %d", max, c)
	}
	if hi > max {
		w.rtPanic("slice bounds out of range [:%d] with capacity %d", hi, c)
	}
	if lo < 0 || lo > hi {
		w.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
	}
	if arr == nil {
		fr.regs[in.dst] = Value{}
		return
	}
	fr.regs[in.dst] = Value{x: &Slice{arr, int(off + lo), int(hi - lo), int(max - lo)}}
}

func (w *W) implements(t, iface *RT) bool {
	if r, ok := t.impl.Load(iface); ok {
		return r.(bool)
	}
	r := implementsIface(t, iface)
	t.impl.Store(iface, r)
	return r
}

func (w *W) typeAssert(fr *frame, in *instr) {
	i, _ := w.get(fr, in.a).x.(*Iface)
	ok := false
	var v Value
	if i != nil {
		if in.rt.kind == KIface {
			if ok = w.implements(i.t, in.rt); ok {
				v = Value{x: i}
			}
		} else if ok = i.t == in.rt; ok {
			v = i.v
		}
	}
	if !ok {
		if !in.flag {
			dyn := "nil"
			if i != nil {
				dyn = i.t.str
			}
			w.rtPanic("interface conversion: interface is %s, not %s", dyn, in.rt.str)
		}
		v = zero(in.rt)
	}
	fr.regs[in.dst] = v
	if in.flag {
		fr.regs[in.dst+1] = boolVal(ok)
	}
}

// ---- maps ----

func (w *W) mapFind(m *Map, k Value, r *RT) int {
	if m == nil {
		return -1
	}
	key, ok := keyOf(k, r.key)
	if ok && !m.sym {
		if i, ok := m.idx[key]; ok {
			return i
		}
		return -1
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	for i := range m.ents {
		if m.ents[i].live && w.truth(w.eq(k, m.ents[i].k, r.key)) {
			return i
		}
	}
	return -1
}

func (w *W) mapGet(m *Map, k Value, r *RT) (Value, Value) {
	if t := symOf(k); t != nil && t.v != nil && m != nil && !m.sym && (r.elem.kind == KInt || r.elem.kind == KBool) {
		// A table over the key's variable.
		v := t.v
		tab, oks := make([]int64, len(v.dom)), make([]int64, len(v.dom))
		good := true
		for i := range tab {
			if !v.cur.has(i) {
				continue
			}
			if j, ok := m.idx[t.tab[i]]; ok {
				e := m.ents[j].v
				if e.x != nil {
					good = false
					break
				}
				tab[i], oks[i] = e.n, 1
			}
		}
		if good {
			fillDead(v, tab)
			fillDead(v, oks)
			return w.val(w.ts.tabTerm(v, tab, r.elem.kind == KBool)), w.val(w.ts.tabTerm(v, oks, true))
		}
	}
	if i := w.mapFind(m, k, r); i >= 0 {
		return copyAgg(m.ents[i].v), Value{n: 1}
	}
	return zero(r.elem), Value{}
}

func (w *W) mapSet(m *Map, k, v Value, r *RT) {
	if r.key.kind == KIface {
		if i, _ := k.x.(*Iface); i != nil {
			switch i.t.kind {
			case KSlice, KMap, KFunc:
				w.rtPanic("hash of unhashable type %s", i.t.str)
			}
		}
	}
	if i := w.mapFind(m, k, r); i >= 0 {
		m.ents[i].v = copyAgg(v)
		return
	}
	key, ok := keyOf(k, r.key)
	if ok {
		m.idx[key] = len(m.ents)
	} else {
		m.sym = true
	}
	m.ents = append(m.ents, ment{copyAgg(k), copyAgg(v), true})
	m.n++
}

func (w *W) mapDelete(m *Map, k Value, r *RT) {
	i := w.mapFind(m, k, r)
	if i < 0 {
		return
	}
	if key, ok := keyOf(m.ents[i].k, r.key); ok {
		delete(m.idx, key)
	}
	m.ents[i].live = false
	m.n--
}

type rangeIter struct {
	str Value
	pos int
	m   *Map
	ord []int
	i   int
}

func (w *W) mkRange(v Value, r *RT) Value {
	it := &rangeIter{}
	if r.kind == KString {
		it.str = v
	} else {
		it.m, _ = v.x.(*Map)
		if it.m != nil {
			n := len(it.m.ents)
			for i := 0; i < n; i++ {
				switch w.mapOrder {
				case 1:
					it.ord = append(it.ord, n-1-i)
				case 2:
					it.ord = append(it.ord, (i+n/2)%n)
				default:
					it.ord = append(it.ord, i)
				}
			}
		}
	}
	return Value{x: it}
}

func (w *W) next(fr *frame, in *instr) {
	it := w.get(fr, in.a).x.(*rangeIter)
	if in.flag {
		if it.pos >= it.str.slen() {
			fr.regs[in.dst] = Value{}
			fr.regs[in.dst+1] = Value{}
			fr.regs[in.dst+2] = Value{}
			return
		}
		r, n := w.decodeRune(it.str.substr(it.pos, it.str.slen()))
		fr.regs[in.dst] = Value{n: 1}
		fr.regs[in.dst+1] = Value{n: int64(it.pos)}
		fr.regs[in.dst+2] = r
		it.pos += n
		return
	}
	if it.m != nil {
		for it.i < len(it.ord) {
			e := &it.m.ents[it.ord[it.i]]
			it.i++
			if e.live {
				fr.regs[in.dst] = Value{n: 1}
				fr.regs[in.dst+1] = copyAgg(e.k)
				fr.regs[in.dst+2] = copyAgg(e.v)
				return
			}
		}
		// Entries added during iteration may or may not be produced; they are not.
	}
	fr.regs[in.dst] = Value{}
	fr.regs[in.dst+1] = Value{}
	fr.regs[in.dst+2] = Value{}
}

// decodeRune decodes the first rune of a non-empty string.
func (w *W) decodeRune(s Value) (Value, int) {
	b0 := s.byteAt(0)
	if t := symOf(b0); t != nil {
		b0 = w.val(t)
	}
	if symOf(b0) == nil && b0.n < 0x80 {
		return Value{n: b0.n}, 1
	}
	if t := symOf(b0); t != nil {
		if w.truth(w.cmpInt(token.LSS, b0, Value{n: 0x80}, false)) {
			return w.val(t), 1
		}
	}
	m := s.slen()
	if m > 4 {
		m = 4
	}
	// Find the variables of the bytes needed.
	var v *Var
	single := true
	need := m
	if symOf(b0) == nil {
		// Width is known from the first byte.
		switch {
		case b0.n >= 0xF0:
		case b0.n >= 0xE0:
			if need > 3 {
				need = 3
			}
		case b0.n >= 0xC0:
			if need > 2 {
				need = 2
			}
		default:
			need = 1
		}
	} else {
		// Decide the width first.
		c := func(k int64) bool { return w.truth(w.cmpInt(token.GEQ, b0, Value{n: k}, false)) }
		switch {
		case c(0xF0):
		case c(0xE0):
			if need > 3 {
				need = 3
			}
		case c(0xC0):
			if need > 2 {
				need = 2
			}
		default:
			need = 1
		}
	}
	for i := 0; i < need; i++ {
		if t := symOf(s.byteAt(i)); t != nil {
			if t.v == nil || (v != nil && v != t.v) {
				single = false
			} else {
				v = t.v
			}
		}
	}
	if v == nil && single {
		r, n := utf8.DecodeRuneInString(s.substr(0, need).gostr())
		return Value{n: int64(r)}, n
	}
	if !single {
		var buf [4]byte
		for i := 0; i < need; i++ {
			buf[i] = byte(w.concInt(s.byteAt(i)))
		}
		r, n := utf8.DecodeRune(buf[:need])
		return Value{n: int64(r)}, n
	}
	rt, nt := make([]int64, len(v.dom)), make([]int64, len(v.dom))
	for i := range v.dom {
		if !v.cur.has(i) {
			continue
		}
		var buf [4]byte
		for j := 0; j < need; j++ {
			b := s.byteAt(j)
			if t := symOf(b); t != nil {
				buf[j] = byte(t.tab[i])
			} else {
				buf[j] = byte(b.n)
			}
		}
		r, n := utf8.DecodeRune(buf[:need])
		rt[i], nt[i] = int64(r), int64(n)
	}
	fillDead(v, rt)
	fillDead(v, nt)
	n := int(w.concInt(w.val(w.ts.tabTerm(v, nt, false))))
	return w.val(w.ts.tabTerm(v, rt, false)), n
}

// encodeRune returns the UTF-8 encoding of a rune.
func (w *W) encodeRune(r Value) Value {
	t := symOf(r)
	if t == nil {
		x := r.n
		if x < 0 || x > utf8.MaxRune {
			x = utf8.RuneError
		}
		return mkStr(string(rune(x)))
	}
	if t.v != nil {
		v := t.v
		nt := make([]int64, len(v.dom))
		enc := make([]string, len(v.dom))
		for i := range nt {
			if v.cur.has(i) {
				enc[i] = string(rune(t.tab[i]))
				nt[i] = int64(len(enc[i]))
			}
		}
		fillDead(v, nt)
		n := int(w.concInt(w.val(w.ts.tabTerm(v, nt, false))))
		bs := make([]Value, n)
		for j := range bs {
			bt := make([]int64, len(v.dom))
			for i := range bt {
				if v.cur.has(i) {
					bt[i] = int64(enc[i][j])
				}
			}
			fillDead(v, bt)
			bs[j] = w.val(w.ts.tabTerm(v, bt, false))
			if n == 1 {
				bs[j] = w.val(t)
			}
		}
		return bytesToStr(bs)
	}
	return w.encodeRune(Value{n: w.concInt(r)})
}

func (w *W) convert(v Value, from, to *RT) Value {
	switch {
	case from.kind == KInt && to.kind == KString:
		return w.encodeRune(v)
	case from.kind == KString && to.kind == KSlice && to.elem.bits == 8:
		n := v.slen()
		a := &Agg{e: make([]Value, n)}
		for i := range a.e {
			a.e[i] = v.byteAt(i)
		}
		return Value{x: &Slice{arr: a, len: n, cap: n}}
	case from.kind == KString && to.kind == KSlice:
		var rs []Value
		for i := 0; i < v.slen(); {
			r, n := w.decodeRune(v.substr(i, v.slen()))
			rs = append(rs, r)
			i += n
		}
		return Value{x: &Slice{arr: &Agg{e: rs}, len: len(rs), cap: len(rs)}}
	case from.kind == KSlice && to.kind == KString:
		s, _ := v.x.(*Slice)
		if s == nil {
			return Value{}
		}
		if from.elem.bits == 8 {
			return bytesToStr(s.arr.e[s.off : s.off+s.len])
		}
		var r Value
		for i := 0; i < s.len; i++ {
			r = concat(r, w.encodeRune(s.arr.e[s.off+i]))
		}
		return r
	case from.kind == KString && to.kind == KString, from.kind == KPtr && to.kind == KPtr, from.kind == KSlice && to.kind == KSlice:
		return v
	case from.kind == KInt && to.kind == KInt:
		if t := symOf(v); t != nil {
			return w.val(w.wrapT(t, to))
		}
		return Value{n: wrap(v.n, to)}
	case from.kind == KInt && to.kind == KFloat:
		x := w.concInt(v)
		f := float64(x)
		if !from.signed {
			f = float64(uint64(x))
		}
		return Value{n: int64(math.Float64bits(f))}
	case from.kind == KFloat && to.kind == KInt:
		return Value{n: wrap(int64(math.Float64frombits(uint64(v.n))), to)}
	case from.kind == KFloat && to.kind == KFloat:
		f := math.Float64frombits(uint64(v.n))
		if to.bits == 32 {
			f = float64(float32(f))
		}
		return Value{n: int64(math.Float64bits(f))}
	}
	panic(unsupported("conversion %s to %s", from.str, to.str))
}

func (w *W) builtin(fr *frame, in *instr, args []Value) Value {
	switch in.name {
	case "len":
		switch in.rt.kind {
		case KString:
			return Value{n: int64(args[0].slen())}
		case KSlice:
			if s, _ := args[0].x.(*Slice); s != nil {
				return Value{n: int64(s.len)}
			}
			return Value{}
		case KMap:
			if m, _ := args[0].x.(*Map); m != nil {
				return Value{n: int64(m.n)}
			}
			return Value{}
		case KArray:
			return Value{n: int64(in.rt.n)}
		case KPtr:
			return Value{n: int64(in.rt.elem.n)}
		}
		return Value{}
	case "cap":
		switch in.rt.kind {
		case KSlice:
			if s, _ := args[0].x.(*Slice); s != nil {
				return Value{n: int64(s.cap)}
			}
		case KArray:
			return Value{n: int64(in.rt.n)}
		case KPtr:
			return Value{n: int64(in.rt.elem.n)}
		}
		return Value{}
	case "append":
		var add []Value
		if in.rt2.kind == KString {
			s := args[1]
			for i := 0; i < s.slen(); i++ {
				add = append(add, s.byteAt(i))
			}
		} else if s, _ := args[1].x.(*Slice); s != nil {
			add = s.arr.e[s.off : s.off+s.len]
		}
		return w.appendVals(args[0], add, in.rt.elem)
	case "copy":
		d, _ := args[0].x.(*Slice)
		var src []Value
		if in.rt2.kind == KString {
			s := args[1]
			for i := 0; i < s.slen(); i++ {
				src = append(src, s.byteAt(i))
			}
		} else if s, _ := args[1].x.(*Slice); s != nil {
			src = s.arr.e[s.off : s.off+s.len]
		}
		if d == nil {
			return Value{}
		}
		n := d.len
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyAgg(src[i])
		}
		for i := 0; i < n; i++ {
			storeTo(&d.arr.e[d.off+i], tmp[i])
		}
		return Value{n: int64(n)}
	case "delete":
		if m, _ := args[0].x.(*Map); m != nil {
			w.mapDelete(m, args[1], in.rt)
		}
		return Value{}
	case "clear":
		switch x := args[0].x.(type) {
		case *Map:
			*x = *newMap()
		case *Slice:
			for i := 0; i < x.len; i++ {
				storeTo(&x.arr.e[x.off+i], zero(in.rt.elem))
			}
		}
		return Value{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var less Value
			switch in.rt.kind {
			case KInt:
				less = w.cmpInt(token.LSS, a, r, in.rt.signed)
			case KString:
				less = w.cmpStr(token.LSS, a, r)
			default:
				panic(unsupported("min of %s", in.rt.str))
			}
			if w.truth(less) == (in.name == "min") {
				r = a
			}
		}
		return r
	case "print", "println":
		return Value{}
	case "recover":
		f := fr.deferOf
		if f == nil || f.panic == nil || f.recovered {
			return Value{}
		}
		f.recovered = true
		return f.panic.val
	case "ssa:wrapnilchk":
		if args[0].x == nil {
			w.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return Value{}
	case "close":
		return Value{}
	case "SliceData", "StringData", "Add", "String", "Slice":
	}
	panic(unsupported("builtin %s", in.name))
}

func (w *W) appendVals(base Value, add []Value, elem *RT) Value {
	s, _ := base.x.(*Slice)
	if len(add) == 0 {
		return base
	}
	n, c := 0, 0
	if s != nil {
		n, c = s.len, s.cap
	}
	need := n + len(add)
	if need <= c {
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = copyAgg(add[i])
		}
		for i := range add {
			storeTo(&s.arr.e[s.off+n+i], tmp[i])
		}
		return Value{x: &Slice{s.arr, s.off, need, c}}
	}
	nc := growCap(c, need)
	a := &Agg{e: make([]Value, nc)}
	for i := 0; i < n; i++ {
		a.e[i] = copyAgg(s.arr.e[s.off+i])
	}
	for i := range add {
		a.e[n+i] = copyAgg(add[i])
	}
	if !elem.scalar {
		for i := need; i < nc; i++ {
			a.e[i] = zero(elem)
		}
	}
	return Value{x: &Slice{a, 0, need, nc}}
}

// growCap mimics the runtime's growth for pointer-sized and larger elements.
func growCap(old, need int) int {
	if need > 2*old {
		return need
	}
	if old < 256 {
		return 2 * old
	}
	n := old
	for n < need {
		n += (n + 3*256) / 4
	}
	return n
}

// ---- region merging ----

// tryMerge executes the side-effect free region after a symbolic branch
// under both outcomes and joins the results with if-then-else,
// provided everything stays a function of one variable.
func (w *W) tryMerge(fr *frame, in *instr, cond *Term) (jb *Block, e int) {
	if in.reg == nil || w.noMerge || cond.v == nil {
		return nil, 0
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	type edgeKey struct {
		b *Block
		e int
	}
	w.spec++
	ok := false
	nf, sp := len(w.frames), w.sp
	defer func() {
		w.spec--
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				w.frames = w.frames[:nf]
				w.sp = sp
				jb = nil
				return
			}
			panic(r)
		}
		_ = ok
	}()
	guards := map[edgeKey]*Term{}
	guards[edgeKey{in.t0, in.e0}] = cond
	guards[edgeKey{in.t1, in.e1}] = w.ts.mk(ONot, 0, cond, nil, nil)
	type pend struct {
		r int32
		v Value
	}
	var joinVals []pend
	phis := func(b *Block) (*Term, []pend) {
		var g *Term
		var es []int
		var gs []*Term
		for i := range b.edges {
			if t := guards[edgeKey{b, i}]; t != nil && !(t.op == OConst && t.k == 0) {
				es = append(es, i)
				gs = append(gs, t)
				if g == nil {
					g = t
				} else {
					g = w.ts.mk(OBor, 0, g, t, nil)
				}
			}
		}
		if g == nil {
			return nil, nil
		}
		var out []pend
		for k := range b.edges[es[0]] {
			dst := b.edges[es[0]][k].dst
			v := w.get(fr, b.edges[es[0]][k].src)
			for j := 1; j < len(es); j++ {
				u := w.get(fr, b.edges[es[j]][k].src)
				v = w.mergeVal(gs[j], u, v, b.edges[es[0]][k].kind)
			}
			out = append(out, pend{dst, v})
		}
		return g, out
	}
	for _, b := range in.reg.blocks {
		g, pv := phis(b)
		if g == nil {
			continue
		}
		for _, p := range pv {
			fr.regs[p.r] = p.v
		}
		for i := range b.ins {
			x := &b.ins[i]
			switch x.op {
			case iIf:
				c := w.get(fr, x.a)
				ct := w.term(c, true)
				gt := w.ts.mk(OBand, 0, g, ct, nil)
				gf := w.ts.mk(OBand, 0, g, w.ts.mk(ONot, 0, ct, nil, nil), nil)
				if (gt.op != OConst && gt.v == nil) || (gf.op != OConst && gf.v == nil) {
					panic(specAbort{})
				}
				guards[edgeKey{x.t0, x.e0}] = gt
				guards[edgeKey{x.t1, x.e1}] = gf
			case iJump:
				guards[edgeKey{x.t0, x.e0}] = g
			case iCallStatic:
				w.doCall(fr, x)
				if x.nres == 1 {
					fr.regs[x.dst] = w.ret[0]
				} else {
					copy(fr.regs[x.dst:int(x.dst)+x.nres], w.ret[:x.nres])
				}
			default:
				w.simple(fr, x)
			}
		}
	}
	g, pv := phis(in.reg.join)
	if g == nil {
		panic(specAbort{})
	}
	joinVals = pv
	for _, p := range joinVals {
		fr.regs[p.r] = p.v
	}
	w.merges++
	return in.reg.join, 0
}

// mergeVal is if g then u else v.
func (w *W) mergeVal(g *Term, u, v Value, k Kind) Value {
	if u.x == v.x && u.n == v.n {
		return u
	}
	if k != KInt && k != KBool {
		panic(specAbort{})
	}
	t := w.ts.mk(OIte, 0, g, w.term(u, k == KBool), w.term(v, k == KBool))
	if t.op != OConst && t.v == nil {
		panic(specAbort{})
	}
	return w.val(t)
}
