package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type iop uint8

const (
	iNop iop = iota
	iAlloc
	iBinInt
	iCmpInt
	iConcat
	iCmpStr
	iBinFloat
	iCmpFloat
	iEq // equality of any other type
	iNot
	iNeg
	iNegF
	iCompl
	iLoad
	iStore
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iIndexStr
	iMapLookup
	iMapUpdate
	iMove
	iConvInt
	iConvOther
	iMakeIface
	iMakeClosure
	iMakeMap
	iMakeSlice
	iSliceStr
	iSliceSl
	iSliceArr
	iSliceToArr
	iTypeAssert
	iRange
	iNext
	iCallStatic
	iCallClosure
	iCallInvoke
	iCallBuiltin
	iDefer
	iRunDefers
	iIf
	iJump
	iReturn
	iPanic
	iUnsupported
	iGo
	iMakeChan
)

const globBase = -(1 << 24)

type instr struct {
	op    iop
	dst   int32
	a     int32
	b     int32
	c     int32
	d     int32
	imm   int64
	tok   token.Token
	rt    *RT
	rt2   *RT
	args  []int32
	fn    *Fn
	meth  *types.Func
	name  string
	nres  int
	flag  bool
	pos   token.Pos
	t0    *Block
	t1    *Block
	e0    int
	e1    int
	reg   *region
	inner *instr
}

type move struct {
	dst, src int32
	kind     Kind
}

// Block is a compiled basic block.
type Block struct {
	idx   int
	ins   []instr
	edges [][]move // per predecessor
	npred int
	preds []int
	pure  bool
	succs []*Block
}

// region is a side-effect free acyclic sub-graph between a branch and its join.
type region struct {
	blocks []*Block
	join   *Block
}

// Fn is a function.
type Fn struct {
	f       *ssa.Function
	name    string
	once    sync.Once
	blocks  []*Block
	nregs   int
	nparams int
	nfree   int
	consts  []Value
	nres    int
	resRT   []*RT
	hasDef  bool
	recov   *Block
	intr    Intr
	noBody  bool
	repo    bool
	pure    bool
	sig     *types.Signature
	hits    int64
}

// Prog is the loaded program.
type Prog struct {
	prog   *ssa.Program
	mu     sync.Mutex
	fns    map[*ssa.Function]*Fn
	globs  map[*ssa.Global]int
	globL  []*ssa.Global
	pkgs   map[*ssa.Package]int
	rtErr  *RT
	errStr *RT
}

func (p *Prog) fn(f *ssa.Function) *Fn {
	p.mu.Lock()
	defer p.mu.Unlock()
	if x, ok := p.fns[f]; ok {
		return x
	}
	x := &Fn{f: f, name: f.String(), sig: f.Signature}
	if o := f.Origin(); o != nil {
		x.name = o.String()
	}
	x.nparams = len(f.Params)
	x.nfree = len(f.FreeVars)
	res := f.Signature.Results()
	x.nres = res.Len()
	for i := 0; i < x.nres; i++ {
		x.resRT = append(x.resRT, rtOf(res.At(i).Type()))
	}
	pp := fnPkgPath(f)
	x.repo = isRepoPkg(pp)
	lookupIntrinsic(x)
	p.fns[f] = x
	return x
}

func fnPkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

const modPath = "github.com/eaburns/toaq"

func isRepoPkg(p string) bool {
	return p == modPath || strings.HasPrefix(p, modPath+"/") || p == "main" || strings.HasPrefix(p, "github.com/eaburns/peggy") || strings.HasPrefix(p, "github.com/velour/")
}

func (p *Prog) global(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globs[g]; ok {
		return i
	}
	i := len(p.globL)
	p.globs[g] = i
	p.globL = append(p.globL, g)
	return i
}

type compiler struct {
	p      *Prog
	fn     *Fn
	regs   map[ssa.Value]int32
	consts map[ssa.Value]int32
	next   int32
}

func (p *Prog) compile(fn *Fn) {
	fn.once.Do(func() { p.doCompile(fn) })
}

func (p *Prog) doCompile(fn *Fn) {
	f := fn.f
	if f.Blocks == nil && f.Pkg != nil {
		f.Pkg.Build()
	}
	if f.Blocks == nil {
		if o := f.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
	}
	if len(f.Blocks) == 0 {
		fn.noBody = true
		return
	}
	c := &compiler{p: p, fn: fn, regs: map[ssa.Value]int32{}, consts: map[ssa.Value]int32{}}
	for _, x := range f.Params {
		c.regs[x] = c.next
		c.next++
	}
	for _, x := range f.FreeVars {
		c.regs[x] = c.next
		c.next++
	}
	blocks := make([]*Block, len(f.Blocks))
	for i := range blocks {
		blocks[i] = &Block{idx: i}
	}
	// Assign registers.
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				n := int32(1)
				if t, ok := v.Type().(*types.Tuple); ok {
					n = int32(t.Len())
					if n == 0 {
						n = 1
					}
				}
				c.regs[v] = c.next
				c.next += n
			}
		}
	}
	for i, b := range f.Blocks {
		c.block(blocks, blocks[i], b)
	}
	fn.nregs = int(c.next)
	fn.blocks = blocks
	if f.Recover != nil {
		fn.recov = blocks[f.Recover.Index]
	}
	for _, b := range blocks {
		for i := range b.ins {
			if b.ins[i].op == iIf {
				b.ins[i].reg = findRegion(b)
			}
		}
	}
}

func findRegion(b *Block) *region {
	t, f := b.succs[0], b.succs[1]
	if t == f {
		return nil
	}
	inR := map[*Block]bool{b: true}
	inI := map[int]bool{b.idx: true}
	// Blocks that can still run after b (without passing b again).
	reach := map[int]bool{}
	work := []*Block{t, f}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b || reach[x.idx] {
			continue
		}
		reach[x.idx] = true
		work = append(work, x.succs...)
	}
	frontier := map[*Block]bool{t: true, f: true}
	r := &region{}
	for len(frontier) > 1 {
		var pick *Block
		for x := range frontier {
			if !x.pure || x == b {
				continue
			}
			ok := true
			for _, p := range x.preds {
				if !inI[p] && reach[p] {
					ok = false
					break
				}
			}
			if ok && (pick == nil || x.idx < pick.idx) {
				pick = x
			}
		}
		if pick == nil || len(r.blocks) > 160 {
			return nil
		}
		delete(frontier, pick)
		inR[pick] = true
		inI[pick.idx] = true
		r.blocks = append(r.blocks, pick)
		for _, s := range pick.succs {
			if inR[s] {
				return nil
			}
			frontier[s] = true
		}
		if len(pick.succs) == 0 {
			return nil
		}
	}
	for x := range frontier {
		r.join = x
	}
	if r.join == b {
		return nil
	}
	return r
}

func (c *compiler) ref(v ssa.Value) int32 {
	if r, ok := c.regs[v]; ok {
		return r
	}
	if r, ok := c.consts[v]; ok {
		return r
	}
	var val Value
	switch v := v.(type) {
	case *ssa.Global:
		return int32(globBase - c.p.global(v))
	case *ssa.Function:
		val = Value{x: &Closure{fn: c.p.fn(v)}}
	case *ssa.Const:
		val = constVal(v)
	case *ssa.Builtin:
		val = Value{}
	default:
		panic(unsupported("operand %T", v))
	}
	i := int32(len(c.fn.consts))
	c.fn.consts = append(c.fn.consts, val)
	r := ^i
	c.consts[v] = r
	return r
}

func constVal(k *ssa.Const) Value {
	rt := rtOf(k.Type())
	if k.Value == nil {
		return zero(rt)
	}
	switch rt.kind {
	case KBool:
		return boolVal(constant.BoolVal(k.Value))
	case KInt:
		x := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(x); ok {
			return Value{n: i}
		}
		u, _ := constant.Uint64Val(x)
		return Value{n: int64(u)}
	case KFloat:
		f, _ := constant.Float64Val(k.Value)
		return Value{n: int64(math.Float64bits(f))}
	case KString:
		if k.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(k.Value))
		}
		i, _ := constant.Int64Val(constant.ToInt(k.Value))
		return mkStr(string(rune(i)))
	case KIface:
		return Value{}
	}
	return Value{}
}

func (c *compiler) block(blocks []*Block, b *Block, sb *ssa.BasicBlock) {
	b.npred = len(sb.Preds)
	b.edges = make([][]move, len(sb.Preds))
	for _, p := range sb.Preds {
		b.preds = append(b.preds, p.Index)
	}
	for _, s := range sb.Succs {
		b.succs = append(b.succs, blocks[s.Index])
	}
	b.pure = true
	for _, in := range sb.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			for i, e := range phi.Edges {
				b.edges[i] = append(b.edges[i], move{c.regs[phi], c.ref(e), rtOf(phi.Type()).kind})
			}
			continue
		}
		c.instr(blocks, b, sb, in)
	}
	for i := range b.ins {
		switch in := &b.ins[i]; in.op {
		case iBinInt, iCmpInt, iNot, iNeg, iCompl, iLoad, iFieldAddr, iField, iIndexAddr, iIndex, iIndexStr,
			iMove, iConvInt, iSliceStr, iIf, iJump, iNop, iCmpStr, iEq, iMakeIface, iCmpFloat:
		case iCallStatic:
			if !in.fn.pure {
				b.pure = false
			}
		case iCallBuiltin:
			if in.name != "len" && in.name != "cap" {
				b.pure = false
			}
		default:
			b.pure = false
		}
	}
}

func edgeIndex(from, to *ssa.BasicBlock, nth int) int {
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	panic("edge")
}

func (c *compiler) instr(blocks []*Block, b *Block, sb *ssa.BasicBlock, in ssa.Instruction) {
	o := instr{pos: in.Pos()}
	if v, ok := in.(ssa.Value); ok {
		o.dst = c.regs[v]
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return
	case *ssa.Alloc:
		o.op = iAlloc
		o.rt = rtOf(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		o.a, o.b, o.tok = c.ref(in.X), c.ref(in.Y), in.Op
		o.rt = rtOf(in.X.Type())
		o.rt2 = rtOf(in.Y.Type())
		cmp := false
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			cmp = true
		}
		switch o.rt.kind {
		case KInt:
			o.op = iBinInt
			if cmp {
				o.op = iCmpInt
			}
		case KString:
			o.op = iConcat
			if cmp {
				o.op = iCmpStr
			}
		case KFloat:
			o.op = iBinFloat
			if cmp {
				o.op = iCmpFloat
			}
		default:
			o.op = iEq
			if o.rt.kind != KIface && o.rt2.kind == KIface {
				o.rt, o.rt2 = o.rt2, o.rt
				o.a, o.b = o.b, o.a
			}
		}
	case *ssa.UnOp:
		o.a = c.ref(in.X)
		o.rt = rtOf(in.Type())
		switch in.Op {
		case token.MUL:
			o.op = iLoad
		case token.NOT:
			o.op = iNot
		case token.SUB:
			o.op = iNeg
			if o.rt.kind == KFloat {
				o.op = iNegF
			}
		case token.XOR:
			o.op = iCompl
		default:
			o.op = iUnsupported
			o.name = "channel receive"
		}
	case *ssa.Call:
		o.nres = 1
		if t, ok := in.Type().(*types.Tuple); ok {
			o.nres = t.Len()
		}
		c.call(&o, in.Common())
	case *ssa.Defer:
		inner := instr{}
		c.call(&inner, in.Common())
		o.op = iDefer
		o.inner = &inner
		c.fn.hasDef = true
		if in.DeferStack != nil {
			o.op = iUnsupported
			o.name = "defer stack"
		}
	case *ssa.Go:
		inner := instr{}
		c.call(&inner, in.Common())
		o.op = iGo
		o.inner = &inner
	case *ssa.RunDefers:
		o.op = iRunDefers
	case *ssa.ChangeInterface:
		o.op, o.a = iMove, c.ref(in.X)
	case *ssa.ChangeType:
		o.op, o.a = iMove, c.ref(in.X)
	case *ssa.Convert:
		o.a = c.ref(in.X)
		o.rt, o.rt2 = rtOf(in.Type()), rtOf(in.X.Type())
		o.op = iConvOther
		if o.rt.kind == KInt && o.rt2.kind == KInt {
			o.op = iConvInt
		}
	case *ssa.MultiConvert:
		o.a = c.ref(in.X)
		o.rt, o.rt2 = rtOf(in.Type()), rtOf(in.X.Type())
		o.op = iConvOther
	case *ssa.Extract:
		o.op, o.a = iMove, c.regs[in.Tuple]+int32(in.Index)
	case *ssa.FieldAddr:
		o.op, o.a, o.imm = iFieldAddr, c.ref(in.X), int64(in.Field)
	case *ssa.Field:
		o.op, o.a, o.imm = iField, c.ref(in.X), int64(in.Field)
	case *ssa.IndexAddr:
		o.op, o.a, o.b = iIndexAddr, c.ref(in.X), c.ref(in.Index)
		o.rt = rtOf(in.X.Type())
		o.rt2 = rtOf(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Index:
		o.op, o.a, o.b = iIndex, c.ref(in.X), c.ref(in.Index)
		o.rt = rtOf(in.X.Type())
		if o.rt.kind == KString {
			o.op = iIndexStr
		}
	case *ssa.Lookup:
		o.a, o.b = c.ref(in.X), c.ref(in.Index)
		o.rt = rtOf(in.X.Type())
		o.flag = in.CommaOk
		o.op = iMapLookup
		if o.rt.kind == KString {
			o.op = iIndexStr
		}
	case *ssa.MapUpdate:
		o.op, o.a, o.b, o.c = iMapUpdate, c.ref(in.Map), c.ref(in.Key), c.ref(in.Value)
		o.rt = rtOf(in.Map.Type())
	case *ssa.MakeInterface:
		o.op, o.a, o.rt = iMakeIface, c.ref(in.X), rtOf(in.X.Type())
	case *ssa.MakeClosure:
		o.op, o.fn = iMakeClosure, c.p.fn(in.Fn.(*ssa.Function))
		for _, x := range in.Bindings {
			o.args = append(o.args, c.ref(x))
		}
	case *ssa.MakeMap:
		o.op = iMakeMap
	case *ssa.MakeSlice:
		o.op, o.a, o.b, o.rt = iMakeSlice, c.ref(in.Len), c.ref(in.Cap), rtOf(in.Type()).elem
	case *ssa.MakeChan:
		o.op = iMakeChan
	case *ssa.Slice:
		o.a = c.ref(in.X)
		o.b, o.c, o.d = -1<<30, -1<<30, -1<<30
		if in.Low != nil {
			o.b = c.ref(in.Low)
		}
		if in.High != nil {
			o.c = c.ref(in.High)
		}
		if in.Max != nil {
			o.d = c.ref(in.Max)
		}
		o.rt = rtOf(in.X.Type())
		switch o.rt.kind {
		case KString:
			o.op = iSliceStr
		case KSlice:
			o.op = iSliceSl
		case KPtr:
			o.op = iSliceArr
		}
	case *ssa.SliceToArrayPointer:
		o.op, o.name = iUnsupported, "slice to array pointer"
	case *ssa.Store:
		o.op, o.a, o.b = iStore, c.ref(in.Addr), c.ref(in.Val)
	case *ssa.TypeAssert:
		o.op, o.a, o.rt, o.flag = iTypeAssert, c.ref(in.X), rtOf(in.AssertedType), in.CommaOk
		o.rt2 = rtOf(in.X.Type())
	case *ssa.Range:
		o.op, o.a, o.rt = iRange, c.ref(in.X), rtOf(in.X.Type())
	case *ssa.Next:
		o.op, o.a, o.flag = iNext, c.ref(in.Iter), in.IsString
	case *ssa.If:
		o.op, o.a = iIf, c.ref(in.Cond)
		o.t0, o.t1 = b.succs[0], b.succs[1]
		o.e0 = edgeIndex(sb, sb.Succs[0], 0)
		n := 0
		if sb.Succs[0] == sb.Succs[1] {
			n = 1
		}
		o.e1 = edgeIndex(sb, sb.Succs[1], n)
	case *ssa.Jump:
		o.op, o.t0, o.e0 = iJump, b.succs[0], edgeIndex(sb, sb.Succs[0], 0)
	case *ssa.Return:
		o.op = iReturn
		for _, r := range in.Results {
			o.args = append(o.args, c.ref(r))
		}
	case *ssa.Panic:
		o.op, o.a = iPanic, c.ref(in.X)
	default:
		o.op = iUnsupported
		o.name = in.String()
	}
	b.ins = append(b.ins, o)
}

func (c *compiler) call(o *instr, cc *ssa.CallCommon) {
	if cc.IsInvoke() {
		o.op = iCallInvoke
		o.a = c.ref(cc.Value)
		o.meth = cc.Method
		for _, a := range cc.Args {
			o.args = append(o.args, c.ref(a))
		}
		return
	}
	for _, a := range cc.Args {
		o.args = append(o.args, c.ref(a))
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		o.op = iCallBuiltin
		o.name = f.Name()
		if len(cc.Args) > 0 {
			o.rt = rtOf(cc.Args[0].Type())
		}
		if len(cc.Args) > 1 {
			o.rt2 = rtOf(cc.Args[1].Type())
		}
	case *ssa.Function:
		o.op = iCallStatic
		o.fn = c.p.fn(f)
	default:
		o.op = iCallClosure
		o.a = c.ref(cc.Value)
	}
}
