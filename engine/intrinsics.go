package main

import (
	"bytes"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Intr is an intrinsic. It returns false to have the function's own body run.
type Intr func(w *W, fn *Fn, args []Value) bool

const vPkg = modPath + "/zzverif/v."

var intrinsics map[string]Intr
var pureNames = map[string]bool{}

func init() {
	intrinsics = map[string]Intr{}
	for name, f := range hostFuncs {
		intrinsics[name] = host(f)
		pureNames[name] = true
	}
	addV()
	addStd()
	addReflect()
}

func lookupIntrinsic(x *Fn) {
	if f, ok := intrinsics[x.name]; ok {
		x.intr = f
		x.pure = pureNames[x.name]
		return
	}
	if x.f.Synthetic == "package initializer" && !x.repo {
		pkg := x.f.Pkg
		x.intr = func(w *W, fn *Fn, args []Value) bool {
			if w.initing == pkg {
				w.initing = nil
				return false
			}
			return true
		}
	}
}

// hostFuncs are pure library functions run natively on concrete arguments and
// tabulated over the domain when they depend on one symbolic variable.
var hostFuncs = map[string]any{
	"strings.IndexAny":           strings.IndexAny,
	"strings.LastIndexAny":       strings.LastIndexAny,
	"strings.ContainsRune":       strings.ContainsRune,
	"strings.ContainsAny":        strings.ContainsAny,
	"strings.Contains":           strings.Contains,
	"strings.Index":              strings.Index,
	"strings.LastIndex":          strings.LastIndex,
	"strings.IndexByte":          strings.IndexByte,
	"strings.LastIndexByte":      strings.LastIndexByte,
	"strings.IndexRune":          strings.IndexRune,
	"strings.ToLower":            strings.ToLower,
	"strings.ToUpper":            strings.ToUpper,
	"strings.Title":              strings.Title,
	"strings.TrimSpace":          strings.TrimSpace,
	"strings.Trim":               strings.Trim,
	"strings.TrimLeft":           strings.TrimLeft,
	"strings.TrimRight":          strings.TrimRight,
	"strings.TrimPrefix":         strings.TrimPrefix,
	"strings.TrimSuffix":         strings.TrimSuffix,
	"strings.HasPrefix":          strings.HasPrefix,
	"strings.HasSuffix":          strings.HasSuffix,
	"strings.Replace":            strings.Replace,
	"strings.ReplaceAll":         strings.ReplaceAll,
	"strings.Repeat":             strings.Repeat,
	"strings.EqualFold":          strings.EqualFold,
	"strings.Count":              strings.Count,
	"strings.Compare":            strings.Compare,
	"strings.Fields":             strings.Fields,
	"strings.Split":              strings.Split,
	"strings.SplitN":             strings.SplitN,
	"strings.SplitAfter":         strings.SplitAfter,
	"strings.Join":               strings.Join,
	"strings.ToValidUTF8":        strings.ToValidUTF8,
	"strconv.Itoa":               strconv.Itoa,
	"strconv.Quote":              strconv.Quote,
	"strconv.FormatInt":          strconv.FormatInt,
	"unicode.IsLetter":           unicode.IsLetter,
	"unicode.IsUpper":            unicode.IsUpper,
	"unicode.IsLower":            unicode.IsLower,
	"unicode.IsSpace":            unicode.IsSpace,
	"unicode.IsPunct":            unicode.IsPunct,
	"unicode.IsDigit":            unicode.IsDigit,
	"unicode.IsNumber":           unicode.IsNumber,
	"unicode.IsSymbol":           unicode.IsSymbol,
	"unicode.IsControl":          unicode.IsControl,
	"unicode.IsGraphic":          unicode.IsGraphic,
	"unicode.IsPrint":            unicode.IsPrint,
	"unicode.IsMark":             unicode.IsMark,
	"unicode.IsTitle":            unicode.IsTitle,
	"unicode.ToLower":            unicode.ToLower,
	"unicode.ToUpper":            unicode.ToUpper,
	"unicode.ToTitle":            unicode.ToTitle,
	"unicode.SimpleFold":         unicode.SimpleFold,
	"unicode/utf8.RuneLen":       utf8.RuneLen,
	"unicode/utf8.ValidString":   utf8.ValidString,
	"unicode/utf8.ValidRune":     utf8.ValidRune,
	"unicode/utf8.RuneStart":     utf8.RuneStart,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString,
	"internal/bytealg.IndexByteString": strings.IndexByte,
	"internal/bytealg.IndexString":     strings.Index,
	"internal/bytealg.CountString":     func(s string, c byte) int { return strings.Count(s, string([]byte{c})) },
	"internal/bytealg.LastIndexByteString": strings.LastIndexByte,
	"internal/stringslite.HasPrefix":   strings.HasPrefix,
	"internal/stringslite.HasSuffix":   strings.HasSuffix,
	"internal/stringslite.IndexByte":   strings.IndexByte,
	"internal/stringslite.Index":       strings.Index,
	"internal/stringslite.TrimPrefix":  strings.TrimPrefix,
	"internal/stringslite.TrimSuffix":  strings.TrimSuffix,
	"math.Abs":                         math.Abs,
}

// symVars collects the variables a value depends on.
func symVars(v Value, set map[*Var]bool) {
	switch x := v.x.(type) {
	case *Term:
		if x.v != nil {
			set[x.v] = true
		}
		for _, y := range x.vars {
			set[y] = true
		}
	case *SBuf:
		if x.sym != nil {
			o := v.soff()
			for i := o; i < o+v.slen(); i++ {
				if t := x.sym[i]; t != nil {
					symVars(Value{x: t}, set)
				}
			}
		}
	case *Slice:
		for i := 0; i < x.len; i++ {
			symVars(x.arr.e[x.off+i], set)
		}
	}
}

// toHost converts a value to a Go value of type t, with symbolic parts
// evaluated at index i of variable v's domain.
func toHost(x Value, t reflect.Type, v *Var, i int) reflect.Value {
	num := func(x Value) int64 {
		if s := symOf(x); s != nil {
			return at(s, i)
		}
		return x.n
	}
	switch t.Kind() {
	case reflect.String:
		b := []byte(x.gostr())
		if sb := x.sbuf(); sb != nil && sb.sym != nil {
			o := x.soff()
			for j := range b {
				if s := sb.sym[o+j]; s != nil {
					b[j] = byte(at(s, i))
				}
			}
		}
		return reflect.ValueOf(string(b)).Convert(t)
	case reflect.Bool:
		return reflect.ValueOf(num(x) != 0).Convert(t)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		r := reflect.New(t).Elem()
		r.SetInt(num(x))
		return r
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		r := reflect.New(t).Elem()
		r.SetUint(uint64(num(x)))
		return r
	case reflect.Float64:
		return reflect.ValueOf(math.Float64frombits(uint64(x.n)))
	case reflect.Slice:
		s, _ := x.x.(*Slice)
		if s == nil {
			return reflect.Zero(t)
		}
		r := reflect.MakeSlice(t, s.len, s.len)
		for j := 0; j < s.len; j++ {
			r.Index(j).Set(toHost(s.arr.e[s.off+j], t.Elem(), v, i))
		}
		return r
	}
	panic(unsupported("host argument type %s", t))
}

func fromHost(r reflect.Value) Value {
	switch r.Kind() {
	case reflect.String:
		return mkStr(r.String())
	case reflect.Bool:
		return boolVal(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Value{n: r.Int()}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return Value{n: int64(r.Uint())}
	case reflect.Float64:
		return Value{n: int64(math.Float64bits(r.Float()))}
	case reflect.Slice:
		if r.IsNil() {
			return Value{}
		}
		a := &Agg{e: make([]Value, r.Len())}
		for i := range a.e {
			a.e[i] = fromHost(r.Index(i))
		}
		return Value{x: &Slice{a, 0, len(a.e), len(a.e)}}
	}
	panic(unsupported("host result type %s", r.Type()))
}

func callHost(f reflect.Value, args []reflect.Value) []reflect.Value { return f.Call(args) }

func host(fn any) Intr {
	f := reflect.ValueOf(fn)
	ft := f.Type()
	return func(w *W, _ *Fn, args []Value) bool {
		if ft.NumIn() != len(args) {
			return false
		}
		for {
			set := map[*Var]bool{}
			for _, a := range args {
				symVars(a, set)
			}
			if len(set) == 0 {
				in := make([]reflect.Value, len(args))
				for i, a := range args {
					in[i] = toHost(a, ft.In(i), nil, 0)
				}
				for i, r := range callHost(f, in) {
					w.ret[i] = fromHost(r)
				}
				return true
			}
			if len(set) > 1 {
				return false // the library's own body handles it
			}
			var v *Var
			for x := range set {
				v = x
			}
			var outs [][]reflect.Value
			outs = make([][]reflect.Value, len(v.dom))
			for i := range v.dom {
				if !v.cur.has(i) {
					continue
				}
				in := make([]reflect.Value, len(args))
				for k, a := range args {
					in[k] = toHost(a, ft.In(k), v, i)
				}
				outs[i] = callHost(f, in)
			}
			retry := false
			for k := 0; k < ft.NumOut(); k++ {
				switch ft.Out(k).Kind() {
				case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint16, reflect.Uint32:
					tab := make([]int64, len(v.dom))
					for i := range tab {
						if outs[i] != nil {
							tab[i] = fromHost(outs[i][k]).n
						}
					}
					fillDead(v, tab)
					w.ret[k] = w.val(w.ts.tabTerm(v, tab, ft.Out(k).Kind() == reflect.Bool))
				case reflect.String:
					lens := make([]int64, len(v.dom))
					for i := range lens {
						if outs[i] != nil {
							lens[i] = int64(outs[i][k].Len())
						}
					}
					fillDead(v, lens)
					n := int(w.concInt(w.val(w.ts.tabTerm(v, lens, false))))
					bs := make([]Value, n)
					for j := range bs {
						tab := make([]int64, len(v.dom))
						for i := range tab {
							if v.cur.has(i) {
								tab[i] = int64(outs[i][k].String()[j])
							}
						}
						fillDead(v, tab)
						bs[j] = w.val(w.ts.tabTerm(v, tab, false))
					}
					w.ret[k] = bytesToStr(bs)
				default:
					// Fork on the variable and run concretely.
					w.concInt(Value{x: v.term})
					for i := range args {
						args[i] = w.refold(args[i])
					}
					retry = true
				}
				if retry {
					break
				}
			}
			if !retry {
				return true
			}
		}
	}
}

// refold re-simplifies a value after its variables' domains shrank.
func (w *W) refold(v Value) Value {
	switch x := v.x.(type) {
	case *Term:
		return w.val(x)
	case *SBuf:
		if v.conc() {
			return v
		}
		bs := make([]Value, v.slen())
		for i := range bs {
			bs[i] = w.refold(v.byteAt(i))
		}
		return bytesToStr(bs)
	}
	return v
}

// concStr forces a string to be concrete.
func (w *W) concStr(v Value) string {
	if v.conc() {
		return v.gostr()
	}
	b := make([]byte, v.slen())
	for i := range b {
		b[i] = byte(w.concInt(v.byteAt(i)))
	}
	return string(b)
}

func dedupInts(xs []int64) []int64 {
	seen := map[int64]bool{}
	var r []int64
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

func addV() {
	in := intrinsics
	in[vPkg+"Symbolic"] = func(w *W, _ *Fn, a []Value) bool { w.ret[0] = Value{n: 1}; return true }
	in[vPkg+"Pick"] = func(w *W, _ *Fn, a []Value) bool {
		n := w.concInt(a[1])
		dom := make([]int64, n)
		for i := range dom {
			dom[i] = int64(i)
		}
		if n == 1 {
			w.newVar(a[0].gostr(), dom, nil)
			w.ret[0] = Value{}
			return true
		}
		w.ret[0] = Value{x: w.newVar(a[0].gostr(), dom, nil).term}
		return true
	}
	in[vPkg+"Byte"] = func(w *W, _ *Fn, a []Value) bool {
		var dom []int64
		for _, b := range []byte(a[1].gostr()) {
			dom = append(dom, int64(b))
		}
		w.ret[0] = w.val(w.newVar(a[0].gostr(), dedupInts(dom), nil).term)
		return true
	}
	in[vPkg+"Rune"] = func(w *W, _ *Fn, a []Value) bool {
		var dom []int64
		for _, b := range a[1].gostr() {
			dom = append(dom, int64(b))
		}
		w.ret[0] = w.val(w.newVar(a[0].gostr(), dedupInts(dom), nil).term)
		return true
	}
	in[vPkg+"Str"] = func(w *W, _ *Fn, a []Value) bool {
		s, _ := a[1].x.(*Slice)
		if s == nil {
			panic(unsupported("Str of no options"))
		}
		opts := make([]string, s.len)
		dom := make([]int64, s.len)
		for i := range opts {
			opts[i] = s.arr.e[s.off+i].gostr()
			dom[i] = int64(i)
		}
		v := w.newVar(a[0].gostr(), dom, opts)
		w.ret[0] = w.strOf(v)
		return true
	}
	in[vPkg+"Sel"] = func(w *W, _ *Fn, a []Value) bool {
		s, _ := a[1].x.(*Slice)
		if s == nil {
			panic(unsupported("Sel of no options"))
		}
		t := symOf(a[0])
		if t == nil {
			w.inBounds(a[0], s.len)
			w.ret[0] = s.arr.e[s.off+int(a[0].n)]
			return true
		}
		if t.v == nil {
			k := w.concInt(a[0])
			w.ret[0] = s.arr.e[s.off+int(k)]
			return true
		}
		strs := make([]string, len(t.v.dom))
		for i := range strs {
			if j := t.tab[i]; t.v.cur.has(i) {
				if j < 0 || j >= int64(s.len) {
					panic(unsupported("Sel index out of range"))
				}
				strs[i] = s.arr.e[s.off+int(j)].gostr()
			}
		}
		w.ret[0] = w.strTab(t.v, strs)
		return true
	}
	in[vPkg+"Assume"] = func(w *W, _ *Fn, a []Value) bool { w.assume(a[0]); return true }
	in[vPkg+"Assert"] = func(w *W, _ *Fn, a []Value) bool {
		w.assert(a[0], a[1].gostr())
		return true
	}
	in[vPkg+"Fail"] = func(w *W, _ *Fn, a []Value) bool {
		w.assert(Value{}, w.concStr(a[0]))
		return true
	}
	in[vPkg+"Ctx"] = func(w *W, _ *Fn, a []Value) bool { return true }
	in[vPkg+"Reach"] = func(w *W, _ *Fn, a []Value) bool { w.reach[a[0].gostr()]++; return true }
	in[vPkg+"Out"] = func(w *W, _ *Fn, a []Value) bool {
		s := a[0]
		b := []byte(s.gostr())
		for i := range b {
			if t := symOf(s.byteAt(i)); t != nil {
				b[i] = byte(t.eval(map[int32]int64{}))
			}
		}
		w.outs = append(w.outs, string(b))
		return true
	}
	in[vPkg+"StrEq"] = func(w *W, _ *Fn, a []Value) bool { w.ret[0] = w.strEq(a[0], a[1]); return true }
	in[vPkg+"And"] = func(w *W, _ *Fn, a []Value) bool { w.ret[0] = w.and(a[0], a[1]); return true }
	in[vPkg+"Or"] = func(w *W, _ *Fn, a []Value) bool {
		w.ret[0] = w.not(w.and(w.not(a[0]), w.not(a[1])))
		return true
	}
	in[vPkg+"Param"] = func(w *W, _ *Fn, a []Value) bool {
		if x, ok := w.eng.params[a[0].gostr()]; ok {
			w.ret[0] = Value{n: int64(x)}
		} else {
			w.ret[0] = a[1]
		}
		return true
	}
	in[vPkg+"Force"] = func(w *W, _ *Fn, a []Value) bool { w.ret[0] = Value{n: w.concInt(a[0])}; return true }
	in[vPkg+"MapOrder"] = func(w *W, _ *Fn, a []Value) bool {
		w.mapOrder = int(w.concInt(a[0]))
		w.eng.usesOrder = true
		return true
	}
	in[vPkg+"Discard"] = func(w *W, _ *Fn, a []Value) bool { panic(pathEnd{"assumed"}) }
}

// strOf is the string picked by v: its length is decided by forking,
// its bytes stay symbolic.
func (w *W) strOf(v *Var) Value { return w.strTab(v, v.strs) }

// strTab is the string strs[i] where v is the i'th value of its domain.
func (w *W) strTab(v *Var, strs []string) Value {
	lens := make([]int64, len(v.dom))
	for i := range lens {
		lens[i] = int64(len(strs[i]))
	}
	fillDead(v, lens)
	n := int(w.concInt(w.val(w.ts.tabTerm(v, lens, false))))
	bs := make([]Value, n)
	for j := range bs {
		tab := make([]int64, len(v.dom))
		for i := range tab {
			if v.cur.has(i) {
				tab[i] = int64(strs[i][j])
			}
		}
		fillDead(v, tab)
		bs[j] = w.val(w.ts.tabTerm(v, tab, false))
	}
	return bytesToStr(bs)
}

func (w *W) mkErr(msg Value) Value {
	c := new(Value)
	*c = Value{x: &Agg{e: []Value{msg}}}
	return Value{x: &Iface{t: w.eng.prog.errStr, v: Value{x: c}}}
}

// builderStr returns the cell of a strings.Builder holding its text so far.
func (w *W) builderCell(p Value) *Value {
	c := w.deref(p)
	return &c.x.(*Agg).e[1]
}

func addStd() {
	in := intrinsics
	in["(*strings.Builder).WriteString"] = func(w *W, _ *Fn, a []Value) bool {
		c := w.builderCell(a[0])
		*c = concat(*c, a[1])
		w.ret[0] = Value{n: int64(a[1].slen())}
		w.ret[1] = Value{}
		return true
	}
	in["(*strings.Builder).WriteByte"] = func(w *W, _ *Fn, a []Value) bool {
		c := w.builderCell(a[0])
		*c = concat(*c, bytesToStr([]Value{a[1]}))
		w.ret[0] = Value{}
		return true
	}
	in["(*strings.Builder).WriteRune"] = func(w *W, _ *Fn, a []Value) bool {
		c := w.builderCell(a[0])
		s := w.encodeRune(a[1])
		*c = concat(*c, s)
		w.ret[0] = Value{n: int64(s.slen())}
		w.ret[1] = Value{}
		return true
	}
	in["(*strings.Builder).Write"] = func(w *W, _ *Fn, a []Value) bool {
		c := w.builderCell(a[0])
		n := 0
		if s, _ := a[1].x.(*Slice); s != nil {
			*c = concat(*c, bytesToStr(s.arr.e[s.off:s.off+s.len]))
			n = s.len
		}
		w.ret[0] = Value{n: int64(n)}
		w.ret[1] = Value{}
		return true
	}
	in["(*strings.Builder).String"] = func(w *W, _ *Fn, a []Value) bool { w.ret[0] = *w.builderCell(a[0]); return true }
	in["(*strings.Builder).Len"] = func(w *W, _ *Fn, a []Value) bool {
		w.ret[0] = Value{n: int64(w.builderCell(a[0]).slen())}
		return true
	}
	in["(*strings.Builder).Cap"] = in["(*strings.Builder).Len"]
	in["(*strings.Builder).Reset"] = func(w *W, _ *Fn, a []Value) bool { *w.builderCell(a[0]) = Value{}; return true }
	in["(*strings.Builder).Grow"] = func(w *W, _ *Fn, a []Value) bool { return true }

	dec := func(w *W, s Value) bool {
		if s.slen() == 0 {
			w.ret[0], w.ret[1] = Value{n: utf8.RuneError}, Value{}
			return true
		}
		r, n := w.decodeRune(s)
		w.ret[0], w.ret[1] = r, Value{n: int64(n)}
		return true
	}
	in["unicode/utf8.DecodeRuneInString"] = func(w *W, _ *Fn, a []Value) bool { return dec(w, a[0]) }
	in["unicode/utf8.DecodeRune"] = func(w *W, _ *Fn, a []Value) bool {
		s, _ := a[0].x.(*Slice)
		if s == nil {
			return dec(w, Value{})
		}
		return dec(w, bytesToStr(s.arr.e[s.off:s.off+s.len]))
	}
	in["unicode/utf8.EncodeRune"] = func(w *W, _ *Fn, a []Value) bool {
		e := w.encodeRune(a[1])
		s, _ := a[0].x.(*Slice)
		if s == nil || s.len < e.slen() {
			w.rtPanic("index out of range")
		}
		for i := 0; i < e.slen(); i++ {
			s.arr.e[s.off+i] = e.byteAt(i)
		}
		w.ret[0] = Value{n: int64(e.slen())}
		return true
	}
	in["unicode/utf8.AppendRune"] = func(w *W, fn *Fn, a []Value) bool {
		e := w.encodeRune(a[1])
		var bs []Value
		for i := 0; i < e.slen(); i++ {
			bs = append(bs, e.byteAt(i))
		}
		w.ret[0] = w.appendVals(a[0], bs, rtOf(types.Typ[types.Byte]))
		return true
	}
	in["strings.Clone"] = func(w *W, _ *Fn, a []Value) bool { w.ret[0] = a[0]; return true }
	in["sort.Ints"] = func(w *W, _ *Fn, a []Value) bool {
		s, _ := a[0].x.(*Slice)
		if s == nil {
			return true
		}
		e := s.arr.e[s.off : s.off+s.len]
		for i := range e {
			if symOf(e[i]) != nil {
				return false
			}
		}
		sort.SliceStable(e, func(i, j int) bool { return e[i].n < e[j].n })
		return true
	}
	in["sort.Strings"] = func(w *W, _ *Fn, a []Value) bool {
		s, _ := a[0].x.(*Slice)
		if s == nil {
			return true
		}
		e := s.arr.e[s.off : s.off+s.len]
		for i := 1; i < len(e); i++ {
			for j := i; j > 0 && w.truth(w.cmpStr(token.LSS, e[j], e[j-1])); j-- {
				e[j], e[j-1] = e[j-1], e[j]
			}
		}
		return true
	}
	sortSlice := func(w *W, _ *Fn, a []Value) bool {
		i, _ := a[0].x.(*Iface)
		if i == nil {
			return true
		}
		s, _ := i.v.x.(*Slice)
		if s == nil {
			return true
		}
		c, _ := a[1].x.(*Closure)
		e := s.arr.e[s.off : s.off+s.len]
		for i := 1; i < len(e); i++ {
			for j := i; j > 0; j-- {
				w.callFn(c.fn, []Value{{n: int64(j)}, {n: int64(j - 1)}}, c.free)
				if !w.truth(w.ret[0]) {
					break
				}
				x, y := copyAgg(e[j]), copyAgg(e[j-1])
				storeTo(&e[j], y)
				storeTo(&e[j-1], x)
			}
		}
		return true
	}
	in["sort.Slice"] = sortSlice
	in["sort.SliceStable"] = sortSlice

	in["fmt.Sprintf"] = func(w *W, _ *Fn, a []Value) bool { w.ret[0] = w.format(a[0], a[1]); return true }
	in["fmt.Errorf"] = func(w *W, _ *Fn, a []Value) bool { w.ret[0] = w.mkErr(w.format(a[0], a[1])); return true }
	in["fmt.Sprint"] = func(w *W, _ *Fn, a []Value) bool { w.ret[0] = w.sprint(a[0], false); return true }
	in["fmt.Sprintln"] = func(w *W, _ *Fn, a []Value) bool { w.ret[0] = w.sprint(a[0], true); return true }
	in["fmt.Println"] = func(w *W, _ *Fn, a []Value) bool { w.ret[0], w.ret[1] = Value{}, Value{}; return true }
	in["fmt.Printf"] = in["fmt.Println"]
	in["fmt.Print"] = in["fmt.Println"]
	in["fmt.Fprintf"] = func(w *W, _ *Fn, a []Value) bool { w.fwrite(a[0], w.format(a[1], a[2])); return true }
	in["fmt.Fprint"] = func(w *W, _ *Fn, a []Value) bool { w.fwrite(a[0], w.sprint(a[1], false)); return true }
	in["fmt.Fprintln"] = func(w *W, _ *Fn, a []Value) bool { w.fwrite(a[0], w.sprint(a[1], true)); return true }

	nop := func(w *W, _ *Fn, a []Value) bool { return true }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.GC", "runtime.Gosched"} {
		in[n] = nop
	}
	in["(*sync.Once).Do"] = func(w *W, _ *Fn, a []Value) bool {
		if w.onces == nil {
			w.onces = map[any]bool{}
		}
		if w.onces[a[0].x] {
			return true
		}
		w.onces[a[0].x] = true
		c, _ := a[1].x.(*Closure)
		w.callFn(c.fn, nil, c.free)
		return true
	}
	in["internal/bytealg.Equal"] = func(w *W, _ *Fn, a []Value) bool {
		w.ret[0] = w.strEq(sliceStr(a[0]), sliceStr(a[1]))
		return true
	}
	in["bytes.Equal"] = in["internal/bytealg.Equal"]
	in["internal/bytealg.IndexByte"] = func(w *W, _ *Fn, a []Value) bool {
		s := sliceStr(a[0])
		for i := 0; i < s.slen(); i++ {
			if w.truth(w.cmpInt(token.EQL, s.byteAt(i), a[1], false)) {
				w.ret[0] = Value{n: int64(i)}
				return true
			}
		}
		w.ret[0] = Value{n: -1}
		return true
	}
	in["internal/bytealg.MakeNoZero"] = func(w *W, _ *Fn, a []Value) bool {
		n := int(w.concInt(a[0]))
		w.ret[0] = Value{x: &Slice{arr: &Agg{e: make([]Value, n)}, len: n, cap: n}}
		return true
	}
	// Multi-variable versions of byte searches on strings.
	byteIdx := func(w *W, s, c Value) Value {
		for i := 0; i < s.slen(); i++ {
			if w.truth(w.cmpInt(token.EQL, s.byteAt(i), c, false)) {
				return Value{n: int64(i)}
			}
		}
		return Value{n: -1}
	}
	for _, n := range []string{"internal/bytealg.IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte"} {
		h := in[n]
		in[n] = func(w *W, f *Fn, a []Value) bool {
			if h(w, f, a) {
				return true
			}
			w.ret[0] = byteIdx(w, a[0], a[1])
			return true
		}
	}
	for _, n := range []string{"strings.HasPrefix", "internal/stringslite.HasPrefix"} {
		h := in[n]
		in[n] = func(w *W, f *Fn, a []Value) bool {
			if h(w, f, a) {
				return true
			}
			if a[1].slen() > a[0].slen() {
				w.ret[0] = Value{}
				return true
			}
			w.ret[0] = w.cmpStr(token.EQL, a[0].substr(0, a[1].slen()), a[1])
			return true
		}
	}
	idx := func(w *W, s, t Value) Value {
		for i := 0; i+t.slen() <= s.slen(); i++ {
			if w.truth(w.cmpStr(token.EQL, s.substr(i, i+t.slen()), t)) {
				return Value{n: int64(i)}
			}
		}
		return Value{n: -1}
	}
	for _, n := range []string{"internal/bytealg.IndexString", "strings.Index", "internal/stringslite.Index"} {
		h := in[n]
		in[n] = func(w *W, f *Fn, a []Value) bool {
			if h(w, f, a) {
				return true
			}
			w.ret[0] = idx(w, a[0], a[1])
			return true
		}
	}
	// Rune-wise maps over strings whose runes come from several variables.
	runeMap := func(name string, f func(rune) rune) {
		h := in[name]
		tab := host(f)
		in[name] = func(w *W, fn *Fn, a []Value) bool {
			if h(w, fn, a) {
				return true
			}
			var out Value
			s := a[0]
			for i := 0; i < s.slen(); {
				r, n := w.decodeRune(s.substr(i, s.slen()))
				i += n
				tab(w, nil, []Value{r})
				out = concat(out, w.encodeRune(w.ret[0]))
			}
			w.ret[0] = out
			return true
		}
	}
	runeMap("strings.ToLower", unicode.ToLower)
	runeMap("strings.ToUpper", unicode.ToUpper)
	// IndexAny and ContainsRune decide rune by rune.
	runeIn := host(func(s string, r rune) bool { return strings.ContainsRune(s, r) })
	{
		h := in["strings.IndexAny"]
		in["strings.IndexAny"] = func(w *W, fn *Fn, a []Value) bool {
			if h(w, fn, a) {
				return true
			}
			s, set := a[0], a[1]
			if !set.conc() {
				return false
			}
			for i := 0; i < s.slen(); {
				r, n := w.decodeRune(s.substr(i, s.slen()))
				runeIn(w, nil, []Value{set, r})
				if w.truth(w.ret[0]) {
					w.ret[0] = Value{n: int64(i)}
					return true
				}
				i += n
			}
			w.ret[0] = Value{n: -1}
			return true
		}
	}
	{
		h := in["strings.TrimSpace"]
		isSp := host(unicode.IsSpace)
		in["strings.TrimSpace"] = func(w *W, fn *Fn, a []Value) bool {
			if h(w, fn, a) {
				return true
			}
			s := a[0]
			lo, hi := 0, 0
			started := false
			for i := 0; i < s.slen(); {
				r, n := w.decodeRune(s.substr(i, s.slen()))
				isSp(w, nil, []Value{r})
				if !w.truth(w.ret[0]) {
					if !started {
						started = true
						lo = i
					}
					hi = i + n
				}
				i += n
			}
			w.ret[0] = s.substr(lo, hi)
			return true
		}
	}
	{
		h := in["strings.Join"]
		in["strings.Join"] = func(w *W, fn *Fn, a []Value) bool {
			if s, _ := a[0].x.(*Slice); s != nil {
				var out Value
				for i := 0; i < s.len; i++ {
					if i > 0 {
						out = concat(out, a[1])
					}
					out = concat(out, s.arr.e[s.off+i])
				}
				w.ret[0] = out
				return true
			}
			return h(w, fn, a)
		}
	}
	// The HTTP client is that of the harness.
	in["net/http.Post"] = func(w *W, fn *Fn, a []Value) bool {
		p := w.eng.prog.prog.ImportedPackage(modPath + "/zzverif/netshim")
		if p == nil {
			panic(unsupported("HTTP client"))
		}
		w.callFn(w.eng.prog.fn(p.Func("Post")), a, nil)
		return true
	}
	in["(*net/http.Client).Post"] = func(w *W, fn *Fn, a []Value) bool { return in["net/http.Post"](w, fn, a[1:]) }
	in["os.Exit"] = func(w *W, _ *Fn, a []Value) bool { panic(pathEnd{"exit"}) }
	_ = bytes.Equal
}

func sliceStr(v Value) Value {
	s, _ := v.x.(*Slice)
	if s == nil {
		return Value{}
	}
	return bytesToStr(s.arr.e[s.off : s.off+s.len])
}

// ---- formatting ----

func (w *W) fwrite(dst, s Value) {
	i, _ := dst.x.(*Iface)
	if i == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	n := s.slen()
	sf := w.eng.prog.prog.LookupMethod(i.t.t, nil, "Write")
	if sf == nil {
		panic(unsupported("Fprintf to %s", i.t.str))
	}
	bs := make([]Value, n)
	for j := range bs {
		bs[j] = s.byteAt(j)
	}
	w.callFn(w.eng.prog.fn(sf), []Value{i.v, {x: &Slice{arr: &Agg{e: bs}, len: n, cap: n}}}, nil)
}

func (w *W) sprint(args Value, ln bool) Value {
	s, _ := args.x.(*Slice)
	var out Value
	if s != nil {
		prevStr := true
		for i := 0; i < s.len; i++ {
			e := s.arr.e[s.off+i]
			it, _ := e.x.(*Iface)
			isStr := it != nil && it.t.kind == KString
			if i > 0 && (ln || (!isStr && !prevStr)) {
				out = concat(out, mkStr(" "))
			}
			prevStr = isStr
			out = concat(out, w.fmtVal('v', "", e))
		}
	}
	if ln {
		out = concat(out, mkStr("\n"))
	}
	return out
}

func (w *W) format(f, args Value) Value {
	fs := w.concStr(f)
	s, _ := args.x.(*Slice)
	next := 0
	var out Value
	lit := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			continue
		}
		out = concat(out, mkStr(fs[lit:i]))
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.*[]", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			out = concat(out, mkStr("%!(NOVERB)"))
			lit = j
			break
		}
		flags, verb := fs[i+1:j], fs[j]
		i = j
		lit = j + 1
		if verb == '%' {
			out = concat(out, mkStr("%"))
			continue
		}
		if s == nil || next >= s.len {
			out = concat(out, mkStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := s.arr.e[s.off+next]
		next++
		out = concat(out, w.fmtVal(verb, flags, a))
	}
	out = concat(out, mkStr(fs[lit:]))
	return out
}

func (w *W) fmtVal(verb byte, flags string, a Value) Value {
	i, _ := a.x.(*Iface)
	if verb == 'T' {
		if i == nil {
			return mkStr("<nil>")
		}
		return mkStr(i.t.str)
	}
	if i == nil {
		if verb == 'v' {
			return mkStr("<nil>")
		}
		return mkStr("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			sf := lookupMethodSafe(w.eng.prog.prog, i.t.t, m)
			if sf != nil && sf.Signature.Params().Len() == 0 && sf.Signature.Results().Len() == 1 && rtOf(sf.Signature.Results().At(0).Type()).kind == KString {
				if i.t.kind == KPtr && i.v.x == nil {
					return mkStr("<nil>")
				}
				s := w.callRet(w.eng.prog.fn(sf), []Value{i.v}, nil)
				if verb == 'q' {
					return mkStr(strconv.Quote(w.concStr(s)))
				}
				return w.pad(flags, s)
			}
		}
	}
	switch i.t.kind {
	case KString:
		if verb == 'q' {
			return mkStr(strconv.Quote(w.concStr(i.v)))
		}
		if verb == 'x' {
			return mkStr(fmt.Sprintf("%"+flags+"x", w.concStr(i.v)))
		}
		return w.pad(flags, i.v)
	case KInt:
		if verb == 'c' {
			return w.encodeRune(i.v)
		}
		x := w.concInt(i.v)
		if i.t.signed {
			return mkStr(fmt.Sprintf("%"+flags+string(verb), x))
		}
		return mkStr(fmt.Sprintf("%"+flags+string(verb), uint64(x)))
	case KBool:
		return mkStr(fmt.Sprint(w.concInt(i.v) != 0))
	case KFloat:
		return mkStr(fmt.Sprintf("%"+flags+string(verb), math.Float64frombits(uint64(i.v.n))))
	case KSlice:
		if verb == 's' && i.t.elem.kind == KInt && i.t.elem.bits == 8 {
			return sliceStr(i.v)
		}
		s, _ := i.v.x.(*Slice)
		out := mkStr("[")
		if s != nil {
			for j := 0; j < s.len; j++ {
				if j > 0 {
					out = concat(out, mkStr(" "))
				}
				e := s.arr.e[s.off+j]
				if i.t.elem.kind != KIface {
					e = Value{x: &Iface{t: i.t.elem, v: e}}
				}
				out = concat(out, w.fmtVal(verb, flags, e))
			}
		}
		return concat(out, mkStr("]"))
	}
	return mkStr("%" + string(verb) + "(" + i.t.str + ")")
}

func (w *W) pad(flags string, s Value) Value {
	if flags == "" || flags == "+" || flags == "#" {
		return s
	}
	return mkStr(fmt.Sprintf("%"+flags+"s", w.concStr(s)))
}

func lookupMethodSafe(p *ssa.Program, t types.Type, name string) *ssa.Function {
	ms := p.MethodSets.MethodSet(t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return p.MethodValue(sel)
}

// ---- reflect ----

// RV is a reflect.Value: its type, its value, and its address if it has one.
type RV struct {
	t    *RT
	v    Value
	addr *Value
}

func rvOf(v Value) *RV {
	r, _ := v.x.(*RV)
	return r
}

var reflectKind = map[types.BasicKind]reflect.Kind{
	types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
	types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
	types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer,
}

func rkind(r *RT) reflect.Kind {
	switch r.kind {
	case KPtr:
		if b, ok := r.t.Underlying().(*types.Basic); ok {
			return reflectKind[b.Kind()]
		}
		return reflect.Ptr
	case KSlice:
		return reflect.Slice
	case KMap:
		return reflect.Map
	case KIface:
		return reflect.Interface
	case KFunc:
		return reflect.Func
	case KStruct:
		return reflect.Struct
	case KArray:
		return reflect.Array
	case KChan:
		return reflect.Chan
	}
	if b, ok := r.t.Underlying().(*types.Basic); ok {
		return reflectKind[b.Kind()]
	}
	return reflect.Invalid
}

func addReflect() {
	in := intrinsics
	set := func(name string, f func(w *W, a []Value) Value) {
		in[name] = func(w *W, _ *Fn, a []Value) bool {
			w.ret[0] = f(w, a)
			return true
		}
	}
	rpanic := func(w *W, m string) {
		w.rtPanic("reflect: call of %s on zero Value", m)
	}
	set("reflect.ValueOf", func(w *W, a []Value) Value {
		i, _ := a[0].x.(*Iface)
		if i == nil {
			return Value{x: (*RV)(nil)}
		}
		return Value{x: &RV{t: i.t, v: i.v}}
	})
	set("(reflect.Value).IsValid", func(w *W, a []Value) Value { return boolVal(rvOf(a[0]) != nil) })
	set("(reflect.Value).Kind", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if r == nil {
			return Value{}
		}
		return Value{n: int64(rkind(r.t))}
	})
	get := func(r *RV) Value {
		if r.addr != nil {
			return *r.addr
		}
		return r.v
	}
	set("(reflect.Value).IsNil", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if r == nil {
			rpanic(w, "IsNil")
		}
		switch r.t.kind {
		case KPtr, KSlice, KMap, KIface, KFunc, KChan:
			return boolVal(get(r).x == nil)
		}
		w.rtPanic("reflect: call of reflect.Value.IsNil on %s Value", r.t.str)
		return Value{}
	})
	set("(reflect.Value).IsZero", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if r == nil {
			rpanic(w, "IsZero")
		}
		return w.deepEq(get(r), zero(r.t), r.t, 0)
	})
	set("(reflect.Value).Elem", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if r == nil {
			rpanic(w, "Elem")
		}
		v := get(r)
		switch r.t.kind {
		case KPtr:
			if v.x == nil {
				return Value{x: (*RV)(nil)}
			}
			return Value{x: &RV{t: r.t.elem, addr: w.deref(v)}}
		case KIface:
			i, _ := v.x.(*Iface)
			if i == nil {
				return Value{x: (*RV)(nil)}
			}
			return Value{x: &RV{t: i.t, v: i.v}}
		}
		w.rtPanic("reflect: call of reflect.Value.Elem on %s Value", r.t.str)
		return Value{}
	})
	set("reflect.Indirect", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if r == nil || r.t.kind != KPtr {
			return a[0]
		}
		v := get(r)
		if v.x == nil {
			return Value{x: (*RV)(nil)}
		}
		return Value{x: &RV{t: r.t.elem, addr: w.deref(v)}}
	})
	set("(reflect.Value).Interface", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if r == nil {
			rpanic(w, "Interface")
		}
		v := copyAgg(get(r))
		if r.t.kind == KIface {
			return v
		}
		return Value{x: &Iface{t: r.t, v: v}}
	})
	set("(reflect.Value).NumField", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if r == nil || r.t.kind != KStruct {
			w.rtPanic("reflect: call of NumField on bad Value")
		}
		return Value{n: int64(len(r.t.fields))}
	})
	field := func(w *W, r *RV, i int) Value {
		if r.addr != nil {
			return Value{x: &RV{t: r.t.fields[i], addr: &r.addr.x.(*Agg).e[i]}}
		}
		return Value{x: &RV{t: r.t.fields[i], v: r.v.x.(*Agg).e[i]}}
	}
	set("(reflect.Value).Field", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if r == nil || r.t.kind != KStruct {
			w.rtPanic("reflect: call of Field on bad Value")
		}
		i := int(w.concInt(a[1]))
		if i < 0 || i >= len(r.t.fields) {
			w.rtPanic("reflect: Field index out of range")
		}
		return field(w, r, i)
	})
	set("(reflect.Value).FieldByName", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if r == nil || r.t.kind != KStruct {
			w.rtPanic("reflect: call of FieldByName on bad Value")
		}
		name := w.concStr(a[1])
		st := r.t.t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return field(w, r, i)
			}
		}
		return Value{x: (*RV)(nil)}
	})
	set("(reflect.Value).Set", func(w *W, a []Value) Value {
		r, s := rvOf(a[0]), rvOf(a[1])
		if r == nil || r.addr == nil {
			w.rtPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		v := get(s)
		if r.t.kind == KIface && s.t.kind != KIface {
			v = Value{x: &Iface{t: s.t, v: v}}
		}
		storeTo(r.addr, v)
		return Value{}
	})
	set("(reflect.Value).SetString", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if r == nil || r.addr == nil {
			w.rtPanic("reflect: set of unaddressable value")
		}
		*r.addr = a[1]
		return Value{}
	})
	in["(reflect.Value).SetInt"] = in["(reflect.Value).SetString"]
	in["(reflect.Value).SetBool"] = in["(reflect.Value).SetString"]
	set("(reflect.Value).SetZero", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if r == nil || r.addr == nil {
			w.rtPanic("reflect: set of unaddressable value")
		}
		storeTo(r.addr, zero(r.t))
		return Value{}
	})
	set("(reflect.Value).CanSet", func(w *W, a []Value) Value { r := rvOf(a[0]); return boolVal(r != nil && r.addr != nil) })
	set("(reflect.Value).CanAddr", func(w *W, a []Value) Value { r := rvOf(a[0]); return boolVal(r != nil && r.addr != nil) })
	set("(reflect.Value).CanInterface", func(w *W, a []Value) Value { return boolVal(rvOf(a[0]) != nil) })
	set("(reflect.Value).Addr", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if r == nil || r.addr == nil {
			w.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return Value{x: &RV{t: rtOf(types.NewPointer(r.t.t)), v: Value{x: r.addr}}}
	})
	set("(reflect.Value).Len", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if r == nil {
			rpanic(w, "Len")
		}
		v := get(r)
		switch r.t.kind {
		case KSlice:
			if s, _ := v.x.(*Slice); s != nil {
				return Value{n: int64(s.len)}
			}
			return Value{}
		case KString:
			return Value{n: int64(v.slen())}
		case KArray:
			return Value{n: int64(r.t.n)}
		case KMap:
			if m, _ := v.x.(*Map); m != nil {
				return Value{n: int64(m.n)}
			}
			return Value{}
		}
		w.rtPanic("reflect: call of Len on bad Value")
		return Value{}
	})
	set("(reflect.Value).Index", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		i := int(w.concInt(a[1]))
		v := get(r)
		switch r.t.kind {
		case KSlice:
			s, _ := v.x.(*Slice)
			if s == nil || i < 0 || i >= s.len {
				w.rtPanic("reflect: slice index out of range")
			}
			return Value{x: &RV{t: r.t.elem, addr: &s.arr.e[s.off+i]}}
		case KArray:
			ag := v.x.(*Agg)
			if i < 0 || i >= len(ag.e) {
				w.rtPanic("reflect: array index out of range")
			}
			return Value{x: &RV{t: r.t.elem, addr: &ag.e[i]}}
		}
		panic(unsupported("reflect Index on %s", r.t.str))
	})
	set("(reflect.Value).String", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if r == nil {
			return mkStr("<invalid Value>")
		}
		if r.t.kind != KString {
			return mkStr("<" + r.t.str + " Value>")
		}
		return get(r)
	})
	set("(reflect.Value).Int", func(w *W, a []Value) Value { return get(rvOf(a[0])) })
	set("(reflect.Value).Uint", func(w *W, a []Value) Value { return get(rvOf(a[0])) })
	set("(reflect.Value).Bool", func(w *W, a []Value) Value { return get(rvOf(a[0])) })
	set("(reflect.Value).Pointer", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if get(r).x == nil {
			return Value{}
		}
		return Value{n: 1}
	})
	mkType := func(w *W, t *RT) Value {
		return Value{x: &Iface{t: rtypeRT(w), v: Value{x: t}}}
	}
	set("(reflect.Value).Type", func(w *W, a []Value) Value {
		r := rvOf(a[0])
		if r == nil {
			rpanic(w, "Type")
		}
		return mkType(w, r.t)
	})
	set("reflect.TypeOf", func(w *W, a []Value) Value {
		i, _ := a[0].x.(*Iface)
		if i == nil {
			return Value{}
		}
		return mkType(w, i.t)
	})
	ty := func(v Value) *RT { return v.x.(*RT) }
	set("(*reflect.rtype).Kind", func(w *W, a []Value) Value { return Value{n: int64(rkind(ty(a[0])))} })
	set("(*reflect.rtype).String", func(w *W, a []Value) Value { return mkStr(ty(a[0]).str) })
	set("(*reflect.rtype).Name", func(w *W, a []Value) Value {
		if n, ok := ty(a[0]).t.(*types.Named); ok {
			return mkStr(n.Obj().Name())
		}
		if b, ok := ty(a[0]).t.(*types.Basic); ok {
			return mkStr(b.Name())
		}
		return Value{}
	})
	set("(*reflect.rtype).Elem", func(w *W, a []Value) Value { return mkType(w, ty(a[0]).elem) })
	set("(*reflect.rtype).NumField", func(w *W, a []Value) Value { return Value{n: int64(len(ty(a[0]).fields))} })
	in["(*reflect.rtype).Field"] = func(w *W, fn *Fn, a []Value) bool {
		t := ty(a[0])
		st := t.t.Underlying().(*types.Struct)
		i := int(w.concInt(a[1]))
		if i < 0 || i >= st.NumFields() {
			w.rtPanic("reflect: Field index out of bounds")
		}
		f := st.Field(i)
		ft := fn.resRT[0]
		z := copyAgg(zero(ft))
		ag := z.x.(*Agg)
		fst := ft.t.Underlying().(*types.Struct)
		for j := 0; j < fst.NumFields(); j++ {
			switch fst.Field(j).Name() {
			case "Name":
				ag.e[j] = mkStr(f.Name())
			case "PkgPath":
				if !f.Exported() && f.Pkg() != nil {
					ag.e[j] = mkStr(f.Pkg().Path())
				}
			case "Type":
				ag.e[j] = mkType(w, t.fields[i])
			case "Tag":
				ag.e[j] = mkStr(st.Tag(i))
			case "Anonymous":
				ag.e[j] = boolVal(f.Embedded())
			}
		}
		w.ret[0] = z
		return true
	}
	set("reflect.Zero", func(w *W, a []Value) Value {
		t := a[0].x.(*Iface).v.x.(*RT)
		return Value{x: &RV{t: t, v: zero(t)}}
	})
	set("reflect.New", func(w *W, a []Value) Value {
		t := a[0].x.(*Iface).v.x.(*RT)
		c := new(Value)
		*c = zero(t)
		return Value{x: &RV{t: rtOf(types.NewPointer(t.t)), v: Value{x: c}}}
	})
	set("reflect.DeepEqual", func(w *W, a []Value) Value {
		x, _ := a[0].x.(*Iface)
		y, _ := a[1].x.(*Iface)
		if x == nil || y == nil {
			return boolVal(x == nil && y == nil)
		}
		if x.t != y.t {
			return Value{}
		}
		return w.deepEq(x.v, y.v, x.t, 0)
	})
}

func rtypeRT(w *W) *RT {
	p := w.eng.prog.prog.ImportedPackage("reflect")
	return rtOf(types.NewPointer(p.Type("rtype").Type()))
}

func (w *W) deepEq(a, b Value, t *RT, depth int) Value {
	if depth > 200 {
		panic(unsupported("DeepEqual depth"))
	}
	switch t.kind {
	case KPtr:
		if a.x == b.x {
			return Value{n: 1}
		}
		if a.x == nil || b.x == nil {
			return Value{}
		}
		return w.deepEq(*w.deref(a), *w.deref(b), t.elem, depth+1)
	case KIface:
		x, _ := a.x.(*Iface)
		y, _ := b.x.(*Iface)
		if x == nil || y == nil {
			return boolVal(x == nil && y == nil)
		}
		if x.t != y.t {
			return Value{}
		}
		return w.deepEq(x.v, y.v, x.t, depth+1)
	case KSlice:
		x, _ := a.x.(*Slice)
		y, _ := b.x.(*Slice)
		if x == nil || y == nil {
			return boolVal(x == nil && y == nil)
		}
		if x.len != y.len {
			return Value{}
		}
		r := Value{n: 1}
		for i := 0; i < x.len; i++ {
			r = w.and(r, w.deepEq(x.arr.e[x.off+i], y.arr.e[y.off+i], t.elem, depth+1))
			if symOf(r) == nil && r.n == 0 {
				return r
			}
		}
		return r
	case KStruct, KArray:
		x, y := a.x.(*Agg), b.x.(*Agg)
		r := Value{n: 1}
		for i := range x.e {
			ft := t.elem
			if t.kind == KStruct {
				ft = t.fields[i]
			}
			r = w.and(r, w.deepEq(x.e[i], y.e[i], ft, depth+1))
			if symOf(r) == nil && r.n == 0 {
				return r
			}
		}
		return r
	case KString:
		return w.strEq(a, b)
	case KMap:
		x, _ := a.x.(*Map)
		y, _ := b.x.(*Map)
		if x == nil || y == nil {
			return boolVal(x == nil && y == nil)
		}
		if x.n != y.n {
			return Value{}
		}
		r := Value{n: 1}
		for _, e := range x.ents {
			if !e.live {
				continue
			}
			j := w.mapFind(y, e.k, t)
			if j < 0 {
				return Value{}
			}
			r = w.and(r, w.deepEq(e.v, y.ents[j].v, t.elem, depth+1))
		}
		return r
	case KFunc:
		return boolVal(a.x == nil && b.x == nil)
	}
	return w.eq(a, b, t)
}

func implementsIface(t, iface *RT) bool {
	it, ok := iface.t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	return types.Implements(t.t, it)
}
