package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Value is a Go value of the program under analysis.
//
//	bool, integers: n, or x=*Term when symbolic (n unused)
//	floats: n = bits
//	string: n = off<<32|len, x = *SBuf (nil for "")
//	pointer: x = *Value, *SymPtr, or nil
//	slice: x = *Slice or nil
//	struct, array: x = *Agg
//	map: x = *Map or nil; func: x = *Closure or nil; interface: x = *Iface or nil
type Value struct {
	n int64
	x any
}

// SBuf is an immutable byte buffer; sym[i], if non-nil, is the symbolic i'th byte.
type SBuf struct {
	s   string
	sym []*Term
}

// Agg is a struct or array in memory (or as an immutable register value).
type Agg struct{ e []Value }

// Slice is a slice header.
type Slice struct {
	arr           *Agg
	off, len, cap int
}

// SymPtr points to an element of an array at a symbolic index.
type SymPtr struct {
	arr *Agg
	off int
	len int
	idx *Term
}

// Iface is a non-nil interface value.
type Iface struct {
	t *RT
	v Value
}

// Closure is a function value.
type Closure struct {
	fn   *Fn
	free []Value
}

// Map is a map value.
type Map struct {
	idx  map[any]int
	ents []ment
	n    int
	sym  bool // some key is symbolic: look up linearly
}

type ment struct {
	k, v Value
	live bool
}

// Kind classifies types.
type Kind uint8

// Kinds.
const (
	KBool Kind = iota
	KInt
	KFloat
	KString
	KPtr
	KSlice
	KMap
	KIface
	KFunc
	KStruct
	KArray
	KChan
	KTuple
	KOther
)

// RT is a canonical type.
type RT struct {
	t      types.Type
	id     int
	kind   Kind
	bits   uint
	signed bool
	elem   *RT
	key    *RT
	n      int
	fields []*RT
	str    string
	msets  sync.Map // *types.Func -> *Fn
	impl   sync.Map // *RT(interface) -> bool
	zeroS  Value    // zero value when it needs no allocation
	scalar bool
}

type typeTable struct {
	mu sync.Mutex
	m  typeutil.Map
	n  int
}

var rts typeTable

func rtOf(t types.Type) *RT {
	rts.mu.Lock()
	defer rts.mu.Unlock()
	return rtLocked(t)
}

func rtLocked(t types.Type) *RT {
	t = types.Unalias(t)
	if r, ok := rts.m.At(t).(*RT); ok {
		return r
	}
	r := &RT{t: t, id: rts.n, scalar: true}
	rts.n++
	rts.m.Set(t, r)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			r.kind, r.bits = KBool, 1
		case u.Info()&types.IsInteger != 0:
			r.kind = KInt
			r.signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				r.bits = 8
			case types.Int16, types.Uint16:
				r.bits = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				r.bits = 32
			default:
				r.bits = 64
			}
		case u.Info()&types.IsFloat != 0:
			r.kind = KFloat
			r.bits = 64
			if u.Kind() == types.Float32 {
				r.bits = 32
			}
		case u.Info()&types.IsString != 0:
			r.kind = KString
		case u.Kind() == types.UnsafePointer:
			r.kind = KPtr
		case u.Kind() == types.UntypedNil:
			r.kind = KPtr
		default:
			r.kind = KOther
		}
	case *types.Pointer:
		r.kind = KPtr
		r.elem = rtLocked(u.Elem())
	case *types.Slice:
		r.kind = KSlice
		r.elem = rtLocked(u.Elem())
	case *types.Map:
		r.kind = KMap
		r.key = rtLocked(u.Key())
		r.elem = rtLocked(u.Elem())
	case *types.Interface:
		r.kind = KIface
	case *types.Signature:
		r.kind = KFunc
	case *types.Struct:
		r.kind = KStruct
		r.scalar = false
		for i := 0; i < u.NumFields(); i++ {
			r.fields = append(r.fields, rtLocked(u.Field(i).Type()))
		}
	case *types.Array:
		r.kind = KArray
		r.scalar = false
		r.n = int(u.Len())
		r.elem = rtLocked(u.Elem())
	case *types.Chan:
		r.kind = KChan
		r.elem = rtLocked(u.Elem())
	case *types.Tuple:
		r.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, rtLocked(u.At(i).Type()))
		}
	default:
		r.kind = KOther
	}
	r.str = types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return r
}

// zero returns the zero value of a type.
func zero(r *RT) Value {
	if r.scalar {
		return Value{}
	}
	switch r.kind {
	case KStruct:
		a := &Agg{e: make([]Value, len(r.fields))}
		for i, f := range r.fields {
			if !f.scalar {
				a.e[i] = zero(f)
			}
		}
		return Value{x: a}
	case KArray:
		a := &Agg{e: make([]Value, r.n)}
		if !r.elem.scalar {
			for i := range a.e {
				a.e[i] = zero(r.elem)
			}
		}
		return Value{x: a}
	}
	return Value{}
}

func copyAgg(v Value) Value {
	a, ok := v.x.(*Agg)
	if !ok {
		return v
	}
	b := &Agg{e: make([]Value, len(a.e))}
	for i, e := range a.e {
		if _, ok := e.x.(*Agg); ok {
			e = copyAgg(e)
		}
		b.e[i] = e
	}
	return Value{x: b}
}

// storeTo writes v in place, so that pointers into dst stay valid.
func storeTo(dst *Value, v Value) {
	if s, ok := v.x.(*Agg); ok {
		d, ok := dst.x.(*Agg)
		if !ok || d == s {
			if !ok {
				*dst = copyAgg(v)
			}
			return
		}
		for i := range d.e {
			storeTo(&d.e[i], s.e[i])
		}
		return
	}
	*dst = v
}

// ---- strings ----

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{n: int64(len(s)), x: &SBuf{s: s}}
}

func (v Value) slen() int { return int(uint32(v.n)) }
func (v Value) soff() int { return int(v.n >> 32) }

func (v Value) sbuf() *SBuf {
	b, _ := v.x.(*SBuf)
	return b
}

// conc reports whether a string has no symbolic byte.
func (v Value) conc() bool {
	b := v.sbuf()
	if b == nil || b.sym == nil {
		return true
	}
	o, n := v.soff(), v.slen()
	for i := o; i < o+n; i++ {
		if b.sym[i] != nil {
			return false
		}
	}
	return true
}

// gostr returns a concrete string's text (symbolic bytes come out as placeholders).
func (v Value) gostr() string {
	b := v.sbuf()
	if b == nil {
		return ""
	}
	o := v.soff()
	return b.s[o : o+v.slen()]
}

func (v Value) byteAt(i int) Value {
	b := v.sbuf()
	j := v.soff() + i
	if b.sym != nil && b.sym[j] != nil {
		return Value{x: b.sym[j]}
	}
	return Value{n: int64(b.s[j])}
}

func (v Value) substr(i, j int) Value {
	if i == j {
		return Value{}
	}
	return Value{n: int64(v.soff()+i)<<32 | int64(j-i), x: v.x}
}

func concat(a, b Value) Value {
	la, lb := a.slen(), b.slen()
	if la == 0 {
		return b
	}
	if lb == 0 {
		return a
	}
	s := a.gostr() + b.gostr()
	var sym []*Term
	ab, bb := a.sbuf(), b.sbuf()
	if ab.sym != nil || bb.sym != nil {
		sym = make([]*Term, la+lb)
		any := false
		if ab.sym != nil {
			copy(sym, ab.sym[a.soff():a.soff()+la])
		}
		if bb.sym != nil {
			copy(sym[la:], bb.sym[b.soff():b.soff()+lb])
		}
		for _, t := range sym {
			if t != nil {
				any = true
				break
			}
		}
		if !any {
			sym = nil
		}
	}
	return Value{n: int64(la + lb), x: &SBuf{s: s, sym: sym}}
}

func bytesToStr(bs []Value) Value {
	if len(bs) == 0 {
		return Value{}
	}
	buf := make([]byte, len(bs))
	var sym []*Term
	for i, b := range bs {
		if t, ok := b.x.(*Term); ok {
			if sym == nil {
				sym = make([]*Term, len(bs))
			}
			sym[i] = t
		} else {
			buf[i] = byte(b.n)
		}
	}
	return Value{n: int64(len(bs)), x: &SBuf{s: string(buf), sym: sym}}
}

func symOf(v Value) *Term {
	t, _ := v.x.(*Term)
	return t
}

func boolVal(b bool) Value { return Value{n: b2i(b)} }

// ---- map keys ----

type ifKey struct {
	t *RT
	k any
}

// rvKey is the key of a reflect.Value: the address of its storage, or the
// pointer or other reference that it is.
type rvKey struct {
	t    *RT
	addr *Value
	x    any
}

// keyOf returns a Go map key for a concrete value, or ok=false if it is symbolic.
func keyOf(v Value, r *RT) (any, bool) {
	switch r.kind {
	case KBool, KInt, KFloat:
		if symOf(v) != nil {
			return nil, false
		}
		return v.n, true
	case KString:
		if !v.conc() {
			return nil, false
		}
		return v.gostr(), true
	case KPtr, KChan:
		return v.x, true
	case KIface:
		i, _ := v.x.(*Iface)
		if i == nil {
			return nil, true
		}
		k, ok := keyOf(i.v, i.t)
		return ifKey{i.t, k}, ok
	case KStruct:
		if rv, ok := v.x.(*RV); ok {
			// reflect.Value: its type and where it is.
			if rv == nil {
				return rvKey{}, true
			}
			return rvKey{rv.t, rv.addr, rv.v.x}, true
		}
		a := v.x.(*Agg)
		if len(a.e) == 2 {
			k0, ok0 := keyOf(a.e[0], r.fields[0])
			k1, ok1 := keyOf(a.e[1], r.fields[1])
			return [2]any{k0, k1}, ok0 && ok1
		}
		if len(a.e) <= 6 {
			var k [6]any
			for i := range a.e {
				var ok bool
				if k[i], ok = keyOf(a.e[i], r.fields[i]); !ok {
					return nil, false
				}
			}
			return k, true
		}
	case KArray:
		a := v.x.(*Agg)
		if len(a.e) <= 8 {
			var k [8]any
			for i := range a.e {
				var ok bool
				if k[i], ok = keyOf(a.e[i], r.elem); !ok {
					return nil, false
				}
			}
			return k, true
		}
	}
	panic(unsupported("map key of type %s", r.str))
}

// ---- errors ----

type unsupportedErr struct{ what string }

func unsupported(f string, args ...any) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, args...)}
}

func trunc(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", "\\n")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
