package main

import (
	"bytes"
	"encoding/json"
	"go/types"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The engine runs package encoding/json natively: values of the program are
// converted to host values of the same shape (same struct tags), encoded or
// decoded by the real library, and converted back.

func jsonMethod(w *W, t types.Type, names ...string) {
	for _, n := range names {
		for _, t := range []types.Type{t, types.NewPointer(t)} {
			if o, _, _ := types.LookupFieldOrMethod(t, true, nil, n); o != nil {
				if _, ok := o.(*types.Func); ok {
					panic(unsupported("json with method %s of %s", n, t))
				}
			}
		}
	}
}

var anyType = reflect.TypeOf((*any)(nil)).Elem()

func (w *W) hostType(t *RT, depth int) reflect.Type {
	if depth > 20 {
		panic(unsupported("json of recursive type %s", t.str))
	}
	if _, ok := t.t.(*types.Named); ok && t.kind != KIface {
		jsonMethod(w, t.t, "MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText")
	}
	switch t.kind {
	case KPtr:
		if _, ok := t.t.Underlying().(*types.Pointer); ok {
			return reflect.PointerTo(w.hostType(t.elem, depth+1))
		}
	case KSlice:
		return reflect.SliceOf(w.hostType(t.elem, depth+1))
	case KMap:
		return reflect.MapOf(w.hostType(t.key, depth+1), w.hostType(t.elem, depth+1))
	case KIface:
		return anyType
	case KStruct:
		st := t.t.Underlying().(*types.Struct)
		var fs []reflect.StructField
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !f.Exported() {
				continue
			}
			fs = append(fs, reflect.StructField{Name: f.Name(), Type: w.hostType(t.fields[i], depth+1), Tag: reflect.StructTag(st.Tag(i)), Anonymous: f.Embedded()})
		}
		return reflect.StructOf(fs)
	case KBool, KInt, KFloat, KString:
		for _, z := range []any{false, "", int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0), float32(0), float64(0)} {
			if reflect.TypeOf(z).Kind() == rkind(t) {
				return reflect.TypeOf(z)
			}
		}
	}
	panic(unsupported("json of %s", t.str))
}

func (w *W) hostValue(v Value, t *RT, depth int) reflect.Value {
	ht := w.hostType(t, depth)
	r := reflect.New(ht).Elem()
	switch t.kind {
	case KPtr:
		if v.x != nil {
			p := reflect.New(ht.Elem())
			p.Elem().Set(w.hostValue(*w.deref(v), t.elem, depth+1))
			r.Set(p)
		}
	case KSlice:
		if s, _ := v.x.(*Slice); s != nil {
			r.Set(reflect.MakeSlice(ht, s.len, s.len))
			for i := 0; i < s.len; i++ {
				r.Index(i).Set(w.hostValue(s.arr.e[s.off+i], t.elem, depth+1))
			}
		}
	case KMap:
		if m, _ := v.x.(*Map); m != nil {
			r.Set(reflect.MakeMap(ht))
			for _, e := range m.ents {
				if e.live {
					r.SetMapIndex(w.hostValue(e.k, t.key, depth+1), w.hostValue(e.v, t.elem, depth+1))
				}
			}
		}
	case KIface:
		if i, _ := v.x.(*Iface); i != nil {
			r.Set(w.hostValue(i.v, i.t, depth+1))
		}
	case KStruct:
		a, _ := v.x.(*Agg)
		st := t.t.Underlying().(*types.Struct)
		k := 0
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Exported() {
				if a != nil {
					r.Field(k).Set(w.hostValue(a.e[i], t.fields[i], depth+1))
				}
				k++
			}
		}
	case KString:
		r.SetString(w.concStr(v))
	case KBool:
		r.SetBool(w.concInt(v) != 0)
	case KInt:
		if t.signed {
			r.SetInt(w.concInt(v))
		} else {
			r.SetUint(uint64(w.concInt(v)))
		}
	default:
		panic(unsupported("json of %s", t.str))
	}
	return r
}

func (w *W) fromHostValue(r reflect.Value, t *RT) Value {
	switch t.kind {
	case KPtr:
		if r.IsNil() {
			return Value{}
		}
		c := new(Value)
		*c = w.fromHostValue(r.Elem(), t.elem)
		return Value{x: c}
	case KSlice:
		if r.IsNil() {
			return Value{}
		}
		a := &Agg{}
		for i := 0; i < r.Len(); i++ {
			a.e = append(a.e, w.fromHostValue(r.Index(i), t.elem))
		}
		return Value{x: &Slice{arr: a, len: len(a.e), cap: len(a.e)}}
	case KMap:
		if r.IsNil() {
			return Value{}
		}
		m := &Map{idx: map[any]int{}}
		it := r.MapRange()
		for it.Next() {
			w.mapSet(m, w.fromHostValue(it.Key(), t.key), w.fromHostValue(it.Value(), t.elem), t)
		}
		return Value{x: m}
	case KIface:
		if r.IsNil() {
			return Value{}
		}
		e := r.Elem()
		var g types.Type
		switch e.Interface().(type) {
		case string:
			g = types.Typ[types.String]
		case bool:
			g = types.Typ[types.Bool]
		case float64:
			panic(unsupported("json number in an interface"))
		case []any:
			g = types.NewSlice(types.NewInterfaceType(nil, nil))
		case map[string]any:
			g = types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
		default:
			panic(unsupported("json interface value %s", e.Type()))
		}
		et := rtOf(g)
		return Value{x: &Iface{t: et, v: w.fromHostValue(e, et)}}
	case KStruct:
		z := zero(t)
		z = copyAgg(z)
		a := z.x.(*Agg)
		st := t.t.Underlying().(*types.Struct)
		k := 0
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Exported() {
				storeTo(&a.e[i], w.fromHostValue(r.Field(k), t.fields[i]))
				k++
			}
		}
		return z
	case KString:
		return mkStr(r.String())
	case KBool:
		return boolVal(r.Bool())
	case KInt:
		if t.signed {
			return Value{n: r.Int()}
		}
		return Value{n: int64(r.Uint())}
	}
	panic(unsupported("json of %s", t.str))
}

func (w *W) errOf(err error) Value {
	if err == nil {
		return Value{}
	}
	return w.mkErr(mkStr(err.Error()))
}

// hostIface converts an interface value to a host value.
func (w *W) hostIface(v Value) any {
	i, _ := v.x.(*Iface)
	if i == nil {
		return nil
	}
	return w.hostValue(i.v, i.t, 0).Interface()
}

// decodeInto decodes with the given function into the program's pointer.
func (w *W) decodeInto(dst Value, dec func(any) error) Value {
	i, _ := dst.x.(*Iface)
	if i == nil || i.t.kind != KPtr || i.v.x == nil {
		return w.mkErr(mkStr("json: Unmarshal(non-pointer)"))
	}
	p := w.deref(i.v)
	r := reflect.New(w.hostType(i.t.elem, 0))
	r.Elem().Set(w.hostValue(*p, i.t.elem, 0))
	err := dec(r.Interface())
	storeTo(p, w.fromHostValue(r.Elem(), i.t.elem))
	return w.errOf(err)
}

func bytesVal(b []byte) Value {
	a := &Agg{e: make([]Value, len(b))}
	for i, c := range b {
		a.e[i] = Value{n: int64(c)}
	}
	return Value{x: &Slice{arr: a, len: len(b), cap: len(b)}}
}

// fieldOf returns the named field of the struct to which p points.
func (w *W) fieldOf(p Value, st *types.Struct, name string) Value {
	c := w.deref(p)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return c.x.(*Agg).e[i]
		}
	}
	panic(unsupported("no field %s", name))
}

func init() {
	jsonStruct := func(w *W, name string) *types.Struct {
		p := w.eng.prog.prog.ImportedPackage("encoding/json")
		return p.Type(name).Type().Underlying().(*types.Struct)
	}
	in := intrinsics
	// The reader of a decoder.
	readers := map[*Value]Value{}
	var mu sync.Mutex
	in["encoding/json.NewDecoder"] = func(w *W, fn *Fn, a []Value) bool {
		c := new(Value)
		*c = zero(fn.resRT[0].elem)
		mu.Lock()
		readers[c] = a[0]
		mu.Unlock()
		w.ret[0] = Value{x: c}
		return true
	}
	in["encoding/json.Marshal"] = func(w *W, _ *Fn, a []Value) bool {
		b, err := json.Marshal(w.hostIface(a[0]))
		w.ret[0], w.ret[1] = bytesVal(b), w.errOf(err)
		if err != nil {
			w.ret[0] = Value{}
		}
		return true
	}
	in["encoding/json.MarshalIndent"] = func(w *W, _ *Fn, a []Value) bool {
		b, err := json.MarshalIndent(w.hostIface(a[0]), w.concStr(a[1]), w.concStr(a[2]))
		w.ret[0], w.ret[1] = bytesVal(b), w.errOf(err)
		return true
	}
	in["encoding/json.Unmarshal"] = func(w *W, _ *Fn, a []Value) bool {
		s := w.concStr(sliceStr(a[0]))
		w.ret[0] = w.decodeInto(a[1], func(p any) error { return json.Unmarshal([]byte(s), p) })
		return true
	}
	in["(*encoding/json.Encoder).Encode"] = func(w *W, _ *Fn, a []Value) bool {
		st := jsonStruct(w, "Encoder")
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		if err := e.Encode(w.hostIface(a[1])); err != nil {
			w.ret[0] = w.errOf(err)
			return true
		}
		dst := w.fieldOf(a[0], st, "w")
		i, _ := dst.x.(*Iface)
		if i == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		sf := w.eng.prog.prog.LookupMethod(i.t.t, nil, "Write")
		w.callFn(w.eng.prog.fn(sf), []Value{i.v, bytesVal(b.Bytes())}, nil)
		w.ret[0] = w.ret[1]
		return true
	}
	in["(*encoding/json.Decoder).Decode"] = func(w *W, _ *Fn, a []Value) bool {
		mu.Lock()
		src := readers[w.deref(a[0])]
		mu.Unlock()
		var f *ssa.Function
		if p := w.eng.prog.prog.ImportedPackage("io"); p != nil {
			f = p.Func("ReadAll")
		}
		if f == nil {
			panic(unsupported("no io.ReadAll"))
		}
		w.callFn(w.eng.prog.fn(f), []Value{src}, nil)
		data, rerr := w.ret[0], w.ret[1]
		s := w.concStr(sliceStr(data))
		if rerr.x != nil {
			// The part that was read may be enough.
			d := json.NewDecoder(strings.NewReader(s))
			var probe any
			if d.Decode(&probe) != nil {
				w.ret[0] = rerr
				return true
			}
		}
		w.ret[0] = w.decodeInto(a[1], func(p any) error { return json.NewDecoder(strings.NewReader(s)).Decode(p) })
		return true
	}
}
