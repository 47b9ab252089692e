package sym

import (
	"fmt"
	"go/types"
	"math"
	"reflect"

	"verif/engine/smt"
)

// RV is a reflect.Value: an address (settable) or a plain value.
type RV struct {
	t  *TI
	p  *V
	v  V
	ro bool
}

func (r *RV) get() V {
	if r.p != nil {
		if r.p.P == nil && r.t.agg() {
			return r.t.Zero()
		}
		return copyV(*r.p)
	}
	return r.v
}

func mkRV(t *TI, v V) V      { return V{P: &RV{t: t, v: v}} }
func (m *M) mkType(t *TI) V  { return V{P: &Iface{m.rtypeTI, V{P: t}}} }
func (m *M) rpanic(s string) { panic(goPanic{v: m.mkPanicStr("reflect: " + s), msg: "reflect: " + s}) }
func (m *M) typeArg(v V) *TI {
	if v.P == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return v.P.(*Iface).V.P.(*TI)
}

func kindOf(t *TI) reflect.Kind {
	switch u := t.U.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (m *M) structField(t *TI, i int) V {
	st := t.U.(*types.Struct)
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	return V{P: &Agg{[]V{str(f.Name()), str(pkg), m.mkType(t.F[i]), str(st.Tag(i)), {}, newSlice([]V{iv(i)}), bv(f.Anonymous())}}}
}

func typeName(t *TI) string {
	switch x := t.T.(type) {
	case *types.Named:
		s := x.Obj().Name()
		return s
	case *types.Basic:
		return x.Name()
	}
	return ""
}

// rtypeCall executes a method of reflect.Type.
func (m *M) rtypeCall(name string, a []V) V {
	t := a[0].P.(*TI)
	switch name {
	case "Kind":
		return V{U: uint64(kindOf(t))}
	case "Elem":
		if t.Elem == nil {
			m.rpanic("Elem of invalid type " + t.T.String())
		}
		return m.mkType(t.Elem)
	case "Key":
		return m.mkType(t.Key)
	case "Len":
		if t.K != KArray {
			m.rpanic("Len of non-array type")
		}
		return iv(t.N)
	case "NumField":
		if st, ok := t.U.(*types.Struct); ok {
			return iv(st.NumFields())
		}
		m.rpanic("NumField of non-struct type " + t.T.String())
	case "Field":
		i := m.concretize(a[1], 64)
		if t.K != KStruct || i < 0 || i >= len(t.F) {
			m.rpanic("Field index out of bounds")
		}
		return m.structField(t, i)
	case "FieldByName":
		n, _ := concreteStr(a[1])
		st, ok := t.U.(*types.Struct)
		if ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == n {
					return V{P: Tuple{m.structField(t, i), V{U: 1}}}
				}
			}
		}
		return V{P: Tuple{V{P: &Agg{make([]V, 7)}}, V{}}}
	case "Name":
		return str(typeName(t))
	case "String":
		return str(typeText(t))
	case "PkgPath":
		if n, ok := t.T.(*types.Named); ok && n.Obj().Pkg() != nil {
			return str(n.Obj().Pkg().Path())
		}
		return V{}
	case "Size":
		return iv(t.size())
	case "Align", "FieldAlign":
		return iv(8)
	case "Bits":
		return iv(t.W)
	case "Comparable":
		return bv(types.Comparable(t.T))
	case "Implements":
		it := m.typeArg(a[1])
		if it.K != KIface {
			m.rpanic("non-interface type passed to Type.Implements")
		}
		return bv(m.implements(t, it))
	case "AssignableTo":
		return bv(types.AssignableTo(t.T, m.typeArg(a[1]).T))
	case "ConvertibleTo":
		return bv(types.ConvertibleTo(t.T, m.typeArg(a[1]).T))
	case "NumMethod":
		if it, ok := t.U.(*types.Interface); ok {
			return iv(it.NumMethods())
		}
		ms := m.prog.MethodSets.MethodSet(t.T)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return iv(n)
	case "NumIn":
		return iv(t.U.(*types.Signature).Params().Len())
	case "NumOut":
		return iv(t.U.(*types.Signature).Results().Len())
	case "In":
		return m.mkType(m.ti(t.U.(*types.Signature).Params().At(m.concretize(a[1], 64)).Type()))
	case "Out":
		return m.mkType(m.ti(t.U.(*types.Signature).Results().At(m.concretize(a[1], 64)).Type()))
	}
	m.unsupported("reflect.Type.%s", name)
	return V{}
}

func (m *M) rv(v V) *RV {
	if v.P == nil {
		m.rpanic("call of method on zero Value")
	}
	return v.P.(*RV)
}

func (m *M) rset(r *RV, v V) {
	if r.p == nil {
		m.rpanic("reflect.Value.Set using unaddressable value")
	}
	if r.ro {
		m.rpanic("reflect.Value.Set using value obtained using unexported field")
	}
	m.store(r.p, v)
}

// rassign converts x for assignment to type t.
func (m *M) rassign(x *RV, t *TI) V {
	if x.t == t {
		return x.get()
	}
	if t.K == KIface {
		if x.t.K == KIface {
			return x.get()
		}
		if !m.implements(x.t, t) {
			m.rpanic("value of type " + x.t.T.String() + " is not assignable to type " + t.T.String())
		}
		return V{P: &Iface{x.t, x.get()}}
	}
	if types.AssignableTo(x.t.T, t.T) {
		return x.get()
	}
	m.rpanic("value of type " + x.t.T.String() + " is not assignable to type " + t.T.String())
	return V{}
}

func (m *M) needKind(r *RV, name string, ok bool) {
	if !ok {
		m.rpanic("call of reflect.Value." + name + " on " + kindOf(r.t).String() + " Value")
	}
}

func (m *M) reflectValueCall(name string, a []V) V {
	if name == "IsValid" {
		return bv(a[0].P != nil)
	}
	if name == "Kind" {
		if a[0].P == nil {
			return V{}
		}
		return V{U: uint64(kindOf(a[0].P.(*RV).t))}
	}
	if name == "String" && a[0].P == nil {
		return str("<invalid Value>")
	}
	r := m.rv(a[0])
	switch name {
	case "Type":
		return m.mkType(r.t)
	case "Elem":
		switch r.t.K {
		case KPtr:
			p := r.get()
			if p.P == nil {
				return V{}
			}
			return V{P: &RV{t: r.t.Elem, p: m.ptr(p), ro: r.ro}}
		case KIface:
			v := r.get()
			if v.P == nil {
				return V{}
			}
			i := v.P.(*Iface)
			return V{P: &RV{t: i.T, v: i.V, ro: r.ro}}
		}
		m.needKind(r, name, false)
	case "IsNil":
		switch r.t.K {
		case KPtr, KSlice, KMap, KFunc, KChan, KIface, KUnsafe:
			return bv(r.get().P == nil)
		}
		m.needKind(r, name, false)
	case "IsZero":
		v := r.get()
		if r.t.K == KFloat {
			return bv(v.U == 0)
		}
		switch r.t.K {
		case KSlice, KMap, KFunc:
			return bv(v.P == nil)
		}
		return m.eq(r.t, v, r.t.Zero())
	case "Interface":
		if r.ro {
			m.rpanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		if r.t.K == KIface {
			return r.get()
		}
		return V{P: &Iface{r.t, r.get()}}
	case "CanInterface":
		return bv(!r.ro)
	case "CanSet":
		return bv(r.p != nil && !r.ro)
	case "CanAddr":
		return bv(r.p != nil)
	case "Addr":
		if r.p == nil {
			m.rpanic("reflect.Value.Addr of unaddressable value")
		}
		return V{P: &RV{t: m.ti(types.NewPointer(r.t.T)), v: V{P: r.p}, ro: r.ro}}
	case "NumField":
		m.needKind(r, name, r.t.K == KStruct)
		return iv(len(r.t.F))
	case "Field":
		m.needKind(r, name, r.t.K == KStruct)
		i := m.concretize(a[1], 64)
		if i < 0 || i >= len(r.t.F) {
			m.rpanic("Field index out of range")
		}
		ro := r.ro || !r.t.U.(*types.Struct).Field(i).Exported()
		if r.p != nil {
			return V{P: &RV{t: r.t.F[i], p: &r.p.P.(*Agg).E[i], ro: ro}}
		}
		return V{P: &RV{t: r.t.F[i], v: r.v.P.(*Agg).E[i], ro: ro}}
	case "FieldByName":
		m.needKind(r, name, r.t.K == KStruct)
		n, _ := concreteStr(a[1])
		for i := range r.t.F {
			if r.t.U.(*types.Struct).Field(i).Name() == n {
				return m.reflectValueCall("Field", []V{a[0], iv(i)})
			}
		}
		return V{}
	case "Len":
		switch r.t.K {
		case KSlice:
			return iv(slLen(r.get()))
		case KArray:
			return iv(r.t.N)
		case KString:
			return iv(strLen(r.get()))
		case KMap:
			return iv(m.mapLen(r.get()))
		}
		m.needKind(r, name, false)
	case "Cap":
		if r.t.K == KArray {
			return iv(r.t.N)
		}
		m.needKind(r, name, r.t.K == KSlice)
		_, _, _, c := slParts(r.get())
		return iv(c)
	case "Index":
		i := m.concretize(a[1], 64)
		switch r.t.K {
		case KSlice:
			e := slElems(r.get())
			if i < 0 || i >= len(e) {
				m.rpanic("slice index out of range")
			}
			return V{P: &RV{t: r.t.Elem, p: &e[i], ro: r.ro}}
		case KArray:
			if i < 0 || i >= r.t.N {
				m.rpanic("array index out of range")
			}
			if r.p != nil {
				return V{P: &RV{t: r.t.Elem, p: &r.p.P.(*Agg).E[i], ro: r.ro}}
			}
			return V{P: &RV{t: r.t.Elem, v: r.v.P.(*Agg).E[i], ro: r.ro}}
		case KString:
			return mkRV(m.ti(tUint8), strBytes(r.get())[i])
		}
		m.needKind(r, name, false)
	case "Int":
		m.needKind(r, name, r.t.K == KInt && r.t.Signed)
		return m.convert(r.t, m.tInt(), r.get())
	case "Uint":
		m.needKind(r, name, r.t.K == KInt && !r.t.Signed)
		return m.convert(r.t, m.ti(types.Typ[types.Uint64]), r.get())
	case "Float":
		m.needKind(r, name, r.t.K == KFloat)
		return r.get()
	case "Bool":
		m.needKind(r, name, r.t.K == KBool)
		return r.get()
	case "String":
		if r.t.K == KString {
			return r.get()
		}
		return str("<" + r.t.T.String() + " Value>")
	case "Bytes":
		switch r.t.K {
		case KSlice:
			m.needKind(r, name, r.t.Elem.K == KInt && r.t.Elem.W == 8)
			return r.get()
		case KArray:
			if r.p == nil {
				m.rpanic("reflect.Value.Bytes of unaddressable byte array")
			}
			return mkSlice((*Back)(r.p.P.(*Agg)), 0, r.t.N, r.t.N)
		}
		m.needKind(r, name, false)
	case "Set":
		x := m.rv(a[1])
		if x.ro {
			m.rpanic("reflect.Set: value obtained using unexported field")
		}
		m.rset(r, m.rassign(x, r.t))
		return V{}
	case "SetInt":
		m.needKind(r, name, r.t.K == KInt && r.t.Signed)
		m.rset(r, m.convert(m.tInt(), r.t, a[1]))
		return V{}
	case "SetUint":
		m.needKind(r, name, r.t.K == KInt && !r.t.Signed)
		m.rset(r, m.convert(m.ti(types.Typ[types.Uint64]), r.t, a[1]))
		return V{}
	case "SetBool", "SetString":
		m.needKind(r, name, r.t.K == KBool || r.t.K == KString)
		m.rset(r, a[1])
		return V{}
	case "SetFloat":
		m.needKind(r, name, r.t.K == KFloat)
		v := a[1]
		if r.t.W == 32 {
			v.U = math.Float64bits(float64(float32(math.Float64frombits(v.U))))
		}
		m.rset(r, v)
		return V{}
	case "SetBytes":
		m.needKind(r, name, r.t.K == KSlice && r.t.Elem.K == KInt && r.t.Elem.W == 8)
		m.rset(r, a[1])
		return V{}
	case "SetLen":
		m.needKind(r, name, r.t.K == KSlice)
		n := m.concretize(a[1], 64)
		b, off, _, c := slParts(r.get())
		if n < 0 || n > c {
			m.rpanic("slice length out of range in SetLen")
		}
		if b != nil {
			m.rset(r, mkSlice(b, off, n, c))
		}
		return V{}
	case "Grow":
		n := m.concretize(a[1], 64)
		s := r.get()
		b, off, ln, c := slParts(s)
		if ln+n > c {
			nc := growCap(c, ln+n, r.t.Elem)
			ns := m.makeSlice(r.t.Elem, ln, nc)
			for i := 0; i < ln; i++ {
				ns.P.(*Back).E[i] = copyV(b.E[off+i])
			}
			m.rset(r, ns)
		}
		return V{}
	case "SetZero":
		m.rset(r, r.t.Zero())
		return V{}
	case "Slice":
		lo, hi := a[1], a[2]
		ti := m.tInt()
		switch r.t.K {
		case KSlice, KString:
			return mkRV(r.t, m.sliceOp(r.get(), r.t, lo, ti, hi, ti, V{}, nil))
		case KArray:
			if r.p == nil {
				m.rpanic("reflect.Value.Slice: slice of unaddressable array")
			}
			pt := m.ti(types.NewPointer(r.t.T))
			return mkRV(m.ti(types.NewSlice(r.t.Elem.T)), m.sliceOp(V{P: r.p}, pt, lo, ti, hi, ti, V{}, nil))
		}
	case "MapKeys":
		it := m.mapIter(r.get())
		var out []V
		for {
			k, _, ok := it.next(m)
			if !ok {
				break
			}
			out = append(out, mkRV(r.t.Key, k))
		}
		return newSlice(out)
	case "MapIndex":
		k := m.rassign(m.rv(a[1]), r.t.Key)
		v, ok := m.mapGet(r.get(), r.t, k)
		if !ok {
			return V{}
		}
		return mkRV(r.t.Elem, v)
	case "SetMapIndex":
		k := m.rassign(m.rv(a[1]), r.t.Key)
		if a[2].P == nil {
			m.mapDelete(r.get(), k)
		} else {
			m.mapSet(r.get(), k, m.rassign(m.rv(a[2]), r.t.Elem))
		}
		return V{}
	case "Pointer", "UnsafePointer", "UnsafeAddr":
		m.unsupported("reflect.Value.%s", name)
	case "Convert":
		t := m.typeArg(a[1])
		if t.K == KIface {
			return mkRV(t, m.rassign(r, t))
		}
		if !types.ConvertibleTo(r.t.T, t.T) {
			m.rpanic("reflect.Value.Convert: value of type " + r.t.T.String() + " cannot be converted to type " + t.T.String())
		}
		if r.t.K == t.K && r.t.K != KInt && r.t.K != KFloat {
			return mkRV(t, r.get())
		}
		return mkRV(t, m.convert(r.t, t, r.get()))
	case "CanConvert":
		return bv(types.ConvertibleTo(r.t.T, m.typeArg(a[1]).T))
	case "OverflowUint":
		x := m.term(a[1], 64)
		if r.t.W == 64 {
			return V{}
		}
		return tv(m.c.Not(m.c.Ule(x, m.c.Const(64, mask(r.t.W)))))
	case "OverflowInt":
		x := m.term(a[1], 64)
		if r.t.W == 64 {
			return V{}
		}
		return tv(m.c.Not(m.c.Eq(m.c.SExt(m.c.Extract(x, r.t.W-1, 0), 64), x)))
	case "NumMethod":
		return m.rtypeCall("NumMethod", []V{{P: r.t}})
	case "MethodByName":
		n, _ := concreteStr(a[1])
		f := m.methodByName(r.t, n)
		if f == nil {
			return V{}
		}
		rc := r.get()
		return mkRV(m.ti(types.NewSignatureType(nil, nil, nil, f.sig.Params(), f.sig.Results(), f.sig.Variadic())), V{P: &Closure{Nat: func(m *M, args []V) V {
			return m.call(f, append([]V{rc}, args...), nil)
		}}})
	case "Call":
		var args []V
		sg := r.t.U.(*types.Signature)
		for i, x := range slElems(a[1]) {
			pt := sg.Params().At(min(i, sg.Params().Len()-1)).Type()
			args = append(args, m.rassign(m.rv(x), m.ti(pt)))
		}
		res := m.callV(r.get(), args)
		var out []V
		switch sg.Results().Len() {
		case 0:
		case 1:
			out = append(out, mkRV(m.ti(sg.Results().At(0).Type()), res))
		default:
			for i, x := range res.P.(Tuple) {
				out = append(out, mkRV(m.ti(sg.Results().At(i).Type()), x))
			}
		}
		return newSlice(out)
	}
	m.unsupported("reflect.Value.%s on %v", name, r.t.T)
	return V{}
}

func (m *M) reflectFn(name string, a []V) (V, bool) {
	switch name {
	case "TypeOf":
		if a[0].P == nil {
			return V{}, true
		}
		return m.mkType(a[0].P.(*Iface).T), true
	case "ValueOf":
		if a[0].P == nil {
			return V{}, true
		}
		i := a[0].P.(*Iface)
		return mkRV(i.T, i.V), true
	case "New":
		t := m.typeArg(a[0])
		p := new(V)
		*p = t.Zero()
		return mkRV(m.ti(types.NewPointer(t.T)), V{P: p}), true
	case "Zero":
		t := m.typeArg(a[0])
		return mkRV(t, t.Zero()), true
	case "Indirect":
		r := m.rv(a[0])
		if r.t.K != KPtr {
			return a[0], true
		}
		return m.reflectValueCall("Elem", a), true
	case "PtrTo", "PointerTo":
		return m.mkType(m.ti(types.NewPointer(m.typeArg(a[0]).T))), true
	case "SliceOf":
		return m.mkType(m.ti(types.NewSlice(m.typeArg(a[0]).T))), true
	case "ArrayOf":
		n := m.concretize(a[0], 64)
		return m.mkType(m.ti(types.NewArray(m.typeArg(a[1]).T, int64(n)))), true
	case "MapOf":
		return m.mkType(m.ti(types.NewMap(m.typeArg(a[0]).T, m.typeArg(a[1]).T))), true
	case "StructOf":
		var fs []*types.Var
		var tags []string
		for _, f := range slElems(a[0]) {
			e := f.P.(*Agg).E
			n, ok := concreteStr(e[0])
			if !ok {
				m.unsupported("reflect.StructOf with symbolic name")
			}
			if n == "" {
				m.rpanic("reflect.StructOf: field has no name")
			}
			tg, _ := concreteStr(e[3])
			fs = append(fs, types.NewField(0, nil, n, m.typeArg(e[2]).T, e[6].U != 0))
			tags = append(tags, tg)
		}
		seen := map[string]bool{}
		for _, f := range fs {
			if seen[f.Name()] {
				m.rpanic("reflect.StructOf: duplicate field " + f.Name())
			}
			seen[f.Name()] = true
			if !f.Exported() {
				m.rpanic("reflect.StructOf: field \"" + f.Name() + "\" is unexported but missing PkgPath")
			}
		}
		return m.mkType(m.ti(types.NewStruct(fs, tags))), true
	case "MakeSlice":
		t := m.typeArg(a[0])
		n := m.sizeArg(a[1], m.tInt(), "reflect.MakeSlice: negative len")
		k := m.sizeArg(a[2], m.tInt(), "reflect.MakeSlice: negative cap")
		if n > k {
			m.rpanic("reflect.MakeSlice: len > cap")
		}
		return mkRV(t, m.makeSlice(t.Elem, n, k)), true
	case "MakeMap", "MakeMapWithSize":
		t := m.typeArg(a[0])
		return mkRV(t, V{P: m.newMap(t)}), true
	case "Append":
		r := m.rv(a[0])
		var add []V
		for _, x := range slElems(a[1]) {
			add = append(add, m.rassign(m.rv(x), r.t.Elem))
		}
		return mkRV(r.t, m.appendElems(r.get(), add, r.t.Elem)), true
	case "Copy":
		d, s := m.rv(a[0]), m.rv(a[1])
		el := func(r *RV) []V {
			switch r.t.K {
			case KSlice:
				return slElems(r.get())
			case KArray:
				if r.p != nil {
					return r.p.P.(*Agg).E
				}
				return r.v.P.(*Agg).E
			}
			return strBytes(r.get())
		}
		de, se := el(d), el(s)
		n := min(len(de), len(se))
		m.copyElems(de[:n], se[:n])
		return iv(n), true
	case "DeepEqual":
		if a[0].P == nil || a[1].P == nil {
			return bv(a[0].P == nil && a[1].P == nil), true
		}
		x, y := a[0].P.(*Iface), a[1].P.(*Iface)
		if x.T != y.T {
			return V{}, true
		}
		return m.deepEq(x.T, x.V, y.V, 0), true
	}
	return V{}, false
}

func (m *M) deepEq(t *TI, a, b V, d int) V {
	if d > 40 {
		m.unsupported("DeepEqual depth")
	}
	switch t.K {
	case KPtr:
		if a.P == nil || b.P == nil || a.P == b.P {
			return bv(a.P == b.P)
		}
		return m.deepEq(t.Elem, *m.ptr(a), *m.ptr(b), d+1)
	case KSlice:
		if (a.P == nil) != (b.P == nil) {
			return V{}
		}
		x, y := slElems(a), slElems(b)
		if len(x) != len(y) {
			return V{}
		}
		if t.Elem.K == KInt && t.Elem.W == 8 {
			return m.bytesEq(x, y)
		}
		r := V{U: 1}
		for i := range x {
			r = m.and(r, m.deepEq(t.Elem, x[i], y[i], d+1))
		}
		return r
	case KArray:
		x, y := a.P.(*Agg).E, b.P.(*Agg).E
		if t.Elem.K == KInt && t.Elem.W == 8 {
			return m.bytesEq(x, y)
		}
		r := V{U: 1}
		for i := range x {
			r = m.and(r, m.deepEq(t.Elem, x[i], y[i], d+1))
		}
		return r
	case KStruct:
		x, y := a.P.(*Agg).E, b.P.(*Agg).E
		r := V{U: 1}
		for i := range x {
			r = m.and(r, m.deepEq(t.F[i], x[i], y[i], d+1))
		}
		return r
	case KMap:
		if (a.P == nil) != (b.P == nil) {
			return V{}
		}
		if a.P == b.P {
			return V{U: 1}
		}
		p, q := a.P.(*Map), b.P.(*Map)
		if p.n != q.n {
			return V{}
		}
		r := V{U: 1}
		for _, e := range p.ents {
			if e.dead {
				continue
			}
			f := m.mapFind(q, e.k)
			if f == nil {
				return V{}
			}
			r = m.and(r, m.deepEq(t.Elem, e.v, f.v, d+1))
		}
		return r
	case KIface:
		if a.P == nil || b.P == nil {
			return bv(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*Iface), b.P.(*Iface)
		if x.T != y.T {
			return V{}
		}
		return m.deepEq(x.T, x.V, y.V, d+1)
	case KFunc:
		return bv(a.P == nil && b.P == nil)
	case KOpaque:
		if t.T.String() == "math/big.Int" {
			return m.eq(m.tInt(), m.bigCmp(a, b), V{})
		}
		return bv(a == b)
	}
	return m.eq(t, a, b)
}

var _ = fmt.Sprint
var _ *smt.Term
