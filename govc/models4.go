package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Library models: sync.Map (a table that is empty until the contract fills it) and the part of reflect that builds
// slices of a type known from the contract.

// SyncMapV is the content of a sync.Map; it is never changed in place.
type SyncMapV struct{ ents []mapEntry }

// RType is a reflect.Type, RVal a reflect.Value (addr.obj is 0 unless it is addressable).
type RType struct{ t types.Type }

// RVal is a reflect.Value.
type RVal struct {
	t    types.Type
	addr Ptr
	v    Value
}

func (x *Exec) syncMap(st *State, v Value, k func(st *State, m *SyncMapV, put func(*State, *SyncMapV))) {
	p, ok := v.(Ptr)
	if !ok || p.obj == 0 {
		unsupported("sync.Map that is %T", v)
	}
	key := fmt.Sprintf("syncmap:%d%s", p.obj, p.path)
	m, ok := st.ghost[key].(*SyncMapV)
	if !ok {
		x.note("a sync.Map holds nothing but what the contract put into it")
		m = &SyncMapV{}
	}
	k(st, m, func(st *State, m *SyncMapV) { st.ghost[key] = m })
}

func (x *Exec) syncFind(st *State, m *SyncMapV, key Value, k func(st *State, i int)) {
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i < 0 {
			k(st, -1)
			return
		}
		a, ok1 := m.ents[i].key.(IfaceV)
		b, ok2 := key.(IfaceV)
		if !ok1 || !ok2 || a.t == nil || b.t == nil {
			unsupported("key of a sync.Map")
		}
		if !types.Identical(a.t, b.t) {
			rec(st, i-1)
			return
		}
		x.fork(st, x.equal(st, a.v, b.v, a.t), func(st *State) { k(st, i) }, func(st *State) { rec(st, i-1) })
	}
	rec(st, len(m.ents)-1)
}

func init() {
	with := func(m *SyncMapV, i int, key, val Value) *SyncMapV {
		n := &SyncMapV{}
		for j, e := range m.ents {
			if j != i {
				n.ents = append(n.ents, e)
			}
		}
		if key != nil {
			n.ents = append(n.ents, mapEntry{key: key, val: val})
		}
		return n
	}
	models["(*sync.Map).Load"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		x.syncMap(st, args[0], func(st *State, m *SyncMapV, put func(*State, *SyncMapV)) {
			x.syncFind(st, m, args[1], func(st *State, i int) {
				if i < 0 {
					k(st, TupleV{IfaceV{}, x.c.False})
					return
				}
				k(st, TupleV{m.ents[i].val, x.c.True})
			})
		})
	}
	models["(*sync.Map).Store"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		x.syncMap(st, args[0], func(st *State, m *SyncMapV, put func(*State, *SyncMapV)) {
			x.syncFind(st, m, args[1], func(st *State, i int) {
				put(st, with(m, i, args[1], args[2]))
				k(st, nil)
			})
		})
	}
	models["(*sync.Map).LoadOrStore"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		x.syncMap(st, args[0], func(st *State, m *SyncMapV, put func(*State, *SyncMapV)) {
			x.syncFind(st, m, args[1], func(st *State, i int) {
				if i >= 0 {
					k(st, TupleV{m.ents[i].val, x.c.True})
					return
				}
				put(st, with(m, -1, args[1], args[2]))
				k(st, TupleV{args[2], x.c.False})
			})
		})
	}
	models["(*sync.Map).Delete"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		x.syncMap(st, args[0], func(st *State, m *SyncMapV, put func(*State, *SyncMapV)) {
			x.syncFind(st, m, args[1], func(st *State, i int) {
				if i >= 0 {
					put(st, with(m, i, nil, nil))
				}
				k(st, nil)
			})
		})
	}

	// reflect
	models["reflect.TypeOf"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		i, ok := args[0].(IfaceV)
		if !ok || i.t == nil {
			unsupported("reflect.TypeOf of %T", args[0])
		}
		k(st, RType{i.t})
	}
	models["reflect.ValueOf"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		i, ok := args[0].(IfaceV)
		if !ok || i.t == nil {
			unsupported("reflect.ValueOf of %T", args[0])
		}
		k(st, RVal{t: i.t, v: i.v})
	}
	rval := func(x *Exec, st *State, v Value) RVal {
		r, ok := v.(RVal)
		if !ok {
			unsupported("reflect.Value that is %T", v)
		}
		if r.addr.obj != 0 {
			r.v = x.load(st, r.addr, r.t)
		}
		return r
	}
	elem := func(x *Exec, st *State, r RVal) RVal {
		pt, ok := r.t.Underlying().(*types.Pointer)
		p, ok2 := r.v.(Ptr)
		if !ok || !ok2 || p.obj == 0 {
			unsupported("reflect: element of %s", r.t)
		}
		x.nonNil(st, p)
		return RVal{t: pt.Elem(), addr: p}
	}
	models["reflect.Indirect"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		r := rval(x, st, args[0])
		if _, ok := r.t.Underlying().(*types.Pointer); !ok {
			k(st, args[0])
			return
		}
		k(st, elem(x, st, r))
	}
	models["(reflect.Value).Elem"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		k(st, elem(x, st, rval(x, st, args[0])))
	}
	models["reflect.New"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		t, ok := args[0].(RType)
		if !ok {
			unsupported("reflect.New of %T", args[0])
		}
		id := x.newObj(st, x.allocObj(st, t.t, "reflect.New"))
		k(st, RVal{t: types.NewPointer(t.t), v: Ptr{obj: id}})
	}
	models["(reflect.Value).Interface"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		r := rval(x, st, args[0])
		k(st, IfaceV{r.t, r.v})
	}
	models["(reflect.Value).Set"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		r, ok := args[0].(RVal)
		v := rval(x, st, args[1])
		if !ok || r.addr.obj == 0 || !types.Identical(r.t, v.t) {
			unsupported("reflect: Set")
		}
		x.store(st, r.addr, v.v)
		k(st, nil)
	}
	models["(reflect.Value).Len"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		s, ok := rval(x, st, args[0]).v.(SliceV)
		if !ok {
			unsupported("reflect: Len")
		}
		k(st, s.ln)
	}
	models["reflect.Append"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		r := rval(x, st, args[0])
		s, ok := r.v.(SliceV)
		xs, ok2 := args[1].(SliceV)
		if !ok || !ok2 || xs.ln.Op != "int" || xs.off.Op != "int" || xs.obj == 0 || st.obj(xs.obj).kind != okElems {
			unsupported("reflect: Append")
		}
		et := r.t.Underlying().(*types.Slice).Elem()
		o := &Object{kind: okElems, typ: et, name: "reflect.Append"}
		for i := xs.off.N.Int64(); i < xs.off.N.Int64()+xs.ln.N.Int64(); i++ {
			e := rval(x, st, st.obj(xs.obj).el[i])
			if !types.Identical(e.t, et) {
				unsupported("reflect: Append of %s", e.t)
			}
			o.el = append(o.el, e.v)
		}
		o.n = len(o.el)
		id := x.newObj(st, o)
		n := x.c.Int(int64(o.n))
		k(st, RVal{t: r.t, v: x.appendElems(st, s, SliceV{nilc: x.c.False, obj: id, off: x.c.Int(0), ln: n, cp: n}, et)})
	}
}

func (t RType) invoke(x *Exec, st *State, method string, k cont) {
	switch method {
	case "Elem":
		switch u := t.t.Underlying().(type) {
		case *types.Pointer:
			k(st, RType{u.Elem()})
			return
		case *types.Slice:
			k(st, RType{u.Elem()})
			return
		}
	}
	unsupported("reflect.Type.%s", method)
}

// sprintf: texts, numbers in base 10 and what lies between them; any other format gives an arbitrary text.
func (x *Exec) sprintf(st *State, args []Value) Value {
	c := x.c
	f, ok := c.litOf[args[0].(*Term)]
	els := x.varargs(st, args[1])
	r := c.Lit("")
	for i, n := 0, 0; ok; {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			if n != len(els) {
				break
			}
			return c.Cat(r, c.Lit(f[i:]))
		}
		r = c.Cat(r, c.Lit(f[i:i+j]))
		if i += j + 1; i >= len(f) || n >= len(els) {
			break
		}
		e, isIface := els[n].(IfaceV)
		if !isIface || e.t == nil || types.NewMethodSet(e.t).Len() > 0 {
			break
		}
		var t *Term
		u := e.t.Underlying()
		if b, basic := u.(*types.Basic); basic && f[i] == 'd' && b.Info()&types.IsInteger != 0 {
			if b.Info()&types.IsUnsigned != 0 && b.Kind() == types.Uint64 || b.Kind() == types.Uint || b.Kind() == types.Uintptr {
				break
			}
			t = x.human(st, e.v.(*Term))
		} else if f[i] == 's' && (basic && b.Info()&types.IsString != 0) {
			t = e.v.(*Term)
		} else if sl, isSl := u.(*types.Slice); f[i] == 's' && isSl && isByte(sl.Elem()) {
			t = x.bs(st, e.v)
		} else {
			break
		}
		r = c.Cat(r, t)
		n++
		i++
	}
	return c.Var("sprintf", SBytes)
}
