package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/zhiqiangxu/mondis/"

// doCall dispatches a call instruction.
func (x *Exec) doCall(st *State, call *ssa.CallCommon, k cont) {
	var args []Value
	for _, a := range call.Args {
		args = append(args, x.val(st, a))
	}
	x.curCall = call
	x.invokeValue(st, call, x.val(st, call.Value), args, k)
}

func (x *Exec) invokeValue(st *State, call *ssa.CallCommon, fv Value, args []Value, k cont) {
	if call.IsInvoke() {
		recv := fv
		switch r := recv.(type) {
		case IfaceV:
			if r.t == nil {
				x.oblige(st, "no-panic: method call on nil interface in "+st.top().fn.String(), x.c.False)
				return
			}
			m := x.V.prog.LookupMethod(r.t, call.Method.Pkg(), call.Method.Name())
			if m == nil {
				unsupported("method %s of %s", call.Method.Name(), r.t)
			}
			x.callStatic(st, m, append([]Value{r.v}, args...), nil, k)
			return
		case ErrV:
			if call.Method.Name() == "Error" {
				if r.code.isZero() {
					x.oblige(st, "no-panic: Error() on nil error", x.c.False)
					return
				}
				if r.code.Op != "int" {
					x.oblige(st, "no-panic: Error() on nil error", x.c.Not(x.c.Eq(r.code, x.c.Int(0))))
				}
				k(st, x.errText(r.code))
				return
			}
		case RType:
			r.invoke(x, st, call.Method.Name(), k)
			return
		case *ifaceSpec:
			r.invoke(x, st, call.Method.Name(), args, k)
			return
		}
		unsupported("invoke %s on %T", call.Method.Name(), recv)
	}
	f, ok := fv.(*FuncV)
	if !ok {
		unsupported("call of %T", fv)
	}
	if f == nil {
		x.oblige(st, "no-panic: call of nil function in "+st.top().fn.String(), x.c.False)
		return
	}
	x.callFunc(st, call, f, args, k)
}

type ifaceSpec struct {
	invoke func(x *Exec, st *State, method string, args []Value, k cont)
}

func (x *Exec) callFunc(st *State, call *ssa.CallCommon, f *FuncV, args []Value, k cont) {
	switch {
	case f.bi != nil:
		x.builtinCall(st, f.bi.Name(), call, args, k)
	case f.nat != nil:
		f.nat(x, st, args, k)
	default:
		x.callStatic(st, f.fn, args, f.binds, k)
	}
}

func (x *Exec) errText(code *Term) *Term {
	if code.Op == "int" {
		if s, ok := x.V.errMsg[code.N.Int64()]; ok {
			return x.c.Lit(s)
		}
	}
	return x.c.App("errText", SBytes, code)
}

// logCall: a logging function returns nothing of interest.
func (x *Exec) logCall(st *State, fn *ssa.Function, k cont) {
	res := fn.Signature.Results()
	var tv TupleV
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			tv = append(tv, Ptr{obj: x.newObj(st, &Object{kind: okOpaque, typ: p.Elem(), name: fn.Name()})})
		} else {
			tv = append(tv, x.zero(st, t))
		}
	}
	switch len(tv) {
	case 0:
		k(st, nil)
	case 1:
		k(st, tv[0])
	default:
		k(st, tv)
	}
}

// callStatic calls a known function: specification redirect, model, or inline execution.
func (x *Exec) callStatic(st *State, fn *ssa.Function, args []Value, binds []Value, k cont) {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if !x.pure() || true {
		if sp := x.V.specs[name]; sp != nil && !x.noRedir[name] {
			x.used[name] = true
			x.callFn(st, sp, args, nil, k)
			return
		}
	}
	if x.V.opaque[fn] && !x.openFn[fn] {
		k(st, x.opaqueApp(st, fn, args))
		return
	}
	if !x.pure() && !x.openFn[fn] && x.V.isSpecFn(fn) {
		k(st, x.evalPure(st, &FuncV{fn: fn}, args))
		return
	}
	if m, ok := models[name]; ok {
		m(x, st, fn, args, k)
		return
	}
	if fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/zzgvc") {
		if m, ok := gvcModels[fn.Name()]; ok && fn.Signature.Recv() == nil {
			m(x, st, fn, args, k)
			return
		}
		if fn.Signature.Recv() != nil {
			if m, ok := gvcModels["Map."+fn.Name()]; ok {
				m(x, st, fn, args, k)
				return
			}
		}
	}
	if fn.Pkg != nil && fn.Signature.Recv() == nil && fn.Name() == "ZZChan" {
		key := fmt.Sprintf("chan:%v", args[0])
		if v, ok := st.ghost[key]; ok {
			k(st, v)
			return
		}
		v := Ptr{obj: x.newObj(st, &Object{kind: okOpaque, typ: fn.Signature.Results().At(0).Type(), val: chanSrc{args[0], fn.Pkg.Func("ZZRecv")}, name: "chan"})}
		st.ghost[key] = v
		k(st, v)
		return
	}
	if fn.Pkg != nil && (strings.HasPrefix(fn.Pkg.Pkg.Path(), "go.uber.org/zap") || fn.Pkg.Pkg.Path() == "github.com/zhiqiangxu/util/logger") {
		x.note("logging has no effect on the properties")
		x.logCall(st, fn, k)
		return
	}
	if fn.Blocks == nil {
		// method wrappers etc. are synthesised with bodies; external functions are not
		unsupported("external function %s", name)
	}
	if fn.Pkg != nil && !x.V.inlineOK(fn) {
		unsupported("library function %s has no model", name)
	}
	x.callFn(st, fn, args, binds, k)
}

// opaqueApp applies an uninterpreted specification function.
func (x *Exec) opaqueApp(st *State, fn *ssa.Function, args []Value) Value {
	var ts []*Term
	for i, a := range args {
		switch v := a.(type) {
		case *Term:
			ts = append(ts, v)
		case SliceV:
			ts = append(ts, x.bytesOf(st, v))
		case GMap:
			ts = append(ts, v.has, v.val)
		case *StructV:
			ts = append(ts, x.flatten(st, a, fn.Signature.Params().At(i).Type())...)
		default:
			unsupported("opaque argument %T", a)
		}
	}
	res := fn.Signature.Results()
	mk := func(i int, t types.Type) Value {
		nm := "f_" + sanitize(fn.Pkg.Pkg.Name()) + "_" + fn.Name()
		if res.Len() > 1 {
			nm += fmt.Sprint(i)
		}
		s := SInt
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				s = SBytes
			} else if u.Info()&types.IsBoolean != 0 {
				s = SBool
			}
		case *types.Interface:
			return ErrV{x.c.App(nm, SInt, ts...)}
		default:
			unsupported("opaque result %s", t)
		}
		r := x.c.App(nm, s, ts...)
		if b, ok := t.Underlying().(*types.Basic); ok && s == SInt {
			if lo, hi, ok := intRange(b); ok && b.Kind() != types.Int {
				x.c.appRng[nm] = irange{lo, hi}
			}
		}
		return r
	}
	if res.Len() == 1 {
		return mk(0, res.At(0).Type())
	}
	var tv TupleV
	for i := 0; i < res.Len(); i++ {
		tv = append(tv, mk(i, res.At(i).Type()))
	}
	return tv
}

// ---------- builtins ----------

func (x *Exec) builtin(st *State, name string, call *ssa.CallCommon, args []Value) Value {
	c := x.c
	switch name {
	case "len":
		switch s := args[0].(type) {
		case SliceV:
			return s.ln
		case *Term:
			return c.Len(s)
		case ArrV:
			return c.Int(int64(s.n))
		case MapRef:
			return x.mapLen(st, s)
		case Ptr:
			if a, ok := call.Args[0].Type().Underlying().(*types.Pointer); ok {
				return c.Int(a.Elem().Underlying().(*types.Array).Len())
			}
		}
	case "cap":
		switch s := args[0].(type) {
		case SliceV:
			return s.cp
		case ArrV:
			return c.Int(int64(s.n))
		}
	case "copy":
		dst := args[0].(SliceV)
		var sarr, soff, sl *Term
		switch s := args[1].(type) {
		case SliceV:
			if !isByte(call.Args[0].Type().Underlying().(*types.Slice).Elem()) {
				return x.copyElems(st, dst, s)
			}
			if s.obj == 0 {
				return c.Int(0)
			}
			sarr, soff, sl = st.obj(s.obj).arr, s.off, s.ln
		case *Term:
			sarr, soff, sl = c.ArrOf(s), c.Int(0), c.Len(s)
		}
		n := x.min(st, dst.ln, sl)
		if dst.obj == 0 || n.isZero() {
			return n
		}
		x.setBytes(st, dst.obj, c.Cpy(st.obj(dst.obj).arr, dst.off, sarr, soff, n), "copy")
		return n
	case "append":
		s := args[0].(SliceV)
		et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			return s
		}
		switch v := args[1].(type) {
		case *Term: // append(b, string...)
			return x.appendBytes(st, s, c.ArrOf(v), c.Int(0), c.Len(v))
		case SliceV:
			if isByte(et) {
				if v.obj == 0 {
					return s
				}
				return x.appendBytes(st, s, st.obj(v.obj).arr, v.off, v.ln)
			}
			return x.appendElems(st, s, v, et)
		}
	case "print", "println":
		return nil
	case "min", "max":
		a, b := args[0].(*Term), args[1].(*Term)
		if name == "min" {
			return x.min(st, a, b)
		}
		return c.Ite(c.Le(a, b), b, a)
	}
	unsupported("builtin %s", name)
	return nil
}

func (x *Exec) copyElems(st *State, dst, src SliceV) Value {
	c := x.c
	n := x.min(st, dst.ln, src.ln)
	if dst.obj == 0 || src.obj == 0 || n.isZero() {
		return n
	}
	d, s := st.obj(dst.obj), st.obj(src.obj)
	if d.kind == okElems && s.kind == okElems && n.Op == "int" && dst.off.Op == "int" && src.off.Op == "int" {
		o := *d
		o.el = append([]Value(nil), d.el...)
		for i := int64(0); i < n.N.Int64(); i++ {
			o.el[dst.off.N.Int64()+i] = s.el[src.off.N.Int64()+i]
		}
		st.heap[dst.obj] = &o
		x.syncPeers(st, dst.obj)
		return n
	}
	d, s = x.toLeaf(st, dst.obj), x.toLeaf(st, src.obj)
	o := *d
	o.leaves = nil
	for j := range d.leaves {
		o.leaves = append(o.leaves, c.Cpy(d.leaves[j], dst.off, s.leaves[j], src.off, n))
	}
	st.heap[dst.obj] = &o
	x.syncPeers(st, dst.obj)
	return n
}

func (x *Exec) min(st *State, a, b *Term) *Term {
	le := x.c.Le(a, b)
	if x.entails(st, le) {
		return a
	}
	if x.entails(st, x.c.Le(b, a)) {
		return b
	}
	return x.c.Ite(le, a, b)
}

func (x *Exec) builtinCall(st *State, name string, call *ssa.CallCommon, args []Value, k cont) {
	switch name {
	case "delete":
		x.mapDelete(st, args[0].(MapRef), args[1], call.Args[0].Type())
		k(st, nil)
	case "panic":
		x.oblige(st, "no-panic: explicit panic", x.c.False)
	case "recover":
		k(st, IfaceV{})
	case "close":
		k(st, nil)
	case "ssa:wrapnilchk":
		k(st, args[0])
	default:
		k(st, x.builtin(st, name, call, args))
	}
}

// ---------- maps ----------

func (x *Exec) mapObj(st *State, m MapRef) *Object {
	o := st.obj(m.obj)
	if o == nil || o.kind != okMap {
		unsupported("map object")
	}
	return o
}

func (x *Exec) isSMap(st *State, m MapRef) bool {
	return m.obj != 0 && x.syncView(st, m.obj).kind == okSMap
}

func (x *Exec) mapLen(st *State, m MapRef) *Term {
	c := x.c
	if m.obj == 0 {
		return c.Int(0)
	}
	if x.isSMap(st, m) {
		return x.freshLen("maplen")
	}
	r := c.Int(0)
	for _, e := range x.mapObj(st, m).ments {
		r = c.Add(r, c.Ite(e.cond, c.Int(1), c.Int(0)))
	}
	return r
}

// mapFind forks over which entry matches key; entries have pairwise distinct keys when present.
func (x *Exec) mapFind(st *State, m MapRef, key Value, kt types.Type, k func(st *State, idx int)) {
	if m.obj == 0 {
		k(st, -1)
		return
	}
	ents := x.mapObj(st, m).ments
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i == len(ents) {
			k(st, -1)
			return
		}
		cond := x.c.And(ents[i].cond, x.equal(st, ents[i].key, key, kt))
		x.fork(st, cond, func(st *State) { k(st, i) }, func(st *State) { rec(st, i+1) })
	}
	rec(st, 0)
}

func (x *Exec) lookup(st *State, n *ssa.Lookup, k cont) {
	c := x.c
	v := x.val(st, n.X)
	if s, ok := v.(*Term); ok { // string index
		i := x.val(st, n.Index).(*Term)
		x.oblige(st, "no-panic: index in range in "+st.top().fn.String(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Len(s))))
		k(st, c.Bat(s, i))
		return
	}
	m, ok := v.(MapRef)
	if !ok {
		unsupported("lookup in %T", v)
	}
	mt := n.X.Type().Underlying().(*types.Map)
	key := x.val(st, n.Index)
	if x.isSMap(st, m) {
		o := st.obj(m.obj)
		kt := key.(*Term)
		has := c.Select(o.has, kt)
		fin := func(st *State, r Value, ok bool) {
			if n.CommaOk {
				r = TupleV{r, c.Bool(ok)}
			}
			k(st, r)
		}
		x.fork(st, has, func(st *State) {
			var ts []*Term
			for _, l := range o.leaves {
				ts = append(ts, c.Select(l, kt))
			}
			r, _ := x.unflattenAt(st, ts, mt.Elem(), &leafAt{m.obj, kt, 0})
			fin(st, r, true)
		}, func(st *State) { fin(st, x.zero(st, mt.Elem()), false) })
		return
	}
	x.mapFind(st, m, key, mt.Key(), func(st *State, idx int) {
		var r Value
		if idx < 0 {
			r = x.zero(st, mt.Elem())
		} else {
			r = x.mapObj(st, m).ments[idx].val
		}
		if n.CommaOk {
			r = TupleV{r, c.Bool(idx >= 0)}
		}
		k(st, r)
	})
}

func (x *Exec) mapUpdate(st *State, n *ssa.MapUpdate) {
	m, ok := x.val(st, n.Map).(MapRef)
	if !ok {
		unsupported("map update on %T", x.val(st, n.Map))
	}
	if m.obj == 0 {
		x.oblige(st, "no-panic: assignment to entry in nil map in "+st.top().fn.String(), x.c.False)
		return
	}
	if m.nilc != nil {
		x.oblige(st, "no-panic: assignment to entry in nil map in "+st.top().fn.String(), x.c.Not(m.nilc))
		st.assume(x.c.Not(m.nilc))
	}
	mt := n.Map.Type().Underlying().(*types.Map)
	x.mapPut(st, m, x.val(st, n.Key), x.val(st, n.Value), mt)
}

// mapPut updates without forking: existing entries with a maybe-equal key become conditional.
func (x *Exec) mapPut(st *State, m MapRef, key, val Value, mt *types.Map) {
	c := x.c
	if x.isSMap(st, m) {
		o := *st.obj(m.obj)
		if o.frozen {
			x.oblige(st, "no write to retained or shared memory ("+o.why+")", x.c.False)
		}
		kt := key.(*Term)
		o.has = c.Store(o.has, kt, c.True)
		o.leaves = append([]*Term(nil), o.leaves...)
		for j, l := range x.flatten(st, val, mt.Elem()) {
			o.leaves[j] = c.Store(o.leaves[j], kt, l)
		}
		st.heap[m.obj] = &o
		x.putView(st, m.obj)
		return
	}
	o := *x.mapObj(st, m)
	var out []mapEntry
	placed := false
	for _, e := range o.ments {
		eq := x.equal(st, e.key, key, mt.Key())
		if eq.IsTrue() || x.entails(st, c.And(eq, e.cond)) {
			out = append(out, mapEntry{e.key, val, c.True})
			placed = true
			continue
		}
		if !eq.IsFalse() && x.entails(st, c.Not(eq)) {
			eq = c.False
		}
		cond := c.And(e.cond, c.Not(eq))
		if cond.IsFalse() {
			continue
		}
		out = append(out, mapEntry{e.key, e.val, cond})
	}
	if !placed {
		out = append(out, mapEntry{key, val, c.True})
	}
	o.ments = out
	st.heap[m.obj] = &o
}

func (x *Exec) mapDelete(st *State, m MapRef, key Value, t types.Type) {
	if m.obj == 0 {
		return
	}
	c := x.c
	mt := t.Underlying().(*types.Map)
	if x.isSMap(st, m) {
		o := *st.obj(m.obj)
		if o.frozen {
			x.oblige(st, "no write to retained or shared memory ("+o.why+")", x.c.False)
		}
		o.has = c.Store(o.has, key.(*Term), c.False)
		st.heap[m.obj] = &o
		x.putView(st, m.obj)
		return
	}
	o := *x.mapObj(st, m)
	var out []mapEntry
	for _, e := range o.ments {
		eq := x.equal(st, e.key, key, mt.Key())
		cond := c.And(e.cond, c.Not(eq))
		if cond.IsFalse() {
			continue
		}
		out = append(out, mapEntry{e.key, e.val, cond})
	}
	o.ments = out
	st.heap[m.obj] = &o
}

type iterV struct {
	concrete bool
	m        MapRef
	ents     []mapEntry
	pos      int   // object holding position
	order    *Term // symbolic maps: the keys in the order of iteration
	n        *Term
	has      *Term
	keypos   *Term
	str      *Term
}

func (x *Exec) rangeInit(st *State, n *ssa.Range, k cont) bool {
	switch v := x.val(st, n.X).(type) {
	case MapRef:
		it := &iterV{concrete: true, m: v}
		if x.isSMap(st, v) {
			x.smapOrder(st, it)
		} else if v.obj != 0 {
			it.ents = x.mapObj(st, v).ments
		}
		it.pos = x.newObj(st, &Object{kind: okCell, typ: types.Typ[types.Int], val: x.c.Int(0), name: "iter"})
		k(st, it)
	default:
		unsupported("range over %T", v)
	}
	return false
}

// smapOrder: an iteration visits every key exactly once, in any order.
func (x *Exec) smapOrder(st *State, it *iterV) {
	c := x.c
	o := st.obj(it.m.obj)
	ks, _ := sortParts(o.has.S)
	it.has = o.has
	it.order = c.Var("order", arrSort(ks))
	it.n = x.freshLen("keys")
	pos := c.Var("keypos", mapSort(ks, SInt))
	it.keypos = pos
	i := c.BVar("i", SInt)
	ki := c.Select(it.order, i)
	st.assume(c.Quant("forall", []*Term{i}, [][]*Term{{ki}}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, it.n)), c.And(c.Select(o.has, ki), c.Eq(c.Select(pos, ki), i)))))
	b := c.BVar("k", ks)
	pb := c.Select(pos, b)
	trig := [][]*Term{{pb}}
	var find func(t *Term)
	find = func(t *Term) {
		if t.Op == "select" && t.Args[1] == b {
			trig = append(trig, []*Term{t})
			return
		}
		for _, a := range t.Args {
			find(a)
		}
	}
	find(c.Select(o.has, b))
	st.assume(c.Quant("forall", []*Term{b}, trig, c.Implies(c.Select(o.has, b), c.And(c.Le(c.Int(0), pb), c.Lt(pb, it.n), c.Eq(c.Select(it.order, pb), b)))))
}

func (x *Exec) next(st *State, n *ssa.Next, k cont) {
	it, ok := x.val(st, n.Iter).(*iterV)
	if !ok {
		unsupported("next on %T", x.val(st, n.Iter))
	}
	rt := n.Type().(*types.Tuple)
	set := func(st *State, i int) {
		o := *st.obj(it.pos)
		o.val = x.c.Int(int64(i))
		st.heap[it.pos] = &o
	}
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i >= len(it.ents) {
			set(st, i)
			kv := func(t types.Type) Value {
				if t == types.Typ[types.Invalid] {
					return nil
				}
				return x.zero(st, t)
			}
			k(st, TupleV{x.c.False, kv(rt.At(1).Type()), kv(rt.At(2).Type())})
			return
		}
		// entry may have been deleted or updated during iteration: consult current map
		e := it.ents[i]
		cur := x.mapObj(st, it.m).ments
		cond := x.c.False
		val := e.val
		for _, ce := range cur {
			same := false
			if ct, ok := ce.key.(*Term); ok && ct == e.key {
				same = true
			}
			if same {
				cond, val = ce.cond, ce.val
			}
		}
		if _, ok := e.key.(*Term); !ok {
			cond = e.cond
		}
		x.fork(st, cond, func(st *State) {
			set(st, i+1)
			k(st, TupleV{x.c.True, e.key, val})
		}, func(st *State) { rec(st, i+1) })
	}
	pos := st.obj(it.pos).val.(*Term)
	if it.order != nil {
		c := x.c
		mt := st.obj(it.m.obj).typ.Underlying().(*types.Map)
		kv := func(t types.Type, v Value) Value {
			if t == types.Typ[types.Invalid] {
				return nil
			}
			return v
		}
		if o := x.syncView(st, it.m.obj); o.has != it.has {
			unsupported("a map modified while it is ranged over")
		}
		x.fork(st, c.Lt(pos, it.n), func(st *State) {
			o := *st.obj(it.pos)
			o.val = c.Add(pos, c.Int(1))
			st.heap[it.pos] = &o
			m := st.obj(it.m.obj)
			key := c.Select(it.order, pos)
			var ts []*Term
			for _, l := range m.leaves {
				ts = append(ts, c.Select(l, key))
			}
			kval, _ := x.unflatten(st, []*Term{key}, mt.Key())
			val, _ := x.unflattenAt(st, ts, mt.Elem(), &leafAt{it.m.obj, key, 0})
			k(st, TupleV{c.True, kv(rt.At(1).Type(), kval), kv(rt.At(2).Type(), val)})
		}, func(st *State) {
			z := func(t types.Type) Value {
				if t == types.Typ[types.Invalid] {
					return nil
				}
				return x.zero(st, t)
			}
			k(st, TupleV{c.False, z(rt.At(1).Type()), z(rt.At(2).Type())})
		})
		return
	}
	rec(st, int(pos.N.Int64()))
}

// ---------- pure evaluation ----------

type pureRes struct {
	cond []*Term
	v    Value
}

// evalPure evaluates a function on a copy of the state and merges its paths into one value.
func (x *Exec) evalPure(st *State, f *FuncV, args []Value) Value {
	s := st.clone()
	x.pureD++
	base := s.pc
	var rs []pureRes
	func() {
		defer func() { x.pureD-- }()
		x.callFunc(s, nil, f, args, func(s2 *State, v Value) {
			var cs []*Term
			for n := s2.pc; n != base && n != nil; n = n.prev {
				if n.branch {
					cs = append(cs, n.t)
				}
			}
			for i, j := 0, len(cs)-1; i < j; i, j = i+1, j-1 {
				cs[i], cs[j] = cs[j], cs[i]
			}
			rs = append(rs, pureRes{cs, v})
		})
	}()
	if len(rs) == 0 {
		unsupported("specification has no result")
	}
	return x.mergePure(rs)
}

func (x *Exec) mergePure(rs []pureRes) Value {
	c := x.c
	switch rs[0].v.(type) {
	case *Term:
		if t := x.mergeTree(rs, 0); t != nil {
			return t
		}
		t := rs[len(rs)-1].v.(*Term)
		if t.S == SBool {
			var ds []*Term
			for _, r := range rs {
				ds = append(ds, c.And(c.And(r.cond...), r.v.(*Term)))
			}
			return c.Or(ds...)
		}
		for i := len(rs) - 2; i >= 0; i-- {
			t = c.Ite(c.And(rs[i].cond...), rs[i].v.(*Term), t)
		}
		return t
	case nil:
		return nil
	}
	if len(rs) == 1 {
		return rs[0].v
	}
	if _, ok := rs[0].v.(GMap); ok {
		g := rs[len(rs)-1].v.(GMap)
		for i := len(rs) - 2; i >= 0; i-- {
			q := rs[i].v.(GMap)
			cd := c.And(rs[i].cond...)
			g = GMap{c.Ite(cd, q.has, g.has), c.Ite(cd, q.val, g.val)}
		}
		return g
	}
	unsupported("cannot merge specification results of type %T", rs[0].v)
	return nil
}

// callPure evaluates a native/spec function value on bound args.
func (x *Exec) callPure(st *State, fv Value, args ...Value) Value {
	f, ok := fv.(*FuncV)
	if !ok || f == nil {
		unsupported("specification closure %T", fv)
	}
	return x.evalPure(st, f, args)
}

func (x *Exec) rangesOf(v Value, t types.Type) *Term {
	c := x.c
	if tt, ok := v.(*Term); ok && tt.S == SInt {
		if b, ok := t.Underlying().(*types.Basic); ok {
			if lo, hi, ok := intRange(b); ok {
				return c.And(c.Le(c.Big(lo), tt), c.Le(tt, c.Big(hi)))
			}
			if b.Info()&types.IsFloat != 0 {
				return c.And(c.Le(c.Int(0), tt), c.Le(tt, c.Big(new(big.Int).SetUint64(^uint64(0)))))
			}
		}
	}
	return c.True
}

// isSpecFn: side-effect free specification functions over scalars are evaluated as terms.
func (V *Verifier) isSpecFn(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Parent() != nil || fn.Signature.Recv() != nil || !strings.HasPrefix(fn.Name(), "zz") && !strings.HasPrefix(fn.Name(), "ZZ") {
		return false
	}
	sc := func(t types.Type) bool {
		if isGMap(t) {
			return true
		}
		_, ok := t.Underlying().(*types.Basic)
		return ok
	}
	if fn.Signature.Results().Len() != 1 || !sc(fn.Signature.Results().At(0).Type()) {
		return false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if !sc(fn.Signature.Params().At(i).Type()) {
			return false
		}
	}
	return V.specFns[fn] == ""
}

// mergeTree rebuilds the decision tree of the explored paths.
func (x *Exec) mergeTree(rs []pureRes, d int) *Term {
	if len(rs) == 1 {
		t, _ := rs[0].v.(*Term)
		return t
	}
	if len(rs) == 0 || len(rs[0].cond) <= d {
		return nil
	}
	q := rs[0].cond[d]
	nq := x.c.Not(q)
	var a, b []pureRes
	for _, r := range rs {
		if len(r.cond) <= d {
			return nil
		}
		switch r.cond[d] {
		case q:
			a = append(a, r)
		case nq:
			b = append(b, r)
		default:
			return nil
		}
	}
	ta := x.mergeTree(a, d+1)
	if ta == nil {
		return nil
	}
	if len(b) == 0 {
		return ta
	}
	tb := x.mergeTree(b, d+1)
	if tb == nil {
		return nil
	}
	return x.c.Ite(q, ta, tb)
}

// logicalRegion finds the end of a short-circuit expression of a specification that starts at b and has no effects.
func (x *Exec) logicalRegion(b *ssa.BasicBlock) *ssa.BasicBlock {
	if j, ok := x.regions[b]; ok {
		return j
	}
	if x.regions == nil {
		x.regions = map[*ssa.BasicBlock]*ssa.BasicBlock{}
	}
	x.regions[b] = nil
	fn := b.Parent()
	root := fn
	for root.Parent() != nil {
		root = root.Parent()
	}
	if n := root.Name(); !strings.HasPrefix(n, "zz") && !strings.HasPrefix(n, "ZZ") {
		return nil
	}
	for _, j := range b.Dominees() {
		if j.Comment != "binop.done" {
			continue
		}
		seen := map[*ssa.BasicBlock]bool{j: true}
		ok := true
		var walk func(q *ssa.BasicBlock)
		walk = func(q *ssa.BasicBlock) {
			if seen[q] || !ok {
				return
			}
			seen[q] = true
			if !b.Dominates(q) || q == b {
				ok = false
				return
			}
			for _, in := range q.Instrs {
				if !x.pureInstr(in) {
					ok = false
					return
				}
			}
			for _, s := range q.Succs {
				walk(s)
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
		if ok {
			x.regions[b] = j
			return j
		}
	}
	return nil
}

func (x *Exec) pureInstr(in ssa.Instruction) bool {
	switch n := in.(type) {
	case *ssa.BinOp, *ssa.UnOp, *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Field, *ssa.Index, *ssa.If, *ssa.Jump, *ssa.Extract, *ssa.Slice, *ssa.DebugRef:
		if u, ok := n.(*ssa.UnOp); ok && u.Op == token.ARROW {
			return false
		}
		return true
	case *ssa.Call:
		switch f := n.Call.Value.(type) {
		case *ssa.Builtin:
			return f.Name() == "len" || f.Name() == "cap"
		case *ssa.Function:
			if x.V.isSpecFn(f) || x.V.opaque[f] {
				return true
			}
			if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/zzgvc") {
				switch f.Name() {
				case "Has", "Get", "Put", "Del", "At", "Sub", "Cmp", "FirstDiff", "HasPrefix", "BE64", "Byte", "ScanPos", "ScanAt", "ScanLen", "Int":
					return true
				}
			}
		}
	}
	return false
}

// mergeRegion evaluates a short-circuit expression to one term instead of forking on its operands.
func (x *Exec) mergeRegion(st *State, n *ssa.If, b, j *ssa.BasicBlock, k cont) (done bool) {
	var phis []*ssa.Phi
	for _, in := range j.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	if len(phis) == 0 {
		return false
	}
	res := make([][]pureRes, len(phis))
	ok := func() (ok bool) {
		depth := len(st.frames)
		oStop, oDepth, oFn, oP := x.stopAt, x.stopDepth, x.stopFn, x.pureD
		defer func() {
			x.stopAt, x.stopDepth, x.stopFn, x.pureD = oStop, oDepth, oFn, oP
			if r := recover(); r != nil {
				if _, u := r.(unsup); !u {
					panic(r)
				}
				ok = false
			}
		}()
		s := st.clone()
		base := s.pc
		x.pureD++
		x.stopAt, x.stopDepth = j, depth
		x.stopFn = func(s2 *State, prev *ssa.BasicBlock) {
			var cs []*Term
			for n := s2.pc; n != base && n != nil; n = n.prev {
				if n.branch {
					cs = append(cs, n.t)
				}
			}
			for i, j := 0, len(cs)-1; i < j; i, j = i+1, j-1 {
				cs[i], cs[j] = cs[j], cs[i]
			}
			x.phis(s2, j, prev)
			for i, ph := range phis {
				res[i] = append(res[i], pureRes{cs, s2.top().env[ph]})
			}
		}
		c := x.val(s, n.Cond).(*Term)
		x.fork(s, c, func(st *State) { x.block(st, b.Succs[0], b, nil) }, func(st *State) { x.block(st, b.Succs[1], b, nil) })
		return true
	}()
	if !ok || len(res[0]) == 0 {
		return false
	}
	vals := make([]Value, len(phis))
	for i := range phis {
		if _, t := res[i][0].v.(*Term); !t {
			return false
		}
		vals[i] = x.mergePure(res[i])
	}
	for i, ph := range phis {
		st.top().env[ph] = vals[i]
	}
	x.instrs(st, j, k)
	return true
}
