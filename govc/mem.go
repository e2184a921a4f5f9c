package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) newObj(st *State, o *Object) int {
	x.nobj++
	st.heap[x.nobj] = o
	return x.nobj
}

func pathKey(els []pelem) string {
	var sb strings.Builder
	for _, e := range els {
		if e.idx != nil {
			fmt.Fprintf(&sb, "[%d]", e.idx.id)
		} else {
			fmt.Fprintf(&sb, ".%d", e.field)
		}
	}
	return sb.String()
}

func (p Ptr) with(e pelem) Ptr {
	els := append(append([]pelem(nil), p.els...), e)
	return Ptr{obj: p.obj, els: els, path: pathKey(els)}
}

// zero value of a type.
func (x *Exec) zero(st *State, t types.Type) Value {
	c := x.c
	if isGMap(t) {
		return GMap{c.ConstArr(SABZ, c.False), c.ConstArr(SABB, c.Lit(""))}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.False
		case u.Info()&types.IsString != 0:
			return c.Lit("")
		case u.Info()&(types.IsInteger|types.IsFloat) != 0:
			return c.Int(0)
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Slice:
		return SliceV{nilc: c.True, obj: 0, off: c.Int(0), ln: c.Int(0), cp: c.Int(0)}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, x.zero(st, u.Field(i).Type()))
		}
		return s
	case *types.Pointer:
		return Ptr{}
	case *types.Map:
		return MapRef{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		if isError(t) {
			return ErrV{c.Int(0)}
		}
		return IfaceV{}
	case *types.Array:
		n := int(u.Len())
		if isByte(u.Elem()) {
			return ArrV{bytes: c.ConstArr(SAII, c.Int(0)), n: n}
		}
		a := ArrV{n: n}
		for i := 0; i < n; i++ {
			a.el = append(a.el, x.zero(st, u.Elem()))
		}
		return a
	case *types.Chan:
		return Ptr{}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.zero(st, u.At(i).Type()))
		}
		return tv
	}
	unsupported("zero of %s", t)
	return nil
}

// freshInt makes a typed integer variable.
func (x *Exec) freshInt(hint string, t types.Type) *Term {
	v := x.c.Var(hint, SInt)
	if b, ok := t.Underlying().(*types.Basic); ok {
		if lo, hi, ok := intRange(b); ok {
			x.c.rng[v] = irange{lo, hi}
		} else if b.Info()&types.IsFloat != 0 {
			x.c.rng[v] = irange{new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, 64), one)}
		}
	}
	return v
}

func (x *Exec) freshLen(hint string) *Term {
	v := x.c.Var(hint, SInt)
	x.c.rng[v] = irange{new(big.Int), maxLen}
	return v
}

// fresh symbolic value of a type.
func (x *Exec) fresh(st *State, hint string, t types.Type) Value {
	c := x.c
	if isGMap(t) {
		return GMap{c.Var(hint+"_has", SABZ), c.Var(hint+"_val", SABB)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.Var(hint, SBool)
		case u.Info()&types.IsString != 0:
			return c.Var(hint, SBytes)
		case u.Info()&(types.IsInteger|types.IsFloat) != 0:
			return x.freshInt(hint, t)
		}
	case *types.Slice:
		nilc := c.Var(hint+"_nil", SBool)
		cp := x.freshLen(hint + "_cap")
		if isByte(u.Elem()) {
			s := c.Var(hint, SBytes)
			o := x.newObj(st, &Object{kind: okBytes, arr: c.ArrOf(s), typ: u.Elem(), name: hint})
			ln := c.Len(s)
			st.assume(c.Implies(nilc, c.Eq(cp, c.Int(0))))
			st.assume(c.Le(ln, cp))
			return SliceV{nilc: nilc, obj: o, off: c.Int(0), ln: ln, cp: cp}
		}
		ss, ok := leafSorts(u.Elem())
		if !ok {
			unsupported("fresh slice of %s", u.Elem())
		}
		ob := &Object{kind: okLeaf, typ: u.Elem(), name: hint}
		for i, s := range ss {
			ob.leaves = append(ob.leaves, c.Var(fmt.Sprintf("%s_l%d", hint, i), arrSort(s)))
		}
		o := x.newObj(st, ob)
		ln := x.freshLen(hint + "_len")
		st.assume(c.Implies(nilc, c.Eq(cp, c.Int(0))))
		st.assume(c.Le(ln, cp))
		return SliceV{nilc: nilc, obj: o, off: c.Int(0), ln: ln, cp: cp}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, x.fresh(st, hint+"_"+u.Field(i).Name(), u.Field(i).Type()))
		}
		return s
	case *types.Map:
		o := x.freshSMap(st, hint, t)
		nilc := c.Var(hint+"_nil", SBool)
		o.has = c.Ite(nilc, c.ConstArr(o.has.S, c.False), o.has)
		return MapRef{obj: x.newObj(st, o), nilc: nilc}
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			v := x.fresh(st, hint, u.Elem())
			return Ptr{obj: x.newObj(st, &Object{kind: okCell, typ: u.Elem(), val: v, name: hint}), nilc: c.Var(hint+"_nil", SBool)}
		}
	case *types.Interface:
		if isError(t) {
			v := c.Var(hint, SInt)
			c.rng[v] = irange{new(big.Int), nil}
			return ErrV{v}
		}
	case *types.Array:
		n := int(u.Len())
		if isByte(u.Elem()) {
			return ArrV{bytes: c.ArrOf(c.Var(hint, SBytes)), n: n}
		}
		a := ArrV{n: n}
		for i := 0; i < n; i++ {
			a.el = append(a.el, x.fresh(st, fmt.Sprintf("%s_%d", hint, i), u.Elem()))
		}
		return a
	}
	unsupported("fresh of %s", t)
	return nil
}

// zeroLeaves is the flattened zero value.
func (x *Exec) zeroLeaves(st *State, t types.Type) []*Term {
	ss, ok := leafSorts(t)
	if !ok {
		unsupported("zero of %s in a symbolic collection", t)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return append([]*Term{x.c.True}, x.zeroLeaves(st, p.Elem())...)
	}
	var out []*Term
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		for _, s := range ss {
			out = append(out, x.zeroSort(s))
		}
		for i, s := range ss {
			if s == SBool {
				out[i] = x.c.True
				break
			}
		}
		return out
	}
	return x.flatten(st, x.zero(st, t), t)
}

// zeroSort is some value of a sort.
func (x *Exec) zeroSort(s Sort) *Term {
	switch s {
	case SInt:
		return x.c.Int(0)
	case SBool:
		return x.c.False
	case SBytes:
		return x.c.Lit("")
	}
	return x.c.ConstArr(s, x.zeroSort(elemSort(s)))
}

// flatten a value to leaf terms.
func (x *Exec) flatten(st *State, v Value, t types.Type) []*Term {
	c := x.c
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := v.(SliceV)
		if s.obj != 0 {
			x.noScratch(st, s.obj)
			x.freeze(st, s, "stored in a symbolic collection")
		}
		if !isByte(u.Elem()) {
			if s.obj == 0 {
				return x.zeroLeaves(st, t)
			}
			o := x.toLeaf(st, s.obj)
			out := []*Term{s.ln, s.nilc}
			for _, l := range o.leaves {
				if !s.off.isZero() {
					l = c.Cpy(l, c.Int(0), l, s.off, s.ln)
				}
				out = append(out, l)
			}
			return out
		}
		return []*Term{x.bytesOf(st, s), s.nilc}
	case *types.Struct:
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.flatten(st, v.(*StructV).f[i], u.Field(i).Type())...)
		}
		return out
	case *types.Pointer:
		p := v.(Ptr)
		if p.obj == 0 {
			return x.zeroLeaves(st, t)
		}
		nilc := c.False
		if p.nilc != nil {
			nilc = p.nilc
		}
		out := append([]*Term{nilc}, x.flatten(st, x.load(st, p, u.Elem()), u.Elem())...)
		if o := st.obj(p.obj); o.kind == okCell && !o.frozen {
			n := *o
			n.frozen, n.why = true, "stored in a symbolic collection"
			st.heap[p.obj] = &n
		} else if o.kind == okFwd {
			x.note("pointers copied between symbolic collections are assumed not to be written through")
		}
		return out
	case *types.Map:
		m := v.(MapRef)
		if m.obj == 0 {
			return x.zeroLeaves(st, t)
		}
		o := x.toSMap(st, m.obj)
		n := *o
		n.frozen, n.why = true, "stored in a symbolic collection"
		st.heap[m.obj] = &n
		nilc := c.False
		if m.nilc != nil {
			nilc = m.nilc
		}
		return append([]*Term{nilc, o.has}, o.leaves...)
	case *types.Interface:
		switch w := v.(type) {
		case OpaqueV:
			return []*Term{w.code}
		case nil:
			return []*Term{c.Int(0)}
		}
		return []*Term{x.errCode(st, v)}
	}
	return []*Term{v.(*Term)}
}

// toSMap converts a map with concrete entries to a symbolic map.
func (x *Exec) toSMap(st *State, id int) *Object {
	c := x.c
	o := x.syncView(st, id)
	if o.kind == okSMap {
		return o
	}
	mt, _ := o.typ.Underlying().(*types.Map)
	ss, ok := leafSorts(o.typ)
	if o.kind != okMap || !ok {
		unsupported("symbolic %s", o.typ)
	}
	n := *o
	n.kind = okSMap
	n.has = c.ConstArr(ss[1], c.False)
	n.leaves = nil
	for _, s := range ss[2:] {
		n.leaves = append(n.leaves, x.zeroSort(s))
	}
	for _, e := range o.ments {
		k := e.key.(*Term)
		n.has = c.Store(n.has, k, c.Or(e.cond, c.Select(n.has, k)))
		for j, l := range x.flatten(st, e.val, mt.Elem()) {
			if !e.cond.IsTrue() {
				l = c.Ite(e.cond, l, c.Select(n.leaves[j], k))
			}
			n.leaves[j] = c.Store(n.leaves[j], k, l)
		}
	}
	n.ments = nil
	st.heap[id] = &n
	return &n
}

// freshSMap is an arbitrary map.
func (x *Exec) freshSMap(st *State, hint string, t types.Type) *Object {
	ss, ok := leafSorts(t)
	if !ok {
		unsupported("symbolic %s", t)
	}
	o := &Object{kind: okSMap, typ: t, name: hint, has: x.c.Var(hint+"_has", ss[1])}
	for i, s := range ss[2:] {
		o.leaves = append(o.leaves, x.c.Var(fmt.Sprintf("%s_l%d", hint, i), s))
	}
	return o
}

// leafAt is the place of a value in an element of a symbolic collection.
type leafAt struct {
	obj int
	idx *Term
	off int
}

// unflatten rebuilds a value.
func (x *Exec) unflatten(st *State, ts []*Term, t types.Type) (Value, []*Term) {
	return x.unflattenAt(st, ts, t, nil)
}

func (x *Exec) unflattenAt(st *State, ts []*Term, t types.Type, at *leafAt) (Value, []*Term) {
	c := x.c
	adv := func(n int) {
		if at != nil {
			at.off += n
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if !isByte(u.Elem()) {
			ss, _ := leafSorts(t)
			ln, nilc := ts[0], ts[1]
			cp := x.freshLen("elemcap")
			if !ln.hasB {
				st.assume(c.And(c.Le(c.Int(0), ln), c.Le(ln, cp)))
				st.assume(c.Implies(nilc, c.Eq(ln, c.Int(0))))
				st.assume(c.Implies(nilc, c.Eq(cp, c.Int(0))))
			}
			o := x.newObj(st, &Object{kind: okLeaf, leaves: append([]*Term(nil), ts[2:len(ss)]...), typ: u.Elem(), name: "elem", frozen: true, why: "element of a symbolic collection"})
			adv(len(ss))
			return SliceV{nilc: nilc, obj: o, off: c.Int(0), ln: ln, cp: cp}, ts[len(ss):]
		}
		s, nilc := ts[0], ts[1]
		cp := x.freshLen("elemcap")
		if !s.hasB {
			st.assume(c.Le(c.Len(s), cp))
			st.assume(c.Implies(nilc, c.Eq(c.Len(s), c.Int(0))))
		}
		o := x.newObj(st, &Object{kind: okBytes, arr: c.ArrOf(s), typ: u.Elem(), name: "elem", frozen: true, why: "element of a symbolic collection"})
		adv(2)
		return SliceV{nilc: nilc, obj: o, off: c.Int(0), ln: c.Len(s), cp: cp}, ts[2:]
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var v Value
			v, ts = x.unflattenAt(st, ts, u.Field(i).Type(), at)
			sv.f = append(sv.f, v)
		}
		return sv, ts
	case *types.Pointer:
		ss, _ := leafSorts(t)
		nilc := ts[0]
		var o *Object
		if at != nil {
			o = &Object{kind: okFwd, fobj: at.obj, fidx: at.idx, foff: at.off + 1, typ: u.Elem(), name: "pointee"}
		} else {
			v, _ := x.unflattenAt(st, ts[1:len(ss)], u.Elem(), nil)
			o = &Object{kind: okCell, val: v, typ: u.Elem(), name: "pointee", frozen: true, why: "element of a symbolic collection"}
		}
		adv(len(ss))
		rest := ts[len(ss):]
		if nilc.IsTrue() {
			return Ptr{}, rest
		}
		p := Ptr{obj: x.newObj(st, o)}
		if !nilc.IsFalse() {
			p.nilc = nilc
		}
		return p, rest
	case *types.Map:
		ss, _ := leafSorts(t)
		nilc := ts[0]
		o := &Object{kind: okSMap, typ: t, name: "elem", has: ts[1], leaves: append([]*Term(nil), ts[2:len(ss)]...), frozen: true, why: "element of a symbolic collection"}
		if at != nil {
			// a view: what it holds is what the collection holds
			o.fobj, o.fidx, o.foff = at.obj, at.idx, at.off
			if p := st.obj(at.obj); p.kind == okSMap || p.kind == okLeaf {
				o.frozen, o.why = p.frozen, p.why
			}
		}
		adv(len(ss))
		rest := ts[len(ss):]
		if nilc.IsTrue() {
			return MapRef{}, rest
		}
		m := MapRef{obj: x.newObj(st, o)}
		if !nilc.IsFalse() {
			m.nilc = nilc
			o.has = c.Ite(nilc, c.ConstArr(o.has.S, c.False), o.has)
		}
		return m, rest
	case *types.Interface:
		adv(1)
		if !isError(t) {
			return OpaqueV{ts[0]}, ts[1:]
		}
		return ErrV{ts[0]}, ts[1:]
	case *types.Basic:
		if lo, hi, ok := intRange(u); ok && !ts[0].hasB {
			if l, h := c.bounds(ts[0]); l == nil || h == nil || l.Cmp(lo) < 0 || h.Cmp(hi) > 0 {
				st.assume(c.And(c.Le(c.Big(lo), ts[0]), c.Le(ts[0], c.Big(hi))))
			}
		}
	}
	adv(1)
	return ts[0], ts[1:]
}

func (x *Exec) errCode(st *State, v Value) *Term {
	switch e := v.(type) {
	case ErrV:
		return e.code
	case IfaceV:
		if e.t == nil {
			return x.c.Int(0)
		}
		if p, ok := e.v.(Ptr); ok {
			return x.c.Int(int64(500000 + p.obj))
		}
		k := fmt.Sprintf("%s/%v", e.t, e.v)
		if id, ok := x.errIDs[k]; ok {
			return x.c.Int(id)
		}
		x.errIDs[k] = int64(300000 + len(x.errIDs))
		return x.c.Int(x.errIDs[k])
	}
	unsupported("errCode of %T", v)
	return nil
}

// bytesOf snapshots a byte slice as a Bytes term.
func (x *Exec) bytesOf(st *State, s SliceV) *Term {
	if s.obj == 0 {
		return x.c.Lit("")
	}
	o := st.obj(s.obj)
	if o.kind != okBytes {
		unsupported("bytesOf object kind %d", o.kind)
	}
	return x.c.Mk(o.arr, s.off, s.ln)
}

func (x *Exec) bytesSlice(st *State, b *Term) SliceV {
	c := x.c
	o := x.newObj(st, &Object{kind: okBytes, arr: c.ArrOf(b), typ: types.Typ[types.Uint8], name: "bytes"})
	cp := x.freshLen("cap")
	st.assume(c.Le(c.Len(b), cp))
	return SliceV{nilc: c.False, obj: o, off: c.Int(0), ln: c.Len(b), cp: cp}
}

// noScratch: memory lent to a callback may not be kept.
func (x *Exec) noScratch(st *State, id int) {
	if st.obj(id).scratch {
		x.oblige(st, "no reference kept to memory lent only during a callback", x.c.False)
	}
}

func (x *Exec) freeze(st *State, s SliceV, why string) {
	o := st.obj(s.obj)
	end := x.c.Add(s.off, s.ln)
	n := *o
	if o.frozen {
		if o.region == nil || o.region == end {
			return
		}
		n.region = x.c.Ite(x.c.Le(o.region, end), end, o.region)
	} else {
		n.frozen = true
		n.why = why
		n.region = end
	}
	st.heap[s.obj] = &n
}

// appendGuard: an append that may write in place must not overwrite retained bytes.
func (x *Exec) appendGuard(st *State, s SliceV, fits *Term) {
	var chk func(id int, cond *Term, seen map[int]bool)
	chk = func(id int, cond *Term, seen map[int]bool) {
		if seen[id] || cond.IsFalse() {
			return
		}
		seen[id] = true
		o := st.obj(id)
		if o.frozen && o.region != nil {
			x.oblige(st, "no write to retained or shared bytes (append over "+o.why+")", x.c.Implies(cond, x.c.Le(o.region, x.c.Add(s.off, s.ln))))
		}
		for _, p := range o.peers {
			if st.obj(p.obj) != nil {
				chk(p.obj, x.c.And(cond, p.cond), seen)
			}
		}
	}
	chk(s.obj, fits, map[int]bool{})
}

// ---------- load/store ----------

func (x *Exec) load(st *State, p Ptr, t types.Type) Value {
	if p.obj == 0 {
		unsupported("load through nil pointer")
	}
	o := st.obj(p.obj)
	if o == nil {
		unsupported("dangling object %d", p.obj)
	}
	switch o.kind {
	case okCell:
		return x.loadPath(st, o.val, p.els)
	case okBytes:
		if len(p.els) == 0 {
			return ArrV{bytes: o.arr, n: o.n}
		}
		return x.c.Select(o.arr, p.els[0].idx)
	case okElems:
		if len(p.els) == 0 {
			return ArrV{el: o.el, n: o.n}
		}
		i := p.els[0].idx
		if i.Op == "int" && int(i.N.Int64()) < len(o.el) && i.N.Sign() >= 0 {
			return x.loadPath(st, o.el[i.N.Int64()], p.els[1:])
		}
		if v, ok := x.iteElems(st, o, i, len(o.el)); ok {
			return x.loadPath(st, v, p.els[1:])
		}
		o = x.toLeaf(st, p.obj)
		fallthrough
	case okLeaf:
		if len(p.els) == 0 {
			unsupported("load whole leaf object")
		}
		v := x.leafLoad(st, o, p.els[0].idx, p.obj)
		return x.loadPath(st, v, p.els[1:])
	case okFwd:
		return x.loadPath(st, x.fwdLoad(st, o), p.els)
	case okOpaque:
		if t != nil && len(p.els) == 0 {
			if su, ok := t.Underlying().(*types.Struct); ok && su.NumFields() == 0 {
				return &StructV{}
			}
		}
		unsupported("load from opaque object %s", o.name)
	}
	unsupported("load kind %d", o.kind)
	return nil
}

// iteElems reads a symbolic index from a small concrete element list of scalar terms.
func (x *Exec) iteElems(st *State, o *Object, i *Term, n int) (Value, bool) {
	if n == 0 || n > 16 {
		return nil, false
	}
	for _, e := range o.el {
		if _, ok := e.(*Term); !ok {
			return nil, false
		}
	}
	r := o.el[n-1].(*Term)
	for k := n - 2; k >= 0; k-- {
		r = x.c.Ite(x.c.Eq(i, x.c.Int(int64(k))), o.el[k].(*Term), r)
	}
	return r, true
}

func (x *Exec) leafLoad(st *State, o *Object, i *Term, id int) Value {
	var at *leafAt
	if id != 0 {
		at = &leafAt{id, i, 0}
	}
	var ts []*Term
	for _, l := range o.leaves {
		ts = append(ts, x.c.Select(l, i))
	}
	v, _ := x.unflattenAt(st, ts, o.typ, at)
	return v
}

// syncView refreshes a map that is part of an element of a symbolic collection.
func (x *Exec) syncView(st *State, id int) *Object {
	o := st.obj(id)
	if o.kind != okSMap || o.fobj == 0 {
		return o
	}
	c := x.c
	p := x.syncView(st, o.fobj)
	sel := func(i int) *Term { return c.Select(p.leaves[o.foff+i], o.fidx) }
	nilc := sel(0)
	has := sel(1)
	if !nilc.IsFalse() {
		has = c.Ite(nilc, c.ConstArr(has.S, c.False), has)
	}
	same := has == o.has
	n := *o
	n.has = has
	n.leaves = nil
	for i := range o.leaves {
		l := sel(i + 2)
		same = same && l == o.leaves[i]
		n.leaves = append(n.leaves, l)
	}
	if !same {
		st.heap[id] = &n
		return &n
	}
	return o
}

// putView writes what a view holds to the collection it is a part of.
func (x *Exec) putView(st *State, id int) {
	o := st.obj(id)
	if o.kind != okSMap || o.fobj == 0 {
		return
	}
	c := x.c
	p := *x.syncView(st, o.fobj)
	p.leaves = append([]*Term(nil), p.leaves...)
	put := func(i int, t *Term) {
		l := p.leaves[o.foff+i]
		if c.Select(l, o.fidx) != t {
			p.leaves[o.foff+i] = c.Store(l, o.fidx, t)
		}
	}
	// an entry was put in only if the map is not nil (mapUpdate), an element was changed only if there is one
	had := c.Select(p.leaves[o.foff+1], o.fidx)
	if nilc := c.Select(p.leaves[o.foff], o.fidx); !nilc.IsFalse() {
		had = c.Ite(nilc, c.ConstArr(had.S, c.False), had)
	}
	if had != o.has {
		put(1, o.has)
	}
	for i, l := range o.leaves {
		put(i+2, l)
	}
	st.heap[o.fobj] = &p
	x.putView(st, o.fobj)
	x.syncPeers(st, o.fobj)
	x.syncView(st, id)
}

// fwdLoad reads the whole pointee of a forwarding object.
func (x *Exec) fwdLoad(st *State, o *Object) Value {
	t := x.syncView(st, o.fobj)
	ss, _ := leafSorts(o.typ)
	var ts []*Term
	for i := range ss {
		ts = append(ts, x.c.Select(t.leaves[o.foff+i], o.fidx))
	}
	v, _ := x.unflattenAt(st, ts, o.typ, &leafAt{o.fobj, o.fidx, o.foff})
	return v
}

// toLeaf converts a concrete element object to leaf arrays.
func (x *Exec) toLeaf(st *State, id int) *Object {
	o := st.obj(id)
	if o.kind == okLeaf {
		return o
	}
	ss, ok := leafSorts(o.typ)
	if !ok {
		unsupported("symbolic indexing of []%s", o.typ)
	}
	n := *o
	n.kind = okLeaf
	n.leaves = nil
	for i, s := range ss {
		a := x.c.Var(fmt.Sprintf("leaf%d", i), arrSort(s))
		n.leaves = append(n.leaves, a)
	}
	for i, e := range o.el {
		for j, t := range x.flatten(st, e, o.typ) {
			n.leaves[j] = x.c.Store(n.leaves[j], x.c.Int(int64(i)), t)
		}
	}
	n.el = nil
	st.heap[id] = &n
	return &n
}

func (x *Exec) loadPath(st *State, v Value, els []pelem) Value {
	for _, e := range els {
		switch w := v.(type) {
		case *StructV:
			v = w.f[e.field]
		case ArrV:
			if w.bytes != nil {
				v = x.c.Select(w.bytes, e.idx)
			} else if e.idx.Op == "int" {
				v = w.el[e.idx.N.Int64()]
			} else {
				unsupported("symbolic array index")
			}
		default:
			unsupported("path into %T", v)
		}
	}
	return v
}

func (x *Exec) storePath(st *State, v Value, els []pelem, nv Value) Value {
	if len(els) == 0 {
		return nv
	}
	switch w := v.(type) {
	case *StructV:
		n := &StructV{f: append([]Value(nil), w.f...)}
		n.f[els[0].field] = x.storePath(st, n.f[els[0].field], els[1:], nv)
		return n
	case ArrV:
		if w.bytes != nil {
			return ArrV{bytes: x.c.Store(w.bytes, els[0].idx, nv.(*Term)), n: w.n}
		}
		if els[0].idx.Op != "int" {
			unsupported("symbolic array index store")
		}
		n := ArrV{n: w.n, el: append([]Value(nil), w.el...)}
		i := els[0].idx.N.Int64()
		n.el[i] = x.storePath(st, n.el[i], els[1:], nv)
		return n
	}
	unsupported("store path into %T", v)
	return nil
}

func (x *Exec) store(st *State, p Ptr, v Value) {
	if p.obj == 0 {
		unsupported("store through nil pointer")
	}
	o := st.obj(p.obj)
	n := *o
	switch o.kind {
	case okFwd:
		t := *x.syncView(st, o.fobj)
		if t.frozen {
			x.oblige(st, "no write to retained or shared memory ("+t.why+")", x.c.False)
		}
		ov := x.fwdLoad(st, o)
		old := x.flatten(st.clone(), ov, o.typ)
		nv := x.storePath(st, ov, p.els, v)
		t.leaves = append([]*Term(nil), t.leaves...)
		for i, l := range x.flatten(st, nv, o.typ) {
			if old[i] != l {
				t.leaves[o.foff+i] = x.c.Store(t.leaves[o.foff+i], o.fidx, l)
			}
		}
		st.heap[o.fobj] = &t
		x.putView(st, o.fobj)
		x.syncPeers(st, o.fobj)
	case okCell:
		if o.frozen {
			x.oblige(st, "no write to retained or shared memory ("+o.why+")", x.c.False)
		}
		n.val = x.storePath(st, o.val, p.els, v)
		if sv, ok := n.val.(GMap); ok {
			_ = sv
		}
		st.heap[p.obj] = &n
	case okBytes:
		if len(p.els) == 0 {
			av := v.(ArrV)
			x.setBytes(st, p.obj, av.bytes, "array assignment")
			return
		}
		x.setBytes(st, p.obj, x.c.Store(o.arr, p.els[0].idx, v.(*Term)), "index assignment")
	case okElems:
		if len(p.els) == 0 {
			n.el = append([]Value(nil), v.(ArrV).el...)
			st.heap[p.obj] = &n
			x.syncPeers(st, p.obj)
			return
		}
		i := p.els[0].idx
		if i.Op == "int" {
			n.el = append([]Value(nil), o.el...)
			k := i.N.Int64()
			n.el[k] = x.storePath(st, n.el[k], p.els[1:], v)
			st.heap[p.obj] = &n
			x.syncPeers(st, p.obj)
			return
		}
		x.toLeaf(st, p.obj)
		x.store(st, p, v)
	case okLeaf:
		if o.frozen {
			x.oblige(st, "no write to retained or shared memory ("+o.why+")", x.c.False)
		}
		if len(p.els) > 1 {
			old := x.leafLoad(st, o, p.els[0].idx, p.obj)
			v = x.storePath(st, old, p.els[1:], v)
		}
		n.leaves = append([]*Term(nil), o.leaves...)
		for j, t := range x.flatten(st, v, o.typ) {
			n.leaves[j] = x.c.Store(n.leaves[j], p.els[0].idx, t)
		}
		st.heap[p.obj] = &n
		x.syncPeers(st, p.obj)
	default:
		unsupported("store kind %d", o.kind)
	}
}

// setBytes replaces the content of a byte object (visible write), honouring frozen objects and peers.
func (x *Exec) setBytes(st *State, id int, arr *Term, why string) {
	o := st.obj(id)
	if o.frozen {
		x.oblige(st, "no write to retained or shared bytes ("+o.why+")", x.c.False)
	}
	n := *o
	n.arr = arr
	st.heap[id] = &n
	x.syncPeers(st, id)
}

// syncPeers propagates the new content of id to objects that may be the same memory.
func (x *Exec) syncPeers(st *State, id int) { x.sync(st, id, false) }

// syncPast propagates a write that is already known not to touch retained bytes.
func (x *Exec) syncPast(st *State, id int) { x.sync(st, id, true) }

func (x *Exec) sync(st *State, id int, past bool) {
	done := map[int]bool{id: true}
	var rec func(id int, cond *Term)
	rec = func(id int, cond *Term) {
		for _, p := range st.obj(id).peers {
			if done[p.obj] {
				continue
			}
			done[p.obj] = true
			q := st.obj(p.obj)
			if q == nil {
				continue
			}
			pc := x.c.And(cond, p.cond)
			if pc.IsFalse() {
				continue
			}
			src := st.obj(id)
			n := *q
			if q.frozen && !past {
				x.oblige(st, "no write to retained or shared bytes ("+q.why+")", x.c.Not(pc))
				continue
			}
			switch {
			case q.kind == okBytes && src.kind == okBytes:
				n.arr = x.c.Ite(pc, src.arr, q.arr)
			case q.kind == okElems || q.kind == okLeaf:
				if pc.IsTrue() {
					n.kind, n.el, n.leaves = src.kind, src.el, src.leaves
				} else {
					n.kind, n.el, n.leaves, n.val = okOpaque, nil, nil, nil
				}
			}
			st.heap[p.obj] = &n
			rec(p.obj, pc)
		}
	}
	rec(id, x.c.True)
}

func (x *Exec) addPeer(st *State, a, b int, cond *Term) {
	if cond.IsFalse() || a == b {
		return
	}
	na := *st.obj(a)
	na.peers = append(append([]peer(nil), na.peers...), peer{b, cond})
	st.heap[a] = &na
	nb := *st.obj(b)
	nb.peers = append(append([]peer(nil), nb.peers...), peer{a, cond})
	st.heap[b] = &nb
}

// appendBytes implements append(s, src...) for byte slices; src given as array+offset+length.
func (x *Exec) appendBytes(st *State, s SliceV, sarr, soff, n *Term) SliceV {
	c := x.c
	if n.isZero() {
		return s
	}
	nl := c.Add(s.ln, n)
	var base *Term
	if s.obj == 0 {
		base = c.ConstArr(SAII, c.Int(0))
	} else {
		base = st.obj(s.obj).arr
	}
	content := c.Cpy(base, c.Add(s.off, s.ln), sarr, soff, n)
	fits := c.Le(nl, s.cp)
	if s.obj == 0 {
		fits = c.Eq(n, c.Int(0))
	} else if !x.pure() {
		if x.entails(st, fits) {
			fits = c.True
		} else if x.entails(st, c.Not(fits)) {
			fits = c.False
		}
	}
	if fits.IsTrue() && s.obj != 0 {
		// in place
		x.appendGuard(st, s, c.True)
		o := *st.obj(s.obj)
		o.arr = content
		st.heap[s.obj] = &o
		x.syncPast(st, s.obj)
		return SliceV{nilc: c.False, obj: s.obj, off: s.off, ln: nl, cp: s.cp}
	}
	ncap := x.freshLen("acap")
	st.assume(c.Le(nl, ncap))
	id := x.newObj(st, &Object{kind: okBytes, arr: content, typ: types.Typ[types.Uint8], name: "app"})
	if s.obj != 0 && !fits.IsFalse() {
		st.assume(c.Implies(fits, c.Eq(ncap, s.cp)))
		x.appendGuard(st, s, fits)
		o := *st.obj(s.obj)
		o.arr = c.Ite(fits, content, o.arr)
		st.heap[s.obj] = &o
		x.syncPast(st, s.obj)
		x.addPeer(st, id, s.obj, fits)
	}
	nilc := c.False
	if !n.IsConst() {
		nilc = c.And(s.nilc, c.Eq(n, c.Int(0)))
	}
	return SliceV{nilc: nilc, obj: id, off: s.off, ln: nl, cp: ncap}
}

// appendElems implements append for other element types; src elements as values or a leaf slice.
func (x *Exec) appendElems(st *State, s SliceV, src SliceV, et types.Type) SliceV {
	c := x.c
	if src.ln.isZero() {
		return s
	}
	var so *Object
	if src.obj != 0 {
		so = st.obj(src.obj)
	}
	if so == nil {
		return s
	}
	conc := func(v SliceV) bool {
		if v.obj == 0 {
			return true
		}
		return v.ln.Op == "int" && v.off.Op == "int" && st.obj(v.obj).kind == okElems
	}
	nl := c.Add(s.ln, src.ln)
	ncap := x.freshLen("acap")
	st.assume(c.Le(nl, ncap))
	if conc(s) && conc(src) {
		var el []Value
		if s.obj != 0 {
			o := st.obj(s.obj)
			k, l := int(s.off.N.Int64()), int(s.ln.N.Int64())
			el = append(el, o.el[k:k+l]...)
		}
		k, l := int(src.off.N.Int64()), int(src.ln.N.Int64())
		el = append(el, so.el[k:k+l]...)
		id := x.newObj(st, &Object{kind: okElems, el: el, n: len(el), typ: et, name: "app"})
		if s.obj != 0 {
			fits := c.Le(nl, s.cp)
			if !fits.IsFalse() && !x.entails(st, c.Not(fits)) {
				// possibly shared memory
				if o := st.obj(s.obj); int(s.off.N.Int64()+s.ln.N.Int64()) < len(o.el) {
					n := *o
					n.kind, n.el = okOpaque, nil
					st.heap[s.obj] = &n
				} else if s.off.isZero() {
					st.ghostAlias(x, id, s.obj)
				} else {
					n := *o
					n.kind, n.el = okOpaque, nil
					st.heap[s.obj] = &n
				}
			}
		}
		return SliceV{nilc: c.False, obj: id, off: c.Int(0), ln: nl, cp: ncap}
	}
	// leaf representation
	ss, ok := leafSorts(et)
	if !ok {
		unsupported("append to symbolic []%s", et)
	}
	var lv []*Term
	off := s.off
	if s.obj == 0 {
		off = c.Int(0)
		for i, q := range ss {
			lv = append(lv, c.Var(fmt.Sprintf("leaf%d", i), arrSort(q)))
		}
	} else {
		o := x.toLeaf(st, s.obj)
		lv = append(lv, o.leaves...)
	}
	if so.kind == okElems && src.ln.Op == "int" && src.off.Op == "int" {
		k, l := int(src.off.N.Int64()), int(src.ln.N.Int64())
		for i := 0; i < l; i++ {
			for j, t := range x.flatten(st, so.el[k+i], et) {
				lv[j] = c.Store(lv[j], c.Add(c.Add(off, s.ln), c.Int(int64(i))), t)
			}
		}
	} else {
		so = x.toLeaf(st, src.obj)
		for j := range lv {
			lv[j] = c.Cpy(lv[j], c.Add(off, s.ln), so.leaves[j], src.off, src.ln)
		}
	}
	id := x.newObj(st, &Object{kind: okLeaf, leaves: lv, typ: et, name: "app"})
	if s.obj != 0 {
		fits := c.Le(nl, s.cp)
		if !fits.IsFalse() && !x.entails(st, c.Not(fits)) {
			o := *st.obj(s.obj)
			f := c.Var("fits", SBool)
			if o.kind == okLeaf && !o.frozen {
				o.leaves = append([]*Term(nil), o.leaves...)
				for j := range o.leaves {
					o.leaves[j] = c.Ite(f, lv[j], o.leaves[j])
				}
				st.heap[s.obj] = &o
			}
			x.addPeer(st, id, s.obj, f)
		}
	}
	nilc := c.False
	if !src.ln.IsConst() {
		nilc = c.And(s.nilc, c.Eq(src.ln, c.Int(0)))
	}
	return SliceV{nilc: nilc, obj: id, off: off, ln: nl, cp: ncap}
}

// ghostAlias marks that a and b may share memory: a later element write to either is rejected.
func (s *State) ghostAlias(x *Exec, a, b int) {
	x.addPeer(s, a, b, x.c.Var("fits", SBool))
}

// val looks up an SSA operand.
func (x *Exec) val(st *State, v ssa.Value) Value {
	switch w := v.(type) {
	case *ssa.Const:
		return x.constVal(st, w)
	case *ssa.Function:
		return &FuncV{fn: w}
	case *ssa.Global:
		return x.globalPtr(st, w)
	case *ssa.Builtin:
		return &FuncV{bi: w}
	}
	f := st.top()
	r, ok := f.env[v]
	if !ok {
		unsupported("no value for %s in %s", v.Name(), f.fn)
	}
	return r
}
