package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encoding/json. What decoding makes of a text is a function of the text, one per type and component; encoding yields
// a text that decodes to what was encoded. A non-nil error in a field (an interface type with methods) is encoded, but
// the text does not decode.

func (x *Exec) jsonType(t types.Type) string {
	return sanitize(strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string { return p.Name() }), "*", "p"))
}

// jsonSkip tells which leaves json leaves alone, and which hold errors.
func (x *Exec) jsonSkip(t types.Type) (skip, errs []bool) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			s, e := x.jsonSkip(u.Field(i).Type())
			name := strings.Split(reflect.StructTag(u.Tag(i)).Get("json"), ",")[0]
			if name == "-" || !u.Field(i).Exported() {
				for j := range s {
					s[j], e[j] = true, false
				}
			}
			skip, errs = append(skip, s...), append(errs, e...)
		}
		return
	case *types.Pointer:
		s, e := x.jsonSkip(u.Elem())
		return append([]bool{false}, s...), append([]bool{false}, e...)
	case *types.Interface:
		return []bool{false}, []bool{isError(t)}
	}
	ss, ok := leafSorts(t)
	if !ok {
		unsupported("json of %s", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Map:
		s, e := x.jsonSkip(u.Elem())
		return append([]bool{false, false}, s...), append([]bool{false, false}, e...)
	case *types.Slice:
		if !isByte(u.Elem()) {
			s, e := x.jsonSkip(u.Elem())
			return append([]bool{false, false}, s...), append([]bool{false, false}, e...)
		}
	}
	return make([]bool, len(ss)), make([]bool, len(ss))
}

func (x *Exec) jsonLeaf(t types.Type, i int, s Sort, data *Term) *Term {
	return x.c.App(fmt.Sprintf("json_%s_%d", x.jsonType(t), i), s, data)
}

func (x *Exec) jsonOK(t types.Type, data *Term) *Term {
	return x.c.App("jsonok_"+x.jsonType(t), SBool, data)
}

// fits records whether a type can fail to be encoded.
func jsonCanFail(t types.Type, in []types.Type) bool {
	for _, q := range in {
		if types.Identical(q, t) {
			return false
		}
	}
	in = append(in, t)
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "RawMessage" {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if reflect.StructTag(u.Tag(i)).Get("json") != "-" && jsonCanFail(u.Field(i).Type(), in) {
				return true
			}
		}
	case *types.Pointer:
		return jsonCanFail(u.Elem(), in)
	case *types.Slice:
		return jsonCanFail(u.Elem(), in)
	case *types.Map:
		return jsonCanFail(u.Elem(), in)
	case *types.Interface:
		return true
	}
	return false
}

func init() {
	models["encoding/json.Unmarshal"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		c := x.c
		x.note("encoding/json: decoding is a function of the text; encoded values decode to themselves (names are valid UTF-8), texts hold no nulls in lists and maps")
		data := x.bs(st, args[0])
		iv, ok := args[1].(IfaceV)
		if !ok || iv.t == nil {
			unsupported("json.Unmarshal into %T", args[1])
		}
		pt, ok := iv.t.Underlying().(*types.Pointer)
		p, ok2 := iv.v.(Ptr)
		if !ok || !ok2 || p.obj == 0 {
			unsupported("json.Unmarshal into %s", iv.t)
		}
		t := pt.Elem()
		ss, ok := leafSorts(t)
		if !ok {
			unsupported("json.Unmarshal into %s", iv.t)
		}
		skip, _ := x.jsonSkip(t)
		cur := x.load(st, p, t)
		old := x.flatten(st.clone(), cur, t)
		zero := x.zeroLeaves(st.clone(), t)
		put := func(st *State, leaf func(i int) *Term) {
			n0 := x.nobj
			var ts []*Term
			for i := range ss {
				if skip[i] {
					ts = append(ts, old[i])
					continue
				}
				if old[i] != zero[i] {
					unsupported("json.Unmarshal into a value that is not empty")
				}
				ts = append(ts, leaf(i))
			}
			v, _ := x.unflatten(st, ts, t)
			for id := n0 + 1; id <= x.nobj; id++ {
				if o := st.obj(id); o != nil && o.frozen {
					n := *o
					n.frozen, n.why = false, ""
					st.heap[id] = &n
				}
			}
			x.store(st, p, v)
		}
		good := x.jsonOK(t, data)
		bad := st.clone()
		bad.branch(c.Not(good))
		put(bad, func(i int) *Term { return c.Var("jsonbad", ss[i]) })
		k(bad, x.freshErr(bad, "json"))
		st.branch(good)
		marks := x.nilMarks(t, false)
		put(st, func(i int) *Term {
			if marks[i] {
				return x.zeroSort(ss[i])
			}
			return x.jsonLeaf(t, i, ss[i], data)
		})
		k(st, ErrV{c.Int(0)})
	}
	models["encoding/json.Marshal"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		c := x.c
		x.note("encoding/json: decoding is a function of the text; encoded values decode to themselves (names are valid UTF-8), texts hold no nulls in lists and maps")
		iv, ok := args[0].(IfaceV)
		if !ok {
			unsupported("json.Marshal of %T", args[0])
		}
		if iv.t == nil {
			k(st, TupleV{x.bytesSlice(st, c.Lit("null")), ErrV{c.Int(0)}})
			return
		}
		t, v := iv.t, iv.v
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			p, ok := v.(Ptr)
			if !ok || p.obj == 0 {
				unsupported("json.Marshal of nil")
			}
			t = pt.Elem()
			v = x.load(st, p, t)
		}
		ss, ok := leafSorts(t)
		if !ok {
			unsupported("json.Marshal of %s", iv.t)
		}
		skip, errs := x.jsonSkip(t)
		leaves := x.flatten(st.clone(), v, t)
		if jsonCanFail(t, nil) {
			bad := st.clone()
			f := c.Var("marshalfails", SBool)
			bad.branch(f)
			k(bad, TupleV{x.zero(bad, fn.Signature.Results().At(0).Type()), x.freshErr(bad, "json")})
			st.branch(c.Not(f))
		}
		b := c.Var("json", SBytes)
		good := c.True
		for i := range ss {
			if errs[i] {
				if ss[i] != SInt {
					unsupported("json.Marshal of errors in collections")
				}
				good = c.And(good, c.Eq(leaves[i], c.Int(0)))
			}
		}
		st.assume(c.Eq(x.jsonOK(t, b), good))
		for i := range ss {
			if !skip[i] {
				st.assume(c.Implies(good, c.Eq(x.jsonLeaf(t, i, ss[i], b), leaves[i])))
			}
		}
		st.assume(c.Lt(c.Int(0), c.Len(b)))
		k(st, TupleV{x.bytesSlice(st, b), ErrV{c.Int(0)}})
	}
}

// visited tells, in a loop invariant, whether the innermost range over a map has visited a key.
func (x *Exec) visited(st *State, key *Term) *Term {
	c := x.c
	in := func(it *iterV) *Term {
		pos := st.obj(it.pos).val.(*Term)
		return c.And(c.Select(it.has, key), c.Lt(c.Select(it.keypos, key), pos))
	}
	if x.header != nil {
		for _, n := range x.header.Instrs {
			n, ok := n.(*ssa.Next)
			if !ok {
				continue
			}
			for i := len(st.frames) - 1; i >= 0; i-- {
				if st.frames[i].fn != x.header.Parent() {
					continue
				}
				if it, ok := st.frames[i].env[n.Iter].(*iterV); ok && it.order != nil && elemSort(it.order.S) == key.S {
					return in(it)
				}
				break
			}
		}
	}
	for i := len(st.frames) - 1; i >= 0; i-- {
		var best *iterV
		for _, v := range st.frames[i].env {
			it, ok := v.(*iterV)
			if !ok || it.order == nil || elemSort(it.order.S) != key.S {
				continue
			}
			if best == nil || it.pos > best.pos {
				best = it
			}
		}
		if best != nil {
			return in(best)
		}
	}
	return c.Var("visited", SBool) // outside a range over a map
}

// nilMarks tells which leaves say that a pointer held directly by a collection is nil.
func (x *Exec) nilMarks(t types.Type, direct bool) []bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return append([]bool{direct}, x.nilMarks(u.Elem(), false)...)
	case *types.Struct:
		var out []bool
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.nilMarks(u.Field(i).Type(), false)...)
		}
		return out
	case *types.Map:
		return append([]bool{false, false}, x.nilMarks(u.Elem(), true)...)
	case *types.Slice:
		if !isByte(u.Elem()) {
			return append([]bool{false, false}, x.nilMarks(u.Elem(), true)...)
		}
	}
	ss, ok := leafSorts(t)
	if !ok {
		unsupported("NonNil of %s", t)
	}
	return make([]bool, len(ss))
}

// nonNil assumes that the collections reachable hold no nil pointer.
func (x *Exec) assumeNonNil(st *State, v Value) {
	iv, ok := v.(IfaceV)
	if !ok {
		unsupported("NonNil of %T", v)
	}
	var id int
	var et types.Type
	switch u := iv.t.Underlying().(type) {
	case *types.Map:
		id, et = iv.v.(MapRef).obj, u.Elem()
	case *types.Slice:
		id, et = iv.v.(SliceV).obj, u.Elem()
	default:
		unsupported("NonNil of %s", iv.t)
	}
	if id == 0 {
		return
	}
	o := *st.obj(id)
	if o.kind != okSMap && o.kind != okLeaf {
		unsupported("NonNil of a concrete collection")
	}
	o.leaves = append([]*Term(nil), o.leaves...)
	for i, m := range x.nilMarks(et, true) {
		if m {
			o.leaves[i] = x.zeroSort(o.leaves[i].S)
		}
	}
	st.heap[id] = &o
}

// deepCopy is an independent copy of what a pointer points to.
func (x *Exec) deepCopy(st *State, v Value) Value {
	iv, ok := v.(IfaceV)
	if !ok {
		unsupported("Copy of %T", v)
	}
	pt, ok := iv.t.Underlying().(*types.Pointer)
	p, ok2 := iv.v.(Ptr)
	if !ok || !ok2 {
		unsupported("Copy of %s", iv.t)
	}
	if p.obj == 0 {
		x.oblige(st, "no-panic: copy of a nil pointer in "+st.top().fn.String(), x.c.False)
	} else if p.nilc != nil && !p.nilc.IsFalse() {
		x.oblige(st, "no-panic: copy of a nil pointer in "+st.top().fn.String(), x.c.Not(p.nilc))
	}
	t := pt.Elem()
	cur := x.load(st, p, t)
	ts := x.flatten(st.clone(), cur, t)
	n0 := x.nobj
	nv, _ := x.unflatten(st, ts, t)
	for id := n0 + 1; id <= x.nobj; id++ {
		if o := st.obj(id); o != nil && o.frozen {
			n := *o
			n.frozen, n.why = false, ""
			st.heap[id] = &n
		}
	}
	return IfaceV{t: iv.t, v: Ptr{obj: x.newObj(st, &Object{kind: okCell, typ: t, val: nv, name: "copy"})}}
}
