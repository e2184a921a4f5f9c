package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic value: *Term, Ptr, SliceV, *StructV, IfaceV, ErrV, *FuncV, TupleV, GMap, ArrV, nil (absent).
type Value interface{}

type pelem struct {
	field int
	idx   *Term // non-nil: index
}

// Ptr points at a location in an object; obj 0 is nil.
type Ptr struct {
	obj  int
	path string // encoded path for identity
	els  []pelem
	nilc *Term // maybe nil
}

type SliceV struct {
	nilc *Term
	obj  int
	off  *Term
	ln   *Term
	cp   *Term
}

type StructV struct{ f []Value }

type IfaceV struct {
	t types.Type
	v Value
}

// ErrV is a non-structured error (or nil when code is 0).
type ErrV struct{ code *Term }

type FuncV struct {
	fn    *ssa.Function
	binds []Value
	bi    *ssa.Builtin
	nat   func(x *Exec, st *State, args []Value, k func(*State, Value)) // native
	id    int
}

type TupleV []Value

// GMap is a ghost map from Bytes to Bytes.
type GMap struct{ has, val *Term }

// ArrV is a fixed array value.
type ArrV struct {
	bytes *Term // byte arrays
	n     int
	el    []Value
}

// MapRef is a Go map value; obj 0 is nil.
type MapRef struct {
	obj  int
	nilc *Term // maybe nil
}

// OpaqueV is an interface value known by a code only.
type OpaqueV struct{ code *Term }

type objKind int

const (
	okCell objKind = iota
	okBytes
	okElems
	okLeaf
	okMap
	okOpaque
	okFwd  // a part of an element of a symbolic collection
	okSMap // symbolic Go map
)

type peer struct {
	obj  int
	cond *Term
}

type mapEntry struct {
	key  Value
	val  Value
	cond *Term // present iff
}

// Object is immutable; writes replace it in the heap.
type Object struct {
	kind    objKind
	typ     types.Type // cell type or element type
	val     Value
	arr     *Term
	el      []Value
	leaves  []*Term
	n       int // okElems: backing size
	frozen  bool
	why     string
	peers   []peer
	name    string
	ments   []mapEntry
	region  *Term // frozen region end (nil: all)
	scratch bool  // memory valid only during a callback
	has     *Term // okSMap
	fobj    int   // okFwd: collection
	fidx    *Term // okFwd: element
	foff    int   // okFwd: first leaf
}

type pcNode struct {
	t      *Term
	branch bool
	prev   *pcNode
	depth  int
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []deferred
	loops  []*loopCtx
	counts map[*ssa.BasicBlock]int
	ret    []Value
}

func (f *Frame) clone() *Frame {
	g := &Frame{fn: f.fn, env: make(map[ssa.Value]Value, len(f.env)), defers: append([]deferred(nil), f.defers...), loops: append([]*loopCtx(nil), f.loops...)}
	for k, v := range f.env {
		g.env[k] = v
	}
	if f.counts != nil {
		g.counts = map[*ssa.BasicBlock]int{}
		for k, v := range f.counts {
			g.counts[k] = v
		}
	}
	return g
}

// State of one path.
type State struct {
	base   map[int]*Object // shared read-only
	heap   map[int]*Object
	pc     *pcNode
	frames []*Frame
	temps  []*FuncV // loop templates
	unroll int
	held   map[string]*Term
	ghost  map[string]Value
	steps  int
}

func (s *State) clone() *State {
	n := &State{base: s.base, heap: make(map[int]*Object, len(s.heap)+8), pc: s.pc, temps: s.temps, unroll: s.unroll, steps: s.steps}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for _, f := range s.frames {
		n.frames = append(n.frames, f.clone())
	}
	n.ghost = map[string]Value{}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

func (s *State) obj(id int) *Object {
	if o, ok := s.heap[id]; ok {
		return o
	}
	return s.base[id]
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) assume(t *Term) { s.push(t, false) }
func (s *State) branch(t *Term) { s.push(t, true) }
func (s *State) push(t *Term, br bool) {
	if t.IsTrue() {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.push(a, br)
		}
		return
	}
	d := 1
	if s.pc != nil {
		d = s.pc.depth + 1
	}
	s.pc = &pcNode{t: t, branch: br, prev: s.pc, depth: d}
}

func (s *State) hyps() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for n := s.pc; n != nil; n = n.prev {
		if !seen[n.t] {
			seen[n.t] = true
			out = append(out, n.t)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) known(t *Term) bool {
	for n := s.pc; n != nil; n = n.prev {
		if n.t == t {
			return true
		}
	}
	return false
}

type unsup struct{ msg string }

func unsupported(f string, a ...interface{}) { panic(unsup{fmt.Sprintf(f, a...)}) }

// ---------- types ----------

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}
func isError(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func intRange(b *types.Basic) (lo, hi *big.Int, ok bool) {
	sh := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	s := func(n uint) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(sh(n - 1)), new(big.Int).Sub(sh(n-1), one), true
	}
	u := func(n uint) (*big.Int, *big.Int, bool) { return new(big.Int), new(big.Int).Sub(sh(n), one), true }
	switch b.Kind() {
	case types.Int, types.Int64:
		return s(64)
	case types.Int32:
		return s(32)
	case types.Int16:
		return s(16)
	case types.Int8:
		return s(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint32:
		return u(32)
	case types.Uint16:
		return u(16)
	case types.Uint8:
		return u(8)
	}
	return nil, nil, false
}

func isGMap(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Map" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "zzgvc")
}

func isPtrLike(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// leafSorts lists the sorts of a flattened type; ok=false when not flattenable.
func leafSorts(t types.Type) ([]Sort, bool) { return leafSortsIn(t, nil) }

func leafSortsIn(t types.Type, in []types.Type) ([]Sort, bool) {
	for _, q := range in {
		if types.Identical(q, t) {
			return nil, false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return []Sort{SBool}, true
		}
		if u.Info()&types.IsString != 0 {
			return []Sort{SBytes}, true
		}
		if u.Info()&(types.IsInteger|types.IsFloat) != 0 {
			return []Sort{SInt}, true
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return []Sort{SBytes, SBool}, true
		}
		l, ok := leafSortsIn(u.Elem(), append(in, t))
		if !ok {
			return nil, false
		}
		out := []Sort{SInt, SBool}
		for _, s := range l {
			out = append(out, arrSort(s))
		}
		return out, true
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); !ok {
			return nil, false
		}
		l, ok := leafSortsIn(u.Elem(), append(in, t))
		if !ok {
			return nil, false
		}
		return append([]Sort{SBool}, l...), true
	case *types.Map:
		ks, ok := keySort(u.Key())
		if !ok {
			return nil, false
		}
		l, ok := leafSortsIn(u.Elem(), append(in, t))
		if !ok {
			return nil, false
		}
		out := []Sort{SBool, mapSort(ks, SBool)}
		for _, s := range l {
			out = append(out, mapSort(ks, s))
		}
		return out, true
	case *types.Struct:
		var out []Sort
		for i := 0; i < u.NumFields(); i++ {
			l, ok := leafSortsIn(u.Field(i).Type(), append(in, t))
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		}
		return out, true
	case *types.Interface:
		return []Sort{SInt}, true
	}
	return nil, false
}

// keySort is the sort of the keys of a symbolic map.
func keySort(t types.Type) (Sort, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return "", false
	}
	if b.Info()&types.IsString != 0 {
		return SBytes, true
	}
	if b.Info()&types.IsInteger != 0 {
		return SInt, true
	}
	return "", false
}

func mapSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func arrSort(s Sort) Sort { return mapSort(SInt, s) }
