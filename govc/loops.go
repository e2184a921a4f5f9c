package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	fn     *ssa.Function
}

// findLoops returns natural loops by header.
func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := out[s]
				if li == nil {
					li = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, fn: fn}
					out[s] = li
				}
				var stk []*ssa.BasicBlock
				if !li.blocks[b] {
					li.blocks[b] = true
					stk = append(stk, b)
				}
				for len(stk) > 0 {
					t := stk[len(stk)-1]
					stk = stk[:len(stk)-1]
					for _, p := range t.Preds {
						if !li.blocks[p] {
							li.blocks[p] = true
							stk = append(stk, p)
						}
					}
				}
			}
		}
	}
	return out
}

type loopCtx struct {
	loop *loopInfo
	body bool // body-only exploration
	back func(st *State, prev *ssa.BasicBlock)
}

// enterLoop handles arrival at a loop header from outside.
func (x *Exec) enterLoop(st *State, lp *loopInfo, b, prev *ssa.BasicBlock, k cont) {
	f := st.top()
	x.phis(st, b, prev)
	if x.pure() {
		x.unrollLoop(st, lp, b, k)
		return
	}
	mode := x.loopMode(st, lp)
	if mode > 0 {
		x.unrollLoop(st, lp, b, k)
		return
	}
	_ = f
	x.cutLoop(st, lp, b, k)
}

// loopMode: positive means unroll.
func (x *Exec) loopMode(st *State, lp *loopInfo) int {
	if st.unroll > 0 {
		return st.unroll
	}
	// does the header (or a straight-line chain from it) end in a decided branch?
	if _, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If); ok {
		if x.headerDecided(st, lp) {
			return 1 << 20
		}
	}
	return 0
}

// headerDecided evaluates the header's own instructions on a clone and checks whether its exit test is constant.
func (x *Exec) headerDecided(st *State, lp *loopInfo) (res bool) {
	s2 := st.clone()
	x.quiet++
	nobj := x.nobj
	defer func() {
		x.quiet--
		_ = nobj
		if r := recover(); r != nil {
			if _, ok := r.(unsup); !ok {
				panic(r)
			}
			res = false
		}
	}()
	for _, in := range lp.header.Instrs {
		switch n := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.val(s2, n.Cond).(*Term)
			if bo, ok := n.Cond.(*ssa.BinOp); ok {
				// decided, and only boundedly many further iterations
				a, oka := x.val(s2, bo.X).(*Term)
				b, okb := x.val(s2, bo.Y).(*Term)
				if oka && okb && a.S == SInt && b.S == SInt {
					d := x.c.Sub(a, b)
					if d.Op != "int" && !x.entails(s2, x.c.And(x.c.Le(d, x.c.Int(40)), x.c.Le(x.c.Int(-40), d))) {
						return false
					}
				}
			}
			if c.IsConst() {
				return true
			}
			return s2.known(c) || s2.known(x.c.Not(c)) || x.entails(s2, c) || x.entails(s2, x.c.Not(c))
		case *ssa.Call:
			if bi, ok := n.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				s2.top().env[n] = x.builtin(s2, "len", n.Common(), []Value{x.val(s2, n.Call.Args[0])})
				continue
			}
			return false
		case *ssa.UnOp:
			if n.Op != token.MUL && n.Op != token.NOT {
				return false
			}
			x.unop(s2, n, func(st *State, v Value) { st.top().env[n] = v })
		case *ssa.Next:
			r := x.val(s2, n.Iter)
			it, ok := r.(*iterV)
			return ok && it.order == nil
		case *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.Convert, *ssa.ChangeType, *ssa.IndexAddr:
			v := in.(ssa.Value)
			ok := false
			x.eval(s2, v, func(st *State, r Value) { s2.top().env[v] = r; ok = true })
			if !ok {
				return false
			}
		default:
			return false
		}
	}
	return false
}

// unrollLoop executes the loop concretely; each arrival re-enters here.
func (x *Exec) unrollLoop(st *State, lp *loopInfo, b *ssa.BasicBlock, k cont) {
	f := st.top()
	if f.counts == nil {
		f.counts = map[*ssa.BasicBlock]int{}
	}
	f.counts[b] = 0
	limit := 1 << 12
	if st.unroll > 0 {
		limit = st.unroll
	}
	if x.pure() {
		limit = 64
	}
	lc := &loopCtx{loop: lp}
	lc.back = func(st *State, prev *ssa.BasicBlock) {
		g := st.top()
		g.counts[b]++
		if g.counts[b] > limit {
			if x.pure() {
				unsupported("loop in specification does not terminate within %d iterations", limit)
			}
			x.oblige(st, fmt.Sprintf("unwinding bound %d of loop in %s", limit, shortName(lp.fn)), x.c.False)
			return
		}
		x.phis(st, b, prev)
		if st.unroll == 0 && !x.pure() && !x.headerDecided(st, lp) {
			// no longer decided: cut here
			g.loops = g.loops[:len(g.loops)-1]
			x.cutLoop(st, lp, b, k)
			return
		}
		x.instrs(st, b, k)
	}
	f.loops = append(f.loops, lc)
	x.instrs(st, b, k)
}

// location of state modified by a loop
type modLoc struct {
	phi  *ssa.Phi
	obj  int
	path string // component path
}

type modSet struct {
	m map[string]bool
}

func (m *modSet) has(s string) bool { return m.m[s] }

// PoisonV is a pointer changed by the iterations of a loop before this one: any use of it is refused.
type PoisonV struct{ hint string }

// havocValue replaces differing components of a value; key identifies the location.
func (x *Exec) havocValue(st *State, key string, v Value, t types.Type, mods *modSet, hint string) Value {
	switch w := v.(type) {
	case *Term:
		if mods.has(key) {
			if t == nil {
				switch w.S {
				case SInt:
					return x.freshIntFrom(hint, w)
				}
				return x.c.Var(hint, w.S)
			}
			return x.fresh(st, hint, t)
		}
	case SliceV:
		n := w
		if mods.has(key + "#obj") {
			et := t.Underlying().(*types.Slice).Elem()
			if isByte(et) {
				s := x.c.Var(hint, SBytes)
				n.obj = x.newObj(st, &Object{kind: okBytes, arr: x.c.ArrOf(s), typ: et, name: hint})
			} else {
				ss, ok := leafSorts(et)
				if !ok {
					unsupported("loop-modified []%s", et)
				}
				o := &Object{kind: okLeaf, typ: et, name: hint}
				for i, s := range ss {
					o.leaves = append(o.leaves, x.c.Var(fmt.Sprintf("%s_l%d", hint, i), arrSort(s)))
				}
				n.obj = x.newObj(st, o)
			}
			if w.obj != 0 {
				if st.obj(w.obj).kind == okElems && !isByte(et) {
					x.toLeaf(st, w.obj)
				}
				x.addPeer(st, n.obj, w.obj, x.c.Var("same", SBool))
			}
		}
		if mods.has(key + "#off") {
			n.off = x.freshLen(hint + "_off")
		}
		if mods.has(key + "#len") {
			n.ln = x.freshLen(hint + "_len")
		}
		if mods.has(key + "#cap") {
			n.cp = x.freshLen(hint + "_cap")
		}
		if mods.has(key + "#nil") {
			n.nilc = x.c.Var(hint+"_nil", SBool)
			st.assume(x.c.Implies(n.nilc, x.c.Eq(n.cp, x.c.Int(0))))
		}
		if n != w {
			st.assume(x.c.Le(n.ln, n.cp))
		}
		return n
	case *StructV:
		n := &StructV{}
		var su *types.Struct
		if t != nil {
			su, _ = t.Underlying().(*types.Struct)
		}
		for i, e := range w.f {
			var et types.Type
			nm := hint
			if su != nil && i < su.NumFields() {
				et = su.Field(i).Type()
				nm = hint + "_" + su.Field(i).Name()
			}
			n.f = append(n.f, x.havocValue(st, fmt.Sprintf("%s.%d", key, i), e, et, mods, nm))
		}
		return n
	case GMap:
		if mods.has(key) {
			return GMap{x.c.Var(hint+"_has", SABZ), x.c.Var(hint+"_val", SABB)}
		}
	case ErrV:
		if mods.has(key) {
			v := x.c.Var(hint, SInt)
			x.c.rng[v] = irange{new(big.Int), nil}
			return ErrV{v}
		}
	case IfaceV:
		if mods.has(key) {
			if t != nil && isError(t) {
				v := x.c.Var(hint, SInt)
				x.c.rng[v] = irange{new(big.Int), nil}
				return ErrV{v}
			}
			unsupported("loop-modified interface value %s", hint)
		}
	case ArrV:
		if mods.has(key) {
			if w.bytes == nil {
				unsupported("loop-modified array")
			}
			return ArrV{bytes: x.c.ArrOf(x.c.Var(hint, SBytes)), n: w.n}
		}
	case Ptr:
		if mods.has(key) {
			return PoisonV{hint}
		}
	default:
		if mods.has(key) {
			unsupported("loop-modified %T (%s)", v, hint)
		}
	}
	return v
}

func (x *Exec) freshIntFrom(hint string, w *Term) *Term { return x.c.Var(hint, SInt) }

// diffValue records components of a location that differ.
func (x *Exec) diffValue(key string, a, b Value, add func(string)) {
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); !ok || p != q {
			add(key)
		}
	case SliceV:
		q, ok := b.(SliceV)
		if !ok {
			add(key)
			return
		}
		if p.obj != q.obj {
			add(key + "#obj")
		}
		if p.off != q.off {
			add(key + "#off")
		}
		if p.ln != q.ln {
			add(key + "#len")
		}
		if p.cp != q.cp {
			add(key + "#cap")
		}
		if p.nilc != q.nilc {
			add(key + "#nil")
		}
	case *StructV:
		q, ok := b.(*StructV)
		if !ok || len(q.f) != len(p.f) {
			add(key)
			return
		}
		for i := range p.f {
			x.diffValue(fmt.Sprintf("%s.%d", key, i), p.f[i], q.f[i], add)
		}
	case GMap:
		if q, ok := b.(GMap); !ok || p != q {
			add(key)
		}
	case ErrV:
		if q, ok := b.(ErrV); !ok || p.code != q.code {
			add(key)
		}
	case IfaceV:
		if q, ok := b.(IfaceV); ok {
			if p.t == nil && q.t == nil {
				return
			}
			if p.t != nil && q.t != nil && types.Identical(p.t, q.t) {
				if pp, ok := p.v.(Ptr); ok {
					if qq, ok := q.v.(Ptr); ok && pp.obj == qq.obj && pp.path == qq.path {
						return
					}
				}
				if pt, ok := p.v.(*Term); ok && pt == q.v {
					return
				}
			}
		}
		add(key)
	case PoisonV:
		if _, ok := b.(PoisonV); !ok {
			add(key)
		}
	case Ptr:
		if q, ok := b.(Ptr); !ok || p.obj != q.obj || p.path != q.path {
			add(key)
		}
	case MapRef:
		if q, ok := b.(MapRef); !ok || p.obj != q.obj {
			add(key)
		}
	case *FuncV:
		if q, ok := b.(*FuncV); !ok || (p != q && (p == nil || q == nil || p.fn != q.fn || p.id != q.id)) {
			add(key)
		}
	case ArrV:
		q, ok := b.(ArrV)
		if !ok || p.bytes != q.bytes || len(p.el) != len(q.el) {
			add(key)
			return
		}
		for i := range p.el {
			x.diffValue(key, p.el[i], q.el[i], add)
		}
	case nil:
		if b != nil {
			add(key)
		}
	case wordView:
		if q, ok := b.(wordView); !ok || p != q {
			add(key)
		}
	case RType:
		if q, ok := b.(RType); !ok || !types.Identical(p.t, q.t) {
			add(key)
		}
	case RVal:
		q, ok := b.(RVal)
		if !ok || !types.Identical(p.t, q.t) || p.addr.obj != q.addr.obj || p.addr.path != q.addr.path {
			add(key)
			return
		}
		if p.addr.obj == 0 {
			x.diffValue(key, p.v, q.v, add)
		}
	case *iterV:
		if q, ok := b.(*iterV); !ok || p != q {
			add(key)
		}
	default:
		unsupported("diff of %T", a)
	}
}

func (x *Exec) diffObj(key string, a, b *Object, add func(string)) {
	if a == b {
		return
	}
	if a.kind == okElems && b.kind == okLeaf {
		add(key + "#toleaf")
		return
	}
	if a.kind == okMap && b.kind == okSMap {
		add(key + "#map")
		return
	}
	if a.kind != b.kind {
		if b.kind == okOpaque {
			add(key + "#opaque")
			return
		}
		add(key + "#kind")
		return
	}
	switch a.kind {
	case okCell:
		x.diffValue(key, a.val, b.val, add)
	case okBytes:
		if a.arr != b.arr {
			add(key)
		}
	case okElems:
		if len(a.el) != len(b.el) {
			add(key + "#toleaf")
			return
		}
		for i := range a.el {
			ch := false
			x.diffValue(key, a.el[i], b.el[i], func(string) { ch = true })
			if ch {
				add(key + "#toleaf")
				return
			}
		}
	case okLeaf:
		for i := range a.leaves {
			if a.leaves[i] != b.leaves[i] {
				add(key)
				return
			}
		}
	case okSMap:
		if b.fobj != 0 {
			return // a view holds what the collection holds
		}
		if a.has != b.has {
			add(key + "#map")
			return
		}
		for i := range a.leaves {
			if a.leaves[i] != b.leaves[i] {
				add(fmt.Sprintf("%s#leaf%d", key, i))
			}
		}
	case okMap:
		if len(a.ments) != len(b.ments) {
			add(key + "#map")
			return
		}
		for i := range a.ments {
			ch := false
			x.diffValue(key, a.ments[i].key, b.ments[i].key, func(string) { ch = true })
			x.diffValue(key, a.ments[i].val, b.ments[i].val, func(string) { ch = true })
			if ch || a.ments[i].cond != b.ments[i].cond {
				add(key + "#map")
				return
			}
		}
	}
}

func (x *Exec) havocObj(st *State, id int, key string, mods *modSet) {
	o := st.obj(id)
	if mods.has(key + "#kind") {
		unsupported("loop changes representation of object %s", o.name)
	}
	if mods.has(key + "#opaque") {
		n := *o
		n.kind, n.el, n.leaves, n.val = okOpaque, nil, nil, nil
		st.heap[id] = &n
		return
	}
	if mods.has(key + "#map") {
		n := *x.freshSMap(st, sanitize(o.name), o.typ)
		n.frozen, n.why = o.frozen, o.why
		st.heap[id] = &n
		return
	}
	if o.kind == okSMap {
		n := *o
		n.leaves = append([]*Term(nil), o.leaves...)
		for i, l := range o.leaves {
			if mods.has(fmt.Sprintf("%s#leaf%d", key, i)) {
				n.leaves[i] = x.c.Var(fmt.Sprintf("%s_h%d", sanitize(o.name), i), l.S)
			}
		}
		st.heap[id] = &n
		return
	}
	switch o.kind {
	case okCell:
		nv := x.havocValue(st, key, o.val, o.typ, mods, o.name)
		n := *st.obj(id)
		n.val = nv
		st.heap[id] = &n
	case okBytes:
		if mods.has(key) {
			n := *o
			n.arr = x.c.ArrOf(x.c.Var(o.name+"_c", SBytes))
			st.heap[id] = &n
		}
	case okElems, okLeaf:
		if mods.has(key) || mods.has(key+"#toleaf") {
			o = x.toLeaf(st, id)
			n := *o
			n.leaves = nil
			for i, l := range o.leaves {
				n.leaves = append(n.leaves, x.c.Var(fmt.Sprintf("%s_h%d", sanitize(o.name), i), l.S))
			}
			st.heap[id] = &n
		}
	}
}

// havocState applies the modified set to a copy of the entry state.
func (x *Exec) havocState(st *State, lp *loopInfo, mods *modSet) *State {
	s := st.clone()
	f := s.top()
	var ids []int
	for id := range mods.objs() {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if s.obj(id) != nil {
			x.havocObj(s, id, fmt.Sprintf("o%d", id), mods)
		}
	}
	for _, in := range lp.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		hint := p.Comment
		if hint == "" {
			hint = p.Name()
		}
		f.env[p] = x.havocValue(s, "p"+p.Name(), f.env[p], p.Type(), mods, hint)
	}
	// objects that may be the same memory keep equal contents
	var all []int
	for id := range s.heap {
		all = append(all, id)
	}
	sort.Ints(all)
	for _, id := range all {
		o := s.obj(id)
		if o.kind != okBytes {
			continue
		}
		for _, p := range o.peers {
			q := s.obj(p.obj)
			if p.obj < id || q == nil || q.kind != okBytes || q.arr == o.arr || p.cond.IsFalse() {
				continue
			}
			if so := st.obj(id); so != nil {
				if sq := st.obj(p.obj); sq != nil && so.arr == o.arr && sq.arr == q.arr {
					continue // unchanged by this loop
				}
			}
			j := x.c.BVar("j", SInt)
			l, r := x.c.Select(o.arr, j), x.c.Select(q.arr, j)
			s.assume(x.c.Quant("forall", []*Term{j}, nil, x.c.Implies(p.cond, x.c.Eq(l, r))))
		}
	}
	return s
}

func (m *modSet) objs() map[int]bool {
	out := map[int]bool{}
	for k := range m.m {
		if k[0] == 'o' {
			n := 0
			for i := 1; i < len(k) && k[i] >= '0' && k[i] <= '9'; i++ {
				n = n*10 + int(k[i]-'0')
			}
			out[n] = true
		}
	}
	return out
}

// candidate invariant
type cand struct {
	name string
	eval func(st *State) *Term // on a state positioned at the header
	dead bool
	tmpl bool
}

func (x *Exec) runBody(hs *State, lp *loopInfo, b *ssa.BasicBlock, onBack func(st *State, prev *ssa.BasicBlock)) {
	s := hs.clone()
	f := s.top()
	f.loops = append(f.loops, &loopCtx{loop: lp, body: true, back: onBack})
	x.quiet++
	defer func() { x.quiet-- }()
	x.instrs(s, b, func(*State, Value) {})
}

func (x *Exec) cutLoop(st *State, lp *loopInfo, b *ssa.BasicBlock, k cont) {
	x.loopsCut++
	debug := os.Getenv("GOVC_LOOP") != ""
	depth := len(st.frames)
	// 1. discovery
	mods := &modSet{m: map[string]bool{}}
	for round := 0; ; round++ {
		if round > 40 {
			unsupported("loop frame discovery did not stabilise in %s", lp.fn)
		}
		hs := x.havocState(st, lp, mods)
		changed := false
		add := func(k string) {
			if !mods.m[k] {
				mods.m[k] = true
				changed = true
			}
		}
		heap0 := map[int]*Object{}
		for id, o := range hs.heap {
			heap0[id] = o
		}
		x.runBody(hs, lp, b, func(bs *State, prev *ssa.BasicBlock) {
			if len(bs.frames) != depth {
				return
			}
			x.phis(bs, b, prev)
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				x.diffValue("p"+p.Name(), hs.top().env[p], bs.top().env[p], add)
			}
			for id := range bs.heap {
				var a *Object
				if o, ok := heap0[id]; ok {
					a = o
				} else if o, ok := hs.base[id]; ok {
					a = o
				} else {
					continue // allocated inside
				}
				// only objects that existed at loop entry
				if st.obj(id) == nil {
					continue
				}
				x.diffObj(fmt.Sprintf("o%d", id), a, bs.obj(id), add)
			}
			for fi := range bs.frames {
				_ = fi
			}
		})
		if !changed {
			break
		}
	}
	if debug {
		var ks []string
		for k := range mods.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Fprintf(os.Stderr, "loop %s block %d: modified %v\n", lp.fn, b.Index, ks)
	}
	// 2. candidates
	hs := x.havocState(st, lp, mods)
	cands := x.candidates(st, hs, lp, b, mods)
	// check on entry
	type job struct {
		c *cand
		h []*Term
		g *Term
	}
	runJobs := func(jobs []job, to float64) {
		type res struct{ ok bool }
		results := make([]bool, len(jobs))
		done := make(chan int, len(jobs))
		for i := range jobs {
			i := i
			j := jobs[i]
			if j.g.IsTrue() {
				results[i] = true
				done <- i
				continue
			}
			if j.g.IsFalse() && false {
				done <- i
				continue
			}
			q := x.c.Query(j.h, x.axioms, j.g, false)
			go func() {
				r := proveInv(q)
				results[i] = r
				done <- i
			}()
		}
		for range jobs {
			<-done
		}
		for i, j := range jobs {
			if !results[i] {
				if d := os.Getenv("GOVC_LOOPDUMP"); d != "" && j.c.tmpl {
					os.WriteFile(fmt.Sprintf("%s/drop_%s_%d.smt2", d, sanitize(j.c.name), i), []byte(z3optsB+x.c.Query(j.h, x.axioms, j.g, false)+"(check-sat)\n"), 0o644)
				}
				if debug && !j.c.dead {
					fmt.Fprintf(os.Stderr, "  drop %s: %s\n", j.c.name, x.c.Show(j.g))
				}
				j.c.dead = true
			}
		}
	}
	checkEntry := func(cands []*cand) {
		var entry []job
		for _, c := range cands {
			t := c.evalSafe(x, st)
			if t == nil {
				c.dead = true
				continue
			}
			entry = append(entry, job{c, st.hyps(), t})
		}
		runJobs(entry, 5)
	}
	checkEntry(cands)
	// 3. Houdini
	var finalJobs []job
	houdini := func() {
		for round := 0; round < 12; round++ {
			var live []*cand
			for _, c := range cands {
				if !c.dead {
					live = append(live, c)
				}
			}
			hs = x.havocState(st, lp, mods)
			for _, c := range live {
				t := c.evalSafe(x, hs)
				if t == nil {
					c.dead = true
					continue
				}
				hs.assume(t)
			}
			var jobs []job
			x.runBody(hs, lp, b, func(bs *State, prev *ssa.BasicBlock) {
				if len(bs.frames) != depth {
					return
				}
				x.phis(bs, b, prev)
				for _, c := range live {
					if c.dead {
						continue
					}
					t := c.evalSafe(x, bs)
					if t == nil {
						c.dead = true
						continue
					}
					jobs = append(jobs, job{c, bs.hyps(), t})
				}
			})
			n0 := 0
			for _, c := range live {
				if c.dead {
					n0++
				}
			}
			if n0 == 0 {
				runJobs(jobs, 5)
			}
			nd := 0
			for _, c := range live {
				if c.dead {
					nd++
				}
			}
			if nd == 0 {
				finalJobs = jobs
				break
			}
			if round == 11 {
				for _, c := range cands {
					c.dead = true
				}
			}
		}
	}
	houdini()
	if extra := x.historyCands(st, lp, b, mods, depth, cands); len(extra) > 0 {
		checkEntry(extra)
		cands = append(cands, extra...)
		houdini()
	}
	if x.quiet == 0 {
		for _, c := range cands {
			if !c.dead {
				x.obls = append(x.obls, &Obligation{Label: "loop invariant holds on entry in " + shortName(lp.fn) + ": " + c.name, Goal: x.c.True, Trivial: true, Res: proofResult{ok: true, solver: "z3-new"}, Where: lp.fn.String()})
			}
		}
		for _, j := range finalJobs {
			x.obls = append(x.obls, &Obligation{Label: "loop invariant preserved in " + shortName(lp.fn) + ": " + j.c.name, Goal: j.g, Trivial: true, Res: proofResult{ok: true, solver: "z3-new"}, Where: lp.fn.String()})
		}
	}
	// 4. continue from the havoced header
	hs = x.havocState(st, lp, mods)
	for _, c := range cands {
		if !c.dead {
			hs.assume(c.evalSafe(x, hs))
			if c.tmpl {
				x.invUsed = append(x.invUsed, shortName(lp.fn)+": "+c.name)
			}
			if debug {
				fmt.Fprintf(os.Stderr, "  keep %s\n", c.name)
			}
		}
	}
	f := hs.top()
	f.loops = append(f.loops, &loopCtx{loop: lp, back: func(*State, *ssa.BasicBlock) {}})
	x.instrs(hs, b, k)
}

func (c *cand) evalSafe(x *Exec, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				if os.Getenv("GOVC_LOOP") != "" {
					fmt.Fprintf(os.Stderr, "  cand %s: %s\n", c.name, u.msg)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.eval(st)
}

type slot struct {
	name string
	typ  types.Type
	get  func(st *State) Value
	mod  bool
}

// candidates builds invariant candidates: automatic ones and harness templates.
func (x *Exec) candidates(st, hs *State, lp *loopInfo, b *ssa.BasicBlock, mods *modSet) []*cand {
	c := x.c
	var out []*cand
	var slots []slot
	depth := len(st.frames)
	// phis
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		p2 := p
		mod := false
		for k := range mods.m {
			if k == "p"+p.Name() || strings.HasPrefix(k, "p"+p.Name()+"#") || strings.HasPrefix(k, "p"+p.Name()+".") {
				mod = true
			}
		}
		slots = append(slots, slot{name: p.Comment, typ: p.Type(), get: func(s *State) Value { return s.frames[depth-1].env[p2] }, mod: mod})
	}
	// modified heap cells
	var ids []int
	for id := range mods.objs() {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := st.obj(id)
		if o == nil || o.kind != okCell || o.typ == nil {
			continue
		}
		id := id
		slots = append(slots, slot{name: o.name, typ: o.typ, get: func(s *State) Value { return s.obj(id).val }, mod: true})
	}
	// parameters and other named values fixed during the loop, available to templates by name
	var fixed []slot
	top := st.top()
	addFixed := func(name string, v ssa.Value) {
		if _, ok := top.env[v]; !ok {
			return
		}
		for _, s := range slots {
			if s.name == name {
				return
			}
		}
		for _, s := range fixed {
			if s.name == name {
				return
			}
		}
		fixed = append(fixed, slot{name: name, typ: v.Type(), get: func(s *State) Value { return s.frames[depth-1].env[v] }})
	}
	// variables whose address is taken
	addAddr := func(name string, al *ssa.Alloc) {
		p, ok := top.env[al].(Ptr)
		if !ok || p.obj == 0 || p.path != "" {
			return
		}
		for _, s := range slots {
			if s.name == name {
				return
			}
		}
		for _, s := range fixed {
			if s.name == name {
				return
			}
		}
		et := al.Type().Underlying().(*types.Pointer).Elem()
		fixed = append(fixed, slot{name: name, typ: et, get: func(s *State) Value { return x.load(s, p, et) }})
	}
	for d := b.Idom(); d != nil; d = d.Idom() {
		for i := len(d.Instrs) - 1; i >= 0; i-- {
			if r, ok := d.Instrs[i].(*ssa.DebugRef); ok {
				id, ok := r.Expr.(*ast.Ident)
				if !ok {
					continue
				}
				if !r.IsAddr {
					addFixed(id.Name, r.X)
				} else if al, ok := r.X.(*ssa.Alloc); ok {
					addAddr(id.Name, al)
				}
			}
		}
	}
	for _, p := range lp.fn.Params {
		addFixed(p.Name(), p)
	}
	// automatic: integer slots
	init := func(s slot) Value { return s.get(st) }
	for _, s := range slots {
		s := s
		if bt, ok := s.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && s.mod {
			i0, ok := init(s).(*Term)
			if !ok {
				continue
			}
			out = append(out, &cand{name: s.name + " >= initial", eval: func(z *State) *Term { return c.Le(i0, s.get(z).(*Term)) }})
			out = append(out, &cand{name: s.name + " <= initial", eval: func(z *State) *Term { return c.Le(s.get(z).(*Term), i0) }})
		}
		if e0, ok := init(s).(ErrV); ok && s.mod {
			out = append(out, &cand{name: s.name + " is unchanged", eval: func(z *State) *Term {
				if q, ok := s.get(z).(ErrV); ok {
					return c.Eq(q.code, e0.code)
				}
				return nil
			}})
		}
		if _, ok := s.typ.Underlying().(*types.Slice); ok && s.mod {
			s0, ok := init(s).(SliceV)
			if !ok {
				continue
			}
			out = append(out, &cand{name: s.name + " keeps its end", eval: func(z *State) *Term {
				q := s.get(z).(SliceV)
				if q.obj != s0.obj {
					return nil
				}
				return c.Eq(c.Add(q.off, q.ln), c.Add(s0.off, s0.ln))
			}})
			out = append(out, &cand{name: s.name + " keeps its capacity end", eval: func(z *State) *Term {
				q := s.get(z).(SliceV)
				if q.obj != s0.obj {
					return nil
				}
				return c.Eq(c.Add(q.off, q.cp), c.Add(s0.off, s0.cp))
			}})
			for _, s2 := range slots {
				s2 := s2
				if bt, ok := s2.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && s2.mod {
					i0, ok := init(s2).(*Term)
					if !ok {
						continue
					}
					out = append(out, &cand{name: fmt.Sprintf("len(%s) tracks %s", s.name, s2.name), eval: func(z *State) *Term {
						return c.Eq(c.Sub(s.get(z).(SliceV).ln, s0.ln), c.Sub(s2.get(z).(*Term), i0))
					}})
				}
			}
		}
	}
	// errors and counters that are still what they were at loop entry
	for _, id := range ids {
		o := st.obj(id)
		if o == nil || o.kind != okCell {
			continue
		}
		id := id
		var walk func(key, name string, t types.Type, v Value, get func(Value) Value)
		walk = func(key, name string, t types.Type, v Value, get func(Value) Value) {
			switch w := v.(type) {
			case *StructV:
				var su *types.Struct
				if t != nil {
					su, _ = t.Underlying().(*types.Struct)
				}
				for i, e := range w.f {
					i := i
					nm := fmt.Sprint(i)
					var ft types.Type
					if su != nil && i < su.NumFields() {
						nm, ft = su.Field(i).Name(), su.Field(i).Type()
					}
					walk(fmt.Sprintf("%s.%d", key, i), name+"."+nm, ft, e, func(r Value) Value {
						if q, ok := get(r).(*StructV); ok && i < len(q.f) {
							return q.f[i]
						}
						return nil
					})
				}
			case ErrV:
				if mods.has(key) {
					out = append(out, &cand{name: name + " is unchanged", eval: func(z *State) *Term {
						if q, ok := get(z.obj(id).val).(ErrV); ok {
							return c.Eq(q.code, w.code)
						}
						return nil
					}})
				}
			case *Term:
				if mods.has(key) && (w.S == SInt || w.S == SBool) && strings.Contains(name, ".") {
					out = append(out, &cand{name: name + " is unchanged", eval: func(z *State) *Term {
						if q, ok := get(z.obj(id).val).(*Term); ok {
							return c.Eq(q, w)
						}
						return nil
					}})
				}
			}
		}
		walk(fmt.Sprintf("o%d", id), o.name, o.typ, o.val, func(v Value) Value { return v })
	}
	// bytes of a modified array below the end of a slice held at loop entry stay unchanged
	for _, id := range ids {
		o := st.obj(id)
		if o == nil || o.kind != okBytes {
			continue
		}
		id := id
		a0 := o.arr
		ends := map[*Term]bool{}
		for _, s := range slots {
			if s0, ok := init(s).(SliceV); ok && s0.obj == id {
				e := c.Add(s0.off, s0.ln)
				if ends[e] {
					continue
				}
				ends[e] = true
				out = append(out, &cand{name: fmt.Sprintf("bytes of %s below its initial end are unchanged", s.name), eval: func(z *State) *Term {
					zo := z.obj(id)
					if zo == nil || zo.kind != okBytes {
						return nil
					}
					if zo.arr == a0 {
						return c.True
					}
					j := c.BVar("j", SInt)
					l, r := c.Select(zo.arr, j), c.Select(a0, j)
					return c.Quant("forall", []*Term{j}, nil, c.Implies(c.And(c.Le(c.Int(0), j), c.Lt(j, e)), c.Eq(l, r)))
				}})
			}
		}
	}
	// bytes of a modified array outside a slice the loop works on stay unchanged
	outside := map[string]bool{}
	for _, s := range fixed {
		if _, ok := s.typ.Underlying().(*types.Slice); !ok {
			continue
		}
		s0, ok := s.get(st).(SliceV)
		if !ok || s0.obj == 0 {
			continue
		}
		for _, id := range ids {
			o := st.obj(id)
			if o == nil || o.kind != okBytes || (id != s0.obj && !x.isPeer(st, id, s0.obj) && !x.isPeer(st, s0.obj, id)) {
				continue
			}
			key := fmt.Sprintf("%d/%d/%d", id, s0.off.id, s0.ln.id)
			if outside[key] {
				continue
			}
			outside[key] = true
			id, a0 := id, o.arr
			out = append(out, &cand{name: fmt.Sprintf("bytes outside %s are unchanged", s.name), eval: func(z *State) *Term {
				zo := z.obj(id)
				if zo == nil || zo.kind != okBytes {
					return nil
				}
				if zo.arr == a0 {
					return c.True
				}
				j := c.BVar("j", SInt)
				return c.Quant("forall", []*Term{j}, nil, c.Implies(c.Or(c.Lt(j, s0.off), c.Le(c.Add(s0.off, s0.ln), j)), c.Eq(c.Select(zo.arr, j), c.Select(a0, j))))
			}})
		}
	}
	// relations with loop bounds, and steps
	for _, blk := range lp.fn.Blocks {
		if !lp.blocks[blk] {
			continue
		}
		for _, in := range blk.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					ph, off := phiOf(pr[0], b)
					if ph == nil {
						continue
					}
					bound := pr[1]
					bv := x.loopInvariantVal(st, lp, bound)
					if bv == nil {
						continue
					}
					_ = off
					for _, d := range []int64{-1, 0, 1} {
						d := d
						out = append(out, &cand{name: fmt.Sprintf("%s <= bound%+d", ph.Comment, d), eval: func(z *State) *Term {
							return c.Le(z.frames[depth-1].env[ph].(*Term), c.Add(bv, c.Int(d)))
						}})
						out = append(out, &cand{name: fmt.Sprintf("%s >= bound%+d", ph.Comment, d), eval: func(z *State) *Term {
							return c.Le(c.Add(bv, c.Int(d)), z.frames[depth-1].env[ph].(*Term))
						}})
					}
				}
			case token.ADD:
				if ph, ok := bo.X.(*ssa.Phi); ok && ph.Block() == b {
					if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil {
						kt, _ := x.constVal(st, k).(*Term)
						i0, ok := st.top().env[ph].(*Term)
						if kt != nil && ok && kt.Op == "int" && kt.N.Cmp(one) > 0 {
							out = append(out, &cand{name: fmt.Sprintf("%s steps by %s", ph.Comment, kt.Name), eval: func(z *State) *Term {
								return c.Eq(c.Mod(c.Sub(z.frames[depth-1].env[ph].(*Term), i0), kt), c.Int(0))
							}})
						}
					}
				}
			}
		}
	}
	// harness templates
	for ti, tf := range st.temps {
		sig := tf.fn.Signature
		n := sig.Params().Len()
		var binds [][]slot
		var rec func(i int, cur []slot)
		match := func(i int) []slot {
			pt := sig.Params().At(i)
			var byName, byType []slot
			for _, s := range slots {
				if types.Identical(s.typ.Underlying(), pt.Type().Underlying()) || (isByteSlice(s.typ) && isByteSlice(pt.Type())) {
					byType = append(byType, s)
					if s.name == pt.Name() {
						byName = append(byName, s)
					}
				}
			}
			for _, s := range fixed {
				if s.name == pt.Name() && (types.Identical(s.typ.Underlying(), pt.Type().Underlying()) || (isByteSlice(s.typ) && isByteSlice(pt.Type()))) {
					byName = append(byName, s)
				}
			}
			if len(byName) > 0 {
				return byName
			}
			if p, ok := pt.Type().Underlying().(*types.Pointer); ok {
				// a variable of that type under another name
				if _, ok := p.Elem().Underlying().(*types.Struct); ok {
					for _, s := range fixed {
						if types.Identical(s.typ, pt.Type()) {
							byType = append(byType, s)
						}
					}
				}
			}
			return byType
		}
		rec = func(i int, cur []slot) {
			if len(binds) > 120 {
				return
			}
			if i == n {
				binds = append(binds, append([]slot(nil), cur...))
				return
			}
			for _, s := range match(i) {
				dup := false
				for _, q := range cur {
					if q.name == s.name && q.name != "" {
						dup = true
					}
				}
				if !dup {
					rec(i+1, append(cur, s))
				}
			}
		}
		rec(0, nil)
		for bi, bd := range binds {
			bd := bd
			tf := tf
			var nm []string
			for _, s := range bd {
				nm = append(nm, s.name)
			}
			out = append(out, &cand{name: fmt.Sprintf("template %d(%s)#%d", ti, strings.Join(nm, ","), bi), tmpl: true, eval: func(z *State) *Term {
				var args []Value
				for _, s := range bd {
					args = append(args, s.get(z))
				}
				old, oldh := x.entry, x.header
				x.entry, x.header = st, b
				defer func() { x.entry, x.header = old, oldh }()
				return x.evalPure(z, tf, args).(*Term)
			}})
		}
	}
	return out
}

func phiOf(v ssa.Value, header *ssa.BasicBlock) (*ssa.Phi, int) {
	switch w := v.(type) {
	case *ssa.Phi:
		if w.Block() == header {
			return w, 0
		}
	case *ssa.BinOp:
		if p, ok := w.X.(*ssa.Phi); ok && p.Block() == header && (w.Op == token.ADD || w.Op == token.SUB) {
			return p, 1
		}
	case *ssa.Convert:
		return phiOf(w.X, header)
	}
	return nil, 0
}

// loopInvariantVal evaluates an operand computed outside the loop (or a len() of such).
func (x *Exec) loopInvariantVal(st *State, lp *loopInfo, v ssa.Value) *Term {
	switch w := v.(type) {
	case *ssa.Const:
		t, _ := x.constVal(st, w).(*Term)
		return t
	case *ssa.Call:
		if bi, ok := w.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if a, ok := st.top().env[w.Call.Args[0]]; ok {
				if ph, ok := w.Call.Args[0].(*ssa.Phi); ok && ph.Block() == lp.header {
					return nil
				}
				switch s := a.(type) {
				case SliceV:
					return s.ln
				case *Term:
					if s.S == SBytes {
						return x.c.Len(s)
					}
				}
			}
		}
	case *ssa.Phi:
		if w.Block() == lp.header {
			return nil
		}
	}
	if in, ok := v.(ssa.Instruction); ok && lp.blocks[in.Block()] {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			// load inside the loop of a cell: use its entry value
			if p, ok := st.top().env[u.X].(Ptr); ok && p.obj != 0 {
				if t, ok := x.load(st, p, u.Type()).(*Term); ok && t.S == SInt {
					return t
				}
			}
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if p, ok := st.top().env[fa.X].(Ptr); ok && p.obj != 0 {
					if t, ok := x.load(st, p.with(pelem{field: fa.Field}), u.Type()).(*Term); ok && t.S == SInt {
						return t
					}
				}
			}
		}
		return nil
	}
	if t, ok := st.top().env[v].(*Term); ok && t.S == SInt {
		return t
	}
	return nil
}

// historyCands proposes "every earlier iteration stayed in the loop": for a counter i stepping by one, the branch
// conditions under which an iteration reaches the back edge hold for every earlier value of the counter.
func (x *Exec) historyCands(st *State, lp *loopInfo, b *ssa.BasicBlock, mods *modSet, depth int, cands []*cand) []*cand {
	c := x.c
	id0 := c.next
	hs := x.havocState(st, lp, mods)
	for _, cd := range cands {
		if !cd.dead {
			if t := cd.evalSafe(x, hs); t != nil {
				hs.assume(t)
			}
		}
	}
	base := hs.pc
	type back struct {
		conds []*Term
		env   map[*ssa.Phi]Value
		ints  []*Term
	}
	var backs []back
	islots := x.intSlots(st, b, mods, depth)
	var backStates []*State
	x.runBody(hs, lp, b, func(bs *State, prev *ssa.BasicBlock) {
		if len(bs.frames) != depth {
			return
		}
		var cs []*Term
		for n := bs.pc; n != base && n != nil; n = n.prev {
			if n.branch {
				cs = append(cs, n.t)
			}
		}
		x.phis(bs, b, prev)
		bk := back{conds: cs, env: map[*ssa.Phi]Value{}}
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			bk.env[p] = bs.top().env[p]
		}
		for _, sl := range islots {
			bk.ints = append(bk.ints, sl.get(bs))
		}
		backStates = append(backStates, bs.clone())
		backs = append(backs, bk)
	})
	if len(backs) == 0 || len(backs) > 24 {
		return nil
	}
	var out []*cand
	// integers of the loop that move together, and bounds that every iteration leaves behind
	deltas := make([][]*big.Int, len(islots))
	for i, sl := range islots {
		v := sl.get(hs)
		if v == nil || v.Op != "var" || v.id <= id0 {
			continue
		}
		ds := []*big.Int{}
		for _, bk := range backs {
			if bk.ints[i] == nil {
				ds = nil
				break
			}
			d, ok := c.diffConst(bk.ints[i], v)
			if !ok {
				ds = nil
				break
			}
			ds = append(ds, d)
		}
		deltas[i] = ds
		if ds == nil {
			continue
		}
		seen := map[*Term]bool{}
		for bi, bk := range backs {
			for _, t := range bk.conds {
				if t.Op != "<=0" || t.hasB || seen[t] || !c.occurs(t, v) {
					continue
				}
				seen[t] = true
				ok := true
				for _, w := range x.varsOf(t) {
					if w != v && w.id > id0 {
						ok = false
					}
				}
				if !ok {
					continue
				}
				sl, t, d := sl, t, ds[bi]
				out = append(out, &cand{name: "a bound on " + sl.name + " that the previous iteration left", eval: func(z *State) *Term {
					q := sl.get(z)
					if q == nil {
						return nil
					}
					return c.Subst(t, map[*Term]*Term{v: c.Sub(q, c.Big(d))})
				}})
			}
		}
		for k := 0; k < i; k++ {
			if deltas[k] == nil || len(out) > 60 {
				continue
			}
			same := true
			for b := range backs {
				if ds[b].Cmp(deltas[k][b]) != 0 {
					same = false
				}
			}
			a0, b0 := sl.get(st), islots[k].get(st)
			if !same || a0 == nil || b0 == nil {
				continue
			}
			sa, sb := sl, islots[k]
			out = append(out, &cand{name: sa.name + " moves with " + sb.name, eval: func(z *State) *Term {
				p, q := sa.get(z), sb.get(z)
				if p == nil || q == nil {
					return nil
				}
				return c.Eq(c.Sub(p, a0), c.Sub(q, b0))
			}})
		}
	}
	out = append(out, x.appendCands(st, hs, islots, deltas, id0, func(f func(bs *State, conds []*Term)) {
		for i, b := range backStates {
			f(b, backs[i].conds)
		}
	})...)
	if len(backs) > 8 {
		return out
	}
	out = append(out, x.elemCands(st, hs, mods, islots, deltas, id0, func(f func(bs *State, conds []*Term)) {
		for i, b := range backStates {
			f(b, backs[i].conds)
		}
	})...)
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v, ok := hs.top().env[p].(*Term)
		if !ok || v.Op != "var" || v.S != SInt || v.id <= id0 {
			continue
		}
		i0, ok := st.top().env[p].(*Term)
		if !ok {
			continue
		}
		step := true
		for _, bk := range backs {
			t, ok := bk.env[p].(*Term)
			if !ok {
				step = false
				break
			}
			d, ok := c.diffConst(t, v)
			if !ok || d.Cmp(one) != 0 {
				step = false
			}
		}
		if !step {
			continue
		}
		var ds []*Term
		for _, bk := range backs {
			var cs []*Term
			for _, t := range bk.conds {
				ok, has := true, false
				for _, w := range x.varsOf(t) {
					if w == v {
						has = true
					} else if w.id > id0 {
						ok = false
					}
				}
				if ok && has && !t.hasB {
					cs = append(cs, t)
				}
			}
			ds = append(ds, c.And(cs...))
		}
		q := c.Or(ds...)
		if os.Getenv("GOVC_LOOP") != "" {
			fmt.Fprintf(os.Stderr, "  history of %s: %s (%d backs)\n", p.Comment, c.Show(q), len(backs))
		}
		if q.IsTrue() || !c.occurs(q, v) {
			continue
		}

		out = append(out, &cand{name: "earlier iterations over " + p.Comment + " stayed in the loop", eval: func(z *State) *Term {
			i, ok := z.frames[depth-1].env[p].(*Term)
			if !ok {
				return nil
			}
			j := c.BVar("j", SInt)
			body := c.Subst(q, map[*Term]*Term{v: j})
			return c.Quant("forall", []*Term{j}, nil, c.Implies(c.And(c.Le(i0, j), c.Lt(j, i)), body))
		}})
	}
	return out
}

// intSlot is an integer that a loop modifies: a variable, a field, or the length of a slice.
type intSlot struct {
	name  string
	get   func(st *State) *Term
	slice func(st *State) (SliceV, bool) // for the length of a slice
}

// appendCands proposes what the elements are that a loop appends: when every iteration appends one element whose
// parts depend on integers that grow with the length only, the element at a position is that function of it.
func (x *Exec) appendCands(st, hs *State, islots []intSlot, deltas [][]*big.Int, id0 int, each func(func(*State, []*Term))) []*cand {
	c := x.c
	var out []*cand
	ones := func(ds []*big.Int) bool {
		if len(ds) == 0 {
			return false
		}
		for _, d := range ds {
			if d.Cmp(one) != 0 {
				return false
			}
		}
		return true
	}
	init := map[*Term]*Term{} // head variable -> initial value, for the integers that grow by one
	for i, sl := range islots {
		if v := sl.get(hs); ones(deltas[i]) && v != nil && sl.get(st) != nil {
			init[v] = sl.get(st)
		}
	}
	leavesOf := func(s *State, sv SliceV) (res []*Term) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsup); !ok {
					panic(r)
				}
				res = nil
			}
		}()
		if sv.obj == 0 {
			return nil
		}
		switch o := s.obj(sv.obj); o.kind {
		case okLeaf:
			return o.leaves
		case okElems:
			return x.toLeaf(s, sv.obj).leaves
		}
		return nil
	}
	for i, sl := range islots {
		if sl.slice == nil || !ones(deltas[i]) {
			continue
		}
		h, ok := sl.slice(hs)
		if !ok {
			continue
		}
		ln0 := sl.get(st)
		var bodies [][]*Term
		var guards []*Term
		allowed := func(t *Term) bool {
			if t.hasB {
				return false
			}
			for _, w := range x.varsOf(t) {
				if w.id > id0 && init[w] == nil {
					return false
				}
			}
			return true
		}
		good := true
		each(func(bs *State, conds []*Term) {
			q, ok := sl.slice(bs)
			if !ok || !good {
				good = false
				return
			}
			ls := leavesOf(bs, q)
			if ls == nil || len(bodies) > 0 && len(ls) != len(bodies[0]) {
				good = false
				return
			}
			var ts, cs []*Term
			for _, l := range ls {
				ts = append(ts, c.Select(l, c.Add(q.off, h.ln)))
			}
			for _, t := range conds {
				if allowed(t) {
					cs = append(cs, t)
				}
			}
			bodies = append(bodies, ts)
			guards = append(guards, c.And(cs...))
		})
		if !good || len(bodies) == 0 || len(bodies) > 8 {
			continue
		}
		for k := range bodies[0] {
			ok, same := true, true
			for _, ts := range bodies {
				ok = ok && allowed(ts[k])
				same = same && ts[k] == bodies[0][k]
			}
			if os.Getenv("GOVC_LOOP") != "" {
				fmt.Fprintf(os.Stderr, "  appended to %s part %d (%v %v): %s\n", sl.name, k, ok, same, c.Show(bodies[0][k]))
			}
			if !ok {
				continue
			}
			alts, grds := [][]*Term(nil), []*Term(nil)
			if same {
				alts, grds = bodies[:1], []*Term{c.True}
			} else {
				alts, grds = bodies, guards
			}
			k, sl := k, sl
			out = append(out, &cand{name: fmt.Sprintf("what was appended to %s (%d)", sl.name, k), eval: func(z *State) *Term {
				q, ok := sl.slice(z)
				if !ok {
					return nil
				}
				if q.ln == ln0 {
					return c.True
				}
				ls := leavesOf(z, q)
				if ls == nil {
					return nil
				}
				j := c.BVar("j", SInt)
				sub := map[*Term]*Term{}
				for v, v0 := range init {
					sub[v] = c.Add(v0, c.Sub(j, ln0))
				}
				l := c.Select(ls[k], c.Add(q.off, j))
				var ors []*Term
				for i, ts := range alts {
					ors = append(ors, c.And(c.Subst(grds[i], sub), c.Eq(l, c.Subst(ts[k], sub))))
				}
				is := c.Or(ors...)
				return c.Quant("forall", []*Term{j}, nil, c.Implies(c.And(c.Le(ln0, j), c.Lt(j, q.ln)), is))
			}})
		}
	}
	return out
}

// elemCands proposes what the elements of a collection are that a loop works through: when an iteration changes at
// most the element at an index that grows by one, the elements not reached yet are unchanged and each earlier one
// is what its iteration made it.
func (x *Exec) elemCands(st, hs *State, mods *modSet, islots []intSlot, deltas [][]*big.Int, id0 int, each func(func(*State, []*Term))) []*cand {
	c := x.c
	var out []*cand
	sub0 := map[*Term]*Term{}  // head variable -> initial value, for unchanged reads
	steps := map[*Term]*Term{} // the same, for integers that grow by one
	slotOf := map[*Term]intSlot{}
	for i, sl := range islots {
		v, v0 := sl.get(hs), sl.get(st)
		if v == nil || v0 == nil || len(deltas[i]) == 0 {
			continue
		}
		ones := true
		for _, d := range deltas[i] {
			ones = ones && d.Cmp(one) == 0
		}
		if ones {
			steps[v] = v0
			slotOf[v] = sl
		}
	}
	var ids []int
	for id := range mods.objs() {
		o, h := st.obj(id), hs.obj(id)
		if o == nil || h == nil || h.kind != okLeaf || !mods.has(fmt.Sprintf("o%d", id)) {
			continue
		}
		if o.kind == okElems {
			o = x.toLeaf(st, id)
		}
		if o.kind != okLeaf || len(o.leaves) != len(h.leaves) {
			continue
		}
		ids = append(ids, id)
		for k := range h.leaves {
			sub0[h.leaves[k]] = o.leaves[k]
		}
	}
	sort.Ints(ids)
	allowed := func(t *Term) bool {
		if t.hasB {
			return false
		}
		for _, w := range x.varsOf(t) {
			if w.id > id0 && steps[w] == nil && sub0[w] == nil {
				return false
			}
		}
		return true
	}
	leaf := func(z *State, id, k int) *Term {
		o := z.obj(id)
		if o == nil || o.kind != okLeaf || k >= len(o.leaves) {
			return nil
		}
		return o.leaves[k]
	}
	for _, id := range ids {
		n := len(st.obj(id).leaves)
		type alt struct{ guard, idx, val *Term }
		alts := make([][]alt, n)
		bad := false
		each(func(bs *State, conds []*Term) {
			o := bs.obj(id)
			if o == nil || o.kind != okLeaf || len(o.leaves) != n {
				bad = true
				return
			}
			var cs []*Term
			for _, t := range conds {
				if allowed(t) {
					cs = append(cs, t)
				}
			}
			for k := range o.leaves {
				a := alt{guard: c.And(cs...)}
				switch l := o.leaves[k]; {
				case l == hs.obj(id).leaves[k]:
				case l.Op == "store" && l.Args[0] == hs.obj(id).leaves[k]:
					a.idx, a.val = l.Args[1], l.Args[2]
				case l.Op == "store" && l.Args[0].Op == "store" && l.Args[0].Args[1] == l.Args[1] && l.Args[0].Args[0] == hs.obj(id).leaves[k]:
					a.idx, a.val = l.Args[1], l.Args[2]
				default:
					a.idx, a.val = c.Int(0), nil
					alts[k] = append(alts[k], a)
					continue
				}
				alts[k] = append(alts[k], a)
			}
		})
		if bad {
			continue
		}
		name := st.obj(id).name
		// the index, if there is one: the head variable plus a constant or an entry term
		var idx, v *Term
		for k := range alts {
			for _, a := range alts[k] {
				if a.idx != nil && a.val != nil && idx == nil {
					for w := range steps {
						if c.occurs(a.idx, w) {
							idx, v = a.idx, w
						}
					}
				}
			}
		}
		for k := 0; k < n; k++ {
			id, k := id, k
			l0 := st.obj(id).leaves[k]
			same, ok := true, true
			for _, a := range alts[k] {
				if a.idx == nil {
					continue
				}
				same = false
				if a.val == nil || a.idx != idx {
					ok = false
				}
			}
			if os.Getenv("GOVC_LOOP") != "" {
				fmt.Fprintf(os.Stderr, "  elements of %s part %d: same %v known %v index %v\n", name, k, same, ok, idx != nil)
				for _, a := range alts[k] {
					if a.val != nil {
						fmt.Fprintf(os.Stderr, "    %s: %s\n", c.Show(a.guard), c.Show(a.val))
					}
				}
			}
			if same {
				out = append(out, &cand{name: fmt.Sprintf("part %d of %s is unchanged", k, name), eval: func(z *State) *Term {
					l := leaf(z, id, k)
					if l == nil {
						return nil
					}
					return c.Eq(l, l0)
				}})
				continue
			}
			if !ok || idx == nil {
				continue
			}
			d := c.Sub(idx, v)
			if !allowed(d) || c.occurs(d, v) {
				continue
			}
			for w := range steps {
				if c.occurs(d, w) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			d = c.Subst(d, sub0)
			sl := slotOf[v]
			v0 := steps[v]
			lo := c.Add(v0, d)
			out = append(out, &cand{name: fmt.Sprintf("part %d of %s outside of what was worked through is unchanged", k, name), eval: func(z *State) *Term {
				l, q := leaf(z, id, k), sl.get(z)
				if l == nil || q == nil {
					return nil
				}
				j := c.BVar("j", SInt)
				return c.Quant("forall", []*Term{j}, nil, c.Implies(c.Or(c.Lt(j, lo), c.Le(c.Add(q, d), j)), c.Eq(c.Select(l, j), c.Select(l0, j))))
			}})
			vals := true
			for _, a := range alts[k] {
				if a.idx != nil && !allowed(a.val) {
					vals = false
				}
			}
			if !vals {
				continue
			}
			one := true
			for _, a := range alts[k] {
				if a.idx == nil || a.val != alts[k][0].val {
					one = false
				}
			}
			as := alts[k]
			if one {
				as = []alt{{c.True, idx, as[0].val}}
			}
			out = append(out, &cand{name: fmt.Sprintf("part %d of %s up to what was worked through is what the iterations made it", k, name), eval: func(z *State) *Term {
				l, q := leaf(z, id, k), sl.get(z)
				if l == nil || q == nil {
					return nil
				}
				j := c.BVar("j", SInt)
				sub := map[*Term]*Term{}
				for a, b := range sub0 {
					sub[a] = b
				}
				for w, w0 := range steps {
					sub[w] = c.Add(w0, c.Sub(c.Sub(j, d), v0))
				}
				var ors []*Term
				for _, a := range as {
					if a.idx == nil {
						ors = append(ors, c.And(c.Subst(a.guard, sub), c.Eq(c.Select(l, j), c.Select(l0, j))))
					} else {
						ors = append(ors, c.And(c.Subst(a.guard, sub), c.Eq(c.Select(l, j), c.Subst(a.val, sub))))
					}
				}
				return c.Quant("forall", []*Term{j}, nil, c.Implies(c.And(c.Le(lo, j), c.Lt(j, c.Add(q, d))), c.Or(ors...)))
			}})
		}
	}
	return out
}

func (x *Exec) intSlots(st *State, b *ssa.BasicBlock, mods *modSet, depth int) []intSlot {
	var out []intSlot
	var walk func(key, name string, v Value, get func(*State) Value)
	walk = func(key, name string, v Value, get func(*State) Value) {
		switch w := v.(type) {
		case *Term:
			if w.S == SInt && mods.has(key) {
				out = append(out, intSlot{name: name, get: func(s *State) *Term {
					if t, ok := get(s).(*Term); ok {
						return t
					}
					return nil
				}})
			}
		case SliceV:
			if mods.has(key+"#ln") || mods.has(key+"#len") || mods.has(key+"#obj") || mods.has(key) {
				out = append(out, intSlot{name: "len(" + name + ")", get: func(s *State) *Term {
					if t, ok := get(s).(SliceV); ok {
						return t.ln
					}
					return nil
				}, slice: func(s *State) (SliceV, bool) {
					t, ok := get(s).(SliceV)
					return t, ok
				}})
			}
		case *StructV:
			for i := range w.f {
				i := i
				walk(fmt.Sprintf("%s.%d", key, i), fmt.Sprintf("%s.%d", name, i), w.f[i], func(s *State) Value {
					if q, ok := get(s).(*StructV); ok && i < len(q.f) {
						return q.f[i]
					}
					return nil
				})
			}
		}
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		walk("p"+p.Name(), p.Comment, st.frames[depth-1].env[p], func(s *State) Value { return s.frames[depth-1].env[p] })
	}
	var ids []int
	for id := range mods.objs() {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := st.obj(id)
		if o == nil || o.kind != okCell {
			continue
		}
		id := id
		walk(fmt.Sprintf("o%d", id), o.name, o.val, func(s *State) Value {
			if q := s.obj(id); q != nil && q.kind == okCell {
				return q.val
			}
			return nil
		})
	}
	if len(out) > 40 {
		out = out[:40]
	}
	return out
}

func (x *Exec) isPeer(st *State, a, b int) bool {
	seen := map[int]bool{}
	var rec func(id int) bool
	rec = func(id int) bool {
		if id == b {
			return true
		}
		if seen[id] || st.obj(id) == nil {
			return false
		}
		seen[id] = true
		for _, p := range st.obj(id).peers {
			if rec(p.obj) {
				return true
			}
		}
		return false
	}
	return rec(a)
}
