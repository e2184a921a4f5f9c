package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one proof obligation.
type Obligation struct {
	Label   string
	Hyps    []*Term
	Goal    *Term
	Res     proofResult
	Trivial bool
	Where   string
}

// Exec symbolically executes one harness.
type Exec struct {
	regions   map[*ssa.BasicBlock]*ssa.BasicBlock
	stopAt    *ssa.BasicBlock
	stopDepth int
	stopFn    func(*State, *ssa.BasicBlock)
	c         *TC
	V         *Verifier
	fs        *feas
	nobj      int
	obls      []*Obligation
	seenObl   map[string]bool
	quiet     int
	curCall   *ssa.CallCommon
	pureD     int
	bvRng     map[*Term]irange
	header    *ssa.BasicBlock // header of the loop a template is evaluated for
	entry     *State          // loop entry state while a template is evaluated
	globals   map[*ssa.Global]int
	base      map[int]*Object
	errIDs    map[string]int64
	nextErr   int64
	H         *Harness
	axioms    []*Term
	paths     int
	covers    int
	noRedir   map[string]bool
	used      map[string]bool // spec redirects used
	inlined   map[string]bool // functions executed
	notes     map[string]bool // assumptions used
	loopsCut  int
	invUsed   []string
	coverPCs  [][]*Term
	steps     int
	depth     int
	triggers  [][]*Term // collecting in axiom evaluation
	hints     []*Term
	pureFacts []*Term
	varMemo   map[*Term][]*Term
	ax        *axCtx
	openFn    map[*ssa.Function]bool
	openLater map[*ssa.Function]bool
	nscan     int
}

func (x *Exec) pure() bool { return x.pureD > 0 }

const maxSteps = 4000000

func (x *Exec) note(s string) { x.notes[s] = true }

// entails: quick check.
func (x *Exec) entails(st *State, t *Term) bool {
	if t.IsTrue() {
		return true
	}
	if t.IsFalse() {
		return false
	}
	if st.known(t) {
		return true
	}
	if x.pure() {
		return false
	}
	return x.entailsPure(st, t)
}

// entailsPure also answers inside specifications.
func (x *Exec) entailsPure(st *State, t *Term) bool {
	if t.hasB {
		return false
	}
	return x.fs.unsat(x.feasQuery(st, t))
}

func (x *Exec) feasQuery(st *State, goal *Term) string {
	var hs []*Term
	for _, h := range st.hyps() {
		if !h.hasQ && !h.hasB {
			hs = append(hs, h)
		}
	}
	// cone of influence: keep hyps sharing vars with goal transitively
	hs = x.cone(hs, goal)
	return x.c.Query(hs, nil, goal, false)
}

func (x *Exec) cone(hs []*Term, goal *Term) []*Term {
	vs := x.varsOf(goal)
	cur := map[*Term]bool{}
	for _, v := range vs {
		cur[v] = true
	}
	used := make([]bool, len(hs))
	for {
		ch := false
		for i, h := range hs {
			if used[i] {
				continue
			}
			hit := false
			hv := x.varsOf(h)
			for _, v := range hv {
				if cur[v] {
					hit = true
					break
				}
			}
			if hit || len(hv) == 0 {
				used[i] = true
				ch = true
				for _, v := range hv {
					cur[v] = true
				}
			}
		}
		if !ch {
			break
		}
	}
	var out []*Term
	for i, h := range hs {
		if used[i] {
			out = append(out, h)
		}
	}
	return out
}

var _ = os.Stderr

func (x *Exec) varsOf(t *Term) []*Term {
	if v, ok := x.V.varMemo(x, t); ok {
		return v
	}
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "var" {
			out = append(out, t)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	x.varMemo[t] = out
	return out
}

// oblige records a proof obligation, then assumes it.
func (x *Exec) oblige(st *State, label string, cond *Term) {
	if x.pure() {
		return
	}
	if x.quiet == 0 {
		where := ""
		if len(st.frames) > 0 {
			where = st.top().fn.String()
		}
		o := &Obligation{Label: label, Goal: cond, Where: where}
		if cond.IsTrue() || st.known(cond) {
			o.Trivial = true
			o.Res = proofResult{ok: true, solver: "simplifier"}
		} else {
			o.Hyps = st.hyps()
		}
		x.obls = append(x.obls, o)
	}
	st.assume(cond)
}

func (x *Exec) constVal(st *State, k *ssa.Const) Value {
	c := x.c
	if k.Value == nil {
		return x.zero(st, k.Type())
	}
	switch u := k.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.Bool(constant.BoolVal(k.Value))
		case u.Info()&types.IsString != 0:
			return c.Lit(constant.StringVal(k.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(k.Value)
			b, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				unsupported("const %s", k)
			}
			return c.Big(b)
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(k.Value)
			return c.Big(new(big.Int).SetUint64(math.Float64bits(f)))
		}
	}
	unsupported("const %s of %s", k, k.Type())
	return nil
}

func (x *Exec) globalPtr(st *State, g *ssa.Global) Value {
	id, ok := x.globals[g]
	if !ok {
		t := g.Type().(*types.Pointer).Elem()
		x.nobj++
		id = x.nobj
		x.globals[g] = id
		if x.base == nil {
			unsupported("global %s", g)
		}
		x.base[id] = &Object{kind: okOpaque, typ: t, name: g.String()}
		repo := g.Pkg != nil && (strings.HasPrefix(g.Pkg.Pkg.Path(), strings.TrimSuffix(modPath, "/")) || x.V.stubPkgs[g.Pkg.Pkg.Path()])
		if repo && strings.HasPrefix(g.Name(), "ZZ") {
			// a specification variable, set by the harness
			x.base[id] = x.allocObj(st, t, g.String())
			return Ptr{obj: id}
		}
		if repo && x.V.mutable[g] {
			return Ptr{obj: id}
		}
		if repo && !x.V.inited[g.Pkg] {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsup); !ok {
							panic(r)
						}
					}
				}()
				x.base[id] = x.allocObj(st, t, g.String())
			}()
			x.initPkg(g.Pkg)
			return Ptr{obj: id}
		}
		if g.Pkg != nil && (isError(t) || x.V.inited[g.Pkg]) {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsup); !ok {
							panic(r)
						}
					}
				}()
				if isError(t) && !x.V.inited[g.Pkg] {
					x.base[id] = &Object{kind: okCell, typ: t, val: ErrV{c0(x, x.newErrCode())}, name: g.String()}
				} else {
					x.base[id] = x.allocObj(st, t, g.String())
				}
			}()
		}
	}
	return Ptr{obj: id}
}

func c0(x *Exec, n int64) *Term { return x.c.Int(n) }

func (x *Exec) newErrCode() int64 { x.nextErr++; return x.nextErr }

func (x *Exec) allocObj(st *State, t types.Type, name string) *Object {
	if a, ok := t.Underlying().(*types.Array); ok {
		v := x.zero(st, t).(ArrV)
		if v.bytes != nil {
			return &Object{kind: okBytes, arr: v.bytes, n: v.n, typ: a.Elem(), name: name}
		}
		return &Object{kind: okElems, el: v.el, n: v.n, typ: a.Elem(), name: name}
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once", "sync.Map", "sync/atomic.Value", "reflect.Value", "time.Time", "bytes.Buffer":
			return &Object{kind: okCell, typ: t, val: x.zeroOpaque(), name: name}
		}
	}
	return &Object{kind: okCell, typ: t, val: x.zero(st, t), name: name}
}

func (x *Exec) zeroOpaque() Value { return &StructV{} }

type cont func(st *State, v Value)

// callFn executes an SSA function with arguments and continues with k.
func (x *Exec) callFn(st *State, fn *ssa.Function, args []Value, binds []Value, k cont) {
	if fn.Blocks == nil {
		unsupported("no body: %s", fn)
	}
	if x.depth > 200000 {
		unsupported("call depth in %s", fn)
	}
	if len(st.frames) > 120 {
		unsupported("recursion in %s", fn)
	}
	x.inlined[fn.String()] = true
	f := &Frame{fn: fn, env: map[ssa.Value]Value{}}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = binds[i]
	}
	st.frames = append(st.frames, f)
	x.depth++
	defer func() { x.depth-- }()
	x.block(st, fn.Blocks[0], nil, k)
}

// ret pops the frame and continues.
func (x *Exec) ret(st *State, v Value, k cont) {
	st.frames = st.frames[:len(st.frames)-1]
	k(st, v)
}

// block enters b from prev.
func (x *Exec) block(st *State, b, prev *ssa.BasicBlock, k cont) {
	if stopped() {
		unsupported(stoppedMsg)
	}
	f := st.top()
	if b == x.stopAt && len(st.frames) == x.stopDepth {
		x.stopFn(st, prev)
		return
	}
	// leaving loops / hitting headers
	li := x.V.loops(f.fn)
	if len(f.loops) > 0 {
		for i := len(f.loops) - 1; i >= 0; i-- {
			lc := f.loops[i]
			if b == lc.loop.header {
				// back edge
				lc.back(st, prev)
				return
			}
			if !lc.loop.blocks[b] {
				if lc.body {
					return // body-only exploration: leaving the loop ends the path
				}
				f.loops = f.loops[:i]
				continue
			}
			break
		}
	}
	if lp := li[b]; lp != nil {
		x.enterLoop(st, lp, b, prev, k)
		return
	}
	x.phis(st, b, prev)
	x.instrs(st, b, k)
}

func (x *Exec) phis(st *State, b, prev *ssa.BasicBlock) {
	f := st.top()
	if prev == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	var vs []Value
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, ph)
		vs = append(vs, x.val(st, ph.Edges[pi]))
	}
	for i, p := range ps {
		f.env[p] = vs[i]
	}
}

func (x *Exec) instrs(st *State, b *ssa.BasicBlock, k cont) {
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	x.run(st, b, i, k)
}

// run executes instructions from index i.
func (x *Exec) run(st *State, b *ssa.BasicBlock, i int, k cont) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > maxSteps {
			unsupported("step limit")
		}
		in := b.Instrs[i]
		f := st.top()
		switch n := in.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			x.doIf(st, n, b, k)
			return
		case *ssa.Jump:
			x.block(st, b.Succs[0], b, k)
			return
		case *ssa.Return:
			var v Value
			switch len(n.Results) {
			case 0:
			case 1:
				v = x.val(st, n.Results[0])
			default:
				var tv TupleV
				for _, r := range n.Results {
					tv = append(tv, x.val(st, r))
				}
				v = tv
			}
			x.ret(st, v, k)
			return
		case *ssa.Panic:
			x.oblige(st, "no-panic: explicit panic in "+f.fn.String(), x.c.False)
			return
		case *ssa.Call:
			idx := i + 1
			var res ssa.Value = n
			x.doCall(st, n.Common(), func(st *State, v Value) {
				if v != nil {
					st.top().env[res] = v
				}
				x.run(st, b, idx, k)
			})
			return
		case *ssa.Defer:
			d := deferred{call: n.Common()}
			if n.Call.IsInvoke() {
				d.fn = x.val(st, n.Call.Value)
			} else {
				d.fn = x.val(st, n.Call.Value)
			}
			for _, a := range n.Call.Args {
				d.args = append(d.args, x.val(st, a))
			}
			f.defers = append(f.defers, d)
		case *ssa.RunDefers:
			idx := i + 1
			x.runDefers(st, func(st *State) { x.run(st, b, idx, k) })
			return
		case *ssa.Store:
			p := x.val(st, n.Addr)
			if wp, ok := p.(wordPtr); ok {
				// little-endian 8-byte store
				v := x.val(st, n.Val).(*Term)
				arr := st.obj(wp.s.obj).arr
				for j := 0; j < 8; j++ {
					arr = x.c.Store(arr, x.c.Add(wp.s.off, x.c.Add(x.c.Mul(x.c.Int(8), wp.i), x.c.Int(int64(j)))), x.c.BE(v, 7-j))
				}
				x.setBytes(st, wp.s.obj, arr, "word store")
				continue
			}
			pp, ok := p.(Ptr)
			if !ok {
				unsupported("store via %T", p)
			}
			if !x.nonNil(st, pp) {
				return
			}
			x.guarded(st, pp, true)
			x.store(st, pp, x.val(st, n.Val))
		case *ssa.MapUpdate:
			x.mapUpdate(st, n)
		case *ssa.Go:
			x.doGo(st, n)
		case *ssa.Send:
			unsupported("channel send in %s", f.fn)
		case *ssa.Lookup, *ssa.Next, *ssa.UnOp, *ssa.Select:
			v := in.(ssa.Value)
			idx := i + 1
			x.evalCPS(st, v, func(st *State, r Value) {
				st.top().env[v] = r
				x.run(st, b, idx, k)
			})
			return
		default:
			v, ok := in.(ssa.Value)
			if !ok {
				unsupported("instruction %T in %s", in, f.fn)
			}
			done := false
			var outV Value
			x.eval(st, v, func(_ *State, r Value) {
				outV = r
				done = true
			})
			if !done {
				return // path ended
			}
			f = st.top()
			f.env[v] = outV
		}
	}
}

func (x *Exec) nonNil(st *State, p Ptr) bool {
	if p.obj == 0 {
		x.oblige(st, "no-panic: nil dereference in "+st.top().fn.String(), x.c.False)
		return false
	}
	if p.nilc != nil {
		x.oblige(st, "no-panic: nil dereference in "+st.top().fn.String(), x.c.Not(p.nilc))
		st.assume(x.c.Not(p.nilc))
	}
	return true
}

func (x *Exec) runDefers(st *State, k func(*State)) {
	f := st.top()
	if len(f.defers) == 0 {
		k(st)
		return
	}
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	x.invokeValue(st, d.call, d.fn, d.args, func(st *State, _ Value) { x.runDefers(st, k) })
}

func (x *Exec) doIf(st *State, n *ssa.If, b *ssa.BasicBlock, k cont) {
	c := x.val(st, n.Cond).(*Term)
	if !x.pure() && !c.IsTrue() && !c.IsFalse() {
		if j := x.logicalRegion(b); j != nil && x.mergeRegion(st, n, b, j, k) {
			return
		}
	}
	x.fork(st, c, func(st *State) { x.block(st, b.Succs[0], b, k) }, func(st *State) { x.block(st, b.Succs[1], b, k) })
}

// fork explores both branches of a condition.
func (x *Exec) fork(st *State, c *Term, t, e func(*State)) {
	if c.IsTrue() || st.known(c) {
		t(st)
		return
	}
	nc := x.c.Not(c)
	if c.IsFalse() || st.known(nc) {
		e(st)
		return
	}
	x.paths++
	if x.paths > x.V.maxPaths {
		unsupported("path limit")
	}
	tOK, eOK := true, true
	if !x.pure() && !c.hasB {
		if x.entails(st, nc) {
			tOK = false
		} else if x.entails(st, c) {
			eOK = false
		}
	}
	if tOK && eOK {
		s2 := st.clone()
		if x.pure() {
			st.branch(c)
			s2.branch(nc)
		} else {
			st.branch(c)
			s2.branch(nc)
		}
		t(st)
		e(s2)
		return
	}
	if tOK {
		st.assume(c)
		t(st)
		return
	}
	st.assume(nc)
	e(st)
}

// eval evaluates a non-forking value instruction, calling k at most once.
func (x *Exec) eval(st *State, v ssa.Value, k cont) bool {
	c := x.c
	switch n := v.(type) {
	case *ssa.Alloc:
		t := n.Type().(*types.Pointer).Elem()
		name := n.Comment
		k(st, Ptr{obj: x.newObj(st, x.allocObj(st, t, name))})
	case *ssa.BinOp:
		k(st, x.binop(st, n.Op, x.val(st, n.X), x.val(st, n.Y), n.X.Type(), n.Type()))
	case *ssa.ChangeType:
		k(st, x.val(st, n.X))
	case *ssa.ChangeInterface:
		w := x.val(st, n.X)
		if iv, ok := w.(IfaceV); ok && iv.t == nil && isError(n.Type()) {
			k(st, ErrV{c.Int(0)})
			return false
		}
		if ev, ok := w.(ErrV); ok && ev.code.isZero() && !isError(n.Type()) {
			k(st, IfaceV{})
			return false
		}
		k(st, w)
	case *ssa.MakeInterface:
		w := x.val(st, n.X)
		if e, ok := w.(ErrV); ok {
			k(st, e)
			return false
		}
		k(st, IfaceV{t: n.X.Type(), v: w})
	case *ssa.MakeClosure:
		fv := &FuncV{fn: n.Fn.(*ssa.Function)}
		x.nobj++
		fv.id = x.nobj
		for _, b := range n.Bindings {
			fv.binds = append(fv.binds, x.val(st, b))
		}
		k(st, fv)
	case *ssa.MakeSlice:
		return x.makeSlice(st, n, k)
	case *ssa.MakeMap:
		mt := n.Type().Underlying().(*types.Map)
		id := x.newObj(st, &Object{kind: okMap, typ: mt, name: "map"})
		k(st, MapRef{obj: id})
	case *ssa.MakeChan:
		id := x.newObj(st, &Object{kind: okOpaque, typ: n.Type(), name: "chan"})
		k(st, Ptr{obj: id})
	case *ssa.Convert:
		k(st, x.convert(st, x.val(st, n.X), n.X.Type(), n.Type()))
	case *ssa.Extract:
		k(st, x.val(st, n.Tuple).(TupleV)[n.Index])
	case *ssa.Field:
		k(st, x.val(st, n.X).(*StructV).f[n.Field])
	case *ssa.FieldAddr:
		p, ok := x.val(st, n.X).(Ptr)
		if !ok {
			unsupported("FieldAddr of %T", x.val(st, n.X))
		}
		if !x.nonNil(st, p) {
			return false
		}
		k(st, p.with(pelem{field: n.Field}))
	case *ssa.Index:
		w := x.val(st, n.X)
		i := x.val(st, n.Index).(*Term)
		switch a := w.(type) {
		case *Term:
			x.oblige(st, "no-panic: index in range in "+st.top().fn.String(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Len(a))))
			k(st, c.Bat(a, i))
		case ArrV:
			x.oblige(st, "no-panic: index in range in "+st.top().fn.String(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(int64(a.n)))))
			k(st, x.loadPath(st, a, []pelem{{idx: i}}))
		default:
			unsupported("Index of %T", w)
		}
	case *ssa.IndexAddr:
		i := x.val(st, n.Index).(*Term)
		switch s := x.val(st, n.X).(type) {
		case SliceV:
			x.oblige(st, "no-panic: index in range in "+st.top().fn.String(), c.And(c.Le(c.Int(0), i), c.Lt(i, s.ln)))
			if s.obj == 0 {
				return false
			}
			k(st, Ptr{obj: s.obj}.with(pelem{idx: c.Add(s.off, i)}))
		case Ptr:
			if !x.nonNil(st, s) {
				return false
			}
			nn := n.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			x.oblige(st, "no-panic: index in range in "+st.top().fn.String(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(nn))))
			k(st, s.with(pelem{idx: i}))
		case wordView:
			// view of a byte slice as machine words
			hi := c.Add(c.Mul(c.Int(8), i), c.Int(8))
			x.oblige(st, "no-panic: word access inside the byte slice in "+st.top().fn.String(), c.And(c.Le(c.Int(0), i), c.Le(hi, s.s.ln)))
			k(st, wordPtr{s.s, i})
		default:
			unsupported("IndexAddr of %T", s)
		}
	case *ssa.Slice:
		x.slice(st, n, k)
	case *ssa.TypeAssert:
		return x.typeAssert(st, n, k)
	case *ssa.Range:
		return x.rangeInit(st, n, k)
	default:
		unsupported("%T in %s", v, st.top().fn)
	}
	return false
}

func (x *Exec) evalCPS(st *State, v ssa.Value, k cont) {
	switch n := v.(type) {
	case *ssa.UnOp:
		x.unop(st, n, k)
	case *ssa.Lookup:
		x.lookup(st, n, k)
	case *ssa.Next:
		x.next(st, n, k)
	case *ssa.Select:
		x.doSelect(st, n, k)
	}
}

type wordView struct{ s SliceV }
type wordPtr struct {
	s SliceV
	i *Term
}
type bytesPtr struct{ p Ptr } // unsafe pointer to a []byte variable

func (x *Exec) unop(st *State, n *ssa.UnOp, k cont) bool {
	c := x.c
	switch n.Op {
	case token.MUL:
		p := x.val(st, n.X)
		switch q := p.(type) {
		case Ptr:
			if !x.nonNil(st, q) {
				return false
			}
			x.guarded(st, q, false)
			k(st, x.load(st, q, n.Type()))
		case bytesPtr:
			// *(*[]uintptr)(unsafe.Pointer(&b)) or *(*string)(unsafe.Pointer(&b)) and the reverse
			w := x.load(st, q.p, nil)
			switch t := n.Type().Underlying().(type) {
			case *types.Slice:
				if sv, ok := w.(SliceV); ok {
					if isByte(t.Elem()) {
						k(st, sv)
						return false
					}
					x.note("unsafe word view of a byte slice modelled as little-endian 8-byte groups")
					k(st, wordView{sv})
					return false
				}
			case *types.Basic:
				if sv, ok := w.(SliceV); ok && t.Info()&types.IsString != 0 {
					x.note("unsafe []byte to string conversion modelled as a snapshot")
					k(st, x.bytesOf(st, sv))
					return false
				}
			}
			unsupported("unsafe load of %s", n.Type())
		case wordPtr:
			o := st.obj(q.s.obj)
			b := make([]*Term, 8)
			for j := 0; j < 8; j++ { // little endian
				b[7-j] = c.Select(o.arr, c.Add(q.s.off, c.Add(c.Mul(c.Int(8), q.i), c.Int(int64(j)))))
			}
			k(st, c.W64(b))
		default:
			unsupported("load via %T", p)
		}
	case token.NOT:
		k(st, c.Not(x.val(st, n.X).(*Term)))
	case token.SUB:
		v := x.val(st, n.X).(*Term)
		b := n.Type().Underlying().(*types.Basic)
		if b.Info()&types.IsFloat != 0 {
			unsupported("float negation")
		}
		k(st, x.wrap(st, c.Neg(v), n.Type()))
	case token.XOR:
		v := x.val(st, n.X).(*Term)
		k(st, x.bitnot(v, n.Type()))
	case token.ARROW:
		x.recv(st, n, k)
	default:
		unsupported("unop %s", n.Op)
	}
	return false
}

func (x *Exec) bitnot(v *Term, t types.Type) *Term {
	c := x.c
	lo, hi, ok := intRange(t.Underlying().(*types.Basic))
	if !ok {
		unsupported("bitnot %s", t)
	}
	if lo.Sign() < 0 {
		return c.Sub(c.Int(-1), v)
	}
	if v.Op == "app" && v.Name == "w64" {
		var b []*Term
		for _, a := range v.Args {
			b = append(b, c.Sub(c.Int(255), a))
		}
		return c.W64(b)
	}
	return c.Sub(c.Big(hi), v)
}

// wrap reduces an integer result to the range of its type.
func (x *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	c := x.c
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	lo, hi, ok := intRange(b)
	if !ok {
		return t
	}
	l, h := x.guardBounds(t)
	lok := l != nil && l.Cmp(lo) >= 0
	hok := h != nil && h.Cmp(hi) <= 0
	if lok && hok {
		return t
	}
	if x.pure() && b.Kind() == types.Int {
		return t // specification integers of type int are mathematical
	}
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), one)
	if !lok && x.entailsPure(st, c.Le(c.Big(lo), t)) {
		lok = true
	}
	if !hok && x.entailsPure(st, c.Le(t, c.Big(hi))) {
		hok = true
	}
	if lok && hok {
		return t
	}
	// one-step wrap when known close
	l2, h2 := new(big.Int).Sub(lo, size), new(big.Int).Add(hi, size)
	if l != nil && h != nil && l.Cmp(l2) >= 0 && h.Cmp(h2) <= 0 {
		r := t
		if !hok {
			r = c.Ite(c.Le(t, c.Big(hi)), r, c.Sub(t, c.Big(size)))
		}
		if !lok {
			r = c.Ite(c.Le(c.Big(lo), t), r, c.Add(t, c.Big(size)))
		}
		return r
	}
	return c.Add(c.Mod(c.Sub(t, c.Big(lo)), c.Big(size)), c.Big(lo))
}

func pow2(n *big.Int) (uint, bool) {
	if n.Sign() <= 0 {
		return 0, false
	}
	k := n.BitLen() - 1
	if new(big.Int).Lsh(one, uint(k)).Cmp(n) == 0 {
		return uint(k), true
	}
	return 0, false
}

// lowMask returns k if n == 2^k-1.
func lowMask(n *big.Int) (uint, bool) { return pow2(new(big.Int).Add(n, one)) }

func (x *Exec) bitop(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	c := x.c
	bt := t.Underlying().(*types.Basic)
	lo, hi, _ := intRange(bt)
	if a.Op == "int" && b.Op == "int" && lo.Sign() >= 0 {
		switch op {
		case token.AND:
			return c.Big(new(big.Int).And(a.N, b.N))
		case token.OR:
			return c.Big(new(big.Int).Or(a.N, b.N))
		case token.XOR:
			return c.Big(new(big.Int).Xor(a.N, b.N))
		case token.AND_NOT:
			return c.Big(new(big.Int).AndNot(a.N, b.N))
		}
	}
	if a.Op == "int" && op != token.AND_NOT {
		a, b = b, a
	}
	width := uint(hi.BitLen())
	if lo.Sign() < 0 {
		// only nonnegative operands supported for signed
		if !x.entails(st, c.Le(c.Int(0), a)) || !x.entails(st, c.Le(c.Int(0), b)) {
			unsupported("bit operation %s on possibly negative signed values", op)
		}
	}
	if b.Op == "int" {
		n := b.N
		if op == token.AND_NOT {
			n = new(big.Int).Xor(new(big.Int).And(n, hi), hi)
			op = token.AND
			_ = width
		}
		bit := func(p *big.Int) *Term { // bit test of a
			k, _ := pow2(p)
			return c.Eq(c.Mod(c.Div(a, c.Big(p)), c.Int(2)), c.Int(1)).also(k)
		}
		switch op {
		case token.AND:
			if n.Sign() == 0 {
				return c.Int(0)
			}
			if _, ok := lowMask(n); ok {
				return c.Mod(a, c.Big(new(big.Int).Add(n, one)))
			}
			if _, ok := pow2(n); ok {
				return c.Ite(bit(n), c.Big(n), c.Int(0))
			}
			// high mask: n = hi - (2^k-1)
			if k, ok := lowMask(new(big.Int).Sub(hi, n)); ok {
				p := c.Big(new(big.Int).Lsh(one, k))
				return c.Sub(a, c.Mod(a, p))
			}
			// general: sum of contiguous runs
			return x.maskRuns(a, n)
		case token.OR:
			if n.Sign() == 0 {
				return a
			}
			if _, ok := pow2(n); ok {
				return c.Ite(bit(n), a, c.Add(a, c.Big(n)))
			}
			return c.Add(c.Sub(a, x.maskRuns(a, n)), c.Big(n))
		case token.XOR:
			if n.Sign() == 0 {
				return a
			}
			if n.Cmp(hi) == 0 {
				return x.bitnot(a, t)
			}
			if _, ok := pow2(n); ok {
				return c.Ite(bit(n), c.Sub(a, c.Big(n)), c.Add(a, c.Big(n)))
			}
			m := x.maskRuns(a, n)
			return c.Sub(c.Add(a, c.Big(n)), c.Mul(c.Int(2), m))
		}
	}
	// disjoint ranges: one operand multiple of 2^k, the other below 2^k
	if op == token.OR || op == token.XOR {
		for _, pr := range [][2]*Term{{a, b}, {b, a}} {
			k := x.pow2Factor(pr[0])
			if k == 0 {
				continue
			}
			if x.entails(st, c.Lt(pr[1], c.Big(new(big.Int).Lsh(one, k)))) && x.entails(st, c.Le(c.Int(0), pr[1])) {
				return c.Add(a, b)
			}
		}
	}
	if a == b {
		if op == token.XOR {
			return c.Int(0)
		}
		return a
	}
	if x.pure() {
		unsupported("bit op in specification")
	}
	x.note("bit operation " + op.String() + " abstracted")
	r := c.App("bitop"+map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andn"}[op], SInt, a, b)
	st.assume(c.And(c.Le(c.Big(lo), r), c.Le(r, c.Big(hi))))
	return r
}

func (t *Term) also(uint) *Term { return t }

// maskRuns computes a & n for constant n as a sum of bit-field extractions.
func (x *Exec) maskRuns(a *Term, n *big.Int) *Term {
	c := x.c
	r := c.Int(0)
	i := 0
	for i < n.BitLen() {
		if n.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n.BitLen() && n.Bit(j) == 1 {
			j++
		}
		f := c.Mod(c.Div(a, c.Big(new(big.Int).Lsh(one, uint(i)))), c.Big(new(big.Int).Lsh(one, uint(j-i))))
		r = c.Add(r, c.Mul(c.Big(new(big.Int).Lsh(one, uint(i))), f))
		i = j
	}
	return r
}

// pow2Factor returns the largest k (<=63) with 2^k dividing t syntactically.
func (x *Exec) pow2Factor(t *Term) uint {
	if t.Op == "mod" && t.Args[1].Op == "int" {
		if k, ok := pow2(t.Args[1].N); ok {
			j := x.pow2Factor(t.Args[0])
			if j < k {
				return j
			}
			return k
		}
	}
	l := x.c.lin(t)
	k := uint(64)
	upd := func(n *big.Int) {
		if n.Sign() == 0 {
			return
		}
		z := new(big.Int).Abs(n).TrailingZeroBits()
		if z < k {
			k = z
		}
	}
	upd(l.k)
	for _, a := range l.atoms {
		z := new(big.Int).Abs(l.coef[a]).TrailingZeroBits()
		if a.Op == "mod" && a.Args[1].Op == "int" {
			z += x.pow2Factor(a)
		}
		if z < k {
			k = z
		}
	}
	if k > 63 {
		return 63
	}
	return k
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, xt, rt types.Type) Value {
	c := x.c
	switch op {
	case token.EQL:
		return x.equal(st, a, b, xt)
	case token.NEQ:
		return c.Not(x.equal(st, a, b, xt))
	}
	u, _ := xt.Underlying().(*types.Basic)
	ta, oka := a.(*Term)
	tb, okb := b.(*Term)
	if !oka || !okb || u == nil {
		unsupported("binop %s on %T %T", op, a, b)
	}
	if u.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return c.Cat(ta, tb)
		case token.LSS:
			return c.Lt(c.App("bcmp", SInt, ta, tb), c.Int(0))
		case token.GTR:
			return c.Lt(c.Int(0), c.App("bcmp", SInt, ta, tb))
		case token.LEQ:
			return c.Le(c.App("bcmp", SInt, ta, tb), c.Int(0))
		case token.GEQ:
			return c.Le(c.Int(0), c.App("bcmp", SInt, ta, tb))
		}
	}
	if u.Info()&types.IsFloat != 0 {
		return x.floatOp(op, ta, tb)
	}
	if u.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND, token.LAND:
			return c.And(ta, tb)
		case token.OR, token.LOR:
			return c.Or(ta, tb)
		}
	}
	switch op {
	case token.ADD:
		return x.wrap(st, c.Add(ta, tb), rt)
	case token.SUB:
		return x.wrap(st, c.Sub(ta, tb), rt)
	case token.MUL:
		return x.wrap(st, c.Mul(ta, tb), rt)
	case token.QUO, token.REM:
		if tb.Op != "int" {
			x.oblige(st, "no-panic: division by zero in "+st.top().fn.String(), c.Not(c.Eq(tb, c.Int(0))))
			unsupported("division by non-constant")
		}
		if tb.N.Sign() <= 0 {
			unsupported("division by non-positive constant")
		}
		l := x.lowerBound(ta)
		var q *Term
		if l != nil && l.Sign() >= 0 || x.entails(st, c.Le(c.Int(0), ta)) || x.pure() && !ta.hasB && x.fs.unsat(x.feasQuery(st, c.Le(c.Int(0), ta))) {
			q = c.Div(ta, tb)
			if op == token.QUO {
				return q
			}
			return c.Mod(ta, tb)
		}
		q = c.Ite(c.Le(c.Int(0), ta), c.Div(ta, tb), c.Neg(c.Div(c.Neg(ta), tb)))
		if op == token.QUO {
			return q
		}
		return c.Sub(ta, c.Mul(tb, q))
	case token.LSS:
		return c.Lt(ta, tb)
	case token.LEQ:
		return c.Le(ta, tb)
	case token.GTR:
		return c.Lt(tb, ta)
	case token.GEQ:
		return c.Le(tb, ta)
	case token.SHL, token.SHR:
		if tb.Op != "int" {
			// case split on small bounded shift amounts
			unsupported("shift by non-constant")
		}
		k := uint(tb.N.Int64())
		_, hi, _ := intRange(rt.Underlying().(*types.Basic))
		if k > 64 {
			k = 64
		}
		p := c.Big(new(big.Int).Lsh(one, k))
		if op == token.SHR {
			return c.Div(ta, p)
		}
		_ = hi
		return x.wrap(st, c.Mul(p, ta), rt)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return x.bitop(st, op, ta, tb, rt)
	}
	unsupported("binop %s", op)
	return nil
}

// floatOp: IEEE-754 double comparisons on the bit pattern.
func (x *Exec) floatOp(op token.Token, a, b *Term) *Term {
	c := x.c
	two63 := c.Big(new(big.Int).Lsh(one, 63))
	inf := c.Big(new(big.Int).SetUint64(0x7FF0000000000000))
	mag := func(u *Term) *Term { return c.Mod(u, two63) }
	nan := func(u *Term) *Term { return c.Lt(inf, mag(u)) }
	key := func(u *Term) *Term { return c.Ite(c.Lt(u, two63), u, c.Sub(two63, u)) }
	ok := c.And(c.Not(nan(a)), c.Not(nan(b)))
	switch op {
	case token.EQL:
		return c.And(ok, c.Eq(key(a), key(b)))
	case token.LSS:
		return c.And(ok, c.Lt(key(a), key(b)))
	case token.LEQ:
		return c.And(ok, c.Le(key(a), key(b)))
	case token.GTR:
		return c.And(ok, c.Lt(key(b), key(a)))
	case token.GEQ:
		return c.And(ok, c.Le(key(b), key(a)))
	}
	unsupported("float %s", op)
	return nil
}

func (x *Exec) equal(st *State, a, b Value, t types.Type) *Term {
	c := x.c
	// nil comparisons
	if a == nil && b == nil {
		return c.True
	}
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			unsupported("compare %T %T", a, b)
		}
		if u, ok := t.Underlying().(*types.Basic); ok && u.Info()&types.IsFloat != 0 {
			return x.floatOp(token.EQL, p, q)
		}
		return c.Eq(p, q)
	case SliceV:
		q := b.(SliceV)
		if q.nilc.IsTrue() {
			return p.nilc
		}
		if p.nilc.IsTrue() {
			return q.nilc
		}
	case Ptr:
		if q, ok := b.(Ptr); ok {
			if p.obj == 0 && q.nilc != nil {
				return q.nilc
			}
			if q.obj == 0 && p.nilc != nil {
				return p.nilc
			}
			same := p.obj == q.obj && p.path == q.path
			if !same && p.obj != 0 && q.obj != 0 && (st.obj(p.obj).kind == okFwd || st.obj(q.obj).kind == okFwd) {
				unsupported("comparing pointers of a symbolic collection")
			}
			if !same && (p.nilc != nil || q.nilc != nil) {
				unsupported("comparing pointers that may be nil")
			}
			return c.Bool(same)
		}
	case MapRef:
		if q, ok := b.(MapRef); ok {
			if p.obj == 0 && q.nilc != nil {
				return q.nilc
			}
			if q.obj == 0 && p.nilc != nil {
				return p.nilc
			}
			return c.Bool(p.obj == q.obj)
		}
	case *FuncV:
		q, ok := b.(*FuncV)
		if ok && (p == nil || q == nil) {
			return c.Bool(p == nil && q == nil)
		}
	case ErrV:
		switch q := b.(type) {
		case ErrV:
			return c.Eq(p.code, q.code)
		case IfaceV:
			return c.Eq(p.code, x.errCode(st, q))
		case nil:
			return c.Eq(p.code, c.Int(0))
		}
	case IfaceV:
		switch q := b.(type) {
		case ErrV:
			return c.Eq(q.code, x.errCode(st, p))
		case IfaceV:
			if p.t == nil || q.t == nil {
				return c.Bool(p.t == nil && q.t == nil)
			}
			if !types.Identical(p.t, q.t) {
				return c.False
			}
			return x.equal(st, p.v, q.v, p.t)
		case nil:
			return c.Bool(p.t == nil)
		}
	case *StructV:
		q := b.(*StructV)
		r := c.True
		su := t.Underlying().(*types.Struct)
		for i := range p.f {
			r = c.And(r, x.equal(st, p.f[i], q.f[i], su.Field(i).Type()))
		}
		return r
	case nil:
		return x.equal(st, b, a, t)
	}
	unsupported("compare %T %T", a, b)
	return nil
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	c := x.c
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return x.wrap(st, v.(*Term), to)
	case fb != nil && fb.Info()&types.IsString != 0 && isByteSlice(to):
		return x.bytesSlice(st, v.(*Term))
	case isByteSlice(from) && tb != nil && tb.Info()&types.IsString != 0:
		return x.bytesOf(st, v.(SliceV))
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case tb != nil && tb.Kind() == types.UnsafePointer:
		if p, ok := v.(Ptr); ok {
			if p.obj == 0 {
				return v
			}
			return bytesPtr{p}
		}
		return v
	case fb != nil && fb.Kind() == types.UnsafePointer:
		return v
	case fb != nil && tb != nil && tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsFloat != 0:
		return v
	case fb != nil && tb != nil && tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
		t := v.(*Term)
		if h, ok := c.bounds(t); ok != nil && h != nil && h.Sign() >= 0 {
			_ = h
		}
		unsupported("rune to string")
	}
	if types.Identical(fu, tu) {
		return v
	}
	unsupported("convert %s to %s", from, to)
	return nil
}

func (x *Exec) makeSlice(st *State, n *ssa.MakeSlice, k cont) bool {
	c := x.c
	ln := x.val(st, n.Len).(*Term)
	cp := x.val(st, n.Cap).(*Term)
	et := n.Type().Underlying().(*types.Slice).Elem()
	x.oblige(st, "no-panic: make length in range in "+st.top().fn.String(), c.And(c.Le(c.Int(0), ln), c.Le(ln, cp)))
	if ln.Op == "int" && ln.N.Sign() < 0 {
		return false
	}
	var id int
	if isByte(et) {
		id = x.newObj(st, &Object{kind: okBytes, arr: c.ConstArr(SAII, c.Int(0)), typ: et, name: "make"})
	} else if ln.Op == "int" && ln.N.Int64() <= 1024 {
		var el []Value
		for i := int64(0); i < ln.N.Int64(); i++ {
			el = append(el, x.zero(st, et))
		}
		id = x.newObj(st, &Object{kind: okElems, el: el, n: len(el), typ: et, name: "make"})
	} else {
		ss, ok := leafSorts(et)
		if !ok {
			unsupported("make []%s of symbolic length", et)
		}
		o := &Object{kind: okLeaf, typ: et, name: "make"}
		zs := x.zeroLeaves(st, et)
		for i, s := range ss {
			o.leaves = append(o.leaves, c.ConstArr(arrSort(s), zs[i]))
		}
		id = x.newObj(st, o)
	}
	k(st, SliceV{nilc: c.False, obj: id, off: c.Int(0), ln: ln, cp: cp})
	return false
}

func (x *Exec) slice(st *State, n *ssa.Slice, k cont) {
	c := x.c
	v := x.val(st, n.X)
	opt := func(y ssa.Value) *Term {
		if y == nil {
			return nil
		}
		return x.val(st, y).(*Term)
	}
	lo, hi, mx := opt(n.Low), opt(n.High), opt(n.Max)
	if lo == nil {
		lo = c.Int(0)
	}
	lab := "no-panic: slice bounds in " + st.top().fn.String()
	switch s := v.(type) {
	case *Term: // string
		if hi == nil {
			hi = c.Len(s)
		}
		x.oblige(st, lab, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.Len(s))))
		k(st, c.Mk(c.ArrOf(s), lo, c.Sub(hi, lo)))
	case SliceV:
		if hi == nil {
			hi = s.ln
		}
		m := s.cp
		if mx != nil {
			m = mx
		}
		x.oblige(st, lab, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, m), c.Le(m, s.cp)))
		nl := c.Sub(hi, lo)
		if nl.Op == "int" && nl.N.Sign() < 0 {
			return
		}
		// growing a concrete element list
		if s.obj != 0 {
			o := st.obj(s.obj)
			if o.kind == okElems {
				end := c.Add(s.off, hi)
				if end.Op != "int" || lo.Op != "int" {
					x.toLeaf(st, s.obj)
				} else if int(end.N.Int64()) > len(o.el) {
					n := *o
					n.el = append([]Value(nil), o.el...)
					for len(n.el) < int(end.N.Int64()) {
						n.el = append(n.el, x.zero(st, o.typ))
					}
					st.heap[s.obj] = &n
				}
			}
		}
		k(st, SliceV{nilc: s.nilc, obj: s.obj, off: c.Add(s.off, lo), ln: nl, cp: c.Sub(m, lo)})
	case Ptr: // *array
		if !x.nonNil(st, s) {
			return
		}
		an := n.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		N := c.Int(an)
		if hi == nil {
			hi = N
		}
		m := N
		if mx != nil {
			m = mx
		}
		if len(s.els) != 0 {
			unsupported("slice of nested array")
		}
		x.oblige(st, lab, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, m), c.Le(m, N)))
		nl := c.Sub(hi, lo)
		k(st, SliceV{nilc: c.False, obj: s.obj, off: lo, ln: nl, cp: c.Sub(m, lo)})
	default:
		unsupported("slice of %T", v)
	}
}

func (x *Exec) typeAssert(st *State, n *ssa.TypeAssert, k cont) bool {
	c := x.c
	v := x.val(st, n.X)
	fin := func(ok bool, r Value) bool {
		if n.CommaOk {
			if !ok {
				r = x.zero(st, n.AssertedType)
			}
			k(st, TupleV{r, c.Bool(ok)})
			return false
		}
		if !ok {
			x.oblige(st, "no-panic: type assertion in "+st.top().fn.String(), c.False)
			return false
		}
		k(st, r)
		return false
	}
	switch w := v.(type) {
	case IfaceV:
		if w.t == nil {
			return fin(false, nil)
		}
		if it, ok := n.AssertedType.Underlying().(*types.Interface); ok {
			return fin(types.Implements(w.t, it), w)
		}
		if types.Identical(w.t, n.AssertedType) {
			return fin(true, w.v)
		}
		return fin(false, nil)
	case ErrV:
		if _, ok := n.AssertedType.Underlying().(*types.Interface); ok {
			if w.code.Op == "int" {
				return fin(!w.code.isZero(), w)
			}
			unsupported("interface assertion on symbolic error")
		}
		return fin(false, nil)
	}
	unsupported("type assert on %T", v)
	return false
}

func (x *Exec) doGo(st *State, n *ssa.Go) {
	x.note("goroutine started in " + st.top().fn.String() + " not followed")
	unsupported("go statement in %s", st.top().fn)
}

// doSelect takes any of the cases; what is received is arbitrary, what is sent is lost.
func (x *Exec) doSelect(st *State, n *ssa.Select, k cont) {
	x.note("select takes any of its cases; values received are arbitrary")
	for _, s := range n.States {
		if s.Dir == types.RecvOnly {
			if p, ok := x.val(st, s.Chan).(Ptr); ok && p.obj != 0 {
				if _, fed := st.obj(p.obj).val.(chanSrc); fed {
					unsupported("select on a channel under contract in %s", st.top().fn)
				}
			}
		}
	}
	take := func(st *State, i int) {
		v := TupleV{x.c.Int(int64(i)), x.c.Var("received", SBool)}
		for j, s := range n.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if j != i {
				v = append(v, x.zero(st, et))
				continue
			}
			v = append(v, PoisonV{"a value received"})
		}
		k(st, v)
	}
	var from func(st *State, i int)
	from = func(st *State, i int) {
		if i == len(n.States) {
			take(st, -1)
			return
		}
		if n.Blocking && i == len(n.States)-1 {
			take(st, i)
			return
		}
		x.fork(st, x.c.Var(fmt.Sprintf("select_%d", i), SBool), func(st *State) { take(st, i) }, func(st *State) { from(st, i+1) })
	}
	if n.Blocking && len(n.States) == 0 {
		return
	}
	from(st, 0)
}

func (x *Exec) recv(st *State, n *ssa.UnOp, k cont) {
	p, ok := x.val(st, n.X).(Ptr)
	if !ok {
		unsupported("channel receive in %s", st.top().fn)
	}
	if !x.nonNil(st, p) {
		return
	}
	o := st.obj(p.obj)
	src, ok := o.val.(chanSrc)
	if !ok {
		unsupported("channel receive in %s", st.top().fn)
	}
	x.callStatic(st, src.recv, []Value{src.p}, nil, func(st *State, v Value) {
		if !n.CommaOk {
			k(st, v)
			return
		}
		q := v.(Ptr)
		got := x.c.Bool(q.obj != 0)
		if q.nilc != nil {
			got = x.c.Not(q.nilc)
		}
		k(st, TupleV{v, got})
	})
}

// chanSrc is the content of a channel that an assumed contract feeds: a receive calls recv.
type chanSrc struct {
	p    Value
	recv *ssa.Function
}

func shortName(fn *ssa.Function) string {
	return strings.Replace(fn.String(), "github.com/zhiqiangxu/mondis/", "", -1)
}

// guardBounds computes syntactic bounds, using the guards of enclosing bounded quantifiers for bound variables.
func (x *Exec) guardBounds(t *Term) (l, h *big.Int) {
	for v, r := range x.bvRng {
		x.c.rng[v] = r
	}
	l, h = x.c.bounds(t)
	for v := range x.bvRng {
		delete(x.c.rng, v)
	}
	return
}

func (x *Exec) lowerBound(t *Term) *big.Int {
	l, _ := x.guardBounds(t)
	return l
}
