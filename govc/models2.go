package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Library models: atomics, sync.Once, sort.Slice, contexts, the closer and mutexes of zhiqiangxu/util.

const zxUtil = "github.com/zhiqiangxu/util/"

func init() {
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		models["sync/atomic.Load"+t] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			p := x.atomicPtr(st, args[0])
			k(st, x.load(st, p, elemOf(fn)))
		}
		models["sync/atomic.Store"+t] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			p := x.atomicPtr(st, args[0])
			x.store(st, p, args[1])
			k(st, nil)
		}
	}
	models["(*sync.Once).Do"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		p, ok := args[0].(Ptr)
		if !ok || p.obj == 0 {
			unsupported("Once.Do of nil")
		}
		key := fmt.Sprintf("once:%d%s", p.obj, p.path)
		if _, done := st.ghost[key]; done {
			k(st, nil)
			return
		}
		st.ghost[key] = "done"
		f, ok := args[1].(*FuncV)
		if !ok {
			unsupported("Once.Do of %T", args[1])
		}
		x.callFunc(st, nil, f, nil, k)
	}
	models["sort.Slice"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		x.note("sort.Slice modelled as leaving arbitrary elements in the slice")
		s, ok := ifaceVal(args[0]).(SliceV)
		if !ok {
			unsupported("sort.Slice of %T", args[0])
		}
		if s.obj != 0 && !(s.ln.Op == "int" && s.ln.N.Sign() == 0) {
			o := x.toLeaf(st, s.obj)
			if o.frozen {
				x.oblige(st, "no write to "+o.why+" (sort.Slice) in "+st.top().fn.String(), x.c.False)
				return
			}
			n := *o
			n.leaves = nil
			for i, l := range o.leaves {
				n.leaves = append(n.leaves, x.c.Var(fmt.Sprintf("sorted_%d", i), l.S))
			}
			st.heap[s.obj] = &n
		}
		k(st, nil)
	}
	opaqueIface := func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		t := fn.Signature.Results().At(0).Type()
		k(st, IfaceV{t: t, v: Ptr{obj: x.newObj(st, &Object{kind: okOpaque, typ: t, name: fn.Name()})}})
	}
	models["context.Background"] = opaqueIface
	models["context.TODO"] = opaqueIface

	// closer.Strict: Add fails once closing has begun; every Add must be matched by a Done.
	c := "(*" + zxUtil + "closer.Strict)."
	newOpaque := func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		k(st, Ptr{obj: x.newObj(st, &Object{kind: okOpaque, typ: t, name: fn.Name()})})
	}
	models[zxUtil+"closer.NewStrict"] = newOpaque
	ghostKey := func(x *Exec, st *State, what string, v Value) (string, bool) {
		p, ok := v.(Ptr)
		if !ok || p.obj == 0 {
			x.oblige(st, "no-panic: use of a nil "+what+" in "+st.top().fn.String(), x.c.False)
			return "", false
		}
		return fmt.Sprintf("%s:%d%s", what, p.obj, p.path), true
	}
	models[c+"Add"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		key, ok := ghostKey(x, st, "closer", args[0])
		if !ok {
			return
		}
		if _, closed := st.ghost["closed"+key]; closed {
			k(st, x.freshErr(st, "closer closed"))
			return
		}
		n, _ := st.ghost["lock:"+key].(int)
		d, ok := args[1].(*Term)
		if !ok || d.Op != "int" {
			unsupported("closer.Add of a symbolic count")
		}
		n += int(d.N.Int64())
		if n == 0 {
			delete(st.ghost, "lock:"+key)
		} else {
			st.ghost["lock:"+key] = n
		}
		k(st, ErrV{x.c.Int(0)})
	}
	models[c+"Done"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		key, ok := ghostKey(x, st, "closer", args[0])
		if !ok {
			return
		}
		n, _ := st.ghost["lock:"+key].(int)
		if n <= 0 {
			x.oblige(st, "Done only after Add in "+st.top().fn.String(), x.c.False)
			return
		}
		if n == 1 {
			delete(st.ghost, "lock:"+key)
		} else {
			st.ghost["lock:"+key] = n - 1
		}
		k(st, nil)
	}
	models[c+"SignalAndWait"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		key, ok := ghostKey(x, st, "closer", args[0])
		if !ok {
			return
		}
		if _, closed := st.ghost["closed"+key]; closed {
			x.oblige(st, "no-panic: SignalAndWait only once in "+st.top().fn.String(), x.c.False)
			return
		}
		if n, _ := st.ghost["lock:"+key].(int); n != 0 {
			x.oblige(st, "no self-deadlock: waiting for oneself in "+st.top().fn.String(), x.c.False)
			return
		}
		st.ghost["closed"+key] = "closed"
		k(st, nil)
	}
	models[c+"HasBeenClosed"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		key, ok := ghostKey(x, st, "closer", args[0])
		if !ok {
			return
		}
		_, closed := st.ghost["closed"+key]
		k(st, x.c.Bool(closed))
	}

	// mutex.CRWMutex and CMutex: locking may be cancelled.
	never := func(st *State, ctx Value) bool {
		iv, ok := ctx.(IfaceV)
		if !ok {
			return false
		}
		p, ok := iv.v.(Ptr)
		if !ok || p.obj == 0 {
			return false
		}
		o := st.obj(p.obj)
		return o != nil && o.kind == okOpaque && (o.name == "Background" || o.name == "TODO")
	}
	for _, m := range []string{"CRWMutex", "CMutex"} {
		p := "(*" + zxUtil + "mutex." + m + ")."
		models[zxUtil+"mutex.New"+m] = newOpaque
		models[p+"Init"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) { k(st, nil) }
		cancellable := func(mode string) model {
			lock := lockModel(mode, true)
			return func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
				if never(st, args[1]) {
					lock(x, st, fn, args, func(st *State, _ Value) { k(st, ErrV{x.c.Int(0)}) })
					return
				}
				st2 := st.clone()
				fails := x.c.Var("cancelled", SBool)
				st2.branch(fails)
				k(st2, x.freshErr(st2, "lock"))
				st.branch(x.c.Not(fails))
				lock(x, st, fn, args, func(st *State, _ Value) { k(st, ErrV{x.c.Int(0)}) })
			}
		}
		try := func(mode string) model {
			lock := lockModel(mode, true)
			return func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
				q, ok := args[0].(Ptr)
				if !ok || q.obj == 0 {
					x.oblige(st, "no-panic: lock of nil mutex", x.c.False)
					return
				}
				held, _ := st.ghost[lockKey(q)].(string)
				if held != "" && (mode == "W" || held == "W") {
					k(st, x.c.False)
					return
				}
				lock(x, st, fn, args, func(st *State, _ Value) { k(st, x.c.True) })
			}
		}
		models[p+"Lock"] = cancellable("W")
		models[p+"RLock"] = cancellable("R")
		models[p+"TryLock"] = try("W")
		models[p+"TryRLock"] = try("R")
		models[p+"Unlock"] = lockModel("W", false)
		models[p+"RUnlock"] = lockModel("R", false)
	}

	// atomic.Value
	models["(*sync/atomic.Value).Load"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		key, ok := ghostKey(x, st, "avalue", args[0])
		if !ok {
			return
		}
		if v, ok := st.ghost[key].(IfaceV); ok {
			k(st, v)
			return
		}
		k(st, IfaceV{})
	}
	models["(*sync/atomic.Value).Store"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		key, ok := ghostKey(x, st, "avalue", args[0])
		if !ok {
			return
		}
		v, ok := args[1].(IfaceV)
		if !ok || v.t == nil {
			x.oblige(st, "no-panic: atomic.Value.Store of nil in "+st.top().fn.String(), x.c.False)
			return
		}
		st.ghost[key] = v
		k(st, nil)
	}
}

// atomicPtr checks the pointer of an atomic operation.
func (x *Exec) atomicPtr(st *State, v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok || p.obj == 0 {
		unsupported("atomic operation on %T", v)
	}
	return p
}

func elemOf(fn *ssa.Function) types.Type { return fn.Signature.Results().At(0).Type() }

var _ = strings.HasPrefix

func init() {
	models["time.Sleep"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) { k(st, nil) }
	models["github.com/zhiqiangxu/util.RunWithRecovery"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		x.note("util.RunWithRecovery modelled as a call: what it runs is proved not to panic")
		f, ok := args[0].(*FuncV)
		if !ok {
			unsupported("RunWithRecovery of %T", args[0])
		}
		x.callFunc(st, nil, f, nil, k)
	}
	models["github.com/zhiqiangxu/util.TryUntilSuccess"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		x.note("util.TryUntilSuccess modelled as the try that succeeds: a try that fails is assumed to change nothing")
		f, ok := args[0].(*FuncV)
		if !ok {
			unsupported("TryUntilSuccess of %T", args[0])
		}
		x.callFunc(st, nil, f, nil, func(st *State, r Value) {
			st.assume(r.(*Term))
			k(st, nil)
		})
	}
	models["time.NewTicker"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		v, ok := x.zero(st, t).(*StructV)
		if !ok {
			unsupported("time.NewTicker")
		}
		ct := t.Underlying().(*types.Struct).Field(0).Type()
		w := &StructV{f: append([]Value{}, v.f...)}
		w.f[0] = Ptr{obj: x.newObj(st, &Object{kind: okOpaque, typ: ct, name: "ticks"})}
		k(st, Ptr{obj: x.newObj(st, &Object{kind: okCell, typ: t, val: w, name: "ticker"})})
	}
	models["(*time.Ticker).Stop"] = func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) { k(st, nil) }
}
