package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont)

func (x *Exec) bs(st *State, v Value) *Term {
	switch s := v.(type) {
	case SliceV:
		return x.bytesOf(st, s)
	case *Term:
		return s
	}
	unsupported("bytes of %T", v)
	return nil
}

func (x *Exec) subB(b, lo, n *Term) *Term { return x.c.Mk(x.c.ArrOf(b), lo, n) }

func (x *Exec) hasPrefix(s, p *Term) *Term {
	c := x.c
	lp := c.Len(p)
	le := c.Le(lp, c.Len(s))
	if le.IsFalse() {
		return c.False
	}
	return c.And(le, c.Eq(x.subB(s, c.Int(0), lp), p))
}

func (x *Exec) freshErr(st *State, hint string) ErrV {
	code := x.newErrCode()
	_ = hint
	return ErrV{x.c.Int(100000 + code)}
}

var models map[string]model
var gvcModels map[string]model

func init() {
	ret := func(f func(x *Exec, st *State, args []Value) Value) model {
		return func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) { k(st, f(x, st, args)) }
	}
	models = map[string]model{
		"errors.New": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			code := x.newErrCode()
			if s, ok := x.c.litOf[args[0].(*Term)]; ok && x.V.initPhase {
				x.V.errMsg[code] = s
			} else if t, ok := args[0].(*Term); ok && !x.V.initPhase {
				st.assume(x.c.Eq(x.errText(x.c.Int(code)), t))
			}
			k(st, ErrV{x.c.Int(code)})
		},
		"fmt.Errorf":  ret(func(x *Exec, st *State, args []Value) Value { return x.freshErr(st, "errorf") }),
		"fmt.Sprintf": ret(func(x *Exec, st *State, args []Value) Value { return x.sprintf(st, args) }),
		"fmt.Sprint":  ret(func(x *Exec, st *State, args []Value) Value { return x.c.Var("sprint", SBytes) }),
		"fmt.Println": ret(func(x *Exec, st *State, args []Value) Value { return TupleV{x.c.Int(0), ErrV{x.c.Int(0)}} }),
		"fmt.Printf":  ret(func(x *Exec, st *State, args []Value) Value { return TupleV{x.c.Int(0), ErrV{x.c.Int(0)}} }),
		"bytes.Equal": ret(func(x *Exec, st *State, args []Value) Value {
			return x.c.Eq(x.bs(st, args[0]), x.bs(st, args[1]))
		}),
		"bytes.Compare": ret(func(x *Exec, st *State, args []Value) Value {
			return x.cmpTerm(st, x.bs(st, args[0]), x.bs(st, args[1]))
		}),
		"bytes.HasPrefix": ret(func(x *Exec, st *State, args []Value) Value {
			return x.hasPrefix(x.bs(st, args[0]), x.bs(st, args[1]))
		}),
		"strings.HasPrefix": ret(func(x *Exec, st *State, args []Value) Value {
			return x.hasPrefix(args[0].(*Term), args[1].(*Term))
		}),
		"(encoding/binary.bigEndian).PutUint64": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			c := x.c
			s := args[1].(SliceV)
			x.oblige(st, "no-panic: PutUint64 needs 8 bytes in "+st.top().fn.String(), c.Le(c.Int(8), s.ln))
			if s.obj == 0 {
				return
			}
			v := args[2].(*Term)
			arr := st.obj(s.obj).arr
			for j := 0; j < 8; j++ {
				arr = c.Store(arr, c.Add(s.off, c.Int(int64(j))), c.BE(v, j))
			}
			x.setBytes(st, s.obj, arr, "PutUint64")
			k(st, nil)
		},
		"(encoding/binary.bigEndian).Uint64": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			c := x.c
			s := args[1].(SliceV)
			x.oblige(st, "no-panic: Uint64 needs 8 bytes in "+st.top().fn.String(), c.Le(c.Int(8), s.ln))
			if s.obj == 0 {
				return
			}
			arr := st.obj(s.obj).arr
			var b []*Term
			for j := 0; j < 8; j++ {
				b = append(b, x.byteAt(st, arr, c.Add(s.off, c.Int(int64(j)))))
			}
			k(st, c.W64(b))
		},
		"(encoding/binary.bigEndian).PutUint32": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			putN(x, st, args, 4, k)
		},
		"(encoding/binary.bigEndian).PutUint16": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			putN(x, st, args, 2, k)
		},
		"math.Float64bits":     ret(func(x *Exec, st *State, args []Value) Value { return args[0] }),
		"math.Float64frombits": ret(func(x *Exec, st *State, args []Value) Value { return args[0] }),
		"math.IsNaN": ret(func(x *Exec, st *State, args []Value) Value {
			inf := x.c.Big(new(big.Int).SetUint64(0x7FF0000000000000))
			return x.c.Lt(inf, x.c.Mod(args[0].(*Term), x.c.Big(new(big.Int).Lsh(one, 63))))
		}),
		"github.com/zhiqiangxu/util.String": ret(func(x *Exec, st *State, args []Value) Value {
			x.note("util.String (unsafe) modelled as a snapshot of the bytes")
			return x.bs(st, args[0])
		}),
		"github.com/zhiqiangxu/util.Slice": ret(func(x *Exec, st *State, args []Value) Value {
			x.note("util.Slice (unsafe) modelled as a read-only byte slice of the string")
			s := x.bytesSlice(st, args[0].(*Term))
			x.freeze(st, s, "memory of a string")
			s.cp = s.ln
			return s
		}),
		"strconv.FormatInt": ret(func(x *Exec, st *State, args []Value) Value {
			return x.human(st, args[0].(*Term))
		}),
		"strconv.ParseInt": ret(func(x *Exec, st *State, args []Value) Value {
			return x.parseHuman(st, args[0].(*Term))
		}),
		"sort.Strings": ret(func(x *Exec, st *State, args []Value) Value {
			unsupported("sort.Strings")
			return nil
		}),
		"(*sync.Mutex).Lock":      lockModel("W", true),
		"(*sync.Mutex).Unlock":    lockModel("W", false),
		"(*sync.RWMutex).Lock":    lockModel("W", true),
		"(*sync.RWMutex).Unlock":  lockModel("W", false),
		"(*sync.RWMutex).RLock":   lockModel("R", true),
		"(*sync.RWMutex).RUnlock": lockModel("R", false),
	}
	gvcModels = map[string]model{
		"Symbolic": ret(func(x *Exec, st *State, args []Value) Value { return x.c.True }),
		"Requires": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			if x.axMode(st, "req", args[0].(*Term)) {
				k(st, nil)
				return
			}
			if sp, ok := x.V.specFns[st.top().fn]; ok && !x.pure() {
				// precondition of a specification used at a call site
				x.oblige(st, "precondition of "+strings.Replace(sp, modPath, "", -1), args[0].(*Term))
				k(st, nil)
				return
			}
			if _, ok := x.V.specFns[st.top().fn]; !ok && x.pure() {
				unsupported("Requires inside the specification function %s", st.top().fn)
			}
			if args[0].(*Term).IsFalse() {
				return
			}
			st.assume(args[0].(*Term))
			k(st, nil)
		},
		"Assume": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			if s, ok := x.c.litOf[args[0].(*Term)]; ok {
				x.note("assumed: " + s)
			}
			st.assume(args[1].(*Term))
			k(st, nil)
		},
		"Ensures": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			if x.axMode(st, "ens", args[1].(*Term)) {
				k(st, nil)
				return
			}
			if _, ok := x.V.specFns[st.top().fn]; ok {
				st.assume(args[1].(*Term))
				k(st, nil)
				return
			}
			x.oblige(st, x.c.litOf[args[0].(*Term)], args[1].(*Term))
			k(st, nil)
		},
		"Assert": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			if x.pure() {
				k(st, nil)
				return
			}
			x.oblige(st, "step: "+x.c.litOf[args[0].(*Term)], args[1].(*Term))
			k(st, nil)
		},
		"Lemma": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			x.oblige(st, x.lemmaName(st), args[0].(*Term))
			k(st, nil)
		},
		"Hint": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			if x.pure() {
				k(st, nil)
				return
			}
			for _, e := range x.varargs(st, args[0]) {
				x.hintTerm(st, e)
			}
			k(st, nil)
		},
		"Trigger": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			if x.ax != nil {
				var ts []*Term
				for _, e := range x.varargs(st, args[0]) {
					ts = append(ts, ifaceTerm(e))
				}
				x.ax.trigs = append(x.ax.trigs, ts)
			} else if !x.pure() {
				for _, e := range x.varargs(st, args[0]) {
					x.hintTerm(st, e)
				}
				if st.top().fn == x.H.Fn {
					x.openFn = x.openLater
				}
			}
			k(st, nil)
		},
		"Forall": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			k(st, x.quant(st, "forall", args[0].(*Term), args[1].(*Term), args[2]))
		},
		"Exists": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			k(st, x.quant(st, "exists", args[0].(*Term), args[1].(*Term), args[2]))
		},
		"ForKeys": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			bv := x.c.BVar("k", SBytes)
			body := x.callPure(st, args[2], bv).(*Term)
			var pats [][]*Term
			for _, e := range x.varargs(st, args[0]) {
				if m, ok := e.(GMap); ok && m.has.Op == "var" {
					pats = append(pats, []*Term{x.c.Select(m.has, bv)})
				}
			}
			k(st, x.c.Quant("forall", []*Term{bv}, pats, body))
		},
		"Implies": ret(func(x *Exec, st *State, args []Value) Value { return x.c.Implies(args[0].(*Term), args[1].(*Term)) }),
		"Imp": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			a := args[0].(*Term)
			if a.IsFalse() {
				k(st, x.c.True)
				return
			}
			k(st, x.c.Implies(a, x.callPure(st, args[1]).(*Term)))
		},
		"Entry": ret(func(x *Exec, st *State, args []Value) Value {
			s := x.entry
			if s == nil {
				s = st
			}
			return x.bytesOf(s, args[0].(SliceV))
		}),
		"AtEntry": ret(func(x *Exec, st *State, args []Value) Value {
			s := st.clone()
			if x.entry != nil {
				for id := range x.entry.base {
					s.heap[id] = x.entry.obj(id)
				}
				for id := range x.entry.heap {
					s.heap[id] = x.entry.obj(id)
				}
			}
			return x.evalPure(s, args[0].(*FuncV), nil)
		}),
		"At": ret(func(x *Exec, st *State, args []Value) Value {
			c := x.c
			s, i := args[0].(*Term), args[1].(*Term)
			in := c.And(c.Le(c.Int(0), i), c.Lt(i, c.Len(s)))
			if x.pure() || in.IsTrue() || x.entails(st, in) {
				return c.Bat(s, i) // specifications guard the index
			}
			return c.Ite(in, c.Bat(s, i), c.Int(0))
		}),
		"Sub": ret(func(x *Exec, st *State, args []Value) Value {
			c := x.c
			s, lo, hi := args[0].(*Term), args[1].(*Term), args[2].(*Term)
			ok := c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.Len(s)))
			if ok.IsTrue() || x.pure() || x.entails(st, ok) {
				return c.Mk(c.ArrOf(s), lo, c.Sub(hi, lo))
			}
			return c.Ite(ok, c.App("mk", SBytes, c.ArrOf(s), lo, c.Sub(hi, lo)), c.Lit(""))
		}),
		"Cmp": ret(func(x *Exec, st *State, args []Value) Value {
			return x.cmpTerm(st, args[0].(*Term), args[1].(*Term))
		}),
		"FirstDiff": ret(func(x *Exec, st *State, args []Value) Value {
			a, b := args[0].(*Term), args[1].(*Term)
			x.cmpTerm(st, a, b)
			return x.c.App("fd", SInt, a, b)
		}),
		"HasPrefix": ret(func(x *Exec, st *State, args []Value) Value { return x.hasPrefix(args[0].(*Term), args[1].(*Term)) }),
		"BE64":      ret(func(x *Exec, st *State, args []Value) Value { return x.c.App("be64", SBytes, args[0].(*Term)) }),
		"Byte":      ret(func(x *Exec, st *State, args []Value) Value { return x.c.Unit(args[0].(*Term)) }),
		"Register":  ret(func(x *Exec, st *State, args []Value) Value { return args[0] }),
		"Logf":      ret(func(x *Exec, st *State, args []Value) Value { return nil }),
		"Loop": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			iv := args[0].(IfaceV)
			st.temps = append(append([]*FuncV(nil), st.temps...), iv.v.(*FuncV))
			k(st, nil)
		},
		"Visited": ret(func(x *Exec, st *State, args []Value) Value {
			k, ok := ifaceVal(args[0]).(*Term)
			if !ok {
				unsupported("Visited of %T", args[0])
			}
			return x.visited(st, k)
		}),
		"NonNil":  ret(func(x *Exec, st *State, args []Value) Value { x.assumeNonNil(st, args[0]); return nil }),
		"Copy":    ret(func(x *Exec, st *State, args []Value) Value { return x.deepCopy(st, args[0]) }),
		"NoLoops": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) { st.temps = nil; k(st, nil) },
		"Unroll": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			st.unroll = int(args[0].(*Term).N.Int64())
			k(st, nil)
		},
		"Guard": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			g := &guardInfo{inv: args[1]}
			mu, ok := ifaceVal(args[0]).(Ptr)
			if !ok {
				unsupported("Guard needs a pointer to a lock")
			}
			g.key = lockKey(mu)
			for _, e := range x.varargs(st, args[2]) {
				iv := e.(IfaceV)
				g.fields = append(g.fields, iv.v.(Ptr))
				g.types = append(g.types, iv.t.Underlying().(*types.Pointer).Elem())
			}
			st.ghost["guard:"+g.key] = g
			k(st, nil)
		},
		"Retain": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			s := args[0].(SliceV)
			if s.obj != 0 {
				for _, e := range st.obj(s.obj).el {
					if b := e.(SliceV); b.obj != 0 {
						x.noScratch(st, b.obj)
						x.freeze(st, b, "retained by the store until commit")
					}
				}
			}
			k(st, nil)
		},
		"Scratch": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			s := x.bytesSlice(st, args[0].(*Term))
			st.heap[s.obj].scratch = true
			k(st, s)
		},
		"Scramble": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			for _, e := range x.varargs(st, args[0]) {
				if b := e.(SliceV); b.obj != 0 && st.obj(b.obj).scratch {
					n := *st.obj(b.obj)
					n.arr = x.c.ArrOf(x.c.Var("gone", SBytes))
					st.heap[b.obj] = &n
				}
			}
			k(st, nil)
		},
		"ScanKeys": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			k(st, x.scanKeys(st, args[0].(GMap), args[1].(*Term), args[2].(*Term), args[3].(*Term), args[4].(*Term)))
		},
		"ScanPos": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			id, ok := st.ghost["scan"].(*Term)
			if !ok {
				k(st, x.freshInt("noscan", types.Typ[types.Int]))
				return
			}
			k(st, x.c.App("scanpos", SInt, id, args[0].(*Term)))
		},
		"ScanAt": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			leaf, ok := st.ghost["scanleaf"].(*Term)
			if !ok {
				k(st, x.c.Var("noscan", SBytes))
				return
			}
			c, i := x.c, args[0].(*Term)
			in := c.And(c.Le(c.Int(0), i), c.Lt(i, st.ghost["scanlen"].(*Term)))
			k(st, c.Ite(in, c.Select(leaf, i), c.Lit("")))
		},
		"ScanLen": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			n, ok := st.ghost["scanlen"].(*Term)
			if !ok {
				k(st, x.freshLen("noscan"))
				return
			}
			k(st, n)
		},
		"Int":           ret(func(x *Exec, st *State, args []Value) Value { return x.c.Ite(args[0].(*Term), x.c.Int(1), x.c.Int(0)) }),
		"CheckRetained": ret(func(x *Exec, st *State, args []Value) Value { return nil }),
		"Fault": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			v := x.c.Var("fault", SInt)
			x.c.rng[v] = irange{new(big.Int), nil}
			st.assume(x.c.Or(x.c.Eq(v, x.c.Int(0)), x.c.Le(x.c.Int(10000000), v)))
			k(st, ErrV{v})
		},
		"AnyBool": anyModel, "AnyInt": anyModel, "AnyInt64": anyModel, "AnyUint64": anyModel, "AnyString": anyModel, "AnyBytes": anyModel, "AnyMap": anyModel,
		"AnyError": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			v := x.c.Var("err", SInt)
			x.c.rng[v] = irange{new(big.Int), nil}
			st.assume(x.c.Or(x.c.Eq(v, x.c.Int(0)), x.c.Le(x.c.Int(10000000), v)))
			k(st, ErrV{v})
		},
		"CopyOf": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			s := x.bytesSlice(st, args[0].(*Term))
			nl := x.c.Var("copynil", SBool)
			st.assume(x.c.Implies(nl, x.c.Eq(s.ln, x.c.Int(0))))
			st.assume(x.c.Implies(nl, x.c.Eq(s.cp, x.c.Int(0))))
			s.nilc = nl
			k(st, s)
		},
		"NewMap": ret(func(x *Exec, st *State, args []Value) Value {
			return GMap{x.c.ConstArr(SABZ, x.c.False), x.c.ConstArr(SABB, x.c.Lit(""))}
		}),
		"Map.Has": ret(func(x *Exec, st *State, args []Value) Value { return x.c.Select(args[0].(GMap).has, args[1].(*Term)) }),
		"Map.Get": ret(func(x *Exec, st *State, args []Value) Value {
			m := args[0].(GMap)
			h := x.c.Select(m.has, args[1].(*Term))
			v := x.c.Select(m.val, args[1].(*Term))
			if !x.pure() && (st.known(h) || x.entails(st, h)) {
				return v
			}
			return x.c.Ite(h, v, x.c.Lit(""))
		}),
		"Map.Put": ret(func(x *Exec, st *State, args []Value) Value {
			m := args[0].(GMap)
			return GMap{x.c.Store(m.has, args[1].(*Term), x.c.True), x.c.Store(m.val, args[1].(*Term), args[2].(*Term))}
		}),
		"Map.Del": ret(func(x *Exec, st *State, args []Value) Value {
			m := args[0].(GMap)
			return GMap{x.c.Store(m.has, args[1].(*Term), x.c.False), m.val}
		}),
		"Same": func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
			c := x.c
			a, b := args[0].(GMap), args[1].(GMap)
			if a == b {
				k(st, c.True)
				return
			}
			bv := c.BVar("k", SBytes)
			ha, hb := c.Select(a.has, bv), c.Select(b.has, bv)
			body := c.And(c.Eq(ha, hb), c.Implies(ha, c.Eq(c.Select(a.val, bv), c.Select(b.val, bv))))
			k(st, c.Quant("forall", []*Term{bv}, nil, body))
		},
	}
}

func anyModel(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
	hint := "any"
	if s, ok := x.c.litOf[args[0].(*Term)]; ok {
		hint = s
	}
	k(st, x.fresh(st, hint, fn.Signature.Results().At(0).Type()))
}

func putN(x *Exec, st *State, args []Value, n int, k cont) {
	c := x.c
	s := args[1].(SliceV)
	x.oblige(st, "no-panic: Put needs bytes in "+st.top().fn.String(), c.Le(c.Int(int64(n)), s.ln))
	v := args[2].(*Term)
	arr := st.obj(s.obj).arr
	for j := 0; j < n; j++ {
		arr = c.Store(arr, c.Add(s.off, c.Int(int64(j))), c.Mod(c.Div(v, c.Big(new(big.Int).Lsh(one, uint(8*(n-1-j))))), c.Int(256)))
	}
	x.setBytes(st, s.obj, arr, "Put")
	k(st, nil)
}

// byteAt loads a byte of an array with its range known.
func (x *Exec) byteAt(st *State, arr, i *Term) *Term {
	t := x.c.Select(arr, i)
	if !t.hasB {
		l, h := x.c.bounds(t)
		if l == nil || h == nil || l.Sign() < 0 || h.Cmp(big.NewInt(255)) > 0 {
			st.assume(x.c.And(x.c.Le(x.c.Int(0), t), x.c.Le(t, x.c.Int(255))))
		}
	}
	return t
}

func (x *Exec) cmpTerm(st *State, a, b *Term) *Term {
	if a == b {
		return x.c.Int(0)
	}
	return x.c.App("bcmp", SInt, a, b)
}

func lockModel(mode string, lock bool) model {
	return func(x *Exec, st *State, fn *ssa.Function, args []Value, k cont) {
		p, ok := args[0].(Ptr)
		if !ok || p.obj == 0 {
			x.oblige(st, "no-panic: lock of nil mutex", x.c.False)
			return
		}
		key := fmt.Sprintf("lock:%d%s", p.obj, p.path)
		held, _ := st.ghost[key].(string)
		if lock {
			if held != "" && (mode == "W" || held == "W") {
				x.oblige(st, "no self-deadlock: lock is not already held in "+st.top().fn.String(), x.c.False)
				return
			}
			if mode == "W" {
				st.ghost[key] = "W"
			} else {
				st.ghost[key] = held + "R"
			}
			x.lockHook(st, p, true)
		} else {
			if mode == "W" && held != "W" || mode == "R" && !strings.HasPrefix(held, "R") {
				x.oblige(st, "unlock only a held lock in "+st.top().fn.String(), x.c.False)
				return
			}
			x.lockHook(st, p, false)
			if mode == "R" {
				held = held[1:]
			} else {
				held = ""
			}
			if held == "" {
				delete(st.ghost, key)
			} else {
				st.ghost[key] = held
			}
		}
		k(st, nil)
	}
}

// guardInfo: fields protected by a lock, and the invariant that holds whenever the lock is free.
type guardInfo struct {
	key    string
	inv    Value
	fields []Ptr
	types  []types.Type
	n      int // acquisitions so far
}

func lockKey(p Ptr) string { return fmt.Sprintf("lock:%d%s", p.obj, p.path) }

// lockHook: when a lock is taken again, others may have changed what it protects in between.
func (x *Exec) lockHook(st *State, p Ptr, lock bool) {
	g, ok := st.ghost["guard:"+lockKey(p)].(*guardInfo)
	if !ok {
		return
	}
	if !lock {
		x.oblige(st, "the invariant of the lock holds when it is released", x.callPure(st, g.inv).(*Term))
		return
	}
	n := *g
	n.n++
	st.ghost["guard:"+lockKey(p)] = &n
	if n.n > 1 {
		for i, f := range g.fields {
			x.store(st, f, x.fresh(st, "shared", g.types[i]))
		}
		st.assume(x.callPure(st, g.inv).(*Term))
	}
}

// guarded: protected memory is only accessed while its lock is held.
func (x *Exec) guarded(st *State, p Ptr, write bool) {
	if x.pure() || len(st.frames) < 2 {
		return
	}
	for k, v := range st.ghost {
		g, ok := v.(*guardInfo)
		if !ok || !strings.HasPrefix(k, "guard:") {
			continue
		}
		for _, f := range g.fields {
			if f.obj != p.obj || !strings.HasPrefix(p.path, f.path) && !strings.HasPrefix(f.path, p.path) || x.V.isOverlay(st.top().fn) {
				continue
			}
			held, _ := st.ghost[g.key].(string)
			if held == "" || write && held != "W" {
				x.oblige(st, "shared state is only accessed under its lock in "+st.top().fn.String(), x.c.False)
			}
		}
	}
}

// isOverlay: the function belongs to the specification, not to the code under proof.
func (V *Verifier) isOverlay(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if !fn.Pos().IsValid() {
		return false
	}
	_, ok := V.overFiles[V.prog.Fset.Position(fn.Pos()).Filename]
	return ok
}

func ifaceVal(v Value) Value {
	if i, ok := v.(IfaceV); ok {
		return i.v
	}
	return v
}

func ifaceTerm(v Value) *Term {
	if i, ok := v.(IfaceV); ok {
		v = i.v
	}
	t, ok := v.(*Term)
	if !ok {
		unsupported("term expected, got %T", v)
	}
	return t
}

// varargs lists the elements of a variadic slice.
func (x *Exec) varargs(st *State, v Value) []Value {
	s := v.(SliceV)
	if s.obj == 0 {
		return nil
	}
	return st.obj(s.obj).el
}

func (x *Exec) hintTerm(st *State, v Value) {
	if i, ok := v.(IfaceV); ok {
		v = i.v
	}
	t, ok := v.(*Term)
	if !ok || t.IsConst() {
		return
	}
	switch t.S {
	case SInt:
		st.assume(x.c.mk("hint", "", SBool, t, t))
	case SBytes:
		st.assume(x.c.mk("hint", "", SBool, t, t))
	}
}

func (x *Exec) quant(st *State, op string, lo, hi *Term, f Value) *Term {
	c := x.c
	if d, ok := c.diffConst(hi, lo); ok && d.Cmp(big.NewInt(16)) <= 0 {
		r := c.Bool(op == "forall")
		for i := int64(0); i < d.Int64(); i++ {
			b := x.callPure(st, f, c.Add(lo, c.Int(i))).(*Term)
			if op == "forall" {
				r = c.And(r, b)
			} else {
				r = c.Or(r, b)
			}
		}
		return r
	}
	bv := c.BVar("i", SInt)
	// inside the guard the bound variable lies between the bounds
	var r irange
	i64lo, i64hi := new(big.Int).Neg(new(big.Int).Lsh(one, 63)), new(big.Int).Sub(new(big.Int).Lsh(one, 63), one)
	r.lo, _ = x.guardBounds(lo)
	if _, h := x.guardBounds(hi); h != nil {
		r.hi = new(big.Int).Sub(h, one)
	}
	if (r.lo == nil || r.lo.Cmp(i64lo) < 0) && x.entailsPure(st, c.Le(c.Big(i64lo), lo)) {
		r.lo = i64lo
	}
	if (r.hi == nil || r.hi.Cmp(i64hi) > 0) && x.entailsPure(st, c.Le(hi, c.Big(i64hi))) {
		r.hi = i64hi
	}
	if x.bvRng == nil {
		x.bvRng = map[*Term]irange{}
	}
	x.bvRng[bv] = r
	body := x.callPure(st, f, bv).(*Term)
	delete(x.bvRng, bv)
	in := c.And(c.Le(lo, bv), c.Lt(bv, hi))
	body = x.underGuard(body, in)
	if op == "forall" {
		return c.Quant("forall", []*Term{bv}, nil, c.Implies(in, body))
	}
	return x.exists(bv, in, body)
}

// exists takes the element stored last out of an existential claim about an array, so that an element the claim held for before is found in the array it was found in.
func (x *Exec) exists(bv, in, body *Term) *Term {
	c := x.c
	var at *Term
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	ok := true
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		if t.Op == "select" && t.Args[1] == bv && t.Args[0].Op == "store" && !c.occurs(t.Args[0], bv) && t.Args[0].Args[1].S == SInt {
			a := t.Args[0]
			if at != nil && at != a.Args[1] {
				ok = false
				return
			}
			at = a.Args[1]
			m[t] = c.Select(a.Args[0], bv)
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(body)
	if at == nil || !ok || at.hasB {
		return c.Quant("exists", []*Term{bv}, nil, c.And(in, body))
	}
	last := c.Subst(c.And(in, body), map[*Term]*Term{bv: at})
	rest := c.Subst(body, m)
	return c.Or(last, x.exists(bv, c.And(in, c.Not(c.Eq(bv, at))), rest))
}

func (x *Exec) human(st *State, v *Term) *Term {
	x.note("strconv.FormatInt/ParseInt base 10 assumed inverse on int64")
	return x.c.App("human", SBytes, v)
}

func (x *Exec) parseHuman(st *State, s *Term) Value {
	c := x.c
	x.note("strconv.FormatInt/ParseInt base 10 assumed inverse on int64")
	if s.Op == "app" && s.Name == "human" {
		return TupleV{s.Args[0], ErrV{c.Int(0)}}
	}
	ok := c.App("humanok", SBool, s)
	n := c.App("unhuman", SInt, s)
	lo, hi := new(big.Int).Neg(new(big.Int).Lsh(one, 63)), new(big.Int).Sub(new(big.Int).Lsh(one, 63), one)
	if !s.hasB {
		st.assume(c.And(c.Le(c.Big(lo), n), c.Le(n, c.Big(hi))))
	}
	e := c.Int(100000 + x.newErrCode())
	return TupleV{n, ErrV{c.Ite(ok, c.Int(0), e)}}
}

// underGuard resolves reads of substrings whose index is in range by the guard g.
func (x *Exec) underGuard(t, g *Term) *Term {
	c := x.c
	facts := map[*Term]bool{}
	if g.Op == "and" {
		for _, a := range g.Args {
			facts[a] = true
		}
	} else {
		facts[g] = true
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if !t.hasB || len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = c.rebuild(t, args, rec)
		}
		if r.Op == "app" && r.Name == "bat" && r.Args[0].Op == "app" && r.Args[0].Name == "mk" {
			m, i := r.Args[0], r.Args[1]
			lo, hi := c.Le(c.Int(0), i), c.Lt(i, m.Args[2])
			if (lo.IsTrue() || facts[lo]) && (hi.IsTrue() || facts[hi]) {
				r = c.Select(m.Args[0], c.Add(m.Args[1], i))
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// lemmaName numbers the lemma steps of a function in source order.
func (x *Exec) lemmaName(st *State) string {
	fn := st.top().fn
	if x.curCall == nil {
		return "lemma step"
	}
	n := 1
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(*ssa.Call); ok {
				if f, ok := cl.Call.Value.(*ssa.Function); ok && f.Name() == "Lemma" && cl.Pos() < x.curCall.Pos() {
					n++
				}
			}
		}
	}
	return fmt.Sprintf("lemma step %d", n)
}

// scanKeys is the contract of an ordered scan: the keys present with the prefix and on the right side of the
// offset, each once, in order.
func (x *Exec) scanKeys(st *State, m GMap, prefix, offset, hasOff, rev *Term) Value {
	c := x.c
	leaf := c.Var("scan", arrSort(SBytes))
	n := x.freshLen("scan_n")
	o := x.newObj(st, &Object{kind: okLeaf, typ: types.Typ[types.String], leaves: []*Term{leaf}, name: "scan"})
	x.nscan++
	id := c.Int(int64(x.nscan))
	st.ghost["scan"] = id
	st.ghost["scanleaf"] = leaf
	st.ghost["scanlen"] = n
	// the condition under which a key is visited
	in := func(k *Term) *Term {
		cmp := c.App("bcmp", SInt, k, offset)
		z := c.Int(0)
		off := c.Or(c.Not(hasOff), c.Ite(rev, c.Le(cmp, z), c.Le(z, cmp)))
		return c.And(c.Select(m.has, k), x.hasPrefix(k, prefix), off)
	}
	i, j := c.BVar("i", SInt), c.BVar("j", SInt)
	ki, kj := c.Select(leaf, i), c.Select(leaf, j)
	st.assume(c.Quant("forall", []*Term{i}, [][]*Term{{ki}}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, n)), c.And(in(ki), c.Eq(c.App("scanpos", SInt, id, ki), i)))))
	cmp := c.App("bcmp", SInt, ki, kj)
	st.assume(c.Quant("forall", []*Term{i, j}, [][]*Term{{ki, kj}}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, j), c.Lt(j, n)), c.Ite(rev, c.Lt(c.Int(0), cmp), c.Lt(cmp, c.Int(0))))))
	b := c.BVar("k", SBytes)
	pos := c.App("scanpos", SInt, id, b)
	pats := [][]*Term{{pos}}
	if m.has.Op == "var" {
		pats = append(pats, []*Term{c.Select(m.has, b)})
	}
	st.assume(c.Quant("forall", []*Term{b}, pats, c.Implies(in(b), c.And(c.Le(c.Int(0), pos), c.Lt(pos, n), c.Eq(c.Select(leaf, pos), b)))))
	return SliceV{nilc: c.False, obj: o, off: c.Int(0), ln: n, cp: n}
}
