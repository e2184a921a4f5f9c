package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// printer emits terms as SMT-LIB with let-free sharing through define-fun for closed subterms.
type printer struct {
	c      *TC
	decls  []string
	vars   map[*Term]bool
	funs   map[string]bool
	names  map[*Term]string
	out    *strings.Builder
	used   map[string]bool
	uses   map[*Term]int
	lits   []*Term
	ranges []*Term
	beqs   bool
}

func bigStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (p *printer) count(t *Term) {
	p.uses[t]++
	if p.uses[t] > 1 {
		return
	}
	for _, a := range t.Args {
		p.count(a)
	}
	for _, ps := range t.Pats {
		for _, x := range ps {
			p.count(x)
		}
	}
}

func (p *printer) term(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.raw(t)
	if len(t.Args) > 0 && p.uses[t] > 1 && !t.hasB && len(s) > 12 && t.Op != "forall" && t.Op != "exists" {
		n := fmt.Sprintf("d!%d", t.id)
		fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", n, t.S, s)
		p.names[t] = n
		return n
	}
	p.names[t] = s
	return s
}

func (p *printer) raw(t *Term) string {
	switch t.Op {
	case "int":
		return bigStr(t.N)
	case "true", "false":
		return t.Op
	case "bvar":
		return t.Name
	case "var":
		if !p.vars[t] {
			p.vars[t] = true
			fmt.Fprintf(p.out, "(declare-fun %s () %s)\n", t.Name, t.S)
			if _, ok := p.c.rng[t]; ok {
				p.ranges = append(p.ranges, t)
			}
		}
		return t.Name
	case "app":
		if s, ok := p.c.litOf[t]; ok {
			n := fmt.Sprintf("lit!%d", t.id)
			if !p.funs[n] {
				p.funs[n] = true
				_ = s
				fmt.Fprintf(p.out, "(declare-fun %s () Bytes)\n", n)
				p.lits = append(p.lits, t)
			}
			return n
		}
		p.used[t.Name] = true
		if t.Name == "w64" {
			if _, ok := p.c.rng[t]; ok && !t.hasB {
				p.ranges = append(p.ranges, t)
			}
		}
		if !builtinFun[t.Name] && !p.funs[t.Name] {
			p.funs[t.Name] = true
			fd := p.c.funs[t.Name]
			var as []string
			for _, a := range fd.Args {
				as = append(as, string(a))
			}
			fmt.Fprintf(p.out, "(declare-fun %s (%s) %s)\n", fd.Name, strings.Join(as, " "), fd.Ret)
			if strings.HasPrefix(t.Name, "cpy_") {
				a := fd.Ret
				fmt.Fprintf(p.out, "(assert (forall ((d %s) (lo Int) (s %s) (so Int) (n Int) (i Int)) (! (= (select (%s d lo s so n) i) (ite (and (<= lo i) (< i (+ lo n))) (select s (+ so (- i lo))) (select d i))) :pattern ((select (%s d lo s so n) i)))))\n", a, a, t.Name, t.Name)
			}
			if strings.HasPrefix(t.Name, "constarr_") {
				k, _ := sortParts(fd.Ret)
				fmt.Fprintf(p.out, "(assert (forall ((v %s) (i %s)) (! (= (select (%s v) i) v) :pattern ((select (%s v) i)))))\n", fd.Args[0], k, t.Name, t.Name)
			}
			if r, ok := p.c.appRng[t.Name]; ok && len(fd.Args) > 0 {
				var vs, ns []string
				for i, a := range fd.Args {
					vs = append(vs, fmt.Sprintf("(r%d %s)", i, a))
					ns = append(ns, fmt.Sprintf("r%d", i))
				}
				ap := "(" + fd.Name + " " + strings.Join(ns, " ") + ")"
				fmt.Fprintf(p.out, "(assert (forall (%s) (! (and (<= %s %s) (<= %s %s)) :pattern (%s))))\n", strings.Join(vs, " "), bigStr(r.lo), ap, ap, bigStr(r.hi), ap)
			}
		}
		if len(t.Args) == 0 {
			return t.Name
		}
		return p.app(t.Name, t.Args)
	case "<=0":
		l := p.c.lin(t.Args[0])
		a, b := p.split(l)
		return "(<= " + b + " " + a + ")"
	case "=0":
		l := p.c.lin(t.Args[0])
		a, b := p.split(l)
		return "(= " + a + " " + b + ")"
	case "=":
		if t.Args[0].S == SBytes {
			p.beqs = true
			return p.app("beq", t.Args)
		}
		return p.app("=", t.Args)
	case "nlmul":
		return p.app("*", t.Args)
	case "hint":
		if t.Args[0].S == SInt {
			return p.app("hintI", t.Args[:1])
		}
		return p.app("hintB", t.Args[:1])
	case "forall", "exists":
		var vs []string
		for _, v := range t.Vars {
			vs = append(vs, fmt.Sprintf("(%s %s)", v.Name, v.S))
		}
		pats := t.Pats
		if pats == nil {
			pats = p.c.autoPats(t.Vars, t.Args[0])
		}
		body := p.term(t.Args[0])
		var ps []string
		for _, x := range pats {
			var q []string
			for _, y := range x {
				q = append(q, p.term(y))
			}
			ps = append(ps, ":pattern ("+strings.Join(q, " ")+")")
		}
		if len(ps) > 0 {
			body = "(! " + body + " " + strings.Join(ps, " ") + ")"
		}
		return "(" + t.Op + " (" + strings.Join(vs, " ") + ") " + body + ")"
	}
	return p.app(t.Op, t.Args)
}

// split prints positive and negative parts of a linear term.
func (p *printer) split(l *lin) (string, string) {
	var pos, neg []string
	atoms := append([]*Term(nil), l.atoms...)
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	for _, a := range atoms {
		k := l.coef[a]
		s := p.term(a)
		ab := new(big.Int).Abs(k)
		if ab.Cmp(one) != 0 {
			s = "(* " + ab.String() + " " + s + ")"
		}
		if k.Sign() > 0 {
			pos = append(pos, s)
		} else {
			neg = append(neg, s)
		}
	}
	if l.k.Sign() > 0 {
		pos = append(pos, l.k.String())
	} else if l.k.Sign() < 0 {
		neg = append(neg, new(big.Int).Neg(l.k).String())
	}
	j := func(x []string) string {
		switch len(x) {
		case 0:
			return "0"
		case 1:
			return x[0]
		}
		return "(+ " + strings.Join(x, " ") + ")"
	}
	return j(pos), j(neg)
}

func (p *printer) app(f string, args []*Term) string {
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(f)
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(p.term(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

var builtinFun = map[string]bool{"blen": true, "bat": true, "mk": true, "cat": true, "unit": true, "arrOf": true, "be": true, "w64": true, "be64": true,
	"cpyI": true, "cpyB": true, "cpyZ": true, "constarrI": true, "constarrB": true, "constarrZ": true, "constarrMZ": true, "constarrMB": true, "beq": true, "bd": true, "bcmp": true, "fd": true, "human": true, "unhuman": true, "humanok": true}

const prelude = `(declare-sort Bytes 0)
(declare-fun blen (Bytes) Int)
(declare-fun bat (Bytes Int) Int)
(declare-fun mk ((Array Int Int) Int Int) Bytes)
(declare-fun cat (Bytes Bytes) Bytes)
(declare-fun unit (Int) Bytes)
(declare-fun arrOf (Bytes) (Array Int Int))
(declare-fun be (Int Int) Int)
(declare-fun be64 (Int) Bytes)
(declare-fun w64 (Int Int Int Int Int Int Int Int) Int)
(declare-fun cpyI ((Array Int Int) Int (Array Int Int) Int Int) (Array Int Int))
(declare-fun cpyB ((Array Int Bytes) Int (Array Int Bytes) Int Int) (Array Int Bytes))
(declare-fun cpyZ ((Array Int Bool) Int (Array Int Bool) Int Int) (Array Int Bool))
(declare-fun constarrI (Int) (Array Int Int))
(declare-fun constarrB (Bytes) (Array Int Bytes))
(declare-fun constarrZ (Bool) (Array Int Bool))
(declare-fun constarrMZ (Bool) (Array Bytes Bool))
(declare-fun constarrMB (Bytes) (Array Bytes Bytes))
(declare-fun beq (Bytes Bytes) Bool)
(declare-fun bd (Bytes Bytes) Int)
(declare-fun bcmp (Bytes Bytes) Int)
(declare-fun fd (Bytes Bytes) Int)
(declare-fun human (Int) Bytes)
(declare-fun unhuman (Bytes) Int)
(declare-fun humanok (Bytes) Bool)
(declare-fun hintI (Int) Bool)
(declare-fun hintB (Bytes) Bool)
(assert (forall ((b Bytes)) (! (and (<= 0 (blen b)) (<= (blen b) 281474976710656)) :pattern ((blen b)))))
(assert (forall ((b Bytes) (i Int)) (! (and (<= 0 (bat b i)) (<= (bat b i) 255)) :pattern ((bat b i)))))
`

// theory axioms, included when the listed symbol occurs.
var theory = []struct{ sym, ax string }{
	{"mk", `(assert (forall ((a (Array Int Int)) (o Int) (l Int)) (! (=> (<= 0 l) (= (blen (mk a o l)) l)) :pattern ((mk a o l)))))
(assert (forall ((a (Array Int Int)) (o Int) (l Int) (i Int)) (! (=> (and (<= 0 i) (< i l)) (= (bat (mk a o l) i) (select a (+ o i)))) :pattern ((bat (mk a o l) i)))))
`},
	{"cat", `(assert (forall ((a Bytes) (b Bytes)) (! (= (blen (cat a b)) (+ (blen a) (blen b))) :pattern ((cat a b)))))
(assert (forall ((a Bytes) (b Bytes) (i Int)) (! (=> (and (<= 0 i) (< i (+ (blen a) (blen b)))) (= (bat (cat a b) i) (ite (< i (blen a)) (bat a i) (bat b (- i (blen a)))))) :pattern ((bat (cat a b) i)))))
(assert (forall ((a Bytes) (b Bytes) (i Int)) (! (=> (and (<= 0 i) (< i (blen a))) (= (bat (cat a b) i) (bat a i))) :pattern ((cat a b) (bat a i)))))
(assert (forall ((a Bytes) (b Bytes) (i Int)) (! (=> (and (<= 0 i) (< i (blen b))) (= (bat (cat a b) (+ (blen a) i)) (bat b i))) :pattern ((cat a b) (bat b i)))))
`},
	{"unit", `(assert (forall ((v Int)) (! (and (= (blen (unit v)) 1) (=> (and (<= 0 v) (<= v 255)) (= (bat (unit v) 0) v))) :pattern ((unit v)))))
`},
	{"arrOf", `(assert (forall ((s Bytes) (i Int)) (! (= (select (arrOf s) i) (bat s i)) :pattern ((select (arrOf s) i)))))
`},
	{"be64", `(assert (forall ((v Int)) (! (and (= (blen (be64 v)) 8) (= (bat (be64 v) 0) (be v 0)) (= (bat (be64 v) 1) (be v 1)) (= (bat (be64 v) 2) (be v 2)) (= (bat (be64 v) 3) (be v 3)) (= (bat (be64 v) 4) (be v 4)) (= (bat (be64 v) 5) (be v 5)) (= (bat (be64 v) 6) (be v 6)) (= (bat (be64 v) 7) (be v 7))) :pattern ((be64 v)))))
`},
	{"be", `(assert (forall ((v Int) (j Int)) (! (and (<= 0 (be v j)) (<= (be v j) 255)) :pattern ((be v j)))))
(assert (forall ((v Int) (j Int)) (! (=> (and (<= 0 v) (<= v 18446744073709551615)) (= v (+ (* 72057594037927936 (be v 0)) (* 281474976710656 (be v 1)) (* 1099511627776 (be v 2)) (* 4294967296 (be v 3)) (* 16777216 (be v 4)) (* 65536 (be v 5)) (* 256 (be v 6)) (be v 7)))) :pattern ((be v j)))))
`},
	{"w64", `(assert (forall ((a Int) (b Int) (c Int) (d Int) (e Int) (f Int) (g Int) (h Int)) (! (= (w64 a b c d e f g h) (+ (* 72057594037927936 a) (* 281474976710656 b) (* 1099511627776 c) (* 4294967296 d) (* 16777216 e) (* 65536 f) (* 256 g) h)) :pattern ((w64 a b c d e f g h)))))
(assert (forall ((a Int) (b Int) (c Int) (d Int) (e Int) (f Int) (g Int) (h Int)) (! (=> (and (<= 0 a) (<= a 255) (<= 0 b) (<= b 255) (<= 0 c) (<= c 255) (<= 0 d) (<= d 255) (<= 0 e) (<= e 255) (<= 0 f) (<= f 255) (<= 0 g) (<= g 255) (<= 0 h) (<= h 255)) (and (= (bat (be64 (w64 a b c d e f g h)) 0) a) (= (bat (be64 (w64 a b c d e f g h)) 1) b) (= (bat (be64 (w64 a b c d e f g h)) 2) c) (= (bat (be64 (w64 a b c d e f g h)) 3) d) (= (bat (be64 (w64 a b c d e f g h)) 4) e) (= (bat (be64 (w64 a b c d e f g h)) 5) f) (= (bat (be64 (w64 a b c d e f g h)) 6) g) (= (bat (be64 (w64 a b c d e f g h)) 7) h))) :pattern ((be64 (w64 a b c d e f g h))))))
`},
	{"human", `(assert (forall ((v Int)) (! (=> (and (<= (- 9223372036854775808) v) (<= v 9223372036854775807)) (and (humanok (human v)) (= (unhuman (human v)) v) (<= 1 (blen (human v))) (<= (blen (human v)) 20))) :pattern ((human v)))))
`},
	{"cpyI", `(assert (forall ((d (Array Int Int)) (lo Int) (s (Array Int Int)) (so Int) (n Int) (i Int)) (! (= (select (cpyI d lo s so n) i) (ite (and (<= lo i) (< i (+ lo n))) (select s (+ so (- i lo))) (select d i))) :pattern ((select (cpyI d lo s so n) i)))))
`},
	{"cpyB", `(assert (forall ((d (Array Int Bytes)) (lo Int) (s (Array Int Bytes)) (so Int) (n Int) (i Int)) (! (= (select (cpyB d lo s so n) i) (ite (and (<= lo i) (< i (+ lo n))) (select s (+ so (- i lo))) (select d i))) :pattern ((select (cpyB d lo s so n) i)))))
`},
	{"cpyZ", `(assert (forall ((d (Array Int Bool)) (lo Int) (s (Array Int Bool)) (so Int) (n Int) (i Int)) (! (= (select (cpyZ d lo s so n) i) (ite (and (<= lo i) (< i (+ lo n))) (select s (+ so (- i lo))) (select d i))) :pattern ((select (cpyZ d lo s so n) i)))))
`},
	{"constarrI", `(assert (forall ((v Int) (i Int)) (! (= (select (constarrI v) i) v) :pattern ((select (constarrI v) i)))))
`},
	{"constarrB", `(assert (forall ((v Bytes) (i Int)) (! (= (select (constarrB v) i) v) :pattern ((select (constarrB v) i)))))
`},
	{"constarrZ", `(assert (forall ((v Bool) (i Int)) (! (= (select (constarrZ v) i) v) :pattern ((select (constarrZ v) i)))))
`},
	{"constarrMZ", `(assert (forall ((v Bool) (i Bytes)) (! (= (select (constarrMZ v) i) v) :pattern ((select (constarrMZ v) i)))))
`},
	{"constarrMB", `(assert (forall ((v Bytes) (i Bytes)) (! (= (select (constarrMB v) i) v) :pattern ((select (constarrMB v) i)))))
`},
	{"fd", `(assert (forall ((a Bytes) (b Bytes)) (! (and (<= 0 (fd a b)) (<= (fd a b) (blen a)) (<= (fd a b) (blen b))
 (or (= (fd a b) (blen a)) (= (fd a b) (blen b)) (not (= (bat a (fd a b)) (bat b (fd a b)))))) :pattern ((fd a b)))))
(assert (forall ((a Bytes) (b Bytes) (i Int)) (! (=> (and (<= 0 i) (< i (fd a b))) (= (bat a i) (bat b i))) :pattern ((fd a b) (bat a i)))))
(assert (forall ((a Bytes) (b Bytes) (i Int)) (! (=> (and (<= 0 i) (< i (fd a b))) (= (bat a i) (bat b i))) :pattern ((fd a b) (bat b i)))))
`},
	{"bcmp", `(assert (forall ((a Bytes) (b Bytes)) (! (and (= (bcmp a b) (ite (and (< (fd a b) (blen a)) (< (fd a b) (blen b))) (ite (< (bat a (fd a b)) (bat b (fd a b))) (- 1) 1) (ite (< (blen a) (blen b)) (- 1) (ite (= (blen a) (blen b)) 0 1))))
 (= (= (bcmp a b) 0) (= a b))) :pattern ((bcmp a b)))))
`},
}

const beqAx = `(assert (forall ((a Bytes) (b Bytes)) (! (and (= (beq a b) (= a b)) (or (= a b) (not (= (blen a) (blen b))) (and (<= 0 (bd a b)) (< (bd a b) (blen a)) (not (= (bat a (bd a b)) (bat b (bd a b))))))) :pattern ((beq a b)))))
`

// Query renders hyps /\ not goal.
func (c *TC) Query(hyps []*Term, axioms []*Term, goal *Term, models bool) string {
	p := &printer{c: c, vars: map[*Term]bool{}, funs: map[string]bool{}, names: map[*Term]string{}, out: &strings.Builder{}, used: map[string]bool{}, uses: map[*Term]int{}}
	var body strings.Builder
	all := append([]*Term(nil), hyps...)
	// relevance of user axioms: include when all head symbols of some pattern are present (fixpoint)
	g := c.Not(goal)
	syms := map[string]bool{}
	seen := map[*Term]bool{}
	for _, h := range all {
		c.symbols(h, syms, seen)
	}
	c.symbols(g, syms, seen)
	rest := append([]*Term(nil), axioms...)
	for {
		var keep []*Term
		ch := false
		for _, a := range rest {
			if c.axRelevant(a, syms) {
				all = append(all, a)
				c.symbols(a, syms, seen)
				ch = true
			} else {
				keep = append(keep, a)
			}
		}
		rest = keep
		if !ch {
			break
		}
	}
	all = append(all, c.mkFacts(append(append([]*Term(nil), all...), g))...)
	var shifted []*Term
	for _, h := range all {
		shifted = append(shifted, c.shiftQ(h)...)
	}
	all = shifted
	for _, h := range all {
		p.count(h)
	}
	p.count(g)
	for _, h := range all {
		s := p.term(h)
		fmt.Fprintf(p.out, "(assert %s)\n", s)
	}
	s := p.term(g)
	fmt.Fprintf(p.out, "(assert %s)\n", s)
	for _, t := range p.ranges {
		r := c.rng[t]
		n := p.term(t)
		if r.lo != nil {
			fmt.Fprintf(p.out, "(assert (<= %s %s))\n", bigStr(r.lo), n)
		}
		if r.hi != nil {
			fmt.Fprintf(p.out, "(assert (<= %s %s))\n", n, bigStr(r.hi))
		}
	}
	for _, l := range p.lits {
		str := c.litOf[l]
		n := fmt.Sprintf("lit!%d", l.id)
		fmt.Fprintf(p.out, "(assert (= (blen %s) %d))\n", n, len(str))
		for i := 0; i < len(str) && i < 300; i++ {
			fmt.Fprintf(p.out, "(assert (= (bat %s %d) %d))\n", n, i, str[i])
		}
	}
	body.WriteString(prelude)
	if p.used["bcmp"] {
		p.used["fd"] = true
	}
	if p.used["be64"] {
		p.used["be"] = true
	}
	for _, th := range theory {
		if p.used[th.sym] {
			body.WriteString(th.ax)
		}
	}
	if p.beqs || p.used["beq"] {
		body.WriteString(beqAx)
	}
	body.WriteString(p.out.String())
	return body.String()
}

func (c *TC) symbols(t *Term, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "app" {
		out[t.Name] = true
		if t.Name == "be64" {
			out["be"] = true
		}
	}
	if t.Op == "select" || t.Op == "store" {
		out[t.Op] = true
	}
	if t.Op == "=" && t.Args[0].S == SBytes {
		out["beq"] = true
	}
	for _, a := range t.Args {
		c.symbols(a, out, seen)
	}
}

func (c *TC) axRelevant(a *Term, syms map[string]bool) bool {
	if a.Op != "forall" || len(a.Pats) == 0 {
		return true
	}
	for _, p := range a.Pats {
		ok := true
		s := map[string]bool{}
		seen := map[*Term]bool{}
		for _, t := range p {
			c.symbols(t, s, seen)
		}
		for n := range s {
			if !syms[n] && n != "select" && !strings.HasPrefix(n, "lit_") {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// ---------- solver processes ----------

type solverCfg struct {
	name string
	args []string
	pre  string
}

var z3opts = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.qi.eager_threshold 30)\n(set-option :smt.case_split 3)\n(set-option :smt.delay_units true)\n"
var z3optsB = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"

var solverList = []solverCfg{
	{"z3-new", []string{"z3-new", "-in", "-smt2"}, z3optsB},
	{"z3", []string{"z3", "-in", "-smt2"}, z3opts},
	{"cvc5", []string{"cvc5", "--lang=smt2", "-q"}, "(set-logic ALL)\n"},
}

// solver gate: number of parallel solver processes
var solverSem = make(chan struct{}, 8)

// stopCh is closed once a failing input of the real code is known: the proofs still running cannot change the verdict.
var stopCh = make(chan struct{})
var stopOnce sync.Once

func stopProofs() { stopOnce.Do(func() { close(stopCh) }) }

func stopped() bool {
	select {
	case <-stopCh:
		return true
	default:
		return false
	}
}

const stoppedMsg = "the proof was abandoned: a failing input is already known"

// SolverStats aggregates measured solver use.
var solverTimeUS int64
var solverRuns int64

func runSolver(sc solverCfg, query string, timeout time.Duration) (string, time.Duration) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if stopped() {
		return "stopped", 0
	}
	st := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	args := append([]string(nil), sc.args...)
	switch sc.name {
	case "cvc5":
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
	default:
		args = append(args, fmt.Sprintf("-T:%d", int(timeout.Seconds())+1), fmt.Sprintf("-t:%d", timeout.Milliseconds()))
	}
	go func() {
		select {
		case <-stopCh:
			cancel()
		case <-ctx.Done():
		}
	}()
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(sc.pre + query + "(check-sat)\n")
	out, _ := cmd.CombinedOutput()
	d := time.Since(st)
	atomic.AddInt64(&solverTimeUS, d.Microseconds())
	atomic.AddInt64(&solverRuns, 1)
	s := strings.TrimSpace(string(out))
	for strings.HasPrefix(s, "WARNING") {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			s = ""
			break
		}
		s = strings.TrimSpace(s[i:])
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		if strings.Contains(s, "error") {
			return "error: " + s, d
		}
		s = s[:i]
	}
	if s == "" {
		s = "timeout"
	}
	return s, d
}

type proofResult struct {
	ok     bool
	solver string
	reason string
	dur    time.Duration
	file   string
}

// proveQuery runs the portfolio.
func proveQuery(query string, budget time.Duration) proofResult {
	type stage struct {
		sc solverCfg
		to time.Duration
	}
	stages := []stage{{solverList[0], budget / 4}, {solverList[1], budget / 4}, {solverList[2], budget / 4}, {solverList[0], budget}}
	var tot time.Duration
	var reasons []string
	for _, st := range stages {
		r, d := runSolver(st.sc, query, st.to)
		tot += d
		if r == "unsat" {
			return proofResult{ok: true, solver: st.sc.name, dur: tot}
		}
		if strings.HasPrefix(r, "error") {
			return proofResult{ok: false, solver: st.sc.name, reason: r, dur: tot}
		}
		reasons = append(reasons, st.sc.name+":"+r)
		if st.sc.name == "cvc5" && r == "sat" {
			break
		}
	}
	return proofResult{ok: false, reason: strings.Join(reasons, " "), dur: tot}
}

// feas is an incremental z3 used for quick syntactic decisions during execution.
type feas struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	memo  map[string]bool
	calls int
	mu    sync.Mutex
}

func newFeas() *feas {
	f := &feas{memo: map[string]bool{}}
	f.start()
	return f
}

func (f *feas) start() {
	f.cmd = exec.Command("z3-new", "-in", "-smt2")
	f.in, _ = f.cmd.StdinPipe()
	o, _ := f.cmd.StdoutPipe()
	f.out = bufio.NewReader(o)
	if err := f.cmd.Start(); err != nil {
		panic(err)
	}
	io.WriteString(f.in, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.qi.max_instances 400)\n(set-option :timeout 400)\n")
}

func (f *feas) close() {
	f.in.Close()
	f.cmd.Process.Kill()
	f.cmd.Wait()
}

// unsat reports whether the query is quickly refuted.
func (f *feas) unsat(query string) bool {
	if r, ok := f.memo[query]; ok {
		return r
	}
	f.calls++
	st := time.Now()
	io.WriteString(f.in, "(push 1)\n"+query+"(check-sat)\n(pop 1)\n(echo \"done\")\n")
	res := ""
	for {
		line, err := f.out.ReadString('\n')
		if err != nil {
			f.close()
			f.start()
			return false
		}
		line = strings.TrimSpace(line)
		if line == "done" {
			break
		}
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "feas:", line)
			if dbg := os.Getenv("GOVC_FEASDUMP"); dbg != "" {
				os.WriteFile(filepath.Join(dbg, fmt.Sprintf("feas%d.smt2", f.calls)), []byte(query), 0o644)
			}
		}
		if res == "" {
			res = line
		}
	}
	d := time.Since(st)
	atomic.AddInt64(&solverTimeUS, d.Microseconds())
	atomic.AddInt64(&solverRuns, 1)
	r := res == "unsat"
	f.memo[query] = r
	return r
}

// mkFacts relates the bytes of equal substrings: for every ground equation with a substring term it adds the
// (theory-valid) consequence that the underlying bytes agree position by position.
func (c *TC) mkFacts(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		if t.Op != "=" || t.Args[0].S != SBytes || t.hasB {
			return
		}
		// view of bytes as array segment arr[o..o+l), valid positions j-o in [0,lim)
		type view struct {
			arr, o *Term
			lims   []*Term // position i of the string must be below each of these
		}
		views := func(b *Term) []view {
			if !(b.Op == "app" && b.Name == "mk") {
				return []view{{c.ArrOf(b), c.Int(0), nil}}
			}
			v := view{b.Args[0], b.Args[1], []*Term{b.Args[2]}}
			out := []view{v}
			for v.arr.Op == "app" && v.arr.Name == "arrOf" && v.arr.Args[0].Op == "app" && v.arr.Args[0].Name == "mk" && v.o.isZero() {
				m := v.arr.Args[0]
				v = view{m.Args[0], m.Args[1], append(append([]*Term(nil), v.lims...), m.Args[2])}
				out = append(out, v)
			}
			return out
		}
		x, y := t.Args[0], t.Args[1]
		isMk := func(b *Term) bool { return b.Op == "app" && b.Name == "mk" }
		if !isMk(x) && !isMk(y) {
			return
		}
		vx, vy := views(x), views(y)
		fact := func(a, b view) {
			if a.arr == b.arr {
				return
			}
			j := c.BVar("j", SInt)
			lhs := c.Select(a.arr, j)
			if lhs.Op != "app" && lhs.Op != "select" {
				return
			}
			i := c.Sub(j, a.o)
			rhs := c.Select(b.arr, c.Add(i, b.o))
			gs := []*Term{t, c.Le(c.Int(0), i), c.Lt(i, c.Len(x)), c.Lt(i, c.Len(y))}
			for _, l := range append(append([]*Term(nil), a.lims...), b.lims...) {
				gs = append(gs, c.Lt(i, l))
			}
			body := c.Implies(c.And(gs...), c.Eq(lhs, rhs))
			if body.IsConst() {
				return
			}
			out = append(out, c.Quant("forall", []*Term{j}, [][]*Term{{lhs}}, body))
		}
		la, lb := vx[len(vx)-1], vy[len(vy)-1]
		fact(la, lb)
		fact(lb, la)
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

// shiftQ re-indexes a quantified hypothesis whose bound variable only occurs inside reads at an offset
// (a[i+g]) so that it gets a usable trigger: forall i. P(i)  <=>  forall j. P(j-g).
func (c *TC) shiftQ(h *Term) []*Term {
	if h.Op == "and" && h.hasQ {
		var out []*Term
		for _, a := range h.Args {
			out = append(out, c.shiftQ(a)...)
		}
		return out
	}
	if h.Op != "forall" || len(h.Pats) > 0 || len(h.Vars) != 1 || h.Vars[0].S != SInt || h.hasB {
		return []*Term{h}
	}
	if len(c.autoPats(h.Vars, h.Args[0])) > 0 {
		return []*Term{h}
	}
	v := h.Vars[0]
	var out []*Term
	seen := map[*Term]bool{}
	done := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.hasB {
			return
		}
		seen[t] = true
		if (t.Op == "app" && t.Name == "bat" || t.Op == "select") && !t.Args[0].hasB && t.Args[1].hasB {
			g := c.Sub(t.Args[1], v)
			if !g.hasB && !done[g] && len(out) < 3 {
				done[g] = true
				j := c.BVar("j", SInt)
				body := c.Subst(h.Args[0], map[*Term]*Term{v: c.Sub(j, g)})
				tr := c.Subst(t, map[*Term]*Term{v: c.Sub(j, g)})
				q := c.Quant("forall", []*Term{j}, [][]*Term{{tr}}, body)
				out = append(out, q)
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(h.Args[0])
	if len(out) == 0 {
		return []*Term{h}
	}
	return out
}
