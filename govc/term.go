package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sorts of the logic. Bytes is an immutable byte string.
type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SBytes Sort = "Bytes"
	SAII   Sort = "(Array Int Int)"
	SAIB   Sort = "(Array Int Bytes)"
	SAIZ   Sort = "(Array Int Bool)"
	SABB   Sort = "(Array Bytes Bytes)"
	SABZ   Sort = "(Array Bytes Bool)"
)

// Term is a hash-consed logical term.
type Term struct {
	Op   string
	Name string
	N    *big.Int
	Args []*Term
	S    Sort
	Vars []*Term   // quantifiers
	Pats [][]*Term // quantifiers
	id   int
	hasB bool // contains bound variables (free in this term)
	hasQ bool // contains quantifiers
}

func (t *Term) IsConst() bool { return t.Op == "int" || t.Op == "true" || t.Op == "false" }
func (t *Term) IsTrue() bool  { return t.Op == "true" }
func (t *Term) IsFalse() bool { return t.Op == "false" }

// TC is a term context.
type TC struct {
	tab    map[string]*Term
	next   int
	fresh  int
	lits   map[string]*Term
	litOf  map[*Term]string
	True   *Term
	False  *Term
	funs   map[string]*FunDecl
	linmem map[*Term]*lin
	rng    map[*Term]irange // context-independent range facts
	appRng map[string]irange
}

type irange struct{ lo, hi *big.Int }

// FunDecl declares an uninterpreted function.
type FunDecl struct {
	Name string
	Args []Sort
	Ret  Sort
}

func newTC() *TC {
	c := &TC{tab: map[string]*Term{}, lits: map[string]*Term{}, litOf: map[*Term]string{}, funs: map[string]*FunDecl{}, linmem: map[*Term]*lin{}, rng: map[*Term]irange{}, appRng: map[string]irange{}}
	c.True = c.mk("true", "", SBool)
	c.False = c.mk("false", "", SBool)
	return c
}

func (c *TC) mk(op, name string, s Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(string(s))
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.next++
	t := &Term{Op: op, Name: name, S: s, Args: append([]*Term(nil), args...), id: c.next}
	for _, a := range args {
		t.hasB = t.hasB || a.hasB
		t.hasQ = t.hasQ || a.hasQ
	}
	if op == "bvar" {
		t.hasB = true
	}
	c.tab[k] = t
	return t
}

func (c *TC) Int(n int64) *Term { return c.Big(big.NewInt(n)) }
func (c *TC) Big(n *big.Int) *Term {
	t := c.mk("int", n.String(), SInt)
	if t.N == nil {
		t.N = new(big.Int).Set(n)
	}
	return t
}
func (c *TC) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (c *TC) Var(hint string, s Sort) *Term {
	c.fresh++
	return c.mk("var", fmt.Sprintf("%s_%d", sanitize(hint), c.fresh), s)
}

func (c *TC) BVar(hint string, s Sort) *Term {
	c.fresh++
	return c.mk("bvar", fmt.Sprintf("q%s_%d", sanitize(hint), c.fresh), s)
}

func (c *TC) App(name string, ret Sort, args ...*Term) *Term {
	fd := c.funs[name]
	if fd == nil {
		fd = &FunDecl{Name: name, Ret: ret}
		for _, a := range args {
			fd.Args = append(fd.Args, a.S)
		}
		c.funs[name] = fd
	}
	return c.mk("app", name, ret, args...)
}

// ---------- linear arithmetic ----------

type lin struct {
	k     *big.Int
	atoms []*Term
	coef  map[*Term]*big.Int
}

func newLin() *lin { return &lin{k: new(big.Int), coef: map[*Term]*big.Int{}} }

func (l *lin) add(t *Term, c *big.Int) {
	if x, ok := l.coef[t]; ok {
		x = new(big.Int).Add(x, c)
		if x.Sign() == 0 {
			delete(l.coef, t)
			for i, a := range l.atoms {
				if a == t {
					l.atoms = append(append([]*Term(nil), l.atoms[:i]...), l.atoms[i+1:]...)
					break
				}
			}
			return
		}
		l.coef[t] = x
		return
	}
	if c.Sign() == 0 {
		return
	}
	l.coef[t] = new(big.Int).Set(c)
	l.atoms = append(l.atoms, t)
}

func (l *lin) addLin(o *lin, c *big.Int) {
	l.k = new(big.Int).Add(l.k, new(big.Int).Mul(o.k, c))
	for _, a := range o.atoms {
		l.add(a, new(big.Int).Mul(o.coef[a], c))
	}
}

var one = big.NewInt(1)
var mone = big.NewInt(-1)

func (c *TC) lin(t *Term) *lin {
	if l, ok := c.linmem[t]; ok {
		return l
	}
	l := newLin()
	switch t.Op {
	case "int":
		l.k.Set(t.N)
	case "+":
		for _, a := range t.Args {
			l.addLin(c.lin(a), one)
		}
	case "*": // const * atom
		if t.Args[0].Op == "int" {
			l.addLin(c.lin(t.Args[1]), t.Args[0].N)
		} else {
			l.add(t, one)
		}
	default:
		l.add(t, one)
	}
	c.linmem[t] = l
	return l
}

func (c *TC) fromLin(l *lin) *Term {
	atoms := append([]*Term(nil), l.atoms...)
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	var args []*Term
	for _, a := range atoms {
		k := l.coef[a]
		if k.Cmp(one) == 0 {
			args = append(args, a)
		} else {
			args = append(args, c.mk("*", "", SInt, c.Big(k), a))
		}
	}
	if l.k.Sign() != 0 || len(args) == 0 {
		args = append(args, c.Big(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.mk("+", "", SInt, args...)
}

func (c *TC) Add(a, b *Term) *Term {
	l := newLin()
	l.addLin(c.lin(a), one)
	l.addLin(c.lin(b), one)
	return c.fromLin(l)
}
func (c *TC) Sub(a, b *Term) *Term {
	l := newLin()
	l.addLin(c.lin(a), one)
	l.addLin(c.lin(b), mone)
	return c.fromLin(l)
}
func (c *TC) Neg(a *Term) *Term { return c.Sub(c.Int(0), a) }
func (c *TC) Mul(a, b *Term) *Term {
	if a.Op == "int" {
		l := newLin()
		l.addLin(c.lin(b), a.N)
		return c.fromLin(l)
	}
	if b.Op == "int" {
		return c.Mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("nlmul", "", SInt, a, b)
}

// diffConst returns a-b if it is a constant.
func (c *TC) diffConst(a, b *Term) (*big.Int, bool) {
	d := c.Sub(a, b)
	if d.Op == "int" {
		return d.N, true
	}
	return nil, false
}

// Div is floor division by a positive constant.
func (c *TC) Div(a, k *Term) *Term {
	if k.Op != "int" || k.N.Sign() <= 0 {
		return c.mk("div", "", SInt, a, k)
	}
	if k.N.Cmp(one) == 0 {
		return a
	}
	l := c.lin(a)
	q, r := newLin(), newLin()
	for _, t := range l.atoms {
		m := new(big.Int)
		d, m := new(big.Int).DivMod(l.coef[t], k.N, m)
		if m.Sign() == 0 {
			q.add(t, d)
		} else {
			r.add(t, l.coef[t])
		}
	}
	if len(r.atoms) == 0 {
		d := new(big.Int).Div(l.k, k.N) // Euclidean == floor for positive divisor
		q.k.Set(d)
		return c.fromLin(q)
	}
	m := new(big.Int)
	d, m := new(big.Int).DivMod(l.k, k.N, m)
	q.k.Set(d)
	r.k.Set(m)
	rt := c.fromLin(r)
	lo, hi := c.bounds(rt)
	if lo != nil && hi != nil {
		dl, dh := new(big.Int).Div(lo, k.N), new(big.Int).Div(hi, k.N)
		if dl.Cmp(dh) == 0 {
			q.k.Add(q.k, dl)
			return c.fromLin(q)
		}
	}
	// (x div a) div b = x div (a*b)
	if rt.Op == "div" && rt.Args[1].Op == "int" {
		dt := c.Div(rt.Args[0], c.Big(new(big.Int).Mul(k.N, rt.Args[1].N)))
		return c.Add(c.fromLin(q), dt)
	}
	dt := c.mk("div", "", SInt, rt, k)
	return c.Add(c.fromLin(q), dt)
}

func (c *TC) Mod(a, k *Term) *Term {
	if k.Op != "int" || k.N.Sign() <= 0 {
		return c.mk("mod", "", SInt, a, k)
	}
	l := c.lin(a)
	r := newLin()
	for _, t := range l.atoms {
		m := new(big.Int).Mod(l.coef[t], k.N)
		if m.Sign() != 0 {
			r.add(t, l.coef[t])
		}
	}
	r.k.Set(new(big.Int).Mod(l.k, k.N))
	if len(r.atoms) == 0 {
		return c.Big(r.k)
	}
	rt := c.fromLin(r)
	lo, hi := c.bounds(rt)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(k.N) < 0 {
		return rt
	}
	// (x mod n) mod k where k | n
	if rt.Op == "mod" && rt.Args[1].Op == "int" && new(big.Int).Mod(rt.Args[1].N, k.N).Sign() == 0 {
		return c.Mod(rt.Args[0], k)
	}
	return c.mk("mod", "", SInt, rt, k)
}

// bounds computes syntactic bounds of an integer term.
func (c *TC) bounds(t *Term) (lo, hi *big.Int) {
	switch t.Op {
	case "int":
		return t.N, t.N
	case "mod":
		if t.Args[1].Op == "int" {
			return new(big.Int), new(big.Int).Sub(t.Args[1].N, one)
		}
	case "div":
		if t.Args[1].Op == "int" && t.Args[1].N.Sign() > 0 {
			l, h := c.bounds(t.Args[0])
			if l != nil {
				l = new(big.Int).Div(l, t.Args[1].N)
			}
			if h != nil {
				h = new(big.Int).Div(h, t.Args[1].N)
			}
			return l, h
		}
	case "ite":
		l1, h1 := c.bounds(t.Args[1])
		l2, h2 := c.bounds(t.Args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return
	case "app":
		switch t.Name {
		case "blen":
			return new(big.Int), maxLen
		case "bat", "be":
			return new(big.Int), big.NewInt(255)
		}
		if r, ok := c.appRng[t.Name]; ok {
			return r.lo, r.hi
		}
	case "+", "*":
		l := c.lin(t)
		lo, hi = new(big.Int).Set(l.k), new(big.Int).Set(l.k)
		for _, a := range l.atoms {
			al, ah := c.bounds(a)
			k := l.coef[a]
			if k.Sign() < 0 {
				al, ah = ah, al
			}
			if lo != nil {
				if al == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(k, al))
				}
			}
			if hi != nil {
				if ah == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(k, ah))
				}
			}
		}
		return
	}
	if r, ok := c.rng[t]; ok {
		return r.lo, r.hi
	}
	return nil, nil
}

// maxLen bounds every slice/string length (stated assumption).
var maxLen = new(big.Int).Lsh(one, 48)

func (c *TC) Le(a, b *Term) *Term { // a <= b  <=> 0 <= b-a
	d := c.Sub(b, a)
	if d.Op == "int" {
		return c.Bool(d.N.Sign() >= 0)
	}
	lo, hi := c.bounds(d)
	if lo != nil && lo.Sign() >= 0 {
		return c.True
	}
	if hi != nil && hi.Sign() < 0 {
		return c.False
	}
	// normalise by gcd
	l := c.lin(d)
	g := new(big.Int)
	for _, a := range l.atoms {
		g.GCD(nil, nil, g, new(big.Int).Abs(l.coef[a]))
	}
	if g.Cmp(one) > 0 {
		n := newLin()
		for _, a := range l.atoms {
			n.add(a, new(big.Int).Div(l.coef[a], g))
		}
		n.k = new(big.Int).Div(l.k, g) // floor
		d = c.fromLin(n)
	}
	return c.mk("<=0", "", SBool, d) // 0 <= d
}
func (c *TC) Lt(a, b *Term) *Term { return c.Le(c.Add(a, c.Int(1)), b) }

func (c *TC) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return c.False
	case "false":
		return c.True
	case "not":
		return a.Args[0]
	case "<=0": // not(0<=d) <=> 0 <= -d-1
		return c.Le(c.Int(0), c.Sub(c.Int(-1), a.Args[0]))
	}
	return c.mk("not", "", SBool, a)
}

func (c *TC) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.Op == "and" {
			for _, x := range a.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if a.IsFalse() {
			return c.False
		}
		if a.IsTrue() || seen[a] {
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[c.Not(a)] {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", "", SBool, out...)
}

func (c *TC) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.Op == "or" {
			for _, x := range a.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if a.IsTrue() {
			return c.True
		}
		if a.IsFalse() || seen[a] {
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[c.Not(a)] {
			return c.True
		}
	}
	if len(out) == 0 {
		return c.False
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("or", "", SBool, out...)
}

func (c *TC) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *TC) Ite(b, x, y *Term) *Term {
	if b.IsTrue() || x == y {
		return x
	}
	if b.IsFalse() {
		return y
	}
	if x.S == SBool {
		if x.IsTrue() {
			return c.Or(b, y)
		}
		if x.IsFalse() {
			return c.And(c.Not(b), y)
		}
		if y.IsTrue() {
			return c.Or(c.Not(b), x)
		}
		if y.IsFalse() {
			return c.And(b, x)
		}
	}
	if x.Op == "ite" && x.Args[0] == b {
		x = x.Args[1]
	}
	if y.Op == "ite" && y.Args[0] == b {
		y = y.Args[2]
	}
	if x == y {
		return x
	}
	return c.mk("ite", "", x.S, b, x, y)
}

func (c *TC) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq sort mismatch %s %s: %s / %s", a.S, b.S, c.Show(a), c.Show(b)))
	}
	switch a.S {
	case SInt:
		d := c.Sub(a, b)
		if d.Op == "int" {
			return c.Bool(d.N.Sign() == 0)
		}
		lo, hi := c.bounds(d)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return c.False
		}
		// orient
		l := c.lin(d)
		atoms := append([]*Term(nil), l.atoms...)
		sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
		// push equality through ite with constants
		if len(atoms) == 1 && atoms[0].Op == "ite" && l.coef[atoms[0]].IsInt64() && new(big.Int).Abs(l.coef[atoms[0]]).Cmp(one) == 0 {
			it := atoms[0]
			k := new(big.Int).Neg(l.k)
			if l.coef[it].Sign() < 0 {
				k.Neg(k)
			}
			if it.Args[1].Op == "int" || it.Args[2].Op == "int" {
				kt := c.Big(k)
				return c.Ite(it.Args[0], c.Eq(it.Args[1], kt), c.Eq(it.Args[2], kt))
			}
		}
		if l.coef[atoms[0]].Sign() < 0 {
			n := newLin()
			n.addLin(l, mone)
			d = c.fromLin(n)
		}
		return c.mk("=0", "", SBool, d)
	case SBool:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	case SBytes:
		if r := c.bytesEq(a, b); r != nil {
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "", SBool, a, b)
}

// ---------- arrays ----------

func (c *TC) Store(a, i, v *Term) *Term {
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return c.mk("store", "", a.S, a, i, v)
}

func elemSort(s Sort) Sort {
	_, v := sortParts(s)
	return v
}

// sortParts splits an array sort.
func sortParts(s Sort) (Sort, Sort) {
	t := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	if t == string(s) {
		panic("elemSort " + string(s))
	}
	d := 0
	for i, r := range t {
		switch r {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(t[:i]), Sort(t[i+1:])
			}
		}
	}
	panic("elemSort " + string(s))
}

func sortName(s Sort) string {
	return strings.NewReplacer("(", "L", ")", "R", " ", "_").Replace(string(s))
}

func (c *TC) Select(a, i *Term) *Term {
	for {
		switch {
		case a.Op == "store":
			if a.Args[1] == i {
				return a.Args[2]
			}
			if i.S == SInt {
				if d, ok := c.diffConst(a.Args[1], i); ok && d.Sign() != 0 {
					a = a.Args[0]
					continue
				}
			} else if i.S == SBytes {
				if e := c.bytesEq(a.Args[1], i); e != nil && e.IsFalse() {
					a = a.Args[0]
					continue
				}
			}
		case a.Op == "app" && a.Name == "arrOf":
			return c.Bat(a.Args[0], i)
		case a.Op == "app" && strings.HasPrefix(a.Name, "cpy"):
			lo, s, so, n := a.Args[1], a.Args[2], a.Args[3], a.Args[4]
			if d, ok := c.diffConst(i, lo); ok {
				if d.Sign() < 0 {
					a = a.Args[0]
					continue
				}
				if n.Op == "int" {
					if d.Cmp(n.N) >= 0 {
						a = a.Args[0]
						continue
					}
					a, i = s, c.Add(so, c.Big(d))
					continue
				}
			}
			if d, ok := c.diffConst(i, c.Add(lo, n)); ok && d.Sign() >= 0 {
				if l, _ := c.bounds(n); l != nil && l.Sign() >= 0 {
					a = a.Args[0]
					continue
				}
			}
		case a.Op == "app" && strings.HasPrefix(a.Name, "constarr"):
			return a.Args[0]
		case a.Op == "ite" && (a.Args[1].Op != "var" || a.Args[2].Op != "var"):
			x, y := c.Select(a.Args[1], i), c.Select(a.Args[2], i)
			if x == y {
				return x
			}
			return c.Ite(a.Args[0], x, y)
		}
		break
	}
	t := c.mk("select", "", elemSort(a.S), a, i)
	return t
}

func cpyName(s Sort) string {
	switch s {
	case SAII:
		return "cpyI"
	case SAIB:
		return "cpyB"
	case SAIZ:
		return "cpyZ"
	}
	return "cpy_" + sortName(s)
}

// Cpy is dst with n cells from src[so..] copied at lo.
func (c *TC) Cpy(dst, lo, src, so, n *Term) *Term {
	if n.Op == "int" {
		if n.N.Sign() <= 0 {
			return dst
		}
		if n.N.Cmp(one) == 0 {
			return c.Store(dst, lo, c.Select(src, so))
		}
	}
	return c.App(cpyName(dst.S), dst.S, dst, lo, src, so, n)
}

func (c *TC) ConstArr(s Sort, v *Term) *Term {
	switch s {
	case SAII:
		return c.App("constarrI", s, v)
	case SAIB:
		return c.App("constarrB", s, v)
	case SAIZ:
		return c.App("constarrZ", s, v)
	case SABZ:
		return c.App("constarrMZ", s, v)
	case SABB:
		return c.App("constarrMB", s, v)
	}
	return c.App("constarr_"+sortName(s), s, v)
}

// ---------- Bytes ----------

func (c *TC) Lit(s string) *Term {
	if t, ok := c.lits[s]; ok {
		return t
	}
	t := c.App(fmt.Sprintf("lit_%d_%x", len(s), hash(s)), SBytes)
	c.lits[s] = t
	c.litOf[t] = s
	return t
}

func hash(s string) []byte {
	if len(s) <= 24 {
		return []byte(s)
	}
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return []byte(fmt.Sprintf("%s%d", s[:16], h))
}

func (c *TC) Unit(v *Term) *Term {
	if v.Op == "int" {
		return c.Lit(string([]byte{byte(v.N.Int64())}))
	}
	return c.App("unit", SBytes, v)
}

func (c *TC) Len(b *Term) *Term {
	if s, ok := c.litOf[b]; ok {
		return c.Int(int64(len(s)))
	}
	switch {
	case b.Op == "app" && b.Name == "mk":
		return b.Args[2]
	case b.Op == "app" && b.Name == "cat":
		return c.Add(c.Len(b.Args[0]), c.Len(b.Args[1]))
	case b.Op == "app" && b.Name == "unit":
		return c.Int(1)
	case b.Op == "app" && b.Name == "be64":
		return c.Int(8)
	case b.Op == "ite":
		return c.Ite(b.Args[0], c.Len(b.Args[1]), c.Len(b.Args[2]))
	}
	return c.App("blen", SInt, b)
}

func (c *TC) Bat(b, i *Term) *Term {
	if s, ok := c.litOf[b]; ok {
		if i.Op == "int" && i.N.IsInt64() {
			k := i.N.Int64()
			if k >= 0 && k < int64(len(s)) {
				return c.Int(int64(s[k]))
			}
			return c.Int(0)
		}
	}
	if b.Op == "app" && b.Name == "cat" {
		la := c.Len(b.Args[0])
		d := c.Sub(i, la)
		lo, hi := c.bounds(d)
		if lo != nil && lo.Sign() >= 0 {
			return c.Bat(b.Args[1], d)
		}
		if hi != nil && hi.Sign() < 0 {
			if l, _ := c.bounds(i); l != nil && l.Sign() >= 0 {
				return c.Bat(b.Args[0], i)
			}
		}
	}
	if b.Op == "app" && b.Name == "unit" && i.Op == "int" && i.N.Sign() == 0 {
		return b.Args[0]
	}
	if b.Op == "app" && b.Name == "be64" && i.Op == "int" && i.N.Sign() >= 0 && i.N.Cmp(big.NewInt(8)) < 0 {
		return c.BE(b.Args[0], int(i.N.Int64()))
	}
	if b.Op == "app" && b.Name == "mk" {
		// in range syntactically?
		if l, _ := c.bounds(i); l != nil && l.Sign() >= 0 {
			if l2, _ := c.bounds(c.Sub(b.Args[2], i)); l2 != nil && l2.Sign() > 0 {
				return c.Select(b.Args[0], c.Add(b.Args[1], i))
			}
		}
	}
	if b.Op == "ite" {
		return c.Ite(b.Args[0], c.Bat(b.Args[1], i), c.Bat(b.Args[2], i))
	}
	return c.App("bat", SInt, b, i)
}

// BE is byte j of the 8-byte big-endian encoding of v (0<=v<2^64).
func (c *TC) BE(v *Term, j int) *Term {
	if v.Op == "int" {
		x := new(big.Int).Rsh(v.N, uint(8*(7-j)))
		return c.Big(x.And(x, big.NewInt(255)))
	}
	if v.Op == "app" && v.Name == "w64" {
		return v.Args[j]
	}
	return c.App("be", SInt, v, c.Int(int64(j)))
}

// W64 combines 8 big-endian bytes.
func (c *TC) W64(b []*Term) *Term {
	if b[0].Op == "app" && b[0].Name == "be" {
		v := b[0].Args[0]
		ok := true
		for j := range b {
			if b[j] != c.BE(v, j) {
				ok = false
				break
			}
		}
		if ok {
			return v
		}
	}
	all := true
	x := new(big.Int)
	for _, t := range b {
		if t.Op != "int" {
			all = false
			break
		}
		x.Lsh(x, 8).Or(x, t.N)
	}
	if all {
		return c.Big(x)
	}
	// all ite on same condition
	if b[0].Op == "ite" {
		cond := b[0].Args[0]
		same := true
		for _, t := range b {
			if t.Op != "ite" || t.Args[0] != cond {
				same = false
				break
			}
		}
		if same {
			var x, y []*Term
			for _, t := range b {
				x = append(x, t.Args[1])
				y = append(y, t.Args[2])
			}
			return c.Ite(cond, c.W64(x), c.W64(y))
		}
	}
	t := c.App("w64", SInt, b...)
	if _, ok := c.rng[t]; !ok {
		c.rng[t] = irange{new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, 64), one)}
	}
	return t
}

func (c *TC) ArrOf(b *Term) *Term { return c.App("arrOf", SAII, b) }

func (c *TC) Cat(a, b *Term) *Term {
	sa, oka := c.litOf[a]
	sb, okb := c.litOf[b]
	if oka && sa == "" {
		return b
	}
	if okb && sb == "" {
		return a
	}
	if oka && okb {
		return c.Lit(sa + sb)
	}
	if a.Op == "app" && a.Name == "cat" {
		return c.Cat(a.Args[0], c.Cat(a.Args[1], b))
	}
	if oka && b.Op == "app" && b.Name == "cat" {
		if s2, ok := c.litOf[b.Args[0]]; ok {
			return c.Cat(c.Lit(sa+s2), b.Args[1])
		}
	}
	return c.App("cat", SBytes, a, b)
}

// nonneg reports whether t is syntactically known to be >= 0.
func (c *TC) nonneg(t *Term) bool {
	l, _ := c.bounds(t)
	return l != nil && l.Sign() >= 0
}

// Mk is the byte string arr[off..off+n). Callers guarantee n >= 0.
func (c *TC) Mk(arr, off, n *Term) *Term {
	for depth := 0; depth < 10000; depth++ {
		if n.Op == "int" && n.N.Sign() <= 0 {
			return c.Lit("")
		}
		end := c.Add(off, n)
		if arr.Op == "app" && arr.Name == "arrOf" {
			s := arr.Args[0]
			if off.Op == "int" && off.N.Sign() == 0 && n == c.Len(s) {
				return s
			}
			if ls, ok := c.litOf[s]; ok && off.Op == "int" && n.Op == "int" {
				o, l := off.N.Int64(), n.N.Int64()
				if o >= 0 && l >= 0 && o+l <= int64(len(ls)) {
					return c.Lit(ls[o : o+l])
				}
			}
			// substring of mk
			if s.Op == "app" && s.Name == "mk" && c.nonneg(off) && c.nonneg(c.Sub(s.Args[2], end)) {
				arr, off = s.Args[0], c.Add(s.Args[1], off)
				continue
			}
			// substring of cat
			if s.Op == "app" && s.Name == "cat" {
				la := c.Len(s.Args[0])
				if d := c.Sub(off, la); c.nonneg(d) {
					arr, off = c.ArrOf(s.Args[1]), d
					continue
				}
				if c.nonneg(off) && c.nonneg(c.Sub(la, end)) {
					arr = c.ArrOf(s.Args[0])
					continue
				}
				if c.nonneg(off) && c.nonneg(c.Sub(la, off)) && c.nonneg(c.Sub(end, la)) {
					return c.Cat(c.Mk(c.ArrOf(s.Args[0]), off, c.Sub(la, off)), c.Mk(c.ArrOf(s.Args[1]), c.Int(0), c.Sub(end, la)))
				}
			}
		}
		if arr.Op == "app" && arr.Name == "cpyI" {
			d, lo, s, so, m := arr.Args[0], arr.Args[1], arr.Args[2], arr.Args[3], arr.Args[4]
			if c.nonneg(m) {
				if c.nonneg(c.Sub(lo, end)) || c.nonneg(c.Sub(off, c.Add(lo, m))) {
					arr = d
					continue
				}
				if c.Sub(c.Add(lo, m), end).isZero() {
					L := c.Sub(lo, off)
					if c.nonneg(L) {
						return c.Cat(c.Mk(d, off, L), c.Mk(s, so, m))
					}
				}
				if c.nonneg(c.Sub(off, lo)) && c.nonneg(c.Sub(c.Add(lo, m), end)) {
					arr, off = s, c.Add(so, c.Sub(off, lo))
					continue
				}
				// general: off <= lo <= lo+m <= end
				L, R := c.Sub(lo, off), c.Sub(end, c.Add(lo, m))
				if c.nonneg(L) && c.nonneg(R) {
					return c.Cat(c.Mk(d, off, L), c.Cat(c.Mk(s, so, m), c.Mk(d, c.Add(lo, m), R)))
				}
			}
		}
		if arr.Op == "store" {
			i := arr.Args[1]
			if c.nonneg(c.Sub(i, end)) || c.nonneg(c.Sub(c.Sub(off, i), c.Int(1))) {
				arr = arr.Args[0]
				continue
			}
			L, R := c.Sub(i, off), c.Sub(c.Sub(end, i), c.Int(1))
			if c.nonneg(L) && c.nonneg(R) {
				// recognise a run of 8 big-endian stores
				if v := arr.Args[2]; v.Op == "app" && v.Name == "be" && v.Args[1].Op == "int" && v.Args[1].N.Int64() == 7 {
					a, ok := arr, true
					for j := 7; j >= 0; j-- {
						if a.Op != "store" || a.Args[1] != c.Sub(i, c.Int(int64(7-j))) || a.Args[2] != c.BE(v.Args[0], j) {
							ok = false
							break
						}
						a = a.Args[0]
					}
					if L8 := c.Sub(L, c.Int(7)); ok && c.nonneg(L8) {
						return c.Cat(c.Mk(a, off, L8), c.Cat(c.App("be64", SBytes, v.Args[0]), c.Mk(a, c.Add(i, c.Int(1)), R)))
					}
				}
				return c.Cat(c.Mk(arr.Args[0], off, L), c.Cat(c.Unit(arr.Args[2]), c.Mk(arr.Args[0], c.Add(i, c.Int(1)), R)))
			}
		}
		if arr.Op == "app" && arr.Name == "constarrI" && n.Op == "int" && arr.Args[0].Op == "int" && n.N.Int64() <= 256 {
			return c.Lit(strings.Repeat(string([]byte{byte(arr.Args[0].N.Int64())}), int(n.N.Int64())))
		}
		break
	}
	return c.App("mk", SBytes, arr, off, n)
}

func (t *Term) isZero() bool { return t.Op == "int" && t.N.Sign() == 0 }

// bytesEq simplifies an equality of Bytes; nil if nothing is known.
func (c *TC) bytesEq(a, b *Term) *Term {
	sa, oka := c.litOf[a]
	sb, okb := c.litOf[b]
	if oka && okb {
		return c.Bool(sa == sb)
	}
	la, lb := c.Len(a), c.Len(b)
	if e := c.Sub(la, lb); e.Op != "var" {
		lo, hi := c.bounds(e)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return c.False
		}
	}
	if oka && sa == "" {
		return c.Eq(lb, c.Int(0))
	}
	if okb && sb == "" {
		return c.Eq(la, c.Int(0))
	}
	if a.Op == "app" && b.Op == "app" && a.Name == "cat" && b.Name == "cat" {
		if a.Args[0] == b.Args[0] {
			return c.Eq(a.Args[1], b.Args[1])
		}
		if c.Len(a.Args[0]) == c.Len(b.Args[0]) {
			return c.And(c.Eq(a.Args[0], b.Args[0]), c.Eq(a.Args[1], b.Args[1]))
		}
	}
	if a.Op == "app" && b.Op == "app" && a.Name == "be64" && b.Name == "be64" {
		return c.Eq(a.Args[0], b.Args[0])
	}
	if a.Op == "app" && b.Op == "app" && a.Name == "unit" && b.Name == "unit" {
		return c.Eq(a.Args[0], b.Args[0])
	}
	return nil
}

// ---------- quantifiers ----------

func (c *TC) Quant(op string, vars []*Term, pats [][]*Term, body *Term) *Term {
	if body.IsConst() {
		return body
	}
	used := false
	for _, v := range vars {
		if c.occurs(body, v) {
			used = true
		}
	}
	if !used {
		return body
	}
	c.next++
	t := &Term{Op: op, S: SBool, Args: []*Term{body}, Vars: vars, Pats: pats, id: c.next, hasQ: true}
	// hash-cons by structure of body+vars
	key := fmt.Sprintf("%s/%d/", op, body.id)
	for _, v := range vars {
		key += fmt.Sprintf("%d,", v.id)
	}
	if o, ok := c.tab[key]; ok {
		return o
	}
	fb := c.freeB(t)
	t.hasB = len(fb) > 0
	c.tab[key] = t
	return t
}

func (c *TC) freeB(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "bvar" {
			out[t] = true
		}
		for _, a := range t.Args {
			if a.hasB {
				rec(a)
			}
		}
		if len(t.Vars) > 0 {
			for _, v := range t.Vars {
				delete(out, v)
			}
		}
	}
	rec(t)
	return out
}

func (c *TC) occurs(t, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// autoPats picks triggers: minimal uninterpreted applications whose arguments contain bound vars directly.
func (c *TC) autoPats(vars []*Term, body *Term) [][]*Term {
	isVar := map[*Term]bool{}
	for _, v := range vars {
		isVar[v] = true
	}
	var cands []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.hasB {
			return
		}
		seen[t] = true
		if t.Op == "app" || t.Op == "select" {
			direct := false
			ok := true
			for _, a := range t.Args {
				if isVar[a] {
					direct = true
				} else if a.hasB {
					// allow nested apps only
					if !c.patOK(a, isVar) {
						ok = false
					}
				}
			}
			if direct && ok {
				cands = append(cands, t)
				return
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(body)
	var pats [][]*Term
	covered := func(ts []*Term) bool {
		for _, v := range vars {
			f := false
			for _, t := range ts {
				if c.occurs(t, v) {
					f = true
				}
			}
			if !f {
				return false
			}
		}
		return true
	}
	for _, t := range cands {
		if covered([]*Term{t}) {
			pats = append(pats, []*Term{t})
		}
	}
	if len(pats) == 0 && len(vars) == 2 {
		for i := range cands {
			for j := i + 1; j < len(cands); j++ {
				if covered([]*Term{cands[i], cands[j]}) && len(pats) < 6 {
					pats = append(pats, []*Term{cands[i], cands[j]})
				}
			}
		}
	}
	return pats
}

func (c *TC) patOK(t *Term, isVar map[*Term]bool) bool {
	if !t.hasB {
		return true
	}
	if isVar[t] {
		return true
	}
	if t.Op != "app" && t.Op != "select" {
		return false
	}
	for _, a := range t.Args {
		if !c.patOK(a, isVar) {
			return false
		}
	}
	return true
}

// Subst replaces variables.
func (c *TC) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, args, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *TC) rebuild(t *Term, a []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case "+":
		r := a[0]
		for _, x := range a[1:] {
			r = c.Add(r, x)
		}
		return r
	case "*", "nlmul":
		return c.Mul(a[0], a[1])
	case "div":
		return c.Div(a[0], a[1])
	case "mod":
		return c.Mod(a[0], a[1])
	case "<=0":
		return c.Le(c.Int(0), a[0])
	case "=0":
		return c.Eq(a[0], c.Int(0))
	case "=":
		return c.Eq(a[0], a[1])
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "forall", "exists":
		var ps [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, rec(x))
			}
			ps = append(ps, q)
		}
		return c.Quant(t.Op, t.Vars, ps, a[0])
	case "app":
		switch t.Name {
		case "blen":
			return c.Len(a[0])
		case "bat":
			return c.Bat(a[0], a[1])
		case "mk":
			return c.Mk(a[0], a[1], a[2])
		case "cat":
			return c.Cat(a[0], a[1])
		case "unit":
			return c.Unit(a[0])
		case "be":
			return c.BE(a[0], int(a[1].N.Int64()))
		case "w64":
			return c.W64(a)
		case "cpyI", "cpyB", "cpyZ":
			return c.Cpy(a[0], a[1], a[2], a[3], a[4])
		}
	}
	return c.mk(t.Op, t.Name, t.S, a...)
}

// Show prints a term for humans.
func (c *TC) Show(t *Term) string {
	s := c.show(t, 6)
	return s
}
func (c *TC) show(t *Term, d int) string {
	if s, ok := c.litOf[t]; ok {
		return fmt.Sprintf("%q", s)
	}
	switch t.Op {
	case "int", "var", "bvar":
		return t.Name
	case "true", "false":
		return t.Op
	}
	if d == 0 {
		return "…"
	}
	n := t.Op
	if n == "app" {
		n = t.Name
	}
	var xs []string
	for _, a := range t.Args {
		xs = append(xs, c.show(a, d-1))
	}
	return "(" + n + " " + strings.Join(xs, " ") + ")"
}
