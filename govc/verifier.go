package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Harness is a contract function under proof, or a lemma/definition usable as an axiom.
type Harness struct {
	Name    string // display name
	Fn      *ssa.Function
	Pkg     string // import path
	Props   []string
	Uses    []string
	Shape   string   // makes concrete inputs more likely to be valid (concrete runs only)
	Proves  []string // redirected functions whose specification this harness justifies
	Inline  []string // functions executed by body although a specification exists
	Def     bool     // definition of an opaque function
	Lemma   bool
	Bounded bool   // only executed concretely
	Axiom   string // assumed fact about a library (executed concretely, not proved)
	Finding bool   // demonstrates a recorded defect (concrete)
	Paths   int
	File    string
	Timeout int
}

// Verifier holds the loaded program and specifications.
type Verifier struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	specs     map[string]*ssa.Function
	specFns   map[*ssa.Function]string
	opaque    map[*ssa.Function]bool
	errMsg    map[int64]string
	initPhase bool
	inited    map[*ssa.Package]bool
	maxPaths  int
	loopTab   *sync.Map
	hs        map[string]*Harness
	order     []string
	mutable   map[*ssa.Global]bool
	stubPkgs  map[string]bool
	overlay   map[string][]byte
	overFiles map[string]string // target path -> source path
	stubDir   string
	modfile   string
	repo      string
	verif     string
	dropped   []string
	byPkg     map[string][]string
}

func (V *Verifier) loops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := V.loopTab.Load(fn); ok {
		return l.(map[*ssa.BasicBlock]*loopInfo)
	}
	l := findLoops(fn)
	V.loopTab.Store(fn, l)
	return l
}

func (V *Verifier) varMemo(x *Exec, t *Term) ([]*Term, bool) {
	v, ok := x.varMemo[t]
	return v, ok
}

// inlineOK: functions whose bodies are executed symbolically.
func (V *Verifier) inlineOK(fn *ssa.Function) bool {
	p := fn.Pkg.Pkg.Path()
	return strings.HasPrefix(p, strings.TrimSuffix(modPath, "/")) || inlineLib[p]
}

var inlineLib = map[string]bool{
	"encoding/binary":                  true,
	"github.com/zhiqiangxu/util/bytes": true,
	"sort":                             true,
}

type loadErr struct{ msgs []string }

func (e *loadErr) Error() string { return strings.Join(e.msgs, "\n") }

// loadProgram loads the repository with the specification overlay.
func loadProgram(repo, verif string, only func(pkg string) bool) (*Verifier, error) {
	V := &Verifier{pkgs: map[string]*ssa.Package{}, specs: map[string]*ssa.Function{}, specFns: map[*ssa.Function]string{}, opaque: map[*ssa.Function]bool{}, errMsg: map[int64]string{}, inited: map[*ssa.Package]bool{}, maxPaths: 20000, loopTab: &sync.Map{}, hs: map[string]*Harness{}, mutable: map[*ssa.Global]bool{}, stubPkgs: map[string]bool{}, repo: repo, verif: verif, byPkg: map[string][]string{}}
	V.overFiles = map[string]string{}
	filepath.Walk(filepath.Join(verif, "gvc"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			V.overFiles[filepath.Join(repo, "zzgvc", filepath.Base(p))] = p
		}
		return nil
	})
	filepath.Walk(filepath.Join(verif, "kvm"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			V.overFiles[filepath.Join(repo, "zzkvm", filepath.Base(p))] = p
		}
		return nil
	})
	stubPkgs, err := V.loadStubs()
	if err != nil {
		return nil, err
	}
	pats := map[string]bool{}
	filepath.Walk(filepath.Join(verif, "specs"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(filepath.Join(verif, "specs"), p)
			d := filepath.Dir(rel)
			if only != nil && !only(d) {
				return nil
			}
			V.overFiles[filepath.Join(repo, rel)] = p
			pats["./"+d] = true
		}
		return nil
	})
	for {
		V.overlay = map[string][]byte{}
		for t, s := range V.overFiles {
			b, err := os.ReadFile(s)
			if err != nil {
				return nil, err
			}
			V.overlay[t] = b
		}
		cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule, Dir: repo, Overlay: V.overlay}
		if V.modfile != "" {
			cfg.BuildFlags = []string{"-modfile=" + V.modfile}
		}
		pl := []string{"./...", "encoding/binary", "github.com/zhiqiangxu/util/bytes", "sort"}
		pl = append(pl, stubPkgs...)
		ps, err := packages.Load(cfg, pl...)
		if err != nil {
			return nil, err
		}
		bad := map[string]bool{}
		var msgs []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				f := strings.SplitN(e.Pos, ":", 2)[0]
				msgs = append(msgs, e.Error())
				if _, ok := V.overFiles[f]; ok && strings.Contains(filepath.Base(f), "zz_") {
					bad[f] = true
				}
			}
		})
		if len(msgs) > 0 {
			if len(bad) == 0 {
				return nil, &loadErr{msgs}
			}
			for f := range bad {
				V.dropped = append(V.dropped, fmt.Sprintf("specification file %s does not type-check against the current source: %s", strings.TrimPrefix(f, repo+"/"), msgs[0]))
				delete(V.overFiles, f)
			}
			continue
		}
		prog, sp := ssautil.Packages(ps, ssa.GlobalDebug)
		prog.Build()
		V.prog = prog
		for i, p := range sp {
			if p == nil {
				continue
			}
			V.pkgs[ps[i].PkgPath] = p
		}
		for i, p := range ps {
			if sp[i] == nil {
				continue
			}
			for _, f := range p.Syntax {
				fn := prog.Fset.Position(f.Package).Filename
				if _, ok := V.overFiles[fn]; !ok && (V.stubDir == "" || !strings.HasPrefix(fn, V.stubDir+"/")) {
					continue
				}
				V.scanFile(f, fn, sp[i], p)
			}
		}
		V.findMutable(sp)
		return V, nil
	}
}

// loadStubs puts the stand-ins of dependencies in place: the files of /verif/stubs/<module path>, together with
// the real files that KEEP lists, replace the module (a copy of go.mod with a replace directive).
func (V *Verifier) loadStubs() ([]string, error) {
	root := filepath.Join(V.verif, "stubs")
	var pkgs, loaded []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && filepath.Base(p) == "KEEP" {
			rel, _ := filepath.Rel(root, filepath.Dir(p))
			pkgs = append(pkgs, rel)
		}
		return nil
	})
	if len(pkgs) == 0 {
		return nil, nil
	}
	cmd := exec.Command(goTool(), append([]string{"list", "-m", "-f", "{{.Path}}\t{{.Dir}}\t{{.GoMod}}\t{{.Version}}"}, pkgs...)...)
	cmd.Dir = V.repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("go list of the stand-in modules: %v\n%s", err, out)
	}
	V.stubDir, err = os.MkdirTemp("", "govc-stubs")
	if err != nil {
		return nil, err
	}
	mod, err := os.ReadFile(filepath.Join(V.repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, _ := os.ReadFile(filepath.Join(V.repo, "go.sum"))
	copyTo := func(from, to string) error {
		b, err := os.ReadFile(from)
		if err == nil {
			err = os.WriteFile(to, b, 0o644)
		}
		return err
	}
	for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
		f := strings.Split(l, "\t")
		if len(f) != 4 {
			continue
		}
		sd, td := filepath.Join(root, f[0]), filepath.Join(V.stubDir, f[0])
		os.MkdirAll(td, 0o755)
		if err := copyTo(f[2], filepath.Join(td, "go.mod")); err != nil {
			return nil, err
		}
		keep, _ := os.ReadFile(filepath.Join(sd, "KEEP"))
		for _, n := range strings.Fields(string(keep)) {
			os.MkdirAll(filepath.Dir(filepath.Join(td, n)), 0o755)
			if err := copyTo(filepath.Join(f[1], n), filepath.Join(td, n)); err != nil {
				return nil, err
			}
		}
		filepath.Walk(sd, func(p string, fi os.FileInfo, err error) error {
			if err == nil && strings.HasSuffix(p, ".go") {
				rel, _ := filepath.Rel(sd, p)
				os.MkdirAll(filepath.Dir(filepath.Join(td, rel)), 0o755)
				copyTo(p, filepath.Join(td, rel))
			}
			return nil
		})
		mod = append(mod, []byte("\nreplace "+f[0]+" => "+td+"\n")...)
		filepath.Walk(td, func(p string, fi os.FileInfo, err error) error {
			if err == nil && strings.HasSuffix(p, ".go") {
				rel, _ := filepath.Rel(V.stubDir, filepath.Dir(p))
				if !inlineLib[rel] {
					inlineLib[rel] = true
					V.stubPkgs[rel] = true
					loaded = append(loaded, rel)
				}
			}
			return nil
		})
	}
	V.modfile = filepath.Join(V.stubDir, "go.mod")
	if err := os.WriteFile(V.modfile, mod, 0o644); err != nil {
		return nil, err
	}
	return loaded, os.WriteFile(filepath.Join(V.stubDir, "go.sum"), sum, 0o644)
}

// cleanup removes what loading left behind.
func (V *Verifier) cleanup() {
	if V.stubDir != "" {
		os.RemoveAll(V.stubDir)
	}
}

func shortPkg(p string) string { return strings.TrimPrefix(p, modPath) }

// scanFile reads directives.
func (V *Verifier) scanFile(f *ast.File, fname string, sp *ssa.Package, p *packages.Package) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil {
			continue
		}
		obj, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
		if obj == nil {
			continue
		}
		fn := V.prog.FuncValue(obj)
		if fn == nil {
			continue
		}
		h := &Harness{Fn: fn, Pkg: p.PkgPath, Name: shortPkg(p.PkgPath) + "." + fd.Name.Name, File: fname}
		is := false
		for _, c := range fd.Doc.List {
			t := strings.TrimPrefix(c.Text, "//")
			if !strings.HasPrefix(t, "gvc:") {
				continue
			}
			fs := strings.Fields(strings.TrimPrefix(t, "gvc:"))
			switch fs[0] {
			case "prove":
				is = true
				h.Props = append(h.Props, fs[1:]...)
			case "bounded":
				is = true
				h.Bounded = true
				h.Props = append(h.Props, fs[1:]...)
			case "finding":
				is = true
				h.Finding = true
				h.Props = append(h.Props, fs[1:]...)
			case "axiom":
				is = true
				h.Axiom = strings.Join(fs[1:], " ")
			case "lemma":
				is = true
				h.Lemma = true
			case "def":
				is = true
				h.Def = true
			case "uses":
				h.Uses = append(h.Uses, fs[1:]...)
			case "proves":
				is = true
				h.Proves = append(h.Proves, fs[1:]...)
			case "inline":
				h.Inline = append(h.Inline, fs[1:]...)
			case "opaque":
				V.opaque[fn] = true
			case "spec":
				full := V.fullName(fs[1], p.PkgPath)
				V.specs[full] = fn
				V.specFns[fn] = full
			case "shape":
				h.Shape = fs[1]
			case "paths":
				h.Paths, _ = strconv.Atoi(fs[1])
			case "timeout":
				h.Timeout, _ = strconv.Atoi(fs[1])
			default:
				panic("unknown directive " + c.Text)
			}
		}
		if is {
			V.hs[h.Name] = h
			V.order = append(V.order, h.Name)
			V.byPkg[h.Pkg] = append(V.byPkg[h.Pkg], fd.Name.Name)
		}
	}
}

// fullName expands a short function name: "kv.Key.Next" style is written as SSA prints it without the module prefix.
func (V *Verifier) fullName(s, pkg string) string {
	if strings.HasPrefix(s, "std:") {
		return s[4:]
	}
	if strings.HasPrefix(s, "(") {
		// (*pkg.T).M or (pkg.T).M
		star := strings.HasPrefix(s, "(*")
		b := strings.TrimPrefix(strings.TrimPrefix(s, "("), "*")
		if !strings.Contains(strings.SplitN(b, ")", 2)[0], ".") {
			b = shortPkg(pkg) + "." + b
		}
		if star {
			return "(*" + modPath + b
		}
		return "(" + modPath + b
	}
	if !strings.Contains(s, ".") {
		return pkg + "." + s
	}
	return modPath + s
}

// resolve finds a harness by short name relative to a package.
func (V *Verifier) resolve(s, pkg string) *Harness {
	if !strings.Contains(s, ".") {
		return V.hs[shortPkg(pkg)+"."+s]
	}
	return V.hs[s]
}

// findMutable lists package variables assigned outside package initialisation.
func (V *Verifier) findMutable(sp []*ssa.Package) {
	for fn := range ssautil.AllFunctions(V.prog) {
		if fn.Pkg == nil || fn.Synthetic == "package initializer" || !strings.HasPrefix(fn.Pkg.Pkg.Path(), strings.TrimSuffix(modPath, "/")) && !V.stubPkgs[fn.Pkg.Pkg.Path()] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						V.mutable[g] = true
					}
				}
			}
		}
	}
}

// HResult is the outcome of one harness.
type HResult struct {
	H       *Harness
	Obls    []*Obligation
	Unsup   string
	Notes   []string
	Used    []string
	Inlined []string
	Paths   int
	Loops   int
	Inv     []string
	Vacuous string
	Wall    time.Duration
	Queries []string
}

type axCtx struct{ trigs [][]*Term }

func (x *Exec) axMode(st *State, kind string, cond *Term) bool {
	if x.ax == nil {
		return false
	}
	key := "ax:" + kind
	l, _ := st.ghost[key].([]*Term)
	st.ghost[key] = append(append([]*Term(nil), l...), cond)
	return true
}

func newExec(V *Verifier, h *Harness) *Exec {
	v2 := *V
	v2.errMsg = map[int64]string{}
	v2.inited = map[*ssa.Package]bool{}
	if h != nil && h.Paths > 0 {
		v2.maxPaths = h.Paths
	}
	x := &Exec{c: newTC(), V: &v2, fs: newFeas(), globals: map[*ssa.Global]int{}, base: map[int]*Object{}, errIDs: map[string]int64{}, H: h, noRedir: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, notes: map[string]bool{}, seenObl: map[string]bool{}, varMemo: map[*Term][]*Term{}}
	return x
}

// axiom turns a lemma or definition function into a universally quantified formula.
func (x *Exec) axiom(h *Harness) *Term {
	c := x.c
	st := &State{base: x.base, heap: map[int]*Object{}, ghost: map[string]Value{}}
	var vars []*Term
	var args []Value
	rng := c.True
	sig := h.Fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		v := x.bvarOf(p.Name(), p.Type(), &vars, &rng)
		args = append(args, v)
	}
	save := x.ax
	x.ax = &axCtx{}
	x.pureD++
	var parts []*Term
	func() {
		defer func() { x.pureD-- }()
		x.callFn(st, h.Fn, args, nil, func(s2 *State, _ Value) {
			cs := []*Term{rng}
			for n := s2.pc; n != nil; n = n.prev {
				if n.branch {
					cs = append(cs, n.t)
				}
			}
			rq, _ := s2.ghost["ax:req"].([]*Term)
			en, _ := s2.ghost["ax:ens"].([]*Term)
			cs = append(cs, rq...)
			parts = append(parts, c.Implies(c.And(cs...), c.And(en...)))
		})
	}()
	trigs := x.ax.trigs
	x.ax = save
	seen := map[string]bool{}
	var ps [][]*Term
	for _, t := range trigs {
		k := ""
		for _, e := range t {
			k += fmt.Sprintf("%d,", e.id)
		}
		if !seen[k] {
			seen[k] = true
			ps = append(ps, t)
		}
	}
	body := c.And(parts...)
	if len(vars) == 0 {
		return body
	}
	return c.Quant("forall", vars, ps, body)
}

func (x *Exec) bvarOf(name string, t types.Type, vars *[]*Term, rng **Term) Value {
	c := x.c
	if isGMap(t) {
		a, b := c.BVar(name+"h", SABZ), c.BVar(name+"v", SABB)
		*vars = append(*vars, a, b)
		return GMap{a, b}
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			v := c.BVar(name, SBytes)
			*vars = append(*vars, v)
			return v
		case b.Info()&types.IsBoolean != 0:
			v := c.BVar(name, SBool)
			*vars = append(*vars, v)
			return v
		case b.Info()&(types.IsInteger|types.IsFloat) != 0:
			v := c.BVar(name, SInt)
			*vars = append(*vars, v)
			if lo, hi, ok := intRange(b); ok && b.Kind() != types.Int {
				*rng = c.And(*rng, c.Le(c.Big(lo), v), c.Le(v, c.Big(hi)))
			} else if b.Info()&types.IsFloat != 0 {
				*rng = c.And(*rng, c.Le(c.Int(0), v), c.Le(v, c.Big(new(big.Int).SetUint64(^uint64(0)))))
			}
			return v
		}
	}
	unsupported("quantification over %s", t)
	return nil
}

// initPkg evaluates the variable initialisers of a repository package.
func (x *Exec) initPkg(p *ssa.Package) {
	if x.V.inited[p] {
		return
	}
	x.V.inited[p] = true
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	st := &State{base: x.base, heap: map[int]*Object{}, ghost: map[string]Value{}}
	q, pd, ax := x.quiet, x.pureD, x.ax
	x.quiet, x.pureD, x.ax = 1, 0, nil
	x.V.initPhase = true
	f := &Frame{fn: init, env: map[ssa.Value]Value{}}
	st.frames = []*Frame{f}
	for _, b := range init.Blocks {
		if b == init.Blocks[0] || len(b.Instrs) == 0 {
			continue
		}
		for _, in := range b.Instrs {
			x.initInstr(st, in)
		}
	}
	x.V.initPhase = false
	x.quiet, x.pureD, x.ax = q, pd, ax
	for id, o := range st.heap {
		x.base[id] = o
	}
}

func (x *Exec) initInstr(st *State, in ssa.Instruction) {
	frames := append([]*Frame(nil), st.frames...)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsup); !ok {
				if _, ok := r.(error); !ok {
					panic(r)
				}
			}
			st.frames = frames
			if s, ok := in.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok {
					if id, ok := x.globals[g]; ok {
						x.base[id] = &Object{kind: okOpaque, typ: g.Type(), name: g.String()}
						delete(st.heap, id)
					}
				}
			}
		}
	}()
	switch n := in.(type) {
	case *ssa.Call:
		if fn, ok := n.Call.Value.(*ssa.Function); ok && fn.Name() == "init" {
			return
		}
		if fn, ok := n.Call.Value.(*ssa.Function); ok && strings.HasPrefix(fn.Name(), "init#") {
			return
		}
		x.doCall(st, n.Common(), func(s *State, v Value) {
			if v != nil {
				s.top().env[n] = v
			}
		})
	case *ssa.Store:
		p, ok := x.val(st, n.Addr).(Ptr)
		if !ok {
			unsupported("init store")
		}
		x.store(st, p, x.val(st, n.Val))
	case *ssa.Jump, *ssa.If, *ssa.Return, *ssa.DebugRef:
	case *ssa.MapUpdate:
		x.mapUpdate(st, n)
	case *ssa.Lookup, *ssa.Next, *ssa.UnOp:
		v := in.(ssa.Value)
		x.evalCPS(st, v, func(s *State, r Value) { s.top().env[v] = r })
	default:
		v, ok := in.(ssa.Value)
		if !ok {
			return
		}
		x.eval(st, v, func(s *State, r Value) { s.top().env[v] = r })
	}
}

// runHarness symbolically executes a harness and returns its obligations with rendered queries.
func (V *Verifier) runHarness(h *Harness, budget time.Duration) (res *HResult) {
	start := time.Now()
	x := newExec(V, h)
	res = &HResult{H: h}
	defer func() { x.fs.close(); res.Wall = time.Since(start) }()
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsup)
			if !ok {
				panic(r)
			}
			res.Unsup = u.msg
			res.Inlined = keys(x.inlined)
		}
	}()
	for _, s := range h.Proves {
		x.noRedir[x.V.fullName(s, h.Pkg)] = true
	}
	for _, s := range h.Inline {
		x.noRedir[x.V.fullName(s, h.Pkg)] = true
		// an opaque function may be opened
		for fn := range V.opaque {
			if fn.String() == x.V.fullName(s, h.Pkg) {
				if x.openLater == nil {
					x.openLater = map[*ssa.Function]bool{}
				}
				x.openLater[fn] = true
			}
		}
	}
	for _, u := range h.Uses {
		l := V.resolve(u, h.Pkg)
		if l == nil {
			unsupported("unknown lemma %s", u)
		}
		t := x.axiom(l)
		x.axioms = append(x.axioms, t)
	}
	// opened functions stay closed in the lemmas used and in the trigger
	if !callsTrigger(h.Fn) {
		x.openFn = x.openLater
	}
	st := &State{base: x.base, heap: map[int]*Object{}, ghost: map[string]Value{}}
	var args []Value
	sig := h.Fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		args = append(args, x.fresh(st, p.Name(), p.Type()))
	}
	x.callFn(st, h.Fn, args, nil, func(st *State, v Value) {
		for k := range st.ghost {
			if strings.HasPrefix(k, "lock:") {
				st.frames = append(st.frames, &Frame{fn: h.Fn})
				x.oblige(st, "every lock taken is released", x.c.False)
			}
		}
		x.coverPCs = append(x.coverPCs, st.hyps())
	})
	res.Paths = len(x.coverPCs)
	res.Loops = x.loopsCut
	res.Inv = x.invUsed
	res.Notes = keys(x.notes)
	res.Used = keys(x.used)
	res.Inlined = keys(x.inlined)
	res.Obls = x.obls
	// discharge
	if h.Timeout > 0 {
		budget = time.Duration(h.Timeout) * time.Second
	}
	var wg sync.WaitGroup
	memo := map[string][]*Obligation{}
	nt := 0
	for _, o := range x.obls {
		if o.Trivial {
			continue
		}
		nt++
		q := x.c.Query(o.Hyps, x.axioms, o.Goal, false)
		memo[q] = append(memo[q], o)
	}
	for q, os_ := range memo {
		q, os_ := q, os_
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := proveQuery(q, budget)
			r.file = q
			for _, o := range os_ {
				o.Res = r
			}
		}()
	}
	// vacuity
	if len(x.coverPCs) == 0 {
		res.Vacuous = "no path reaches the end of the harness"
	}
	n := len(x.coverPCs)
	var qmu sync.Mutex
	contradictory := func(i int) bool {
		qmu.Lock()
		q := x.c.Query(x.coverPCs[i], x.axioms, x.c.False, false)
		qmu.Unlock()
		r, _ := runSolver(solverList[0], q, 1500*time.Millisecond)
		return r == "unsat"
	}
	// sampled paths first; all of them only when every sampled one is contradictory
	var first, rest []int
	for i := 0; i < n; i++ {
		if i > 0 && n > 12 && i%(n/12+1) != 0 && i != n-1 {
			rest = append(rest, i)
		} else {
			first = append(first, i)
		}
	}
	someLive := func(idx []int) bool {
		var mu sync.Mutex
		var wg sync.WaitGroup
		live := false
		sem := make(chan bool, 8)
		for _, i := range idx {
			i := i
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				mu.Lock()
				l := live
				mu.Unlock()
				if l || contradictory(i) {
					return
				}
				mu.Lock()
				live = true
				mu.Unlock()
			}()
		}
		wg.Wait()
		return live
	}
	if n > 0 && !someLive(first) && !someLive(rest) {
		res.Vacuous = "the assumptions of every path are contradictory"
	}
	wg.Wait()
	if nt == 0 && len(x.obls) == 0 {
		res.Vacuous = "no obligation generated"
	}
	return
}

func callsTrigger(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.Name() == "Trigger" && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/zzgvc") {
					return true
				}
			}
		}
	}
	return false
}

func keys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// proveInv decides an invariant obligation quickly.
func proveInv(q string) bool {
	type ans struct{ ok bool }
	ch := make(chan bool, len(solverList))
	for _, s := range solverList {
		s := s
		go func() {
			r, _ := runSolver(s, q, scaled(6*time.Second))
			ch <- r == "unsat"
		}()
	}
	for range solverList {
		if <-ch {
			return true
		}
	}
	return false
}

// closure lists the harnesses a property needs: its own, the justification of every lemma and redirect.
func (V *Verifier) closure(prop string) []*Harness {
	seen := map[string]bool{}
	var out []*Harness
	var add func(h *Harness)
	add = func(h *Harness) {
		if h == nil || seen[h.Name] {
			return
		}
		seen[h.Name] = true
		out = append(out, h)
		for _, u := range h.Uses {
			add(V.resolve(u, h.Pkg))
		}
	}
	for _, n := range V.order {
		h := V.hs[n]
		for _, p := range h.Props {
			if p == prop {
				add(h)
			}
		}
	}
	return out
}

func (V *Verifier) provers(full string) []*Harness {
	var out []*Harness
	for _, n := range V.order {
		h := V.hs[n]
		for _, s := range h.Proves {
			if V.fullName(s, h.Pkg) == full {
				out = append(out, h)
			}
		}
	}
	return out
}

func dumpJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func shaHex(s string) string {
	h := sha256.Sum256([]byte(s))
	return fmt.Sprintf("%x", h[:6])
}
