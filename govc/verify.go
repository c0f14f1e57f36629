package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Verifier struct {
	reachMu sync.Mutex
	methIdx  map[string][]*ssa.Function
	prog       *ssa.Program
	repo       string
	mod        string
	sol        *Solvers
	specs      *Specs
	maxSteps   int
	invTimeout int
	obTimeout  int
	mu         *sync.Mutex
	loops      map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	byName     map[string]*ssa.Package
	funcs      map[string]*ssa.Function
	dirty      map[*ssa.Global]bool
	inits      map[*ssa.Global]ssa.Value
	deadline   time.Time
	tier       string
}

func LoadProgram(repo string, lemmas []string, specDir string) (*Verifier, error) {
	overlay := map[string][]byte{}
	for i := 0; i+1 < len(lemmas); i += 2 {
		pkg, f := lemmas[i], lemmas[i+1]
		data, err := os.ReadFile(filepath.Join(specDir, f))
		if err != nil {
			return nil, err
		}
		overlay[filepath.Join(repo, pkg, "zz_verif_"+filepath.Base(f))] = data
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")}
	pk, err := packages.Load(cfg, "./ua", "./server", "./client")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if len(errs) < 10 {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	v := &Verifier{prog: prog, repo: repo, mod: "github.com/awcullen/opcua", mu: &sync.Mutex{}, sol: NewSolvers(), maxSteps: 400000, invTimeout: 1500, obTimeout: 20000,
		loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, byName: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, dirty: map[*ssa.Global]bool{}, inits: map[*ssa.Global]ssa.Value{}}
	direct := map[string]bool{}
	for _, p := range pk {
		for _, i := range p.Types.Imports() {
			direct[i.Path()] = true
		}
	}
	for _, p := range prog.AllPackages() {
		n := p.Pkg.Name()
		if o, ok := v.byName[n]; ok && v.inRepo(o.Pkg.Path()) {
			continue
		}
		if o, ok := v.byName[n]; ok && direct[o.Pkg.Path()] && !direct[p.Pkg.Path()] {
			continue
		}
		if o, ok := v.byName[n]; ok && direct[o.Pkg.Path()] == direct[p.Pkg.Path()] && len(o.Pkg.Path()) < len(p.Pkg.Path()) && !v.inRepo(p.Pkg.Path()) {
			continue
		}
		v.byName[n] = p
	}
	for fn := range ssautil.AllFunctions(prog) {
		if v.inRepo(pkgOf(fn)) {
			v.funcs[v.short(fn)] = fn
			v.scanGlobals(fn)
		}
	}
	return v, nil
}

func (v *Verifier) inRepo(path string) bool {
	return path == v.mod || strings.HasPrefix(path, v.mod+"/")
}
func (v *Verifier) scanGlobals(fn *ssa.Function) {
	isInit := fn.Name() == "init" && fn.Synthetic != ""
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				if g, ok := i.Addr.(*ssa.Global); ok {
					if isInit {
						v.inits[g] = i.Val
					} else {
						v.dirty[g] = true
					}
				}
				if g, ok := i.Val.(*ssa.Global); ok {
					v.dirty[g] = true
				}
				continue
			case *ssa.UnOp, *ssa.DebugRef:
				continue
			case *ssa.FieldAddr:
				if g, ok := i.X.(*ssa.Global); ok && !isInit {
					// loads through the field are fine; stores make it dirty
					for _, r := range *i.Referrers() {
						if u, ok := r.(*ssa.UnOp); !ok || u == nil {
							if _, ok := r.(*ssa.DebugRef); !ok {
								v.dirty[g] = true
							}
						}
					}
				}
				continue
			}
			if isInit {
				continue
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok {
					v.dirty[g] = true
				}
			}
		}
	}
}
func (v *Verifier) stableGlobal(g *ssa.Global) bool {
	if g.Pkg == nil {
		return false
	}
	if !v.inRepo(g.Pkg.Pkg.Path()) {
		return true
	}
	return !v.dirty[g]
}
func (v *Verifier) globInit(g *ssa.Global) ssa.Value { return v.inits[g] }
func (v *Verifier) globName(g *ssa.Global) string    { return g.Pkg.Pkg.Name() + "." + g.Name() }
func (v *Verifier) short(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), v.mod+"/", "")
}
func (v *Verifier) shortType(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, nil), v.mod+"/", "")
}
func (v *Verifier) allowPanic(fn *ssa.Function) bool { return false }
func (v *Verifier) pkgByName(n string) *ssa.Package  { return v.byName[n] }
func (v *Verifier) fieldPkg(t types.Type) *types.Package {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}
func (v *Verifier) namedType(s string) types.Type {
	i := strings.LastIndex(s, ".")
	p := v.byName[s[:i]]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(s[i+1:])
	if tn, ok := o.(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}
func (v *Verifier) evalType(pkg string, ex ast.Expr) types.Type {
	switch ex := ex.(type) {
	case *ast.Ident:
		if p := v.byName[pkg]; p != nil {
			if tn, ok := p.Pkg.Scope().Lookup(ex.Name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if tn, ok := types.Universe.Lookup(ex.Name).(*types.TypeName); ok {
			return tn.Type()
		}
	case *ast.SelectorExpr:
		if id, ok := ex.X.(*ast.Ident); ok {
			if p := v.byName[id.Name]; p != nil {
				if tn, ok := p.Pkg.Scope().Lookup(ex.Sel.Name).(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	case *ast.StarExpr:
		if t := v.evalType(pkg, ex.X); t != nil {
			return types.NewPointer(t)
		}
	case *ast.ParenExpr:
		return v.evalType(pkg, ex.X)
	case *ast.ArrayType:
		if t := v.evalType(pkg, ex.Elt); t != nil {
			if ex.Len == nil {
				return types.NewSlice(t)
			}
			var n int64
			fmt.Sscan(types.ExprString(ex.Len), &n)
			return types.NewArray(t, n)
		}
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	}
	return nil
}

var inlineDeps = map[string]bool{"encoding/binary": true, "github.com/google/uuid": false}

func (v *Verifier) inlinable(fn *ssa.Function) bool {
	n := v.short(fn)
	if v.specs.NoInline[n] {
		return false
	}
	if v.specs.Inline[n] {
		return true
	}
	p := pkgOf(fn)
	if v.inRepo(p) || inlineDeps[p] || v.specs.Inline[p] {
		return true
	}
	if fn.Parent() != nil {
		return v.inlinable(fn.Parent())
	}
	return false
}

// ---- verifying one function ----
type FnReport struct {
	Name     string
	Contract *Contract
	Obs      []*Obligation
	Err      string
	Paths    int
	Returns  int
	Loops    int
	Inlined  []string
	Used     []string
	Havocs   []string
	Wall     time.Duration
	Ensures  int
}

func (v *Verifier) newExec(prop string) *Exec {
	cx := NewCtx()
	cx.frozen = map[string]bool{}
	for _, f := range v.specs.Frozen {
		cx.frozen[f] = true
	}
	x := &Exec{c: cx, V: v, layouts: map[types.Type][]leaf{}, prop: prop, typeIDs: map[string]int{}, typeByID: map[int]types.Type{}, inlined: map[string]bool{}, used: map[string]bool{}, havocs: map[string]bool{}, globals: map[*ssa.Global]Val{}, obIndex: map[string]int{}, covers: map[string]bool{}, fnIDs: map[*ssa.Function]int{},
		keyLeaf: map[string]leaf{}, escSeen: map[int]bool{}, holds: map[int][]Val{}, allocType: map[int]types.Type{}, mapSorts: map[string][2]Sort{}, globSeen: map[*ssa.Global]Val{}, atSeen: map[*atCall]bool{}}
	return x
}

func (v *Verifier) Verify(ctr *Contract, prop string) (rep *FnReport) {
	t0 := time.Now()
	rep = &FnReport{Name: ctr.Name, Contract: ctr}
	defer func() { rep.Wall = time.Since(t0) }()
	fn := v.funcs[ctr.Name]
	if fn == nil || fn.Blocks == nil {
		rep.Err = "contract target not found in the source: " + ctr.Name
		return
	}
	x := v.newExec(prop)
	x.target, x.ctr, x.safe = fn, ctr, ctr.Safe
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				rep.Err = a.msg
			} else if s, ok := r.(specErr); ok {
				rep.Err = s.msg
			} else {
				rep.Err = fmt.Sprintf("internal: %v\n%s", r, debug.Stack())
			}
		}
		rep.Obs = x.obs
		rep.Paths, rep.Returns, rep.Loops = x.paths, x.returns, x.loopsSeen
		rep.Inlined, rep.Used, rep.Havocs = sortedKeys(x.inlined), sortedKeys(x.used), sortedKeys(x.havocs)
	}()
	st := &State{heap: map[string]*Term{}, locks: map[string]int{}}
	fr := &Frame{fn: fn, env: newEnv(nil)}
	var args []Val
	for _, p := range fn.Params {
		var a Val
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && contains(ctr.Owned, p.Name(), ctr.Params, len(args)) {
			el := x.freshVal(st, pt.Elem(), "in."+p.Name())
			for _, t := range el.C {
				t.birth = 1
			}
			b := x.c.Alloc()
			x.allocType[b.root] = pt.Elem()
			x.store(st, pt.Elem(), b, x.c.Int(0), el)
			a = Val{p.Type(), []*Term{b, x.c.Int(0)}}
		} else {
			a = x.freshVal(st, p.Type(), "in."+p.Name())
			for _, t := range a.C {
				t.birth = 1
			}
		}
		fr.env.set(p, a)
		x.setName(fr, p.Name(), p, false)
		args = append(args, a)
	}
	if len(fn.FreeVars) > 0 {
		for _, f := range fn.FreeVars {
			a := x.freshVal(st, f.Type(), "fv."+f.Name())
			x.addFact(st, x.c.Not(x.c.Eq(a.C[0], x.c.Int(0))))
			fr.env.set(f, a)
			x.setName(fr, f.Name(), f, true)
		}
	}
	if len(ctr.Params) > 0 && len(ctr.Params) != len(args) {
		rep.Err = fmt.Sprintf("contract of %s names %d parameters, the function has %d", ctr.Name, len(ctr.Params), len(args))
		return
	}
	// methods with pointer receivers: receiver non-nil is part of the calling convention
	if fn.Signature.Recv() != nil {
		if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			x.addFact(st, x.c.Not(x.c.Eq(args[0].C[0], x.c.Int(0))))
		}
	}
	if os.Getenv("GOVC_OWN") != "" {
		fmt.Println("owned", ctr.Owned, ctr.Params)
	}
	names := x.bindNames(ctr, args)
	x.paramEnv = names
	e := &specEnv{x: x, names: names, st: st, old: st, pkg: ctr.Pkg}
	for _, r := range ctr.Requires {
		if !x.assume(st, x.evalClause(e, r)) {
			rep.Err = "precondition is unsatisfiable: " + r.Src
			return
		}
	}
	for _, r := range ctr.Assumes {
		_ = r
	}
	if !x.feasible(st, x.c.Eq(x.c.Int(0), x.c.Int(0))) || v.sol.check(x.c, st.pcs()) == Unsat {
		rep.Err = "preconditions are contradictory"
		return
	}
	x.entry = st.clone()
	x.entry.writes = nil
	x.c.clock += 2
	covered := map[*Clause]bool{}
	fr.ret = func(st *State, fr *Frame, res []Val) {
		x.returns++
		x.paths++
		pe := &specEnv{x: x, names: names, st: st, old: x.entry, pkg: ctr.Pkg}
		pe = pe.with(nil)
		for i, r := range res {
			pe.names[fmt.Sprintf("result%d", i)] = r
			if i == 0 {
				pe.names["result"] = r
			}
			if i < len(ctr.Results) && ctr.Results[i] != "_" {
				pe.names[ctr.Results[i]] = r
			}
		}
		for _, en := range ctr.Ensures {
			if !tagged(en.Tags, prop) {
				continue
			}
			if call, ok := en.Expr.(*ast.CallExpr); ok && !covered[en] {
				if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "imp" {
					a := x.simp(st, x.evalClause(pe, &Clause{Expr: call.Args[0], Src: en.Src, Line: en.Line}))
					if a != x.c.False && x.feasible(st, a) {
						covered[en] = true
					}
				} else {
					covered[en] = true
				}
			} else {
				covered[en] = true
			}
			g := x.simp(st, x.evalClause(pe, en))
			x.record(st, nil, "ensures", en.Label, fn.Pos(), g)
		}
		for _, cv := range ctr.Covers {
			if covered[cv] {
				continue
			}
			a := x.simp(st, x.evalClause(pe, cv))
			if a != x.c.False && x.feasible(st, a) {
				covered[cv] = true
			}
		}
		if !ctr.ModAll && !ctr.NoFrame {
			x.checkFrame(st, ctr, names)
		}
	}
	x.goBlock(st, fr, fn.Blocks[0], nil)
	if x.returns == 0 && len(ctr.Ensures) > 0 {
		rep.Err = "no path reaches a return: every postcondition would hold vacuously"
		return
	}
	for _, en := range append(append([]*Clause{}, ctr.Ensures...), ctr.Covers...) {
		if tagged(en.Tags, prop) && !covered[en] {
			x.obs = append(x.obs, &Obligation{Name: v.short(fn) + "#cover#" + en.Label, Fn: v.short(fn), Kind: "cover", Label: en.Label, Result: Sat, Solver: "z3-4.8.12", Cex: []string{"no execution satisfies the antecedent / cover condition: " + en.Src}})
		} else if tagged(en.Tags, prop) {
			x.obs = append(x.obs, &Obligation{Name: v.short(fn) + "#cover#" + en.Label, Fn: v.short(fn), Kind: "cover", Label: en.Label, Result: Unsat, Solver: "z3-4.8.12"})
		}
	}
	return
}

func (s *Solvers) check(c *Ctx, fs []*Term) Result {
	sc, _ := c.script(fs)
	r, _ := s.z3("z3", sc, 2000, nil)
	return r
}

// checkFrame: every write outside fresh memory must be allowed by the modifies clause.
func (x *Exec) checkFrame(st *State, ctr *Contract, names map[string]Val) {
	c := x.c
	e := &specEnv{x: x, names: names, st: x.entry, old: x.entry, pkg: ctr.Pkg}
	var locs []modLoc
	for _, m := range ctr.Modifies {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(specErr); ok {
						panic(abort{m.Line + ": " + s.msg})
					}
					panic(r)
				}
			}()
			locs = append(locs, x.modLocs(e, m)...)
		}()
	}
	seen := map[string]bool{}
	for w := st.writes; w != nil; w = w.prev {
		if w.env {
			continue
		}
		id := w.key + "|"
		if w.base != nil {
			id += fmt.Sprint(w.base.id)
		}
		if w.idx != nil {
			id += fmt.Sprintf("|%d", w.idx.id)
		}
		if seen[id] {
			continue
		}
		seen[id] = true
		if w.base != nil {
			if r := rootOf(w.base); r.op == "alloc" {
				continue
			}
		}
		var ok []*Term
		for _, l := range locs {
			if l.key != w.key {
				continue
			}
			if w.base == nil {
				continue
			}
			t := c.Eq(l.base, w.base)
			if l.idx != nil && !x.scalarGhost(l.key) {
				if w.idx == nil {
					continue
				}
				t = c.And(t, c.Eq(l.idx, w.idx))
			}
			ok = append(ok, t)
		}
		// an environment object (ghost of unrelated identity) is not special-cased
		g := x.simp(st, c.Or(ok...))
		if g == c.True {
			continue
		}
		bs := "any object"
		if w.base != nil {
			bs = c.Str(w.base)
		}
		if g == c.False || true {
			x.record(st, nil, "frame", w.key, x.target.Pos(), g)
			if len(x.obs) > 0 {
				x.obs[len(x.obs)-1].Cex = append(x.obs[len(x.obs)-1].Cex, "write to "+w.key+" of "+bs)
			}
		}
	}
}

// Discharge solves all pending obligations in parallel.
func (v *Verifier) Discharge(reps []*FnReport, workers int) {
	ch := make(chan *Obligation)
	var wg sync.WaitGroup
	cache := map[string]*Obligation{}
	var cmu sync.Mutex
	var failed atomic.Int32
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				cmu.Lock()
				prev, ok := cache[o.script]
				cmu.Unlock()
				if ok {
					o.Result, o.Solver, o.Model = prev.Result, prev.Solver, prev.Model
					continue
				}
				to := v.obTimeout
				if time.Now().After(v.deadline) {
					o.Result, o.Solver = Unknown, "none (time budget exhausted)"
					continue
				}
				if failed.Load() >= 3 {
					to = 3000
				}
				o.Result, o.Model, o.Solver = v.sol.solve(nil, o.script, o.vars, to, false)
				if o.Result != Unsat {
					failed.Add(1)
				}
				cmu.Lock()
				cache[o.script] = o
				cmu.Unlock()
			}
		}()
	}
	for _, r := range reps {
		for _, o := range r.Obs {
			if o.script != "" && o.Solver == "" {
				ch <- o
			}
		}
	}
	close(ch)
	wg.Wait()
}

func sortObs(obs []*Obligation) {
	sort.SliceStable(obs, func(i, j int) bool { return obs[i].Name < obs[j].Name })
}

// contains: is parameter number i (by its source name or the contract's name for it) in the list?
func contains(l []string, name string, params []string, i int) bool {
	for _, s := range l {
		if s == name && len(params) == 0 || i < len(params) && s == params[i] {
			return true
		}
	}
	return false
}
