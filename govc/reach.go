package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Which ghost variables can a function change? Ghost state is changed only by functions whose contract says so, so a
// call that is not followed forgets the ghosts of every such function it can reach: static calls, closures it creates,
// interface calls resolved to all methods of the module with that name and signature. Function values supplied by the
// application are assumed not to reach them.

func (v *Verifier) contractGhosts(c *Contract) (r []string) {
	for _, m := range c.Modifies {
		ast.Inspect(m.Expr, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == "G" {
					r = append(r, s.Sel.Name)
				}
			}
			return true
		})
	}
	return
}

func (v *Verifier) methodsNamed(m *types.Func) (r []*ssa.Function) {
	v.reachMu.Lock()
	if v.methIdx == nil {
		v.methIdx = map[string][]*ssa.Function{}
		for _, f := range v.funcs {
			if f.Blocks != nil && f.Pkg != nil && v.inRepo(f.Pkg.Pkg.Path()) && f.Signature.Recv() != nil {
				v.methIdx[f.Name()] = append(v.methIdx[f.Name()], f)
			}
		}
	}
	l := v.methIdx[m.Name()]
	v.reachMu.Unlock()
	sig := m.Type().(*types.Signature)
	for _, f := range l {
		if types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
			r = append(r, f)
		}
	}
	return
}

func (v *Verifier) ghostReach(roots ...*ssa.Function) []string {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	push := func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if c := v.specs.Funcs[v.short(f)]; c != nil {
			for _, g := range v.contractGhosts(c) {
				out[g] = true
			}
			if c.Trusted {
				return
			}
		}
		if f.Blocks != nil && (f.Pkg == nil && f.Parent() != nil || f.Pkg != nil && v.inRepo(f.Pkg.Pkg.Path())) {
			todo = append(todo, f)
		}
	}
	for _, f := range roots {
		push(f)
	}
	for len(todo) > 0 {
		f := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cc.IsInvoke() {
						for _, m := range v.methodsNamed(cc.Method) {
							push(m)
						}
					} else {
						push(cc.StaticCallee())
					}
				}
				ch := func(dir string, c ssa.Value) {
					if _, _, ct := v.chanOp(dir, c); ct != nil {
						for _, g := range v.contractGhosts(ct) {
							out[g] = true
						}
					}
				}
				switch in := in.(type) {
				case *ssa.Send:
					ch("send", in.Chan)
				case *ssa.UnOp:
					if in.Op == token.ARROW {
						ch("recv", in.X)
					}
				case *ssa.Select:
					for _, s := range in.States {
						if s.Dir == types.RecvOnly {
							ch("recv", s.Chan)
						} else {
							ch("send", s.Chan)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						push(g)
					}
				}
			}
		}
	}
	var r []string
	for g := range out {
		r = append(r, g)
	}
	sort.Strings(r)
	return r
}

func (x *Exec) havocGhosts(st *State, gs []string) {
	for _, g := range gs {
		if k := "g:" + g; x.keyLeaf[k].key != "" {
			x.havocKey(st, k)
		}
	}
}

// roVar: every use of the captured variable reads it.
func roVar(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// roPtr: every use of the pointer reads fields of the object it points to.
func roPtr(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !roPtr(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// escapeTask: a closure is handed to another goroutine. What it captures escapes, except variables it only reads and
// objects behind them of which it only reads fields.
func (x *Exec) escapeTask(fn *ssa.Function, bind []Val) {
	for i, b := range bind {
		fv := fn.FreeVars[i]
		if len(b.C) == 2 && b.C[0].op == "alloc" && roVar(fv) {
			if _, esc := x.c.escape[b.C[0].root]; !esc && len(x.holds[b.C[0].root]) > 0 {
				ro := true
				if pt, ok := fv.Type().Underlying().(*types.Pointer); ok {
					if _, ok := pt.Elem().Underlying().(*types.Pointer); !ok {
						ro = false
					}
				}
				for _, r := range *fv.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && !roPtr(u) {
						ro = false
					}
				}
				if !ro {
					x.markEscape(x.holds[b.C[0].root]...)
				}
				continue
			}
		}
		x.markEscape(b)
	}
}
