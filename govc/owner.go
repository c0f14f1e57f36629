package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ownerDecl: a frame condition over the whole program. Only the listed functions (and helpers reachable only
// from them) may write the field or global; every other function may read it, or initialise it in an object it
// has just allocated.
type ownerDecl struct {
	loc string
	by  []string
}

func (v *Verifier) repoFuncs() []*ssa.Function {
	var fs []*ssa.Function
	for _, f := range v.funcs {
		if f.Blocks != nil && f.Pkg != nil && v.inRepo(f.Pkg.Pkg.Path()) {
			fs = append(fs, f)
			fs = append(fs, anons(f)...)
		}
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, f := range fs {
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
func anons(f *ssa.Function) (r []*ssa.Function) {
	for _, a := range f.AnonFuncs {
		r = append(r, a)
		r = append(r, anons(a)...)
	}
	return
}

func isFresh(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return isFresh(v.X)
	}
	return false
}

// CheckOwners returns one report per declaration.
func (v *Verifier) CheckOwners(owners []ownerDecl) []*FnReport {
	var reps []*FnReport
	for _, f := range v.chanFieldUses() {
		rep := &FnReport{Name: "channel field"}
		rep.Obs = append(rep.Obs, &Obligation{Name: "channelfield#" + f, Fn: f, Kind: "ownership", Result: Sat, Solver: "syntactic", Cex: []string{"a channel under contract is used other than by send, receive, len or cap"}})
		reps = append(reps, rep)
	}
	if len(owners) == 0 {
		return reps
	}
	fns := v.repoFuncs()
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var static *ssa.Function
				if ci, ok := in.(ssa.CallInstruction); ok {
					static = ci.Common().StaticCallee()
					if static != nil {
						if callers[static] == nil {
							callers[static] = map[*ssa.Function]bool{}
						}
						callers[static][f] = true
					}
				}
				for i, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !(i == 0 && static == g) {
						taken[g] = true
					}
				}
			}
		}
	}
	for _, o := range owners {
		rep := &FnReport{Name: "owner " + o.loc}
		allowed := map[string]bool{}
		for _, n := range o.by {
			allowed[n] = true
		}
		var ok func(f *ssa.Function, depth int) bool
		ok = func(f *ssa.Function, depth int) bool {
			if allowed[v.short(f)] {
				return true
			}
			if f.Parent() != nil {
				return ok(f.Parent(), depth+1)
			}
			if depth > 6 || taken[f] || len(callers[f]) == 0 || token.IsExported(f.Name()) && !allowed["exported"] {
				return false
			}
			for c := range callers[f] {
				if !ok(c, depth+1) {
					return false
				}
			}
			return true
		}
		found := false
		bad := func(f *ssa.Function, pos token.Pos, what string) {
			rep.Obs = append(rep.Obs, &Obligation{Name: "owner " + o.loc + "#" + v.short(f), Fn: v.short(f), Kind: "ownership", Pos: v.prog.Fset.Position(pos).String(), Result: Sat, Solver: "syntactic", Cex: []string{what}})
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var refs []ssa.Instruction
					var addr ssa.Value
					if sto, isSto := in.(*ssa.Store); isSto {
						if n, isN := sto.Val.Type().(*types.Named); isN && strings.HasPrefix(o.loc, v.shortType(n)+".") && !isFresh(sto.Addr) && !ok(f, 0) {
							bad(f, sto.Pos(), fmt.Sprintf("%s may be overwritten here with the whole structure", o.loc))
						}
					}
					switch in := in.(type) {
					case *ssa.FieldAddr:
						st := in.X.Type().Underlying().(*types.Pointer).Elem()
						n, isN := st.(*types.Named)
						if !isN || v.shortType(n)+"."+n.Underlying().(*types.Struct).Field(in.Field).Name() != o.loc {
							continue
						}
						found = true
						if isFresh(in.X) {
							continue
						}
						addr = in
						refs = *in.Referrers()
					default:
						for _, op := range in.Operands(nil) {
							if g, isG := (*op).(*ssa.Global); isG && v.globName(g) == o.loc {
								found = true
								addr = g
								refs = []ssa.Instruction{in}
							}
						}
						if addr == nil || f.Name() == "init" {
							continue
						}
					}
					for _, r := range refs {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
							continue
						case ssa.CallInstruction:
							if c := r.Common().StaticCallee(); c != nil && (strings.HasPrefix(c.String(), "sync/atomic.Load") || allowed[v.short(c)]) {
								continue
							}
						}
						if ok(f, 0) {
							continue
						}
						bad(f, r.Pos(), fmt.Sprintf("%s may be modified here", o.loc))
					}
				}
			}
		}
		if !found {
			rep.Err = "the declared location does not exist or is never used: " + o.loc
		} else if len(rep.Obs) == 0 {
			rep.Obs = append(rep.Obs, &Obligation{Name: "owner " + o.loc, Fn: o.loc, Kind: "ownership", Result: Unsat, Solver: "syntactic"})
		}
		reps = append(reps, rep)
	}
	return reps
}
