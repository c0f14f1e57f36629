package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callersOf instantiates "callerof X (name,...)" for every function of the repository that calls X (directly, or through
// functions without a parameter of the named types) and has, for each name, a parameter whose type is called like it.
// A contract of this kind follows code that is written as a closure, whose generated name is not stable.
func (v *Verifier) callersOf(c *Contract) []*Contract {
	goal := strings.TrimPrefix(c.Name, "callerof ")
	calls := map[string][]*ssa.Function{} // callee -> callers
	add := func(n string, f *ssa.Function) {
		for _, g := range calls[n] {
			if g == f {
				return
			}
		}
		calls[n] = append(calls[n], f)
	}
	for _, f := range v.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && g.Parent() != f {
						add(v.short(g), f)
					}
				}
			}
		}
	}
	bind := func(f *ssa.Function) ([]string, bool) {
		ps := make([]string, len(f.Params))
		for i := range ps {
			ps[i] = "_"
		}
		for _, want := range c.Params {
			found := false
			for i, p := range f.Params {
				t := p.Type()
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					t = pt.Elem()
				}
				if nt, ok := t.(*types.Named); ok && ps[i] == "_" && strings.EqualFold(nt.Obj().Name(), want) {
					ps[i], found = want, true
					break
				}
			}
			if !found {
				return nil, false
			}
		}
		return ps, true
	}
	seen := map[*ssa.Function]bool{}
	var out []*Contract
	work := append([]*ssa.Function{}, calls[goal]...)
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		n := v.short(f)
		if _, has := v.specs.Funcs[n]; has {
			continue
		}
		ps, ok := bind(f)
		if !ok {
			work = append(work, calls[n]...)
			continue
		}
		cc := *c
		cc.Name, cc.Params = n, ps
		out = append(out, &cc)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}
