package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	models["sort.Slice"] = mSortSlice
	models["sort.SliceStable"] = mSortSlice
}

// mSortSlice: sorting permutes the elements; nothing else changes when the comparison only reads.
func mSortSlice(x *Exec, st *State, fr *Frame, args []Val, res *types.Tuple, pos token.Pos, cont contFn) bool {
	tag := args[0].C[0]
	if tag.ival == nil {
		return false
	}
	t, ok := x.typeByID[int(tag.ival.Int64())]
	if !ok {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	id, ok := x.closureID(args[1].C[0])
	if !ok || !readsOnly(x.closures[id].fn) {
		return false
	}
	s := x.unbox(st, t, args[0].C[1])
	b, off, n := s.C[0], s.C[1], s.C[2]
	c := x.c
	hi := c.Add(off, n)
	pi := c.Fresh("perm", arrOf(SInt, SInt))
	k0 := c.BoundVar("k", SInt)
	okCells := true
	x.eachCell(sl.Elem(), b, k0, func(l leaf, lb, li *Term) {
		if li != k0 || mentions(lb, k0) {
			okCells = false
		}
	})
	if !okCells {
		return false
	}
	x.eachCell(sl.Elem(), b, k0, func(l leaf, lb, li *Term) {
		x.regLeaf(l)
		h := x.heapSym(st, l.key, l.sort)
		row := c.Select(h, lb)
		nr := c.Fresh("sorted", row.sort)
		st.heap[l.key] = c.Store(h, lb, nr)
		st.writes = &writeNode{key: l.key, base: lb, prev: st.writes}
		k := c.BoundVar("k", SInt)
		in := c.And(c.Le(off, k), c.Lt(k, hi))
		p := c.Select(pi, k)
		x.addFact(st, c.Forall([]*Term{k}, c.And(
			c.Implies(in, c.And(c.Le(off, p), c.Lt(p, hi), c.Eq(c.Select(nr, k), c.Select(row, p)))),
			c.Implies(c.Not(in), c.Eq(c.Select(nr, k), c.Select(row, k)))), c.Select(nr, k)))
	})
	cont(st, fr, nil)
	return true
}

func mentions(t, v *Term) bool {
	if t == v {
		return true
	}
	for _, a := range t.args {
		if mentions(a, v) {
			return true
		}
	}
	return false
}

// readsOnly: the function stores nothing and calls nothing.
func readsOnly(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, ssa.CallInstruction:
				return false
			}
		}
	}
	return true
}
