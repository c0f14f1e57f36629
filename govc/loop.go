package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// loopsOf finds the natural loops of fn, keyed by header.
func (v *Verifier) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	v.mu.Lock()
	defer v.mu.Unlock()
	if l, ok := v.loops[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			li := res[h]
			if li == nil {
				li = &loopInfo{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				res[h] = li
			}
			var stack []*ssa.BasicBlock
			if !li.blocks[b] {
				li.blocks[b] = true
				stack = append(stack, b)
			}
			for len(stack) > 0 {
				n := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				for _, p := range n.Preds {
					if !li.blocks[p] {
						li.blocks[p] = true
						stack = append(stack, p)
					}
				}
			}
		}
	}
	v.loops[fn] = res
	return res
}

type modEnt struct {
	key  string
	base *Term // nil = whole key
}
type modSet struct {
	whole map[string]bool
	rows  map[string]map[int]*Term
	idx   map[string]map[int]*Term // the one loop-invariant index written in a row (nil: several)
	roots map[string]map[int]*Term // writes inside a known local object: the key is forgotten, the log stays precise
}

func newModSet() *modSet {
	return &modSet{map[string]bool{}, map[string]map[int]*Term{}, map[string]map[int]*Term{}, map[string]map[int]*Term{}}
}
func (m *modSet) addRoot(key string, r *Term) bool {
	if m.whole[key] {
		return false
	}
	if m.roots[key] == nil {
		m.roots[key] = map[int]*Term{}
	}
	if _, ok := m.roots[key][r.id]; ok {
		return false
	}
	m.roots[key][r.id] = r
	return true
}
func (m *modSet) noteIdx(key string, b, i *Term) {
	r := m.idx[key]
	if r == nil {
		r = map[int]*Term{}
		m.idx[key] = r
	}
	if o, ok := r[b.id]; ok && o != i {
		i = nil
	}
	r[b.id] = i
}
func (m *modSet) add(key string, b *Term) bool {
	if m.whole[key] {
		return false
	}
	if b == nil {
		m.whole[key] = true
		delete(m.rows, key)
		delete(m.roots, key)
		return true
	}
	r := m.rows[key]
	if r == nil {
		r = map[int]*Term{}
		m.rows[key] = r
	}
	if _, ok := r[b.id]; ok {
		return false
	}
	r[b.id] = b
	return true
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (x *Exec) heapOf(st *State, key string) *Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	if strings.HasPrefix(key, "m:") {
		s := x.mapSorts[key]
		return x.mapHeap(st, key[2:], s[0], s[1])
	}
	return x.heapSym(st, key, x.keyLeaf[key].sort)
}

// havocMods forgets everything the loop may modify.
func (x *Exec) havocMods(st *State, m *modSet) {
	for _, k := range sortedKeys(m.whole) {
		if strings.HasPrefix(k, "m:") {
			h := x.heapOf(st, k)
			st.heap[k] = x.c.Fresh("H:"+k, h.sort)
			st.writes = &writeNode{key: k, prev: st.writes}
		} else {
			x.havocKey(st, k)
		}
	}
	for _, k := range sortedKeys(m.roots) {
		w := st.writes
		for _, r := range m.roots[k] { // the loop writes to these objects: their contents are forgotten too
			if e, ok := x.c.escape[r.root]; !ok || e > x.c.clock {
				x.c.escape[r.root] = x.c.clock
			}
		}
		x.c.clock++
		x.havocKey(st, k)
		st.writes = w
		for _, id := range sortedInts(m.roots[k]) {
			st.writes = &writeNode{key: k, base: m.roots[k][id], prev: st.writes}
		}
		for _, id := range sortedInts(m.rows[k]) {
			st.writes = &writeNode{key: k, base: m.rows[k][id], prev: st.writes}
		}
	}
	for _, k := range sortedKeys(m.rows) {
		if m.roots[k] != nil {
			continue
		}
		ids := make([]int, 0)
		for id := range m.rows[k] {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			b := m.rows[k][id]
			h := x.heapOf(st, k)
			row := x.c.Fresh("row:"+k, elemSort(h.sort))
			row.wild = true
			st.heap[k] = x.c.Store(h, b, row)
			st.writes = &writeNode{key: k, base: b, idx: m.idx[k][id], prev: st.writes}
		}
	}
}

type cand struct {
	name string
	user bool
	eval func(st *State, fr *Frame, ph []Val, k *Term) (t *Term, ok bool)
}

func (x *Exec) phiList(b *ssa.BasicBlock) []*ssa.Phi {
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
	}
	return ph
}
func (x *Exec) phiVals(st *State, fr *Frame, b, pred *ssa.BasicBlock) []Val {
	k := -1
	for i, p := range b.Preds {
		if p == pred {
			k = i
		}
	}
	var vals []Val
	for _, p := range x.phiList(b) {
		v := x.val(st, fr, p.Edges[k])
		v.T = p.Type()
		vals = append(vals, v)
	}
	return vals
}

type backObs struct {
	st  *State
	fr  *Frame
	phi []Val
}

const maxUnroll = 24

func (x *Exec) enterLoop(st *State, fr *Frame, li *loopInfo, pred *ssa.BasicBlock) {
	c := x.c
	head := li.head
	phis := x.phiList(head)
	init := x.phiVals(st, fr, head, pred)
	c.clock++
	entryClock := c.clock
	x.loopDepth++
	if x.loopDepth > 6 {
		x.fail("loops nested too deeply in %s", fr.fn)
	}

	// generic builds the state at an arbitrary loop-head visit.
	generic := func(mods *modSet, cands []cand) (*State, *Frame, []Val, *Term) {
		s2 := st.clone()
		f2 := fr.fork()
		x.havocMods(s2, mods)
		var ph []Val
		for i, p := range phis {
			v := x.freshVal(s2, p.Type(), "phi."+p.Comment)
			for _, t := range v.C {
				t.wild = true
			}
			_ = i
			f2.env.set(p, v)
			x.setName(f2, p.Comment, p, false)
			ph = append(ph, v)
		}
		k := c.Fresh("iter", SInt)
		c.ranged(k, big.NewInt(0), nil)
		for _, cd := range cands {
			t, ok := cd.eval(s2, f2, ph, k)
			if ok {
				x.assume(s2, t)
			}
		}
		return s2, f2, ph, k
	}
	run := func(s2 *State, f2 *Frame, onBack func(st *State, fr *Frame, ph []Val), dry bool) {
		lc := &loopCtx{loop: li, frame: f2, dry: dry}
		lc.backedge = func(st *State, fr *Frame, p *ssa.BasicBlock) {
			if !sameLocks(st.locks, s2.locks) {
				x.fail("lock state changes across an iteration in %s", fr.fn)
			}
			onBack(st, fr, x.phiVals(st, fr, head, p))
		}
		f2.loops = append(f2.loops, lc)
		x.instrs(s2, f2, head, 0)
	}

	// 1. what does the loop modify?
	mods := newModSet()
	var cmps []cmpRec
	var deltas []map[int]*Term // per backedge: comp index -> delta
	type cellKey struct {
		key string
		id  int
	}
	var cellDeltas []map[cellKey]*Term
	var ph0 []Val
	for round := 0; ; round++ {
		changed := false
		s2, f2, ph, k := generic(mods, nil)
		_ = k
		s2.writes = nil
		ph0 = ph
		cmps = nil
		deltas = nil
		cellDeltas = nil
		h0 := s2
		save := x.cmpLog
		x.cmpLog = &cmps
		x.dry++
		run(s2, f2, func(st *State, fr *Frame, nph []Val) {
			for w := st.writes; w != nil; w = w.prev {
				b := w.base
				if b != nil {
					r := rootOf(b)
					if r.op == "alloc" && r.birth > entryClock {
						continue // allocated in this iteration
					}
					if b.birth > entryClock || b.wild || b.bound {
						if r.op == "alloc" && r.birth <= entryClock && !r.wild {
							if mods.addRoot(w.key, r) {
								changed = true
							}
							continue
						}
						b = nil
					}
				}
				if b != nil {
					i := w.idx
					if i != nil && (i.birth > entryClock || i.wild || i.bound) {
						i = nil
					}
					mods.noteIdx(w.key, b, i)
				}
				if mods.add(w.key, b) {
					changed = true
				}
			}
			d := map[int]*Term{}
			n := 0
			for i := range nph {
				for j := range nph[i].C {
					if nph[i].C[j].sort == SInt {
						d[n] = c.Sub(nph[i].C[j], ph[i].C[j])
					}
					n++
				}
			}
			deltas = append(deltas, d)
			cd := map[cellKey]*Term{}
			for key, rows := range mods.rows {
				if strings.HasPrefix(key, "m:") {
					continue
				}
				for id, b := range rows {
					if b.op != "alloc" && b.op != "fbase" {
						continue
					}
					nv := c.Select(c.Select(x.heapOf(st, key), b), c.Int(0))
					ov := c.Select(c.Select(x.heapOf(h0, key), b), c.Int(0))
					if nv.sort == SInt && key != "p.b" && key != "i.t" && key != "ref" {
						cd[cellKey{key, id}] = c.Sub(nv, ov)
					}
				}
			}
			cellDeltas = append(cellDeltas, cd)
		}, true)
		x.dry--
		x.cmpLog = save
		if !changed || round > 12 {
			if round > 12 {
				x.fail("loop modset did not stabilise in %s", fr.fn)
			}
			break
		}
	}
	if len(deltas) == 0 {
		// the body never comes back: run the first iteration directly
		s2 := st
		f2 := fr.fork()
		for i, p := range phis {
			f2.env.set(p, init[i])
			x.setName(f2, p.Comment, p, false)
		}
		x.loopDepth--
		// a back edge may still be feasible with precise values only if dry run pruned wrongly; it did not.
		lc := &loopCtx{loop: li, frame: f2, backedge: func(*State, *Frame, *ssa.BasicBlock) {}}
		f2.loops = append(f2.loops, lc)
		x.instrs(s2, f2, head, 0)
		return
	}

	// 2. candidates
	var cands []cand
	add := func(name string, user bool, f func(st *State, fr *Frame, ph []Val, k *Term) (*Term, bool)) {
		cands = append(cands, cand{name, user, f})
	}
	n := 0
	for i := range init {
		for j := range init[i].C {
			i, j := i, j
			t0 := init[i].C[j]
			if t0.sort == SInt {
				add("eq0", false, func(st *State, fr *Frame, ph []Val, k *Term) (*Term, bool) { return c.Eq(ph[i].C[j], t0), true })
				dl := deltas[0][n]
				same := dl != nil && (dl.ival != nil || dl.birth <= entryClock && !dl.wild && !dl.bound)
				for _, d := range deltas {
					if same && d[n] != dl {
						same = false
					}
				}
				if same && (dl.ival == nil || dl.ival.Sign() != 0) {
					add("linear", false, func(st *State, fr *Frame, ph []Val, k *Term) (*Term, bool) {
						return c.Eq(ph[i].C[j], c.Add(t0, c.Mul(dl, k))), true
					})
				}
				if isIntType(init[i].T) || j >= 1 {
					add("ge0", false, func(st *State, fr *Frame, ph []Val, k *Term) (*Term, bool) { return c.Le(t0, ph[i].C[j]), true })
					add("le0", false, func(st *State, fr *Frame, ph []Val, k *Term) (*Term, bool) { return c.Le(ph[i].C[j], t0), true })
					if !same {
						add("lek", false, func(st *State, fr *Frame, ph []Val, k *Term) (*Term, bool) {
							return c.Le(ph[i].C[j], c.Add(t0, k)), true
						})
					}
				}
				if t0.op == "alloc" || t0.op == "fbase" || t0.op == "abase" || t0.op == "global" || isPtrLike(init[i].T) {
					add("nonnil", false, func(st *State, fr *Frame, ph []Val, k *Term) (*Term, bool) {
						return c.Not(c.Eq(ph[i].C[j], c.Int(0))), true
					})
				}
			} else {
				add("eq0", false, func(st *State, fr *Frame, ph []Val, k *Term) (*Term, bool) { return c.Eq(ph[i].C[j], t0), true })
			}
			// bounds from comparisons
			p := ph0[i].C[j]
			if p.sort == SInt {
				seen := map[string]bool{}
				for _, cr := range cmps {
					for _, sw := range []bool{false, true} {
						a, b, op := cr.x, cr.y, cr.op
						if sw {
							a, b = b, a
							switch op {
							case token.LSS:
								op = token.GTR
							case token.GTR:
								op = token.LSS
							case token.LEQ:
								op = token.GEQ
							case token.GEQ:
								op = token.LEQ
							}
						}
						if b.birth > entryClock || b.wild {
							continue
						}
						off := c.Sub(a, p)
						if off.birth > entryClock || off.wild || off.bound {
							continue
						}
						bb := b
						for _, adj := range []int64{-1, 0, 1} {
							lim := c.Add(c.Sub(bb, off), c.Int(adj))
							switch op {
							case token.LSS, token.LEQ, token.NEQ, token.EQL:
								key := fmt.Sprintf("u%d", lim.id)
								if !seen[key] {
									seen[key] = true
									add("ub", false, func(st *State, fr *Frame, ph []Val, k *Term) (*Term, bool) { return c.Le(ph[i].C[j], lim), true })
								}
							}
							switch op {
							case token.GTR, token.GEQ, token.NEQ, token.EQL:
								key := fmt.Sprintf("l%d", lim.id)
								if !seen[key] {
									seen[key] = true
									add("lb", false, func(st *State, fr *Frame, ph []Val, k *Term) (*Term, bool) { return c.Le(lim, ph[i].C[j]), true })
								}
							}
						}
					}
				}
			}
			n++
		}
	}
	// cells of modified rows: unchanged value / unchanged nil-ness
	for _, k := range sortedKeys(mods.rows) {
		if strings.HasPrefix(k, "m:") {
			continue
		}
		k := k
		for _, id := range sortedInts(mods.rows[k]) {
			b := mods.rows[k][id]
			if b.op != "alloc" && b.op != "fbase" {
				continue
			}
			t0 := c.Select(c.Select(x.heapOf(st, k), b), c.Int(0))
			if dl := cellDeltas[0][cellKey{k, id}]; dl != nil && dl.birth <= entryClock && !dl.wild && !dl.bound && (dl.ival == nil || dl.ival.Sign() != 0) {
				same := true
				for _, d := range cellDeltas {
					same = same && d[cellKey{k, id}] == dl
				}
				if same {
					add("celllinear", false, func(st *State, fr *Frame, ph []Val, kk *Term) (*Term, bool) {
						return c.Eq(c.Select(c.Select(x.heapOf(st, k), b), c.Int(0)), c.Add(t0, c.Mul(dl, kk))), true
					})
				}
			}
			add("cell", false, func(st *State, fr *Frame, ph []Val, _ *Term) (*Term, bool) {
				return c.Eq(c.Select(c.Select(x.heapOf(st, k), b), c.Int(0)), t0), true
			})
			if t0.sort == SInt && (k == "p.b" || k == "i.t" || k == "ref") {
				add("cellnn", false, func(st *State, fr *Frame, ph []Val, _ *Term) (*Term, bool) {
					return c.Not(c.Eq(c.Select(c.Select(x.heapOf(st, k), b), c.Int(0)), c.Int(0))), true
				})
			}
		}
	}
	// variables that hold the results of the same function on every edge satisfy its postconditions
	byCallee := map[string]map[int]int{}
	calls := map[string]*ssa.Call{}
	for i, p := range phis {
		callee, idx := "", -1
		for _, e := range p.Edges {
			ex, ok := e.(*ssa.Extract)
			if !ok {
				callee = "?"
				break
			}
			call, ok := ex.Tuple.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil {
				callee = "?"
				break
			}
			n := x.V.short(call.Call.StaticCallee())
			if callee != "" && (callee != n || idx != ex.Index) {
				callee = "?"
				break
			}
			callee, idx = n, ex.Index
			if calls[n] == nil || calls[n].Block().Dominates(call.Block()) == false && call.Block().Dominates(calls[n].Block()) {
				calls[n] = call
			}
		}
		if ctr := x.V.specs.Funcs[callee]; ctr != nil && idx < len(ctr.Results) {
			if byCallee[callee] == nil {
				byCallee[callee] = map[int]int{}
			}
			byCallee[callee][idx] = i
		}
	}
	for _, callee := range sortedKeys(byCallee) {
		ctr, m := x.V.specs.Funcs[callee], byCallee[callee]
		for _, en := range ctr.Ensures {
			en := en
			if strings.Contains(en.Src, "old(") {
				continue
			}
			add("callres", false, func(st *State, fr *Frame, ph []Val, k *Term) (t *Term, ok bool) {
				defer func() {
					if r := recover(); r != nil {
						t, ok = nil, false
					}
				}()
				names := map[string]Val{}
				// any binding may be tried: the candidate is checked. Arguments are those of the call before the loop,
				// an error that is not carried around the loop is nil.
				for i, a := range calls[callee].Call.Args {
					if i < len(ctr.Params) && ctr.Params[i] != "_" && strings.Contains(en.Src, ctr.Params[i]) {
						func() {
							defer func() { recover() }()
							names[ctr.Params[i]] = x.val(st, fr, a)
						}()
					}
				}
				if n := len(ctr.Results); n > 0 {
					if _, ok := m[n-1]; !ok && types.Identical(calls[callee].Call.Signature().Results().At(n-1).Type(), errT) {
						names[ctr.Results[n-1]] = x.zero(errT)
					}
				}
				for idx, i := range m {
					names[ctr.Results[idx]] = ph[i]
				}
				e := &specEnv{x: x, names: names, st: st, old: st, pkg: ctr.Pkg}
				return e.bool(en.Expr), true
			})
		}
	}
	// user invariants and preconditions
	if x.ctr != nil {
		for idx, inv := range x.ctr.Invariants {
			inv := inv
			type getI func(ph []Val) *Term
			type getS func(st *State, fr *Frame, ph []Val) *Val
			is := []getI{func([]Val) *Term { return nil }}
			if strings.Contains(inv.Src, "$i") {
				is = nil
				for i := range init {
					if !isIntType(init[i].T) {
						continue
					}
					for _, adj := range []int64{0, 1} {
						i, adj := i, adj
						is = append(is, func(ph []Val) *Term { return c.Add(ph[i].C[0], c.Int(adj)) })
					}
				}
			}
			ss := []getS{func(*State, *Frame, []Val) *Val { return nil }}
			if strings.Contains(inv.Src, "$s") || strings.Contains(inv.Src, "$c") {
				ss = nil
				for _, g := range x.sliceSources(fr, li, init, strings.Contains(inv.Src, "$c")) {
					ss = append(ss, g)
				}
			}
			tt := []getS{func(*State, *Frame, []Val) *Val { return nil }}
			if strings.Contains(inv.Src, "$t") {
				tt = nil
				for _, g := range x.sliceSources(fr, li, init, strings.Contains(inv.Src, "$c")) {
					tt = append(tt, func(st *State, fr *Frame, ph []Val) *Val {
						v := g(st, fr, ph)
						if v == nil {
							return nil
						}
						// $t is a vector of int32 (array dimensions)
						if b, ok := v.T.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Int32 {
							return nil
						}
						return v
					})
				}
			}
			for ii, gi := range is {
				for si, gs := range ss {
					for ti, gt := range tt {
						if len(tt) > 1 && len(ss) == len(tt) && ti == si {
							continue // $s and $t name different slices
						}
						nm := fmt.Sprintf("user%d", idx)
						if len(is) > 1 || len(ss) > 1 || len(tt) > 1 {
							nm += fmt.Sprintf(".%d.%d.%d", ii, si, ti)
						}
						add(nm, true, func(st *State, fr *Frame, ph []Val, k *Term) (*Term, bool) {
							return x.evalInv(inv, st, fr, k, gi(ph), gs(st, fr, ph), gt(st, fr, ph))
						})
					}
				}
			}
		}
		for idx, r := range x.ctr.Requires {
			r := r
			add(fmt.Sprintf("req%d", idx), false, func(st *State, fr *Frame, ph []Val, k *Term) (*Term, bool) {
				return x.evalInv(r, st, fr, k, nil, nil, nil)
			})
		}
	}
	// 3. Houdini: entry
	k0 := c.Int(0)
	var live []cand
	x.dry++
	entryRes := map[*Term]bool{}
	for _, cd := range cands {
		t, ok := cd.eval(st, fr, init, k0)
		if !ok {
			continue
		}
		t = x.simp(st, t)
		if r, seen := entryRes[t]; seen {
			if r {
				live = append(live, cd)
			}
			continue
		}
		if t == c.True {
			live = append(live, cd)
			continue
		}
		if t == c.False {
			if dbgInv {
				fmt.Printf("INV %s %s: %s false at entry\n", x.V.short(fr.fn), head, cd.name)
			}
			continue
		}
		r, _, _ := x.V.sol.Prove(c, st.pcs(), t, x.invTimeout(), true)
		entryRes[t] = r == Unsat
		if r == Unsat {
			live = append(live, cd)
		} else if dbgInv {
			fmt.Printf("INV %s %s: %s not established: %s\n", x.V.short(fr.fn), head, cd.name, c.Str(t))
		}
	}
	for {
		s2, f2, _, k := generic(mods, live)
		drop := map[int]bool{}
		run(s2, f2, func(st *State, fr *Frame, nph []Val) {
			k1 := c.Add(k, c.Int(1))
			var idx []int
			var ts []*Term
			for i, cd := range live {
				if drop[i] {
					continue
				}
				t, ok := cd.eval(st, fr, nph, k1)
				if !ok {
					drop[i] = true
					continue
				}
				t = x.simp(st, t)
				if t == c.True {
					continue
				}
				if t == c.False {
					drop[i] = true
					if dbgInv {
						fmt.Printf("INV %s %s: %s false at back edge\n", x.V.short(fr.fn), head, cd.name)
					}
					continue
				}
				idx = append(idx, i)
				ts = append(ts, t)
			}
			if len(ts) == 0 {
				return
			}
			if len(ts) > 1 {
				if r, _, _ := x.V.sol.Prove(c, st.pcs(), c.And(ts...), x.invTimeout(), true); r == Unsat {
					return
				}
			}
			for j, t := range ts {
				if r, _, _ := x.V.sol.Prove(c, st.pcs(), t, x.invTimeout(), true); r != Unsat {
					drop[idx[j]] = true
					if dbgInv {
						fmt.Printf("INV %s %s: %s not preserved: %s\n", x.V.short(fr.fn), head, live[idx[j]].name, c.Str(t))
					}
				}
			}
		}, true)
		if len(drop) == 0 {
			break
		}
		var nl []cand
		for i, cd := range live {
			if !drop[i] {
				nl = append(nl, cd)
			}
		}
		live = nl
	}
	x.dry--
	x.loopDepth--
	// 4. the real thing
	s3, f3, _, _ := generic(mods, live)
	if x.dry == 0 {
		for _, cd := range live {
			if cd.user {
				x.obs = append(x.obs, &Obligation{Name: x.V.short(x.target) + "#invariant#" + cd.name, Fn: x.V.short(x.target), Kind: "invariant", Label: cd.name, Pos: x.posStr(head.Instrs[0].Pos()), Result: Unsat, Solver: "z3-4.8.12"})
			}
		}
		x.loopsSeen++
	}
	run(s3, f3, func(*State, *Frame, []Val) { x.paths++ }, false)
}

// sliceSources lists the slice-valued locals visible at the loop head (registers defined before the
// loop, parameters, address-taken locals and the loop's own slice variables).
// sliceSources lists the slices in scope at a loop head; cells restricts them to address-taken locals.
func (x *Exec) sliceSources(fr *Frame, li *loopInfo, init []Val, cells bool) []func(st *State, fr *Frame, ph []Val) *Val {
	isSl := func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
	var out []func(st *State, fr *Frame, ph []Val) *Val
	for i := range init {
		if isSl(init[i].T) && !cells {
			i := i
			out = append(out, func(st *State, fr *Frame, ph []Val) *Val { return &ph[i] })
		}
	}
	seen := map[ssa.Value]bool{}
	reg := func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if isSl(v.Type()) {
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if _, ok := u.X.(*ssa.Alloc); ok {
					return // the cell itself is a source
				}
			}
			if _, ok := fr.env.get(v); ok && !cells {
				out = append(out, func(st *State, fr *Frame, ph []Val) *Val {
					r, ok := fr.env.get(v)
					if !ok {
						return nil
					}
					return &r
				})
			}
			return
		}
		if a, ok := v.(*ssa.Alloc); ok {
			et := a.Type().Underlying().(*types.Pointer).Elem()
			if isSl(et) {
				if _, ok := fr.env.get(v); ok {
					out = append(out, func(st *State, fr *Frame, ph []Val) *Val {
						p, ok := fr.env.get(v)
						if !ok {
							return nil
						}
						r := x.load(st, et, p.C[0], p.C[1])
						return &r
					})
				}
			}
		}
	}
	for _, p := range fr.fn.Params {
		reg(p)
	}
	for _, b := range fr.fn.Blocks {
		if b == li.head || !b.Dominates(li.head) {
			continue
		}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v)
			}
		}
	}
	return out
}

func sortedInts[T any](m map[int]T) []int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	_, ok = basicInt(b.Kind())
	return ok
}
func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Interface, *types.Slice:
		return true
	}
	return false
}
func sameLocks(a, b map[string]int) bool {
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	for k, v := range b {
		if a[k] != v {
			return false
		}
	}
	return true
}

func (x *Exec) invTimeout() int {
	if x.ctr != nil && x.ctr.InvTimeout > 0 {
		return x.ctr.InvTimeout
	}
	return x.V.invTimeout
}
