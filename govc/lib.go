package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(x *Exec, st *State, fr *Frame, args []Val, res *types.Tuple, pos token.Pos, cont contFn) bool

var models map[string]model

func rv(t types.Type, ts ...*Term) Val { return Val{t, ts} }

// pureM wraps a side-effect free, non-forking model with one result component.
func pureM(f func(x *Exec, st *State, a []Val) *Term) model {
	return func(x *Exec, st *State, fr *Frame, args []Val, res *types.Tuple, pos token.Pos, cont contFn) bool {
		t := f(x, st, args)
		if t == nil {
			return false
		}
		cont(st, fr, []Val{{res.At(0).Type(), []*Term{t}}})
		return true
	}
}
func nop(x *Exec, st *State, fr *Frame, args []Val, res *types.Tuple, pos token.Pos, cont contFn) bool {
	cont(st, fr, x.freshResults(st, res, "r"))
	return true
}

var errT = types.Universe.Lookup("error").Type()

func (x *Exec) freshErr(st *State, nonNil bool) Val {
	v := x.freshVal(st, errT, "err")
	if nonNil {
		x.addFact(st, x.c.Not(x.c.Eq(v.C[0], x.c.Int(0))))
	}
	return v
}

var e9 = big.NewInt(1000000000)

func init() {
	d := func(x *Exec, t *Term) *Term { // saturate to int64
		lo, hi := intInfo{true, 64}.rng()
		if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
			return t
		}
		r := x.c.Ite(x.c.Lt(t, x.c.Big(lo)), x.c.Big(lo), x.c.Ite(x.c.Lt(x.c.Big(hi), t), x.c.Big(hi), t))
		x.c.ranged(r, lo, hi)
		return r
	}
	i64 := intInfo{true, 64}
	models = map[string]model{
		"(time.Time).Sub":      pureM(func(x *Exec, st *State, a []Val) *Term { return d(x, x.c.Sub(a[0].one(), a[1].one())) }),
		"(time.Time).Add":      pureM(func(x *Exec, st *State, a []Val) *Term { return x.c.Add(a[0].one(), a[1].one()) }),
		"(time.Time).Before":   pureM(func(x *Exec, st *State, a []Val) *Term { return x.c.Lt(a[0].one(), a[1].one()) }),
		"(time.Time).After":    pureM(func(x *Exec, st *State, a []Val) *Term { return x.c.Lt(a[1].one(), a[0].one()) }),
		"(time.Time).Equal":    pureM(func(x *Exec, st *State, a []Val) *Term { return x.c.Eq(a[1].one(), a[0].one()) }),
		"(time.Time).UTC":      pureM(func(x *Exec, st *State, a []Val) *Term { return a[0].one() }),
		"(time.Time).Local":    pureM(func(x *Exec, st *State, a []Val) *Term { return a[0].one() }),
		"(time.Time).IsZero":   pureM(func(x *Exec, st *State, a []Val) *Term { return x.c.Eq(a[0].one(), x.c.Big(zeroTimeNs)) }),
		"(time.Time).Unix":     pureM(func(x *Exec, st *State, a []Val) *Term { return x.wrapII(x.c.Div(a[0].one(), x.c.Big(e9)), i64) }),
		"(time.Time).UnixNano": pureM(func(x *Exec, st *State, a []Val) *Term { return x.wrapII(a[0].one(), i64) }),
		"(time.Time).Nanosecond": pureM(func(x *Exec, st *State, a []Val) *Term {
			return x.c.Mod(a[0].one(), x.c.Big(e9))
		}),
		"time.Unix": pureM(func(x *Exec, st *State, a []Val) *Term {
			return x.c.Add(x.c.Mul(x.c.Big(e9), a[0].one()), a[1].one())
		}),
		"math.Float64bits":     pureM(func(x *Exec, st *State, a []Val) *Term { return x.f64bits(a[0].one()) }),
		"math.Float32bits":     pureM(func(x *Exec, st *State, a []Val) *Term { return x.f32bits(a[0].one()) }),
		"math.Float64frombits": pureM(func(x *Exec, st *State, a []Val) *Term { return x.c.App("f64frombits", SF64, a[0].one()) }),
		"math.Float32frombits": pureM(func(x *Exec, st *State, a []Val) *Term { return x.c.App("f32frombits", SF32, a[0].one()) }),
		"math.IsNaN":           pureM(func(x *Exec, st *State, a []Val) *Term { return x.fpop("fp.isNaN", SBool, a[0].one()) }),
		"math.Abs":             pureM(func(x *Exec, st *State, a []Val) *Term { return x.fpop("fp.abs", SF64, a[0].one()) }),
		"math.IsInf": pureM(func(x *Exec, st *State, a []Val) *Term {
			if a[1].one().ival == nil {
				return nil
			}
			inf := x.fpop("fp.isInfinite", SBool, a[0].one())
			switch a[1].one().ival.Sign() {
			case 0:
				return inf
			case 1:
				return x.c.And(inf, x.fpop("fp.isPositive", SBool, a[0].one()))
			}
			return x.c.And(inf, x.fpop("fp.isNegative", SBool, a[0].one()))
		}),
		"bytes.Equal": pureM(func(x *Exec, st *State, a []Val) *Term {
			row := func(v Val) *Term { return x.c.Select(x.heapSym(st, "uint8", SInt), v.C[0]) }
			return x.c.Eq(x.c.MkStr(row(a[0]), a[0].C[1], a[0].C[2]), x.c.MkStr(row(a[1]), a[1].C[1], a[1].C[2]))
		}),
		"io.ReadFull":             mReadFull,
		"invoke io.Writer.Write":  mWrite,
		"(*sync.Mutex).Lock":      mLock(1),
		"(*sync.Mutex).Unlock":    mLock(-1),
		"(*sync.RWMutex).Lock":    mLock(1),
		"(*sync.RWMutex).Unlock":  mLock(-1),
		"(*sync.RWMutex).RLock":   mLock(2),
		"(*sync.RWMutex).RUnlock": mLock(-2),
		"(*sync.WaitGroup).Add":   nop, "(*sync.WaitGroup).Done": nop, "(*sync.WaitGroup).Wait": nop,
		"sync/atomic.AddUint32": mAtomicAdd, "sync/atomic.AddUint64": mAtomicAdd, "sync/atomic.AddInt32": mAtomicAdd, "sync/atomic.AddInt64": mAtomicAdd,
		"sync/atomic.LoadUint32": mAtomicLoad, "sync/atomic.LoadUint64": mAtomicLoad, "sync/atomic.LoadInt32": mAtomicLoad,
		"sync/atomic.StoreUint32": mAtomicStore, "sync/atomic.StoreUint64": mAtomicStore,
		"sync/atomic.CompareAndSwapUint32": mCAS, "sync/atomic.CompareAndSwapUint64": mCAS,
		"(*github.com/gammazero/workerpool.WorkerPool).Submit": mSubmit,
		"errors.New": mNewErr, "fmt.Errorf": mNewErr,
		"strings.Index": nil,
	}
	for k, v := range models {
		if v == nil {
			delete(models, k)
		}
	}
	models["math.Inf"] = pureM(func(x *Exec, st *State, a []Val) *Term {
		if a[0].one().ival == nil {
			return nil
		}
		if a[0].one().ival.Sign() >= 0 {
			return x.c.mk(&Term{op: "fplit", sort: SF64, name: "(_ +oo 11 53)"})
		}
		return x.c.mk(&Term{op: "fplit", sort: SF64, name: "(_ -oo 11 53)"})
	})
}

func (x *Exec) f64bits(a *Term) *Term {
	t := x.c.App("f64bits", SInt, a)
	x.c.ranged(t, big.NewInt(0), new(big.Int).Sub(pow2(64), big.NewInt(1)))
	x.c.axiom(t, x.c.Eq(x.c.App("f64frombits", SF64, t), a))
	return t
}
func (x *Exec) f32bits(a *Term) *Term {
	t := x.c.App("f32bits", SInt, a)
	x.c.ranged(t, big.NewInt(0), new(big.Int).Sub(pow2(32), big.NewInt(1)))
	x.c.axiom(t, x.c.Eq(x.c.App("f32frombits", SF32, t), a))
	return t
}

func mNewErr(x *Exec, st *State, fr *Frame, args []Val, res *types.Tuple, pos token.Pos, cont contFn) bool {
	cont(st, fr, []Val{x.freshErr(st, true)})
	return true
}

// mSubmit runs a worker task at the point of submission. Tasks of one request are independent of each other
// (each writes only its own result) and are awaited before the response is written.
func mSubmit(x *Exec, st *State, fr *Frame, args []Val, res *types.Tuple, pos token.Pos, cont contFn) bool {
	f := args[1]
	if x.V.specs.Pure["opaquetasks"] || x.target != nil && x.V.specs.Pure["opaquetasks:"+x.V.short(x.target)] {
		if id, ok := x.closureID(f.C[0]); ok {
			cl := x.closures[id]
			x.escapeTask(cl.fn, cl.bind)
			x.c.clock++
			x.havocGhosts(st, x.V.ghostReach(cl.fn))
		} else {
			x.markEscape(f)
		}
		x.havocAll(st, "worker task")
		x.c.clock++
		cont(st, fr, nil)
		return true
	}
	if len(f.C) == 1 {
		if id, ok := x.closureID(f.C[0]); ok {
			cl := x.closures[id]
			x.callFn(st, fr, cl.fn, cl.bind, nil, pos, cont)
			return true
		}
	}
	return false
}

func ptrElem(v Val) types.Type { return v.T.Underlying().(*types.Pointer).Elem() }

func mAtomicAdd(x *Exec, st *State, fr *Frame, args []Val, res *types.Tuple, pos token.Pos, cont contFn) bool {
	if !x.nilCheck(st, fr, args[0].C[0], pos) {
		return true
	}
	t := ptrElem(args[0])
	x.interfere(st, args[0])
	v := x.load(st, t, args[0].C[0], args[0].C[1])
	n := x.wrap(x.c.Add(v.one(), args[1].one()), t)
	x.store(st, t, args[0].C[0], args[0].C[1], Val{t, []*Term{n}})
	x.atomicGhost(st, args[0], v.one(), n)
	cont(st, fr, []Val{{t, []*Term{n}}})
	return true
}

// atomicGhost records an atomic update of a cell: the value it replaced, the new value and the number of updates so far.
func (x *Exec) atomicGhost(st *State, p Val, old, n *Term) {
	if _, ok := x.V.specs.Ghosts["acount"]; !ok {
		return
	}
	obj := objID(p)
	x.ghostSet(st, "aold", obj, old)
	x.ghostSet(st, "anew", obj, n)
	x.ghostSet(st, "acount", obj, x.c.Add(x.ghostGet(st, "acount", obj), x.c.Int(1)))
}

// interfere: other goroutines may have changed an atomically accessed cell.
func (x *Exec) interfere(st *State, p Val) {
	t := ptrElem(p)
	r := rootOf(p.C[0])
	if r.op == "alloc" {
		if _, esc := x.c.escape[r.root]; !esc {
			return
		}
	}
	v := x.freshVal(st, t, "atomic")
	x.store(st, t, p.C[0], p.C[1], v)
}
func mAtomicLoad(x *Exec, st *State, fr *Frame, args []Val, res *types.Tuple, pos token.Pos, cont contFn) bool {
	if !x.nilCheck(st, fr, args[0].C[0], pos) {
		return true
	}
	x.interfere(st, args[0])
	t := ptrElem(args[0])
	cont(st, fr, []Val{x.load(st, t, args[0].C[0], args[0].C[1])})
	return true
}
func mAtomicStore(x *Exec, st *State, fr *Frame, args []Val, res *types.Tuple, pos token.Pos, cont contFn) bool {
	if !x.nilCheck(st, fr, args[0].C[0], pos) {
		return true
	}
	t := ptrElem(args[0])
	x.interfere(st, args[0])
	old := x.load(st, t, args[0].C[0], args[0].C[1])
	x.store(st, t, args[0].C[0], args[0].C[1], args[1])
	x.atomicGhost(st, args[0], old.one(), args[1].one())
	cont(st, fr, nil)
	return true
}
func mCAS(x *Exec, st *State, fr *Frame, args []Val, res *types.Tuple, pos token.Pos, cont contFn) bool {
	if !x.nilCheck(st, fr, args[0].C[0], pos) {
		return true
	}
	t := ptrElem(args[0])
	x.interfere(st, args[0])
	cur := x.load(st, t, args[0].C[0], args[0].C[1]).one()
	eq := x.c.Eq(cur, args[1].one())
	x.fork(st, fr, []*Term{eq, x.c.Not(eq)}, func(k int, st *State, fr *Frame) {
		if k == 0 {
			x.store(st, t, args[0].C[0], args[0].C[1], args[2])
			x.atomicGhost(st, args[0], cur, args[2].one())
		}
		cont(st, fr, []Val{{types.Typ[types.Bool], []*Term{x.c.Bool(k == 0)}}})
	})
	return true
}

// ---- byte streams ----
func mReadFull(x *Exec, st *State, fr *Frame, args []Val, res *types.Tuple, pos token.Pos, cont contFn) bool {
	c := x.c
	r, buf := args[0], args[1]
	if !x.nilCheck(st, fr, r.C[0], pos) {
		return true
	}
	_, tracked := x.V.specs.Ghosts["rdata"]
	n := buf.C[2]
	intT := types.Typ[types.Int]
	l := leaf{"uint8", SInt, big.NewInt(0), big.NewInt(255)}
	x.regLeaf(l)
	obj := objID(r)
	// success
	{
		s2, f2 := st.clone(), fr.fork()
		if tracked {
			p := x.ghostGet(s2, "rpos", obj)
			row := x.ghostRow(s2, "rdata", obj)
			x.fillBytes(s2, buf, row, p, n, true)
			x.ghostSet(s2, "rpos", obj, c.Add(p, n))
		} else {
			x.havocSlice(s2, buf, n)
		}
		cont(s2, f2, []Val{{intT, []*Term{n}}, x.zero(errT)})
	}
	// failure
	{
		s2, f2 := st.clone(), fr.fork()
		x.havocSlice(s2, buf, n)
		if tracked {
			if _, ok := x.V.specs.Ghosts["rlen"]; ok { // an in-memory reader fails only when it runs out of data
				x.addFact(s2, c.Lt(x.ghostGet(s2, "rlen", obj), c.Add(x.ghostGet(s2, "rpos", obj), n)))
			}
			np := c.Fresh("rpos", SInt)
			x.ghostSet(s2, "rpos", obj, np)
		}
		nn := c.Fresh("n", SInt)
		c.ranged(nn, big.NewInt(0), lenMax)
		x.addFact(s2, c.Le(nn, n))
		cont(s2, f2, []Val{{intT, []*Term{nn}}, x.freshErr(s2, true)})
	}
	return true
}

// fillBytes copies row[p..p+n) into the slice buf.
func (x *Exec) fillBytes(st *State, buf Val, row, p, n *Term, ranged bool) {
	c := x.c
	h := x.heapSym(st, "uint8", SInt)
	drow := c.Select(h, buf.C[0])
	sel := func(i *Term) *Term {
		t := c.Select(row, i)
		if ranged && t.op == "select" {
			c.ranged(t, big.NewInt(0), big.NewInt(255))
		}
		return t
	}
	if n.ival != nil && n.ival.Cmp(big.NewInt(32)) <= 0 {
		nr := drow
		for j := int64(0); j < n.ival.Int64(); j++ {
			nr = c.Store(nr, c.Add(buf.C[1], c.Int(j)), sel(c.Add(p, c.Int(j))))
			st.writes = &writeNode{key: "uint8", base: buf.C[0], idx: c.Add(buf.C[1], c.Int(j)), prev: st.writes}
		}
		st.heap["uint8"] = c.Store(h, buf.C[0], nr)
	} else {
		nr := c.Fresh("bytes", arrOf(SInt, SInt))
		j := c.BoundVar("j", SInt)
		o := buf.C[1]
		in := c.And(c.Le(o, j), c.Lt(j, c.Add(o, n)))
		x.addFact(st, c.Forall([]*Term{j}, c.And(c.Implies(in, c.Eq(c.Select(nr, j), c.Select(row, c.Add(p, c.Sub(j, o))))),
			c.Implies(c.Not(in), c.Eq(c.Select(nr, j), c.Select(drow, j)))), c.Select(nr, j)))
		st.heap["uint8"] = c.Store(h, buf.C[0], nr)
		st.writes = &writeNode{key: "uint8", base: buf.C[0], prev: st.writes}
	}
}
func (x *Exec) havocSlice(st *State, buf Val, n *Term) {
	c := x.c
	h := x.heapSym(st, "uint8", SInt)
	if n.ival != nil && n.ival.Cmp(big.NewInt(32)) <= 0 {
		nr := c.Select(h, buf.C[0])
		for j := int64(0); j < n.ival.Int64(); j++ {
			b := c.Fresh("rb", SInt)
			c.ranged(b, big.NewInt(0), big.NewInt(255))
			nr = c.Store(nr, c.Add(buf.C[1], c.Int(j)), b)
			st.writes = &writeNode{key: "uint8", base: buf.C[0], idx: c.Add(buf.C[1], c.Int(j)), prev: st.writes}
		}
		st.heap["uint8"] = c.Store(h, buf.C[0], nr)
	} else {
		st.heap["uint8"] = c.Store(h, buf.C[0], c.Fresh("rbytes", arrOf(SInt, SInt)))
		st.writes = &writeNode{key: "uint8", base: buf.C[0], prev: st.writes}
	}
}

func mWrite(x *Exec, st *State, fr *Frame, args []Val, res *types.Tuple, pos token.Pos, cont contFn) bool {
	c := x.c
	w, buf := args[0], args[1]
	_, tracked := x.V.specs.Ghosts["wdata"]
	intT := types.Typ[types.Int]
	if !tracked {
		x.markEscape(args...)
		cont(st, fr, x.freshResults(st, res, "write"))
		return true
	}
	obj := objID(w)
	n := buf.C[2]
	x.regLeaf(leaf{"uint8", SInt, big.NewInt(0), big.NewInt(255)})
	{
		s2, f2 := st.clone(), fr.fork()
		p := x.ghostGet(s2, "wpos", obj)
		old := x.ghostRow(s2, "wdata", obj)
		src := c.Select(x.heapSym(s2, "uint8", SInt), buf.C[0])
		if n.ival != nil && n.ival.Cmp(big.NewInt(32)) <= 0 {
			row := old
			for j := int64(0); j < n.ival.Int64(); j++ {
				b := c.Select(src, c.Add(buf.C[1], c.Int(j)))
				if b.op == "select" {
					c.ranged(b, big.NewInt(0), big.NewInt(255))
				}
				row = c.Store(row, c.Add(p, c.Int(j)), b)
			}
			x.ghostSetRow(s2, "wdata", obj, row)
		} else {
			row := c.Fresh("wdata", arrOf(SInt, SInt))
			j := c.BoundVar("j", SInt)
			in := c.And(c.Le(p, j), c.Lt(j, c.Add(p, n)))
			x.addFact(s2, c.Forall([]*Term{j}, c.And(c.Implies(in, c.Eq(c.Select(row, j), c.Select(src, c.Add(buf.C[1], c.Sub(j, p))))),
				c.Implies(c.Not(in), c.Eq(c.Select(row, j), c.Select(old, j)))), c.Select(row, j)))
			x.ghostSetRow(s2, "wdata", obj, row)
		}
		x.ghostSet(s2, "wpos", obj, c.Add(p, n))
		cont(s2, f2, []Val{{intT, []*Term{n}}, x.zero(errT)})
	}
	{
		s2, f2 := st.clone(), fr.fork()
		if _, ok := x.V.specs.Ghosts["wfail"]; ok {
			x.ghostSet(s2, "wfail", obj, c.True)
		}
		np := c.Fresh("wpos", SInt)
		x.ghostSet(s2, "wpos", obj, np)
		x.ghostSetRow(s2, "wdata", obj, c.Fresh("wdata", arrOf(SInt, SInt)))
		nn := x.freshVal(s2, intT, "n")
		cont(s2, f2, []Val{nn, x.freshErr(s2, true)})
	}
	return true
}

// ---- locks and monitors ----
func lockKey(v Val) string { return fmt.Sprintf("%d.%d", v.C[0].id, v.C[1].id) }

func mLock(kind int) model {
	return func(x *Exec, st *State, fr *Frame, args []Val, res *types.Tuple, pos token.Pos, cont contFn) bool {
		p := args[0]
		key := lockKey(p)
		nl := map[string]int{}
		for k, v := range st.locks {
			nl[k] = v
		}
		mon := x.monitorOf(p.C[0])
		if kind > 0 {
			nl[key] = kind
			st.locks = nl
			if mon != nil {
				x.monitorEnter(st, mon, p)
			}
		} else {
			if mon != nil {
				if st.locks[key] == 1 && kind == -1 {
					if !x.monitorExit(st, fr, mon, p, pos) {
						return true
					}
				}
			}
			delete(nl, key)
			st.locks = nl
		}
		cont(st, fr, nil)
		return true
	}
}
func (x *Exec) monitorOf(b *Term) *monitorDecl {
	if b.op != "fbase" {
		return nil
	}
	return x.V.specs.Monitors[b.name]
}
func (x *Exec) monSelf(mon *monitorDecl, p Val) Val {
	i := strings.LastIndex(mon.field, ".")
	t := x.V.namedType(mon.field[:i])
	if t == nil {
		x.fail("monitor type %s not found", mon.field)
	}
	return Val{types.NewPointer(t), []*Term{p.C[0].args[0], p.C[1]}}
}
func (x *Exec) monEnv(st *State, mon *monitorDecl, p Val) *specEnv {
	return &specEnv{x: x, names: map[string]Val{mon.self: x.monSelf(mon, p)}, st: st, old: st, pkg: mon.pkg}
}
func (x *Exec) monitorEnter(st *State, mon *monitorDecl, p Val) {
	if r := rootOf(p.C[0]); r.op == "alloc" {
		if _, esc := x.c.escape[r.root]; !esc {
			return
		}
	}
	e := x.monEnv(st, mon, p)
	for _, g := range mon.guards {
		cl := &Clause{Src: g, Line: "monitor " + mon.field}
		ex, err := parseSpec(g)
		if err != nil {
			x.fail("%v", err)
		}
		cl.Expr = ex
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(specErr); ok {
						panic(abort{"monitor " + mon.field + ": " + s.msg})
					}
					panic(r)
				}
			}()
			for _, l := range x.modLocs(e, cl) {
				x.havocLoc(st, l)
				// other threads' changes are not this function's writes
				st.writes = st.writes.prev
				st.writes = &writeNode{key: l.key, base: l.base, idx: l.idx, env: true, prev: st.writes}
			}
		}()
	}
	for _, inv := range mon.invs {
		x.assume(st, x.evalClause(e, inv))
	}
}
func (x *Exec) monitorExit(st *State, fr *Frame, mon *monitorDecl, p Val, pos token.Pos) bool {
	e := x.monEnv(st, mon, p)
	for _, inv := range mon.invs {
		if !tagged(inv.Tags, x.prop) {
			continue
		}
		if !x.oblige(st, fr, "monitor-invariant", inv.Label, pos, x.evalClause(e, inv)) {
			return false
		}
	}
	return true
}

func (x *Exec) accessed(st *State, fr *Frame, t types.Type, f int, p Val, pos token.Pos) {
	if len(x.V.specs.Monitors) == 0 {
		return
	}
	tk := typeKey(t)
	for _, mk := range sortedKeys(x.V.specs.Monitors) {
		mon := x.V.specs.Monitors[mk]
		i := strings.LastIndex(mon.field, ".")
		if mon.field[:i] != tk || !tagged(mon.tags, x.prop) || len(mon.tags) == 0 {
			continue
		}
		fn := t.Underlying().(*types.Struct).Field(f).Name()
		for _, g := range mon.guards {
			if g == mon.self+"."+fn {
				if r := rootOf(p.C[0]); r.op == "alloc" {
					if _, esc := x.c.escape[r.root]; !esc {
						continue
					}
				}
				key := fmt.Sprintf("%d.%d", x.c.FBase(mon.field, p.C[0]).id, p.C[1].id)
				x.oblige(st, fr, "guarded", tk+"."+fn, pos, x.c.Bool(st.locks[key] != 0))
			}
		}
	}
}

// ---- globals ----
// globalConst returns the value of a package variable that is only assigned by its initialiser.
func (x *Exec) globalConst(st *State, g *ssa.Global) (Val, bool) {
	if v, ok := x.globSeen[g]; ok {
		return v, len(v.C) > 0 || v.T != nil
	}
	x.globSeen[g] = Val{}
	if !x.V.stableGlobal(g) {
		return Val{}, false
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if len(x.layout(t)) == 0 {
		return Val{}, false
	}
	if iv := x.V.globInit(g); iv != nil {
		if v, ok := x.evalInit(st, iv); ok {
			v.T = t
			x.globSeen[g] = v
			return v, true
		}
	}
	v := Val{T: t}
	for i, l := range x.layout(t) {
		s := x.c.Var(fmt.Sprintf("glob:%s.%d", x.V.globName(g), i), l.sort)
		s.birth = 1
		if l.sort == SInt {
			x.c.ranged(s, l.lo, l.hi)
		}
		v.C = append(v.C, s)
	}
	x.wellFormed(st, v)
	// error variables and maps are initialised: non-nil
	switch t.Underlying().(type) {
	case *types.Interface, *types.Map, *types.Pointer, *types.Signature:
		if x.V.globInit(g) != nil || !x.V.inRepo(g.Pkg.Pkg.Path()) {
			x.c.axiom(v.C[0], x.c.Not(x.c.Eq(v.C[0], x.c.Int(0))))
		}
	}
	x.globSeen[g] = v
	return v, true
}
func (x *Exec) evalInit(st *State, v ssa.Value) (Val, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v), true
	case *ssa.MakeInterface:
		o, ok := x.evalInit(st, v.X)
		if !ok {
			return Val{}, false
		}
		o.T = v.X.Type()
		return x.makeIface(v.Type(), o), true
	case *ssa.Convert:
		o, ok := x.evalInit(st, v.X)
		if !ok {
			return Val{}, false
		}
		o.T = v.X.Type()
		switch v.Type().Underlying().(type) {
		case *types.Basic:
			return x.convert(st, nil, o, v.Type(), v.Pos()), true
		}
	case *ssa.ChangeType:
		o, ok := x.evalInit(st, v.X)
		return Val{v.Type(), o.C}, ok
	case *ssa.Function:
		return Val{v.Type(), []*Term{x.mkClosure(v, nil)}}, true
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			return x.globalConst(st, g)
		}
		if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			return x.evalAlloc(st, al)
		}
	}
	return Val{}, false
}

// evalAlloc evaluates a struct literal built field by field in the package initialiser.
func (x *Exec) evalAlloc(st *State, al *ssa.Alloc) (Val, bool) {
	t := al.Type().Underlying().(*types.Pointer).Elem()
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return Val{}, false
	}
	v := x.zero(t)
	v.C = append([]*Term{}, v.C...)
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			for _, q := range *r.Referrers() {
				s, ok := q.(*ssa.Store)
				if !ok {
					return Val{}, false
				}
				fv, ok := x.evalInit(st, s.Val)
				if !ok {
					return Val{}, false
				}
				lo, _, _ := x.fieldRange(t, r.Field)
				copy(v.C[lo:], fv.C)
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
		default:
			return Val{}, false
		}
	}
	return v, true
}
