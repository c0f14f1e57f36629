package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type pcNode struct {
	t    *Term
	prev *pcNode
}
type writeNode struct {
	key  string
	base *Term // nil: the whole key
	idx  *Term // nil: the whole row
	env  bool  // change made by another goroutine
	prev *writeNode
}

// State is the symbolic machine state of one path.
type State struct {
	heap   map[string]*Term
	pc     *pcNode
	writes *writeNode
	locks  map[string]int // held locks by base term id
	events *eventNode
}
type eventNode struct {
	s    string
	prev *eventNode
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)), pc: s.pc, writes: s.writes, locks: s.locks, events: s.events}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}
func (s *State) pcs() []*Term {
	var r []*Term
	for p := s.pc; p != nil; p = p.prev {
		r = append(r, p.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}
func (s *State) knows(t *Term) bool {
	for p := s.pc; p != nil; p = p.prev {
		if p.t == t {
			return true
		}
	}
	return false
}

type Env struct {
	m      map[ssa.Value]Val
	names  map[string]nameRef
	parent *Env
	depth  int
}
type nameRef struct {
	v    ssa.Value
	addr bool
}

func newEnv(p *Env) *Env {
	e := &Env{parent: p}
	if p != nil {
		e.depth = p.depth + 1
	}
	return e
}
func (e *Env) flatten() {
	m := map[ssa.Value]Val{}
	nm := map[string]nameRef{}
	var rec func(x *Env)
	rec = func(x *Env) {
		if x == nil {
			return
		}
		rec(x.parent)
		for k, v := range x.m {
			m[k] = v
		}
		for k, v := range x.names {
			nm[k] = v
		}
	}
	rec(e)
	e.m, e.names, e.parent, e.depth = m, nm, nil, 0
}
func (e *Env) get(v ssa.Value) (Val, bool) {
	for x := e; x != nil; x = x.parent {
		if r, ok := x.m[v]; ok {
			return r, true
		}
	}
	return Val{}, false
}
func (e *Env) set(v ssa.Value, r Val) {
	if e.m == nil {
		e.m = map[ssa.Value]Val{}
	}
	e.m[v] = r
}
func (e *Env) name(n string) (nameRef, bool) {
	for x := e; x != nil; x = x.parent {
		if r, ok := x.names[n]; ok {
			return r, true
		}
	}
	return nameRef{}, false
}

type deferred struct {
	call *ssa.Defer
	args []Val
	fnv  Val
}

// Frame is one activation; it is copied when a path forks.
type Frame struct {
	fn     *ssa.Function
	env    *Env
	defers []deferred
	caller *Frame
	depth  int
	loops  []*loopCtx
	ret    func(st *State, fr *Frame, res []Val)
	params []Val
	label  string // inlining path, for messages
}

func (f *Frame) fork() *Frame {
	n := *f
	n.env = newEnv(f.env)
	if n.env.depth > 24 {
		n.env.flatten()
	}
	n.defers = append([]deferred{}, f.defers...)
	n.loops = append([]*loopCtx{}, f.loops...)
	return &n
}

type loopCtx struct {
	loop     *loopInfo
	frame    *Frame
	dry      bool
	backedge func(st *State, fr *Frame, pred *ssa.BasicBlock)
}

type closure struct {
	fn   *ssa.Function
	bind []Val
}

// Obligation is one proof obligation.
type Obligation struct {
	Name   string // stable name: function, kind, label, ordinal
	Fn     string
	Kind   string
	Label  string
	Pos    string
	Props  []string
	Result Result
	Solver string
	Model  string
	script string
	vars   []*Term
	Cex    []string
	Paths  int // number of paths on which it was generated
}

// Exec symbolically executes one target function.
type Exec struct {
	c         *Ctx
	V         *Verifier
	layouts   map[types.Type][]leaf
	closures  []closure
	target    *ssa.Function
	ctr       *Contract
	prop      string
	dry       int // >0: no obligations recorded
	entry     *State
	entryFr   *Frame
	obs       []*Obligation
	paths     int
	returns   int
	cmpLog    *[]cmpRec
	typeIDs   map[string]int
	typeByID  map[int]types.Type
	inlined   map[string]bool
	used      map[string]bool // contracts used
	havocs    map[string]bool // functions whose effect was havoced
	steps     int
	err       error
	pend      []func()
	safe      bool
	globals   map[*ssa.Global]Val
	modOK     func(key string, base *Term) *Term
	obIndex   map[string]int
	covers    map[string]bool
	fnIDs     map[*ssa.Function]int
	keyLeaf   map[string]leaf
	escSeen   map[int]bool
	holds     map[int][]Val // unescaped variable cell -> the value it holds for good
	allocType map[int]types.Type
	mapSorts  map[string][2]Sort
	loopDepth int
	loopsSeen int
	paramEnv  map[string]Val
	globSeen  map[*ssa.Global]Val
	atSeen    map[*atCall]bool
}
type cmpRec struct {
	op   token.Token
	x, y *Term
}

type abort struct{ msg string }

func (x *Exec) fail(format string, a ...any) { panic(abort{fmt.Sprintf(format, a...)}) }

var dbg = os.Getenv("GOVC_TRACE") != ""

// ---- memory ----
func (x *Exec) heapSym(st *State, key string, s Sort) *Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	// initial heap: one symbol per key for the whole function
	hs := arrOf(SInt, arrOf(SInt, s))
	h := x.c.Var("H:"+key, hs)
	h.birth = 1
	if l, ok := x.keyLeaf[key]; ok {
		x.c.heapZero[h.id] = x.c.ConstArr(arrOf(SInt, s), x.zeroOf(l))
	}
	st.heap[key] = h
	return h
}

func (x *Exec) loadLeaf(st *State, l leaf, b, i *Term) *Term {
	x.regLeaf(l)
	h := x.heapSym(st, l.key, l.sort)
	row := x.c.Select(h, b)
	v := x.c.Select(row, i)
	if v.op == "select" {
		x.c.ranged(v, l.lo, l.hi)
	}
	return v
}
func (x *Exec) regLeaf(l leaf) {
	if _, ok := x.keyLeaf[l.key]; !ok {
		x.keyLeaf[l.key] = l
	}
}
func (x *Exec) storeLeaf(st *State, l leaf, b, i, v *Term) {
	x.regLeaf(l)
	h := x.heapSym(st, l.key, l.sort)
	row := x.c.Select(h, b)
	st.heap[l.key] = x.c.Store(h, b, x.c.Store(row, i, v))
	st.writes = &writeNode{key: l.key, base: b, idx: i, prev: st.writes}
}

// eachCell enumerates the leaf cells of a value of type t stored at (b,i).
func (x *Exec) eachCell(t types.Type, b, i *Term, f func(l leaf, b, i *Term)) {
	if isTime(t) {
		f(x.layout(t)[0], b, i)
		return
	}
	if opaqueStruct(t) {
		if _, ok := t.Underlying().(*types.Struct); ok {
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for k := 0; k < u.NumFields(); k++ {
			x.eachCell(u.Field(k).Type(), x.c.FBase(fieldKey(t, k), b), i, f)
		}
	case *types.Array:
		if u.Len() > maxArr {
			return
		}
		ab := x.c.ABase(b, i)
		for k := int64(0); k < u.Len(); k++ {
			x.eachCell(u.Elem(), ab, x.c.Int(k), f)
		}
	default:
		for _, l := range x.layout(t) {
			f(l, b, i)
		}
	}
}
func fieldKey(t types.Type, k int) string {
	if p, ok := t.Underlying().(*types.Struct); ok {
		return typeKey(t) + "." + p.Field(k).Name()
	}
	return typeKey(t) + "." + fmt.Sprint(k)
}

func (x *Exec) load(st *State, t types.Type, b, i *Term) Val {
	v := Val{T: t}
	x.eachCell(t, b, i, func(l leaf, b, i *Term) { v.C = append(v.C, x.loadLeaf(st, l, b, i)) })
	x.wellFormed(st, v)
	return v
}
// onceAssigned: the stored-to variable is assigned only by this instruction; closures that capture it only read it.
func onceAssigned(in *ssa.Store) bool {
	a, ok := in.Addr.(*ssa.Alloc)
	if !ok {
		return false
	}
	var reads func(v ssa.Value, own ssa.Instruction, depth int) bool
	reads = func(v ssa.Value, own ssa.Instruction, depth int) bool {
		if depth > 4 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if r.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if r != own {
					return false
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == v && !reads(r.Fn.(*ssa.Function).FreeVars[i], nil, depth+1) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return reads(a, in, 0)
}
func (x *Exec) store(st *State, t types.Type, b, i *Term, v Val) {
	x.markEscape(v)
	x.storeRaw(st, t, b, i, v)
}
func (x *Exec) storeRaw(st *State, t types.Type, b, i *Term, v Val) {
	k := 0
	x.eachCell(t, b, i, func(l leaf, b, i *Term) {
		if k >= len(v.C) {
			x.fail("store: component mismatch %s vs %s", t, v.T)
		}
		x.storeLeaf(st, l, b, i, v.C[k])
		k++
	})
}

// markEscape: the value is about to become reachable from elsewhere.
func (x *Exec) markEscape(vs ...Val) {
	for _, v := range vs {
		for _, t := range v.C {
			if t.sort == SInt {
				x.escapeTerm(t)
			}
		}
	}
}
func (x *Exec) escapeTerm(t *Term) {
	if t.birth == 0 {
		return
	}
	if x.escSeen[t.id] {
		return
	}
	x.escSeen[t.id] = true
	if t.op == "alloc" {
		if _, ok := x.c.escape[t.root]; !ok {
			x.c.clock++
			x.c.escape[t.root] = x.c.clock
		}
		x.markEscape(x.holds[t.root]...)
	}
	if t.op == "fn" {
		return
	}
	if t.op == "fbase" || t.op == "abase" || t.op == "uf" || t.op == "ite" || t.op == "+" {
		for _, a := range t.args {
			x.escapeTerm(a)
		}
	}
	// closures: escaping a function value lets its bindings escape
	if id, ok := x.closureID(t); ok {
		x.markEscape(x.closures[id].bind...)
	}
}

// havocAll forgets the whole heap except objects that have not escaped.
func (x *Exec) havocAll(st *State, why string) {
	keys := make([]string, 0, len(x.keyLeaf))
	for k := range x.keyLeaf {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if strings.HasPrefix(k, "g:") {
			continue
		}
		x.havocKey(st, k)
	}
	for _, k := range sortedKeys(x.mapSorts) {
		h := x.heapOf(st, k)
		st.heap[k] = x.c.mk(&Term{op: "havoc", sort: h.sort, args: []*Term{h, x.c.Fresh("H:"+k, h.sort)}})
		st.writes = &writeNode{key: k, prev: st.writes}
	}
}

func (x *Exec) havocKey(st *State, k string) {
	l := x.keyLeaf[k]
	h := x.heapSym(st, k, l.sort)
	nh := x.c.Havoc(h, "H:"+k)
	if strings.HasPrefix(k, "g:") {
		nh = x.c.Fresh("H:"+k, h.sort)
	} else {
		x.c.heapZero[nh.args[1].id] = x.c.ConstArr(arrOf(SInt, l.sort), x.zeroOf(l))
	}
	st.heap[k] = nh
	st.writes = &writeNode{key: k, prev: st.writes}
}

// ---- path condition ----
func (x *Exec) assume(st *State, t *Term) bool {
	if t == x.c.True {
		return true
	}
	if t == x.c.False {
		return false
	}
	if t.op == "and" {
		for _, a := range t.args {
			if !x.assume(st, a) {
				return false
			}
		}
		return true
	}
	if st.knows(t) {
		return true
	}
	if st.knows(x.c.Not(t)) {
		return false
	}
	st.pc = &pcNode{t, st.pc}
	return true
}

// simp decides a boolean term from facts already on the path.
func (x *Exec) simp(st *State, t *Term) *Term {
	switch t.op {
	case "true", "false":
		return t
	case "and":
		var as []*Term
		for _, a := range t.args {
			as = append(as, x.simp(st, a))
		}
		return x.c.And(as...)
	case "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, x.simp(st, a))
		}
		return x.c.Or(as...)
	case "not":
		return x.c.Not(x.simp(st, t.args[0]))
	}
	if st.knows(t) {
		return x.c.True
	}
	if st.knows(x.c.Not(t)) {
		return x.c.False
	}
	return t
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.V.prog.Fset.Position(p)
	return strings.TrimPrefix(q.Filename, x.V.repo+"/") + ":" + fmt.Sprint(q.Line)
}

// oblige records a proof obligation and then assumes it.
func (x *Exec) oblige(st *State, fr *Frame, kind, label string, pos token.Pos, goal *Term) bool {
	goal = x.simp(st, goal)
	if x.dry == 0 {
		x.record(st, fr, kind, label, pos, goal)
	}
	if goal == x.c.False {
		return false
	}
	return x.assume(st, goal)
}
func (x *Exec) record(st *State, fr *Frame, kind, label string, pos token.Pos, goal *Term) {
	fn := x.V.short(x.target)
	name := fn + "#" + kind
	if label != "" {
		name += "#" + label
	}
	at := ""
	if fr != nil && fr.fn != x.target {
		at = "@" + x.V.short(fr.fn)
	}
	key := name + at + "|" + x.posStr(pos)
	if len(x.obs) > 20000 {
		x.fail("too many obligations")
	}
	o := &Obligation{Name: name + at, Fn: fn, Kind: kind, Label: label, Pos: x.posStr(pos)}
	_ = key
	if goal == x.c.True {
		o.Result, o.Solver = Unsat, "simplifier"
		x.obs = append(x.obs, o)
		return
	}
	sc, vars := x.c.query(st.pcs(), goal)
	o.script, o.vars = sc, vars
	if dbg {
		fmt.Printf("OB %s %s : %s\n", o.Name, o.Pos, x.c.Str(goal))
	}
	x.obs = append(x.obs, o)
}

func (x *Exec) feasible(st *State, t *Term) bool {
	if t == x.c.True {
		return true
	}
	if t == x.c.False {
		return false
	}
	return x.V.sol.Feasible(x.c, append(st.pcs(), t))
}

// ---- values ----
func (x *Exec) fplitVal(f float64, dbl bool) *Term { return x.c.fplit(f, dbl) }

func (c *Ctx) fplit(f float64, dbl bool) *Term {
	if dbl {
		b := math.Float64bits(f)
		return c.mk(&Term{op: "fplit", sort: SF64, name: fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", b>>63, b>>52&0x7ff, b&(1<<52-1))})
	}
	b := math.Float32bits(float32(f))
	return c.mk(&Term{op: "fplit", sort: SF32, name: fmt.Sprintf("(fp #b%01b #b%08b #b%023b)", b>>31, b>>23&0xff, b&(1<<23-1))})
}

func (x *Exec) constVal(k *ssa.Const) Val {
	return x.constOf(k.Type(), k.Value)
}
func (x *Exec) constOf(t types.Type, cv constant.Value) Val {
	c := x.c
	if cv == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, ok := basicInt(u.Kind()); ok {
			i := constant.ToInt(cv)
			b, _ := new(big.Int).SetString(i.ExactString(), 10)
			return Val{t, []*Term{c.Big(b)}}
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return Val{t, []*Term{c.Bool(constant.BoolVal(cv))}}
		case types.String, types.UntypedString:
			return Val{t, []*Term{c.StrLit(constant.StringVal(cv))}}
		case types.Float64, types.UntypedFloat:
			f, _ := constant.Float64Val(cv)
			return Val{t, []*Term{c.fplit(f, true)}}
		case types.Float32:
			f, _ := constant.Float32Val(cv)
			return Val{t, []*Term{c.fplit(float64(f), false)}}
		}
	case *types.Interface:
		// untyped constant in interface: not produced by ssa
	}
	x.fail("unsupported constant %v : %v", cv, t)
	return Val{}
}

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return Val{v.Type(), []*Term{x.c.Global(x.V.globName(v)), x.c.Int(0)}}
	case *ssa.Function:
		return Val{v.Type(), []*Term{x.mkClosure(v, nil)}}
	case *ssa.Builtin:
		return Val{v.Type(), nil}
	}
	if r, ok := fr.env.get(v); ok {
		return r
	}
	x.fail("undefined register %s in %s", v.Name(), fr.fn)
	return Val{}
}

func (x *Exec) mkClosure(fn *ssa.Function, bind []Val) *Term {
	if len(bind) == 0 {
		if id, ok := x.fnIDs[fn]; ok {
			return x.c.Int(int64(5000000 + id))
		}
	}
	x.closures = append(x.closures, closure{fn, bind})
	id := len(x.closures) - 1
	if len(bind) == 0 {
		x.fnIDs[fn] = id
	}
	return x.c.Int(int64(5000000 + id))
}
func (x *Exec) closureID(t *Term) (int, bool) {
	if t.ival == nil || !t.ival.IsInt64() {
		return 0, false
	}
	n := t.ival.Int64() - 5000000
	if n >= 0 && n < int64(len(x.closures)) {
		return int(n), true
	}
	return 0, false
}

// typeID numbers concrete types.
func (x *Exec) typeID(t types.Type) *Term {
	k := canonType(types.TypeString(types.Unalias(t), nil))
	id, ok := x.typeIDs[k]
	if !ok {
		id = len(x.typeIDs) + 1
		x.typeIDs[k] = id
		x.typeByID[id] = t
	}
	return x.c.Int(int64(id))
}

var reByte, reRune = regexp.MustCompile(`\bbyte\b`), regexp.MustCompile(`\brune\b`)

// canonType maps the universe aliases byte and rune to the types they name.
func canonType(s string) string {
	if strings.Contains(s, "byte") {
		s = reByte.ReplaceAllString(s, "uint8")
	}
	if strings.Contains(s, "rune") {
		s = reRune.ReplaceAllString(s, "int32")
	}
	return s
}

// box turns a concrete value into an interface payload.
func (x *Exec) box(v Val) *Term {
	c := x.c
	if len(v.C) == 0 {
		return c.Int(1)
	}
	// a payload that came straight out of unbox goes back unchanged
	name := "box_" + typeKey(v.T)
	b := c.App(name, SInt, v.C...)
	for i, comp := range v.C {
		u := c.App(fmt.Sprintf("unbox_%s_%d", typeKey(v.T), i), comp.sort, b)
		c.axiom(b, c.Eq(u, comp))
	}
	c.axiom(b, c.Not(c.Eq(b, c.Int(0))))
	return b
}
func (x *Exec) unbox(st *State, t types.Type, b *Term) Val {
	c := x.c
	name := "box_" + typeKey(t)
	if b.op == "uf" && b.name == name {
		return Val{t, b.args}
	}
	v := Val{T: t}
	for i, l := range x.layout(t) {
		u := c.App(fmt.Sprintf("unbox_%s_%d", typeKey(t), i), l.sort, b)
		c.ranged(u, l.lo, l.hi)
		v.C = append(v.C, u)
	}
	x.wellFormed(st, v)
	return v
}
func (x *Exec) makeIface(t types.Type, v Val) Val {
	if _, ok := v.T.Underlying().(*types.Interface); ok {
		return Val{t, v.C}
	}
	return Val{t, []*Term{x.typeID(v.T), x.box(v)}}
}

// implTest: does the dynamic type (tag) implement the interface type?
func (x *Exec) implTest(tag *Term, it types.Type) *Term {
	c := x.c
	iface := it.Underlying().(*types.Interface)
	if tag.ival != nil {
		if tag.ival.Sign() == 0 {
			return c.False
		}
		if t, ok := x.typeByID[int(tag.ival.Int64())]; ok {
			return c.Bool(types.Implements(t, iface))
		}
	}
	if iface.NumMethods() == 0 {
		return c.Not(c.Eq(tag, c.Int(0)))
	}
	p := c.App("impl_"+typeKey(it), SBool, tag)
	c.axiom(p, c.Implies(p, c.Not(c.Eq(tag, c.Int(0)))))
	ids := make([]int, 0)
	for id := range x.typeByID {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		t := x.typeByID[id]
		im := types.Implements(t, iface)
		c.axiom(p, c.Implies(c.Eq(tag, c.Int(int64(id))), c.Eq(p, c.Bool(im))))
	}
	return p
}

func (x *Exec) valEq(st *State, a, b Val) *Term {
	c := x.c
	// interface vs concrete
	_, ai := a.T.Underlying().(*types.Interface)
	_, bi := b.T.Underlying().(*types.Interface)
	if ai && !bi && len(b.C) > 0 && !isNilT(b.T) {
		b = x.makeIface(a.T, b)
	} else if bi && !ai && !isNilT(a.T) {
		a = x.makeIface(b.T, a)
	}
	if isNilT(a.T) {
		a, b = b, a
	}
	if isNilT(b.T) {
		return c.Eq(a.C[0], c.Int(0))
	}
	if len(a.C) != len(b.C) {
		x.fail("valEq: %v vs %v", a.T, b.T)
	}
	if _, ok := a.T.Underlying().(*types.Slice); ok {
		return c.Eq(a.C[0], b.C[0])
	}
	var es []*Term
	for i := range a.C {
		s := a.C[i].sort
		if s == SF64 || s == SF32 {
			es = append(es, c.mk(&Term{op: "smt", name: "fp.eq", sort: SBool, args: []*Term{a.C[i], b.C[i]}}))
			continue
		}
		es = append(es, c.Eq(a.C[i], b.C[i]))
	}
	return c.And(es...)
}
func isNilT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

// ---- running ----
func (x *Exec) goBlock(st *State, fr *Frame, b, pred *ssa.BasicBlock) {
	x.steps++
	if x.steps%64 == 0 && time.Now().After(x.V.deadline) {
		x.fail("time budget exhausted")
	}
	if x.steps > x.V.maxSteps {
		x.fail("step limit exceeded in %s", x.target)
	}
	// leave loops that do not contain b
	for len(fr.loops) > 0 {
		lc := fr.loops[len(fr.loops)-1]
		if lc.loop.blocks[b] {
			break
		}
		if lc.dry {
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if li := x.V.loopsOf(fr.fn)[b]; li != nil {
		if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].loop == li {
			fr.loops[len(fr.loops)-1].backedge(st, fr, pred)
			return
		}
		x.enterLoop(st, fr, li, pred)
		return
	}
	x.phis(st, fr, b, pred)
	x.instrs(st, fr, b, 0)
}
func (x *Exec) phis(st *State, fr *Frame, b, pred *ssa.BasicBlock) {
	if len(b.Instrs) == 0 {
		return
	}
	if _, ok := b.Instrs[0].(*ssa.Phi); !ok {
		return
	}
	k := -1
	for i, p := range b.Preds {
		if p == pred {
			k = i
		}
	}
	var vals []Val
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		v := x.val(st, fr, p.Edges[k])
		v.T = p.Type()
		vals = append(vals, v)
	}
	for i, p := range ph {
		fr.env.set(p, vals[i])
		x.setName(fr, p.Comment, p, false)
	}
}
func (x *Exec) setName(fr *Frame, n string, v ssa.Value, addr bool) {
	if n == "" {
		return
	}
	if fr.env.names == nil {
		fr.env.names = map[string]nameRef{}
	}
	fr.env.names[n] = nameRef{v, addr}
}

// instrs executes block b from instruction i on.
func (x *Exec) instrs(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			if id, ok := in.Expr.(interface{ String() string }); ok {
				_ = id
			}
			if in.Object() != nil {
				x.setName(fr, in.Object().Name(), in.X, in.IsAddr)
			}
			continue
		case *ssa.Jump:
			x.goBlock(st, fr, b.Succs[0], b)
			return
		case *ssa.If:
			x.branch(st, fr, x.val(st, fr, in.Cond).one(), b)
			return
		case *ssa.Return:
			var res []Val
			for k, r := range in.Results {
				v := x.val(st, fr, r)
				v.T = fr.fn.Signature.Results().At(k).Type()
				res = append(res, v)
			}
			if x.inDry(fr) {
				return
			}
			fr.ret(st, fr, res)
			return
		case *ssa.Panic:
			if x.safe && !x.V.allowPanic(fr.fn) {
				x.oblige(st, fr, "nopanic", "panic", in.Pos(), x.c.False)
			}
			return
		case *ssa.RunDefers:
			if len(fr.defers) > 0 {
				ds := fr.defers
				fr.defers = nil
				next := i + 1
				x.runDefers(st, fr, ds, func(st *State, fr *Frame) { x.instrs(st, fr, b, next) })
				return
			}
			continue
		case *ssa.Defer:
			d := deferred{call: in}
			if in.Call.IsInvoke() {
				d.fnv = x.val(st, fr, in.Call.Value)
			} else if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				d.fnv = x.val(st, fr, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(st, fr, a))
			}
			fr.defers = append(fr.defers, d)
			continue
		case *ssa.Call:
			next := i + 1
			cont := func(st *State, fr2 *Frame, res []Val) {
				x.bindResult(fr2, in, res)
				x.instrs(st, fr2, b, next)
			}
			var args []Val
			for _, a := range in.Call.Args {
				args = append(args, x.val(st, fr, a))
			}
			var fv Val
			if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				fv = x.val(st, fr, in.Call.Value)
			}
			if x.call(st, fr, &in.Call, fv, args, in.Pos(), cont) {
				continue
			}
			return
		case *ssa.Go:
			// the spawned goroutine runs later; its arguments escape
			for _, a := range in.Call.Args {
				x.markEscape(x.val(st, fr, a))
			}
			if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				x.markEscape(x.val(st, fr, in.Call.Value))
			}
			continue
		case *ssa.Select:
			x.selectStmt(st, fr, in, b, i+1)
			return
		case *ssa.Send:
			next := i + 1
			if x.chanSend(st, fr, in.Chan, in.X, in.Pos(), func(st *State, fr *Frame) { x.instrs(st, fr, b, next) }) {
				return
			}
			if !x.simple(st, fr, in) {
				return
			}
		case *ssa.UnOp:
			if in.Op == token.ARROW && !in.CommaOk {
				next := i + 1
				if x.chanRecv(st, fr, in.X, in.Pos(), func(st *State, fr *Frame, v Val) {
					fr.env.set(in, Val{in.Type(), v.C})
					x.instrs(st, fr, b, next)
				}) {
					return
				}
			}
			if !x.simple(st, fr, in) {
				return
			}
		case *ssa.TypeAssert:
			if x.typeAssert(st, fr, in, b, i+1) {
				continue
			}
			return
		default:
			if !x.simple(st, fr, in) {
				return // path ended (obligation false)
			}
		}
	}
}

func (x *Exec) inDry(fr *Frame) bool {
	for _, lc := range fr.loops {
		if lc.dry {
			return true
		}
	}
	return false
}

func (x *Exec) bindResult(fr *Frame, in *ssa.Call, res []Val) {
	switch len(res) {
	case 0:
	case 1:
		r := res[0]
		r.T = in.Type()
		if tp, ok := in.Type().(*types.Tuple); ok && tp.Len() == 1 {
			r.T = tp
		}
		fr.env.set(in, r)
	default:
		var cs []*Term
		for _, r := range res {
			cs = append(cs, r.C...)
		}
		fr.env.set(in, Val{in.Type(), cs})
	}
}

func (x *Exec) branch(st *State, fr *Frame, cond *Term, b *ssa.BasicBlock) {
	cond = x.simp(st, cond)
	if cond == x.c.True {
		x.goBlock(st, fr, b.Succs[0], b)
		return
	}
	if cond == x.c.False {
		x.goBlock(st, fr, b.Succs[1], b)
		return
	}
	x.fork(st, fr, []*Term{cond, x.c.Not(cond)}, func(k int, st *State, fr *Frame) {
		x.goBlock(st, fr, b.Succs[k], b)
	})
}

// fork continues on each feasible case.
func (x *Exec) fork(st *State, fr *Frame, conds []*Term, k func(int, *State, *Frame)) {
	n := 0
	for i, cd := range conds {
		cd = x.simp(st, cd)
		if cd == x.c.False {
			continue
		}
		if cd != x.c.True && !x.feasible(st, cd) {
			continue
		}
		s2 := st.clone()
		if !x.assume(s2, cd) {
			continue
		}
		n++
		k(i, s2, fr.fork())
	}
}

func (x *Exec) runDefers(st *State, fr *Frame, ds []deferred, k func(*State, *Frame)) {
	if len(ds) == 0 {
		k(st, fr)
		return
	}
	d := ds[len(ds)-1]
	rest := ds[:len(ds)-1]
	if x.call(st, fr, &d.call.Call, d.fnv, d.args, d.call.Pos(), func(st *State, fr2 *Frame, res []Val) {
		x.runDefers(st, fr2, rest, k)
	}) {
		x.runDefers(st, fr, rest, k)
	}
}

// nilCheck emits a nil-dereference obligation.
func (x *Exec) nilCheck(st *State, fr *Frame, p *Term, pos token.Pos) bool {
	g := x.c.Not(x.c.Eq(p, x.c.Int(0)))
	if p.op == "alloc" || p.op == "global" || p.op == "fbase" || p.op == "abase" {
		return true
	}
	if !x.safe {
		return x.assume(st, g)
	}
	return x.oblige(st, fr, "nopanic", "nil-dereference", pos, g)
}
func (x *Exec) boundCheck(st *State, fr *Frame, what string, pos token.Pos, g *Term) bool {
	if !x.safe {
		return x.assume(st, x.simp(st, g))
	}
	return x.oblige(st, fr, "nopanic", what, pos, g)
}

// simple executes an instruction that neither forks nor calls. false = path dead.
func (x *Exec) simple(st *State, fr *Frame, in ssa.Instruction) bool {
	c := x.c
	set := func(v ssa.Value, cs ...*Term) { fr.env.set(v, Val{v.Type(), cs}) }
	switch in := in.(type) {
	case *ssa.Alloc:
		b := c.Alloc()
		x.allocType[b.root] = in.Type().Underlying().(*types.Pointer).Elem()
		set(in, b, c.Int(0))
	case *ssa.BinOp:
		return x.binop(st, fr, in)
	case *ssa.UnOp:
		return x.unop(st, fr, in)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		v := in.(ssa.Value)
		o := x.val(st, fr, *in.Operands(nil)[0])
		set(v, o.C...)
	case *ssa.Convert:
		o := x.val(st, fr, in.X)
		fr.env.set(in, x.convert(st, fr, o, in.Type(), in.Pos()))
	case *ssa.MultiConvert:
		o := x.val(st, fr, in.X)
		fr.env.set(in, x.convert(st, fr, o, in.Type(), in.Pos()))
	case *ssa.Extract:
		t := x.val(st, fr, in.Tuple)
		tp := in.Tuple.Type().(*types.Tuple)
		off := 0
		for k := 0; k < in.Index; k++ {
			off += len(x.layout(tp.At(k).Type()))
		}
		n := len(x.layout(tp.At(in.Index).Type()))
		fr.env.set(in, Val{in.Type(), t.C[off : off+n]})
	case *ssa.Field:
		o := x.val(st, fr, in.X)
		a, b, _ := x.fieldRange(in.X.Type(), in.Field)
		set(in, o.C[a:b]...)
	case *ssa.FieldAddr:
		p := x.val(st, fr, in.X)
		if !x.nilCheck(st, fr, p.C[0], in.Pos()) {
			return false
		}
		stt := in.X.Type().Underlying().(*types.Pointer).Elem()
		set(in, c.FBase(fieldKey(stt, in.Field), p.C[0]), p.C[1])
		x.accessed(st, fr, stt, in.Field, p, in.Pos())
	case *ssa.Index:
		o := x.val(st, fr, in.X)
		i := x.val(st, fr, in.Index).one()
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			if !x.boundCheck(st, fr, "index-out-of-range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(u.Len())))) {
				return false
			}
			n := len(x.layout(u.Elem()))
			if i.ival != nil {
				k := int(i.ival.Int64())
				set(in, o.C[k*n:(k+1)*n]...)
			} else {
				var cs []*Term
				for j := 0; j < n; j++ {
					t := o.C[int(u.Len()-1)*n+j]
					for k := int(u.Len()) - 2; k >= 0; k-- {
						t = c.Ite(c.Eq(i, c.Int(int64(k))), o.C[k*n+j], t)
					}
					cs = append(cs, t)
				}
				set(in, cs...)
			}
		case *types.Basic: // string
			if !x.boundCheck(st, fr, "index-out-of-range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Slen(o.one())))) {
				return false
			}
			set(in, c.Sbyte(o.one(), i))
		default:
			x.fail("Index on %s", in.X.Type())
		}
	case *ssa.IndexAddr:
		o := x.val(st, fr, in.X)
		i := x.val(st, fr, in.Index).one()
		switch u := in.X.Type().Underlying().(type) {
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			if !x.nilCheck(st, fr, o.C[0], in.Pos()) {
				return false
			}
			if !x.boundCheck(st, fr, "index-out-of-range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(at.Len())))) {
				return false
			}
			set(in, c.ABase(o.C[0], o.C[1]), i)
		case *types.Slice:
			if !x.boundCheck(st, fr, "index-out-of-range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, o.C[2]))) {
				return false
			}
			set(in, o.C[0], c.Add(o.C[1], i))
		}
	case *ssa.Lookup:
		return x.lookup(st, fr, in)
	case *ssa.MakeChan:
		set(in, c.Alloc())
	case *ssa.MakeClosure:
		var bind []Val
		for _, b := range in.Bindings {
			bind = append(bind, x.val(st, fr, b))
		}
		set(in, x.mkClosure(in.Fn.(*ssa.Function), bind))
	case *ssa.MakeInterface:
		fr.env.set(in, x.makeIface(in.Type(), x.val(st, fr, in.X)))
	case *ssa.MakeMap:
		b := c.Alloc()
		set(in, b)
		x.mapInit(st, in.Type(), b)
	case *ssa.MakeSlice:
		l := x.val(st, fr, in.Len).one()
		cp := x.val(st, fr, in.Cap).one()
		if !x.boundCheck(st, fr, "make-slice-size", in.Pos(), c.And(c.Le(c.Int(0), l), c.Le(l, cp))) {
			return false
		}
		b := c.Alloc()
		x.allocType[b.root] = types.NewSlice(in.Type().Underlying().(*types.Slice).Elem())
		set(in, b, c.Int(0), l, cp)
	case *ssa.MapUpdate:
		m := x.val(st, fr, in.Map)
		if !x.boundCheck(st, fr, "nil-map-write", in.Pos(), c.Not(c.Eq(m.one(), c.Int(0)))) {
			return false
		}
		x.mapStore(st, in.Map.Type(), m.one(), x.val(st, fr, in.Key), x.val(st, fr, in.Value))
	case *ssa.Range:
		o := x.val(st, fr, in.X)
		fr.env.set(in, Val{in.X.Type(), o.C})
	case *ssa.Next:
		it := x.val(st, fr, in.Iter)
		tp := in.Type().(*types.Tuple)
		okv := c.Fresh("next.ok", SBool)
		cs := []*Term{okv}
		if in.IsString {
			k := x.freshVal(st, types.Typ[types.Int], "next.k")
			r := x.freshVal(st, types.Typ[types.Int32], "next.r")
			cs = append(cs, k.C...)
			cs = append(cs, r.C...)
			st.pc = &pcNode{c.Implies(okv, c.And(c.Le(c.Int(0), k.C[0]), c.Lt(k.C[0], c.Slen(it.C[0])))), st.pc}
		} else {
			mt := it.T.Underlying().(*types.Map)
			k := x.freshVal(st, mt.Key(), "next.k")
			for _, t := range k.C {
				t.wild = true
			}
			if !x.assume(st, c.Implies(okv, x.mapHas(st, it.T, it.C[0], k))) {
				return false
			}
			v := x.mapGet(st, it.T, it.C[0], k)
			if len(x.layout(tp.At(1).Type())) > 0 {
				cs = append(cs, k.C...)
			}
			if len(x.layout(tp.At(2).Type())) > 0 {
				cs = append(cs, v.C...)
			}
		}
		set(in, cs...)
	case *ssa.Send:
		x.markEscape(x.val(st, fr, in.X))
	case *ssa.Slice:
		return x.slice(st, fr, in)
	case *ssa.SliceToArrayPointer:
		x.fail("SliceToArrayPointer")
	case *ssa.Store:
		p := x.val(st, fr, in.Addr)
		if !x.nilCheck(st, fr, p.C[0], in.Pos()) {
			return false
		}
		if !x.writeHook(st, fr, in) {
			return false
		}
		if v := x.val(st, fr, in.Val); p.C[0].op == "alloc" && onceAssigned(in) {
			// a captured variable that is never reassigned: its value escapes when the variable's cell does
			if _, esc := x.c.escape[p.C[0].root]; !esc {
				x.holds[p.C[0].root] = append(x.holds[p.C[0].root], v)
				x.storeRaw(st, in.Addr.Type().Underlying().(*types.Pointer).Elem(), p.C[0], p.C[1], v)
				return true
			}
			x.storeAs(st, in.Addr.Type().Underlying().(*types.Pointer).Elem(), p, v)
		} else {
			x.storeAs(st, in.Addr.Type().Underlying().(*types.Pointer).Elem(), p, v)
		}
	default:
		x.fail("unsupported instruction %T in %s", in, fr.fn)
	}
	return true
}

// storeAs / loadAs handle unsafe reinterpretation between slice and string headers.
func (x *Exec) storeAs(st *State, t types.Type, p Val, v Val) {
	x.store(st, t, p.C[0], p.C[1], v)
}

func (x *Exec) cellType(b *Term) types.Type {
	if b.op == "alloc" {
		return x.allocType[b.root]
	}
	return nil
}

func (x *Exec) loadAs(st *State, fr *Frame, t types.Type, p Val) Val {
	b, i := p.C[0], p.C[1]
	c := x.c
	if ct := x.cellType(b); ct != nil && !types.Identical(ct.Underlying(), t.Underlying()) {
		cu, tu := ct.Underlying(), t.Underlying()
		switch {
		case isByteSlice(cu) && isString(tu):
			// *(*string)(unsafe.Pointer(&byteSlice))
			s := x.load(st, ct, b, i)
			row := c.Select(x.heapSym(st, "uint8", SInt), s.C[0])
			return Val{t, []*Term{c.MkStr(row, s.C[1], s.C[2])}}
		case isString(cu) && isUnsafePtr(tu):
			// data pointer of a string: a read-only object holding its bytes
			s := x.load(st, ct, b, i).one()
			o := x.strObj(st, s)
			return Val{t, []*Term{o, c.Int(0)}}
		case isHeaderStruct(cu) && isByteSlice(tu):
			h := x.load(st, ct, b, i)
			return Val{t, []*Term{h.C[0], h.C[1], h.C[2], h.C[3]}}
		}
	}
	return x.load(st, t, b, i)
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}
func isHeaderStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 3 && isUnsafePtr(s.Field(0).Type())
}

// strObj returns an object whose byte row is the content of s.
func (x *Exec) strObj(st *State, s *Term) *Term {
	c := x.c
	b := c.Alloc()
	x.allocType[b.root] = types.NewSlice(types.Typ[types.Uint8])
	x.regLeaf(leaf{"uint8", SInt, big.NewInt(0), big.NewInt(255)})
	st.heap["uint8"] = c.Store(x.heapSym(st, "uint8", SInt), b, c.Sbytes(s))
	return b
}

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) bool {
	c := x.c
	o := x.val(st, fr, in.X)
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = x.val(st, fr, in.Low).one()
	} else {
		lo = c.Int(0)
	}
	if in.High != nil {
		hi = x.val(st, fr, in.High).one()
	}
	if in.Max != nil {
		mx = x.val(st, fr, in.Max).one()
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		n := c.Slen(o.one())
		if hi == nil {
			hi = n
		}
		if !x.boundCheck(st, fr, "slice-bounds", in.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n))) {
			return false
		}
		fr.env.set(in, Val{in.Type(), []*Term{x.substr(o.one(), lo, hi)}})
	case *types.Slice:
		if hi == nil {
			hi = o.C[2]
		}
		cp := o.C[3]
		if mx != nil {
			if !x.boundCheck(st, fr, "slice-bounds", in.Pos(), c.And(c.Le(hi, mx), c.Le(mx, cp))) {
				return false
			}
			cp = mx
		}
		if !x.boundCheck(st, fr, "slice-bounds", in.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, cp))) {
			return false
		}
		fr.env.set(in, Val{in.Type(), []*Term{o.C[0], c.Add(o.C[1], lo), c.Sub(hi, lo), c.Sub(cp, lo)}})
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := c.Int(at.Len())
		if !x.nilCheck(st, fr, o.C[0], in.Pos()) {
			return false
		}
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		if !x.boundCheck(st, fr, "slice-bounds", in.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n))) {
			return false
		}
		fr.env.set(in, Val{in.Type(), []*Term{c.ABase(o.C[0], o.C[1]), lo, c.Sub(hi, lo), c.Sub(mx, lo)}})
	default:
		x.fail("slice of %s", in.X.Type())
	}
	return true
}

func (x *Exec) substr(s, lo, hi *Term) *Term {
	c := x.c
	if s.op == "strlit" && lo.ival != nil && hi.ival != nil {
		return c.StrLit(s.name[lo.ival.Int64():hi.ival.Int64()])
	}
	if lo.ival != nil && lo.ival.Sign() == 0 && hi == c.Slen(s) {
		return s
	}
	return c.MkStr(c.Sbytes(s), lo, c.Sub(hi, lo))
}

// ---- operators ----
func (x *Exec) wrap(t *Term, ty types.Type) *Term {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	ii, ok := basicInt(b.Kind())
	if !ok {
		return t
	}
	return x.wrapII(t, ii)
}
func (x *Exec) wrapII(t *Term, ii intInfo) *Term {
	c := x.c
	lo, hi := ii.rng()
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	m := pow2(ii.bits)
	if t.ival != nil {
		v := new(big.Int).Mod(t.ival, m)
		if v.Cmp(hi) > 0 {
			v.Sub(v, m)
		}
		return c.Big(v)
	}
	mt := c.Big(m)
	// at most one modulus away: linear form
	if t.lo != nil && t.hi != nil && t.lo.Cmp(new(big.Int).Sub(lo, m)) >= 0 && t.hi.Cmp(new(big.Int).Add(hi, m)) <= 0 {
		r := t
		if t.hi.Cmp(hi) > 0 {
			r = c.Ite(c.Lt(c.Big(hi), t), c.Sub(t, mt), r)
		}
		if t.lo.Cmp(lo) < 0 {
			r = c.Ite(c.Lt(t, c.Big(lo)), c.Add(t, mt), r)
		}
		if r.op == "ite" {
			r.lo, r.hi = lo, hi
		}
		return r
	}
	if !ii.signed {
		return c.Mod(t, mt)
	}
	h := pow2(ii.bits - 1)
	return c.Sub(c.Mod(c.Add(t, c.Big(h)), mt), c.Big(h))
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (x *Exec) fpop(name string, s Sort, args ...*Term) *Term {
	return x.c.mk(&Term{op: "smt", name: name, sort: s, args: args})
}

func (x *Exec) binop(st *State, fr *Frame, in *ssa.BinOp) bool {
	c := x.c
	a, b := x.val(st, fr, in.X), x.val(st, fr, in.Y)
	if ph, is := in.X.(*ssa.Phi); is && ph.Comment == "rangeindex" && in.Op == token.ADD {
		// the hidden index of a range loop is below the length before it is incremented: no wrap-around
		fr.env.set(in, Val{in.Type(), []*Term{c.Add(a.C[0], b.C[0])}})
		return true
	}
	r, ok := x.binopT(st, fr, in.Op, a, b, in.X.Type(), in.Type(), in.Pos())
	if !ok {
		return false
	}
	if x.cmpLog != nil && len(a.C) == 1 && len(b.C) == 1 && a.C[0].sort == SInt {
		switch in.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			*x.cmpLog = append(*x.cmpLog, cmpRec{in.Op, a.C[0], b.C[0]})
		}
	}
	_ = c
	fr.env.set(in, Val{in.Type(), []*Term{r}})
	return true
}

func (x *Exec) binopT(st *State, fr *Frame, op token.Token, a, b Val, opT, resT types.Type, pos token.Pos) (*Term, bool) {
	c := x.c
	switch op {
	case token.EQL:
		return x.valEq(st, a, b), true
	case token.NEQ:
		return c.Not(x.valEq(st, a, b)), true
	}
	p, q := a.one(), b.one()
	if isString(opT) {
		switch op {
		case token.ADD:
			if p.op == "strlit" && q.op == "strlit" {
				return c.StrLit(p.name + q.name), true
			}
			r := c.App("sconcat", SStr, p, q)
			c.axiom(r, c.Eq(c.Slen(r), c.Add(c.Slen(p), c.Slen(q))))
			return r, true
		case token.LSS:
			return c.App("slt", SBool, p, q), true
		case token.GTR:
			return c.App("slt", SBool, q, p), true
		case token.LEQ:
			return c.Not(c.App("slt", SBool, q, p)), true
		case token.GEQ:
			return c.Not(c.App("slt", SBool, p, q)), true
		}
	}
	if isFloat(opT) {
		s := p.sort
		rm := c.mk(&Term{op: "fplit", name: "RNE", sort: "RoundingMode"})
		switch op {
		case token.ADD:
			return x.fpop("fp.add", s, rm, p, q), true
		case token.SUB:
			return x.fpop("fp.sub", s, rm, p, q), true
		case token.MUL:
			return x.fpop("fp.mul", s, rm, p, q), true
		case token.QUO:
			return x.fpop("fp.div", s, rm, p, q), true
		case token.LSS:
			return x.fpop("fp.lt", SBool, p, q), true
		case token.LEQ:
			return x.fpop("fp.leq", SBool, p, q), true
		case token.GTR:
			return x.fpop("fp.gt", SBool, p, q), true
		case token.GEQ:
			return x.fpop("fp.geq", SBool, p, q), true
		}
	}
	switch op {
	case token.ADD:
		return x.wrap(c.Add(p, q), resT), true
	case token.SUB:
		return x.wrap(c.Sub(p, q), resT), true
	case token.MUL:
		if m := c.Mul(p, q); p.ival == nil && q.ival == nil && st != nil {
			// a product of two variables: drop the wrap-around where the path condition excludes it
			if b, ok := resT.Underlying().(*types.Basic); ok {
				if ii, ok := basicInt(b.Kind()); ok {
					lo, hi := ii.rng()
					g := x.simp(st, c.And(c.Le(c.Big(lo), m), c.Le(m, c.Big(hi))))
					if g == c.True {
						return m, true
					}
					if r, _, _ := x.V.sol.Prove(c, st.pcs(), g, x.V.invTimeout, true); r == Unsat {
						return m, true
					}
				}
			}
		}
		return x.wrap(c.Mul(p, q), resT), true
	case token.QUO, token.REM:
		if !x.boundCheck(st, fr, "division-by-zero", pos, c.Not(c.Eq(q, c.Int(0)))) {
			return nil, false
		}
		return x.wrap(x.quoRem(op, p, q), resT), true
	case token.LSS:
		return c.Lt(p, q), true
	case token.LEQ:
		return c.Le(p, q), true
	case token.GTR:
		return c.Lt(q, p), true
	case token.GEQ:
		return c.Le(q, p), true
	case token.SHL:
		if q.ival != nil {
			if q.ival.Cmp(big.NewInt(64)) >= 0 {
				return c.Int(0), true
			}
			t := c.Mul(p, c.Big(pow2(uint(q.ival.Int64()))))
			return x.wrap(t, resT), true
		}
		return x.ufInt("shl_"+resT.String(), resT, p, q), true
	case token.SHR:
		if q.ival != nil {
			if q.ival.Cmp(big.NewInt(64)) >= 0 {
				if p.lo != nil && p.lo.Sign() >= 0 {
					return c.Int(0), true
				}
				return c.Ite(c.Lt(p, c.Int(0)), c.Int(-1), c.Int(0)), true
			}
			return c.Div(p, c.Big(pow2(uint(q.ival.Int64())))), true
		}
		return x.ufInt("shr_"+resT.String(), resT, p, q), true
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if p.sort == SBool {
			switch op {
			case token.AND:
				return c.And(p, q), true
			case token.OR:
				return c.Or(p, q), true
			case token.XOR:
				return c.Not(c.Eq(p, q)), true
			}
		}
		return x.bitop(op, p, q, resT), true
	}
	x.fail("binop %s on %s", op, opT)
	return nil, false
}
func (x *Exec) ufInt(name string, t types.Type, args ...*Term) *Term {
	r := x.c.App(name, SInt, args...)
	if b, ok := t.Underlying().(*types.Basic); ok {
		if ii, ok := basicInt(b.Kind()); ok {
			lo, hi := ii.rng()
			x.c.ranged(r, lo, hi)
		}
	}
	return r
}

func (x *Exec) quoRem(op token.Token, p, q *Term) *Term {
	c := x.c
	nonneg := func(t *Term) bool { return t.lo != nil && t.lo.Sign() >= 0 }
	if nonneg(p) && nonneg(q) {
		if op == token.QUO {
			return c.Div(p, q)
		}
		return c.Mod(p, q)
	}
	if p.ival != nil && q.ival != nil {
		if op == token.QUO {
			return c.Big(new(big.Int).Quo(p.ival, q.ival))
		}
		return c.Big(new(big.Int).Rem(p.ival, q.ival))
	}
	// truncated division
	abs := func(t *Term) *Term {
		if nonneg(t) {
			return t
		}
		return c.Ite(c.Le(c.Int(0), t), t, c.Neg(t))
	}
	ap, aq := abs(p), abs(q)
	if op == token.QUO {
		d := c.Div(ap, aq)
		same := c.Eq(c.Le(c.Int(0), p), c.Le(c.Int(0), q))
		return c.Ite(same, d, c.Neg(d))
	}
	m := c.Mod(ap, aq)
	return c.Ite(c.Le(c.Int(0), p), m, c.Neg(m))
}

func (x *Exec) bitop(op token.Token, p, q *Term, t types.Type) *Term {
	c := x.c
	b := t.Underlying().(*types.Basic)
	ii, _ := basicInt(b.Kind())
	if p.ival != nil && q.ival != nil {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(p.ival, q.ival)
		case token.OR:
			r.Or(p.ival, q.ival)
		case token.XOR:
			r.Xor(p.ival, q.ival)
		case token.AND_NOT:
			r.AndNot(p.ival, q.ival)
		}
		return x.wrapII(c.Big(r), ii)
	}
	if p.ival != nil && op != token.AND_NOT {
		p, q = q, p
	}
	nonneg := p.lo != nil && p.lo.Sign() >= 0
	if q.ival != nil && (nonneg || !ii.signed) && q.ival.Sign() >= 0 {
		m := q.ival
		switch op {
		case token.AND:
			return x.andConst(p, m)
		case token.AND_NOT:
			return c.Sub(p, x.andConst(p, m))
		case token.OR: // p | m = p + m - (p & m)
			return c.ranged2(c.Sub(c.Add(p, q), x.andConst(p, m)), ii)
		case token.XOR: // p ^ m = p + m - 2*(p&m)
			return c.ranged2(c.Sub(c.Add(p, q), c.Mul(c.Int(2), x.andConst(p, m))), ii)
		}
	}
	if op == token.OR || op == token.XOR {
		// disjoint bit ranges
		if p.lo != nil && p.lo.Sign() >= 0 && q.lo != nil && q.lo.Sign() >= 0 && p.hi != nil && q.hi != nil {
			if p.hi.Cmp(pow2(uint(q.zbits))) < 0 || q.hi.Cmp(pow2(uint(p.zbits))) < 0 {
				return c.Add(p, q)
			}
		}
	}
	r := x.ufInt("bit"+op.String()+"_"+b.Name(), t, p, q)
	if op == token.AND && !ii.signed {
		c.axiom(r, c.And(c.Le(r, p), c.Le(r, q)))
		// r != 0 implies both non-zero (follows); p==0 or q==0 -> 0
		c.axiom(r, c.Implies(c.Eq(p, q), c.Eq(r, p)))
	}
	if op == token.OR && !ii.signed {
		c.axiom(r, c.And(c.Le(p, r), c.Le(q, r), c.Le(r, c.Add(p, q))))
	}
	return r
}
func (c *Ctx) ranged2(t *Term, ii intInfo) *Term {
	if t.op == "int" {
		return t
	}
	lo, hi := ii.rng()
	if t.lo == nil || t.lo.Cmp(lo) < 0 {
		t.lo = lo
	}
	if t.hi == nil || t.hi.Cmp(hi) > 0 {
		t.hi = hi
	}
	return t
}

// andConst computes p & m for non-negative p and constant m as a sum over bit runs.
func (x *Exec) andConst(p *Term, m *big.Int) *Term {
	c := x.c
	r := c.Int(0)
	i := 0
	n := m.BitLen()
	for i < n {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		// bits [i,j)
		part := c.Mod(c.Div(p, c.Big(pow2(uint(i)))), c.Big(pow2(uint(j-i))))
		r = c.Add(r, c.Mul(c.Big(pow2(uint(i))), part))
		i = j
	}
	return r
}

func (x *Exec) unop(st *State, fr *Frame, in *ssa.UnOp) bool {
	c := x.c
	o := x.val(st, fr, in.X)
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			if v, ok := x.globalConst(st, g); ok {
				v.T = in.Type()
				fr.env.set(in, v)
				return true
			}
		}
		if !x.nilCheck(st, fr, o.C[0], in.Pos()) {
			return false
		}
		v := x.loadAs(st, fr, in.Type(), o)
		v.T = in.Type()
		fr.env.set(in, v)
	case token.NOT:
		fr.env.set(in, Val{in.Type(), []*Term{c.Not(o.one())}})
	case token.SUB:
		if isFloat(in.Type()) {
			fr.env.set(in, Val{in.Type(), []*Term{x.fpop("fp.neg", o.one().sort, o.one())}})
			return true
		}
		fr.env.set(in, Val{in.Type(), []*Term{x.wrap(c.Neg(o.one()), in.Type())}})
	case token.XOR:
		b := in.Type().Underlying().(*types.Basic)
		ii, _ := basicInt(b.Kind())
		if ii.signed {
			fr.env.set(in, Val{in.Type(), []*Term{c.Sub(c.Int(-1), o.one())}})
		} else {
			_, hi := ii.rng()
			fr.env.set(in, Val{in.Type(), []*Term{c.Sub(c.Big(hi), o.one())}})
		}
	case token.ARROW:
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		v := x.freshVal(st, et, "recv")
		if in.CommaOk {
			v.C = append(append([]*Term{}, v.C...), c.Fresh("recv.ok", SBool))
		}
		fr.env.set(in, Val{in.Type(), v.C})
	}
	return true
}

func (x *Exec) convert(st *State, fr *Frame, o Val, to types.Type, pos token.Pos) Val {
	c := x.c
	from := o.T
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		fi, f1 := basicInt(fb.Kind())
		_, t1 := basicInt(tb.Kind())
		_ = fi
		switch {
		case f1 && t1:
			return Val{to, []*Term{x.wrap(o.one(), to)}}
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			if o.one().sort == x.layout(to)[0].sort {
				return Val{to, o.C}
			}
			rm := c.mk(&Term{op: "fplit", name: "RNE", sort: "RoundingMode"})
			if tb.Kind() == types.Float32 {
				return Val{to, []*Term{x.fpop("(_ to_fp 8 24)", SF32, rm, o.one())}}
			}
			return Val{to, []*Term{x.fpop("(_ to_fp 11 53)", SF64, rm, o.one())}}
		case f1 && tb.Info()&types.IsFloat != 0:
			if o.one().ival != nil {
				f, _ := new(big.Float).SetInt(o.one().ival).Float64()
				return Val{to, []*Term{c.fplit(f, tb.Kind() != types.Float32)}}
			}
			s := x.layout(to)[0].sort
			return Val{to, []*Term{c.App("i2f_"+tb.Name(), s, o.one())}}
		case fb.Info()&types.IsFloat != 0 && t1:
			return Val{to, []*Term{x.ufInt("f2i_"+fb.Name()+"_"+tb.Name(), to, o.one())}}
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return Val{to, o.C}
		case f1 && tb.Info()&types.IsString != 0:
			return x.freshVal(st, to, "runestr")
		case fb.Kind() == types.UnsafePointer && t1: // uintptr
			return Val{to, []*Term{x.ufInt("ptr2int", to, o.C...)}}
		case f1 && tb.Kind() == types.UnsafePointer:
			return x.freshVal(st, to, "int2ptr")
		}
	}
	if isString(from) && isByteSlice(to) {
		b := x.strObj(st, o.one())
		n := c.Slen(o.one())
		return Val{to, []*Term{b, c.Int(0), n, n}}
	}
	if isByteSlice(from) && isString(to) {
		row := c.Select(x.heapSym(st, "uint8", SInt), o.C[0])
		return Val{to, []*Term{c.MkStr(row, o.C[1], o.C[2])}}
	}
	if len(x.layout(from)) == len(x.layout(to)) {
		return Val{to, o.C} // pointer/unsafe conversions keep the address
	}
	return x.freshVal(st, to, "conv")
}

// typeAssert returns true when execution continues in the same block.
func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert, b *ssa.BasicBlock, next int) bool {
	c := x.c
	o := x.val(st, fr, in.X)
	tag, bx := o.C[0], o.C[1]
	var ok *Term
	var v Val
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		ok = x.implTest(tag, in.AssertedType)
		v = Val{in.AssertedType, []*Term{tag, bx}}
	} else {
		ok = c.Eq(tag, x.typeID(in.AssertedType))
		v = x.unbox(st, in.AssertedType, bx)
	}
	ok = x.simp(st, ok)
	if !in.CommaOk {
		if !x.boundCheck(st, fr, "type-assertion", in.Pos(), ok) {
			return false
		}
		x.reboxFact(st, in.AssertedType, v, bx)
		fr.env.set(in, v)
		return true
	}
	z := x.zero(in.AssertedType)
	if ok == c.True {
		x.reboxFact(st, in.AssertedType, v, bx)
		fr.env.set(in, Val{in.Type(), append(append([]*Term{}, v.C...), c.True)})
		return true
	}
	if ok == c.False {
		fr.env.set(in, Val{in.Type(), append(append([]*Term{}, z.C...), c.False)})
		return true
	}
	x.fork(st, fr, []*Term{ok, c.Not(ok)}, func(k int, st *State, fr *Frame) {
		if k == 0 {
			x.reboxFact(st, in.AssertedType, v, bx)
			fr.env.set(in, Val{in.Type(), append(append([]*Term{}, v.C...), c.True)})
		} else {
			fr.env.set(in, Val{in.Type(), append(append([]*Term{}, z.C...), c.False)})
		}
		x.instrs(st, fr, b, next)
	})
	return false
}
func (x *Exec) reboxFact(st *State, t types.Type, v Val, bx *Term) {
	if _, isI := t.Underlying().(*types.Interface); isI || len(v.C) == 0 {
		return
	}
	nb := x.box(v)
	if nb != bx {
		x.assume(st, x.c.Eq(nb, bx))
	}
}

func (x *Exec) selectStmt(st *State, fr *Frame, in *ssa.Select, b *ssa.BasicBlock, next int) {
	c := x.c
	// any ready case may be chosen; -1 is the default
	n := len(in.States)
	lo := 0
	if !in.Blocking {
		lo = -1
	}
	for k := lo; k < n; k++ {
		s2 := st.clone()
		f2 := fr.fork()
		cs := []*Term{c.Int(int64(k)), c.Fresh("recvok", SBool)}
		finish := func(st *State, fr *Frame) {
			fr.env.set(in, Val{in.Type(), cs})
			x.instrs(st, fr, b, next)
		}
		at := -1
		for j, ss := range in.States {
			if ss.Dir == types.RecvOnly {
				et := ss.Chan.Type().Underlying().(*types.Chan).Elem()
				if j == k {
					at = len(cs)
					cs = append(cs, x.freshVal(s2, et, "recv").C...)
				} else {
					cs = append(cs, x.zero(et).C...)
				}
			} else if j == k {
				x.markEscape(x.val(s2, f2, ss.Send))
			}
		}
		if k >= 0 {
			ss := in.States[k]
			if ss.Dir == types.RecvOnly {
				if x.chanRecv(s2, f2, ss.Chan, in.Pos(), func(st *State, fr *Frame, v Val) {
					copy(cs[at:], v.C)
					finish(st, fr)
				}) {
					continue
				}
			} else if x.chanSend(s2, f2, ss.Chan, ss.Send, in.Pos(), finish) {
				continue
			}
		}
		finish(s2, f2)
	}
}

// ---- maps ----
func (x *Exec) mapKeys(mt types.Type) (string, *types.Map) {
	m := mt.Underlying().(*types.Map)
	return typeKey(m), m
}
func (x *Exec) keyTerm(kt types.Type, k Val) *Term {
	if len(k.C) == 1 && (k.C[0].sort == SInt || k.C[0].sort == SStr) {
		return k.C[0]
	}
	if _, ok := kt.Underlying().(*types.Interface); ok {
		return x.c.App("ifkey", SInt, k.C...)
	}
	return x.box(Val{kt, k.C})
}
func (x *Exec) keySort(kt types.Type) Sort {
	l := x.layout(kt)
	if len(l) == 1 && l[0].sort == SStr {
		return SStr
	}
	return SInt
}
func (x *Exec) mapHeap(st *State, name string, ks, s Sort) *Term {
	key := "m:" + name
	if h, ok := st.heap[key]; ok {
		return h
	}
	h := x.c.Var("H:"+key, arrOf(SInt, arrOf(ks, s)))
	h.birth = 1
	st.heap[key] = h
	x.mapSorts[key] = [2]Sort{ks, s}
	return h
}
func (x *Exec) mapInit(st *State, mt types.Type, b *Term) {
	n, m := x.mapKeys(mt)
	ks := x.keySort(m.Key())
	h := x.mapHeap(st, n+"#dom", ks, SBool)
	st.heap["m:"+n+"#dom"] = x.c.Store(h, b, x.c.ConstArr(arrOf(ks, SBool), x.c.False))
	lh := x.mapHeap(st, n+"#len", SInt, SInt)
	st.heap["m:"+n+"#len"] = x.c.Store(lh, b, x.c.ConstArr(arrOf(SInt, SInt), x.c.Int(0)))
}
func (x *Exec) mapLen(st *State, mt types.Type, b *Term) *Term {
	n, _ := x.mapKeys(mt)
	t := x.c.Select(x.c.Select(x.mapHeap(st, n+"#len", SInt, SInt), b), x.c.Int(0))
	x.c.ranged(t, big.NewInt(0), lenMax)
	return x.c.Ite(x.c.Eq(b, x.c.Int(0)), x.c.Int(0), t)
}
func (x *Exec) mapHas(st *State, mt types.Type, b *Term, k Val) *Term {
	n, m := x.mapKeys(mt)
	ks := x.keySort(m.Key())
	return x.c.And(x.c.Not(x.c.Eq(b, x.c.Int(0))), x.c.Select(x.c.Select(x.mapHeap(st, n+"#dom", ks, SBool), b), x.keyTerm(m.Key(), k)))
}
func (x *Exec) mapGet(st *State, mt types.Type, b *Term, k Val) Val {
	n, m := x.mapKeys(mt)
	ks := x.keySort(m.Key())
	kt := x.keyTerm(m.Key(), k)
	v := Val{T: m.Elem()}
	for i, l := range x.layout(m.Elem()) {
		h := x.mapHeap(st, fmt.Sprintf("%s#v%d", n, i), ks, l.sort)
		t := x.c.Select(x.c.Select(h, b), kt)
		if t.op == "select" {
			x.c.ranged(t, l.lo, l.hi)
		}
		v.C = append(v.C, t)
	}
	x.wellFormed(st, v)
	return v
}
func (x *Exec) mapStore(st *State, mt types.Type, b *Term, k, v Val) {
	n, m := x.mapKeys(mt)
	c := x.c
	ks := x.keySort(m.Key())
	kt := x.keyTerm(m.Key(), k)
	x.markEscape(k, v)
	has := x.mapHas(st, mt, b, k)
	ln := x.c.Select(x.c.Select(x.mapHeap(st, n+"#len", SInt, SInt), b), c.Int(0))
	c.ranged(ln, big.NewInt(0), lenMax)
	x.mapSet(st, n+"#len", SInt, SInt, b, c.Int(0), c.Ite(has, ln, c.Add(ln, c.Int(1))))
	x.mapSet(st, n+"#dom", ks, SBool, b, kt, c.True)
	for i, l := range x.layout(m.Elem()) {
		x.mapSet(st, fmt.Sprintf("%s#v%d", n, i), ks, l.sort, b, kt, v.C[i])
	}
}
func (x *Exec) mapDelete(st *State, mt types.Type, b *Term, k Val) {
	n, m := x.mapKeys(mt)
	c := x.c
	ks := x.keySort(m.Key())
	kt := x.keyTerm(m.Key(), k)
	has := x.mapHas(st, mt, b, k)
	ln := x.c.Select(x.c.Select(x.mapHeap(st, n+"#len", SInt, SInt), b), c.Int(0))
	c.ranged(ln, big.NewInt(0), lenMax)
	x.mapSet(st, n+"#len", SInt, SInt, b, c.Int(0), c.Ite(has, c.Sub(ln, c.Int(1)), ln))
	x.mapSet(st, n+"#dom", ks, SBool, b, kt, c.False)
}
func (x *Exec) mapSet(st *State, name string, ks, s Sort, b, k, v *Term) {
	h := x.mapHeap(st, name, ks, s)
	st.heap["m:"+name] = x.c.Store(h, b, x.c.Store(x.c.Select(h, b), k, v))
	st.writes = &writeNode{key: "m:" + name, base: b, prev: st.writes}
}
func (x *Exec) lookup(st *State, fr *Frame, in *ssa.Lookup) bool {
	c := x.c
	o := x.val(st, fr, in.X)
	k := x.val(st, fr, in.Index)
	if isString(in.X.Type()) {
		i := k.one()
		if !x.boundCheck(st, fr, "index-out-of-range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Slen(o.one())))) {
			return false
		}
		fr.env.set(in, Val{in.Type(), []*Term{c.Sbyte(o.one(), i)}})
		return true
	}
	mt := in.X.Type()
	has := x.simp(st, x.mapHas(st, mt, o.one(), k))
	v := x.mapGet(st, mt, o.one(), k)
	z := x.zero(v.T)
	cs := make([]*Term, len(v.C))
	for i := range v.C {
		cs[i] = c.Ite(has, v.C[i], z.C[i])
	}
	if in.CommaOk {
		cs = append(cs, has)
	}
	fr.env.set(in, Val{in.Type(), cs})
	return true
}
