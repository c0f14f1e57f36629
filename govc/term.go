package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sorts are SMT-LIB sort strings.
type Sort = string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SF64  Sort = "(_ FloatingPoint 11 53)"
	SF32  Sort = "(_ FloatingPoint 8 24)"
)

func arrOf(dom, s Sort) Sort { return "(Array " + dom + " " + s + ")" }

// elemSort returns the element sort of an array sort "(Array D S)".
func elemSort(a Sort) Sort {
	d, s := splitArr(a)
	_ = d
	return s
}
func splitArr(a Sort) (string, string) {
	in := a[len("(Array ") : len(a)-1]
	// first token
	if in[0] != '(' {
		i := strings.IndexByte(in, ' ')
		return in[:i], in[i+1:]
	}
	depth := 0
	for i := 0; i < len(in); i++ {
		if in[i] == '(' {
			depth++
		} else if in[i] == ')' {
			depth--
			if depth == 0 {
				return in[:i+1], in[i+2:]
			}
		}
	}
	panic("bad array sort " + a)
}

// Term is a hash-consed SMT term.
type Term struct {
	op    string // "var","int","true","false","app" names, ...
	args  []*Term
	sort  Sort
	name  string // for var / uf name / literal
	ival  *big.Int
	id    int
	lo    *big.Int
	hi    *big.Int
	birth int // max birth of the leaves
	wild  bool
	bound bool // contains a bound variable
	zbits int  // number of low bits known to be zero
	root  int  // alloc number if this is the base of an allocation (>0)
}

// Ctx owns a term table.  One Ctx per verified function.
type Ctx struct {
	tab      map[string]*Term
	n        int
	fresh    int
	True     *Term
	False    *Term
	clock    int
	ufs      map[string]ufDecl // uninterpreted functions
	vars     map[string]*Term
	negSkT   map[int]*Term
	skolems  map[int][]*Term
	axioms   map[int][]*Term // term id -> ground facts to assert whenever the term occurs
	frozen   map[string]bool // field keys
	escape   map[int]int     // alloc number -> clock at escape
	nalloc   int
	strs     map[string]*Term
	heapZero map[int]*Term // heap symbol id -> zero row: contents of objects allocated after the symbol
}
type ufDecl struct {
	args []Sort
	res  Sort
}

func NewCtx() *Ctx {
	c := &Ctx{negSkT: map[int]*Term{}, skolems: map[int][]*Term{}, tab: map[string]*Term{}, ufs: map[string]ufDecl{}, vars: map[string]*Term{}, axioms: map[int][]*Term{}, escape: map[int]int{}, strs: map[string]*Term{}, heapZero: map[int]*Term{}}
	c.True = c.mk(&Term{op: "true", sort: SBool})
	c.False = c.mk(&Term{op: "false", sort: SBool})
	c.clock = 1
	return c
}

func (c *Ctx) key(t *Term) string {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	if t.op == "constarr" || t.op == "forall" || t.op == "exists" {
		sb.WriteString(t.sort)
	}
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return sb.String()
}

func (c *Ctx) mk(t *Term) *Term {
	k := c.key(t)
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.n++
	t.id = c.n
	for _, a := range t.args {
		if a.birth > t.birth {
			t.birth = a.birth
		}
		if a.wild {
			t.wild = true
		}
		if a.bound {
			t.bound = true
		}
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) Int(i int64) *Term { return c.Big(big.NewInt(i)) }
func (c *Ctx) Big(b *big.Int) *Term {
	t := &Term{op: "int", sort: SInt, name: b.String(), ival: b, lo: b, hi: b}
	if b.Sign() == 0 {
		t.zbits = 64
	} else {
		for i := 0; i < b.BitLen() && b.Bit(i) == 0; i++ {
			t.zbits++
		}
	}
	return c.mk(t)
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var declares (or returns) the named free variable.
func (c *Ctx) Var(name string, s Sort) *Term {
	if v, ok := c.vars[name]; ok {
		return v
	}
	t := &Term{op: "var", sort: s, name: name}
	t.birth = c.clock
	t = c.mk(t)
	c.vars[name] = t
	return t
}

// Fresh returns a new free variable.
func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	c.fresh++
	c.clock++
	t := c.Var(fmt.Sprintf("%s!%d", sanitize(prefix), c.fresh), s)
	t.birth = c.clock
	return t
}
func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (c *Ctx) BoundVar(name string, s Sort) *Term {
	c.fresh++
	t := &Term{op: "bvar", sort: s, name: fmt.Sprintf("%s?%d", sanitize(name), c.fresh), bound: true}
	return c.mk(t)
}

func (c *Ctx) ranged(t *Term, lo, hi *big.Int) *Term {
	if t.op == "int" {
		return t
	}
	if t.lo == nil || lo != nil && lo.Cmp(t.lo) > 0 {
		t.lo = lo
	}
	if t.hi == nil || hi != nil && hi.Cmp(t.hi) < 0 {
		t.hi = hi
	}
	return t
}

// App applies an uninterpreted function.
func (c *Ctx) App(name string, res Sort, args ...*Term) *Term {
	if _, ok := c.ufs[name]; !ok {
		d := ufDecl{res: res}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		c.ufs[name] = d
	}
	return c.mk(&Term{op: "uf", name: name, sort: res, args: args})
}

func (c *Ctx) axiom(on *Term, fact *Term) {
	// axioms on terms under a quantifier are kept for their ground instances (see Subst), never asserted
	for _, f := range c.axioms[on.id] {
		if f == fact {
			return
		}
	}
	c.axioms[on.id] = append(c.axioms[on.id], fact)
}

// ---- boolean ----
func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.False
	case "false":
		return c.True
	case "not":
		return a.args[0]
	case "<=": // not (a<=b) -> b < a  i.e. b+1 <= a
		return c.Le(c.Add(a.args[1], c.Int(1)), a.args[0])
	}
	return c.mk(&Term{op: "not", sort: SBool, args: []*Term{a}})
}
func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.op == "and" {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		if a == c.False {
			return c.False
		}
		if a == c.True || seen[a.id] {
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: "and", sort: SBool, args: out})
}
func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.op == "or" {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		if a == c.True {
			return c.True
		}
		if a == c.False || seen[a.id] {
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return c.True
		}
	}
	if len(out) == 0 {
		return c.False
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: "or", sort: SBool, args: out})
}
func (c *Ctx) Implies(a, b *Term) *Term {
	if a == c.True {
		return b
	}
	if a == c.False || b == c.True {
		return c.True
	}
	if b == c.False {
		return c.Not(a)
	}
	return c.mk(&Term{op: "=>", sort: SBool, args: []*Term{a, b}})
}
func (c *Ctx) Ite(b, x, y *Term) *Term {
	if b == c.True || x == y {
		return x
	}
	if b == c.False {
		return y
	}
	if x.sort == SBool {
		return c.Or(c.And(b, x), c.And(c.Not(b), y))
	}
	t := &Term{op: "ite", sort: x.sort, args: []*Term{b, x, y}}
	if x.lo != nil && y.lo != nil {
		t.lo = minB(x.lo, y.lo)
	}
	if x.hi != nil && y.hi != nil {
		t.hi = maxB(x.hi, y.hi)
	}
	return c.mk(t)
}
func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		if a.sort != SF64 && a.sort != SF32 {
			return c.True
		}
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s %s: %s = %s", a.sort, b.sort, c.Str(a), c.Str(b)))
	}
	if a.sort == SInt {
		if a.ival != nil && b.ival != nil {
			return c.Bool(a.ival.Cmp(b.ival) == 0)
		}
		if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 || b.hi != nil && a.lo != nil && b.hi.Cmp(a.lo) < 0 {
			return c.False
		}
		la, lb := c.lin(a), c.lin(b)
		d := la.sub(lb)
		if len(d.co) == 0 {
			return c.Bool(d.k.Sign() == 0)
		}
		if a.op == "ite" && b.ival != nil {
			x, y := a.args[1], a.args[2]
			if x.ival != nil || y.ival != nil {
				return c.Or(c.And(a.args[0], c.Eq(x, b)), c.And(c.Not(a.args[0]), c.Eq(y, b)))
			}
		}
		if b.op == "ite" && a.ival != nil {
			return c.Eq(b, a)
		}
		if a.op == "uf" && b.op == "uf" && strings.HasPrefix(a.name, "box_") && strings.HasPrefix(b.name, "box_") {
			if a.name != b.name {
				return c.False
			}
			var es []*Term
			for i := range a.args {
				es = append(es, c.Eq(a.args[i], b.args[i]))
			}
			return c.And(es...)
		}
		if c.distinctBase(a, b) {
			return c.False
		}
	}
	if a.sort == SBool {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if a.sort == SStr {
		if a.op == "strlit" && b.op == "strlit" {
			return c.Bool(a.name == b.name)
		}
		if a.op == "strlit" && a.name == "" {
			return c.Eq(c.Slen(b), c.Int(0))
		}
		if b.op == "strlit" && b.name == "" {
			return c.Eq(c.Slen(a), c.Int(0))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}

// ---- linear arithmetic normal form ----
type linf struct {
	co map[int]*big.Int
	ts map[int]*Term
	k  *big.Int
}

func (c *Ctx) lin(t *Term) linf {
	l := linf{map[int]*big.Int{}, map[int]*Term{}, big.NewInt(0)}
	c.linAdd(&l, t, big.NewInt(1))
	return l
}
func (c *Ctx) linAdd(l *linf, t *Term, m *big.Int) {
	switch t.op {
	case "int":
		l.k = new(big.Int).Add(l.k, new(big.Int).Mul(m, t.ival))
	case "+":
		for _, a := range t.args {
			c.linAdd(l, a, m)
		}
	case "*":
		if t.args[0].ival != nil {
			c.linAdd(l, t.args[1], new(big.Int).Mul(m, t.args[0].ival))
			return
		}
		l.add(t, m)
	default:
		l.add(t, m)
	}
}
func (l *linf) add(t *Term, m *big.Int) {
	if o, ok := l.co[t.id]; ok {
		s := new(big.Int).Add(o, m)
		if s.Sign() == 0 {
			delete(l.co, t.id)
			delete(l.ts, t.id)
		} else {
			l.co[t.id] = s
		}
		return
	}
	l.co[t.id] = new(big.Int).Set(m)
	l.ts[t.id] = t
}
func (a linf) sub(b linf) linf {
	r := linf{map[int]*big.Int{}, map[int]*Term{}, new(big.Int).Sub(a.k, b.k)}
	for i, v := range a.co {
		r.co[i] = v
		r.ts[i] = a.ts[i]
	}
	for i, v := range b.co {
		(&r).add(b.ts[i], new(big.Int).Neg(v))
	}
	return r
}
func (c *Ctx) fromLin(l linf) *Term {
	ids := make([]int, 0, len(l.co))
	for i := range l.co {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	var args []*Term
	for _, i := range ids {
		t := l.ts[i]
		m := l.co[i]
		if m.Cmp(big.NewInt(1)) == 0 {
			args = append(args, t)
		} else {
			args = append(args, c.mulc(m, t))
		}
	}
	if l.k.Sign() != 0 || len(args) == 0 {
		args = append(args, c.Big(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	t := &Term{op: "+", sort: SInt, args: args}
	lo, hi := big.NewInt(0), big.NewInt(0)
	z := 64
	for _, a := range args {
		if lo != nil {
			if a.lo == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, a.lo)
			}
		}
		if hi != nil {
			if a.hi == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, a.hi)
			}
		}
		if a.zbits < z {
			z = a.zbits
		}
	}
	t.lo, t.hi, t.zbits = lo, hi, z
	return c.mk(t)
}
func (c *Ctx) mulc(m *big.Int, t *Term) *Term {
	mt := c.Big(m)
	x := &Term{op: "*", sort: SInt, args: []*Term{mt, t}}
	if m.Sign() >= 0 {
		if t.lo != nil {
			x.lo = new(big.Int).Mul(m, t.lo)
		}
		if t.hi != nil {
			x.hi = new(big.Int).Mul(m, t.hi)
		}
	} else {
		if t.hi != nil {
			x.lo = new(big.Int).Mul(m, t.hi)
		}
		if t.lo != nil {
			x.hi = new(big.Int).Mul(m, t.lo)
		}
	}
	x.zbits = mt.zbits + t.zbits
	return c.mk(x)
}
func (c *Ctx) Add(a, b *Term) *Term {
	l := c.lin(a)
	c.linAdd(&l, b, big.NewInt(1))
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	return c.fromLin(c.lin(a).sub(c.lin(b)))
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.Int(0), a) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.ival != nil {
		l := linf{map[int]*big.Int{}, map[int]*Term{}, big.NewInt(0)}
		c.linAdd(&l, b, a.ival)
		if a.ival.Sign() == 0 {
			return c.Int(0)
		}
		return c.fromLin(l)
	}
	if b.ival != nil {
		return c.Mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := &Term{op: "*", sort: SInt, args: []*Term{a, b}}
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		ps := []*big.Int{new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi)}
		t.lo, t.hi = ps[0], ps[0]
		for _, p := range ps {
			t.lo = minB(t.lo, p)
			t.hi = maxB(t.hi, p)
		}
	}
	return c.mk(t)
}
func (c *Ctx) Le(a, b *Term) *Term {
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) <= 0 {
		return c.True
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return c.False
	}
	d := c.lin(b).sub(c.lin(a))
	if len(d.co) == 0 {
		return c.Bool(d.k.Sign() >= 0)
	}
	// bounds on the difference
	dt := c.fromLin(d)
	if dt.lo != nil && dt.lo.Sign() >= 0 {
		return c.True
	}
	if dt.hi != nil && dt.hi.Sign() < 0 {
		return c.False
	}
	// canonical: split positive and negative parts
	pos := linf{map[int]*big.Int{}, map[int]*Term{}, big.NewInt(0)}
	neg := linf{map[int]*big.Int{}, map[int]*Term{}, big.NewInt(0)}
	for i, v := range d.co {
		if v.Sign() > 0 {
			(&pos).add(d.ts[i], v)
		} else {
			(&neg).add(d.ts[i], new(big.Int).Neg(v))
		}
	}
	if len(pos.co) == 0 {
		pos.k = d.k
	} else if len(neg.co) == 0 {
		neg.k = new(big.Int).Neg(d.k)
	} else if d.k.Sign() > 0 {
		pos.k = d.k
	} else {
		neg.k = new(big.Int).Neg(d.k)
	}
	return c.mk(&Term{op: "<=", sort: SBool, args: []*Term{c.fromLin(neg), c.fromLin(pos)}})
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.Add(a, c.Int(1)), b) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

// FloorDiv / Mod by positive constants or general (SMT semantics).
func (c *Ctx) Div(a, b *Term) *Term {
	if b.ival != nil && b.ival.Sign() > 0 {
		if a.ival != nil {
			q, _ := new(big.Int).DivMod(a.ival, b.ival, new(big.Int))
			return c.Big(q)
		}
		if b.ival.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.ival) < 0 {
			return c.Int(0)
		}
		// (x*k + r)/b with b | k
		l := c.lin(a)
		q := linf{map[int]*big.Int{}, map[int]*Term{}, big.NewInt(0)}
		r := linf{map[int]*big.Int{}, map[int]*Term{}, new(big.Int).Set(l.k)}
		any := false
		for i, v := range l.co {
			m := new(big.Int).Mod(v, b.ival)
			if m.Sign() == 0 {
				(&q).add(l.ts[i], new(big.Int).Div(v, b.ival))
				any = true
			} else {
				(&r).add(l.ts[i], v)
			}
		}
		if any {
			rt := c.fromLin(r)
			return c.Add(c.fromLin(q), c.Div(rt, b))
		}
		if a.op == "div" && a.args[1].ival != nil {
			return c.Div(a.args[0], c.Big(new(big.Int).Mul(a.args[1].ival, b.ival)))
		}
	}
	t := &Term{op: "div", sort: SInt, args: []*Term{a, b}}
	if b.ival != nil && b.ival.Sign() > 0 {
		if a.lo != nil {
			t.lo = floorDiv(a.lo, b.ival)
		}
		if a.hi != nil {
			t.hi = floorDiv(a.hi, b.ival)
		}
	} else if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		t.lo = big.NewInt(0)
		t.hi = a.hi
	}
	return c.mk(t)
}
func floorDiv(a, b *big.Int) *big.Int {
	q, _ := new(big.Int).DivMod(a, b, new(big.Int))
	return q
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if b.ival != nil && b.ival.Sign() > 0 {
		if a.ival != nil {
			return c.Big(new(big.Int).Mod(a.ival, b.ival))
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.ival) < 0 {
			return a
		}
		l := c.lin(a)
		r := linf{map[int]*big.Int{}, map[int]*Term{}, new(big.Int).Mod(l.k, b.ival)}
		ch := r.k.Cmp(l.k) != 0
		for i, v := range l.co {
			m := new(big.Int).Mod(v, b.ival)
			if m.Cmp(v) != 0 {
				ch = true
			}
			if m.Sign() != 0 {
				(&r).add(l.ts[i], m)
			}
		}
		if ch {
			return c.Mod(c.fromLin(r), b)
		}
		if a.op == "mod" && a.args[1].ival != nil && new(big.Int).Mod(a.args[1].ival, b.ival).Sign() == 0 {
			return c.Mod(a.args[0], b)
		}
	}
	t := &Term{op: "mod", sort: SInt, args: []*Term{a, b}}
	if b.ival != nil && b.ival.Sign() > 0 {
		t.lo = big.NewInt(0)
		t.hi = new(big.Int).Sub(b.ival, big.NewInt(1))
	} else if b.lo != nil && b.lo.Sign() > 0 {
		t.lo = big.NewInt(0)
		if b.hi != nil {
			t.hi = new(big.Int).Sub(b.hi, big.NewInt(1))
		}
	}
	return c.mk(t)
}

// ---- arrays ----
func (c *Ctx) ConstArr(s Sort, v *Term) *Term {
	return c.mk(&Term{op: "constarr", sort: s, args: []*Term{v}})
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		return c.Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk(&Term{op: "store", sort: a.sort, args: []*Term{a, i, v}})
}
func (c *Ctx) idxDistinct(i, j *Term) bool {
	if i.sort == SStr {
		return i.op == "strlit" && j.op == "strlit" && i.name != j.name
	}
	if i.sort != SInt {
		return false
	}
	if i.ival != nil && j.ival != nil {
		return i.ival.Cmp(j.ival) != 0
	}
	if i.hi != nil && j.lo != nil && i.hi.Cmp(j.lo) < 0 || j.hi != nil && i.lo != nil && j.hi.Cmp(i.lo) < 0 {
		return true
	}
	if c.distinctBase(i, j) {
		return true
	}
	if i.op == "uf" && j.op == "uf" && strings.HasPrefix(i.name, "box_") && strings.HasPrefix(j.name, "box_") {
		if i.name != j.name {
			return true
		}
		for k := range i.args {
			if i.args[k].sort == SInt && c.idxDistinct(i.args[k], j.args[k]) {
				return true
			}
		}
	}
	if i.op == "uf" || j.op == "uf" || i.op == "var" && j.op == "var" {
		return false
	}
	d := c.lin(i).sub(c.lin(j))
	return len(d.co) == 0 && d.k.Sign() != 0
}
func (c *Ctx) Select(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			if a.args[1] == i {
				return a.args[2]
			}
			if c.idxDistinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		case "constarr":
			return a.args[0]
		case "havoc": // (before, fresh symbol): objects that had not escaped keep their contents
			if r := rootOf(i); r.op == "alloc" {
				if a.args[1].birth < r.birth {
					if z, ok := c.heapZero[a.args[1].id]; ok {
						return z
					}
				} else if e, ok := c.escape[r.root]; !ok || e > a.args[1].birth {
					a = a.args[0]
					continue
				}
			}
			if len(c.frozen) > 0 && c.isFrozen(i) {
				a = a.args[0]
				continue
			}
			return c.Select(a.args[1], i)
		case "var":
			if r := rootOf(i); r.op == "alloc" && a.birth < r.birth {
				if z, ok := c.heapZero[a.id]; ok {
					return z
				}
			}
		case "ite":
			x, y := c.Select(a.args[1], i), c.Select(a.args[2], i)
			if x == y {
				return x
			}
			if x.op != "select" || y.op != "select" {
				return c.Ite(a.args[0], x, y)
			}
		}
		break
	}
	return c.mk(&Term{op: "select", sort: elemSort(a.sort), args: []*Term{a, i}})
}

// Havoc returns a heap that is arbitrary except on objects that have not escaped.
func (c *Ctx) Havoc(h *Term, name string) *Term {
	v := c.Fresh(name, h.sort)
	return c.mk(&Term{op: "havoc", sort: h.sort, args: []*Term{h, v}})
}

// ---- bases (object identities) ----
// Alloc returns a fresh object base.
func (c *Ctx) Alloc() *Term {
	c.nalloc++
	c.clock++
	n := c.nalloc
	t := c.mk(&Term{op: "alloc", sort: SInt, name: strconv.Itoa(n), root: n, lo: big.NewInt(1000000 + int64(n)), hi: big.NewInt(1000000 + int64(n)), birth: c.clock})
	return t
}
func (c *Ctx) Global(name string) *Term {
	return c.mk(&Term{op: "global", sort: SInt, name: name, lo: nil})
}

// rootOf strips field/array-element base functions.
// isFrozen: a field that no function writes after construction (checked by CheckOwners) keeps its contents over unknown calls.
func (c *Ctx) isFrozen(t *Term) bool {
	for ; t.op == "fbase"; t = t.args[0] {
		if c.frozen[t.name] {
			return true
		}
	}
	return false
}
func rootOf(t *Term) *Term {
	for t.op == "fbase" || t.op == "abase" {
		t = t.args[0]
	}
	return t
}

// FBase is the base holding field f of the structs based at b.
func (c *Ctx) FBase(f string, b *Term) *Term {
	t := c.mk(&Term{op: "fbase", name: f, sort: SInt, args: []*Term{b}})
	return t
}

// ABase is the base holding the elements of the array stored at cell (b,i).
func (c *Ctx) ABase(b, i *Term) *Term {
	return c.mk(&Term{op: "abase", name: "", sort: SInt, args: []*Term{b, i}})
}

func (c *Ctx) distinctBase(a, b *Term) bool {
	if a == b {
		return false
	}
	isb := func(t *Term) bool { return t.op == "alloc" || t.op == "fbase" || t.op == "abase" || t.op == "global" }
	if !isb(a) && !isb(b) {
		return false
	}
	if a.ival != nil || b.ival != nil { // nil (0) or literal
		return true
	}
	if a.op == "fbase" && b.op == "fbase" {
		if a.name != b.name {
			return true
		}
		return c.distinctObj(a.args[0], b.args[0])
	}
	if a.op == "abase" && b.op == "abase" {
		return c.distinctObj(a.args[0], b.args[0]) || c.idxDistinct(a.args[1], b.args[1])
	}
	if (a.op == "fbase" || a.op == "abase") && (b.op == "alloc" || b.op == "global" || (b.op == "abase" || b.op == "fbase") && b.op != a.op) {
		return true
	}
	if (b.op == "fbase" || b.op == "abase") && (a.op == "alloc" || a.op == "global") {
		return true
	}
	return c.distinctObj(rootOf(a), rootOf(b))
}
func (c *Ctx) distinctObj(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == "fbase" || a.op == "abase" || b.op == "fbase" || b.op == "abase" {
		if c.distinctBase(a, b) {
			return true
		}
		a, b = rootOf(a), rootOf(b)
		if a == b {
			return false
		}
	}
	ra := a.op == "alloc" || a.op == "global"
	rb := b.op == "alloc" || b.op == "global"
	if ra && rb {
		return true
	}
	if a.op == "alloc" {
		return c.allocVsTerm(a, b)
	}
	if b.op == "alloc" {
		return c.allocVsTerm(b, a)
	}
	return false
}

// allocVsTerm: can the symbolic base t be the allocation a?
func (c *Ctx) allocVsTerm(a, t *Term) bool {
	if t.ival != nil {
		return true
	}
	if t.bound {
		return false
	}
	if t.birth < a.birth {
		return true // t existed before a was allocated
	}
	if t.wild {
		return false
	}
	if e, ok := c.escape[a.root]; ok && e <= t.birth {
		return false
	}
	// a not escaped when t was born: t is a symbol/selection that cannot reach a
	return t.op == "var" || t.op == "select" || t.op == "uf"
}

// ---- strings ----
func (c *Ctx) StrLit(s string) *Term {
	t := c.mk(&Term{op: "strlit", name: s, sort: SStr})
	c.strs[s] = t
	return t
}
func (c *Ctx) Slen(s *Term) *Term {
	if s.op == "strlit" {
		return c.Int(int64(len(s.name)))
	}
	if s.op == "uf" && s.name == "mkstr" {
		return s.args[2]
	}
	t := c.App("slen", SInt, s)
	c.ranged(t, big.NewInt(0), big.NewInt(1<<40))
	return t
}
func (c *Ctx) Sbytes(s *Term) *Term { return c.App("sbytes", arrOf(SInt, SInt), s) }
func (c *Ctx) Sbyte(s, i *Term) *Term {
	if s.op == "strlit" && i.ival != nil && i.ival.IsInt64() {
		k := i.ival.Int64()
		if k >= 0 && k < int64(len(s.name)) {
			return c.Int(int64(s.name[k]))
		}
	}
	t := c.Select(c.Sbytes(s), i)
	c.ranged(t, big.NewInt(0), big.NewInt(255))
	return t
}

// MkStr is the string with bytes arr[off..off+n).
func (c *Ctx) MkStr(arr, off, n *Term) *Term {
	if n.ival != nil && n.ival.Sign() == 0 {
		return c.StrLit("")
	}
	t := c.App("mkstr", SStr, arr, off, n)
	if !t.bound {
		k := c.BoundVar("k", SInt)
		c.axiom(t, c.Forall([]*Term{k}, c.Implies(c.And(c.Le(c.Int(0), k), c.Lt(k, n)), c.Eq(c.mk(&Term{op: "select", sort: SInt, args: []*Term{c.Sbytes(t), k}}), c.Select(arr, c.Add(off, k)))), c.mk(&Term{op: "select", sort: SInt, args: []*Term{c.Sbytes(t), k}})))
	}
	return t
}

// Forall with optional trigger.
func (c *Ctx) Forall(vs []*Term, body *Term, trig ...*Term) *Term {
	if body == c.True {
		return body
	}
	args := append([]*Term{}, vs...)
	args = append(args, body)
	args = append(args, trig...)
	t := &Term{op: "forall", sort: SBool, name: strconv.Itoa(len(vs)), args: args}
	t = c.mk(t)
	// closed unless some other bound variable occurs
	t.bound = hasOtherBound(body, vs)
	return t
}
func hasOtherBound(t *Term, vs []*Term) bool {
	if !t.bound {
		return false
	}
	if t.op == "bvar" {
		for _, v := range vs {
			if v == t {
				return false
			}
		}
		return true
	}
	if t.op == "forall" {
		n, _ := strconv.Atoi(t.name)
		return hasOtherBound(t.args[n], append(append([]*Term{}, vs...), t.args[:n]...))
	}
	for _, a := range t.args {
		if hasOtherBound(a, vs) {
			return true
		}
	}
	return false
}

// Subst replaces terms by id.
func (c *Ctx) Subst(t *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t.id]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	ch := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = c.Subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		switch t.op {
		case "and":
			r = c.And(args...)
		case "or":
			r = c.Or(args...)
		case "not":
			r = c.Not(args[0])
		case "=>":
			r = c.Implies(args[0], args[1])
		case "=":
			r = c.Eq(args[0], args[1])
		case "<=":
			r = c.Le(args[0], args[1])
		case "+":
			r = args[0]
			for _, a := range args[1:] {
				r = c.Add(r, a)
			}
		case "*":
			r = c.Mul(args[0], args[1])
		case "div":
			r = c.Div(args[0], args[1])
		case "mod":
			r = c.Mod(args[0], args[1])
		case "select":
			r = c.Select(args[0], args[1])
			if r.op == "select" && r.lo == nil && r.hi == nil {
				r.lo, r.hi = t.lo, t.hi
			}
		case "store":
			r = c.Store(args[0], args[1], args[2])
		case "ite":
			r = c.Ite(args[0], args[1], args[2])
		default:
			r = c.mk(&Term{op: t.op, name: t.name, sort: t.sort, args: args, lo: t.lo, hi: t.hi, zbits: t.zbits})
			if t.op == "forall" {
				n, _ := strconv.Atoi(t.name)
				r.bound = hasOtherBound(args[n], args[:n])
			}
		}
	}
	memo[t.id] = r
	if r != t {
		for _, a := range c.axioms[t.id] {
			if b := c.Subst(a, m, memo); b != c.True && b.bound == r.bound {
				c.axiom(r, b)
			}
		}
	}
	return r
}

// Str renders a term for diagnostics (depth limited).
func (c *Ctx) Str(t *Term) string { return strTerm(t, 6) }
func strTerm(t *Term, d int) string {
	switch t.op {
	case "var", "bvar", "int":
		return t.name
	case "strlit":
		return strconv.Quote(t.name)
	case "alloc":
		return "alloc#" + t.name
	case "global":
		return "&" + t.name
	case "true", "false":
		return t.op
	}
	if d == 0 {
		return "..."
	}
	var sb strings.Builder
	sb.WriteByte('(')
	if t.op == "uf" || t.op == "fbase" {
		sb.WriteString(t.name)
	} else {
		sb.WriteString(t.op)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(strTerm(a, d-1))
	}
	sb.WriteByte(')')
	return sb.String()
}

// occurs reports whether a term with one of the ids occurs in t.
func occurs(t *Term, ids map[int]bool, memo map[int]bool) bool {
	if ids[t.id] {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if occurs(a, ids, memo) {
			r = true
			break
		}
	}
	memo[t.id] = r
	return r
}
