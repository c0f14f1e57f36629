package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type contFn func(st *State, fr *Frame, res []Val)

func (x *Exec) call(st *State, fr *Frame, cc *ssa.CallCommon, fv Val, args []Val, pos token.Pos, cont contFn) bool {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		x.builtin(st, fr, b, cc, args, pos, cont)
		return false
	}
	res := cc.Signature().Results()
	if cc.IsInvoke() {
		tag := fv.C[0]
		if !x.nilCheck(st, fr, tag, pos) {
			return false
		}
		if tag.ival != nil {
			if t, ok := x.typeByID[int(tag.ival.Int64())]; ok {
				fn := x.V.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
				if fn != nil {
					recv := x.unbox(st, t, fv.C[1])
					x.callFn(st, fr, fn, nil, append([]Val{recv}, args...), pos, cont)
					return false
				}
			}
		}
		x.invoke(st, fr, cc, fv, args, pos, cont)
		return false
	}
	if fn := cc.StaticCallee(); fn != nil {
		var bind []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			id, _ := x.closureID(x.val(st, fr, mc).one())
			bind = x.closures[id].bind
		}
		x.callFn(st, fr, fn, bind, args, pos, cont)
		return false
	}
	if len(fv.C) == 1 {
		if id, ok := x.closureID(fv.C[0]); ok {
			cl := x.closures[id]
			x.callFn(st, fr, cl.fn, cl.bind, args, pos, cont)
			return false
		}
		if !x.nilCheck(st, fr, fv.C[0], pos) {
			return false
		}
		// unknown function value
		if x.V.specs.Pure["funcvalue"] {
			cont(st, fr, x.freshResults(st, res, "fnval"))
			return false
		}
		name := "func-value " + cc.Value.Type().String()
		if c, ok := x.V.specs.Funcs["funcvalue"]; ok {
			x.applyContract(st, fr, c, "funcvalue", nil, res, pos, cont)
			return false
		}
		x.havocs[name] = true
		x.markEscape(args...)
		x.havocAll(st, name)
		cont(st, fr, x.freshResults(st, res, "fnval"))
		return false
	}
	x.fail("call of %s", cc.Value)
	return false
}

func (x *Exec) freshResults(st *State, res *types.Tuple, name string) []Val {
	var r []Val
	for i := 0; i < res.Len(); i++ {
		r = append(r, x.freshVal(st, res.At(i).Type(), name))
	}
	return r
}

func (x *Exec) invoke(st *State, fr *Frame, cc *ssa.CallCommon, fv Val, args []Val, pos token.Pos, cont contFn) {
	rt := cc.Value.Type()
	name := "invoke " + x.V.shortType(rt) + "." + cc.Method.Name()
	all := append([]Val{{rt, fv.C}}, args...)
	if !x.atCalls(st, fr, name, all, pos) {
		return
	}
	if c, ok := x.V.specs.Funcs[name]; ok {
		x.used[name] = true
		x.applyContract(st, fr, c, name, all, cc.Signature().Results(), pos, cont)
		return
	}
	if m, ok := models[name]; ok {
		if m(x, st, fr, all, cc.Signature().Results(), pos, cont) {
			return
		}
	}
	// one implementation known on this path?
	if len(x.V.specs.Ghosts) > 0 {
		x.havocGhosts(st, x.V.ghostReach(x.V.methodsNamed(cc.Method)...))
	}
	x.unknownCall(st, fr, name, nil, all, cc.Signature().Results(), cont)
}

func (x *Exec) callFn(st *State, fr *Frame, fn *ssa.Function, bind []Val, args []Val, pos token.Pos, cont contFn) {
	name := x.V.short(fn)
	res := fn.Signature.Results()
	if !x.atCalls(st, fr, name, args, pos) {
		return
	}
	recursive := false
	for f := fr; f != nil; f = f.caller {
		if f.fn == fn {
			recursive = true
		}
	}
	// a contract marked inline is the induction hypothesis of a recursive call
	if c, ok := x.V.specs.Funcs[name]; ok && (!c.Inline && !(c.NoFrame && !c.Trusted) || recursive && len(c.Ensures) > 0) {
		x.used[name] = true
		x.applyContract(st, fr, c, name, args, res, pos, cont)
		return
	}
	if m, ok := models[name]; ok {
		if m(x, st, fr, args, res, pos, cont) {
			return
		}
	}
	if fn.Synthetic != "" && strings.Contains(fn.Synthetic, "wrapper") && fn.Blocks != nil {
		x.inline(st, fr, fn, bind, args, cont)
		return
	}
	if r, ok := x.pureUF(fn, args); ok {
		cont(st, fr, r)
		return
	}
	if fn.Blocks != nil && !recursive && fr.depth < 60 && x.V.inlinable(fn) {
		x.inlined[name] = true
		x.inline(st, fr, fn, bind, args, cont)
		return
	}
	x.unknownCall(st, fr, name, fn, args, res, cont)
}

// atCalls checks the target's atcall conditions for a call of name.
func (x *Exec) atCalls(st *State, fr *Frame, name string, args []Val, pos token.Pos) bool {
	if x.ctr == nil {
		return true
	}
	for _, a := range x.ctr.AtCalls {
		if a.fn != name || !tagged(a.cl.Tags, x.prop) {
			continue
		}
		names := map[string]Val{}
		for k, v := range x.paramEnv {
			names[k] = v
		}
		for i, p := range a.params {
			if i < len(args) && p != "_" {
				names[p] = args[i]
			}
		}
		x.atSeen[a] = true
		e := &specEnv{x: x, names: names, st: st, old: x.entry, pkg: x.ctr.Pkg}
		if !x.oblige(st, fr, "atcall", lastName(shortName(name))+"."+a.cl.Label, pos, x.evalClause(e, a.cl)) {
			return false
		}
	}
	return true
}

// writeHook checks "atcall write T(p)" conditions at a store to a field of a T.
func (x *Exec) writeHook(st *State, fr *Frame, in *ssa.Store) bool {
	if x.ctr == nil || len(x.ctr.AtCalls) == 0 {
		return true
	}
	for a := in.Addr; ; {
		f, ok := a.(*ssa.FieldAddr)
		if !ok {
			return true
		}
		el := f.X.Type().Underlying().(*types.Pointer).Elem()
		if n, ok := el.(*types.Named); ok && !isFresh(f.X) {
			if !x.atCalls(st, fr, "write "+x.V.shortType(n), []Val{x.val(st, fr, f.X)}, in.Pos()) {
				return false
			}
		}
		a = f.X
	}
}

func (x *Exec) inline(st *State, fr *Frame, fn *ssa.Function, bind []Val, args []Val, cont contFn) {
	nf := &Frame{fn: fn, env: newEnv(nil), caller: fr, depth: fr.depth + 1, params: args}
	nf.ret = func(st *State, _ *Frame, res []Val) { cont(st, fr.fork(), res) }
	for i, p := range fn.Params {
		v := args[i]
		v.T = p.Type()
		nf.env.set(p, v)
		x.setName(nf, p.Name(), p, false)
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			nf.env.set(f, bind[i])
			x.setName(nf, f.Name(), f, true)
		}
	}
	if len(bind) < len(fn.FreeVars) {
		x.fail("unbound free variables of %s", fn)
	}
	x.goBlock(st, nf, fn.Blocks[0], nil)
}

func pkgOf(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if fn.Origin() != nil && fn.Origin() != fn {
		return pkgOf(fn.Origin())
	}
	return ""
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "errors": true, "math": true, "math/bits": true, "unicode": true, "unicode/utf8": true, "path": true, "net/url": true, "log": true, "fmt": true, "time": true, "reflect": true, "runtime": true, "context": true, "os": true, "crypto/x509": true, "crypto/rsa": true, "crypto/sha1": true, "crypto/sha256": true, "crypto/hmac": true, "crypto/aes": true, "github.com/google/uuid": true, "sync/atomic": true, "path/filepath": true, "crypto/subtle": true, "crypto": true, "net": true, "github.com/awcullen/opcua/ua.StatusCode": true, "github.com/gammazero/workerpool": true, "github.com/djherbis/buffer": true, "regexp": true, "bytes": true, "encoding/hex": true, "encoding/base64": true, "internal/bytealg": true, "slices": false}

// writers: external functions that write through an argument
var writesArg = map[string]bool{"crypto/rand.Read": true, "io.ReadFull": true, "fmt.Sscanf": true, "fmt.Sscan": true, "(*bytes.Buffer).Read": true, "fmt.Fprintf": true}

func (x *Exec) unknownCall(st *State, fr *Frame, name string, fn *ssa.Function, args []Val, res *types.Tuple, cont contFn) {
	x.markEscape(args...)
	x.havocs[name] = true
	pure := x.V.specs.Pure[name] || fn != nil && purePkgs[pkgOf(fn)] && !writesArg[name]
	if !pure {
		if i := strings.LastIndex(name, "."); i > 0 && x.V.specs.Pure[name[:i]+".*"] {
			pure = true
		}
	}
	if !pure {
		x.havocAll(st, name)
		if fn != nil {
			x.havocGhosts(st, x.V.ghostReach(fn))
		}
	}
	x.c.clock++
	cont(st, fr, x.freshResults(st, res, "ret."+lastName(name)))
}
func lastName(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}

// pureUF models a deterministic external function over scalar arguments as an uninterpreted function.
func (x *Exec) pureUF(fn *ssa.Function, args []Val) ([]Val, bool) {
	switch pkgOf(fn) {
	case "strings", "strconv", "math", "unicode", "unicode/utf8", "math/bits", "path":
	default:
		return nil, false
	}
	if fn.Name() == "Inf" || strings.HasPrefix(x.V.short(fn), "(") {
		return nil, false
	}
	var ts []*Term
	for _, a := range args {
		if _, ok := a.T.Underlying().(*types.Basic); !ok {
			return nil, false
		}
		ts = append(ts, a.C...)
	}
	var r []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		v := Val{T: t}
		_, isIface := t.Underlying().(*types.Interface)
		if _, ok := t.Underlying().(*types.Basic); !ok && !isIface {
			return nil, false
		}
		for j, l := range x.layout(t) {
			u := x.c.App(fmt.Sprintf("go.%s#%d.%d", x.V.short(fn), i, j), l.sort, ts...)
			if l.sort == SInt {
				x.c.ranged(u, l.lo, l.hi)
			}
			v.C = append(v.C, u)
		}
		x.wellFormed(nil, v)
		r = append(r, v)
	}
	return r, true
}

// ---- contracts at call sites ----
type modLoc struct {
	key  string
	base *Term
	idx  *Term // nil: whole row
	sort Sort
	m    bool // map heap
}

func (x *Exec) modLocs(e *specEnv, cl *Clause) []modLoc {
	var out []modLoc
	ex := cl.Expr
	if p, ok := ex.(*ast.ParenExpr); ok {
		ex = p.X
	}
	if call, ok := ex.(*ast.CallExpr); ok {
		if id, ok := call.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "elems": // all elements of a slice
				v := e.eval(call.Args[0])
				et := v.T.Underlying().(*types.Slice).Elem()
				x.eachCell(et, v.C[0], x.c.Int(0), func(l leaf, b, i *Term) {
					x.regLeaf(l)
					out = append(out, modLoc{key: l.key, base: b, sort: l.sort})
				})
				return out
			case "mapof":
				v := e.eval(call.Args[0])
				n, m := x.mapKeys(v.T)
				ks := x.keySort(m.Key())
				x.mapHeap(e.st, n+"#dom", ks, SBool)
				out = append(out, modLoc{key: "m:" + n + "#dom", base: v.C[0], m: true})
				x.mapHeap(e.st, n+"#len", SInt, SInt)
				out = append(out, modLoc{key: "m:" + n + "#len", base: v.C[0], m: true})
				for i, l := range x.layout(m.Elem()) {
					k := fmt.Sprintf("%s#v%d", n, i)
					x.mapHeap(e.st, k, ks, l.sort)
					out = append(out, modLoc{key: "m:" + k, base: v.C[0], m: true})
				}
				return out
			}
		}
	}
	if ix, ok := ex.(*ast.IndexExpr); ok {
		if g, obj, ok := e.ghost(ix); ok {
			x.ghostHeap(e.st, g.name)
			l := modLoc{key: "g:" + g.name, base: obj, sort: g.decl.sort}
			if !g.decl.row {
				l.idx = x.c.Int(0)
			}
			return append(out, l)
		}
	}
	b, i, t := e.addr(ex)
	b0 := b
	x.eachCell(t, b, i, func(l leaf, b, i *Term) {
		x.regLeaf(l)
		if b.op == "abase" && b != b0 {
			i = nil // a whole array
			if n := len(out); n > 0 && out[n-1].base == b && out[n-1].key == l.key {
				return
			}
		}
		out = append(out, modLoc{key: l.key, base: b, idx: i, sort: l.sort})
	})
	return out
}

func (x *Exec) bindNames(c *Contract, args []Val) map[string]Val {
	n := map[string]Val{}
	for i, p := range c.Params {
		if i < len(args) && p != "_" {
			n[p] = args[i]
		}
	}
	return n
}

func (x *Exec) evalClause(e *specEnv, cl *Clause) *Term {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				panic(abort{fmt.Sprintf("%s: %s (in %q)", cl.Line, s.msg, cl.Src)})
			}
			panic(r)
		}
	}()
	return e.bool(cl.Expr)
}

func (x *Exec) applyContract(st *State, fr *Frame, c *Contract, name string, args []Val, res *types.Tuple, pos token.Pos, cont contFn) {
	names := x.bindNames(c, args)
	e := &specEnv{x: x, names: names, st: st, old: st, pkg: c.Pkg}
	for _, r := range c.Requires {
		if !tagged(r.Tags, x.prop) {
			continue
		}
		t := x.evalClause(e, r)
		if !x.oblige(st, fr, "precondition", shortName(name)+"."+r.Label, pos, t) {
			return
		}
	}
	pre := st.clone()
	pre.writes = nil
	x.markEscape(args...)
	x.c.clock++
	if c.ModAll || c.NoFrame && !c.Trusted {
		x.havocAll(st, name)
	}
	var locs []modLoc
	for _, m := range c.Modifies {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(specErr); ok {
						panic(abort{m.Line + ": " + s.msg})
					}
					panic(r)
				}
			}()
			em := *e
			em.st = pre
			locs = append(locs, x.modLocs(&em, m)...)
		}()
	}
	// split on the error result when the contract speaks about it, so that each side becomes definite
	split := false
	if n := res.Len(); n > 0 && types.Identical(res.At(n-1).Type(), errT) && n-1 < len(c.Results) {
		en := c.Results[n-1]
		for _, cl := range c.Ensures {
			if strings.HasPrefix(cl.Src, en+" == nil") || strings.HasPrefix(cl.Src, en+" != nil") {
				split = true
			}
		}
	}
	after := func(st *State, fr *Frame, mode int) {
		saved := map[string]*Term{}
		var vals, related []*Term
		fresh := map[int]bool{}
		for _, l := range locs {
			h := x.heapOf(st, l.key)
			if _, ok := saved[l.key]; !ok {
				saved[l.key] = h
			}
			v := x.havocLoc(st, l)
			vals = append(vals, v)
			related = append(related, v)
			fresh[v.id] = true
		}
		x.c.clock++
		rs := x.freshResults(st, res, "ret."+lastName(name))
		if mode == 1 {
			rs[len(rs)-1] = x.zero(errT)
		} else if mode == 2 {
			x.addFact(st, x.c.Not(x.c.Eq(rs[len(rs)-1].C[0], x.c.Int(0))))
		}
		for _, r := range rs {
			for _, t := range r.C {
				if t.op == "var" {
					fresh[t.id] = true
					related = append(related, t)
				}
			}
		}
		post := &specEnv{x: x, names: names, st: st, old: pre, pkg: c.Pkg}
		post = post.with(nil)
		bind := func() {
			for i, r := range rs {
				post.names[fmt.Sprintf("result%d", i)] = r
				if i == 0 {
					post.names["result"] = r
				}
				if i < len(c.Results) && c.Results[i] != "_" {
					post.names[c.Results[i]] = r
				}
			}
		}
		bind()
		var facts []*Term
		var flat func(t *Term)
		flat = func(t *Term) {
			t = x.simp(st, t)
			if t.op == "and" {
				for _, a := range t.args {
					flat(a)
				}
				return
			}
			facts = append(facts, t)
		}
		for _, en := range append(append([]*Clause{}, c.Ensures...), c.Assumes...) {
			flat(x.evalClause(post, en))
		}
		// a fresh symbol that a postcondition defines is replaced by its definition
		sub := map[int]*Term{}
		for i := 0; i < len(facts); i++ {
			t := facts[i]
			if len(sub) > 0 {
				t = x.c.Subst(t, sub, map[int]*Term{})
			}
			if t.op == "var" && fresh[t.id] && sub[t.id] == nil {
				t = x.c.mk(&Term{op: "=", sort: SBool, args: []*Term{t, x.c.True}})
			}
			if t.op == "not" && t.args[0].op == "var" && fresh[t.args[0].id] {
				t = x.c.mk(&Term{op: "=", sort: SBool, args: []*Term{t.args[0], x.c.False}})
			}
			if t.op == "=" {
				p, q := t.args[0], t.args[1]
				if !(p.op == "var" && fresh[p.id]) {
					p, q = q, p
				}
				if p.op == "var" && fresh[p.id] && sub[p.id] == nil && !q.bound && !occurs(q, map[int]bool{p.id: true}, map[int]bool{}) {
					one := map[int]*Term{p.id: q}
					for k, v := range sub {
						sub[k] = x.c.Subst(v, one, map[int]*Term{})
					}
					sub[p.id] = q
					for _, f := range related {
						for _, a := range x.c.axioms[f.id] {
							if occurs(a, map[int]bool{p.id: true}, map[int]bool{}) {
								facts = append(facts, a)
							}
						}
					}
					if p.lo != nil && (q.lo == nil || q.lo.Cmp(p.lo) < 0) {
						facts = append(facts, x.c.Le(x.c.Big(p.lo), q))
					}
					if p.hi != nil && (q.hi == nil || q.hi.Cmp(p.hi) > 0) {
						facts = append(facts, x.c.Le(q, x.c.Big(p.hi)))
					}
					facts[i] = x.c.True
					continue
				}
			}
			facts[i] = t
		}
		if dbgInv {
			for k, v := range sub {
				fmt.Fprintln(os.Stderr, "FACT SUB", name, mode, k, x.c.Str(v))
			}
			for _, r := range rs {
				for _, t := range r.C {
					fmt.Fprintln(os.Stderr, "FACT RES", name, mode, t.id, x.c.Str(t))
				}
			}
		}
		if len(sub) > 0 {
			for k, h := range saved {
				st.heap[k] = h
			}
			for i, l := range locs {
				x.putLoc(st, l, x.c.Subst(vals[i], sub, map[int]*Term{}))
			}
			for i := range rs {
				cs := append([]*Term{}, rs[i].C...)
				for j := range cs {
					cs[j] = x.c.Subst(cs[j], sub, map[int]*Term{})
				}
				rs[i] = Val{rs[i].T, cs}
			}
			bind()
			ids := map[int]bool{}
			for k := range sub {
				ids[k] = true
			}
			for n := st.pc; n != nil && n != pre.pc; n = n.prev {
				if occurs(n.t, ids, map[int]bool{}) {
					facts = append(facts, n.t)
				}
			}
		}
		for _, t := range facts {
			if len(sub) > 0 {
				t = x.c.Subst(t, sub, map[int]*Term{})
			}
			if dbgInv {
				fmt.Fprintln(os.Stderr, "FACT", name, mode, x.c.Str(t), " ~~> ", x.c.Str(x.simp(st, t)))
			}
			if !x.assume(st, x.simp(st, t)) {
				return
			}
		}
		if len(c.Cases) > 0 {
			var cs []*Term
			for _, cl := range c.Cases {
				cs = append(cs, x.evalClause(post, cl))
			}
			cs = append(cs, x.c.Not(x.c.Or(cs...)))
			x.fork(st, fr, cs, func(i int, st *State, fr *Frame) { cont(st, fr, rs) })
			return
		}
		cont(st, fr, rs)
	}
	if split {
		s1, f1 := st.clone(), fr.fork()
		after(s1, f1, 1)
		after(st.clone(), fr.fork(), 2)
		return
	}
	after(st, fr, 0)
}
func shortName(n string) string {
	n = strings.TrimPrefix(n, "invoke ")
	return n
}

func (x *Exec) havocLoc(st *State, l modLoc) *Term {
	h := x.heapOf(st, l.key)
	var v *Term
	if l.idx == nil {
		v = x.c.Fresh("row:"+l.key, elemSort(h.sort))
	} else {
		v = x.c.Fresh("hv."+strings.ReplaceAll(l.key, ".", ""), l.sort)
		if lf, ok := x.keyLeaf[l.key]; ok && l.sort == SInt {
			x.c.ranged(v, lf.lo, lf.hi)
		}
	}
	x.putLoc(st, l, v)
	st.writes = &writeNode{key: l.key, base: l.base, idx: l.idx, prev: st.writes}
	return v
}

func (x *Exec) putLoc(st *State, l modLoc, v *Term) {
	h := x.heapOf(st, l.key)
	if l.idx == nil {
		st.heap[l.key] = x.c.Store(h, l.base, v)
	} else {
		st.heap[l.key] = x.c.Store(h, l.base, x.c.Store(x.c.Select(h, l.base), l.idx, v))
	}
}

func tagged(tags []string, p string) bool {
	if len(tags) == 0 {
		return true
	}
	for _, t := range tags {
		if t == p {
			return true
		}
	}
	return false
}

// ---- builtins ----
func (x *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, pos token.Pos, cont contFn) {
	c := x.c
	intT := types.Typ[types.Int]
	switch b.Name() {
	case "len":
		v := args[0]
		var t *Term
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			t = v.C[2]
		case *types.Basic:
			t = c.Slen(v.C[0])
		case *types.Map:
			t = x.mapLen(st, cc.Args[0].Type(), v.C[0])
		case *types.Array:
			t = c.Int(u.Len())
		case *types.Pointer:
			t = c.Int(u.Elem().Underlying().(*types.Array).Len())
		case *types.Chan:
			t = x.freshVal(st, intT, "chanlen").C[0]
			c.ranged(t, big.NewInt(0), lenMax)
		}
		cont(st, fr, []Val{{intT, []*Term{t}}})
	case "cap":
		v := args[0]
		var t *Term
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			t = v.C[3]
		case *types.Array:
			t = c.Int(u.Len())
		case *types.Pointer:
			t = c.Int(u.Elem().Underlying().(*types.Array).Len())
		default:
			t = x.freshVal(st, intT, "chancap").C[0]
		}
		cont(st, fr, []Val{{intT, []*Term{t}}})
	case "append":
		cont(st, fr, []Val{x.appendSlice(st, cc.Args[0].Type(), args[0], args[1])})
	case "copy":
		n := x.copySlice(st, cc.Args[0].Type(), args[0], args[1])
		cont(st, fr, []Val{{intT, []*Term{n}}})
	case "delete":
		x.mapDelete(st, cc.Args[0].Type(), args[0].one(), args[1])
		cont(st, fr, nil)
	case "close", "print", "println":
		cont(st, fr, nil)
	case "recover":
		cont(st, fr, []Val{x.zero(cc.Signature().Results().At(0).Type())})
	case "min", "max":
		r := args[0]
		if r.C[0].sort != SInt {
			cont(st, fr, []Val{x.freshVal(st, r.T, b.Name())})
			return
		}
		t := r.C[0]
		for _, a := range args[1:] {
			if b.Name() == "min" {
				t = c.Ite(c.Le(t, a.C[0]), t, a.C[0])
			} else {
				t = c.Ite(c.Le(t, a.C[0]), a.C[0], t)
			}
		}
		cont(st, fr, []Val{{r.T, []*Term{t}}})
	case "clear":
		x.fail("clear")
	case "ssa:wrapnilchk":
		if !x.nilCheck(st, fr, args[0].C[0], pos) {
			return
		}
		cont(st, fr, []Val{args[0]})
	default:
		x.fail("builtin %s", b.Name())
	}
}

func hasArray(t types.Type) bool {
	if isTime(t) || opaqueStruct(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasArray(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// rowSrc describes the source elements of an append/copy.
func (x *Exec) srcRow(st *State, v Val, l leaf, path func(b *Term) *Term) (*Term, *Term, *Term) {
	c := x.c
	if isString(v.T) {
		return c.Sbytes(v.C[0]), c.Int(0), c.Slen(v.C[0])
	}
	h := x.heapSym(st, l.key, l.sort)
	return c.Select(h, path(v.C[0])), v.C[1], v.C[2]
}

func (x *Exec) appendSlice(st *State, t types.Type, s, a Val) Val {
	c := x.c
	et := t.Underlying().(*types.Slice).Elem()
	var n *Term
	if isString(a.T) {
		n = c.Slen(a.C[0])
	} else {
		n = a.C[2]
	}
	if n.ival != nil && n.ival.Sign() == 0 {
		return s
	}
	arr := hasArray(et)
	nb := c.Alloc()
	x.allocType[nb.root] = types.NewSlice(et)
	l := s.C[2]
	// element cells escape into the new array
	x.eachCell(et, nb, c.Int(0), func(lf leaf, nbase, _ *Term) {
		x.regLeaf(lf)
		if arr {
			return
		}
		path := pathFn(c, nb, nbase)
		h := x.heapSym(st, lf.key, lf.sort)
		srow := c.Select(h, path(s.C[0]))
		arow, ao, _ := x.srcRow(st, a, lf, path)
		var row *Term
		zero := c.ConstArr(arrOf(SInt, lf.sort), x.zeroOf(lf))
		exactOld := s.C[1].ival != nil && s.C[1].ival.Sign() == 0
		if l.ival != nil && l.ival.Sign() == 0 {
			srow, exactOld = zero, true
		}
		if exactOld && n.ival != nil && n.ival.Cmp(big.NewInt(16)) <= 0 {
			row = srow
			for j := int64(0); j < n.ival.Int64(); j++ {
				row = c.Store(row, c.Add(l, c.Int(j)), c.Select(arow, c.Add(ao, c.Int(j))))
			}
		} else if l.ival != nil && l.ival.Sign() == 0 && ao.ival != nil && ao.ival.Sign() == 0 {
			row = arow
		} else {
			row = c.Fresh("approw", arrOf(SInt, lf.sort))
			row.wild = true
			j := c.BoundVar("j", SInt)
			x.addFact(st, c.Forall([]*Term{j}, c.Implies(c.And(c.Le(c.Int(0), j), c.Lt(j, l)), c.Eq(c.Select(row, j), c.Select(srow, c.Add(s.C[1], j)))), c.Select(row, j)))
			if n.ival != nil && n.ival.Cmp(big.NewInt(16)) <= 0 {
				for k := int64(0); k < n.ival.Int64(); k++ {
					x.addFact(st, c.Eq(c.Select(row, c.Add(l, c.Int(k))), c.Select(arow, c.Add(ao, c.Int(k)))))
				}
			} else {
				j2 := c.BoundVar("j", SInt)
				x.addFact(st, c.Forall([]*Term{j2}, c.Implies(c.And(c.Le(l, j2), c.Lt(j2, c.Add(l, n))), c.Eq(c.Select(row, j2), c.Select(arow, c.Add(ao, c.Sub(j2, l))))), c.Select(row, j2)))
			}
		}
		st.heap[lf.key] = c.Store(x.heapSym(st, lf.key, lf.sort), nbase, row)
		st.writes = &writeNode{key: lf.key, base: nbase, prev: st.writes}
	})
	if arr {
		// contents of array elements are not tracked through append
		sym := c.Fresh("apparr", SInt)
		sym.wild = true
		cp := c.Fresh("appcap", SInt)
		c.ranged(cp, big.NewInt(0), lenMax)
		nl := c.Add(l, n)
		x.addFact(st, c.And(c.Le(nl, cp), c.Not(c.Eq(sym, c.Int(0)))))
		return Val{t, []*Term{sym, c.Int(0), nl, cp}}
	}
	// elements that were unescaped objects stay tracked but count as stored
	for _, tt := range a.C {
		if tt.sort == SInt {
			x.escapeRow(st, tt, et)
		}
	}
	cp := c.Fresh("appcap", SInt)
	c.ranged(cp, big.NewInt(0), lenMax)
	nl := c.Add(l, n)
	x.addFact(st, c.Le(nl, cp))
	return Val{t, []*Term{nb, c.Int(0), nl, cp}}
}
func (x *Exec) escapeRow(st *State, b *Term, et types.Type) {}

func (x *Exec) addFact(st *State, t *Term) {
	if t != x.c.True {
		st.pc = &pcNode{t, st.pc}
	}
}

// pathFn returns the function that maps a root base to the field base nbase (built over nb).
func pathFn(c *Ctx, nb, nbase *Term) func(*Term) *Term {
	var names []string
	for t := nbase; t != nb; t = t.args[0] {
		if t.op != "fbase" {
			return func(b *Term) *Term { return nbase }
		}
		names = append(names, t.name)
	}
	return func(b *Term) *Term {
		for i := len(names) - 1; i >= 0; i-- {
			b = c.FBase(names[i], b)
		}
		return b
	}
}

func (x *Exec) copySlice(st *State, t types.Type, d, s Val) *Term {
	c := x.c
	et := t.Underlying().(*types.Slice).Elem()
	var sl *Term
	if isString(s.T) {
		sl = c.Slen(s.C[0])
	} else {
		sl = s.C[2]
	}
	n := c.Ite(c.Le(sl, d.C[2]), sl, d.C[2])
	if x.simp(st, c.Le(sl, d.C[2])) == c.True {
		n = sl
	}
	if hasArray(et) {
		x.fail("copy of array elements")
	}
	x.eachCell(et, d.C[0], c.Int(0), func(lf leaf, dbase, _ *Term) {
		x.regLeaf(lf)
		path := pathFn(c, d.C[0], dbase)
		h := x.heapSym(st, lf.key, lf.sort)
		drow := c.Select(h, dbase)
		srow, so, _ := x.srcRow(st, s, lf, path)
		var row *Term
		if n.ival != nil && n.ival.Cmp(big.NewInt(32)) <= 0 {
			row = drow
			for j := int64(0); j < n.ival.Int64(); j++ {
				row = c.Store(row, c.Add(d.C[1], c.Int(j)), c.Select(srow, c.Add(so, c.Int(j))))
			}
		} else {
			row = c.Fresh("copyrow", arrOf(SInt, lf.sort))
			row.wild = true
			j := c.BoundVar("j", SInt)
			in := c.And(c.Le(d.C[1], j), c.Lt(j, c.Add(d.C[1], n)))
			x.addFact(st, c.Forall([]*Term{j}, c.And(
				c.Implies(in, c.Eq(c.Select(row, j), c.Select(srow, c.Add(so, c.Sub(j, d.C[1]))))),
				c.Implies(c.Not(in), c.Eq(c.Select(row, j), c.Select(drow, j)))), c.Select(row, j)))
		}
		st.heap[lf.key] = c.Store(x.heapSym(st, lf.key, lf.sort), dbase, row)
		st.writes = &writeNode{key: lf.key, base: dbase, prev: st.writes}
	})
	return n
}
