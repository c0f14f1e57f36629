package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var dbgInv = os.Getenv("GOVC_INV") != ""

// Clause is one specification expression.
type Clause struct {
	Src   string
	Label string
	Expr  ast.Expr
	Line  string
	Tags  []string
}

// Contract is the specification of one function.
type Contract struct {
	Name       string
	Params     []string
	Results    []string
	Tags       []string
	Requires   []*Clause
	Ensures    []*Clause
	Panics     []*Clause
	Modifies   []*Clause
	Invariants []*Clause
	ModAll     bool
	Trusted    bool
	Safe       bool
	Inline     bool // verified as a target, but inlined at call sites
	NoFrame    bool
	InvTimeout int // ms per candidate invariant, 0 = default
	Pkg        string
	File       string
	Assumes    []*Clause
	Covers     []*Clause
	Fork       bool // callers split on the disjuncts of ensures marked "case"
	Cases      []*Clause
	AtCalls    []*atCall
	Owned      []string // pointer parameters nothing else refers to (their fields survive unknown calls until they escape)
}

// atCall: a condition that must hold at every call of a function inside the target (inlined helpers and worker tasks included).
type atCall struct {
	fn     string
	params []string
	cl     *Clause
}

type macro struct {
	params []string
	body   ast.Expr
}
type ghostDecl struct {
	sort Sort
	row  bool
	byt  bool
}
type monitorDecl struct {
	field   string // e.g. server.SessionManager.RWMutex
	self    string
	guards  []string
	invs    []*Clause
	pkg     string
	tags    []string
	mapRows bool
}
type Specs struct {
	Funcs    map[string]*Contract
	Macros   map[string]macro
	Ghosts   map[string]ghostDecl
	Monitors map[string]*monitorDecl
	Inline   map[string]bool
	NoInline map[string]bool
	Pure     map[string]bool
	Lemmas   []string // overlay files
	seen     map[string]bool
	Assume   []string
	Owners   []ownerDecl
	Frozen   []string // fields only ever written in the object's own constructor expression
}

func newSpecs() *Specs {
	return &Specs{Funcs: map[string]*Contract{}, Macros: map[string]macro{}, Ghosts: map[string]ghostDecl{}, Monitors: map[string]*monitorDecl{}, Inline: map[string]bool{}, NoInline: map[string]bool{}, Pure: map[string]bool{}, seen: map[string]bool{}}
}

var kwRe = regexp.MustCompile(`^(include|package|define|ghost|monitor|guards|inv|func|callerof|frozen|requires|ensures|assumes|cover|panics|modifies|invariant|safe|trusted|inline|noinline|noframe|pure|lemmas|case|axiom|invtimeout|owner|owned|atcall)\b`)
var tagRe = regexp.MustCompile(`^\[([^\]]*)\]\s*`)
var labRe = regexp.MustCompile(`^([A-Za-z0-9_\-]+):\s+`)

func (s *Specs) load(file string) error {
	if s.seen[file] {
		return nil
	}
	s.seen[file] = true
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type ln struct {
		txt string
		no  int
	}
	var lines []ln
	for i, l := range strings.Split(string(data), "\n") {
		if j := strings.Index(l, "//"); j >= 0 && (j == 0 || l[j-1] == ' ' || l[j-1] == '\t') {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		if kwRe.MatchString(t) {
			lines = append(lines, ln{t, i + 1})
		} else if len(lines) > 0 {
			lines[len(lines)-1].txt += " " + t
		}
	}
	pkg := "ua"
	var cur *Contract
	var mon *monitorDecl
	for _, l := range lines {
		kw := kwRe.FindString(l.txt)
		rest := strings.TrimSpace(l.txt[len(kw):])
		at := fmt.Sprintf("%s:%d", filepath.Base(file), l.no)
		clause := func() (*Clause, error) {
			c := &Clause{Line: at}
			if m := tagRe.FindStringSubmatch(rest); m != nil {
				c.Tags = splitTags(m[1])
				rest = rest[len(m[0]):]
			}
			if m := labRe.FindStringSubmatch(rest); m != nil {
				c.Label = m[1]
				rest = rest[len(m[0]):]
			}
			c.Src = rest
			e, err := parseSpec(rest)
			if err != nil {
				return nil, fmt.Errorf("%s: %v in %q", at, err, rest)
			}
			c.Expr = e
			if c.Label == "" {
				c.Label = strconv.Itoa(l.no)
			}
			return c, nil
		}
		switch kw {
		case "include":
			if err := s.load(filepath.Join(filepath.Dir(file), rest)); err != nil {
				return err
			}
		case "package":
			pkg = rest
		case "define":
			i := strings.Index(rest, "=")
			h, b := strings.TrimSpace(rest[:i]), strings.TrimSpace(rest[i+1:])
			name := h
			var ps []string
			if j := strings.Index(h, "("); j >= 0 {
				name = h[:j]
				for _, p := range strings.Split(strings.Trim(h[j:], "()"), ",") {
					if p = strings.TrimSpace(p); p != "" {
						ps = append(ps, p)
					}
				}
			}
			e, err := parseSpec(b)
			if err != nil {
				return fmt.Errorf("%s: %v", at, err)
			}
			s.Macros[name] = macro{ps, e}
		case "owner":
			f := strings.Fields(rest)
			s.Owners = append(s.Owners, ownerDecl{f[0], f[1:]})
		case "frozen":
			for _, f := range strings.Fields(rest) {
				s.Owners = append(s.Owners, ownerDecl{f, nil})
				s.Frozen = append(s.Frozen, f)
			}
		case "ghost":
			f := strings.Fields(rest)
			g := ghostDecl{sort: SInt}
			for _, w := range f[1:] {
				switch w {
				case "row":
					g.row = true
				case "byte":
					g.byt = true
				case "bool":
					g.sort = SBool
				case "string":
					g.sort = SStr
				}
			}
			s.Ghosts[f[0]] = g
		case "monitor":
			f := strings.Fields(rest)
			mon = &monitorDecl{field: f[0], self: f[1], pkg: pkg}
			for _, w := range f[2:] {
				if strings.HasPrefix(w, "[") {
					mon.tags = splitTags(strings.Trim(w, "[]"))
				}
			}
			s.Monitors[f[0]] = mon
		case "guards":
			for _, g := range strings.Split(rest, ",") {
				mon.guards = append(mon.guards, strings.TrimSpace(g))
			}
		case "inv":
			c, err := clause()
			if err != nil {
				return err
			}
			mon.invs = append(mon.invs, c)
		case "func", "callerof":
			cur = &Contract{Pkg: pkg, File: at}
			if i := strings.LastIndex(rest, "["); i >= 0 && strings.HasSuffix(rest, "]") {
				cur.Tags = splitTags(rest[i+1 : len(rest)-1])
				rest = strings.TrimSpace(rest[:i])
			}
			name, ps, rs, err := parseHeader(rest)
			if err != nil {
				return fmt.Errorf("%s: %v", at, err)
			}
			if kw == "callerof" {
				name = "callerof " + name
			}
			cur.Name, cur.Params, cur.Results = name, ps, rs
			if _, dup := s.Funcs[name]; dup {
				return fmt.Errorf("%s: duplicate contract for %s", at, name)
			}
			s.Funcs[name] = cur
		case "atcall":
			i := strings.Index(rest, " :: ")
			if i < 0 {
				return fmt.Errorf("%s: atcall needs ' :: '", at)
			}
			head := strings.TrimSpace(rest[:i])
			rest = strings.TrimSpace(rest[i+4:])
			c, err := clause()
			if err != nil {
				return err
			}
			name, ps, _, err := parseHeader(head)
			if err != nil {
				return fmt.Errorf("%s: %v", at, err)
			}
			cur.AtCalls = append(cur.AtCalls, &atCall{name, ps, c})
		case "requires", "ensures", "assumes", "panics", "invariant", "cover", "case":
			c, err := clause()
			if err != nil {
				return err
			}
			switch kw {
			case "requires":
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				cur.Ensures = append(cur.Ensures, c)
			case "assumes":
				cur.Assumes = append(cur.Assumes, c)
			case "panics":
				cur.Panics = append(cur.Panics, c)
			case "cover":
				cur.Covers = append(cur.Covers, c)
			case "case":
				cur.Cases = append(cur.Cases, c)
			default:
				cur.Invariants = append(cur.Invariants, c)
			}
		case "modifies":
			if rest == "everything" {
				cur.ModAll = true
				break
			}
			for _, m := range splitTop(rest) {
				e, err := parseSpec(m)
				if err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
				cur.Modifies = append(cur.Modifies, &Clause{Src: m, Expr: e, Line: at})
			}
		case "safe":
			cur.Safe = true
		case "trusted":
			cur.Trusted = true
		case "owned":
			cur.Owned = append(cur.Owned, strings.Fields(rest)...)
		case "noframe":
			cur.NoFrame = true
		case "invtimeout":
			fmt.Sscan(rest, &cur.InvTimeout)
		case "inline":
			if rest != "" {
				for _, f := range strings.Fields(rest) {
					s.Inline[f] = true
				}
			} else {
				cur.Inline = true
			}
		case "noinline":
			for _, f := range strings.Fields(rest) {
				s.NoInline[f] = true
			}
		case "pure":
			for _, f := range strings.Fields(rest) {
				s.Pure[f] = true
			}
		case "lemmas":
			s.Lemmas = append(s.Lemmas, strings.Fields(rest)...)
		}
	}
	return nil
}
func splitTags(s string) []string {
	var r []string
	for _, t := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' }) {
		r = append(r, t)
	}
	return r
}

// splitTop splits at top-level commas.
func splitTop(s string) []string {
	var r []string
	d, st := 0, 0
	for i, ch := range s {
		switch ch {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(r, strings.TrimSpace(s[st:]))
}

// parseHeader: NAME(params) (results)
func parseHeader(h string) (string, []string, []string, error) {
	// name ends at the last "(" group that is the parameter list
	h = strings.TrimSpace(h)
	// find parameter list: scan for ')' groups
	start := 0
	if strings.HasPrefix(h, "(") { // receiver in parentheses
		start = strings.Index(h, ")") + 1
	}
	i := strings.Index(h[start:], "(")
	if i < 0 {
		return h, nil, nil, nil
	}
	i += start
	name := strings.TrimSpace(h[:i])
	j := strings.Index(h[i:], ")") + i
	ps := splitTags(h[i+1 : j])
	var rs []string
	rest := strings.TrimSpace(h[j+1:])
	if rest != "" {
		rs = splitTags(strings.Trim(rest, "()"))
	}
	return name, ps, rs, nil
}

// parseSpec parses an expression; "==>" is implication (lowest precedence, right associative).
func parseSpec(s string) (ast.Expr, error) {
	s = rewriteImp(s)
	s = strings.ReplaceAll(s, "$k", "_k_")
	s = strings.ReplaceAll(s, "$i", "_i_")
	s = strings.ReplaceAll(s, "$s", "_s_")
	s = strings.ReplaceAll(s, "$t", "_t_")
	s = strings.ReplaceAll(s, "$c", "_s_")
	e, err := parser.ParseExpr(s)
	return e, err
}
func rewriteImp(s string) string {
	// process parenthesised groups recursively, splitting on top-level "==>" within each comma part
	var sb strings.Builder
	i := 0
	for i < len(s) {
		if s[i] == '"' {
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			sb.WriteString(s[i : j+1])
			i = j + 1
			continue
		}
		if s[i] == '(' || s[i] == '[' {
			op, cl := s[i], byte(')')
			if op == '[' {
				cl = ']'
			}
			d, j := 0, i
			for ; j < len(s); j++ {
				if s[j] == op {
					d++
				} else if s[j] == cl {
					d--
					if d == 0 {
						break
					}
				}
			}
			if j >= len(s) {
				return s
			}
			parts := splitTop(s[i+1 : j])
			for k, p := range parts {
				parts[k] = rewriteImp(p)
			}
			sb.WriteByte(op)
			sb.WriteString(strings.Join(parts, ", "))
			sb.WriteByte(cl)
			i = j + 1
			continue
		}
		sb.WriteByte(s[i])
		i++
	}
	t := sb.String()
	// top-level ==>
	d := 0
	for k := 0; k+2 < len(t); k++ {
		switch t[k] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if d == 0 && t[k:k+3] == "==>" {
			return "imp(" + t[:k] + ", " + rewriteTop(t[k+3:]) + ")"
		}
	}
	return t
}
func rewriteTop(t string) string {
	d := 0
	for k := 0; k+2 < len(t); k++ {
		switch t[k] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if d == 0 && t[k:k+3] == "==>" {
			return "imp(" + t[:k] + ", " + rewriteTop(t[k+3:]) + ")"
		}
	}
	return t
}

// ---- evaluation ----
type specEnv struct {
	x     *Exec
	names map[string]Val
	st    *State
	old   *State
	k, i  *Term
	s     *Val
	t     *Val
	pkg   string
	depth int
}

type specErr struct{ msg string }

func (e *specEnv) bad(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

var mathT = types.Typ[types.UntypedInt]

func (e *specEnv) with(n map[string]Val) *specEnv {
	c := *e
	c.names = map[string]Val{}
	for k, v := range e.names {
		c.names[k] = v
	}
	for k, v := range n {
		c.names[k] = v
	}
	return &c
}

func (e *specEnv) bool(ex ast.Expr) *Term {
	v := e.eval(ex)
	if len(v.C) != 1 || v.C[0].sort != SBool {
		e.bad("not a boolean: %s", types.ExprString(ex))
	}
	return v.C[0]
}
func (e *specEnv) int(ex ast.Expr) *Term {
	v := e.eval(ex)
	if len(v.C) != 1 || v.C[0].sort != SInt {
		e.bad("not an integer: %s (%v)", types.ExprString(ex), v.T)
	}
	return v.C[0]
}
func boolV(t *Term) Val { return Val{types.Typ[types.Bool], []*Term{t}} }
func mathV(t *Term) Val { return Val{mathT, []*Term{t}} }

// objID is the identity of the object a value denotes.
func objID(v Val) *Term {
	switch v.T.Underlying().(type) {
	case *types.Interface:
		return v.C[1]
	default:
		return v.C[0]
	}
}

func (e *specEnv) typ(ex ast.Expr) types.Type {
	t := e.x.V.evalType(e.pkg, ex)
	if t == nil {
		e.bad("unknown type %s", types.ExprString(ex))
	}
	return t
}

func (e *specEnv) eval(ex ast.Expr) Val {
	x, c := e.x, e.x.c
	switch ex := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(ex.X)
	case *ast.BasicLit:
		switch ex.Kind {
		case token.INT, token.CHAR:
			cv := constant.MakeFromLiteral(ex.Value, ex.Kind, 0)
			b, _ := new(big.Int).SetString(constant.ToInt(cv).ExactString(), 10)
			return mathV(c.Big(b))
		case token.STRING:
			s, _ := strconv.Unquote(ex.Value)
			return Val{types.Typ[types.String], []*Term{c.StrLit(s)}}
		case token.FLOAT:
			f, _ := strconv.ParseFloat(ex.Value, 64)
			return Val{types.Typ[types.Float64], []*Term{c.fplit(f, true)}}
		}
	case *ast.Ident:
		switch ex.Name {
		case "true":
			return boolV(c.True)
		case "false":
			return boolV(c.False)
		case "nil":
			return Val{types.Typ[types.UntypedNil], []*Term{c.Int(0)}}
		case "_k_":
			if e.k == nil {
				e.bad("$k outside a loop")
			}
			return mathV(e.k)
		case "_i_":
			if e.i == nil {
				e.bad("$i outside a loop")
			}
			return mathV(e.i)
		case "_s_":
			if e.s == nil {
				e.bad("$s outside a loop")
			}
			return *e.s
		case "_t_":
			if e.t == nil {
				e.bad("$t outside a loop")
			}
			return *e.t
		}
		if v, ok := e.names[ex.Name]; ok {
			return v
		}
		if m, ok := x.V.specs.Macros[ex.Name]; ok && len(m.params) == 0 {
			return e.eval(m.body)
		}
		if v, ok := e.pkgObj(e.pkg, ex.Name); ok {
			return v
		}
		e.bad("unknown identifier %s", ex.Name)
	case *ast.SelectorExpr:
		if id, ok := ex.X.(*ast.Ident); ok {
			if _, shadow := e.names[id.Name]; !shadow {
				if v, ok := e.pkgObj(id.Name, ex.Sel.Name); ok {
					return v
				}
			}
		}
		return e.field(e.eval(ex.X), ex.Sel.Name)
	case *ast.StarExpr:
		p := e.eval(ex.X)
		pt, ok := p.T.Underlying().(*types.Pointer)
		if !ok {
			e.bad("deref of %v", p.T)
		}
		return x.load(e.st, pt.Elem(), p.C[0], p.C[1])
	case *ast.UnaryExpr:
		switch ex.Op {
		case token.NOT:
			return boolV(c.Not(e.bool(ex.X)))
		case token.SUB:
			return mathV(c.Neg(e.int(ex.X)))
		case token.AND: // address of a field: &x.f
			b, i, t := e.addr(ex.X)
			return Val{types.NewPointer(t), []*Term{b, i}}
		}
	case *ast.BinaryExpr:
		switch ex.Op {
		case token.LAND:
			a := e.bool(ex.X)
			if a == c.False {
				return boolV(a)
			}
			return boolV(c.And(a, e.bool(ex.Y)))
		case token.LOR:
			a := e.bool(ex.X)
			if a == c.True {
				return boolV(a)
			}
			return boolV(c.Or(a, e.bool(ex.Y)))
		}
		a, b := e.eval(ex.X), e.eval(ex.Y)
		switch ex.Op {
		case token.EQL:
			return boolV(e.eq(a, b))
		case token.NEQ:
			return boolV(c.Not(e.eq(a, b)))
		}
		if len(a.C) != 1 || len(b.C) != 1 {
			e.bad("binary %s on composite values", ex.Op)
		}
		p, q := a.C[0], b.C[0]
		if p.sort == SF64 || p.sort == SF32 {
			if q.sort == SInt && q.ival != nil {
				f, _ := new(big.Float).SetInt(q.ival).Float64()
				q = c.fplit(f, p.sort == SF64)
			}
			r, _ := x.binopT(e.st, nil, ex.Op, Val{a.T, []*Term{p}}, Val{a.T, []*Term{q}}, a.T, a.T, token.NoPos)
			switch ex.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				return boolV(r)
			}
			return Val{a.T, []*Term{r}}
		}
		if p.sort == SStr && ex.Op != token.MUL && ex.Op != token.SUB && q.sort == SStr {
			r, _ := x.binopT(e.st, nil, ex.Op, a, b, types.Typ[types.String], types.Typ[types.String], token.NoPos)
			if ex.Op == token.ADD {
				return Val{types.Typ[types.String], []*Term{r}}
			}
			return boolV(r)
		}
		if p.sort != SInt || q.sort != SInt {
			e.bad("%s on non-integers", ex.Op)
		}
		switch ex.Op {
		case token.ADD:
			return mathV(c.Add(p, q))
		case token.SUB:
			return mathV(c.Sub(p, q))
		case token.MUL:
			return mathV(c.Mul(p, q))
		case token.QUO:
			return mathV(c.Div(p, q))
		case token.REM:
			return mathV(c.Mod(p, q))
		case token.LSS:
			return boolV(c.Lt(p, q))
		case token.LEQ:
			return boolV(c.Le(p, q))
		case token.GTR:
			return boolV(c.Lt(q, p))
		case token.GEQ:
			return boolV(c.Le(q, p))
		case token.AND:
			if q.ival == nil {
				p, q = q, p
			}
			if q.ival != nil && q.ival.Sign() >= 0 {
				return mathV(x.andConst(p, q.ival))
			}
		case token.SHL:
			if q.ival != nil {
				return mathV(c.Mul(p, c.Big(pow2(uint(q.ival.Int64())))))
			}
		case token.SHR:
			if q.ival != nil {
				return mathV(c.Div(p, c.Big(pow2(uint(q.ival.Int64())))))
			}
		}
	case *ast.IndexExpr:
		// ghost access: G.name[obj] / G.name[obj][i]
		if g, obj, ok := e.ghost(ex); ok {
			if g.decl.row {
				return Val{rowT{g.decl.sort, g.decl.byt}, []*Term{c.Select(e.ghostHeap(g), obj)}}
			}
			return e.ghostVal(g.decl.sort, c.Select(c.Select(e.ghostHeap(g), obj), c.Int(0)))
		}
		a := e.eval(ex.X)
		if r, ok := a.T.(rowT); ok {
			t := c.Select(a.C[0], e.int(ex.Index))
			if r.byt && t.op == "select" {
				c.ranged(t, big.NewInt(0), big.NewInt(255))
			}
			return e.ghostVal(r.s, t)
		}
		switch u := a.T.Underlying().(type) {
		case *types.Slice:
			return x.load(e.st, u.Elem(), a.C[0], c.Add(a.C[1], e.int(ex.Index)))
		case *types.Basic:
			return mathV(c.Sbyte(a.C[0], e.int(ex.Index)))
		case *types.Map:
			return x.mapGet(e.st, a.T, a.C[0], e.coerce(e.eval(ex.Index), u.Key()))
		case *types.Array:
			i := e.int(ex.Index)
			n := len(x.layout(u.Elem()))
			if i.ival != nil {
				k := int(i.ival.Int64())
				return Val{u.Elem(), a.C[k*n : (k+1)*n]}
			}
			var cs []*Term
			for j := 0; j < n; j++ {
				t := a.C[int(u.Len()-1)*n+j]
				for k := int(u.Len()) - 2; k >= 0; k-- {
					t = c.Ite(c.Eq(i, c.Int(int64(k))), a.C[k*n+j], t)
				}
				cs = append(cs, t)
			}
			return Val{u.Elem(), cs}
		}
		e.bad("index of %v", a.T)
	case *ast.CallExpr:
		return e.call(ex)
	}
	e.bad("unsupported spec expression %s (%T)", types.ExprString(ex), ex)
	return Val{}
}

type rowT struct {
	s   Sort
	byt bool
}

func (r rowT) Underlying() types.Type { return r }
func (r rowT) String() string         { return "row" }

func (e *specEnv) ghostVal(s Sort, t *Term) Val {
	switch s {
	case SBool:
		return boolV(t)
	case SStr:
		return Val{types.Typ[types.String], []*Term{t}}
	}
	return mathV(t)
}

type ghostRef struct {
	name string
	decl ghostDecl
}

func (e *specEnv) ghost(ex *ast.IndexExpr) (ghostRef, *Term, bool) {
	sel, ok := ex.X.(*ast.SelectorExpr)
	if !ok {
		return ghostRef{}, nil, false
	}
	id, ok := sel.X.(*ast.Ident)
	if !ok || id.Name != "G" {
		return ghostRef{}, nil, false
	}
	d, ok := e.x.V.specs.Ghosts[sel.Sel.Name]
	if !ok {
		e.bad("unknown ghost %s", sel.Sel.Name)
	}
	v := e.eval(ex.Index)
	return ghostRef{sel.Sel.Name, d}, objID(v), true
}
func (e *specEnv) ghostHeap(g ghostRef) *Term { return e.x.ghostHeap(e.st, g.name) }
func (x *Exec) ghostHeap(st *State, name string) *Term {
	d, ok := x.V.specs.Ghosts[name]
	if !ok {
		x.fail("ghost %s not declared", name)
	}
	l := leaf{"g:" + name, d.sort, nil, nil}
	x.regLeaf(l)
	return x.heapSym(st, l.key, l.sort)
}
func (x *Exec) ghostGet(st *State, name string, obj *Term) *Term {
	return x.c.Select(x.c.Select(x.ghostHeap(st, name), obj), x.c.Int(0))
}
func (x *Exec) ghostSet(st *State, name string, obj, v *Term) {
	x.ghostHeap(st, name)
	x.storeLeaf(st, x.keyLeaf["g:"+name], obj, x.c.Int(0), v)
}
func (x *Exec) ghostRow(st *State, name string, obj *Term) *Term {
	return x.c.Select(x.ghostHeap(st, name), obj)
}
func (x *Exec) ghostSetRow(st *State, name string, obj, row *Term) {
	h := x.ghostHeap(st, name)
	st.heap["g:"+name] = x.c.Store(h, obj, row)
	st.writes = &writeNode{key: "g:" + name, base: obj, prev: st.writes}
}

func (e *specEnv) coerce(v Val, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, isI := v.T.Underlying().(*types.Interface); !isI {
			if isNilT(v.T) {
				return e.x.zero(t)
			}
			return e.x.makeIface(t, v)
		}
	}
	return Val{t, v.C}
}

func (e *specEnv) eq(a, b Val) *Term {
	x, c := e.x, e.x.c
	if isNilT(a.T) {
		a, b = b, a
	}
	if isNilT(b.T) {
		return c.Eq(a.C[0], c.Int(0))
	}
	_, ai := a.T.Underlying().(*types.Interface)
	_, bi := b.T.Underlying().(*types.Interface)
	if ai && !bi {
		b = x.makeIface(a.T, b)
	} else if bi && !ai {
		a = x.makeIface(b.T, a)
	}
	if len(a.C) != len(b.C) {
		e.bad("== on %v and %v", a.T, b.T)
	}
	var es []*Term
	for i := range a.C {
		if a.C[i].sort != b.C[i].sort {
			e.bad("== on %v and %v", a.T, b.T)
		}
		es = append(es, c.Eq(a.C[i], b.C[i]))
	}
	return c.And(es...)
}

func (e *specEnv) field(v Val, name string) Val {
	x := e.x
	t := v.T
	for n := 0; n < 4; n++ {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			// address-level access
			obj, idx, _ := types.LookupFieldOrMethod(t, true, x.V.fieldPkg(p.Elem()), name)
			if obj == nil {
				e.bad("no field %s in %v", name, t)
			}
			b, i := v.C[0], v.C[1]
			ct := p.Elem()
			for k, f := range idx {
				st, ok := ct.Underlying().(*types.Struct)
				if !ok {
					e.bad("field path through %v", ct)
				}
				b = x.c.FBase(fieldKey(ct, f), b)
				ct = st.Field(f).Type()
				if k < len(idx)-1 {
					if pp, ok := ct.Underlying().(*types.Pointer); ok {
						pv := x.load(e.st, ct, b, i)
						b, i = pv.C[0], pv.C[1]
						ct = pp.Elem()
					}
				}
			}
			return x.load(e.st, ct, b, i)
		}
		if _, ok := t.Underlying().(*types.Struct); ok {
			obj, idx, _ := types.LookupFieldOrMethod(t, false, x.V.fieldPkg(t), name)
			if obj == nil {
				e.bad("no field %s in %v", name, t)
			}
			cur := v
			for _, f := range idx {
				if _, isP := cur.T.Underlying().(*types.Pointer); isP {
					return e.field(cur, name)
				}
				lo, hi, ft := x.fieldRange(cur.T, f)
				cur = Val{ft, cur.C[lo:hi]}
			}
			return cur
		}
		break
	}
	e.bad("field %s of %v", name, t)
	return Val{}
}

// addr computes the address of an lvalue expression.
func (e *specEnv) addr(ex ast.Expr) (*Term, *Term, types.Type) {
	x := e.x
	switch ex := ex.(type) {
	case *ast.ParenExpr:
		return e.addr(ex.X)
	case *ast.Ident:
		if p := x.V.pkgByName(e.pkg); p != nil {
			if g, ok := p.Members[ex.Name].(*ssa.Global); ok {
				return x.c.Global(x.V.globName(g)), x.c.Int(0), g.Type().Underlying().(*types.Pointer).Elem()
			}
		}
	case *ast.StarExpr:
		p := e.eval(ex.X)
		return p.C[0], p.C[1], p.T.Underlying().(*types.Pointer).Elem()
	case *ast.SelectorExpr:
		var b, i *Term
		var ct types.Type
		base := func() {
			v := e.eval(ex.X)
			if p, ok := v.T.Underlying().(*types.Pointer); ok {
				b, i, ct = v.C[0], v.C[1], p.Elem()
				return
			}
			b, i, ct = e.addr(ex.X)
		}
		base()
		obj, idx, _ := types.LookupFieldOrMethod(ct, true, x.V.fieldPkg(ct), ex.Sel.Name)
		if obj == nil {
			e.bad("no field %s in %v", ex.Sel.Name, ct)
		}
		for k, f := range idx {
			st := ct.Underlying().(*types.Struct)
			b = x.c.FBase(fieldKey(ct, f), b)
			ct = st.Field(f).Type()
			if k < len(idx)-1 {
				if pp, ok := ct.Underlying().(*types.Pointer); ok {
					pv := x.load(e.st, ct, b, i)
					b, i = pv.C[0], pv.C[1]
					ct = pp.Elem()
				}
			}
		}
		return b, i, ct
	case *ast.IndexExpr:
		a := e.eval(ex.X)
		if u, ok := a.T.Underlying().(*types.Slice); ok {
			return a.C[0], x.c.Add(a.C[1], e.int(ex.Index)), u.Elem()
		}
	}
	e.bad("not addressable: %s", types.ExprString(ex))
	return nil, nil, nil
}

func (e *specEnv) pkgObj(pkg, name string) (Val, bool) {
	p := e.x.V.pkgByName(pkg)
	if p == nil {
		return Val{}, false
	}
	switch o := p.Pkg.Scope().Lookup(name).(type) {
	case *types.Const:
		t := o.Type()
		v := e.x.constOf(t, o.Val())
		return v, true
	case *types.Var:
		g := p.Members[name].(*ssa.Global)
		if v, ok := e.x.globalConst(e.st, g); ok {
			return v, true
		}
		return e.x.load(e.st, o.Type(), e.x.c.Global(e.x.V.globName(g)), e.x.c.Int(0)), true
	}
	return Val{}, false
}

func (e *specEnv) call(ex *ast.CallExpr) Val {
	x, c := e.x, e.x.c
	if e.depth > 60 {
		e.bad("macro recursion")
	}
	fn := ""
	if id, ok := ex.Fun.(*ast.Ident); ok {
		fn = id.Name
	}
	a := ex.Args
	switch fn {
	case "old":
		n := *e
		n.st = e.old
		n.old = e.old
		return n.eval(a[0])
	case "imp":
		p := e.bool(a[0])
		if p == c.False {
			return boolV(c.True)
		}
		return boolV(c.Implies(p, e.bool(a[1])))
	case "ite":
		b := e.bool(a[0])
		if b == c.True {
			return e.eval(a[1])
		}
		if b == c.False {
			return e.eval(a[2])
		}
		p, q := e.eval(a[1]), e.eval(a[2])
		if len(p.C) != len(q.C) {
			e.bad("ite arms differ")
		}
		r := Val{T: p.T}
		for i := range p.C {
			r.C = append(r.C, c.Ite(b, p.C[i], q.C[i]))
		}
		return r
	case "forall": // forall(i, lo, hi, body) or forall(i, T, body)
		name := a[0].(*ast.Ident).Name
		if len(a) == 4 {
			lo, hi := e.int(a[1]), e.int(a[2])
			if lo.ival != nil && hi.ival != nil {
				n := new(big.Int).Sub(hi.ival, lo.ival)
				if n.Sign() <= 0 {
					return boolV(c.True)
				}
				if n.Cmp(big.NewInt(16)) <= 0 {
					var ts []*Term
					for k := int64(0); k < n.Int64(); k++ {
						ts = append(ts, e.with(map[string]Val{name: mathV(c.Add(lo, c.Int(k)))}).bool(a[3]))
					}
					return boolV(c.And(ts...))
				}
			}
			bv := c.BoundVar(name, SInt)
			body := e.with(map[string]Val{name: mathV(bv)}).bool(a[3])
			return boolV(c.Forall([]*Term{bv}, c.Implies(c.And(c.Le(lo, bv), c.Lt(bv, hi)), body), trigger(body, bv)...))
		}
		t := e.typ(a[1])
		var bvs []*Term
		v := Val{T: t}
		var rg []*Term
		for _, l := range x.layout(t) {
			b := c.BoundVar(name, l.sort)
			bvs = append(bvs, b)
			v.C = append(v.C, b)
			if l.lo != nil {
				rg = append(rg, c.Le(c.Big(l.lo), b))
			}
			if l.hi != nil {
				rg = append(rg, c.Le(b, c.Big(l.hi)))
			}
		}
		body := e.with(map[string]Val{name: v}).bool(a[2])
		var trig []*Term
		if len(bvs) == 1 {
			trig = trigger(body, bvs[0])
		}
		return boolV(c.Forall(bvs, c.Implies(c.And(rg...), body), trig...))
	case "let": // let(x, e, body)
		return e.with(map[string]Val{a[0].(*ast.Ident).Name: e.eval(a[1])}).eval(a[2])
	case "is":
		v := e.eval(a[0])
		t := e.typ(a[1])
		if _, ok := t.Underlying().(*types.Interface); ok {
			return boolV(x.implTest(v.C[0], t))
		}
		return boolV(c.Eq(v.C[0], x.typeID(t)))
	case "as":
		v := e.eval(a[0])
		return x.unbox(e.st, e.typ(a[1]), v.C[1])
	case "tag":
		return mathV(e.eval(a[0]).C[0])
	case "payload":
		return mathV(e.eval(a[0]).C[1])
	case "typeid":
		return mathV(x.typeID(e.typ(a[0])))
	case "boxof":
		return mathV(x.box(e.eval(a[0])))
	case "unboxas": // unboxas(T, term)
		return x.unbox(e.st, e.typ(a[0]), e.int(a[1]))
	case "iface": // iface(tag, box)
		return Val{types.NewInterfaceType(nil, nil), []*Term{e.int(a[0]), e.int(a[1])}}
	case "len":
		v := e.eval(a[0])
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			return mathV(v.C[2])
		case *types.Basic:
			return mathV(c.Slen(v.C[0]))
		case *types.Map:
			return mathV(x.mapLen(e.st, v.T, v.C[0]))
		case *types.Array:
			return mathV(c.Int(u.Len()))
		}
		e.bad("len of %v", v.T)
	case "cap":
		return mathV(e.eval(a[0]).C[3])
	case "arrbase": // identity of the array stored in a field: arrbase(p.f)
		b, i, t := e.addr(a[0])
		if _, ok := t.Underlying().(*types.Array); !ok {
			e.bad("arrbase of %v", t)
		}
		return mathV(c.ABase(b, i))
	case "base":
		return mathV(e.eval(a[0]).C[0])
	case "off":
		return mathV(e.eval(a[0]).C[1])
	case "comp":
		return mathV(e.eval(a[0]).C[int(e.int(a[1]).ival.Int64())])
	case "has": // has(map, key)
		m := e.eval(a[0])
		u := m.T.Underlying().(*types.Map)
		return boolV(x.mapHas(e.st, m.T, m.C[0], e.coerce(e.eval(a[1]), u.Key())))
	case "sbyte":
		return mathV(c.Sbyte(e.eval(a[0]).C[0], e.int(a[1])))
	case "strof": // strof(byteslice)
		s := e.eval(a[0])
		row := c.Select(x.heapSym(e.st, "uint8", SInt), s.C[0])
		return Val{types.Typ[types.String], []*Term{c.MkStr(row, s.C[1], s.C[2])}}
	case "mkstr": // mkstr(row, off, n)
		r := e.eval(a[0])
		return Val{types.Typ[types.String], []*Term{c.MkStr(r.C[0], e.int(a[1]), e.int(a[2]))}}
	case "mod":
		return mathV(c.Mod(e.int(a[0]), e.int(a[1])))
	case "div":
		return mathV(c.Div(e.int(a[0]), e.int(a[1])))
	case "min":
		p, q := e.int(a[0]), e.int(a[1])
		return mathV(c.Ite(c.Le(p, q), p, q))
	case "max":
		p, q := e.int(a[0]), e.int(a[1])
		return mathV(c.Ite(c.Le(p, q), q, p))
	case "conv": // conv(T, e): Go conversion
		t := e.typ(a[0])
		return x.convert(e.st, nil, e.eval(a[1]), t, token.NoPos)
	case "typed": // typed(T, e): reinterpret
		t, cs := e.typ(a[0]), e.eval(a[1]).C
		if _, isp := t.Underlying().(*types.Pointer); isp && len(cs) == 1 {
			cs = []*Term{cs[0], c.Int(0)}
		}
		return Val{t, cs}
	case "zero":
		return x.zero(e.typ(a[0]))
	case "feq":
		p, q := e.eval(a[0]).C[0], e.eval(a[1]).C[0]
		return boolV(x.fpop("fp.eq", SBool, p, q))
	case "isNaN":
		return boolV(x.fpop("fp.isNaN", SBool, e.eval(a[0]).C[0]))
	case "bits64":
		return mathV(x.f64bits(e.eval(a[0]).C[0]))
	case "bits32":
		return mathV(x.f32bits(e.eval(a[0]).C[0]))
	case "fresh": // fresh(p): object allocated during the call
		v := e.eval(a[0])
		r := rootOf(objRoot(v))
		return boolV(c.Bool(r.op == "alloc" && r.birth > 2))
	case "unchanged": // unchanged(lvalue)
		n := *e
		n.st = e.old
		n.old = e.old
		return boolV(e.eq(e.eval(a[0]), n.eval(a[0])))
	case "held": // held(&mu)
		v := e.eval(a[0])
		return boolV(c.Bool(e.st.locks[lockKey(v)] != 0))
	case "dynrecv":
		v := e.eval(a[0])
		return Val{v.T, v.C}
	case "rowupd": // rowupd(row, i, v)
		r := e.eval(a[0])
		return Val{r.T, []*Term{c.Store(r.C[0], e.int(a[1]), e.eval(a[2]).C[0])}}
	case "uf", "ufb", "ufs":
		name := a[0].(*ast.Ident).Name
		var ts []*Term
		for _, q := range a[1:] {
			ts = append(ts, e.eval(q).C...)
		}
		s := map[string]Sort{"uf": SInt, "ufb": SBool, "ufs": SStr}[fn]
		return e.ghostVal(s, c.App("spec."+name, s, ts...))
	}
	if m, ok := x.V.specs.Macros[fn]; ok {
		if len(m.params) != len(a) {
			e.bad("macro %s wants %d arguments", fn, len(m.params))
		}
		n := map[string]Val{}
		for i, p := range m.params {
			n[p] = e.eval(a[i])
		}
		ne := e.with(n)
		ne.depth++
		return ne.eval(m.body)
	}
	// conversion or pure Go function
	if t := x.V.evalType(e.pkg, ex.Fun); t != nil && len(a) == 1 {
		v := e.eval(a[0])
		if v.T == mathT {
			return Val{t, v.C}
		}
		return x.convert(e.st, nil, v, t, token.NoPos)
	}
	// pure external function as uninterpreted function, e.g. strings.ToLower(x)
	if sel, ok := ex.Fun.(*ast.SelectorExpr); ok {
		if id, ok := sel.X.(*ast.Ident); ok {
			if _, shadow := e.names[id.Name]; !shadow {
				if p := x.V.pkgByName(id.Name); p != nil {
					if f, ok := p.Members[sel.Sel.Name].(*ssa.Function); ok {
						var args []Val
						for i, q := range a {
							args = append(args, e.coerce(e.eval(q), f.Signature.Params().At(i).Type()))
						}
						nm := x.V.short(f)
						if m := models[nm]; m != nil && (id.Name == "math" || id.Name == "time" || id.Name == "bytes") {
							var out []Val
							m(x, e.st, nil, args, f.Signature.Results(), token.NoPos, func(_ *State, _ *Frame, rs []Val) { out = rs })
							if len(out) > 0 {
								return out[0]
							}
						}
						if r, ok := x.pureUF(f, args); ok {
							return r[0]
						}
					}
				}
			}
		}
	}
	e.bad("unknown spec function %s", types.ExprString(ex.Fun))
	return Val{}
}
func objRoot(v Val) *Term {
	return v.C[0]
}

// trigger picks select terms mentioning the bound variable.
func trigger(body, bv *Term) []*Term {
	var best *Term
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if best != nil || seen[t.id] || !t.bound {
			return
		}
		seen[t.id] = true
		if t.op == "select" || t.op == "uf" {
			hasBV := false
			ok := true
			var chk func(u *Term)
			chk = func(u *Term) {
				if u == bv {
					hasBV = true
				}
				if u.op == "forall" || u.op == "ite" || u.op == "bvar" && u != bv || u.sort == SBool {
					ok = false
				}
				for _, a := range u.args {
					if a.bound {
						chk(a)
					}
				}
			}
			for _, a := range t.args {
				if a.bound {
					chk(a)
				}
			}
			// index must be simple: bv or bv + const
			if ok && hasBV {
				idx := t.args[len(t.args)-1]
				if idx == bv || idx.op == "+" || t.op == "uf" {
					best = t
					return
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	if best == nil {
		return nil
	}
	return []*Term{best}
}

// evalInv evaluates a loop-invariant candidate in the target's environment.
func (x *Exec) evalInv(cl *Clause, st *State, fr *Frame, k, i *Term, s, tt *Val) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(specErr); is {
				if dbgInv {
					fmt.Println("INV eval:", r)
				}
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	e := &specEnv{x: x, names: x.paramEnv, st: st, old: x.entry, k: k, i: i, s: s, t: tt, pkg: x.ctr.Pkg}
	return e.bool(cl.Expr), true
}

// scalarGhost reports whether a heap key belongs to a ghost with one cell per object.
func (x *Exec) scalarGhost(key string) bool {
	if !strings.HasPrefix(key, "g:") {
		return false
	}
	d, ok := x.V.specs.Ghosts[key[2:]]
	return ok && !d.row
}
