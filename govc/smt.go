package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// ---- printing ----
type printer struct {
	c     *Ctx
	refs  map[int]int
	order []*Term
	seen  map[int]bool
	def   map[int]bool
	sb    strings.Builder
	decls strings.Builder
	ufs   map[string]bool
	sortF map[string]bool
}

func smtInt(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}
func q(s string) string { return "|" + s + "|" }

func (p *printer) visit(t *Term) {
	p.refs[t.id]++
	if p.seen[t.id] {
		return
	}
	p.seen[t.id] = true
	if t.op == "havoc" {
		p.visit(t.args[1])
		p.order = append(p.order, t)
		return
	}
	for _, a := range t.args {
		p.visit(a)
	}
	p.order = append(p.order, t)
}

func (p *printer) ref(t *Term) string {
	if p.def[t.id] {
		return "t" + strconv.Itoa(t.id)
	}
	return p.body(t)
}
func (p *printer) list(op string, args []*Term) string {
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(op)
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(p.ref(a))
	}
	sb.WriteByte(')')
	return sb.String()
}
func (p *printer) body(t *Term) string {
	switch t.op {
	case "var", "bvar":
		return q(t.name)
	case "int":
		return smtInt(t.ival)
	case "fplit":
		return t.name
	case "true", "false":
		return t.op
	case "strlit":
		return q("str:" + strconv.Itoa(t.id))
	case "havoc":
		return p.ref(t.args[1])
	case "alloc":
		return t.lo.String()
	case "global":
		return q("glob:" + t.name)
	case "uf":
		if len(t.args) == 0 {
			return q(t.name)
		}
		return p.list(q(t.name), t.args)
	case "fbase":
		return p.list(q("fb:"+t.name), t.args)
	case "abase":
		return p.list("abase", t.args)
	case "constarr":
		return "((as const " + t.sort + ") " + p.ref(t.args[0]) + ")"
	case "smt": // raw operator
		return p.list(t.name, t.args)
	case "forall":
		n, _ := strconv.Atoi(t.name)
		var sb strings.Builder
		sb.WriteString("(forall (")
		for _, v := range t.args[:n] {
			fmt.Fprintf(&sb, "(%s %s)", q(v.name), v.sort)
		}
		sb.WriteString(") ")
		if len(t.args) > n+1 {
			sb.WriteString("(! " + p.ref(t.args[n]) + " :pattern (")
			for _, a := range t.args[n+1:] {
				sb.WriteString(p.ref(a) + " ")
			}
			sb.WriteString("))")
		} else {
			sb.WriteString(p.ref(t.args[n]))
		}
		sb.WriteString(")")
		return sb.String()
	}
	return p.list(t.op, t.args)
}

// script builds an SMT-LIB script asserting all of fs.
func (c *Ctx) script(fs []*Term) (string, []*Term) {
	p := &printer{c: c, refs: map[int]int{}, seen: map[int]bool{}, def: map[int]bool{}, ufs: map[string]bool{}, sortF: map[string]bool{}}
	var extra []*Term
	for _, f := range fs {
		p.visit(f)
	}
	// ground axioms, transitively
	asserted := map[int]bool{}
	done := 0
	var strTerms []*Term
	empty := c.StrLit("")
	emptyUsed := false
	for done < len(p.order) {
		t := p.order[done]
		done++
		if t.bound {
			continue
		}
		for _, a := range c.axioms[t.id] {
			if !asserted[a.id] {
				asserted[a.id] = true
				extra = append(extra, a)
				p.visit(a)
			}
		}
		if t.sort == SInt && (t.op == "var" || t.op == "select" || t.op == "uf" || t.op == "ite") && t.op != "ite" {
			if t.lo != nil {
				f := c.mk(&Term{op: "<=", sort: SBool, args: []*Term{c.Big(t.lo), t}})
				extra = append(extra, f)
				p.visit(f)
			}
			if t.hi != nil {
				f := c.mk(&Term{op: "<=", sort: SBool, args: []*Term{t, c.Big(t.hi)}})
				extra = append(extra, f)
				p.visit(f)
			}
		}
		if t.sort == SStr {
			if t.op == "strlit" {
				if t == empty {
					emptyUsed = true
				}
			} else {
				strTerms = append(strTerms, t)
				l := c.Slen(t)
				if !p.seen[l.id] {
					p.visit(l)
				}
			}
		}
	}
	if emptyUsed {
		for _, t := range strTerms {
			l := c.Slen(t)
			f := c.mk(&Term{op: "=", sort: SBool, args: []*Term{c.mk(&Term{op: "=", sort: SBool, args: []*Term{l, c.Int(0)}}), c.mk(&Term{op: "=", sort: SBool, args: []*Term{t, empty}})}})
			extra = append(extra, f)
			p.visit(f)
		}
	}
	var sb strings.Builder
	var vars []*Term
	sb.WriteString("(declare-sort Str 0)\n")
	needBase := false
	var bases, lits []*Term
	slenDecl, sbytesDecl := false, false
	for _, t := range p.order {
		switch t.op {
		case "var":
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", q(t.name), t.sort)
			vars = append(vars, t)
		case "strlit":
			fmt.Fprintf(&sb, "(declare-const %s Str)\n", q("str:"+strconv.Itoa(t.id)))
			lits = append(lits, t)
		case "global":
			fmt.Fprintf(&sb, "(declare-const %s Int)\n", q("glob:"+t.name))
			needBase = true
			bases = append(bases, t)
		case "alloc":
			needBase = true
			bases = append(bases, t)
		case "uf":
			if !p.ufs[t.name] {
				p.ufs[t.name] = true
				d := c.ufs[t.name]
				fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", q(t.name), strings.Join(d.args, " "), d.res)
				if t.name == "slen" {
					slenDecl = true
				}
				if t.name == "sbytes" {
					sbytesDecl = true
				}
			}
		case "fbase":
			needBase = true
			if !p.ufs["fb:"+t.name] {
				p.ufs["fb:"+t.name] = true
				fmt.Fprintf(&sb, "(declare-fun %s (Int) Int)\n", q("fb:"+t.name))
			}
			bases = append(bases, t)
		case "abase":
			needBase = true
			if !p.ufs["abase"] {
				p.ufs["abase"] = true
				sb.WriteString("(declare-fun abase (Int Int) Int)\n")
			}
			bases = append(bases, t)
		}
	}
	if needBase {
		sb.WriteString("(declare-fun binv (Int) Int)\n(declare-fun binv2 (Int) Int)\n(declare-fun btag (Int) Int)\n")
	}
	if len(lits) > 0 {
		if !slenDecl {
			sb.WriteString("(declare-fun |slen| (Str) Int)\n")
		}
		if len(lits) > 1 {
			sb.WriteString("(assert (distinct")
			for _, l := range lits {
				sb.WriteString(" " + q("str:"+strconv.Itoa(l.id)))
			}
			sb.WriteString("))\n")
		}
		for _, l := range lits {
			fmt.Fprintf(&sb, "(assert (= (|slen| %s) %d))\n", q("str:"+strconv.Itoa(l.id)), len(l.name))
			if sbytesDecl && len(l.name) <= 24 {
				for i := 0; i < len(l.name); i++ {
					fmt.Fprintf(&sb, "(assert (= (select (|sbytes| %s) %d) %d))\n", q("str:"+strconv.Itoa(l.id)), i, l.name[i])
				}
			}
		}
	}
	// definitions of shared subterms
	for _, t := range p.order {
		if p.refs[t.id] > 1 && len(t.args) > 0 && !t.bound && t.op != "forall" {
			b := p.body(t)
			if len(b) > 24 {
				fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, t.sort, b)
				p.def[t.id] = true
			}
		}
	}
	tags := map[string]int{}
	for _, t := range bases {
		if t.bound {
			continue
		}
		r := p.ref(t)
		switch t.op {
		case "alloc":
			fmt.Fprintf(&sb, "(assert (= (btag %s) 0))\n", r)
		case "global":
			// negative, distinct numbers
			if _, ok := tags["g:"+t.name]; !ok {
				tags["g:"+t.name] = len(tags) + 1
			}
			fmt.Fprintf(&sb, "(assert (= %s (- %d)))\n(assert (= (btag %s) 0))\n", r, 1000+tags["g:"+t.name], r)
		case "fbase":
			if _, ok := tags["f:"+t.name]; !ok {
				tags["f:"+t.name] = len(tags) + 1
			}
			fmt.Fprintf(&sb, "(assert (and (= (btag %s) %d) (= (binv %s) %s) (not (= %s 0))))\n", r, tags["f:"+t.name]+1, r, p.ref(t.args[0]), r)
		case "abase":
			fmt.Fprintf(&sb, "(assert (and (= (btag %s) 1) (= (binv %s) %s) (= (binv2 %s) %s) (not (= %s 0))))\n", r, r, p.ref(t.args[0]), r, p.ref(t.args[1]), r)
		}
	}
	for _, f := range extra {
		fmt.Fprintf(&sb, "(assert %s)\n", p.ref(f))
	}
	for _, f := range fs {
		fmt.Fprintf(&sb, "(assert %s)\n", p.ref(f))
	}
	return sb.String(), vars
}

// ---- solver processes ----
type proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	dead bool
}

func startProc(bin string, args ...string) (*proc, error) {
	cmd := exec.Command(bin, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

type Solvers struct {
	mu    sync.Mutex
	pools map[string][]*proc
	Stats struct {
		FeasN, FeasNanos                        int64
		Queries, ByZ3, ByZ3New, ByCVC5, Unknown int64
		Nanos                                   int64
	}
}

func NewSolvers() *Solvers { return &Solvers{pools: map[string][]*proc{}} }

func (s *Solvers) get(bin string) (*proc, error) {
	s.mu.Lock()
	l := s.pools[bin]
	if len(l) > 0 {
		p := l[len(l)-1]
		s.pools[bin] = l[:len(l)-1]
		s.mu.Unlock()
		return p, nil
	}
	s.mu.Unlock()
	return startProc(bin, "-in")
}
func (s *Solvers) put(bin string, p *proc) {
	if p.dead {
		p.cmd.Process.Kill()
		go p.cmd.Wait()
		return
	}
	s.mu.Lock()
	s.pools[bin] = append(s.pools[bin], p)
	s.mu.Unlock()
}
func (s *Solvers) Close() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, l := range s.pools {
		for _, p := range l {
			p.in.Close()
			p.cmd.Process.Kill()
			p.cmd.Wait()
		}
	}
	s.pools = map[string][]*proc{}
}

var dumpN int64

func (s *Solvers) z3(bin, script string, timeoutMs int, values []string) (Result, string) {
	p, err := s.get(bin)
	if err != nil {
		return Unknown, err.Error()
	}
	defer s.put(bin, p)
	var sb strings.Builder
	sb.WriteString("(reset)\n(set-option :timeout " + strconv.Itoa(timeoutMs) + ")\n(set-option :smt.mbqi false)\n")
	sb.WriteString(script)
	sb.WriteString("(check-sat)\n(echo \"<<done>>\")\n")
	timer := time.AfterFunc(time.Duration(timeoutMs)*time.Millisecond+5*time.Second, func() { p.dead = true; p.cmd.Process.Kill() })
	defer timer.Stop()
	if _, err := io.WriteString(p.in, sb.String()); err != nil {
		p.dead = true
		return Unknown, err.Error()
	}
	out, err := p.readUntilDone()
	if err != nil {
		p.dead = true
		return Unknown, out + err.Error()
	}
	res := Unknown
	for _, l := range strings.Split(out, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			res = Unsat
		case "sat":
			res = Sat
		case "unknown":
			res = Unknown
		}
		if strings.HasPrefix(l, "(error") {
			if os.Getenv("GOVC_DEBUG") != "" {
				n := atomic.AddInt64(&dumpN, 1)
				os.WriteFile(fmt.Sprintf("/tmp/govc_err_%d.smt2", n), []byte(script), 0644)
			}
			fmt.Fprintln(os.Stderr, "SMT error:", l)
			return Unknown, l
		}
	}
	model := ""
	if (res == Sat || res == Unknown) && len(values) > 0 {
		io.WriteString(p.in, "(get-value ("+strings.Join(values, " ")+"))\n(echo \"<<done>>\")\n")
		m, err := p.readUntilDone()
		if err == nil {
			model = m
		}
	}
	return res, model
}
func (p *proc) readUntilDone() (string, error) {
	var sb strings.Builder
	for {
		l, err := p.out.ReadString('\n')
		if err != nil {
			return sb.String(), err
		}
		if strings.TrimSpace(l) == "<<done>>" {
			return sb.String(), nil
		}
		sb.WriteString(l)
	}
}

func (s *Solvers) cvc5(script string, timeoutMs int) Result {
	cmd := exec.Command("cvc5", "--lang=smt2", "--tlimit="+strconv.Itoa(timeoutMs), "-q")
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + script + "(check-sat)\n")
	out, _ := cmd.Output()
	o := strings.TrimSpace(string(out))
	if strings.HasPrefix(o, "unsat") {
		return Unsat
	}
	if strings.HasPrefix(o, "sat") {
		return Sat
	}
	return Unknown
}

// Feasible: quick satisfiability check of a path condition (unknown = feasible).
func (s *Solvers) Feasible(c *Ctx, fs []*Term) bool {
	sc, _ := c.script(fs)
	t0 := time.Now()
	if strings.Contains(sc, "fp.mul") || strings.Contains(sc, "fp.div") || strings.Contains(sc, "fp.rem") {
		return true // bit-blasted arithmetic is not decided quickly; unknown counts as feasible
	}
	r, _ := s.z3("z3", sc, 250, nil)
	atomic.AddInt64(&s.Stats.Queries, 1)
	d := time.Since(t0)
	atomic.AddInt64(&s.Stats.Nanos, int64(d))
	atomic.AddInt64(&s.Stats.FeasN, 1)
	atomic.AddInt64(&s.Stats.FeasNanos, int64(d))
	if dd := os.Getenv("GOVC_DUMPF"); dd != "" && d > 100*time.Millisecond {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(fmt.Sprintf("%s/f%d-%s-%dms.smt2", dd, n, r, d.Milliseconds()), []byte(sc+"(check-sat)\n"), 0644)
	}
	return r != Unsat
}

// Prove checks that the conjunction hyps entails goal.
// query builds the script whose unsatisfiability proves goal under hyps.
func (c *Ctx) query(hyps []*Term, goal *Term) (string, []*Term) {
	var sks []*Term
	ng := c.Not(c.skolem(goal, &sks))
	fs := make([]*Term, 0, len(hyps)+1)
	for _, h := range hyps {
		fs = append(fs, c.negSk(h, &sks))
	}
	if len(sks) > 0 && len(sks) < 40 {
		seen := map[int]bool{}
		for _, h := range fs[:len(fs):len(fs)] {
			for _, sk := range sks {
				if len(seen) > 400 {
					break
				}
				if i := c.instAt(h, sk); i != c.True && !seen[i.id] {
					seen[i.id] = true
					fs = append(fs, i)
				}
			}
		}
	}
	return c.script(append(fs, ng))
}

func (s *Solvers) Prove(c *Ctx, hyps []*Term, goal *Term, timeoutMs int, quick bool) (Result, string, string) {
	if goal == c.True {
		return Unsat, "", "simplifier"
	}
	sc, vars := c.query(hyps, goal)
	return s.solve(c, sc, vars, timeoutMs, quick)
}

// skolem replaces the universally quantified variables of a goal by fresh constants, so that the range
// and well-formedness facts of the terms they index are asserted.
func (c *Ctx) skolem(t *Term, sks *[]*Term) *Term {
	switch t.op {
	case "and", "or":
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = c.skolem(a, sks)
			ch = ch || as[i] != a
		}
		if !ch {
			return t
		}
		if t.op == "and" {
			return c.And(as...)
		}
		return c.Or(as...)
	case "not":
		if b := c.negSk(t.args[0], sks); b != t.args[0] {
			return c.Not(b)
		}
	case "=>":
		a, b := c.negSk(t.args[0], sks), c.skolem(t.args[1], sks)
		if a != t.args[0] || b != t.args[1] {
			return c.Implies(a, b)
		}
	case "forall":
		if t.bound {
			return t
		}
		n, _ := strconv.Atoi(t.name)
		m := map[int]*Term{}
		for _, v := range t.args[:n] {
			sk := c.Fresh("sk", v.sort)
			m[v.id] = sk
			*sks = append(*sks, sk)
		}
		return c.skolem(c.Subst(t.args[n], m, map[int]*Term{}), sks)
	}
	return t
}

// negSk skolemises the quantifiers that occur negatively in a hypothesis.
func (c *Ctx) negSk(t *Term, sks *[]*Term) *Term {
	switch t.op {
	case "and", "or", "not", "=>":
	default:
		return t
	}
	if r, ok := c.negSkT[t.id]; ok {
		*sks = append(*sks, c.skolems[t.id]...)
		return r
	}
	var mine []*Term
	r := t
	switch t.op {
	case "and", "or":
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = c.negSk(a, &mine)
			ch = ch || as[i] != a
		}
		if ch && t.op == "and" {
			r = c.And(as...)
		} else if ch {
			r = c.Or(as...)
		}
	case "not":
		if b := c.skolem(t.args[0], &mine); b != t.args[0] {
			r = c.Not(b)
		}
	case "=>":
		a, b := c.skolem(t.args[0], &mine), c.negSk(t.args[1], &mine)
		if a != t.args[0] || b != t.args[1] {
			r = c.Implies(a, b)
		}
	}
	c.negSkT[t.id] = r
	c.skolems[t.id] = mine
	*sks = append(*sks, mine...)
	return r
}

// instAt instantiates the outermost single-variable quantifiers of a hypothesis at a constant.
func (c *Ctx) instAt(t, sk *Term) *Term {
	switch t.op {
	case "and":
		var as []*Term
		for _, a := range t.args {
			if i := c.instAt(a, sk); i != c.True {
				as = append(as, i)
			}
		}
		return c.And(as...)
	case "=>":
		if i := c.instAt(t.args[1], sk); i != c.True {
			return c.Implies(t.args[0], i)
		}
	case "forall":
		if t.name == "1" && t.args[0].sort == sk.sort && !t.bound {
			return c.Subst(t.args[1], map[int]*Term{t.args[0].id: sk}, map[int]*Term{})
		}
	}
	return c.True
}

func (s *Solvers) solve(c *Ctx, sc string, vars []*Term, timeoutMs int, quick bool) (Result, string, string) {
	var names []string
	for _, v := range vars {
		if !strings.HasPrefix(v.sort, "(Array") && v.sort != SStr {
			names = append(names, q(v.name))
		}
	}
	if len(names) > 200 {
		names = names[:200]
	}
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.Stats.Nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.Stats.Queries, 1)
	first := timeoutMs
	if !quick && first > 5000 {
		first = 5000
	}
	r, m := s.z3("z3", sc, first, names)
	if r == Unsat {
		atomic.AddInt64(&s.Stats.ByZ3, 1)
		return r, "", "z3-4.8.12"
	}
	if r == Sat || quick {
		return r, m, "z3-4.8.12"
	}
	r2, m2 := s.z3("z3-new", sc, timeoutMs, names)
	if r2 == Unsat {
		atomic.AddInt64(&s.Stats.ByZ3New, 1)
		return r2, "", "z3-5.3.2"
	}
	if r2 == Sat {
		return r2, m2, "z3-5.3.2"
	}
	r3 := s.cvc5(sc, timeoutMs)
	if r3 == Unsat {
		atomic.AddInt64(&s.Stats.ByCVC5, 1)
		return r3, "", "cvc5-1.1.2"
	}
	atomic.AddInt64(&s.Stats.Unknown, 1)
	if os.Getenv("GOVC_DUMP") != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", os.Getenv("GOVC_DUMP"), n), []byte(sc+"(check-sat)\n"), 0644)
	}
	return Unknown, m, "none"
}
