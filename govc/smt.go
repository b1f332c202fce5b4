package main

// SMT-LIB emission and solver processes.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func q(s string) string { return "|" + s + "|" }

func sortName(s *Sort) string {
	switch s.Kind {
	case KInt:
		return "Int"
	case KBool:
		return "Bool"
	case KArr:
		return "(Array " + sortName(s.Key) + " " + sortName(s.Elem) + ")"
	}
	return q(s.Name)
}

type emitter struct {
	sent     map[string]bool
	c        *Ctx
	out      strings.Builder
	sortDone map[*Sort]bool
	fnDone   map[string]bool
	refs     map[*Term]int
	order    []*Term
	hasBound map[*Term]bool
	name     map[*Term]string
	ops      map[string]bool // operators in use
	lits     []*Term
	seqSorts map[*Sort]bool
	bound    map[*Term]bool
	extra    []string
	abs      map[*Term]bool // terms taken as variables
}

func (e *emitter) visit(t *Term) {
	e.refs[t]++
	if e.refs[t] > 1 {
		return
	}
	if e.abs[t] {
		e.sort(t.Sort)
		e.name[t] = fmt.Sprintf("f!%d", t.ID)
		e.order = append(e.order, t)
		return
	}
	if t.Op == "forall" {
		nv := int(t.I.Int64())
		for _, v := range t.Args[1 : 1+nv] {
			e.bound[v] = true
			e.sort(v.Sort)
		}
	}
	hb := e.bound[t]
	for _, a := range t.Args {
		e.visit(a)
		if e.hasBound[a] {
			hb = true
		}
	}
	if t.Op == "forall" {
		hb = false
		// nested quantifiers over outer variables are not used
	}
	e.hasBound[t] = hb
	e.sort(t.Sort)
	if t.Op == "str" {
		e.lits = append(e.lits, t)
	}
	e.ops[t.Op] = true
	e.order = append(e.order, t)
}

func (e *emitter) sort(s *Sort) {
	if e.sortDone[s] {
		return
	}
	e.sortDone[s] = true
	switch s.Kind {
	case KStr, KF64, KIface, KUninterp:
		fmt.Fprintf(&e.out, "(declare-sort %s 0)\n", q(s.Name))
		if s.Kind == KIface {
			fmt.Fprintf(&e.out, "(declare-const nilI %s)\n(declare-const errI %s)\n(assert (distinct nilI errI))\n", q(s.Name), q(s.Name))
		}
	case KArr:
		e.sort(s.Key)
		e.sort(s.Elem)
	case KSeq:
		e.sort(s.Elem)
		e.seqSorts[s] = true
		n, el := q(s.Name), sortName(s.Elem)
		fmt.Fprintf(&e.out, "(declare-sort %s 0)\n", n)
		fmt.Fprintf(&e.out, "(declare-fun %s (%s) Int)\n", e.seqf("len", s), n)
		fmt.Fprintf(&e.out, "(declare-fun %s (%s Int) %s)\n", e.seqf("at", s), n, el)
		fmt.Fprintf(&e.out, "(declare-fun %s (%s %s) %s)\n", e.seqf("cat", s), n, n, n)
		fmt.Fprintf(&e.out, "(declare-fun %s (%s Int Int) %s)\n", e.seqf("sub", s), n, n)
		fmt.Fprintf(&e.out, "(declare-fun %s (%s Int %s) %s)\n", e.seqf("upd", s), n, el, n)
		fmt.Fprintf(&e.out, "(declare-fun %s (Int %s) %s)\n", e.seqf("zero", s), el, n)
		fmt.Fprintf(&e.out, "(declare-fun %s (%s) %s)\n", e.seqf("unit", s), el, n)
		fmt.Fprintf(&e.out, "(declare-const %s %s)\n", e.seqf("empty", s), n)
	case KStruct:
		for _, f := range s.Fields {
			e.sort(f.Sort)
		}
		fmt.Fprintf(&e.out, "(declare-datatypes ((%s 0)) (((%s", q(s.Name), q("mk "+s.Name))
		for _, f := range s.Fields {
			fmt.Fprintf(&e.out, " (%s %s)", q(s.Name+"."+f.Name), sortName(f.Sort))
		}
		if len(s.Fields) == 0 {
			fmt.Fprintf(&e.out, " (%s Bool)", q(s.Name+".dummy"))
		}
		e.out.WriteString("))))\n")
	}
}

func (e *emitter) seqf(op string, s *Sort) string { return q(op + ":" + s.Name) }

func (e *emitter) seqAxioms(s *Sort) {
	n, el := q(s.Name), sortName(s.Elem)
	L, A, C, S, U, Z, N, E := e.seqf("len", s), e.seqf("at", s), e.seqf("cat", s), e.seqf("sub", s), e.seqf("upd", s), e.seqf("zero", s), e.seqf("unit", s), e.seqf("empty", s)
	w := func(f string, a ...interface{}) { fmt.Fprintf(&e.out, f+"\n", a...) }
	w("(assert (forall ((s %s)) (! (>= (%s s) 0) :pattern ((%s s)))))", n, L, L)
	w("(assert (= (%s %s) 0))", L, E)
	w("(assert (forall ((s %s)) (! (=> (= (%s s) 0) (= s %s)) :pattern ((%s s)))))", n, L, E, L)
	if e.ops["seq.unit"] || e.ops["seq.lit"] {
		w("(assert (forall ((x %s)) (! (and (= (%s (%s x)) 1) (= (%s (%s x) 0) x)) :pattern ((%s x)))))", el, L, N, A, N, N)
	}
	if e.ops["seq.cat"] || e.ops["seq.lit"] {
		w("(assert (forall ((a %s) (b %s)) (! (= (%s (%s a b)) (+ (%s a) (%s b))) :pattern ((%s a b)))))", n, n, L, C, L, L, C)
		w("(assert (forall ((a %s) (b %s) (i Int)) (! (=> (and (<= 0 i) (< i (+ (%s a) (%s b)))) (= (%s (%s a b) i) (ite (< i (%s a)) (%s a i) (%s b (- i (%s a)))))) :pattern ((%s (%s a b) i)))))", n, n, L, L, A, C, L, A, A, L, A, C)
		w("(assert (forall ((a %s)) (! (= (%s a %s) a) :pattern ((%s a %s)))))", n, C, E, C, E)
		w("(assert (forall ((a %s)) (! (= (%s %s a) a) :pattern ((%s %s a)))))", n, C, E, C, E)
		w("(assert (forall ((a %s) (b %s) (d %s)) (! (= (%s (%s a b) d) (%s a (%s b d))) :pattern ((%s (%s a b) d)))))", n, n, n, C, C, C, C, C, C)
	}
	if e.ops["seq.sub"] {
		w("(assert (forall ((s %s) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (%s s))) (= (%s (%s s i j)) (- j i))) :pattern ((%s s i j)))))", n, L, L, S, S)
		w("(assert (forall ((s %s) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (%s s)) (<= 0 k) (< k (- j i))) (= (%s (%s s i j) k) (%s s (+ i k)))) :pattern ((%s (%s s i j) k)))))", n, L, A, S, A, A, S)
		w("(assert (forall ((s %s)) (! (= (%s s 0 (%s s)) s) :pattern ((%s s 0 (%s s))))))", n, S, L, S, L)
	}
	if e.ops["seq.upd"] {
		w("(assert (forall ((s %s) (i Int) (v %s)) (! (= (%s (%s s i v)) (%s s)) :pattern ((%s s i v)))))", n, el, L, U, L, U)
		w("(assert (forall ((s %s) (i Int) (v %s) (k Int)) (! (=> (and (<= 0 i) (< i (%s s))) (= (%s (%s s i v) k) (ite (= i k) v (%s s k)))) :pattern ((%s (%s s i v) k)))))", n, el, L, A, U, A, A, U)
	}
	if e.ops["seq.zero"] {
		w("(assert (forall ((m Int) (v %s)) (! (=> (>= m 0) (= (%s (%s m v)) m)) :pattern ((%s m v)))))", el, L, Z, Z)
		w("(assert (forall ((m Int) (v %s) (k Int)) (! (=> (and (<= 0 k) (< k m)) (= (%s (%s m v) k) v)) :pattern ((%s (%s m v) k)))))", el, A, Z, A, Z)
	}
}

func (e *emitter) strAxioms() {
	w := func(s string) { e.out.WriteString(s + "\n") }
	w("(declare-fun slen (|Str|) Int)\n(declare-fun sat (|Str| Int) Int)\n(declare-fun ssub (|Str| Int Int) |Str|)\n(declare-fun scat (|Str| |Str|) |Str|)\n(declare-fun strid (|Str|) Int)")
	if e.ops["slen"] || e.ops["ssub"] {
		w("(assert (forall ((s |Str|)) (! (>= (slen s) 0) :pattern ((slen s)))))")
	}
	if e.ops["sat"] || e.ops["ssub"] {
		w("(assert (forall ((s |Str|) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))")
	}
	if e.ops["ssub"] {
		w("(assert (forall ((s |Str|) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (ssub s i j)) (- j i))) :pattern ((ssub s i j)))))")
		w("(assert (forall ((s |Str|) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s)) (<= 0 k) (< k (- j i))) (= (sat (ssub s i j) k) (sat s (+ i k)))) :pattern ((sat (ssub s i j) k)))))")
	}
	if e.ops["scat"] {
		w("(assert (forall ((a |Str|) (b |Str|)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))")
		w("(assert (forall ((a |Str|) (b |Str|) (d |Str|)) (! (= (scat (scat a b) d) (scat a (scat b d))) :pattern ((scat (scat a b) d)))))")
	}
}

func bigS(i *big.Int) string {
	if i.Sign() < 0 {
		return "(- " + new(big.Int).Neg(i).String() + ")"
	}
	return i.String()
}

func (e *emitter) ref(t *Term) string {
	if n, ok := e.name[t]; ok {
		return n
	}
	return e.expr(t)
}

func (e *emitter) expr(t *Term) string {
	switch t.Op {
	case "int":
		return bigS(t.I)
	case "bool":
		return t.S
	case "nilI", "errI":
		return t.Op
	case "sentI":
		n := q("sent:" + t.S)
		if !e.sent[n] {
			if e.sent == nil {
				e.sent = map[string]bool{}
			}
			e.sort(t.Sort)
			fmt.Fprintf(&e.out, "(declare-const %s %s)\n(assert (distinct nilI errI %s", n, q(t.Sort.Name), n)
			for _, o := range sortedKeys(e.sent) {
				fmt.Fprintf(&e.out, " %s", o)
			}
			e.out.WriteString("))\n")
			e.sent[n] = true
		}
		return n
	case "iptr":
		return "(- 2000" + t.S + ")"
	case "mapid", "chanid":
		return "(- 1000" + t.S + ")"
	case "var":
		return q(t.S)
	case "str":
		return q("lit:" + litName(t))
	case "f64lit":
		return q("f64:" + t.S)
	case "forall":
		nv := int(t.I.Int64())
		var b strings.Builder
		b.WriteString("(forall (")
		for _, v := range t.Args[1 : 1+nv] {
			fmt.Fprintf(&b, "(%s %s)", q(v.S), sortName(v.Sort))
		}
		b.WriteString(") ")
		pats := t.Args[1+nv:]
		if len(pats) > 0 {
			b.WriteString("(! ")
		}
		b.WriteString(e.ref(t.Args[0]))
		for _, p := range pats {
			if p.Op == "app:multipat" {
				b.WriteString(" :pattern (")
				for _, x := range p.Args {
					b.WriteString(e.ref(x) + " ")
				}
				b.WriteString(")")
			} else {
				b.WriteString(" :pattern (" + e.ref(p) + ")")
			}
		}
		if len(pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return b.String()
	case "gstore":
		a := e.ref(t.Args[0])
		return "(ite " + e.ref(t.Args[3]) + " (store " + a + " " + e.ref(t.Args[1]) + " " + e.ref(t.Args[2]) + ") " + a + ")"
	case "seq.empty":
		return e.seqf("empty", t.Sort)
	case "seq.lit":
		// left-assoc concatenation of units
		r := "(" + e.seqf("unit", t.Sort) + " " + e.ref(t.Args[0]) + ")"
		for _, a := range t.Args[1:] {
			r = "(" + e.seqf("cat", t.Sort) + " " + r + " (" + e.seqf("unit", t.Sort) + " " + e.ref(a) + "))"
		}
		return r
	}
	var op string
	switch t.Op {
	case "mk":
		op = q("mk " + t.Sort.Name)
		if len(t.Args) == 0 {
			return "(" + op + " true)"
		}
	case "fld":
		op = q(t.Args[0].Sort.Name + "." + t.S)
	case "constarr":
		op = "(as const " + sortName(t.Sort) + ")"
	case "seq.len", "seq.at", "seq.sub", "seq.upd":
		op = e.seqf(t.Op[4:], t.Args[0].Sort)
	case "seq.cat", "seq.unit", "seq.zero":
		op = e.seqf(t.Op[4:], t.Sort)
	default:
		op = t.Op
		if strings.HasPrefix(op, "app:") {
			op = q(op[4:])
			if len(t.Args) == 0 {
				return op
			}
		}
	}
	var b strings.Builder
	b.WriteString("(" + op)
	for _, a := range t.Args {
		b.WriteString(" " + e.ref(a))
	}
	b.WriteString(")")
	return b.String()
}

func litName(t *Term) string {
	s := t.S
	s = strings.ReplaceAll(s, "\\", "\\\\ ")
	s = strings.ReplaceAll(s, "|", "!bar!")
	s = strings.ReplaceAll(s, "\n", "!nl!")
	if len(s) > 60 {
		return fmt.Sprintf("%s#%d", s[:40], t.ID)
	}
	return strings.ReplaceAll(s, "\\", "!bs!")
}

// Script renders assumptions ∧ ¬goal.
func (c *Ctx) Script(assumps []*Term, goal *Term, abs map[*Term]bool) string {
	e := &emitter{c: c, abs: abs, sortDone: map[*Sort]bool{}, fnDone: map[string]bool{}, refs: map[*Term]int{}, hasBound: map[*Term]bool{}, name: map[*Term]string{}, ops: map[string]bool{}, seqSorts: map[*Sort]bool{}, bound: map[*Term]bool{}}
	e.sort(c.Str)
	e.sort(c.Iface)
	e.sort(c.F64)
	ng := c.Not(goal)
	all := append(append([]*Term(nil), assumps...), ng)
	for _, t := range all {
		e.visit(t)
	}
	doneAx := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, t := range append([]*Term(nil), e.order...) {
			fn := t.Op
			if strings.HasPrefix(fn, "app:") {
				fn = fn[4:]
			}
			if ax := c.AxT[fn]; len(ax) > 0 && !doneAx[fn] {
				doneAx[fn] = true
				changed = true
				for _, a := range ax {
					all = append(all, a)
					e.visit(a)
				}
			}
		}
	}
	// function-triggered axioms (text): collect transitively is not needed, they only mention declared functions
	e.strAxioms()
	// vars
	for _, t := range e.order {
		if e.abs[t] {
			fmt.Fprintf(&e.out, "(declare-const %s %s)\n", e.name[t], sortName(t.Sort))
			continue
		}
		if t.Op == "var" && !e.bound[t] {
			fmt.Fprintf(&e.out, "(declare-const %s %s)\n", q(t.S), sortName(t.Sort))
		}
		if t.Op == "f64lit" {
			fmt.Fprintf(&e.out, "(declare-const %s %s)\n", q("f64:"+t.S), sortName(t.Sort))
		}
		if t.Op == "str" {
			fmt.Fprintf(&e.out, "(declare-const %s |Str|)\n", q("lit:"+litName(t)))
		}
	}
	declFn := func(n string) {
		if e.fnDone[n] {
			return
		}
		e.fnDone[n] = true
		d := c.funcs[n]
		if d == nil {
			panic("axiom needs undeclared function " + n)
		}
		for _, a := range d.Args {
			e.sort(a)
		}
		e.sort(d.Res)
		fmt.Fprintf(&e.out, "(declare-fun %s (", q(n))
		for _, a := range d.Args {
			e.out.WriteString(" " + sortName(a))
		}
		fmt.Fprintf(&e.out, ") %s)\n", sortName(d.Res))
	}
	for _, t := range e.order {
		if strings.HasPrefix(t.Op, "app:") && t.Op != "app:multipat" {
			declFn(t.Op[4:])
		}
	}
	for s := range e.seqSorts {
		e.seqAxioms(s)
	}
	for name, pr := range c.LitPred {
		if e.ops["app:"+name] {
			for _, l := range e.lits {
				if pr(l.S) {
					fmt.Fprintf(&e.out, "(assert (%s %s))\n", q(name), q("lit:"+litName(l)))
				} else {
					fmt.Fprintf(&e.out, "(assert (not (%s %s)))\n", q(name), q("lit:"+litName(l)))
				}
			}
		}
	}
	for name, f := range c.LitFold {
		if e.ops["app:"+name] {
			for _, l := range e.lits {
				if r := f(c, l.S); r != nil {
					v := ""
					if r.Op == "int" {
						v = bigS(r.I)
					} else {
						v = r.S
					}
					fmt.Fprintf(&e.out, "(assert (= (%s %s) %s))\n", q(name), q("lit:"+litName(l)), v)
				}
			}
		}
	}
	for i, l := range e.lits {
		fmt.Fprintf(&e.out, "(assert (= (strid %s) %d))\n", q("lit:"+litName(l)), i)
		if e.ops["slen"] || e.ops["sat"] || e.ops["ssub"] {
			fmt.Fprintf(&e.out, "(assert (= (slen %s) %d))\n", q("lit:"+litName(l)), len(l.S))
			if len(l.S) <= 8 {
				for k := 0; k < len(l.S); k++ {
					fmt.Fprintf(&e.out, "(assert (= (sat %s %d) %d))\n", q("lit:"+litName(l)), k, l.S[k])
				}
			}
		}
	}
	for _, t := range e.order {
		if e.abs[t] || e.hasBound[t] || len(t.Args) == 0 || e.refs[t] < 2 || t.Op == "forall" || t.Op == "app:multipat" {
			continue
		}
		n := fmt.Sprintf("t!%d", t.ID)
		fmt.Fprintf(&e.out, "(define-fun %s () %s %s)\n", n, sortName(t.Sort), e.expr(t))
		e.name[t] = n
	}
	for _, t := range all {
		fmt.Fprintf(&e.out, "(assert %s)\n", e.ref(t))
	}
	return e.out.String()
}

// ---------------------------------------------------------------- solvers

type Solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	name string
	mu   sync.Mutex
}

func startSolver(kind string, timeoutMs int) (*Solver, error) {
	var cmd *exec.Cmd
	switch kind {
	case "z3-new":
		cmd = exec.Command("z3-new", "-in", "-smt2", "-memory:3000")
	case "z3":
		cmd = exec.Command("z3", "-in", "-smt2", "-memory:3000")
	case "cvc5":
		cmd = exec.Command("cvc5", "--lang=smt2", "--incremental", fmt.Sprintf("--tlimit-per=%d", min(2*timeoutMs, 100000)), "--produce-models")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	s := &Solver{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), name: kind}
	if kind != "cvc5" {
		wall := 8 * timeoutMs
		if wall > 100000 {
			wall = 100000
		}
		// the limit is z3's own count of steps (some 2000 in a millisecond), so that a busy machine gives the same answers, later
		fmt.Fprintf(in, "(set-option :rlimit %d)\n(set-option :timeout %d)\n(set-option :smt.mbqi false)\n(set-option :auto_config false)\n", 2500*timeoutMs, wall)
	} else {
		fmt.Fprintf(in, "(set-logic ALL)\n")
	}
	return s, nil
}

func (s *Solver) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) check(script string, wantModel bool) (string, string, error) {
	done := make(chan struct{})
	timer := time.AfterFunc(120*time.Second, func() { s.cmd.Process.Kill() })
	defer timer.Stop()
	go func() {
		io.WriteString(s.in, "(push 1)\n"+script+"(check-sat)\n(echo \"@@\")\n")
		close(done)
	}()
	res := ""
	var errs []string
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return "error", strings.Join(errs, "\n"), fmt.Errorf("solver died: %v", err)
		}
		line = strings.TrimSpace(line)
		if line == "@@" || line == "\"@@\"" {
			break
		}
		if line == "sat" || line == "unsat" || line == "unknown" || line == "timeout" {
			res = line
		} else if line != "" {
			errs = append(errs, line)
		}
	}
	<-done
	model := ""
	if wantModel && (res == "sat" || res == "unknown") {
		io.WriteString(s.in, "(get-model)\n(echo \"@@\")\n")
		var b strings.Builder
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				break
			}
			if strings.TrimSpace(line) == "@@" || strings.TrimSpace(line) == "\"@@\"" {
				break
			}
			if b.Len() < 20000 {
				b.WriteString(line)
			}
		}
		model = b.String()
	}
	io.WriteString(s.in, "(pop 1)\n")
	if len(errs) > 0 {
		return "error", strings.Join(errs, "\n"), nil
	}
	return res, model, nil
}

// pool of solver processes
type Pool struct {
	mu    sync.Mutex
	idle  map[string][]*Solver
	Stats struct {
		Queries  int64
		Nanos    int64
		ByZ3     int64
		ByCvc5   int64
		ByZ3Old  int64
		Simpl    int64
		Failures int64
	}
}

var thePool = NewPool()

func NewPool() *Pool { return &Pool{idle: map[string][]*Solver{}} }

func (p *Pool) run(kind string, timeoutMs int, script string, wantModel bool) (string, string) {
	key := fmt.Sprintf("%s/%d", kind, timeoutMs)
	p.mu.Lock()
	var s *Solver
	if l := p.idle[key]; len(l) > 0 {
		s = l[len(l)-1]
		p.idle[key] = l[:len(l)-1]
	}
	p.mu.Unlock()
	if s == nil {
		var err error
		s, err = startSolver(kind, timeoutMs)
		if err != nil {
			return "error", err.Error()
		}
	}
	t0 := time.Now()
	r, m, err := s.check(script, wantModel)
	atomic.AddInt64(&p.Stats.Nanos, int64(time.Since(t0)))
	atomic.AddInt64(&p.Stats.Queries, 1)
	if d := os.Getenv("GOVC_QLOG"); d != "" {
		fmt.Fprintf(os.Stderr, "query %s %dms %d bytes\n", r, time.Since(t0).Milliseconds(), len(script))
		os.WriteFile(fmt.Sprintf("%s/q%06d.smt2", d, p.Stats.Queries), []byte(fmt.Sprintf("; %s %d\n", r, time.Since(t0).Milliseconds())+script), 0644)
	}
	if err != nil {
		s.close()
		return "error", err.Error() + m
	}
	p.mu.Lock()
	p.idle[key] = append(p.idle[key], s)
	p.mu.Unlock()
	return r, m
}

func (p *Pool) CloseAll() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, l := range p.idle {
		for _, s := range l {
			s.close()
		}
	}
	p.idle = map[string][]*Solver{}
}

// Script2 adds the machine ranges of integer terms
func (c *Ctx) Script2(ex *Ex, assumps []*Term, goal *Term) string {
	seen := map[*Term]bool{}
	var extra []*Term
	bound := map[*Term]bool{}
	var rec func(t *Term) bool // returns whether it mentions a bound variable
	hb := map[*Term]bool{}
	rec = func(t *Term) bool {
		if seen[t] {
			return hb[t]
		}
		seen[t] = true
		if t.Op == "forall" {
			for _, v := range t.Args[1 : 1+int(t.I.Int64())] {
				bound[v] = true
			}
		}
		b := bound[t]
		for _, a := range t.Args {
			if rec(a) {
				b = true
			}
		}
		if t.Op == "forall" {
			b = false
		}
		hb[t] = b
		if !b && t.Sort == c.Int {
			var lo, hi *big.Int
			if r, ok := ex.ranges[t]; ok {
				lo, hi = r[0], r[1]
			} else if strings.HasPrefix(t.Op, "app:") {
				if r, ok := ex.fnRange[t.Op[4:]]; ok {
					lo, hi = r[0], r[1]
				}
			}
			if lo != nil {
				extra = append(extra, c.Le(c.BigLit(lo), t))
			}
			if hi != nil {
				extra = append(extra, c.Le(t, c.BigLit(hi)))
			}
		}
		return b
	}
	for _, a := range assumps {
		rec(a)
	}
	rec(goal)
	all := append(append([]*Term(nil), assumps...), extra...)
	// a struct variable that is only used through its fields is replaced by one variable per field
	// used (a generalisation of the obligation)
	esc := map[*Term]bool{}
	leaf := map[*Term]*Term{}
	var root func(t *Term) *Term
	root = func(t *Term) *Term {
		if t.Op == "var" {
			return t
		}
		if t.Op == "fld" && t.Args[0].Sort.Kind == KStruct {
			return root(t.Args[0])
		}
		return nil
	}
	done := map[*Term]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		if t.Op == "fld" && t.Sort.Kind != KStruct {
			if r := root(t); r != nil && !bound[r] {
				leaf[t] = r
			}
		}
		for _, a := range t.Args {
			if a.Sort.Kind == KStruct && t.Op != "fld" {
				if r := root(a); r != nil {
					esc[r] = true
				}
			}
			scan(a)
		}
	}
	for _, a := range all {
		scan(a)
	}
	scan(goal)
	abs := map[*Term]bool{}
	for t, r := range leaf {
		if !esc[r] {
			abs[t] = true
		}
	}
	return c.Script(all, goal, abs)
}
