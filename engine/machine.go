package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- signals used to unwind the host stack --------------------------------

type unsupported struct{ msg string }

type killPath struct{ why string } // path ended early (assumption, bound, violation)

type targetPanic struct{ v Value } // a Go panic of the program under test

func (t targetPanic) String() string { return fmt.Sprint(t.v) }

// ---- inputs ------------------------------------------------------------------

type Input struct {
	Kind string `json:"k"`
	Name string `json:"n,omitempty"`
	V    uint64 `json:"v"`
	S    string `json:"s,omitempty"`
	t    *Term
	str  *SymStr
}

type Violation struct {
	Label    string   `json:"label"`
	Msg      string   `json:"msg"`
	Inputs   []Input  `json:"inputs"`
	Sched    []SchedE `json:"sched"`
	Devs     []Dev    `json:"devs,omitempty"`
	Notes    []string `json:"notes"`
	Decs     []int32  `json:"decisions"`
	Where    string   `json:"where"`
	Race     bool     `json:"race,omitempty"`
	Harness  string   `json:"harness"`
	Mode     string   `json:"mode"`
	PreBound int      `json:"preempt"`
}

// ---- M: one path execution ------------------------------------------------------

type M struct {
	w       *Worker
	ex      *Explorer
	b       *TermBank
	sol     *Solver
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool

	prefix []int32
	pos    int
	dec    []int32
	pc     []*Term
	model  Model
	facts  map[*Term]bool
	vars   []*Term
	nvar   int
	inputs []Input
	obs    []obsE

	steps      int
	maxSteps   int
	covers     map[string]bool
	viols      []*Violation
	asserts    int
	status     string // "", "ok", "assume", "unsupported: ...", ...
	lastSite   string
	side       map[interface{}]interface{} // engine-side state keyed by pointer
	sched      *Sched
	nextID     int
	env        map[string]Value
	hooks      map[string]Value
	initing    int
	initTarget *ssa.Function
	mapOrder   bool
	loopBound  map[*ssa.BasicBlock]int
	funcs      map[*ssa.Function]bool
	forks      int
}

func (m *M) id() int { m.nextID++; return m.nextID }

func (m *M) rtPanic(msg string) targetPanic {
	return targetPanic{m.mkError(msg)}
}

// mkError builds an *errors.errorString.
func (m *M) mkError(msg string) Iface {
	var cell Value = Struct{msg}
	return Iface{T: m.w.eng.errStringPtr, V: &cell}
}

func (m *M) addPC(t *Term) {
	if t == m.b.True || m.facts[t] {
		return
	}
	m.pc = append(m.pc, t)
	m.addFact(t)
}

func (m *M) addFact(t *Term) {
	if v, ok := m.facts[t]; ok && v {
		return
	}
	m.facts[t] = true
	m.facts[m.b.Not(t)] = false
	if t.op == OAnd {
		m.addFact(t.a[0])
		m.addFact(t.a[1])
	}
	if t.op == ONot && t.a[0].op == OOr {
		m.addFact(m.b.Not(t.a[0].a[0]))
		m.addFact(m.b.Not(t.a[0].a[1]))
	}
}

func (m *M) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return m.branch(v)
	}
	panic(unsupported{fmt.Sprintf("truth of %T", v)})
}

func (m *M) record(d int32) { m.dec = append(m.dec, d) }

// branch decides a symbolic condition, forking if both sides are feasible.
func (m *M) branch(t *Term) bool {
	if t.IsConst() {
		return t.c != 0
	}
	if v, ok := m.facts[t]; ok {
		return v
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.record(d)
		side := d&1 == 1
		lit := t
		if !side {
			lit = m.b.Not(t)
		}
		if d < 2 {
			m.addPC(lit)
		} else {
			m.addFact(lit)
		}
		return side
	}
	side := m.b.Eval(t, m.model) != 0
	lit, other := t, m.b.Not(t)
	sd, od := int32(1), int32(0)
	if !side {
		lit, other = other, lit
		sd, od = 0, 1
	}
	res, mod := m.sol.Check(m.pc, other, m.vars)
	switch res {
	case RUnsat:
		m.record(sd + 2)
		m.addFact(lit)
		return side
	case RUnknown:
		m.ex.noteUnknown("branch")
		m.record(sd)
		m.addPC(lit)
		return side
	}
	m.forks++
	m.ex.push(m, od, mod)
	m.record(sd)
	m.addPC(lit)
	return side
}

// choose picks one of n alternatives as a fresh solver variable.
func (m *M) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	m.nvar++
	v := m.b.VarRange(fmt.Sprintf("c%d_%s", m.nvar, name), 8, 0, uint64(n-1))
	m.vars = append(m.vars, v)
	var k int
	if m.pos < len(m.prefix) {
		k = int(m.prefix[m.pos])
		m.pos++
	} else {
		// the variable is fresh and otherwise unconstrained: every value in
		// range is feasible
		start := 0
		if m.ex.shuffle {
			start = m.w.rng.Intn(n)
		}
		k = start
		for i := n - 1; i >= 1; i-- {
			alt := (start + i) % n
			mod := make(Model, len(m.model)+1)
			for kk, vv := range m.model {
				mod[kk] = vv
			}
			mod[v.name] = uint64(alt)
			m.forks++
			m.ex.push(m, int32(alt), mod)
		}
	}
	m.model[v.name] = uint64(k)
	m.record(int32(k))
	m.pc = append(m.pc, m.b.Eq(v, m.b.BV(8, uint64(k))))
	return k
}

func (m *M) assume(v Value) {
	switch v := v.(type) {
	case bool:
		if !v {
			panic(killPath{"assume"})
		}
	case *Term:
		if f, ok := m.facts[v]; ok {
			if !f {
				panic(killPath{"assume"})
			}
			return
		}
		if m.pos < len(m.prefix) || m.b.Eval(v, m.model) != 0 {
			m.addPC(v)
			return
		}
		res, mod := m.sol.Check(m.pc, v, m.vars)
		switch res {
		case RSat:
			m.setModel(mod)
			m.addPC(v)
		case RUnsat:
			panic(killPath{"assume"})
		default:
			m.ex.noteUnknown("assume")
			panic(killPath{"unknown"})
		}
	}
}

func (m *M) setModel(mod Model) {
	m.model = mod
	m.b.NewEval()
}

// assert checks that v holds for every value on this path.
func (m *M) assert(v Value, label, msg string, where string) {
	m.asserts++
	switch v := v.(type) {
	case bool:
		if !v {
			m.violate(label, msg, where, m.model)
			panic(killPath{"violation"})
		}
	case *Term:
		if f, ok := m.facts[v]; ok && f {
			return
		}
		if m.pos < len(m.prefix) {
			// already decided by the path this one forked from
			m.addPC(v)
			return
		}
		res, mod := m.sol.Check(m.pc, m.b.Not(v), m.vars)
		atomic.AddInt64(&m.ex.stat.assertQ, 1)
		switch res {
		case RUnsat:
			m.addFact(v)
			return
		case RUnknown:
			m.ex.noteUnknown("assert " + label)
			return
		}
		m.violate(label, msg, where, mod)
		// go on with the values that satisfy it
		m.assume(v)
	}
}

func (m *M) violate(label, msg, where string, mod Model) {
	v := &Violation{Label: label, Msg: msg, Where: where, Harness: m.ex.h.Name}
	v.Inputs = m.concreteInputs(mod)
	if m.sched != nil {
		v.Sched = append([]SchedE(nil), m.sched.log...)
		v.Devs = append([]Dev(nil), m.sched.devs...)
	}
	v.Notes = m.renderObs(mod)
	v.Decs = append([]int32(nil), m.dec...)
	v.Mode = m.ex.h.Mode
	m.viols = append(m.viols, v)
	m.ex.violation(v)
}

func (m *M) concreteInputs(mod Model) []Input {
	m.b.NewEval()
	defer m.b.NewEval()
	r := make([]Input, len(m.inputs))
	for i, in := range m.inputs {
		c := Input{Kind: in.Kind, Name: in.Name, V: in.V, S: in.S}
		if in.t != nil {
			c.V = m.b.Eval(in.t, mod)
		}
		if in.str != nil {
			c.S = m.evalStr(in.str, mod)
		}
		r[i] = c
	}
	return r
}

func (m *M) evalStr(s *SymStr, mod Model) string {
	n := int(m.b.Eval(s.N, mod))
	var b strings.Builder
	for i := 0; i < n && i < len(s.B); i++ {
		b.WriteByte(byte(m.b.Eval(s.B[i], mod)))
	}
	return b.String()
}

// concretize forks until the term has one value on this path.
func (m *M) concretize(v Value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *Term:
		if v.IsConst() {
			return int64(v.c)
		}
		for i := 0; i < 300; i++ {
			var k uint64
			if m.pos < len(m.prefix) {
				// follow the recorded values: they are stored with the decision
				k = uint64(uint32(m.prefix[m.pos])) // low half
				m.pos++
				m.record(int32(k))
				hi := uint64(uint32(m.prefix[m.pos]))
				m.pos++
				m.record(int32(hi))
				k |= hi << 32
			} else {
				k = m.b.Eval(v, m.model)
				m.record(int32(uint32(k)))
				m.record(int32(uint32(k >> 32)))
			}
			if m.branch(m.b.Eq(v, m.b.BV(v.sort.W, k))) {
				return int64(k)
			}
		}
		panic(killPath{"bound: concretisation of a wide value"})
	}
	panic(unsupported{fmt.Sprintf("concretize %T", v)})
}

// newVar makes an input variable.
func (m *M) newVar(kind, name string, s Sort) *Term {
	m.nvar++
	t := m.b.Var(fmt.Sprintf("v%d_%s", m.nvar, name), s)
	m.vars = append(m.vars, t)
	m.inputs = append(m.inputs, Input{Kind: kind, Name: name, t: t})
	return t
}

func (m *M) newRange(kind, name string, w uint8, lo, hi uint64) *Term {
	m.nvar++
	t := m.b.VarRange(fmt.Sprintf("v%d_%s", m.nvar, name), w, lo, hi)
	m.vars = append(m.vars, t)
	if _, ok := m.model[t.name]; !ok {
		m.model[t.name] = lo
	}
	m.inputs = append(m.inputs, Input{Kind: kind, Name: name, t: t})
	b := m.b
	// the raw comparison (simplification by interval would drop it)
	if lo > 0 {
		m.pc = append(m.pc, b.Not(b.mk(OUlt, Sort{SBool, 0}, t, b.BV(w, lo), nil, 0, "")))
	}
	if hi < mask(w) {
		m.pc = append(m.pc, b.Not(b.mk(OUlt, Sort{SBool, 0}, b.BV(w, hi), t, nil, 0, "")))
	}
	return t
}

// newStr makes a symbolic string of length lo..hi over printable ASCII
// restricted to the given alphabet class.
func (m *M) newStr(name string, lo, hi int, class string) Value {
	if hi == 0 {
		m.inputs = append(m.inputs, Input{Kind: "str", Name: name})
		return ""
	}
	b := m.b
	m.nvar++
	base := fmt.Sprintf("v%d_%s", m.nvar, name)
	var n *Term
	if lo == hi {
		n = b.BV(64, uint64(lo))
	} else {
		n = b.VarRange(base+".len", 8, uint64(lo), uint64(hi))
		m.vars = append(m.vars, n)
		m.pc = append(m.pc, b.Not(b.mk(OUlt, Sort{SBool, 0}, b.BV(8, uint64(hi)), n, nil, 0, "")))
		if lo > 0 {
			m.pc = append(m.pc, b.Not(b.mk(OUlt, Sort{SBool, 0}, n, b.BV(8, uint64(lo)), nil, 0, "")))
		}
		if _, ok := m.model[n.name]; !ok {
			m.model[n.name] = uint64(lo)
		}
		n = b.Resize(n, 64, false)
	}
	s := &SymStr{N: n}
	var deflt byte = 'a'
	if class != "" {
		deflt = class[0]
	}
	for i := 0; i < hi; i++ {
		c := b.Var(fmt.Sprintf("%s.%d", base, i), Sort{SBV, 8})
		m.vars = append(m.vars, c)
		var ok *Term
		if class == "" {
			ok = b.And(b.Cmp(OUle, b.BV(8, 0x20), c), b.Cmp(OUle, c, b.BV(8, 0x7e)))
		} else {
			ok = classTerm(b, c, class)
		}
		if i >= lo {
			in := b.Cmp(OUlt, b.BV(64, uint64(i)), n)
			ok = b.Ite(in, ok, b.Eq(c, b.BV(8, 0)))
		}
		if _, has := m.model[c.name]; !has {
			if uint64(i) < m.b.Eval(n, m.model) {
				m.model[c.name] = uint64(deflt)
			} else {
				m.model[c.name] = 0
			}
		}
		m.pc = append(m.pc, ok)
		s.B = append(s.B, c)
	}
	m.inputs = append(m.inputs, Input{Kind: "str", Name: name, str: s})
	return s
}

// classTerm: c is one of the characters of class ("a-z" ranges allowed).
func classTerm(b *TermBank, c *Term, class string) *Term {
	r := b.False
	for i := 0; i < len(class); i++ {
		if i+2 < len(class) && class[i+1] == '-' {
			r = b.Or(r, b.And(b.Cmp(OUle, b.BV(8, uint64(class[i])), c), b.Cmp(OUle, c, b.BV(8, uint64(class[i+2])))))
			i += 2
			continue
		}
		r = b.Or(r, b.Eq(c, b.BV(8, uint64(class[i]))))
	}
	return r
}

// ---- exploration -------------------------------------------------------------------

type Harness struct {
	Name string
	Fn   *ssa.Function
	Mode string
	// budget
	Time  time.Duration
	Tier  string
	Param map[string]int
}

type pending struct {
	prefix []int32
	model  Model
}

type stats struct {
	paths, okPaths, assumed, unsupportedN, bounded int64
	assertQ, asserts                               int64
	forks                                          int64
	steps                                          int64
	maxDec                                         int64
}

type Explorer struct {
	eng      *Engine
	h        *Harness
	mu       sync.Mutex
	cond     *sync.Cond
	work     []pending
	busy     int
	stop     bool
	deadline time.Time
	shuffle  bool

	stat     stats
	covers   map[string]int
	viols    []*Violation
	vLabels  map[string]int
	unsup    map[string]int
	unkn     map[string]int
	boundMsg map[string]int
	funcs    map[string]bool
	queries  int
	sat, uns int
	unknown  int
	solTime  time.Duration
	solErrs  []string
	samples  []Sample
	timedOut bool
	wall     time.Duration
	maxViol  int
	logs     []SMTLog
}

type SMTLog struct{}

// Sample is a satisfied path, kept for native validation and the evidence.
type Sample struct {
	Inputs []Input  `json:"inputs"`
	Sched  []SchedE `json:"sched,omitempty"`
	Devs   []Dev    `json:"devs,omitempty"`
	Notes  []string `json:"notes"`
	Status string   `json:"status"`
}

func (ex *Explorer) push(m *M, d int32, mod Model) {
	p := make([]int32, len(m.dec)+1)
	copy(p, m.dec)
	p[len(m.dec)] = d
	ex.mu.Lock()
	ex.work = append(ex.work, pending{p, mod})
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) noteUnknown(what string) {
	ex.mu.Lock()
	ex.unkn[what]++
	ex.mu.Unlock()
}

func (ex *Explorer) violation(v *Violation) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.vLabels[v.Label]++
	if ex.vLabels[v.Label] <= 3 {
		ex.viols = append(ex.viols, v)
	}
	n := 0
	for _, c := range ex.vLabels {
		n += c
	}
	if n >= ex.maxViol {
		ex.stop = true
		ex.cond.Broadcast()
	}
}

type Worker struct {
	eng *Engine
	id  int
	b   *TermBank
	sol *Solver
	rng *rand.Rand
}

func (ex *Explorer) Run(nworkers int) {
	t0 := time.Now()
	ex.cond = sync.NewCond(&ex.mu)
	ex.work = []pending{{nil, Model{}}}
	var wg sync.WaitGroup
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &Worker{eng: ex.eng, id: i, rng: rand.New(rand.NewSource(ex.eng.seed*1000 + int64(i)))}
			w.b = NewTermBank()
			sol, err := NewSolver(w.b, ex.eng.solverBin[0], ex.eng.solverBin[1:]...)
			if err != nil {
				ex.mu.Lock()
				ex.solErrs = append(ex.solErrs, err.Error())
				ex.stop = true
				ex.mu.Unlock()
				return
			}
			w.sol = sol
			ex.workerLoop(w)
			ex.mu.Lock()
			s := w.sol
			ex.queries += s.Queries
			ex.sat += s.Sat
			ex.uns += s.Unsat
			ex.unknown += s.Unknown
			ex.solTime += s.Time
			ex.solErrs = append(ex.solErrs, s.errs...)
			ex.mu.Unlock()
			s.Close()
		}(i)
	}
	done := make(chan struct{})
	go func() {
		// wake the workers when the deadline passes
		t := time.NewTimer(time.Until(ex.deadline))
		defer t.Stop()
		select {
		case <-t.C:
			ex.mu.Lock()
			if !ex.stop && (len(ex.work) > 0 || ex.busy > 0) {
				ex.timedOut = true
			}
			ex.stop = true
			ex.mu.Unlock()
			ex.cond.Broadcast()
		case <-done:
		}
	}()
	wg.Wait()
	close(done)
	ex.wall = time.Since(t0)
}

func (ex *Explorer) workerLoop(w *Worker) {
	for {
		ex.mu.Lock()
		for len(ex.work) == 0 && ex.busy > 0 && !ex.stop {
			ex.cond.Wait()
		}
		if ex.stop || len(ex.work) == 0 {
			ex.mu.Unlock()
			ex.cond.Broadcast()
			return
		}
		n := len(ex.work) - 1
		i := n
		if ex.shuffle && w.id%2 == 1 {
			i = w.rng.Intn(n + 1)
		}
		p := ex.work[i]
		ex.work[i] = ex.work[n]
		ex.work = ex.work[:n]
		ex.busy++
		ex.mu.Unlock()

		m := ex.runPath(w, p)
		ex.mu.Lock()
		ex.busy--
		ex.account(m)
		ex.mu.Unlock()
		ex.cond.Broadcast()
	}
}

func (ex *Explorer) account(m *M) {
	s := &ex.stat
	s.paths++
	s.asserts += int64(m.asserts)
	s.forks += int64(m.forks)
	s.steps += int64(m.steps)
	s.maxDec = max(s.maxDec, int64(len(m.dec)))
	switch {
	case m.status == "ok":
		s.okPaths++
	case m.status == "assume":
		s.assumed++
	case strings.HasPrefix(m.status, "unsupported"):
		s.unsupportedN++
		ex.unsup[m.status]++
	case strings.HasPrefix(m.status, "violation"):
	default:
		s.bounded++
		ex.boundMsg[m.status]++
	}
	for c := range m.covers {
		ex.covers[c]++
	}
	for f := range m.funcs {
		ex.funcs[f.String()] = true
	}
	if m.status == "ok" || m.status == "violation" {
		smp := Sample{Status: m.status}
		if len(ex.samples) < 40 || m.w.rng.Intn(int(s.paths)) < 40 {
			smp.Inputs = m.concreteInputs(m.model)
			smp.Notes = m.renderObs(m.model)
			if m.sched != nil {
				smp.Sched = m.sched.log
				smp.Devs = m.sched.devs
			}
			if len(ex.samples) < 40 {
				ex.samples = append(ex.samples, smp)
			} else {
				ex.samples[m.w.rng.Intn(40)] = smp
			}
		}
	}
}

// runPath executes the harness once along the given decision prefix.
func (ex *Explorer) runPath(w *Worker, p pending) (m *M) {
	if len(w.b.terms) > 300000 {
		w.b = NewTermBank()
		w.sol.bank = w.b
		w.sol.restart()
	}
	m = &M{
		w: w, ex: ex, b: w.b, sol: w.sol,
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		prefix: p.prefix, model: Model{}, facts: map[*Term]bool{},
		covers: map[string]bool{}, side: map[interface{}]interface{}{},
		maxSteps: 30_000_000, env: map[string]Value{}, hooks: map[string]Value{},
		funcs: map[*ssa.Function]bool{},
	}
	for k, v := range p.model {
		m.model[k] = v
	}
	m.b.NewEval()
	w.sol.NewPath()
	m.sched = newSched(m)
	m.sched.runMain(func(g *G) {
		m.call(g, nil, ex.h.Fn, nil, nil)
	})
	if m.status == "" {
		m.status = "ok"
	}
	return m
}

func sortedCount(m map[string]int) []string {
	var r []string
	for k, v := range m {
		r = append(r, fmt.Sprintf("%s (%d)", k, v))
	}
	sort.Strings(r)
	return r
}
