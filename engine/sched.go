package main

import (
	"fmt"
	"runtime/debug"
	"sort"
	"sync"
)

type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v VC) clone() VC { return append(VC(nil), v...) }

type gState int

const (
	gRun gState = iota
	gBlocked
	gSettle
	gDone
)

// G is an interpreted goroutine, run on a host goroutine which holds the token.
type G struct {
	id      int
	m       *M
	name    string
	wake    chan struct{}
	state   gState
	ready   func() bool
	why     string
	vc      VC
	depth   int
	top     *frame
	daemon  bool
	isTimer bool
	born    string // the go statement
}

// Dev is a departure from the round-robin schedule: a goroutine held back at
// a place, for the given time (0: until nothing else can run).
type Dev struct {
	At  string `json:"at"`
	For int64  `json:"for,omitempty"`
}

// place is where the goroutine is in the code under test.
func (g *G) place(prefix string) string {
	for f := g.top; f != nil; f = f.caller {
		if f.visible() {
			return prefix + f.pos()
		}
	}
	if g.top == nil && g.born != "" {
		return "start " + g.born
	}
	return ""
}

func (s *Sched) dev(at string, d int64) {
	if at != "" {
		s.devs = append(s.devs, Dev{at, d})
	}
}

// SchedE is one scheduling decision, for replay.
type SchedE struct {
	G int   `json:"g"`           // chosen goroutine, -1 = fire earliest timer
	T int64 `json:"t,omitempty"` // clock after a timer fired
}

type Timer struct {
	when   int64
	seq    int
	fire   func(g *G) // runs with the token
	active bool
	period int64
	vc     VC
	ch     *Chan
	fn     *Closure
}

type Sched struct {
	m      *M
	gs     []*G
	cur    *G
	endCh  chan struct{}
	ended  bool
	ending bool
	wg     sync.WaitGroup
	log    []SchedE
	devs   []Dev

	now     int64 // virtual nanoseconds
	timers  []*Timer
	tseq    int
	explore bool
	delay   bool // preempt counts delays from round robin order
	preempt int  // remaining preemptions
	anytime int  // remaining early timer firings
	race    bool
	shadow  map[*Value]*shadow
	mshadow map[*Map]*shadow
	points  int
	mainAt  int64 // when main last ran
}

// hangLimit: main blocked this long (virtual time) counts as a hang.
const hangLimit = 600_000_000_000

func newSched(m *M) *Sched {
	return &Sched{m: m, endCh: make(chan struct{}), shadow: map[*Value]*shadow{}, mshadow: map[*Map]*shadow{}}
}

func (s *Sched) newG(name string) *G {
	g := &G{id: len(s.gs), m: s.m, name: name, wake: make(chan struct{}, 1)}
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id] = 1
	s.gs = append(s.gs, g)
	return g
}

func (s *Sched) spawn(g *G, name string, f func(*G)) *G {
	n := s.newG(name)
	if g != nil {
		n.vc.join(g.vc)
		g.vc[g.id]++
	}
	s.wg.Add(1)
	go s.host(n, f)
	return n
}

func (s *Sched) runMain(f func(*G)) {
	g := s.spawn(nil, "main", f)
	s.cur = g
	g.wake <- struct{}{}
	<-s.endCh
	s.ending = true
	for _, x := range s.gs {
		if x.state != gDone {
			close(x.wake)
		}
	}
	s.wg.Wait()
}

func (s *Sched) end() {
	if !s.ended {
		s.ended = true
		close(s.endCh)
	}
}

func (s *Sched) host(g *G, f func(*G)) {
	defer s.wg.Done()
	<-g.wake
	if s.ending {
		return
	}
	defer func() {
		r := recover()
		if s.ending {
			return
		}
		g.state = gDone
		if r == nil {
			if g.id == 0 {
				s.end()
				return
			}
			func() {
				defer func() {
					if r := recover(); r != nil && !s.ending {
						s.abort(g, r)
					}
				}()
				s.switchAway(g)
			}()
			return
		}
		s.abort(g, r)
	}()
	f(g)
}

func (s *Sched) abort(g *G, r interface{}) {
	m := s.m
	switch r := r.(type) {
	case killPath:
		m.status = r.why
	case targetPanic:
		func() {
			defer func() {
				if x := recover(); x != nil {
					m.status = fmt.Sprint("unsupported: in panic report: ", x)
				}
			}()
			msg := "panic: " + m.panicText(g, r.v)
			m.violate("panic", msg+" in "+g.stack(), "", m.model)
			m.status = "violation"
		}()
	case unsupported:
		m.status = "unsupported: " + r.msg + " @ " + g.stack()
	default:
		m.status = fmt.Sprintf("unsupported: engine: %v @ %s", r, g.stack())
		if m.w.eng.debug {
			fmt.Printf("ENGINE PANIC %v\n%s\n", r, debug.Stack())
		}
	}
	s.end()
}

func (g *G) stack() string {
	s := ""
	n := 0
	for f := g.top; f != nil && n < 12; f = f.caller {
		s += f.cf.fn.String() + ":" + f.pos() + " < "
		n++
	}
	return s
}

func (s *Sched) enabled(g *G) bool {
	switch g.state {
	case gRun:
		return true
	case gBlocked:
		return g.ready()
	}
	return false
}

func (s *Sched) enabledSet(except *G) []*G {
	var r []*G
	for _, g := range s.gs {
		if g != except && s.enabled(g) {
			r = append(r, g)
		}
	}
	return r
}

func (s *Sched) nextTimer() *Timer {
	var best *Timer
	for _, t := range s.timers {
		if t.active && (best == nil || t.when < best.when || t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	return best
}

func (s *Sched) fireTimer(t *Timer, g *G) {
	if t.when > s.now {
		s.now = t.when
	}
	if t.period > 0 {
		t.when += t.period
	} else {
		t.active = false
		for i, x := range s.timers {
			if x == t {
				s.timers = append(append([]*Timer{}, s.timers[:i]...), s.timers[i+1:]...)
				break
			}
		}
	}
	t.fire(g)
}

func (s *Sched) addTimer(t *Timer) {
	s.tseq++
	t.seq = s.tseq
	t.active = true
	s.timers = append(s.timers, t)
}

func (s *Sched) stopTimer(t *Timer) bool {
	was := t.active
	t.active = false
	for i, x := range s.timers {
		if x == t {
			s.timers = append(append([]*Timer{}, s.timers[:i]...), s.timers[i+1:]...)
			break
		}
	}
	return was
}

// pick chooses the next goroutine when cur cannot continue.
func (s *Sched) pick(g *G) *G {
	for {
		en := s.enabledSet(nil)
		if len(en) == 0 {
			for _, x := range s.gs {
				if x.state == gSettle {
					s.log = append(s.log, SchedE{G: x.id})
					return x
				}
			}
			t := s.nextTimer()
			if t == nil {
				return nil
			}
			if main := s.gs[0]; main.state == gBlocked && main.why != "Sleep" && t.when > s.mainAt+hangLimit {
				return nil
			}
			// under exploration, timers that are due together wake together
			for {
				s.fireTimer(t, g)
				s.log = append(s.log, SchedE{G: -1, T: s.now})
				if t = s.nextTimer(); !s.explore || t == nil || t.when > s.now {
					break
				}
			}
			continue
		}
		k := 0
		if s.explore {
			if s.delay {
				sort.Slice(en, func(i, j int) bool { return rrKey(en[i], g, len(s.gs)) < rrKey(en[j], g, len(s.gs)) })
				if len(en) > 1+s.preempt {
					en = en[:1+s.preempt]
				}
			}
			n := len(en)
			if s.canFire() {
				n++
			}
			k = s.m.choose("sched", n)
			if s.delay && k < len(en) {
				s.preempt -= k
			}
			for i := 0; i < k && i < len(en); i++ {
				d := int64(0)
				if k == len(en) {
					d = s.nextTimer().when - s.now
				}
				s.dev(en[i].place("after "), d)
			}
			if k == len(en) {
				s.anytime--
				s.fireTimer(s.nextTimer(), g)
				s.log = append(s.log, SchedE{G: -1, T: s.now})
				continue
			}
		} else {
			// round robin after g
			sort.Slice(en, func(i, j int) bool { return rrKey(en[i], g, len(s.gs)) < rrKey(en[j], g, len(s.gs)) })
		}
		s.log = append(s.log, SchedE{G: en[k].id})
		return en[k]
	}
}

func rrKey(x, g *G, n int) int {
	k := x.id - g.id
	if k <= 0 {
		k += n
	}
	return k
}

func (s *Sched) canFire() bool {
	return s.anytime > 0 && s.nextTimer() != nil
}

// switchAway hands the token to another goroutine; g is blocked, settling or done.
func (s *Sched) switchAway(g *G) {
	next := s.pick(g)
	if next == nil {
		// nothing can run any more
		msg := "all goroutines are blocked:"
		for _, x := range s.gs {
			if x.state == gBlocked {
				msg += fmt.Sprintf(" [%s: %s at %s]", x.name, x.why, x.stack())
			}
		}
		s.m.violate("hang", msg, "", s.m.model)
		panic(killPath{"violation"})
	}
	s.transfer(g, next)
}

func (s *Sched) transfer(g, next *G) {
	next.state = gRun
	next.ready = nil
	if next.id == 0 {
		s.mainAt = s.now
	}
	s.cur = next
	if next == g {
		return
	}
	next.wake <- struct{}{}
	if g.state == gDone {
		return
	}
	<-g.wake
	if s.ending {
		panic(killPath{"end"})
	}
}

// block suspends g until ready() holds and it is scheduled.
func (s *Sched) block(g *G, why string, ready func() bool) {
	g.state = gBlocked
	g.why = why
	g.ready = ready
	s.switchAway(g)
}

// await blocks g until ready() holds; if it already holds it continues at once.
func (s *Sched) await(g *G, why string, ready func() bool) {
	if ready() {
		return
	}
	s.block(g, why, ready)
}

// settle waits until no other goroutine can run without time advancing.
func (s *Sched) settle(g *G) {
	g.state = gSettle
	s.switchAway(g)
}

// point is a potential preemption before a visible operation.
func (s *Sched) point(g *G) {
	if !s.explore {
		return
	}
	s.points++
	fire := s.canFire()
	var others []*G
	if s.preempt > 0 {
		others = s.enabledSet(g)
		if s.delay {
			sort.Slice(others, func(i, j int) bool { return rrKey(others[i], g, len(s.gs)) < rrKey(others[j], g, len(s.gs)) })
			if len(others) > s.preempt {
				others = others[:s.preempt]
			}
		}
	}
	n := 1 + len(others)
	if fire {
		n++
	}
	if n == 1 {
		return
	}
	k := s.m.choose("pre", n)
	if k == 0 {
		s.log = append(s.log, SchedE{G: g.id})
		return
	}
	if k == 1+len(others) {
		s.anytime--
		s.dev(g.place(""), s.nextTimer().when-s.now)
		s.fireTimer(s.nextTimer(), g)
		s.log = append(s.log, SchedE{G: -1, T: s.now})
		s.point(g)
		return
	}
	if s.delay {
		s.preempt -= k
	} else {
		s.preempt--
	}
	next := others[k-1]
	s.dev(g.place(""), 0)
	for i := 0; i < k-1; i++ {
		s.dev(others[i].place("after "), 0)
	}
	s.log = append(s.log, SchedE{G: next.id})
	s.transfer(g, next)
}

// ---- race detection ------------------------------------------------------

type shadow struct {
	w    epoch
	rd   map[int]epoch
	what string
}

type epoch struct {
	g  int
	c  uint32
	at string
	ok bool
}

func (s *Sched) access(fr *frame, sh *shadow, write bool, what string) {
	g := fr.g
	at := ""
	me := epoch{g.id, g.vc.get(g.id), "", true}
	if sh.w.ok && sh.w.g != g.id && sh.w.c > g.vc.get(sh.w.g) {
		s.reportRace(fr, sh.w, write, true, what)
	}
	if write {
		for _, e := range sh.rd {
			if e.g != g.id && e.c > g.vc.get(e.g) {
				s.reportRace(fr, e, true, false, what)
			}
		}
		at = fr.loc()
		me.at = at
		sh.w = me
		sh.rd = nil
		return
	}
	if sh.rd == nil {
		sh.rd = map[int]epoch{}
	}
	if e, ok := sh.rd[g.id]; !ok || e.c != me.c {
		me.at = fr.loc()
		sh.rd[g.id] = me
	}
}

func (s *Sched) reportRace(fr *frame, prev epoch, write, prevWrite bool, what string) {
	kind := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	s.m.violate("race", fmt.Sprintf("data race on %s: %s at %s, previous %s at %s", what, kind(write), fr.loc(), kind(prevWrite), prev.at), "", s.m.model)
	s.m.viols[len(s.m.viols)-1].Race = true
	panic(killPath{"violation"})
}

func (s *Sched) raceCell(fr *frame, p *Value, write bool) {
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			s.raceCell(fr, &v[i], write)
		}
		return
	case Array:
		for i := range v {
			s.raceCell(fr, &v[i], write)
		}
		return
	}
	sh := s.shadow[p]
	if sh == nil {
		sh = &shadow{}
		s.shadow[p] = sh
	}
	s.access(fr, sh, write, "memory")
}

func (s *Sched) raceMap(fr *frame, mp *Map, write bool) {
	if mp == nil {
		return
	}
	sh := s.mshadow[mp]
	if sh == nil {
		sh = &shadow{}
		s.mshadow[mp] = sh
	}
	s.access(fr, sh, write, "map")
}

func (s *Sched) raceOn(fr *frame) bool {
	return s.race && s.m.initing == 0 && len(s.gs) > 1 && fr.cf != nil && !fr.cf.harness
}

// raceMapOn: the harness's own maps need no locks, but what it is handed by
// the code under test is checked in the harness too (an update handler reads
// the map it is given).
func (s *Sched) raceMapOn(fr *frame, mp *Map) bool {
	return s.race && s.m.initing == 0 && len(s.gs) > 1 && fr.cf != nil && (!fr.cf.harness || (mp != nil && mp.lib))
}

// ---- synchronisation objects --------------------------------------------------

type mutexState struct {
	locked  bool
	owner   int
	readers int
	waitW   int
	vc      VC // released by writers (and for Mutex)
	rvc     VC // released by readers
}

func sideGet[T any](m *M, key interface{}, mk func() *T) *T {
	if v, ok := m.side[key]; ok {
		return v.(*T)
	}
	t := mk()
	m.side[key] = t
	return t
}

func (m *M) mutex(p *Value) *mutexState {
	return sideGet(m, p, func() *mutexState { return &mutexState{} })
}

func (s *Sched) lock(fr *frame, p *Value) {
	g := fr.g
	mu := s.m.mutex(p)
	if fr.visible() {
		s.point(g)
	}
	if mu.locked || mu.readers > 0 {
		mu.waitW++
		s.block(g, "Lock", func() bool { return !mu.locked && mu.readers == 0 })
		mu.waitW--
	}
	mu.locked = true
	mu.owner = g.id
	g.vc.join(mu.vc)
	g.vc.join(mu.rvc)
}

func (s *Sched) tryLock(fr *frame, p *Value) bool {
	mu := s.m.mutex(p)
	if fr.visible() {
		s.point(fr.g)
	}
	if mu.locked || mu.readers > 0 {
		return false
	}
	mu.locked = true
	fr.g.vc.join(mu.vc)
	fr.g.vc.join(mu.rvc)
	return true
}

func (s *Sched) unlock(fr *frame, p *Value) {
	mu := s.m.mutex(p)
	if !mu.locked {
		s.m.violate("panic", "fatal error: unlock of unlocked mutex at "+fr.g.stack(), "", s.m.model)
		panic(killPath{"violation"})
	}
	mu.locked = false
	mu.vc = fr.g.vc.clone()
	fr.g.vc[fr.g.id]++
	s.afterRelease(fr)
}

// afterRelease is a preemption point only in modes that ask for it.
func (s *Sched) afterRelease(fr *frame) {}

func (s *Sched) rlock(fr *frame, p *Value) {
	g := fr.g
	mu := s.m.mutex(p)
	if fr.visible() {
		s.point(g)
	}
	if mu.locked || mu.waitW > 0 {
		s.block(g, "RLock", func() bool { return !mu.locked && (mu.waitW == 0 || mu.readers == 0 && !s.otherWriterCanRun(p)) })
	}
	mu.readers++
	g.vc.join(mu.vc)
}

// otherWriterCanRun keeps writer preference from being a spurious deadlock.
func (s *Sched) otherWriterCanRun(p *Value) bool { return true }

func (s *Sched) runlock(fr *frame, p *Value) {
	mu := s.m.mutex(p)
	if mu.readers <= 0 {
		s.m.violate("panic", "fatal error: RUnlock of unlocked RWMutex at "+fr.g.stack(), "", s.m.model)
		panic(killPath{"violation"})
	}
	mu.readers--
	mu.rvc.join(fr.g.vc)
	fr.g.vc[fr.g.id]++
}

// ---- channels ---------------------------------------------------------------------

type Chan struct {
	cap    int
	buf    []chanElem
	closed bool
	cvc    VC
	rvc    []VC // receives, for the k-th receive happens before k+C-th send
	recvq  []*waiter
	sendq  []*waiter
	id     int
}

type chanElem struct {
	v  Value
	vc VC
}

type waiter struct {
	g     *G
	done  bool
	idx   int
	val   Value
	ok    bool
	vc    VC
	cases []selCase
}

type selCase struct {
	ch   *Chan
	send bool
	v    Value
}

func (w *waiter) dequeue() {
	for _, c := range w.cases {
		if c.ch == nil {
			continue
		}
		q := &c.ch.recvq
		if c.send {
			q = &c.ch.sendq
		}
		for i, x := range *q {
			if x == w {
				*q = append(append([]*waiter{}, (*q)[:i]...), (*q)[i+1:]...)
				break
			}
		}
	}
}

func (w *waiter) caseFor(ch *Chan, send bool) int {
	for i, c := range w.cases {
		if c.ch == ch && c.send == send {
			return i
		}
	}
	panic("caseFor")
}

func (c *Chan) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }
func (c *Chan) canSend() bool { return c.closed || len(c.buf) < c.cap || len(c.recvq) > 0 }

func (s *Sched) doRecv(g *G, c *Chan) (Value, bool) {
	if len(c.buf) > 0 {
		e := c.buf[0]
		c.buf = c.buf[1:]
		g.vc.join(e.vc)
		if len(c.sendq) > 0 {
			w := c.sendq[0]
			i := w.caseFor(c, true)
			w.dequeue()
			c.buf = append(c.buf, chanElem{w.cases[i].v, w.vc})
			w.done, w.idx = true, i
			w.g.vc.join(g.vc)
		}
		g.vc[g.id]++
		return e.v, true
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		i := w.caseFor(c, true)
		w.dequeue()
		w.done, w.idx = true, i
		g.vc.join(w.vc)
		w.g.vc.join(g.vc)
		g.vc[g.id]++
		return w.cases[i].v, true
	}
	g.vc.join(c.cvc)
	return nil, false
}

func (s *Sched) doSend(g *G, c *Chan, v Value) {
	if c.closed {
		panic(s.m.rtPanic("send on closed channel"))
	}
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		i := w.caseFor(c, false)
		w.dequeue()
		w.done, w.idx, w.val, w.ok = true, i, v, true
		w.g.vc.join(g.vc)
		g.vc[g.id]++
		return
	}
	c.buf = append(c.buf, chanElem{v, g.vc.clone()})
	g.vc[g.id]++
}

func (s *Sched) closeChan(g *G, c *Chan) {
	if c == nil {
		panic(s.m.rtPanic("close of nil channel"))
	}
	if c.closed {
		panic(s.m.rtPanic("close of closed channel"))
	}
	c.closed = true
	c.cvc = g.vc.clone()
	g.vc[g.id]++
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		i := w.caseFor(c, false)
		w.dequeue()
		w.done, w.idx, w.val, w.ok = true, i, nil, false
		w.g.vc.join(c.cvc)
	}
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		w.dequeue()
		w.done, w.idx = true, -1
	}
}

// selectOp performs a select; returns chosen index (-1 default), value, ok.
func (s *Sched) selectOp(fr *frame, cases []selCase, hasDefault bool, vis bool) (int, Value, bool) {
	g := fr.g
	if vis {
		s.point(g)
	}
	var ready []int
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		if c.send && c.ch.canSend() || !c.send && c.ch.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if s.explore && len(ready) > 1 {
			k = s.m.choose("select", len(ready))
			s.log = append(s.log, SchedE{G: -2 - ready[k]})
		}
		c := cases[ready[k]]
		if c.send {
			s.doSend(g, c.ch, c.v)
			return ready[k], nil, false
		}
		v, ok := s.doRecv(g, c.ch)
		return ready[k], v, ok
	}
	if hasDefault {
		return -1, nil, false
	}
	w := &waiter{g: g, cases: cases, vc: g.vc.clone()}
	g.vc[g.id]++
	for _, c := range cases {
		if c.ch == nil {
			continue
		}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	why := "select"
	if len(cases) == 1 {
		why = "recv"
		if cases[0].send {
			why = "send"
		}
	}
	s.block(g, why, func() bool { return w.done })
	if w.idx < 0 {
		panic(s.m.rtPanic("send on closed channel"))
	}
	return w.idx, w.val, w.ok
}
