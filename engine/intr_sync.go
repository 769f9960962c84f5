package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func ptr(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		panic(unsupported{"pointer expected"})
	}
	return p
}

// userAbove reports whether the innermost frame outside the listed package is user code.
func userAbove(fr *frame, pkgs ...string) bool {
	for f := fr; f != nil && f.cf != nil && f.cf.fn != nil; f = f.caller {
		p := pkgPath(f.cf.fn)
		in := false
		for _, x := range pkgs {
			if p == x {
				in = true
			}
		}
		if !in {
			return f.cf.user && !f.cf.harness
		}
	}
	return false
}

type atomicState struct{ vc VC }

func (fr *frame) atomicOp(p *Value) *atomicState {
	if p == nil {
		panic(fr.nilDeref())
	}
	s := fr.m.sched
	if s.explore && userAbove(fr, "sync/atomic", "go.uber.org/atomic") {
		s.point(fr.g)
	}
	return sideGet(fr.m, atomicKey{p}, func() *atomicState { return &atomicState{} })
}

type atomicKey struct{ p *Value }

func (fr *frame) acq(a *atomicState) { fr.g.vc.join(a.vc) }
func (fr *frame) rel(a *atomicState) {
	a.vc.join(fr.g.vc)
	fr.g.vc[fr.g.id]++
}

type onceState struct {
	done, running bool
	vc            VC
}

type wgState struct {
	n  int64
	vc VC
}

type condState struct{ q []*condWaiter }

type condWaiter struct {
	woken bool
	vc    VC
}

type smapState struct {
	mp *Map
	vc VC
}

func natClosure(f func(fr *frame, args []Value) Value) *Closure { return &Closure{Nat: f} }

func init() {
	reg("(*sync.Mutex).Lock", func(fr *frame, a []Value) Value {
		if ptr(a[0]) == nil {
			panic(fr.nilDeref())
		}
		fr.m.sched.lock(fr, ptr(a[0]))
		return nil
	})
	reg("(*sync.Mutex).TryLock", func(fr *frame, a []Value) Value { return fr.m.sched.tryLock(fr, ptr(a[0])) })
	reg("(*sync.Mutex).Unlock", func(fr *frame, a []Value) Value { fr.m.sched.unlock(fr, ptr(a[0])); return nil })
	reg("(*sync.RWMutex).Lock", intrinsics["(*sync.Mutex).Lock"])
	reg("(*sync.RWMutex).TryLock", intrinsics["(*sync.Mutex).TryLock"])
	reg("(*sync.RWMutex).Unlock", intrinsics["(*sync.Mutex).Unlock"])
	reg("(*sync.RWMutex).RLock", func(fr *frame, a []Value) Value {
		if ptr(a[0]) == nil {
			panic(fr.nilDeref())
		}
		fr.m.sched.rlock(fr, ptr(a[0]))
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(fr *frame, a []Value) Value { fr.m.sched.runlock(fr, ptr(a[0])); return nil })

	reg("(*sync.Once).Do", func(fr *frame, a []Value) Value {
		s := fr.m.sched
		st := sideGet(fr.m, ptr(a[0]), func() *onceState { return &onceState{} })
		if fr.visible() {
			s.point(fr.g)
		}
		if st.running {
			s.block(fr.g, "Once", func() bool { return st.done })
		}
		if st.done {
			fr.g.vc.join(st.vc)
			return nil
		}
		st.running = true
		defer func() {
			st.done, st.running = true, false
			st.vc = fr.g.vc.clone()
			fr.g.vc[fr.g.id]++
		}()
		fr.callValue(a[1], nil)
		return nil
	})

	reg("(*sync.WaitGroup).Add", func(fr *frame, a []Value) Value {
		st := sideGet(fr.m, ptr(a[0]), func() *wgState { return &wgState{} })
		st.n += fr.m.concretize(a[1])
		if st.n < 0 {
			panic(fr.m.rtPanic("sync: negative WaitGroup counter"))
		}
		st.vc.join(fr.g.vc)
		fr.g.vc[fr.g.id]++
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *frame, a []Value) Value {
		return intrinsics["(*sync.WaitGroup).Add"](fr, []Value{a[0], int64(-1)})
	})
	reg("(*sync.WaitGroup).Wait", func(fr *frame, a []Value) Value {
		st := sideGet(fr.m, ptr(a[0]), func() *wgState { return &wgState{} })
		if fr.visible() {
			fr.m.sched.point(fr.g)
		}
		fr.m.sched.await(fr.g, "WaitGroup", func() bool { return st.n == 0 })
		fr.g.vc.join(st.vc)
		return nil
	})

	// sync.Cond{noCopy, L, notify, checker}
	locker := func(fr *frame, c Value) Iface { return (*ptr(c)).(Struct)[1].(Iface) }
	condOf := func(fr *frame, c Value) *condState {
		if ptr(c) == nil {
			panic(fr.nilDeref())
		}
		return sideGet(fr.m, ptr(c), func() *condState { return &condState{} })
	}
	reg("(*sync.Cond).Wait", func(fr *frame, a []Value) Value {
		st := condOf(fr, a[0])
		w := &condWaiter{}
		st.q = append(st.q, w)
		fr.invoke(locker(fr, a[0]), nil, "Unlock", nil)
		fr.m.sched.await(fr.g, "Cond", func() bool { return w.woken })
		fr.g.vc.join(w.vc)
		fr.invoke(locker(fr, a[0]), nil, "Lock", nil)
		return nil
	})
	wake := func(all bool) intrinsic {
		return func(fr *frame, a []Value) Value {
			st := condOf(fr, a[0])
			for len(st.q) > 0 {
				st.q[0].woken, st.q[0].vc = true, fr.g.vc.clone()
				st.q = st.q[1:]
				if !all {
					break
				}
			}
			fr.g.vc[fr.g.id]++
			return nil
		}
	}
	reg("(*sync.Cond).Signal", wake(false))
	reg("(*sync.Cond).Broadcast", wake(true))

	reg("(*sync.Pool).Get", func(fr *frame, a []Value) Value {
		s := (*ptr(a[0])).(Struct)
		f := s[len(s)-1]
		if c, ok := f.(*Closure); ok && c != nil {
			return fr.callValue(c, nil)
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", func(fr *frame, a []Value) Value { return nil })

	// sync.Map
	smap := func(fr *frame, v Value) *smapState {
		if userAbove(fr) {
			fr.m.sched.point(fr.g)
		}
		st := sideGet(fr.m, ptr(v), func() *smapState { return &smapState{mp: newMap()} })
		fr.g.vc.join(st.vc)
		return st
	}
	smrel := func(fr *frame, st *smapState) {
		st.vc.join(fr.g.vc)
		fr.g.vc[fr.g.id]++
	}
	reg("(*sync.Map).Load", func(fr *frame, a []Value) Value {
		st := smap(fr, a[0])
		if e := st.mp.find(fr, a[1]); e != nil {
			return Tuple{e.v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Store", func(fr *frame, a []Value) Value {
		st := smap(fr, a[0])
		st.mp.set(fr, a[1], a[2])
		smrel(fr, st)
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(fr *frame, a []Value) Value {
		st := smap(fr, a[0])
		if e := st.mp.find(fr, a[1]); e != nil {
			return Tuple{e.v, true}
		}
		st.mp.set(fr, a[1], a[2])
		smrel(fr, st)
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).LoadAndDelete", func(fr *frame, a []Value) Value {
		st := smap(fr, a[0])
		if e := st.mp.find(fr, a[1]); e != nil {
			v := e.v
			st.mp.remove(e)
			smrel(fr, st)
			return Tuple{v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Delete", func(fr *frame, a []Value) Value {
		st := smap(fr, a[0])
		st.mp.del(fr, a[1])
		smrel(fr, st)
		return nil
	})
	reg("(*sync.Map).Range", func(fr *frame, a []Value) Value {
		st := smap(fr, a[0])
		for _, e := range st.mp.live() {
			if e.deleted {
				continue
			}
			if !fr.m.truth(fr.callValue(a[1], []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	})

	// sync/atomic
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		var w uint8 = 64
		signed := strings.HasPrefix(t, "Int")
		if strings.HasSuffix(t, "32") {
			w = 32
		}
		reg("sync/atomic.Load"+t, func(fr *frame, a []Value) Value {
			st := fr.atomicOp(ptr(a[0]))
			fr.acq(st)
			return *ptr(a[0])
		})
		reg("sync/atomic.Store"+t, func(fr *frame, a []Value) Value {
			st := fr.atomicOp(ptr(a[0]))
			fr.acq(st)
			fr.rel(st)
			*ptr(a[0]) = a[1]
			return nil
		})
		reg("sync/atomic.Swap"+t, func(fr *frame, a []Value) Value {
			st := fr.atomicOp(ptr(a[0]))
			fr.acq(st)
			fr.rel(st)
			old := *ptr(a[0])
			*ptr(a[0]) = a[1]
			return old
		})
		reg("sync/atomic.CompareAndSwap"+t, func(fr *frame, a []Value) Value {
			st := fr.atomicOp(ptr(a[0]))
			fr.acq(st)
			if fr.m.truth(eqVal(fr.m, *ptr(a[0]), a[1])) {
				fr.rel(st)
				*ptr(a[0]) = a[2]
				return true
			}
			return false
		})
		if t != "Pointer" {
			reg("sync/atomic.Add"+t, func(fr *frame, a []Value) Value {
				st := fr.atomicOp(ptr(a[0]))
				fr.acq(st)
				fr.rel(st)
				var r Value
				x, ok1 := (*ptr(a[0])).(int64)
				y, ok2 := a[1].(int64)
				if ok1 && ok2 {
					r = norm(x+y, w, signed)
				} else {
					r = fr.m.simpInt(fr.m.b.Bin(OAdd, fr.m.intTerm(*ptr(a[0]), w), fr.m.intTerm(a[1], w)), signed)
				}
				*ptr(a[0]) = r
				return r
			})
		}
	}
	reg("(*sync/atomic.Value).Load", func(fr *frame, a []Value) Value {
		st := fr.atomicOp(ptr(a[0]))
		fr.acq(st)
		return (*ptr(a[0])).(Struct)[0]
	})
	reg("(*sync/atomic.Value).Store", func(fr *frame, a []Value) Value {
		st := fr.atomicOp(ptr(a[0]))
		v := a[1].(Iface)
		if v.T == nil {
			panic(fr.m.rtPanic("sync/atomic: store of nil value into Value"))
		}
		s := (*ptr(a[0])).(Struct)
		if old := s[0].(Iface); old.T != nil && old.T != v.T {
			panic(fr.m.rtPanic("sync/atomic: store of inconsistently typed value into Value"))
		}
		fr.acq(st)
		fr.rel(st)
		s[0] = v
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(fr *frame, a []Value) Value {
		st := fr.atomicOp(ptr(a[0]))
		v := a[1].(Iface)
		if v.T == nil {
			panic(fr.m.rtPanic("sync/atomic: swap of nil value into Value"))
		}
		fr.acq(st)
		fr.rel(st)
		s := (*ptr(a[0])).(Struct)
		old := s[0]
		s[0] = v
		return old
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(fr *frame, a []Value) Value {
		st := fr.atomicOp(ptr(a[0]))
		fr.acq(st)
		s := (*ptr(a[0])).(Struct)
		if !fr.m.truth(eqVal(fr.m, s[0], a[1])) {
			return false
		}
		fr.rel(st)
		s[0] = a[2]
		return true
	})

	// time
	registerTime()
}

// ---- time ----------------------------------------------------------------------

const wallBase = uint64(1)<<63 | uint64(4_000_000_000)<<30

const (
	unixToInternal = int64(1969*365+1969/4-1969/100+1969/400) * 86400
	wallToInternal = int64(1884*365+1884/4-1884/100+1884/400) * 86400
	unixBase       = 4_000_000_000 + wallToInternal - unixToInternal // at the start of a run
)

func floorDiv(a, b int64) int64 {
	if a < 0 {
		return -((-a + b - 1) / b)
	}
	return a / b
}

func (m *M) nowValue() Value {
	var ext Value = 1 + m.sched.now
	if off, ok := m.side["skew"]; ok {
		t := off.(*Term)
		ext = m.simpInt(m.b.Bin(OAdd, t, m.b.BV(64, uint64(1+m.sched.now))), true)
	}
	n := uint64(m.sched.now)
	wb := wallBase + (n/1e9)<<30 + n%1e9
	return Struct{int64(wb), ext, (*Value)(nil)}
}

func (fr *frame) newTimer(d int64, period int64, fn *Closure) *Value {
	m := fr.m
	s := m.sched
	// struct { C <-chan Time; initTimer bool } (Timer and Ticker alike)
	var c *Chan
	if fn == nil {
		c = &Chan{cap: 1, id: m.id()}
	}
	cell := Value(Struct{c, true})
	p := &cell
	t := &Timer{when: s.now + max(d, 0), period: period, ch: c, fn: fn, vc: fr.g.vc.clone()}
	fr.g.vc[fr.g.id]++
	t.fire = func(g *G) {
		if t.fn != nil {
			f := t.fn
			n := s.spawn(nil, "timer", func(g *G) {
				root := &frame{m: m, g: g}
				root.callValue(f, nil)
			})
			n.vc.join(t.vc)
			return
		}
		if len(t.ch.recvq) > 0 || len(t.ch.buf) < t.ch.cap {
			tg := &G{id: g.id, vc: t.vc.clone(), m: m}
			for len(tg.vc) <= tg.id {
				tg.vc = append(tg.vc, 0)
			}
			s.doSend(tg, t.ch, m.nowValue())
		}
	}
	s.addTimer(t)
	m.side[timerKey{p}] = t
	return p
}

type timerKey struct{ p *Value }

func (fr *frame) timerOf(v Value) *Timer {
	t, ok := fr.m.side[timerKey{ptr(v)}].(*Timer)
	if !ok {
		panic(fr.m.rtPanic("time: Stop called on uninitialized Timer"))
	}
	return t
}

func registerTime() {
	reg("time.Now", func(fr *frame, a []Value) Value { return fr.m.nowValue() })
	// A time with a monotonic reading tells the wall clock from it, so that a
	// skewed clock shows in both.
	for name, div := range map[string]int64{"UnixNano": 1, "UnixMicro": 1e3, "UnixMilli": 1e6, "Unix": 1e9} {
		div := div
		reg("(time.Time)."+name, func(fr *frame, a []Value) Value {
			m := fr.m
			t := a[0].(Struct)
			w := uint64(m.concretize(t[0]))
			var ns Value
			if w>>63 != 0 {
				if e, ok := t[1].(*Term); ok {
					ns = m.simpInt(m.b.Bin(OAdd, e, m.b.BV(64, uint64(unixBase*1e9-1))), true)
				} else {
					ns = t[1].(int64) + unixBase*1e9 - 1
				}
			} else {
				ns = (m.concretize(t[1])-unixToInternal)*1e9 + int64(w&(1<<30-1))
			}
			if div == 1 {
				return ns
			}
			if e, ok := ns.(*Term); ok {
				return m.simpInt(m.b.Bin(OSDiv, e, m.b.BV(64, uint64(div))), true)
			}
			return floorDiv(ns.(int64), div)
		})
	}
	reg("time.runtimeNano", func(fr *frame, a []Value) Value {
		return fr.m.nowValue().(Struct)[1]
	})
	reg("time.Since", func(fr *frame, a []Value) Value {
		f := fr.m.findMethod(fr.m.w.eng.typ("time", "Time"), nil, "Sub")
		return fr.m.call(fr.g, fr, f, []Value{fr.m.nowValue(), a[0]}, nil)
	})
	reg("time.Until", func(fr *frame, a []Value) Value {
		f := fr.m.findMethod(fr.m.w.eng.typ("time", "Time"), nil, "Sub")
		return fr.m.call(fr.g, fr, f, []Value{a[0], fr.m.nowValue()}, nil)
	})
	reg("time.Sleep", func(fr *frame, a []Value) Value {
		m := fr.m
		d := m.concretize(a[0])
		if d <= 0 {
			return nil
		}
		done := false
		t := &Timer{when: m.sched.now + d}
		t.fire = func(g *G) { done = true }
		m.sched.addTimer(t)
		m.sched.block(fr.g, "Sleep", func() bool { return done })
		return nil
	})
	reg("time.NewTimer", func(fr *frame, a []Value) Value {
		return fr.newTimer(fr.m.concretize(a[0]), 0, nil)
	})
	reg("time.After", func(fr *frame, a []Value) Value {
		p := fr.newTimer(fr.m.concretize(a[0]), 0, nil)
		return (*p).(Struct)[0]
	})
	reg("time.AfterFunc", func(fr *frame, a []Value) Value {
		return fr.newTimer(fr.m.concretize(a[0]), 0, a[1].(*Closure))
	})
	reg("time.NewTicker", func(fr *frame, a []Value) Value {
		d := fr.m.concretize(a[0])
		if d <= 0 {
			panic(fr.m.rtPanic("non-positive interval for NewTicker"))
		}
		return fr.newTimer(d, d, nil)
	})
	reg("time.Tick", func(fr *frame, a []Value) Value {
		d := fr.m.concretize(a[0])
		p := fr.newTimer(d, d, nil)
		return (*p).(Struct)[0]
	})
	stop := func(fr *frame, a []Value) Value { return fr.m.sched.stopTimer(fr.timerOf(a[0])) }
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", func(fr *frame, a []Value) Value { stop(fr, a); return nil })
	reset := func(fr *frame, a []Value) Value {
		t := fr.timerOf(a[0])
		was := fr.m.sched.stopTimer(t)
		d := fr.m.concretize(a[1])
		t.when = fr.m.sched.now + max(d, 0)
		if t.period > 0 {
			t.period = d
		}
		t.vc = fr.g.vc.clone()
		fr.g.vc[fr.g.id]++
		fr.m.sched.addTimer(t)
		return was
	}
	reg("(*time.Timer).Reset", reset)
	reg("(*time.Ticker).Reset", func(fr *frame, a []Value) Value { reset(fr, a); return nil })
	reg("(time.Time).String", func(fr *frame, a []Value) Value { return "<time>" })
	reg("(time.Time).Format", func(fr *frame, a []Value) Value { return "<time>" })
	reg("(time.Duration).String", func(fr *frame, a []Value) Value {
		if d, ok := a[0].(int64); ok {
			return durString(d)
		}
		return "<duration>"
	})
}

var _ = types.Typ
var _ ssa.Value
