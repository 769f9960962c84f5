package h

import (
	"time"

	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// sweepPeriod is how often idle resources are removed, and how long they may
// be idle.
const sweepPeriod = 30 * time.Second

// idle is what the property says about one name.
type idle struct {
	cached bool
	used   int64 // when it was last looked up or first stored
	val    uint32
}

// idleRun drives lookups, updates and sweeps of one manager.
type idleRun struct {
	m     Mgr
	srv   *Server
	into  time.Duration                 // time slept since the last sweep
	cur   map[xdsType]map[string]uint32 // what the control plane has
	model map[xdsType]map[string]*idle
}

func newIdleRun(needLDS bool, types []xdsType, names []string) *idleRun {
	r := &idleRun{srv: &Server{}, cur: map[xdsType]map[string]uint32{}, model: map[xdsType]map[string]*idle{}}
	r.m = NewMgr(r.srv, false, needLDS)
	for _, t := range types {
		r.cur[t], r.model[t] = map[string]uint32{}, map[string]*idle{}
		for _, n := range names {
			if t != LT || n != inbound {
				subscribe(r.m, t, n)
			}
			r.cur[t][n] = vsym.U32("initial")
			r.model[t][n] = &idle{}
		}
		r.push(t)
	}
	return r
}

// current is the control plane's state of one type.
func (r *idleRun) current(t xdsType) (l []*anypb.Any) {
	for _, n := range r.names(t) {
		l = append(l, Marked(t, n, r.cur[t][n]))
	}
	return
}

// push sends the whole current state of a type; the client keeps what it is
// subscribed to.
func (r *idleRun) push(t xdsType) {
	r.srv.Last().Push(r.srv.Resp(t, r.current(t)...))
	vsym.Settle()
	for n, i := range r.model[t] {
		if !r.interest(t, n) {
			continue
		}
		if !i.cached {
			i.cached, i.used = true, nowNs()
		}
		i.val = r.cur[t][n]
	}
}

func (r *idleRun) names(t xdsType) []string {
	var l []string
	for _, n := range []string{"a", "b", inbound} {
		if _, ok := r.cur[t][n]; ok {
			l = append(l, n)
		}
	}
	return l
}

// interest: what the last request of the type lists.
func (r *idleRun) interest(t xdsType, n string) bool {
	q := r.srv.ReqsSince(0, t)
	return len(q) > 0 && has(q[len(q)-1].Names, n)
}

func (r *idleRun) lookup(t xdsType, n string) {
	i := r.model[t][n]
	before := len(r.srv.Reqs)
	if !i.cached {
		r.srv.OnReq = func(s *Stream, q *Req) {
			if q.URL == urls[t] && has(q.Names, n) {
				r.srv.OnReq = nil
				s.Push(r.srv.Resp(t, r.current(t)...))
			}
		}
	}
	got, err := lookup(r.m, bg, t, n)
	vsym.Settle()
	r.srv.OnReq = nil
	vsym.Assert(err == nil, "a resource the control plane has is served")
	mk, ok := MarkOf(t, got)
	vsym.Assert(ok, "a usable value")
	if i.cached {
		vsym.Assert(mk == i.val, "the cached value is served")
		vsym.Assert(len(r.srv.Reqs) == before, "a cached resource needs no request")
	} else {
		vsym.Assert(mk == r.cur[t][n], "an evicted resource is obtained with its current value")
		qs := r.srv.ReqsSince(before, t)
		vsym.Assert(len(qs) > 0 && has(qs[0].Names, n), "an evicted resource is subscribed again")
		i.cached, i.val = true, r.cur[t][n]
		// the answer tells the current value of the others too
		for _, o := range r.names(t) {
			if r.model[t][o].cached {
				r.model[t][o].val = r.cur[t][o]
			}
		}
	}
	i.used = nowNs()
}

// wait lets time pass within a sweep period.
func (r *idleRun) wait(d time.Duration) {
	time.Sleep(d)
	vsym.Settle()
	r.into += d
}

// sweep lets time pass to just after the next sweep and compares.
func (r *idleRun) sweep() {
	before := len(r.srv.Reqs)
	time.Sleep(sweepPeriod - r.into + time.Millisecond)
	r.into = time.Millisecond
	vsym.Settle()
	now := nowNs() - int64(time.Millisecond)
	for t, l := range r.model {
		qs := r.srv.ReqsSince(before, t)
		gone := false
		for _, n := range r.names(t) {
			i := l[n]
			if !i.cached {
				vsym.Assert(!r.interest(t, n), "a withdrawn resource stays withdrawn")
				continue
			}
			since := now - i.used
			vsym.Assume(since != int64(sweepPeriod))
			if since > int64(sweepPeriod) && !(t == LT && n == inbound) {
				vsym.Assert(len(qs) > 0 && !r.interest(t, n), "an idle resource is withdrawn at the next sweep")
				i.cached = false
				gone = true
			} else {
				vsym.Assert(r.interest(t, n), "a resource in use, or reserved, is withdrawn")
				for _, q := range qs {
					vsym.Assert(has(q.Names, n), "a resource in use, or reserved, is withdrawn")
				}
			}
		}
		if !gone {
			vsym.Assert(len(qs) == 0, "a sweep that removes nothing sends nothing")
		}
	}
	vsym.Cover("sweep")
}

// C19_Timeline: lookups, updates and failures of the stream at arbitrary
// moments between the sweeps.
func C19_Timeline() {
	t := []xdsType{RT, CT, ET, LT}[vsym.Choose("type", vsym.Param("types", 4))]
	sweeps, slots := vsym.Param("sweeps", 3), vsym.Param("slots", 1)
	names := []string{"a", "b"}
	if t == LT || vsym.Choose("reserved-name", 2) == 1 {
		names[1] = inbound // reserved among the listeners only
	}
	lag := make([]int, sweeps*(slots+1))
	for k := range lag {
		lag[k] = vsym.Int("lag", 0, int(20*time.Second))
	}
	r := newIdleRun(t == LT, []xdsType{t}, names)
	for k := 0; k < sweeps; k++ {
		for s := 0; s < slots; s++ {
			r.wait(sweepPeriod / time.Duration(slots+1))
			vsym.Skew(int64(lag[k*(slots+1)+s]))
			switch vsym.Choose("action", vsym.Param("actions", 5)) {
			case 1:
				r.lookup(t, names[0])
			case 2:
				r.lookup(t, names[1])
			case 3:
				r.cur[t]["a"] = vsym.U32("update")
				r.push(t)
			case 4:
				r.srv.Last().Break(errBroken)
				r.wait(time.Second)
			}
		}
		vsym.Skew(int64(lag[k*(slots+1)+slots]))
		r.sweep()
	}
	for _, n := range names {
		r.lookup(t, n)
	}
	vsym.Cover("end")
}

// C19_Types: several types at once; a name idle in one type is withdrawn from
// that type alone.
func C19_Types() {
	types := [][]xdsType{{RT, CT}, {CT, ET}, {RT, ET}, {LT, RT}}[vsym.Choose("types", 4)]
	sweeps := vsym.Param("sweeps", 2)
	lag := make([]int, 2*sweeps)
	for k := range lag {
		lag[k] = vsym.Int("lag", 0, int(20*time.Second))
	}
	second := "b"
	if types[0] == LT {
		second = inbound
	}
	r := newIdleRun(types[0] == LT, types, []string{"a", second})
	for k := 0; k < sweeps; k++ {
		r.wait(sweepPeriod / 2)
		vsym.Skew(int64(lag[2*k]))
		if a := vsym.Choose("action", 6); a < 4 {
			r.lookup(types[a/2], []string{"a", second}[a%2])
		} else if a == 4 {
			r.push(types[1])
		}
		vsym.Skew(int64(lag[2*k+1]))
		r.sweep()
	}
	for _, t := range types {
		r.lookup(t, "a")
		r.lookup(t, second)
	}
	vsym.Cover("end")
}

// C19_Race: a sweep that finds the resource idle meets lookups and updates in
// every order. Whatever is then served follows the control plane from there.
func C19_Race() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	t := []xdsType{CT, RT, ET, LT}[vsym.Choose("type", vsym.Param("types", 3))]
	v := []uint32{vsym.U32("v0"), vsym.U32("v1"), vsym.U32("v2")}
	subscribe(m, t, "a")
	cur := 0
	push := func() { srv.Last().Push(srv.Resp(t, Marked(t, "a", v[cur]))) }
	push()
	vsym.Settle()
	// whoever subscribes anew is answered with the current value
	listed, nonce := true, ""
	srv.OnReq = func(s *Stream, q *Req) {
		if q.URL != urls[t] {
			return
		}
		was := listed
		listed = has(q.Names, "a")
		if listed && !was || listed && q.Nonce == nonce {
			push()
		}
		nonce = q.Nonce
	}
	if r := srv.ReqsSince(0, t); len(r) > 0 {
		nonce = r[len(r)-1].Nonce
	}
	idleFor := vsym.Choose("idle", 2) == 1
	if idleFor {
		vsym.Skew(int64(time.Second))
	}
	looks := vsym.Choose("lookups", 3)
	upd := vsym.Choose("update", 2) == 1
	vsym.Race()
	done := 0
	for i := 0; i < looks; i++ {
		go func() {
			time.Sleep(sweepPeriod)
			got, err := lookup(m, bg, t, "a")
			vsym.Assert(err == nil, "an evicted resource is obtained again")
			mk, ok := MarkOf(t, got)
			vsym.Assert(ok && vsym.Or(mk == v[0], mk == v[1]), "a value that was never current")
			done++
		}()
	}
	if upd {
		go func() {
			time.Sleep(sweepPeriod)
			cur = 1
			if listed {
				push()
			}
			done++
		}()
	} else {
		done++
	}
	time.Sleep(sweepPeriod - ms(100))
	vsym.Delay(vsym.Param("delays", 3), 0)
	time.Sleep(3 * time.Second)
	vsym.Stop()
	vsym.Settle()
	vsym.Assert(done == looks+1, "every operation completes")
	if !idleFor || looks > 0 {
		// the sweep comes before a lookup, which then subscribes anew, or
		// after it, and finds the resource in use
		vsym.Assert(listed, "a resource in use is withdrawn")
	}
	// the control plane moves on
	cur = 2
	if listed {
		push()
		vsym.Settle()
	}
	got, err := lookup(m, bg, t, "a")
	vsym.Assert(err == nil, "the resource is served in the end")
	mk, ok := MarkOf(t, got)
	vsym.Assert(ok && mk == v[2], "the value served in the end is not the control plane's current one")
	vsym.Settle()
	vsym.Assert(listed, "a resource that is served is subscribed")
	vsym.Cover("end")
}
