package h

import (
	"context"
	"time"

	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/limiter"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/utils"
	"github.com/cloudwego/kitex/server"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// clock is the position in the run: every event recorded by the harness gets
// the next one.
type clock struct{ n int }

func (c *clock) tick() int { c.n++; return c.n }

// reg is the history of one name: writes in order, each with the moments at
// which it began and had certainly taken effect.
type reg struct {
	val       []uint32
	gone      []bool
	began     []int
	effective []int
	reads     []read
}

type read struct {
	start, end int
	idx        int // index of the write it returned, -1 = error
}

// write appends a write that begins now.
func (r *reg) write(c *clock, v uint32, gone bool) int {
	r.val, r.gone = append(r.val, v), append(r.gone, gone)
	r.began, r.effective = append(r.began, c.tick()), append(r.effective, 0)
	return len(r.val) - 1
}

// index finds the write that wrote v (values are distinct).
func (r *reg) index(v uint32) int {
	for i, w := range r.val {
		if !r.gone[i] && w == v {
			return i
		}
	}
	return -1
}

// check: a register written by one thread is linearizable iff every read
// returns a write that had begun and was not certainly overwritten, and reads
// that do not overlap are ordered.
func (r *reg) check() {
	for i, a := range r.reads {
		if a.idx < 0 {
			continue
		}
		vsym.Assert(r.began[a.idx] < a.end, "a value is returned before it is supplied")
		if a.idx+1 < len(r.val) && r.effective[a.idx+1] != 0 {
			vsym.Assert(r.effective[a.idx+1] > a.start, "a value is returned that was not current")
		}
		for _, b := range r.reads[i+1:] {
			if b.idx < 0 {
				continue
			}
			if a.end < b.start {
				vsym.Assert(a.idx <= b.idx, "a stale value is returned after a newer one was seen")
			}
			if b.end < a.start {
				vsym.Assert(b.idx <= a.idx, "a stale value is returned after a newer one was seen")
			}
		}
	}
}

// C07_Lin: lookups, updates, handler registrations, dumps and a reconnect in
// any order; the race detector is on.
func C07_Lin() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	rt := []xdsresource.ResourceType{CT, RT, LT, ET}[vsym.Choose("type", vsym.Param("types", 2))]
	subscribe(m, rt, "a")
	c := &clock{}
	a := &reg{}
	vs := []uint32{vsym.U32("v0"), vsym.U32("v1"), vsym.U32("v2")}
	vsym.Assume(vs[0] != vs[1] && vs[0] != vs[2] && vs[1] != vs[2])
	names := []string{"a", vsym.Str("name", 1, 1, "ab")}
	op := vsym.Choose("op", 4)
	remove := vsym.Choose("remove", 2) == 1 && (rt == CT || rt == LT)
	// deliver v0 first
	type handler struct {
		registered int
		seen       map[uint32]bool
	}
	var hs []*handler
	register := func() *handler {
		h := &handler{seen: map[uint32]bool{}}
		m.RegisterXDSUpdateHandler(rt, func(up map[string]xdsresource.Resource) {
			var got []uint32
			for _, r := range up {
				if v, ok := MarkOf(rt, r); ok {
					got = append(got, v)
				}
			}
			if h.registered > 0 {
				time.Sleep(time.Millisecond) // a handler that takes its time
			}
			for _, v := range got {
				h.seen[v] = true
			}
		})
		h.registered = c.tick()
		hs = append(hs, h)
		return h
	}
	a.write(c, vs[0], false)
	srv.Last().Push(srv.Resp(rt, Marked(rt, "a", vs[0])))
	vsym.Settle()
	a.effective[0] = c.tick()
	if vsym.Choose("handler", 2) == 1 {
		h := register()
		vsym.Assert(h.seen[vs[0]], "a handler registered late is given the current resources")
	}
	base := len(srv.Last().Done)
	first := srv.Last()
	var order []int // write index carried by the n-th message
	srv.OnDone = func(s *Stream, n int) {
		if s == first && n-base-1 < len(order) {
			if i := order[n-base-1]; i >= 0 {
				a.effective[i] = c.tick()
			}
		}
	}
	vsym.Race()
	vsym.Delay(vsym.Param("delays", 3), 0)
	done := 0
	for i := 0; i < vsym.Param("readers", 2); i++ {
		n := names[i%2]
		go func() {
			for k := 0; k < 2; k++ {
				s := c.tick()
				got, err := lookup(m, bg, rt, n)
				e := c.tick()
				if n != "a" {
					vsym.Assert(err != nil, "a resource nobody supplied is an error")
					break
				}
				if err != nil {
					vsym.Assert(remove, "a cached resource is served")
					continue
				}
				v, ok := MarkOf(rt, got)
				vsym.Assert(ok, "a usable value")
				idx := a.index(v)
				vsym.Assert(idx >= 0, "a value that was never current")
				a.reads = append(a.reads, read{s, e, idx})
				for _, h := range hs {
					if h.registered < a.began[idx] {
						vsym.Assert(h.seen[v], "a resource is exposed before the update handlers completed")
					}
				}
			}
			done++
		}()
	}
	switch op {
	case 1:
		go func() {
			s := c.tick()
			h := register()
			// what was in force when the registration began
			for i := range a.val {
				if a.effective[i] != 0 && a.effective[i] < s && !a.gone[i] && (i+1 == len(a.val) || a.began[i+1] > h.registered) {
					vsym.Assert(h.seen[a.val[i]], "a handler registered late is given the current resources")
				}
			}
			done++
		}()
	case 2:
		go func() { m.Dump(); done++ }()
	default:
		done++
	}
	if remove {
		order = append(order, a.write(c, 0, true))
		first.Push(srv.Resp(rt))
	}
	order = append(order, a.write(c, vs[1], false))
	first.Push(srv.Resp(rt, Marked(rt, "a", vs[1])))
	if op == 3 {
		first.Break(errBroken)
		time.Sleep(ms(5))
	}
	second := srv.Last()
	order2 := a.write(c, vs[2], false)
	if second == first {
		order = append(order, order2)
	}
	second.Push(srv.Resp(rt, Marked(rt, "a", vs[2])))
	time.Sleep(4 * time.Second)
	vsym.Stop()
	vsym.Settle()
	vsym.Assert(done == 1+vsym.Param("readers", 2), "every operation completes")
	s := c.tick()
	got, err := lookup(m, bg, rt, "a")
	vsym.Assert(err == nil, "the resource is served in the end")
	v, ok := MarkOf(rt, got)
	vsym.Assert(ok && v == vs[2], "the last value is served in the end")
	a.reads = append(a.reads, read{s, c.tick(), order2})
	a.check()
	vsym.Cover("end")
}

// C07_Evict: sweeps that find the resource idle race with lookups and
// updates.
func C07_Evict() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	rt := []xdsresource.ResourceType{CT, RT, LT, ET}[vsym.Choose("type", vsym.Param("types", 2))]
	subscribe(m, rt, "a")
	v0, v1 := vsym.U32("v0"), vsym.U32("v1")
	cur := v0
	srv.Last().Push(srv.Resp(rt, Marked(rt, "a", v0)))
	vsym.Settle()
	// the control plane answers whoever asks anew
	first := len(srv.Reqs)
	srv.OnReq = func(s *Stream, r *Req) {
		if r.URL == urls[rt] && has(r.Names, "a") && len(srv.Reqs) > first && r.Ver != "" {
			// an ACK names the last nonce; only new subscriptions are answered
			if !answeredAck(r, srv) {
				s.Push(srv.Resp(rt, Marked(rt, "a", cur)))
			}
		}
	}
	vsym.Skew(int64(29 * time.Second))
	upd := vsym.Choose("update", 2) == 1
	dump := vsym.Choose("dump", 2) == 1
	vsym.Race()
	done := 0
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			time.Sleep(30 * time.Second)
			if i == 0 || !dump {
				got, err := lookup(m, bg, rt, "a")
				vsym.Assert(err == nil, "an evicted resource is obtained again")
				mk, ok := MarkOf(rt, got)
				vsym.Assert(ok && vsym.Or(mk == v0, mk == v1), "a value that was never current")
			} else {
				m.Dump()
			}
			done++
		}()
	}
	go func() {
		time.Sleep(30 * time.Second)
		if upd {
			cur = v1
			srv.Last().Push(srv.Resp(rt, Marked(rt, "a", v1)))
		}
		done++
	}()
	time.Sleep(ms(29900))
	vsym.Delay(vsym.Param("delays", 3), 0)
	time.Sleep(3 * time.Second)
	vsym.Stop()
	vsym.Settle()
	vsym.Assert(done == 3, "every operation completes")
	got, err := lookup(m, bg, rt, "a")
	vsym.Assert(err == nil, "the resource is served in the end")
	mk, ok := MarkOf(rt, got)
	vsym.Assert(ok && mk == cur, "the last value is served in the end")
	vsym.Cover("end")
}

// answeredAck: r acknowledges (repeats nothing new): its names were already
// in the previous request of the type and its nonce is new.
func answeredAck(r *Req, srv *Server) bool {
	var prev *Req
	for _, q := range srv.Reqs {
		if q != r && q.URL == r.URL && q.Stream == r.Stream {
			prev = q
		}
	}
	return prev != nil && prev.Nonce != r.Nonce && has(prev.Names, "a")
}

// qpsRec and connRec stand for the running server's limiters; Kitex's own
// updater feeds them.
type qpsRec struct{ calls []int }

func (r *qpsRec) Acquire(ctx context.Context) bool { return true }
func (r *qpsRec) Status(ctx context.Context) (int, int, time.Duration) {
	return 0, 0, 0
}
func (r *qpsRec) UpdateLimit(n int) { r.calls = append(r.calls, n) }

type connRec struct{ calls []int }

func (r *connRec) Acquire(ctx context.Context) bool      { return true }
func (r *connRec) Release(ctx context.Context)           {}
func (r *connRec) Status(ctx context.Context) (int, int) { return 0, 0 }
func (r *connRec) UpdateLimit(n int)                     { r.calls = append(r.calls, n) }

// C07_Suite: the suite's handlers work on updates while the server starts,
// clients are created and dumps are taken.
func C07_Suite() {
	srv := &Server{}
	m := NewMgr(srv, false, vsym.Choose("need-lds", 2) == 1)
	xdssuite.SetXDSResourceManager(m)
	subscribe(m, RT, "r")
	subscribe(m, CT, "c")
	if vsym.Choose("early", 2) == 1 {
		subscribe(m, LT, inbound)
	}
	tok := vsym.U32("tokens")
	vsym.Assume(tok > 0 && tok < 1<<31)
	var so server.Options
	var co client.Options
	var rc *retry.Container
	xdssuite.NewLimiter(xdssuite.WithServicePort(8080)).F(&so, &utils.Slice{})
	rec, conn := &qpsRec{}, &connRec{}
	pushes := func() {
		s := srv.Last()
		s.Push(srv.Resp(LT, inboundListener(8080, tok)))
		s.Push(srv.Resp(RT, retryTable("r", "c", 3)))
		s.Push(srv.Resp(CT, Marked(CT, "c", 7)))
	}
	subscribe(m, LT, inbound)
	op := vsym.Choose("op", 3)
	vsym.Race()
	vsym.Delay(vsym.Param("delays", 3), 0)
	done := 0
	go func() {
		// the server starts
		so.Limit.Limits.UpdateControl(limiter.NewLimiterWrapper(conn, rec))
		done++
	}()
	go func() {
		switch op {
		case 0:
			xdssuite.NewRetryPolicy().F(&co, &utils.Slice{})
			rc = co.RetryContainer
		case 1:
			xdssuite.NewCircuitBreaker(xdssuite.WithServiceCircuitBreak(true)).F(&co, &utils.Slice{})
		case 2:
			m.Dump()
		}
		done++
	}()
	pushes()
	time.Sleep(3 * time.Second)
	vsym.Stop()
	vsym.Settle()
	_ = rc
	vsym.Assert(done == 2, "every operation completes")
	vsym.Assert(len(rec.calls) > 0, "the running server's limiter is told")
	vsym.Assert(rec.calls[len(rec.calls)-1] == int(tok), "the running server's limiter has the latest limit")
	vsym.Cover("end")
}

var _ = anypb.Any{}

// C07_Two: two resources of a type change in one response; what several
// lookups of either observe is explained by one moment for the whole response.
func C07_Two() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	rt := []xdsresource.ResourceType{CT, RT, LT, ET}[vsym.Choose("type", vsym.Param("types", 4))]
	full := rt == CT || rt == LT
	vs := []uint32{vsym.U32("v0"), vsym.U32("v1")}
	vsym.Assume(vs[0] != vs[1])
	subscribe(m, rt, "a")
	subscribe(m, rt, "b")
	srv.Last().Push(srv.Resp(rt, Marked(rt, "a", vs[0]), Marked(rt, "b", vs[0])))
	vsym.Settle()
	// the response changes a, and changes or drops b
	drop := full && vsym.Choose("drop", 2) == 1
	handler := vsym.Choose("handler", 2) == 1
	hseen := 0 // the last update the handler has completed
	if handler {
		m.RegisterXDSUpdateHandler(rt, func(up map[string]xdsresource.Resource) {
			n := 0
			for _, r := range up {
				if v, ok := MarkOf(rt, r); ok && v == vs[1] {
					n = 1
				}
			}
			time.Sleep(time.Millisecond)
			hseen = n
		})
	}
	c := &clock{}
	type obs struct{ start, end, at int }
	var seen []obs
	began, effective := 0, 0
	base := len(srv.Last().Done)
	srv.OnDone = func(s *Stream, n int) {
		if n == base+1 {
			effective = c.tick()
		}
	}
	plan := [][]string{{"a", "b"}, {"b", "a"}, {"a", "b", "a"}, {"b", "a", "b"}}
	vsym.Race()
	vsym.Delay(vsym.Param("delays", 2), 0)
	done := 0
	readers := vsym.Param("readers", 1)
	for i := 0; i < readers; i++ {
		l := plan[vsym.Choose("plan", len(plan))]
		go func() {
			for _, n := range l {
				s := c.tick()
				got, err := lookup(m, bg, rt, n)
				e := c.tick()
				at := 0
				if err != nil {
					vsym.Assert(drop && n == "b", "a cached resource is served")
					at = 1
				} else {
					v, ok := MarkOf(rt, got)
					vsym.Assert(ok && vsym.Or(v == vs[0], v == vs[1]), "a value that was never current")
					if v == vs[1] {
						at = 1
						vsym.Assert(!(drop && n == "b"), "a value that was never current")
						vsym.Assert(!handler || hseen == 1, "a resource is exposed before the update handlers completed")
					}
				}
				vsym.Assert(at == 0 || began != 0 && began < e, "a value is returned before it is supplied")
				vsym.Assert(at == 1 || effective == 0 || s < effective, "a value is returned that was not current")
				for _, o := range seen {
					vsym.Assert(!(o.end < s && o.at > at), "a stale value is returned after a newer one was seen")
				}
				seen = append(seen, obs{s, e, at})
			}
			done++
		}()
	}
	began = c.tick()
	if drop {
		srv.Last().Push(srv.Resp(rt, Marked(rt, "a", vs[1])))
	} else {
		srv.Last().Push(srv.Resp(rt, Marked(rt, "a", vs[1]), Marked(rt, "b", vs[1])))
	}
	time.Sleep(5 * time.Second)
	vsym.Stop()
	vsym.Settle()
	vsym.Assert(done == readers, "every operation completes")
	vsym.Cover("end")
}
