package h

import (
	"context"
	"time"

	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// waiter is one concurrent lookup and what is known about it.
type waiter struct {
	name      string
	kind      int // 0 fetch timeout, 1 shorter deadline, 2 cancelled by the caller
	start     time.Time
	limit     time.Duration
	cancelled int // position of the cancellation in the run, 0 = not (yet)
	ended     time.Time
	endedAt   int
	done      bool
	res       interface{}
	err       error
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// C06_Waiters: lookups of the same or of different names, each with its own
// way of giving up, while the control plane answers at some point.
func C06_Waiters() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	W := vsym.Param("waiters", 2)
	rt := []xdsresource.ResourceType{CT, RT, LT, ET}[vsym.Choose("type", vsym.Param("types", 1))]
	// pushed: the name is subscribed already and the control plane pushes it
	// of its own accord; otherwise it answers the first request for it
	pushed := vsym.Choose("pushed", 2) == 1
	if pushed {
		subscribe(m, rt, "a")
	}
	v := vsym.U32("v")
	ws := make([]*waiter, W)
	starts := make([]time.Duration, W)
	for i := range ws {
		w := &waiter{name: "a", limit: time.Second}
		if i > 0 {
			w.name = vsym.Str("name", 1, 1, "ab")
		}
		w.kind = vsym.Choose("kind", 3)
		if w.kind == 1 {
			w.limit = ms(100)
		}
		ws[i] = w
		if i > 0 && vsym.Choose("late", 2) == 1 {
			starts[i] = ms(600)
		}
	}
	at := []time.Duration{0, ms(50), ms(700), ms(1300)}[vsym.Choose("answer-at", vsym.Param("times", 4))]
	tick := 0
	// position and time at which the response with the name had been processed
	accepted := map[string]int{}
	acceptedT := map[string]time.Time{}
	content := map[int][]string{} // what the n-th response supplies
	base := len(srv.Last().Done)
	sent := base
	srv.OnDone = func(s *Stream, n int) {
		tick++
		for _, x := range content[n] {
			if accepted[x] == 0 {
				accepted[x], acceptedT[x] = tick, time.Now()
			}
		}
	}
	extra := vsym.Choose("extra", 2) == 1
	// the other name is never supplied, or on its own: at once or 60 ms after
	// it is asked for (before or after "a", as it may be)
	alsoB := vsym.Choose("also-b", vsym.Param("other", 3))
	supplied := []string{}
	supply := func(n string) {
		l := []string{n}
		if rt == LT || rt == CT { // these always list everything
			l = append(supplied, n)
			supplied = l
		}
		var r []*anypb.Any
		for _, x := range l {
			r = append(r, Marked(rt, x, v))
		}
		if extra {
			r = append(r, Marked(rt, "zz", v))
		}
		sent++
		content[sent] = l
		srv.Last().Push(srv.Resp(rt, r...))
	}
	asked := map[string]bool{}
	srv.OnReq = func(s *Stream, r *Req) {
		if r.URL != urls[rt] {
			return
		}
		for _, n := range []string{"a", "b"} {
			if asked[n] || !has(r.Names, n) || n == "a" && pushed || n == "b" && alsoB == 0 {
				continue
			}
			asked[n] = true
			n, d := n, at
			if n == "b" {
				d = ms(60 * (alsoB - 1))
			}
			if d == 0 {
				supply(n)
			} else {
				go func() {
					time.Sleep(d)
					supply(n)
				}()
			}
		}
	}
	vsym.Delay(vsym.Param("delays", 3), 0)
	for i, w := range ws {
		i, w := i, w
		ctx := bg
		var cancel context.CancelFunc
		if w.kind == 2 {
			ctx, cancel = context.WithCancel(bg)
			go func() {
				time.Sleep(at)
				tick++
				w.cancelled = tick
				cancel()
			}()
		}
		go func() {
			if starts[i] > 0 {
				time.Sleep(starts[i])
			}
			if w.kind == 1 {
				c, cancel := context.WithTimeout(bg, ms(100))
				defer cancel()
				ctx = c
			}
			w.start = time.Now()
			w.res, w.err = lookup(m, ctx, rt, w.name)
			tick++
			w.ended, w.endedAt, w.done = time.Now(), tick, true
		}()
	}
	if pushed {
		time.Sleep(at)
		supply("a")
	}
	time.Sleep(4 * time.Second)
	vsym.Stop()
	vsym.Settle()
	for _, w := range ws {
		vsym.Assert(w.done, "lookups return")
		deadline := w.start.Add(w.limit)
		acc := accepted[w.name]
		if acc == 0 {
			vsym.Assert(w.err != nil, "a resource nobody supplied is an error")
			vsym.Assert(!w.ended.After(deadline), "lookup returns by its deadline")
			if w.kind != 2 {
				vsym.Assert(!w.ended.Before(deadline), "another caller's cancellation or timeout ends only its own lookup")
			}
			continue
		}
		if w.err == nil {
			mk, ok := MarkOf(rt, w.res)
			vsym.Assert(ok && mk == v, "the lookup returns what was supplied")
		}
		before := acceptedT[w.name].Before(deadline) && (w.cancelled == 0 || acc < w.cancelled)
		if before {
			vsym.Cover("supplied-in-time")
			vsym.Assert(w.err == nil, "a resource accepted before the deadline is returned")
			late := acceptedT[w.name]
			if w.start.After(late) {
				late = w.start
			}
			vsym.Assert(!w.ended.After(late), "a lookup does not wait after its resource was accepted")
		} else if w.err != nil && w.cancelled == 0 {
			vsym.Assert(!w.ended.Before(deadline), "another caller's cancellation or timeout ends only its own lookup")
		}
	}
	// whatever happened, a later lookup obtains the resource
	if accepted["a"] > 0 {
		_, err := lookup(m, bg, rt, "a")
		vsym.Assert(err == nil, "the resource stays available")
	}
	vsym.Cover("end")
}

// C06_Again: everybody gave up before the resource came; the next lookup
// must still be woken when it does.
func C06_Again() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	rt := []xdsresource.ResourceType{CT, RT, LT, ET}[vsym.Choose("type", vsym.Param("types", 1))]
	v := vsym.U32("v")
	n := vsym.Str("name", 1, 1, "ab")
	rounds := 1 + vsym.Choose("rounds", 2)
	for i := 0; i < rounds; i++ {
		var d time.Duration
		if vsym.Choose("wait", 2) == 1 {
			d = ms(30)
		}
		ctx, cancel := context.WithTimeout(bg, d)
		_, err := lookup(m, ctx, rt, "a")
		cancel()
		vsym.Assert(err != nil, "a resource nobody supplied is an error")
	}
	done := 0
	other := vsym.Choose("other", 2) == 1
	vsym.Delay(vsym.Param("delays", 3), 0)
	t0 := time.Now()
	go func() {
		_, err := lookup(m, bg, rt, "a")
		vsym.Assert(err == nil, "a resource accepted before the deadline is returned")
		vsym.Assert(time.Since(t0) == ms(500), "a lookup does not wait after its resource was accepted")
		done++
	}()
	if other {
		go func() {
			ctx, cancel := context.WithTimeout(bg, ms(200))
			defer cancel()
			_, err := lookup(m, ctx, rt, n)
			vsym.Assert(err != nil, "a resource nobody supplied is an error")
			done++
		}()
	} else {
		done++
	}
	time.Sleep(ms(500))
	srv.Last().Push(srv.Resp(rt, Marked(rt, "a", v)))
	time.Sleep(2 * time.Second)
	vsym.Stop()
	vsym.Settle()
	vsym.Assert(done == 2, "lookups return")
	vsym.Cover("end")
}
