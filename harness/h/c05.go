package h

import (
	"context"
	"time"

	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// slack is what a lookup may need past its deadline (virtual time: none).
const slack = 0

// C05_Kind: an unknown kind is refused at once and nothing is subscribed.
func C05_Kind() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	rt := xdsresource.ResourceType(vsym.I32("kind"))
	vsym.Assume(rt < LT || rt > NT)
	name := vsym.Str("name", 0, 2, "")
	t0 := time.Now()
	var res interface{}
	var err error
	if vsym.Choose("cancelled", 2) == 1 {
		ctx, cancel := context.WithCancel(bg)
		cancel()
		res, err = m.Get(ctx, rt, name)
	} else {
		res, err = m.Get(bg, rt, name)
	}
	vsym.Assert(err != nil && res == nil, "unknown kind is an error")
	vsym.Assert(time.Since(t0) == 0, "unknown kind is refused at once")
	vsym.Settle()
	vsym.Assert(len(srv.Reqs) == 0, "unknown kind subscribes nothing")
	// the client still works
	subscribe(m, CT, "a")
	vsym.Assert(len(srv.Reqs) == 1 && srv.Reqs[0].URL == urls[CT], "client works after an unknown kind")
	srv.Last().Break(errBroken)
	vsym.Settle()
	vsym.Assert(len(srv.Reqs) == 2 && srv.Reqs[1].URL == urls[CT], "unknown kind subscribes nothing")
	vsym.Cover("end")
}

// C05_Deadline: with nothing supplied the lookup fails at the earlier of the
// fetch timeout and the caller's own deadline.
func C05_Deadline() {
	fetchTimeout = []time.Duration{0, 200 * time.Millisecond, 3 * time.Second, time.Millisecond, 40 * time.Millisecond, 25 * time.Second}[vsym.Choose("fetch-timeout", 6)]
	srv := &Server{}
	m := NewMgr(srv, false, false)
	rt := []xdsresource.ResourceType{LT, RT, CT, ET}[vsym.Choose("type", 4)]
	limit := fetchTimeout
	if limit == 0 {
		limit = time.Second
	}
	ctx := bg
	var cancel context.CancelFunc
	switch vsym.Choose("caller", 5) {
	case 1: // a deadline of its own
		d := []time.Duration{100 * time.Millisecond, 2 * time.Second, 10 * time.Second, time.Millisecond, 26 * time.Second}[vsym.Choose("deadline", 5)]
		ctx, cancel = context.WithTimeout(bg, d)
		defer cancel()
		if d < limit {
			limit = d
		}
	case 2: // cancelled already
		ctx, cancel = context.WithCancel(bg)
		cancel()
		limit = 0
	case 3: // cancelled by someone else meanwhile
		ctx, cancel = context.WithCancel(bg)
		go func() {
			time.Sleep(50 * time.Millisecond)
			cancel()
		}()
		if limit > 50*time.Millisecond {
			limit = 50 * time.Millisecond
		}
	case 4: // the caller's deadline has passed
		ctx, cancel = context.WithTimeout(bg, 0)
		defer cancel()
		limit = 0
	}
	// what the control plane does meanwhile: nothing, answers for another
	// name, omits the name, or is not accepted
	srv.OnReq = func(s *Stream, r *Req) {
		if r.Nonce != "" {
			return
		}
		switch vsym.Choose("answer", 4) {
		case 1:
			s.Push(srv.Resp(rt, Marked(rt, "other", 5)))
		case 2:
			s.Push(srv.Resp(rt))
		case 3:
			s.Push(srv.Resp(rt, Marked(rt, "a", 5), vsym.Corrupt(urls[rt])))
		}
	}
	t0 := time.Now()
	_, err := lookup(m, ctx, rt, "a")
	vsym.Assert(err != nil, "nothing supplied is an error")
	vsym.Assert(time.Since(t0) == limit, "lookup returns at its deadline")
	vsym.Cover("end")
}

// C05_Placeholder: resources the control plane supplies with as little
// content as possible, or does not supply, for every type and configuration.
func C05_Placeholder() {
	srv := &Server{}
	m := NewMgr(srv, false, vsym.Choose("need-lds", 2) == 1)
	rt := []xdsresource.ResourceType{LT, RT, CT, ET}[vsym.Choose("type", 4)]
	subscribe(m, rt, "a")
	for i := 0; i < 2; i++ {
		var res []*anypb.Any
		there := false
		switch vsym.Choose("supply", 3) {
		case 1: // empty resource under the name
			there = true
			switch rt {
			case LT:
				res = append(res, vsym.Pack(urls[LT], &v3listener.Listener{Name: "a"}))
			case RT:
				res = append(res, vsym.Pack(urls[RT], &v3route.RouteConfiguration{Name: "a"}))
			case CT:
				res = append(res, vsym.Pack(urls[CT], &v3cluster.Cluster{Name: "a"}))
			case ET:
				e := &v3endpoint.ClusterLoadAssignment{ClusterName: "a"}
				if vsym.Choose("locality", 2) == 1 {
					e.Endpoints = []*v3endpoint.LocalityLbEndpoints{{}}
				}
				res = append(res, vsym.Pack(urls[ET], e))
			}
		case 2:
			res = append(res, Marked(rt, "b", 1))
		}
		srv.Last().Push(srv.Resp(rt, res...))
		vsym.Settle()
		_, err := lookup(m, bg, rt, "a")
		if there {
			vsym.Assert(err == nil, "a supplied resource is returned")
		} else if i == 0 || rt == LT || rt == CT {
			vsym.Assert(err != nil, "a resource that was not supplied is an error")
		}
		if rt == LT {
			lookup(m, bg, LT, inbound)
		}
	}
	vsym.Cover("end")
}

// C05_Race: a lookup races with deliveries, removals, cancellation and its
// own timeout; it returns a value of the kind or an error, in time.
func C05_Race() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	rt := []xdsresource.ResourceType{CT, LT, RT}[vsym.Choose("type", vsym.Param("types", 1))]
	subscribe(m, rt, "a")
	v := vsym.U32("v")
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	canc := vsym.Choose("cancel", 2) == 1
	n := vsym.Str("name", 1, 1, "ab")
	returned := 0
	t0 := time.Now()
	anytime := vsym.Param("anytime", 1)
	vsym.Delay(vsym.Param("delays", 3), anytime)
	for i := 0; i < 2; i++ {
		c, nm := bg, "a"
		if i == 1 {
			c, nm = ctx, n
		}
		go func() {
			got, err := lookup(m, c, rt, nm)
			if err == nil {
				mk, ok := MarkOf(rt, got)
				vsym.Assert(ok && mk == v, "a value that was never supplied")
			}
			// with anytime, time passes while the lookup is runnable
			vsym.Assert(anytime > 0 || time.Since(t0) <= time.Second, "lookup returns by its deadline")
			returned++
		}()
	}
	if canc {
		go func() { cancel() }()
	}
	srv.Last().Push(srv.Resp(rt, Marked(rt, "a", v)))
	srv.Last().Push(srv.Resp(rt)) // removes it again where responses replace
	time.Sleep(3 * time.Second)
	vsym.Stop()
	time.Sleep(3 * time.Second)
	vsym.Assert(returned == 2, "lookups return")
	vsym.Cover("end")
}

// C05_Stuck: the transport blocks for ever in a send; lookups keep returning.
func C05_Stuck() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	subscribe(m, CT, "a")
	subscribe(m, RT, "r")
	v := vsym.U32("v")
	srv.Last().Push(srv.Resp(CT, Marked(CT, "a", v)))
	vsym.Settle()
	never := make(chan struct{})
	nth := vsym.Choose("nth-send", 3)
	sent := 0
	srv.SendErr = func(s *Stream, r *Req) error {
		sent++
		if sent > nth {
			<-never
		}
		return nil
	}
	if vsym.Choose("reconnect", 2) == 1 {
		srv.Last().Break(errBroken)
		vsym.Settle()
	}
	done := 0
	for _, n := range []string{"a", "b", "c"} {
		n := n
		go func() {
			_, err := lookup(m, bg, CT, n)
			vsym.Assert((err == nil) == (n == "a"), "lookup with a stuck transport")
			done++
		}()
	}
	time.Sleep(1100 * time.Millisecond)
	vsym.Settle()
	vsym.Assert(done == 3, "lookups return while the transport is stuck")
	vsym.Cover("end")
}

// C05_NoServer: the control plane cannot be reached at start-up.
func C05_NoServer() {
	srv := &Server{OpenErr: func(int) error { return errBroken }}
	setEnv()
	m, err := NewMgrErr(srv, vsym.Bool("nds"), vsym.Bool("lds"))
	if err != nil {
		vsym.Cover("end")
		return
	}
	N := vsym.Param("many", 1040)
	done := 0
	for i := 0; i < N; i++ {
		nm := "n" + string(rune('0'+i%10)) + string(rune('0'+i/10%10)) + string(rune('0'+i/100%10)) + string(rune('0'+i/1000%10))
		go func() {
			_, err := lookup(m, bg, CT, nm)
			vsym.Assert(err != nil, "nothing supplied is an error")
			done++
		}()
	}
	time.Sleep(2 * time.Second)
	vsym.Settle()
	vsym.Assert(done == N, "lookups return by their deadline without a control plane")
	vsym.Cover("end")
}
