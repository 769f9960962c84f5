package h

import (
	"time"

	discovery "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"

	nds "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// C04_Resub: subscribed types in arbitrary states, then stream failures of
// several kinds; what is sent on each new stream is compared with the model.
func C04_Resub() {
	K := vsym.Param("failures", 2)
	srv := &Server{}
	m := NewMgr(srv, false, false)
	types := []xdsresource.ResourceType{RT, CT, LT, ET}
	types = types[:vsym.Param("types", 2)]
	if vsym.Choose("swap", 2) == 1 {
		types = []xdsresource.ResourceType{LT, ET}
	}
	w := map[xdsresource.ResourceType]*wire{}
	fold := map[xdsresource.ResourceType]map[string]uint32{}
	for _, t := range types {
		w[t] = &wire{interest: map[string]bool{"a": true}}
		fold[t] = map[string]uint32{}
		subscribe(m, t, "a")
		if vsym.Choose("second-name", 2) == 1 {
			subscribe(m, t, "b")
			w[t].interest["b"] = true
		}
	}
	push := func(t xdsresource.ResourceType) {
		ver, nonce := vsym.Str("version", 1, 1, "vw"), vsym.Str("nonce", 1, 1, "nm")
		r := &discovery.DiscoveryResponse{TypeUrl: urls[t], VersionInfo: ver, Nonce: nonce}
		v := vsym.U32("content")
		r.Resources = append(r.Resources, Marked(t, "a", v))
		reject := vsym.Choose("reject", 2) == 1
		if reject {
			r.Resources = append(r.Resources, vsym.Corrupt(urls[t]))
		}
		before := len(srv.Reqs)
		srv.Last().Push(r)
		vsym.Settle()
		got := srv.Reqs[before:]
		w[t].nonce = nonce
		if !reject {
			w[t].ver = ver
			fold[t]["a"] = v
		}
		vsym.Assert(len(got) == 1, "one request answers a response")
		vsym.Assert(got[0].Stream == srv.Last().ID, "the answer goes out on the live stream")
		w[t].check(got[0], t, reject)
	}
	if vsym.Choose("push0", 2) == 1 {
		push(types[0])
	}
	for k := 0; k < K; k++ {
		before := len(srv.Reqs)
		old := srv.Last()
		kind := vsym.Choose("failure", 5)
		var gate chan struct{}
		down := kind == 1
		if down {
			// the stream cannot be reopened at first
			srv.OpenErr = func(i int) error {
				if down {
					return errBroken
				}
				return nil
			}
		}
		if kind == 2 {
			// sends fail first: a request is lost, then the receiver notices
			srv.SendErr = func(s *Stream, r *Req) error {
				if s == old {
					return errBroken
				}
				return nil
			}
			subscribe(m, types[0], "c")
			w[types[0]].interest["c"] = true
		}
		if kind == 3 {
			// the next stream fails while the client re-subscribes on it
			nth := vsym.Choose("nth-send", 2)
			id := old.ID + 1
			sent := 0
			srv.SendErr = func(s *Stream, r *Req) error {
				if s.ID == id {
					sent++
					if sent > nth {
						return errBroken
					}
				}
				return nil
			}
			old.Break(errBroken)
			vsym.Settle()
			old = srv.Last()
			before = len(srv.Reqs)
			vsym.Assert(old.ID == id, "a new stream is opened")
		}
		if kind == 4 {
			// a send is stuck while more requests queue up behind it
			gate = make(chan struct{})
			stuck := false
			lost := vsym.Choose("send-error", 2) == 1
			srv.SendErr = func(s *Stream, r *Req) error {
				if s == old {
					if !stuck {
						stuck = true
						<-gate
					}
					if lost {
						return errBroken
					}
				}
				return nil
			}
			subscribe(m, types[0], "c")
			w[types[0]].interest["c"] = true
			subscribe(m, types[1], "e")
			w[types[1]].interest["e"] = true
			r := srv.Resp(types[0])
			v := vsym.U32("content")
			r.Resources = append(r.Resources, Marked(types[0], "a", v))
			old.Push(r)
			vsym.Settle()
			w[types[0]].ver = r.VersionInfo
			fold[types[0]]["a"] = v
		}
		old.Break(errBroken)
		vsym.Settle()
		if gate != nil {
			close(gate)
			vsym.Settle()
			vsym.Cover("stuck")
		}
		if down {
			// during the outage
			for _, t := range types {
				checkLookup(m, t, "a", fold[t])
			}
			subscribe(m, types[1], "d")
			w[types[1]].interest["d"] = true
			down = false
			time.Sleep(8 * time.Second)
			vsym.Settle()
			vsym.Cover("reopened")
		}
		vsym.Assert(srv.Last() != old, "a new stream is opened")
		vsym.Assert(old.Closed, "the failed stream is closed")
		cnt := map[string]int{}
		for _, q := range srv.Reqs[before:] {
			if q.Stream == old.ID {
				continue
			}
			vsym.Assert(q.Nonce == "", "no nonce of an earlier stream is sent")
			cnt[q.URL]++
			for _, t := range types {
				if q.URL == urls[t] {
					w[t].nonce = ""
					w[t].check(q, t, false)
				}
			}
		}
		for _, t := range types {
			vsym.Assert(cnt[urls[t]] >= 1, "every subscribed type is requested on the new stream")
		}
		vsym.Assert(len(cnt) == len(types), "only subscribed types are requested")
		for _, t := range types {
			checkLookup(m, t, "a", fold[t])
		}
		push(types[vsym.Choose("push", len(types))])
		for _, t := range types {
			checkLookup(m, t, "a", fold[t])
		}
	}
	vsym.Cover("end")
}

// C04_Start: the stream fails (once or twice) before the start-up responses
// arrive; the client starts up on the stream that works.
func C04_Start() {
	srv := &Server{Table: map[string]*nds.NameTable_NameInfo{"s.default.svc.cluster.local": ips("1.0.0.1")}}
	left := 1 + vsym.Choose("failures", 2)
	onList := vsym.Choose("on-listener", 2) == 1
	srv.OnReq = func(s *Stream, r *Req) {
		if left > 0 && (!onList || r.URL == urls[LT]) {
			left--
			s.Break(errBroken)
			return
		}
		if r.Nonce != "" || s.Dead {
			return
		}
		switch r.URL {
		case urls[NT]:
			s.Push(srv.Resp(NT, TableAny(srv.Table)))
		case urls[LT]:
			s.Push(srv.Resp(LT))
		}
	}
	setEnv()
	m, err := NewMgrErr(srv, true, true)
	vsym.Assert(err == nil, "start-up survives a stream failure")
	vsym.Settle()
	v := vsym.U32("v")
	subscribe(m, LT, "s")
	srv.Last().Push(srv.Resp(LT, Marked(LT, "1.0.0.1_80", v)))
	vsym.Settle()
	checkLookup(m, LT, "s", map[string]uint32{"s": v})
	seen := map[string]int{}
	for _, q := range srv.Reqs {
		if q.Nonce == "" {
			seen[q.URL+string(rune('0'+q.Stream))]++
		} else {
			vsym.Assert(q.Stream == srv.Last().ID || onList, "no nonce of an earlier stream is sent")
		}
	}
	l := string(rune('0' + srv.Last().ID))
	vsym.Assert(seen[urls[NT]+l] >= 1 && seen[urls[LT]+l] >= 1, "every subscribed type is requested on the new stream")
	vsym.Cover("end")
}

// C04_Auth: after an authentication failure the client is stopped for good
// and lookups still return.
func C04_Auth() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	subscribe(m, CT, "a")
	v := vsym.U32("v")
	cached := vsym.Choose("cached", 2) == 1
	fold := map[string]uint32{}
	if cached {
		srv.Last().Push(srv.Resp(CT, Marked(CT, "a", v)))
		fold["a"] = v
		vsym.Settle()
	}
	if vsym.Choose("after-reconnect", 2) == 1 {
		srv.Last().Break(errBroken)
		vsym.Settle()
	}
	opens := srv.Opens
	srv.Last().Break(authErr())
	vsym.Settle()
	n := len(srv.Reqs)
	checkLookup(m, CT, "a", fold)
	for i := 0; i < vsym.Param("lookups", 3); i++ {
		t0 := time.Now()
		_, err := lookup(m, bg, RT, "missing"+string(rune('a'+i%26)))
		vsym.Assert(err != nil, "nothing can be fetched after the client stopped")
		vsym.Assert(time.Since(t0) <= 1100*time.Millisecond, "lookup returns within its timeout")
	}
	checkLookup(m, CT, "a", fold)
	time.Sleep(100 * time.Second)
	vsym.Settle()
	vsym.Assert(srv.Opens == opens, "no new stream after an authentication failure")
	vsym.Assert(len(srv.Reqs) <= n+1, "the client is stopped")
	vsym.Cover("end")
}

// C04_AuthMany: more lookups than the request queue holds, after the stop.
func C04_AuthMany() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	srv.Last().Break(authErr())
	vsym.Settle()
	done := 0
	v := vsym.Int("names", 1, 3)
	N := vsym.Param("many", 1060)
	for i := 0; i < N; i++ {
		nm := "n" + string(rune('0'+i%10)) + string(rune('0'+i/10%10)) + string(rune('0'+i/100%10)) + string(rune('0'+i/1000%10))
		go func() {
			_, err := lookup(m, bg, CT, nm)
			vsym.Assert(err != nil, "nothing can be fetched after the client stopped")
			done++
		}()
	}
	time.Sleep(5 * time.Second)
	vsym.Settle()
	vsym.Assert(done == N && v > 0, "every lookup returns within its timeout after the client stopped")
	vsym.Cover("end")
}

// C04_AuthStart: the control plane rejects the client before the start-up
// responses arrive.
func C04_AuthStart() {
	srv := &Server{Table: map[string]*nds.NameTable_NameInfo{}}
	needNDS := vsym.Bool("nds")
	when := vsym.Choose("when", 2)
	srv.OnReq = func(s *Stream, r *Req) {
		if when == 0 || r.URL == urls[LT] {
			srv.Auto = false
			s.Break(authErr())
		} else if when == 1 && r.URL == urls[NT] && r.Nonce == "" {
			s.Push(srv.Resp(NT, TableAny(nil)))
		}
	}
	setEnv()
	m, err := NewMgrErr(srv, needNDS, true)
	if err != nil {
		vsym.Cover("end")
		return
	}
	t0 := time.Now()
	_, err = lookup(m, bg, CT, "a")
	vsym.Assert(err != nil, "nothing can be fetched after the client stopped")
	vsym.Assert(time.Since(t0) <= 1100*time.Millisecond, "lookup returns within its timeout")
	vsym.Cover("end")
}

// C04_Race: a failure races with lookups and the sender; no stale nonce is
// sent on the new stream, which ends up with the whole interest set.
func C04_Race() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	subscribe(m, CT, "a")
	subscribe(m, RT, "r")
	v := vsym.U32("v")
	srv.Last().Push(srv.Resp(CT, Marked(CT, "a", v)))
	vsym.Settle()
	done := 0
	n2 := vsym.Str("n2", 1, 1, "ab")
	answered := false
	srv.OnReq = func(s *Stream, r *Req) {
		if s.ID > 0 {
			vsym.Assert(r.Nonce == "" || answered && r.Nonce == "n02", "no nonce of an earlier stream is sent")
			if !answered && r.URL == urls[CT] {
				answered = true
				s.Push(srv.Resp(CT, Marked(CT, "a", v+1), Marked(CT, "b", v)))
			}
		} else {
			vsym.Assert(r.Nonce != "n02", "no nonce of another stream is sent")
		}
	}
	vsym.Delay(vsym.Param("delays", 3), 0)
	go func() {
		got, err := lookup(m, bg, CT, "a")
		vsym.Assert(err == nil, "cached resources are served throughout")
		mk, ok := MarkOf(CT, got)
		vsym.Assert(ok && vsym.Or(mk == v, mk == v+1), "cached resources are served throughout")
		done++
	}()
	go func() {
		m.Get(bg, CT, n2)
		done++
	}()
	srv.Last().Break(errBroken)
	time.Sleep(3 * time.Second)
	vsym.Stop()
	vsym.Settle()
	vsym.Assert(done == 2, "lookups return")
	vsym.Assert(len(srv.Streams) == 2, "one new stream")
	last := map[string]*Req{}
	for _, q := range srv.Reqs {
		if q.Stream == 1 {
			last[q.URL] = q
		}
	}
	vsym.Assert(last[urls[CT]] != nil && last[urls[RT]] != nil, "every subscribed type is requested on the new stream")
	vsym.Assert(sameSet(last[urls[CT]].Names, map[string]bool{"a": true, n2: true}), "the last request equals the interest set")
	vsym.Assert(sameSet(last[urls[RT]].Names, map[string]bool{"r": true}), "the last request equals the interest set")
	fold := map[string]uint32{"a": v + 1}
	checkLookup(m, CT, "a", fold)
	vsym.Cover("end")
}
