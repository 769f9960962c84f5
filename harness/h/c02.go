package h

import (
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	discovery "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/types/known/anypb"

	nds "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// badRoute: route entries the decoder must reject.
func badRoutes() []*v3route.Route {
	good := &v3route.Route{
		Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
		Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: "c"}}},
	}
	bad := &v3route.Route{Match: good.Match}
	if vsym.Choose("no-match", 2) == 1 {
		bad = &v3route.Route{Action: good.Action}
	}
	if vsym.Choose("bad-first", 2) == 1 {
		return []*v3route.Route{bad, good}
	}
	return []*v3route.Route{good, bad}
}

// invalid returns a resource of the type that does not decode.
func invalid(rt xdsresource.ResourceType, name string) *anypb.Any {
	switch vsym.Choose("invalid", 3) {
	case 1:
		return vsym.Corrupt(urls[rt])
	case 2:
		switch rt {
		case RT:
			return vsym.Pack(urls[RT], &v3route.RouteConfiguration{Name: name, VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: badRoutes()}}})
		case LT:
			return vsym.Pack(urls[LT], &v3listener.Listener{Name: name, FilterChains: []*v3listener.FilterChain{chain(nil, vsym.Corrupt(hcmURL))}})
		}
	}
	other := urls[CT]
	if rt == CT {
		other = urls[ET]
	}
	return &anypb.Any{TypeUrl: other}
}

// wire is the model of what the client must echo.
type wire struct {
	ver, nonce string
	interest   map[string]bool
}

func (w *wire) check(q *Req, rt xdsresource.ResourceType, reject bool) {
	vsym.Assert(q.URL == urls[rt], "request of the response's type")
	vsym.Assert(q.Nonce == w.nonce, "request echoes the nonce of the response")
	vsym.Assert(q.Ver == w.ver, "request carries the last accepted version")
	vsym.Assert(q.HasErr == reject, "error detail present iff the response was rejected")
	vsym.Assert(sameSet(q.Names, w.interest), "request lists the interest set")
}

// C02_Seq: arbitrary responses of every type against arbitrary prior state.
func C02_Seq() {
	K := vsym.Param("responses", 2)
	srv := &Server{}
	m := NewMgr(srv, false, false)
	types := []xdsresource.ResourceType{LT, RT, CT, ET}
	w := map[xdsresource.ResourceType]*wire{}
	fold := map[xdsresource.ResourceType]map[string]uint32{}
	calls := map[xdsresource.ResourceType]int{}
	for _, t := range types {
		t := t
		m.RegisterXDSUpdateHandler(t, func(map[string]xdsresource.Resource) { calls[t]++ })
	}
	// the type under test, and one other type with state of its own
	rt := types[vsym.Choose("type", 4)]
	ot := types[(vsym.Choose("other", 3)+1+int(rt)-int(LT))%4]
	sub := vsym.Choose("subscribed", 2) == 1
	for _, t := range []xdsresource.ResourceType{ot, rt} {
		if t == rt && !sub {
			continue
		}
		subscribe(m, t, "a")
		w[t] = &wire{interest: map[string]bool{"a": true}}
		fold[t] = map[string]uint32{}
	}
	// the other type has an accepted response already
	ov := vsym.U32("other-content")
	srv.Last().Push(&discovery.DiscoveryResponse{TypeUrl: urls[ot], VersionInfo: "ov", Nonce: "on", Resources: []*anypb.Any{Marked(ot, "a", ov)}})
	vsym.Settle()
	w[ot].ver, w[ot].nonce = "ov", "on"
	fold[ot]["a"] = ov

	for k := 0; k < K; k++ {
		url := urls[rt]
		known := true
		var res []*anypb.Any
		var l []item
		switch vsym.Choose("url", 3) {
		case 1:
			url = vsym.Str("url", 0, 2, "")
			known = false
		case 2:
			url = urls[NT] // never subscribed in this configuration
			known = false
			res = []*anypb.Any{TableAny(map[string]*nds.NameTable_NameInfo{"a": ips("1.1.1.1")})}
		}
		reject := false
		if known {
			res, l = items(rt, "ab", 1)
			if vsym.Choose("reject", 2) == 1 {
				reject = true
				// a good resource before or after the bad one
				if vsym.Choose("bad-first", 2) == 1 {
					res = append([]*anypb.Any{invalid(rt, "a")}, res...)
				} else {
					res = append(res, invalid(rt, "a"))
				}
			}
		}
		ver := vsym.Str("version", 0, 1, "vw")
		nonce := vsym.Str("nonce", 0, 1, "nm")
		before := len(srv.Reqs)
		c0 := calls[rt]
		c1 := calls[ot]
		srv.Last().Push(&discovery.DiscoveryResponse{TypeUrl: url, VersionInfo: ver, Nonce: nonce, Resources: res})
		vsym.Settle()
		got := srv.Reqs[before:]
		vsym.Assert(calls[ot] == c1, "a response of one type touches another")
		if !known || !sub {
			vsym.Assert(len(got) == 0, "a response of an unknown or never subscribed type is not acknowledged")
			vsym.Assert(calls[rt] == c0, "a response of an unknown or never subscribed type is not applied")
			vsym.Cover("ignored")
			continue
		}
		vsym.Assert(len(got) == 1, "exactly one request answers a response")
		w[rt].nonce = nonce
		if !reject {
			w[rt].ver = ver
			if rt == LT || rt == CT {
				fold[rt] = map[string]uint32{}
			}
			for _, it := range l {
				if it.name == "a" {
					fold[rt]["a"] = it.mark
				}
			}
			vsym.Assert(calls[rt] == c0+1, "an accepted response runs the update handlers once")
			vsym.Cover("acked")
		} else {
			vsym.Assert(calls[rt] == c0, "a rejected response runs no update handler")
			vsym.Cover("nacked")
		}
		w[rt].check(got[0], rt, reject)
		checkLookup(m, rt, "a", fold[rt])
		checkLookup(m, ot, "a", fold[ot])
		if len(fold[rt]) == 0 {
			// the miss above re-requested the name: state is echoed there too
			q := srv.Reqs[len(srv.Reqs)-1]
			vsym.Assert(q.Ver == w[rt].ver && q.Nonce == w[rt].nonce && !q.HasErr, "later requests carry the acknowledged version and nonce")
		}
	}
	// what later requests of each type carry
	for _, t := range []xdsresource.ResourceType{rt, ot} {
		if w[t] == nil {
			continue
		}
		w[t].interest["z"] = true
		subscribe(m, t, "z")
		w[t].check(srv.Reqs[len(srv.Reqs)-1], t, false)
	}
	if !sub {
		_, err := lookup(m, bg, rt, "a")
		vsym.Assert(err != nil, "a response of a never subscribed type was applied")
	}
	vsym.Cover("end")
}

// C02_NDS: the name table's responses, in the configuration that uses one.
func C02_NDS() {
	K := vsym.Param("responses", 2)
	srv := &Server{Table: map[string]*nds.NameTable_NameInfo{"s.default.svc.cluster.local": ips("1.0.0.1")}}
	m := NewMgr(srv, true, true)
	subscribe(m, LT, "s:80")
	wn := &wire{ver: "v01", nonce: "n01", interest: map[string]bool{"": true}}
	wl := &wire{ver: "v02", nonce: "n02", interest: map[string]bool{inbound: true, "s:80": true}}
	ip := "1.0.0.1"
	for k := 0; k < K; k++ {
		before := len(srv.Reqs)
		ver, nonce := vsym.Str("version", 0, 1, "vw"), vsym.Str("nonce", 0, 1, "nm")
		r := &discovery.DiscoveryResponse{TypeUrl: urls[NT], VersionInfo: ver, Nonce: nonce}
		reject := true
		nip := "1.0.0." + vsym.Str("last-byte", 1, 1, "1-9")
		tbl := TableAny(map[string]*nds.NameTable_NameInfo{"s.default.svc.cluster.local": ips(nip)})
		switch vsym.Choose("nds", 4) {
		case 0:
			r.Resources = []*anypb.Any{tbl}
			reject = false
		case 1: // empty
		case 2:
			r.Resources = []*anypb.Any{vsym.Corrupt(urls[NT])}
		case 3:
			tbl.TypeUrl = urls[LT]
			r.Resources = []*anypb.Any{tbl}
		}
		srv.Last().Push(r)
		vsym.Settle()
		got := srv.Reqs[before:]
		vsym.Assert(len(got) == 1, "exactly one request answers a name-table response")
		wn.nonce = nonce
		if !reject {
			wn.ver = ver
			ip = nip
			vsym.Cover("acked")
		} else {
			vsym.Cover("nacked")
		}
		wn.check(got[0], NT, reject)
		// the table in force shows in how the next listener response is bound
		mark := vsym.U32("mark")
		before = len(srv.Reqs)
		srv.Last().Push(srv.Resp(LT, Marked(LT, ip+"_80", mark)))
		vsym.Settle()
		got = srv.Reqs[before:]
		vsym.Assert(len(got) == 1, "exactly one request answers a listener response")
		wl.ver, wl.nonce = "v0"+string(rune('3'+k)), "n0"+string(rune('3'+k))
		wl.check(got[0], LT, false)
		v, err := lookup(m, bg, LT, "s:80")
		vsym.Assert(err == nil, "a rejected name table changed the table in force")
		mk, ok := MarkOf(LT, v)
		vsym.Assert(ok && mk == mark, "listener bound by the table in force")
	}
	vsym.Cover("end")
}
