package h

import (
	"context"
	"errors"
	"time"

	"github.com/cloudwego/kitex/client"
	kep "github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/kerrors"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	"github.com/cloudwego/kitex/pkg/utils"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// flaky fails the lookups the solver picks, on top of what is absent.
type flaky struct {
	*store
	fail []bool // per lookup
	n    int
}

func (f *flaky) Get(ctx context.Context, rt xdsresource.ResourceType, name string) (interface{}, error) {
	i := f.n
	f.n++
	if i < len(f.fail) && f.fail[i] {
		return nil, errAbsent
	}
	return f.store.Get(ctx, rt, name)
}

// pipeline is a client with the retry container and the routing middleware.
type pipeline struct {
	rc    *retry.Container
	mw    kep.Endpoint
	nexts int
	seen  string
	limit time.Duration
	ret   error // what the rest of the call returns
}

func newPipeline(m xdssuite.XDSResourceManager, opts ...xdssuite.Option) *pipeline {
	xdssuite.SetXDSResourceManager(m)
	p := &pipeline{}
	var co client.Options
	xdssuite.NewRetryPolicy(opts...).F(&co, &utils.Slice{})
	p.rc = co.RetryContainer
	p.mw = xdssuite.NewXDSRouterMiddleware(opts...)(func(ctx context.Context, req, resp interface{}) error {
		p.nexts++
		ri := rpcinfo.GetRPCInfo(ctx)
		p.seen, _ = ri.To().Tag(xdssuite.RouterClusterKey)
		p.limit = ri.Config().RPCTimeout()
		return p.ret
	})
	return p
}

// key has the retry key computed the way a call does.
func (p *pipeline) key(ctx context.Context, ri rpcinfo.RPCInfo) {
	p.rc.WithRetryIfNeeded(ctx, nil, func(context.Context, retry.Retryer) (rpcinfo.RPCInfo, interface{}, error) {
		return ri, nil, nil
	}, ri, nil)
}

var errNext = errors.New("the call failed")

// routeTo is a route to the given clusters with a timeout.
func routeTo(method string, ws []uint32, timeout *durationpb.Duration) *v3route.Route {
	a := &v3route.RouteAction{Timeout: timeout}
	if len(ws) == 1 && ws[0] == 0 {
		a.ClusterSpecifier = &v3route.RouteAction_Cluster{Cluster: clusterName(0)}
	} else {
		var l []*v3route.WeightedCluster_ClusterWeight
		for i, w := range ws {
			l = append(l, &v3route.WeightedCluster_ClusterWeight{Name: clusterName(i), Weight: u32(w)})
		}
		a.ClusterSpecifier = &v3route.RouteAction_WeightedClusters{WeightedClusters: &v3route.WeightedCluster{Clusters: l}}
	}
	return &v3route.Route{
		Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Path{Path: "/S/" + method}},
		Action: &v3route.Route_Route{Route: a},
	}
}

// C15_Step: one call through the routing step, against every outcome of the
// lookups.
func C15_Step() {
	s := newStore()
	f := &flaky{store: s}
	secs, nanos := int64(vsym.Int("seconds", 0, 3600)), int32(vsym.Int("nanos", 0, 999999999))
	var timeout *durationpb.Duration
	want := time.Duration(0)
	if vsym.Choose("timeout", 2) == 1 {
		timeout = &durationpb.Duration{Seconds: secs, Nanos: nanos}
		want = time.Duration(secs)*time.Second + time.Duration(nanos)
	}
	// what the matched route selects; nil: nothing to select from
	var picks []string
	var ws []uint32
	switch vsym.Choose("clusters", 4) {
	case 0:
		ws, picks = []uint32{0}, []string{clusterName(0)}
	case 1:
		w0, w1 := vsym.U32("w0"), vsym.U32("w1")
		ws = []uint32{w0, w1}
		if w0 > 0 {
			picks = append(picks, clusterName(0))
		}
		if w1 > 0 {
			picks = append(picks, clusterName(1))
		}
	case 2:
		ws = []uint32{0, 0, 0}
	case 3:
		ws = []uint32{}
	}
	c := rpc{dest: "svc", svc: "S", method: "m", grpc: vsym.Choose("grpc", 2) == 1}
	matched := routeTo("m", ws, timeout)
	other := routeTo("other", []uint32{0}, &durationpb.Duration{Seconds: 77})
	routes := [][]*v3route.Route{{other, matched}, {matched}, {other}, {}}[vsym.Choose("routes", 4)]
	hit := false
	for _, r := range routes {
		hit = hit || r == matched
	}
	table := &v3route.RouteConfiguration{Name: "rc", VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: routes}}}
	lookups := 0 // needed for the outcome
	switch vsym.Choose("listener", 6) {
	case 0: // by name
		s.load(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "svc", FilterChains: []*v3listener.FilterChain{chain(nil, hcmAny("rc"))}}))
		lookups = 2
		switch vsym.Choose("table", 3) {
		case 0:
			s.load(RT, vsym.Pack(urls[RT], table))
		case 1:
			s.load(RT, vsym.Pack(urls[RT], &v3route.RouteConfiguration{Name: "rc"}))
			hit = false
		case 2:
			hit = false
		}
	case 1: // inline
		s.load(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "svc", FilterChains: []*v3listener.FilterChain{chain(nil,
			vsym.Pack(hcmURL, &v3hcm.HttpConnectionManager{RouteSpecifier: &v3hcm.HttpConnectionManager_RouteConfig{RouteConfig: table}}))}}))
		lookups = 1
	case 2: // thrift
		tr := &v3thrift.Route{Match: &v3thrift.RouteMatch{MatchSpecifier: &v3thrift.RouteMatch_MethodName{MethodName: "m"}},
			Route: &v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_Cluster{Cluster: clusterName(0)}}}
		s.load(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "svc", FilterChains: []*v3listener.FilterChain{chain(nil,
			vsym.Pack(thriftURL, &v3thrift.ThriftProxy{RouteConfig: &v3thrift.RouteConfiguration{Routes: []*v3thrift.Route{tr}}}))}}))
		picks, want, lookups, hit = []string{clusterName(0)}, 0, 1, !c.grpc
	case 3: // no filters
		s.load(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "svc"}))
		hit = false
	case 4: // no listener
		hit = false
	case 5: // another service's listener
		s.load(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "svc2", FilterChains: []*v3listener.FilterChain{chain(nil, hcmAny("rc"))}}))
		s.load(RT, vsym.Pack(urls[RT], table))
		hit = false
	}
	f.fail = []bool{vsym.Choose("fail-0", 2) == 1, vsym.Choose("fail-1", 2) == 1}
	if len(picks) == 0 {
		hit = false
	}

	var opts []xdssuite.Option
	if vsym.Choose("by-method", 2) == 1 {
		opts = append(opts, xdssuite.WithMatchRetryMethod(true))
	}
	p := newPipeline(f, opts...)
	if vsym.Choose("next-fails", 2) == 1 {
		p.ret = errNext
	}
	ri := c.info()
	rpcinfo.AsMutableRPCConfig(ri.Config()).SetRPCTimeout(7 * time.Second)
	ctx := rpcinfo.NewCtxWithRPCInfo(bg, ri)
	const (
		fresh = iota
		keyFirst
		decided
	)
	mode := vsym.Choose("mode", 3)
	elsewhere := ""
	if mode == decided && vsym.Choose("empty", 2) == 0 {
		elsewhere = vsym.Str("elsewhere", 1, 2, "a-z0-9")
	}
	switch mode {
	case keyFirst: // the retry container routes first
		p.key(ctx, ri)
	case decided:
		remoteinfo.AsRemoteInfo(ri.To()).SetTag(xdssuite.RouterClusterKey, elsewhere)
	}
	before, had := ri.To().Tag(xdssuite.RouterClusterKey)
	limit := ri.Config().RPCTimeout()
	n := f.n
	failing := false
	for i := n; i < n+lookups && i < len(f.fail); i++ {
		failing = failing || f.fail[i]
	}
	if mode == keyFirst {
		ok := hit && !(f.fail[0] || lookups > 1 && f.fail[1])
		vsym.Assert(had == ok, "the retry key decides the destination if it can be")
		if ok {
			vsym.Assert(has(picks, before), "the destination is a cluster of the matched route")
			vsym.Assert(limit == want, "the timeout is the matched route's")
		} else {
			vsym.Assert(limit == 7*time.Second, "the timeout of a call that is not routed is left alone")
		}
	}
	err := p.mw(ctx, nil, nil)
	tag, has2 := ri.To().Tag(xdssuite.RouterClusterKey)
	switch {
	case had:
		vsym.Assert(p.nexts == 1 && err == p.ret, "a decided call is passed on once")
		vsym.Assert(has2 && tag == before, "a decided destination is not changed")
		vsym.Assert(ri.Config().RPCTimeout() == limit, "the timeout of a decided call is not changed")
		vsym.Assert(f.n == n, "a decided call is not routed again")
		vsym.Cover("decided")
	case hit && !failing:
		vsym.Assert(p.nexts == 1 && err == p.ret, "a routed call is passed on once")
		vsym.Assert(has2 && has(picks, tag), "the destination is a cluster of the matched route")
		vsym.Assert(p.seen == tag, "the destination is recorded before the call is passed on")
		vsym.Assert(ri.Config().RPCTimeout() == want && p.limit == want, "the timeout is the matched route's")
		vsym.Cover("routed")
	default:
		vsym.Assert(err != nil && errors.Is(err, kerrors.ErrRoute), "a call that cannot be routed fails with a routing error")
		vsym.Assert(p.nexts == 0, "a call that cannot be routed is not passed on")
		vsym.Assert(!has2, "a call that cannot be routed has no destination")
		vsym.Cover("refused")
	}
	if has2 && mode != decided {
		remoteinfo.AsRemoteInfo(ri.To()).SetTag(xdssuite.RouterClusterKey, "hijacked")
		t, _ := ri.To().Tag(xdssuite.RouterClusterKey)
		vsym.Assert(t == tag, "the destination is locked")
	}
	if has2 {
		// retries see the same destination
		n = f.n
		p.key(ctx, ri)
		err = p.mw(ctx, nil, nil)
		t, _ := ri.To().Tag(xdssuite.RouterClusterKey)
		vsym.Assert(err == p.ret && p.nexts == 2 && t == tag && f.n == n, "the destination is decided once")
	}
	vsym.Cover("end")
}

// C15_NoPanic: whatever decodes, and whatever is withheld.
func C15_NoPanic() {
	g := newGen(vsym.Param("deviations", 2))
	g.raw = true
	s := newStore()
	f := &flaky{store: s}
	load := func(rt xdsresource.ResourceType, res *anypb.Any) {
		one := []*anypb.Any{res}
		switch rt {
		case LT:
			m, err := xdsresource.UnmarshalLDS(one)
			for n, r := range m {
				if err == nil {
					s.put(rt, n, r)
				}
			}
		default:
			f := map[xdsresource.ResourceType]func([]*anypb.Any) (map[string]xdsresource.Resource, error){
				RT: xdsresource.UnmarshalRDS, CT: xdsresource.UnmarshalCDS, ET: xdsresource.UnmarshalEDS}[rt]
			m, err := f(one)
			for n, r := range m {
				if err == nil {
					s.put(rt, n, r)
				}
			}
		}
	}
	grpc := vsym.Choose("grpc", 2) == 1
	if vsym.Choose("side", 2) == 0 {
		l, _ := g.listener("svc", vsym.Choose("filter", 3))
		load(LT, g.pack(urls[LT], l))
		for _, n := range []string{"r", "s", "rc"} {
			load(RT, g.pack(urls[RT], g.table(n)))
			if vsym.Param("tables", 1) == 1 {
				break
			}
		}
	} else {
		s.load(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "svc", FilterChains: []*v3listener.FilterChain{chain(nil, hcmAny("rc"))}}))
		load(RT, g.pack(urls[RT], g.table("rc")))
		load(CT, g.pack(urls[CT], g.cluster("c")))
		for _, n := range []string{"c", "s"} {
			load(ET, g.pack(urls[ET], &v3endpoint.ClusterLoadAssignment{ClusterName: n, Endpoints: g.localities()}))
		}
	}
	f.fail = []bool{vsym.Choose("fail-0", 2) == 1, vsym.Choose("fail-1", 2) == 1}
	p := newPipeline(f)
	c := rpc{dest: "svc", svc: "S", method: "m", grpc: grpc}
	ri := c.info()
	ctx := rpcinfo.NewCtxWithRPCInfo(bg, ri)
	if vsym.Choose("key-first", 2) == 1 {
		p.key(ctx, ri)
	}
	err := p.mw(ctx, nil, nil)
	vsym.Assert(p.nexts == 1 && err == nil || p.nexts == 0 && err != nil && errors.Is(err, kerrors.ErrRoute), "passed on once, or refused with a routing error")
	r := xdssuite.NewXDSResolver()
	res, err := r.Resolve(ctx, r.Target(ctx, ri.To()))
	vsym.Assert(err != nil || len(res.Instances) > 0, "instances or an error")
	_, err = r.Resolve(ctx, "c")
	_ = err
	vsym.Cover("end")
}

// C15_Withheld: the real manager against a control plane that withholds any
// of the resources, or supplies them empty.
func C15_Withheld() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	up := [4]int{vsym.Choose("listener", 3), vsym.Choose("table", 3), vsym.Choose("cluster", 3), vsym.Choose("endpoints", 3)}
	const (
		withheld = iota
		empty
		full
	)
	to := vsym.Int("timeout", 0, 1000)
	answered := map[string]bool{}
	srv.OnReq = func(st *Stream, r *Req) {
		if r.Nonce != "" && !(len(r.Names) > 0) || len(r.Names) == 0 {
			return
		}
		if answered[r.URL] {
			return
		}
		for i, rt := range []xdsresource.ResourceType{LT, RT, CT, ET} {
			if r.URL != urls[rt] || up[i] == withheld {
				continue
			}
			answered[r.URL] = true
			var res *anypb.Any
			switch rt {
			case LT:
				l := &v3listener.Listener{Name: "svc"}
				if up[i] == full {
					l.FilterChains = []*v3listener.FilterChain{chain(nil, hcmAny("rc"))}
				}
				res = vsym.Pack(urls[LT], l)
			case RT:
				t := &v3route.RouteConfiguration{Name: "rc"}
				if up[i] == full {
					t.VirtualHosts = []*v3route.VirtualHost{{Name: "vh", Routes: []*v3route.Route{routeTo("m", []uint32{0}, &durationpb.Duration{Seconds: int64(to)})}}}
				}
				res = vsym.Pack(urls[RT], t)
			case CT:
				res = Marked(CT, clusterName(0), 1)
				if up[i] == empty {
					st.Push(srv.Resp(CT))
					return
				}
			case ET:
				a := &v3endpoint.ClusterLoadAssignment{ClusterName: clusterName(0)}
				if up[i] == full {
					a.Endpoints = []*v3endpoint.LocalityLbEndpoints{{LbEndpoints: []*v3endpoint.LbEndpoint{endpoint("10.0.0.1", 80, 1)}}}
				}
				res = vsym.Pack(urls[ET], a)
			}
			st.Push(srv.Resp(rt, res))
		}
	}
	p := newPipeline(m)
	c := rpc{dest: "svc", svc: "S", method: "m"}
	ri := c.info()
	ctx := rpcinfo.NewCtxWithRPCInfo(bg, ri)
	if vsym.Choose("key-first", 2) == 1 {
		p.key(ctx, ri)
	}
	err := p.mw(ctx, nil, nil)
	if up[0] != full || up[1] != full {
		vsym.Assert(err != nil && errors.Is(err, kerrors.ErrRoute) && p.nexts == 0, "a call that cannot be routed fails with a routing error")
		vsym.Cover("end")
		return
	}
	vsym.Assert(err == nil && p.nexts == 1 && p.seen == clusterName(0) && p.limit == time.Duration(to)*time.Second, "a routed call is passed on once")
	r := xdssuite.NewXDSResolver()
	res, err := r.Resolve(ctx, r.Target(ctx, ri.To()))
	if up[2] == full && up[3] == full {
		vsym.Assert(err == nil && len(res.Instances) == 1, "the endpoints are resolved")
		vsym.Cover("resolved")
	} else {
		vsym.Assert(err != nil && len(res.Instances) == 0, "no endpoints is an error")
	}
	vsym.Cover("end")
}
