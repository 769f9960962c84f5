package h

import (
	"time"

	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/utils"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"

	"github.com/kitex-contrib/xds/xdssuite"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// rpolicy is the retry policy of a route.
type rpolicy struct {
	none     bool // no policy on the route
	attempts uint32
	secs, ms int // per-try timeout
	rate     string
	methods  []string
	backoff  int // 0: none, 1: base only, 2: base and maximum
	baseMS   int
	maxMS    int
}

func dur(secs, ms int) *durationpb.Duration {
	return &durationpb.Duration{Seconds: int64(secs), Nanos: int32(ms * 1000000)}
}

func (p rpolicy) proto() *v3route.RetryPolicy {
	if p.none {
		return nil
	}
	r := &v3route.RetryPolicy{RetryOn: "5xx", NumRetries: u32(p.attempts), PerTryTimeout: dur(p.secs, p.ms)}
	if p.rate != "" {
		r.RetriableHeaders = append(r.RetriableHeaders, &v3route.HeaderMatcher{Name: "kitexRetryErrorRate", HeaderMatchSpecifier: exact(p.rate)})
	}
	if len(p.methods) > 0 {
		l := p.methods[0]
		for _, m := range p.methods[1:] {
			l += "," + m
		}
		r.RetriableHeaders = append(r.RetriableHeaders, &v3route.HeaderMatcher{Name: "kitexRetryMethods", HeaderMatchSpecifier: exact(l)})
	}
	switch p.backoff {
	case 1:
		r.RetryBackOff = &v3route.RetryPolicy_RetryBackOff{BaseInterval: dur(0, p.baseMS)}
	case 2:
		r.RetryBackOff = &v3route.RetryPolicy_RetryBackOff{BaseInterval: dur(0, p.baseMS), MaxInterval: dur(0, p.maxMS)}
	}
	return r
}

// kitex is the policy as it has to be installed.
func (p rpolicy) kitex() retry.Policy {
	f := &retry.FailurePolicy{}
	f.StopPolicy.MaxRetryTimes = int(p.attempts)
	f.StopPolicy.MaxDurationMS = p.attempts * uint32(p.secs*1000+p.ms)
	switch p.rate {
	case "0.1":
		f.StopPolicy.CBPolicy.ErrorRate = 0.1
	case "0.25":
		f.StopPolicy.CBPolicy.ErrorRate = 0.25
	}
	b := &retry.BackOffPolicy{BackOffType: retry.NoneBackOffType}
	if !p.none && p.backoff > 0 {
		if p.backoff == 2 && p.maxMS > p.baseMS {
			b.BackOffType = retry.RandomBackOffType
			b.CfgItems = map[retry.BackOffCfgKey]float64{retry.MinMSBackOffCfgKey: float64(p.baseMS), retry.MaxMSBackOffCfgKey: float64(p.maxMS)}
		} else {
			b.BackOffType = retry.FixedBackOffType
			b.CfgItems = map[retry.BackOffCfgKey]float64{retry.FixMSBackOffCfgKey: float64(p.baseMS)}
		}
	}
	f.BackOffPolicy = b
	return retry.Policy{Enable: true, Type: retry.FailureType, FailurePolicy: f}
}

// rroute is a route of a table.
type rroute struct {
	clusters []string
	p        rpolicy
}

type rtable []rroute

func (t rtable) any(name string) *anypb.Any {
	var rs []*v3route.Route
	for _, r := range t {
		a := &v3route.RouteAction{RetryPolicy: r.p.proto()}
		if len(r.clusters) == 1 {
			a.ClusterSpecifier = &v3route.RouteAction_Cluster{Cluster: r.clusters[0]}
		} else {
			var l []*v3route.WeightedCluster_ClusterWeight
			for _, c := range r.clusters {
				l = append(l, &v3route.WeightedCluster_ClusterWeight{Name: c, Weight: u32(1)})
			}
			a.ClusterSpecifier = &v3route.RouteAction_WeightedClusters{WeightedClusters: &v3route.WeightedCluster{Clusters: l}}
		}
		rs = append(rs, &v3route.Route{Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}}, Action: &v3route.Route_Route{Route: a}})
	}
	rc := &v3route.RouteConfiguration{Name: name}
	if len(rs) > 0 {
		rc.VirtualHosts = []*v3route.VirtualHost{{Name: "vh", Routes: rs}}
	}
	return vsym.Pack(urls[RT], rc)
}

// policies are the ones the tables call for.
func policies(cached map[string]rtable) map[string]retry.Policy {
	r := map[string]retry.Policy{}
	for _, t := range cached {
		for _, rt := range t {
			for _, c := range rt.clusters {
				r[c] = rt.p.kitex()
				for _, m := range rt.p.methods {
					if !rt.p.none {
						r[c+"|"+m] = rt.p.kitex()
					}
				}
			}
		}
	}
	return r
}

func newRetry(byMethod bool) *retry.Container {
	var co client.Options
	xdssuite.NewRetryPolicy(xdssuite.WithMatchRetryMethod(byMethod)).F(&co, &utils.Slice{})
	return co.RetryContainer
}

// checkPolicies: the container holds what a fresh one loaded with the
// expected policies holds.
func checkPolicies(c *retry.Container, cached map[string]rtable) {
	want := policies(cached)
	fresh := retry.NewRetryContainer()
	for k, p := range want {
		fresh.NotifyPolicyChange(k, p)
	}
	gd, wd := c.Dump().(map[string]interface{}), fresh.Dump().(map[string]interface{})
	for k := range gd {
		if k == "msg" || k == "has_code_cfg" {
			continue
		}
		_, ok := wd[k]
		vsym.Assert(ok, "a policy no cached table calls for is installed")
	}
	for k := range want {
		x, ok := gd[k]
		vsym.Assert(ok, "a policy a cached table calls for is not installed")
		g, w := x.(map[string]interface{}), wd[k].(map[string]interface{})
		vsym.Assert(g["enable"].(bool) && w["enable"].(bool), "the policy is enabled")
		_, bad := g["err_msg"]
		_, wbad := w["err_msg"]
		vsym.Assert(!bad && !wbad, "the policy is accepted")
		gf, wf := g["failure_retry"].(*retry.FailurePolicy), w["failure_retry"].(*retry.FailurePolicy)
		vsym.Assert(gf.StopPolicy.MaxRetryTimes == wf.StopPolicy.MaxRetryTimes, "the attempts are the configured ones")
		vsym.Assert(gf.StopPolicy.MaxDurationMS == wf.StopPolicy.MaxDurationMS, "the total duration is attempts times per-try timeout")
		vsym.Assert(gf.StopPolicy.CBPolicy.ErrorRate == wf.StopPolicy.CBPolicy.ErrorRate, "the error-rate ceiling is the configured one")
		vsym.Assert(gf.StopPolicy.DDLStop == wf.StopPolicy.DDLStop && gf.StopPolicy.DisableChainStop == wf.StopPolicy.DisableChainStop && gf.RetrySameNode == wf.RetrySameNode, "nothing else is configured")
		gb, wb := gf.BackOffPolicy, wf.BackOffPolicy
		vsym.Assert(gb != nil && gb.BackOffType == wb.BackOffType, "the back-off is of the configured kind")
		vsym.Assert(len(gb.CfgItems) == len(wb.CfgItems), "the back-off has the configured intervals")
		for i, v := range wb.CfgItems {
			gv, ok := gb.CfgItems[i]
			vsym.Assert(ok && gv == v, "the back-off has the configured intervals")
		}
		vsym.Cover("policy")
	}
}

// symPolicy is any policy within what Kitex accepts.
func symPolicy() rpolicy {
	p := rpolicy{attempts: uint32(vsym.Int("attempts", 0, 5)), secs: vsym.Int("per-try", 0, 60), ms: vsym.Int("per-try-ms", 0, 999)}
	switch vsym.Choose("policy", 3) {
	case 0:
		return rpolicy{none: true}
	case 1:
		p.rate = "0.1"
	case 2:
		p.rate = []string{"", "0.25"}[vsym.Choose("rate", 2)]
	}
	p.methods = [][]string{nil, {"m1"}, {"m1", "m2"}}[vsym.Choose("methods", 3)]
	p.backoff = vsym.Choose("backoff", 3)
	p.baseMS = vsym.Int("base", 1, vsym.Param("maxms", 9))
	p.maxMS = vsym.Int("max", 1, vsym.Param("maxms", 9))
	return p
}

// C17_Fields: one table, every field of a policy, through the real decoder
// and manager; a replacement follows.
func C17_Fields() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	xdssuite.SetXDSResourceManager(m)
	subscribe(m, RT, "r")
	cached := map[string]rtable{}
	rc := newRetry(vsym.Choose("by-method", 2) == 1)
	for i := 0; i < vsym.Param("pushes", 2); i++ {
		t := rtable{{[]string{"a", "b"}[:1+vsym.Choose("clusters", 2)], symPolicy()}}
		srv.Last().Push(srv.Resp(RT, t.any("r")))
		cached["r"] = t
		vsym.Settle()
		checkPolicies(rc, cached)
	}
	vsym.Cover("end")
}

// pick is a small policy that tells updates apart.
func pick() rpolicy {
	p := rpolicy{attempts: uint32(vsym.Int("attempts", 0, 5)), secs: vsym.Int("per-try", 0, 60), ms: vsym.Int("per-try-ms", 0, 999), rate: "0.1"}
	if vsym.Choose("method", 2) == 1 {
		p.methods = []string{"m1"}
	}
	return p
}

// C17_History: full and partial pushes of several tables, replacement,
// renames, emptied tables, tables nobody asked for, rejected pushes.
func C17_History() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	xdssuite.SetXDSResourceManager(m)
	names := []string{"r", "s"}
	for _, n := range names {
		subscribe(m, RT, n)
	}
	cached := map[string]rtable{}
	rcs := []*retry.Container{newRetry(false)}
	n := vsym.Param("pushes", 3)
	late := vsym.Choose("late", n)
	for i := 0; i < n; i++ {
		if late == i && i > 0 {
			rcs = append(rcs, newRetry(true))
			checkPolicies(rcs[1], cached)
		}
		switch vsym.Choose("event", vsym.Param("events", 4)) {
		case 0:
			var res []*anypb.Any
			for _, name := range names {
				var t rtable
				switch vsym.Choose("table", 5) {
				case 0: // omitted from this update
					continue
				case 1: // emptied
				case 2:
					t = rtable{{[]string{"a"}, pick()}}
				case 3:
					t = rtable{{[]string{"b"}, pick()}}
				case 4:
					t = rtable{{[]string{"c", name + "1"}, pick()}, {[]string{name + "2"}, pick()}}
				}
				res = append(res, t.any(name))
				cached[name] = t
			}
			for _, x := range cached["r"] {
				for _, y := range cached["s"] {
					for _, c := range x.clusters {
						vsym.Assume(!has(y.clusters, c)) // which table wins is not specified
					}
				}
			}
			srv.Last().Push(srv.Resp(RT, res...))
		case 1: // a table that was not asked for
			srv.Last().Push(srv.Resp(RT, rtable{{[]string{"z"}, pick()}}.any("z")))
		case 2: // rejected
			srv.Last().Push(srv.Resp(RT, rtable{{[]string{"x"}, pick()}}.any("r"), vsym.Corrupt(urls[RT])))
		case 3:
			// inline tables are not named ones
			srv.Last().Break(errBroken)
			vsym.Settle()
			subscribe(m, LT, "l")
			rc := &v3route.RouteConfiguration{Name: "in", VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: []*v3route.Route{routeTo("m", []uint32{0}, nil)}}}}
			srv.Last().Push(srv.Resp(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "l", FilterChains: []*v3listener.FilterChain{chain(nil,
				vsym.Pack(hcmURL, &v3hcm.HttpConnectionManager{RouteSpecifier: &v3hcm.HttpConnectionManager_RouteConfig{RouteConfig: rc}}))}})))
		}
		vsym.Settle()
		for _, rc := range rcs {
			checkPolicies(rc, cached)
		}
	}
	vsym.Cover("end")
}

// C17_Evict: a table dropped from the cache takes its policies with it at
// the next update, and brings them back when it is fetched again.
func C17_Evict() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	xdssuite.SetXDSResourceManager(m)
	subscribe(m, RT, "r")
	subscribe(m, RT, "s")
	rc := newRetry(false)
	r, s := rtable{{[]string{"a"}, pick()}}, rtable{{[]string{"b"}, pick()}}
	srv.Last().Push(srv.Resp(RT, r.any("r"), s.any("s")))
	vsym.Settle()
	checkPolicies(rc, map[string]rtable{"r": r, "s": s})
	// r idles past the expiry, s does not
	for i := 0; i < 5; i++ {
		time.Sleep(14 * time.Second)
		lookup(m, bg, RT, "s")
	}
	s = rtable{{[]string{"b", "c"}[:1+vsym.Choose("clusters", 2)], pick()}}
	srv.Last().Push(srv.Resp(RT, s.any("s")))
	vsym.Settle()
	checkPolicies(rc, map[string]rtable{"s": s})
	subscribe(m, RT, "r")
	r = rtable{{[]string{"a"}, pick()}}
	if vsym.Choose("both", 2) == 1 {
		srv.Last().Push(srv.Resp(RT, r.any("r"), s.any("s")))
	} else {
		srv.Last().Push(srv.Resp(RT, r.any("r")))
	}
	vsym.Settle()
	checkPolicies(rc, map[string]rtable{"r": r, "s": s})
	vsym.Cover("end")
}
