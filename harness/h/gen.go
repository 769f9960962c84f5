package h

import (
	"time"

	udpa "github.com/cncf/xds/go/udpa/type/v1"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	ratelimit "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	v3type "github.com/envoyproxy/go-control-plane/envoy/type/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	nds "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// gen builds message trees. The default tree sets every field the decoders
// read; up to left places deviate from it (a field absent, another oneof
// alternative, another length). Leaf values are symbolic everywhere.
type gen struct {
	left int
	raw  bool // also build what is not valid
	in   map[*anypb.Any]proto.Message
	bad  bool // something built is not valid
	odd  bool // whether it is valid is not specified
}

func newGen(left int) *gen { return &gen{left: left, in: map[*anypb.Any]proto.Message{}} }

// alt picks one of n alternatives; the first is the default.
func (g *gen) alt(name string, n int) int {
	if g.left == 0 {
		return 0
	}
	c := vsym.Choose(name, n)
	if c != 0 {
		g.left--
	}
	return c
}

func (g *gen) has(name string) bool { return g.alt(name, 2) == 0 }

// count is a length: def unless it deviates to any other up to max.
func (g *gen) count(name string, def, max int) int {
	c := g.alt(name, max+1)
	if c == 0 {
		return def
	}
	if c <= def {
		return c - 1
	}
	return c
}

func (g *gen) u32(name string) *wrapperspb.UInt32Value {
	if !g.has(name + "?") {
		return nil
	}
	return u32(vsym.U32(name))
}

func (g *gen) dur(name string) *durationpb.Duration {
	if !g.has(name + "?") {
		return nil
	}
	d := &durationpb.Duration{Seconds: int64(vsym.Int(name+"-s", 0, 999999)), Nanos: int32(vsym.Int(name+"-ns", 0, 999999999))}
	return d
}

func duration(d *durationpb.Duration) time.Duration {
	if d == nil {
		return 0
	}
	return time.Duration(d.Seconds)*time.Second + time.Duration(d.Nanos)
}

func (g *gen) pack(url string, m proto.Message) *anypb.Any {
	a := vsym.Pack(url, m)
	g.in[a] = m
	return a
}

func (g *gen) corrupt(url string) *anypb.Any {
	g.bad = true
	return vsym.Corrupt(url)
}

func (g *gen) header(i int) *v3route.HeaderMatcher {
	h := &v3route.HeaderMatcher{Name: "K1"}
	if !g.has("key-1") {
		h.Name = "K2"
	}
	v := vsym.Str("cond", 0, 1, "")
	sm := &v3matcher.StringMatcher{}
	k := i
	if !g.has("cond-default") {
		k = vsym.Choose("cond-kind", 3)
	}
	switch k % 3 {
	case 0:
		sm.MatchPattern = &v3matcher.StringMatcher_Exact{Exact: v}
	case 1:
		sm.MatchPattern = &v3matcher.StringMatcher_Prefix{Prefix: v}
	case 2:
		sm.MatchPattern = &v3matcher.StringMatcher_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: regs[vsym.Choose("regex", 2)].pattern}}
	}
	h.HeaderMatchSpecifier = &v3route.HeaderMatcher_StringMatch{StringMatch: sm}
	if g.raw {
		switch g.alt("hollow-header", 8) {
		case 6, 7:
			// not regular expressions
			h.HeaderMatchSpecifier = &v3route.HeaderMatcher_StringMatch{StringMatch: &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: []string{"a(", "[b-"}[vsym.Choose("not-regex", 2)]}}}}
			g.odd = true
		case 1:
			h.HeaderMatchSpecifier = nil
		case 2:
			h.HeaderMatchSpecifier = &v3route.HeaderMatcher_StringMatch{StringMatch: &v3matcher.StringMatcher{}}
		case 3:
			h.HeaderMatchSpecifier = &v3route.HeaderMatcher_StringMatch{StringMatch: &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{}}}}
		case 4:
			h.HeaderMatchSpecifier = &v3route.HeaderMatcher_PresentMatch{PresentMatch: true}
		case 5:
			h.HeaderMatchSpecifier = &v3route.HeaderMatcher_StringMatch{StringMatch: &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Suffix{Suffix: "x"}}}
		}
	}
	return h
}

func (g *gen) headers() (l []*v3route.HeaderMatcher) {
	n := g.count("headers", 1, 2)
	for i := 0; i < n; i++ {
		l = append(l, g.header(i))
	}
	return
}

func (g *gen) route() *v3route.Route {
	r := &v3route.Route{Name: "r"}
	if !g.raw || g.has("match") {
		m := &v3route.RouteMatch{}
		switch g.alt("path", 5) {
		case 0:
			m.PathSpecifier = &v3route.RouteMatch_Path{Path: "/" + vsym.Str("path", 1, 2, "")}
		case 1:
			m.PathSpecifier = &v3route.RouteMatch_Prefix{Prefix: "/"}
		case 2:
			m.PathSpecifier = &v3route.RouteMatch_Prefix{Prefix: "/zz"}
		case 3:
			m.PathSpecifier = &v3route.RouteMatch_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: "/zz.*"}}
		}
		m.Headers = g.headers()
		r.Match = m
	} else {
		g.bad = true
	}
	acts := 1
	if g.raw {
		acts = 4
	}
	switch g.alt("action", acts) {
	case 0:
		r.Action = &v3route.Route_Route{Route: g.action()}
	case 1:
		g.bad = true
	case 2:
		r.Action = &v3route.Route_Redirect{Redirect: &v3route.RedirectAction{}}
	case 3:
		r.Action = &v3route.Route_DirectResponse{DirectResponse: &v3route.DirectResponseAction{}}
	}
	return r
}

func (g *gen) action() *v3route.RouteAction {
	a := &v3route.RouteAction{}
	kinds := 2
	if g.raw {
		kinds = 5
	}
	switch g.alt("clusters", kinds) {
	case 0:
		wc := &v3route.WeightedCluster{}
		n := g.count("cluster-count", 2, 3)
		for i := 0; i < n; i++ {
			wc.Clusters = append(wc.Clusters, &v3route.WeightedCluster_ClusterWeight{Name: vsym.Str("cluster", 1, 1, ""), Weight: g.u32("weight")})
		}
		a.ClusterSpecifier = &v3route.RouteAction_WeightedClusters{WeightedClusters: wc}
	case 1:
		a.ClusterSpecifier = &v3route.RouteAction_Cluster{Cluster: vsym.Str("cluster", 1, 1, "")}
	case 2:
	case 3:
		a.ClusterSpecifier = &v3route.RouteAction_ClusterHeader{ClusterHeader: "h"}
	case 4:
		a.ClusterSpecifier = &v3route.RouteAction_WeightedClusters{WeightedClusters: &v3route.WeightedCluster{}}
	}
	a.Timeout = g.dur("timeout")
	if g.has("retry-policy") {
		p := &v3route.RetryPolicy{RetryOn: vsym.Str("retry-on", 0, 1, ""), NumRetries: g.u32("attempts"), PerTryTimeout: g.dur("per-try"), PerTryIdleTimeout: g.dur("per-try-idle")}
		switch g.alt("error-rate", 3) {
		case 0:
			p.RetriableHeaders = append(p.RetriableHeaders, &v3route.HeaderMatcher{Name: "kitexRetryErrorRate", HeaderMatchSpecifier: exact("0.25")})
		case 1:
			p.RetriableHeaders = append(p.RetriableHeaders, &v3route.HeaderMatcher{Name: "kitexRetryErrorRate", HeaderMatchSpecifier: exact("x")})
		}
		switch g.alt("methods", 3) {
		case 0:
			p.RetriableHeaders = append(p.RetriableHeaders, &v3route.HeaderMatcher{Name: "kitexRetryMethods", HeaderMatchSpecifier: exact("m1,m2")})
		case 1:
			p.RetriableHeaders = append([]*v3route.HeaderMatcher{{Name: "kitexRetryMethods", HeaderMatchSpecifier: exact("m3")}}, p.RetriableHeaders...)
		}
		// headers that are none of this client's extensions
		switch g.alt("other-retriable", 5) {
		case 1:
			p.RetriableHeaders = append([]*v3route.HeaderMatcher{{Name: "x-1", HeaderMatchSpecifier: &v3route.HeaderMatcher_PresentMatch{PresentMatch: true}}}, p.RetriableHeaders...)
		case 2:
			p.RetriableHeaders = append([]*v3route.HeaderMatcher{{Name: "x-1", HeaderMatchSpecifier: exact("9")}}, p.RetriableHeaders...)
		case 3:
			p.RetriableHeaders = append([]*v3route.HeaderMatcher{{Name: "x-1", HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{StringMatch: &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Prefix{Prefix: "p"}}}}}, p.RetriableHeaders...)
		case 4:
			p.RetriableHeaders = append([]*v3route.HeaderMatcher{{Name: "x-1"}}, p.RetriableHeaders...)
		}
		if g.raw {
			switch g.alt("retriable", 4) {
			case 1:
				p.RetriableHeaders = append(p.RetriableHeaders, &v3route.HeaderMatcher{Name: "kitexRetryMethods"})
			case 2:
				p.RetriableHeaders = append(p.RetriableHeaders, &v3route.HeaderMatcher{Name: "kitexRetryErrorRate", HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{StringMatch: &v3matcher.StringMatcher{}}})
			case 3:
				p.RetriableHeaders = append(p.RetriableHeaders, &v3route.HeaderMatcher{Name: "kitexRetryErrorRate", HeaderMatchSpecifier: exact("")})
			}
		}
		if g.has("backoff") {
			p.RetryBackOff = &v3route.RetryPolicy_RetryBackOff{BaseInterval: g.dur("base"), MaxInterval: g.dur("max")}
		}
		a.RetryPolicy = p
	}
	return a
}

func (g *gen) table(name string) *v3route.RouteConfiguration {
	rc := &v3route.RouteConfiguration{Name: name}
	n := g.count("hosts", 1, 2)
	for i := 0; i < n; i++ {
		vh := &v3route.VirtualHost{Name: vsym.Str("host", 0, 1, "")}
		k := g.count("routes", 1, 2)
		for j := 0; j < k; j++ {
			vh.Routes = append(vh.Routes, g.route())
		}
		rc.VirtualHosts = append(rc.VirtualHosts, vh)
	}
	return rc
}

func (g *gen) thriftRoute() *v3thrift.Route {
	r := &v3thrift.Route{}
	if !g.raw || g.has("thrift-match") {
		m := &v3thrift.RouteMatch{}
		n := 2
		if g.raw {
			n = 3
		}
		switch g.alt("thrift-method", n) {
		case 0:
			m.MatchSpecifier = &v3thrift.RouteMatch_MethodName{MethodName: vsym.Str("thrift-method", 1, 2, "")}
		case 2:
			m.MatchSpecifier = &v3thrift.RouteMatch_ServiceName{ServiceName: "s"}
		}
		m.Headers = g.headers()
		r.Match = m
	} else {
		g.bad = true
	}
	if g.raw && !g.has("thrift-action") {
		g.bad = true
		return r
	}
	a := &v3thrift.RouteAction{}
	kinds := 2
	if g.raw {
		kinds = 5
	}
	switch g.alt("thrift-clusters", kinds) {
	case 0:
		wc := &v3thrift.WeightedCluster{}
		n := g.count("cluster-count", 2, 3)
		for i := 0; i < n; i++ {
			wc.Clusters = append(wc.Clusters, &v3thrift.WeightedCluster_ClusterWeight{Name: vsym.Str("cluster", 1, 1, ""), Weight: g.u32("weight")})
		}
		a.ClusterSpecifier = &v3thrift.RouteAction_WeightedClusters{WeightedClusters: wc}
	case 1:
		a.ClusterSpecifier = &v3thrift.RouteAction_Cluster{Cluster: vsym.Str("cluster", 1, 1, "")}
	case 2:
	case 3:
		a.ClusterSpecifier = &v3thrift.RouteAction_ClusterHeader{ClusterHeader: "h"}
	case 4:
		a.ClusterSpecifier = &v3thrift.RouteAction_WeightedClusters{WeightedClusters: &v3thrift.WeightedCluster{}}
	}
	r.Route = a
	return r
}

// bucket is the local rate limit of an HTTP filter chain, if any.
type bucket struct{ max, fill uint32 }

// httpFilters builds the HTTP filters; at most one of them carries a bucket.
func (g *gen) httpFilters() (l []*v3hcm.HttpFilter, b bucket) {
	pos, n := 0, 1
	switch g.alt("filters", 7) {
	case 1:
		return nil, b
	case 2:
		pos, n = -1, 2
	case 3:
		n = 2
	case 4:
		pos, n = 1, 2
	case 5:
		pos, n = 1, 3
	case 6:
		pos, n = 2, 3
	}
	for i := 0; i < n; i++ {
		if i != pos {
			l = append(l, g.otherFilter())
			continue
		}
		f := &v3hcm.HttpFilter{Name: "rl"}
		b = bucket{vsym.U32("max-tokens"), vsym.U32("per-fill")}
		if g.has("local-rate-limit") {
			f.ConfigType = &v3hcm.HttpFilter_TypedConfig{TypedConfig: g.pack(rlURL, &ratelimit.LocalRateLimit{TokenBucket: &v3type.TokenBucket{MaxTokens: b.max, TokensPerFill: u32(b.fill)}})}
		} else {
			st := fields("token_bucket", fieldsV(map[string]*structpb.Value{"max_tokens": num(b.max), "tokens_per_fill": num(b.fill)}))
			f.ConfigType = &v3hcm.HttpFilter_TypedConfig{TypedConfig: g.pack(tsURL, &udpa.TypedStruct{TypeUrl: rlURL, Value: st})}
		}
		l = append(l, f)
	}
	return
}

func num(v uint32) *structpb.Value {
	return &structpb.Value{Kind: &structpb.Value_NumberValue{NumberValue: float64(v)}}
}

func fields(k string, v *structpb.Value) *structpb.Struct {
	return &structpb.Struct{Fields: map[string]*structpb.Value{k: v}}
}

func fieldsV(m map[string]*structpb.Value) *structpb.Value {
	return &structpb.Value{Kind: &structpb.Value_StructValue{StructValue: &structpb.Struct{Fields: m}}}
}

// otherFilter is an HTTP filter without a bucket.
func (g *gen) otherFilter() *v3hcm.HttpFilter {
	n := 6
	if g.raw {
		n = 11
	}
	ty := func(a *anypb.Any) *v3hcm.HttpFilter {
		return &v3hcm.HttpFilter{Name: "o", ConfigType: &v3hcm.HttpFilter_TypedConfig{TypedConfig: a}}
	}
	ts := func(s *structpb.Struct) *v3hcm.HttpFilter {
		return ty(g.pack(tsURL, &udpa.TypedStruct{TypeUrl: rlURL, Value: s}))
	}
	switch g.alt("other-filter", n) {
	case 1:
		return ty(g.pack(rlURL, &ratelimit.LocalRateLimit{StatPrefix: "x"}))
	case 2:
		return ts(fields("other", num(3)))
	case 3:
		return ts(nil)
	case 4:
		return &v3hcm.HttpFilter{Name: "o"}
	case 5:
		return &v3hcm.HttpFilter{Name: "o", ConfigType: &v3hcm.HttpFilter_ConfigDiscovery{ConfigDiscovery: &v3core.ExtensionConfigSource{}}}
	case 6:
		return ty(nil)
	case 7:
		return ts(fields("token_bucket", num(3)))
	case 8:
		return ts(fields("token_bucket", fieldsV(map[string]*structpb.Value{"max_tokens": num(3)})))
	case 9:
		return ts(fields("token_bucket", &structpb.Value{}))
	case 10:
		g.odd = true
		return ty(vsym.Corrupt(rlURL))
	}
	return otherFilter("router")
}

// netFilter is what a network filter means.
type netFilter struct {
	thrift  []*v3thrift.Route
	isThr   bool
	named   string
	inline  *v3route.RouteConfiguration
	bucket  bucket
	port    uint32
	ignored bool
}

func (g *gen) filter(port uint32, def int) (*v3listener.Filter, netFilter) {
	w := netFilter{port: port}
	n := 6
	if g.raw {
		n = 10
	}
	k := g.alt("filter", n)
	if k == 0 {
		k = def
	} else if k <= def {
		k--
	}
	switch k {
	case 0: // named table
		hcm := &v3hcm.HttpConnectionManager{}
		hcm.HttpFilters, w.bucket = g.httpFilters()
		w.named = vsym.Str("table", 1, 2, "")
		hcm.RouteSpecifier = &v3hcm.HttpConnectionManager_Rds{Rds: &v3hcm.Rds{RouteConfigName: w.named}}
		return listenerFilter(g.pack(hcmURL, hcm)), w
	case 1: // inline table
		hcm := &v3hcm.HttpConnectionManager{}
		hcm.HttpFilters, w.bucket = g.httpFilters()
		w.inline = g.table("in")
		hcm.RouteSpecifier = &v3hcm.HttpConnectionManager_RouteConfig{RouteConfig: w.inline}
		return listenerFilter(g.pack(hcmURL, hcm)), w
	case 2: // thrift
		w.isThr = true
		tp := &v3thrift.ThriftProxy{RouteConfig: &v3thrift.RouteConfiguration{Name: "t"}}
		m := g.count("thrift-routes", 1, 2)
		for i := 0; i < m; i++ {
			tp.RouteConfig.Routes = append(tp.RouteConfig.Routes, g.thriftRoute())
		}
		w.thrift = tp.RouteConfig.Routes
		return listenerFilter(g.pack(thriftURL, tp)), w
	case 3:
		w.ignored = true
		return listenerFilter(&anypb.Any{TypeUrl: "type.googleapis.com/envoy.extensions.filters.network.tcp_proxy.v3.TcpProxy"}), w
	case 4:
		w.ignored = true
		return &v3listener.Filter{Name: "f"}, w
	case 5:
		w.ignored = true
		return &v3listener.Filter{Name: "f", ConfigType: &v3listener.Filter_ConfigDiscovery{ConfigDiscovery: &v3core.ExtensionConfigSource{}}}, w
	case 6:
		return listenerFilter(g.corrupt([]string{hcmURL, thriftURL}[vsym.Choose("corrupt", 2)])), w
	case 7:
		return listenerFilter(nil), w
	case 8: // no route table at all
		return listenerFilter(g.pack(hcmURL, &v3hcm.HttpConnectionManager{RouteSpecifier: []*v3hcm.HttpConnectionManager{{}, {RouteSpecifier: &v3hcm.HttpConnectionManager_ScopedRoutes{}}}[vsym.Choose("scoped", 2)].RouteSpecifier})), w
	}
	w.isThr = true
	return listenerFilter(g.pack(thriftURL, &v3thrift.ThriftProxy{})), w
}

func (g *gen) chain(def int) (*v3listener.FilterChain, []netFilter) {
	fc := &v3listener.FilterChain{}
	var port uint32
	switch g.alt("chain-match", 3) {
	case 0:
		port = vsym.U32("port")
		fc.FilterChainMatch = &v3listener.FilterChainMatch{DestinationPort: u32(port)}
	case 1:
		fc.FilterChainMatch = &v3listener.FilterChainMatch{}
	}
	n := g.count("chain-filters", 1, 2)
	var ws []netFilter
	for i := 0; i < n; i++ {
		f, w := g.filter(port, def)
		fc.Filters = append(fc.Filters, f)
		if !w.ignored {
			ws = append(ws, w)
		}
	}
	return fc, ws
}

// listener builds a listener; want is what its chains mean, in order.
func (g *gen) listener(name string, def int) (*v3listener.Listener, []netFilter) {
	l := &v3listener.Listener{Name: name}
	var want []netFilter
	n := g.count("chains", 1, 2)
	for i := 0; i < n; i++ {
		fc, w := g.chain(def)
		l.FilterChains = append(l.FilterChains, fc)
		want = append(want, w...)
	}
	if !g.has("no-default-chain") {
		fc, w := g.chain(def)
		l.DefaultFilterChain = fc
		want = append(want, w...)
	}
	return l, want
}

func (g *gen) localities() []*v3endpoint.LocalityLbEndpoints {
	var l []*v3endpoint.LocalityLbEndpoints
	n := g.count("localities", 1, 2)
	for i := 0; i < n; i++ {
		lo := &v3endpoint.LocalityLbEndpoints{}
		m := g.count("endpoints", 1, 2)
		for j := 0; j < m; j++ {
			addr := epAddrs[g.alt("address", len(epAddrs))]
			port := vsym.U32("port")
			vsym.Assume(port >= 1000 && port <= 9999)
			e := endpoint(addr, port, 0)
			e.LoadBalancingWeight = g.u32("weight")
			if g.raw {
				a := e.GetEndpoint()
				switch g.alt("hollow-endpoint", 7) {
				case 1:
					e.HostIdentifier = nil
				case 2:
					e.HostIdentifier = &v3endpoint.LbEndpoint_EndpointName{EndpointName: "e"}
				case 3:
					a.Address = nil
				case 4:
					a.Address = &v3core.Address{}
				case 5:
					a.Address = &v3core.Address{Address: &v3core.Address_Pipe{Pipe: &v3core.Pipe{Path: "/x"}}}
				case 6:
					a.Address = &v3core.Address{Address: &v3core.Address_SocketAddress{SocketAddress: &v3core.SocketAddress{Address: "h", PortSpecifier: &v3core.SocketAddress_NamedPort{NamedPort: "p"}}}}
				}
			}
			lo.LbEndpoints = append(lo.LbEndpoints, e)
		}
		l = append(l, lo)
	}
	return l
}

func (g *gen) cluster(name string) *v3cluster.Cluster {
	c := &v3cluster.Cluster{Name: name}
	n := 4
	if g.raw {
		n = 6
	}
	switch g.alt("type", n) {
	case 0:
		c.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS}
	case 1:
		c.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_STATIC}
	case 2:
		c.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_LOGICAL_DNS}
	case 3:
		c.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS}
		c.LbPolicy = v3cluster.Cluster_RING_HASH
	case 4:
		c.ClusterDiscoveryType = &v3cluster.Cluster_ClusterType{ClusterType: &v3cluster.Cluster_CustomClusterType{}}
	case 5:
		c.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_DiscoveryType(vsym.I32("type"))}
		c.LbPolicy = v3cluster.Cluster_LbPolicy(vsym.I32("policy"))
	}
	switch g.alt("eds-config", 3) {
	case 0:
		c.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{ServiceName: vsym.Str("service", 1, 1, "")}
	case 1:
		c.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{}
	}
	if g.has("outlier") {
		c.OutlierDetection = &v3cluster.OutlierDetection{FailurePercentageThreshold: g.u32("threshold"), FailurePercentageRequestVolume: g.u32("volume"),
			EnforcingFailurePercentage: u32(100), SuccessRateRequestVolume: u32(7), FailurePercentageMinimumHosts: u32(8)}
	}
	if g.has("inline") {
		c.LoadAssignment = &v3endpoint.ClusterLoadAssignment{ClusterName: name, Endpoints: g.localities()}
	}
	return c
}

func (g *gen) nameTable() *nds.NameTable {
	t := &nds.NameTable{Table: map[string]*nds.NameTable_NameInfo{}}
	n := g.count("hosts", 2, 3)
	for i := 0; i < n; i++ {
		ni := &nds.NameTable_NameInfo{Registry: "Kubernetes", Shortname: "x", Namespace: "y"}
		k := g.count("ips", 2, 3)
		for j := 0; j < k; j++ {
			ni.Ips = append(ni.Ips, vsym.Str("ip", 1, 2, ""))
		}
		h := vsym.Str("host", 1, 1, "abcd")
		for o := range t.Table {
			vsym.Assume(o != h)
		}
		t.Table[h] = ni
	}
	return t
}
