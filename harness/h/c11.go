package h

import (
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// probe is what the matches of a decoded route are compared on.
type probe struct {
	path string
	md   map[string]string
}

func newProbe() probe {
	p := probe{path: "/" + vsym.Str("probe-path", 1, 2, ""), md: map[string]string{"K1": vsym.Str("probe-1", 0, 1, "")}}
	if vsym.Choose("probe-2", 2) == 1 {
		p.md["K2"] = vsym.Str("probe-2", 0, 1, "")
	}
	return p
}

func headersHold(hs []*v3route.HeaderMatcher, md map[string]string) bool {
	for _, h := range hs {
		v, ok := md[h.Name]
		if !ok {
			return false
		}
		switch m := h.GetStringMatch().GetMatchPattern().(type) {
		case *v3matcher.StringMatcher_Exact:
			if v != m.Exact {
				return false
			}
		case *v3matcher.StringMatcher_Prefix:
			if len(v) < len(m.Prefix) || v[:len(m.Prefix)] != m.Prefix {
				return false
			}
		case *v3matcher.StringMatcher_SafeRegex:
			for _, r := range regs {
				if r.pattern == m.SafeRegex.Regex && !r.match(v) {
					return false
				}
			}
		}
	}
	return true
}

func checkRoute(r *v3route.Route, d *xdsresource.Route, p probe) {
	vsym.Assert(d != nil && d.Match != nil, "every route is decoded")
	switch m := r.Match.PathSpecifier.(type) {
	case *v3route.RouteMatch_Path:
		vsym.Assert(d.Match.MatchPath(m.Path), "the path condition is preserved")
		vsym.Assert(d.Match.MatchPath(p.path) == (p.path == m.Path), "the path condition is preserved")
	case *v3route.RouteMatch_Prefix:
		vsym.Assert(d.Match.MatchPath(p.path) == (m.Prefix == "/"), "the path condition is preserved")
	default:
		vsym.Assert(!d.Match.MatchPath(p.path), "the path condition is preserved")
	}
	vsym.Assert(d.Match.MatchMeta(p.md) == headersHold(r.Match.Headers, p.md), "every header condition is preserved")
	a := r.GetRoute()
	switch cs := a.ClusterSpecifier.(type) {
	case *v3route.RouteAction_Cluster:
		vsym.Assert(len(d.WeightedClusters) == 1 && d.WeightedClusters[0].Name == cs.Cluster && d.WeightedClusters[0].Weight > 0, "the destination cluster is preserved")
	case *v3route.RouteAction_WeightedClusters:
		l := cs.WeightedClusters.Clusters
		vsym.Assert(len(d.WeightedClusters) == len(l), "the weighted clusters are preserved")
		for i := range l {
			vsym.Assert(d.WeightedClusters[i].Name == l[i].Name && d.WeightedClusters[i].Weight == l[i].Weight.GetValue(), "the weighted clusters are preserved")
		}
	}
	vsym.Assert(d.Timeout == duration(a.Timeout), "the timeout is preserved")
	q := d.RetryPolicy
	rp := a.RetryPolicy
	if rp == nil {
		vsym.Assert(q.NumRetries == 0 && q.PerTryTimeout == 0 && q.RetryBackOff == nil && len(q.Methods) == 0 && q.CBErrorRate == 0, "no retry policy")
		return
	}
	vsym.Cover("retry")
	vsym.Assert(q.RetryOn == rp.RetryOn, "retry-on is preserved")
	vsym.Assert(q.NumRetries == int(rp.NumRetries.GetValue()), "the attempts are preserved")
	vsym.Assert(q.PerTryTimeout == duration(rp.PerTryTimeout), "the per-try timeout is preserved")
	vsym.Assert(q.PerTryIdleTimeout == duration(rp.PerTryIdleTimeout), "the per-try idle timeout is preserved")
	rate := 0.0
	var methods []string
	for _, h := range rp.RetriableHeaders {
		switch h.GetStringMatch().GetExact() {
		case "0.25":
			rate = 0.25
		case "m1,m2":
			methods = []string{"m1", "m2"}
		case "m3":
			methods = []string{"m3"}
		}
	}
	vsym.Assert(q.CBErrorRate == rate, "the error rate is preserved")
	vsym.Assert(len(q.Methods) == len(methods), "the methods are preserved")
	for i := range methods {
		vsym.Assert(q.Methods[i] == methods[i], "the methods are preserved")
	}
	if rp.RetryBackOff == nil {
		vsym.Assert(q.RetryBackOff == nil, "no back-off")
	} else {
		vsym.Cover("backoff")
		vsym.Assert(q.RetryBackOff != nil, "the back-off is preserved")
		vsym.Assert(q.RetryBackOff.BaseInterval == duration(rp.RetryBackOff.BaseInterval), "the base interval is preserved")
		vsym.Assert(q.RetryBackOff.MaxInterval == duration(rp.RetryBackOff.MaxInterval), "the maximum interval is preserved")
	}
}

func checkTable(rc *v3route.RouteConfiguration, d *xdsresource.RouteConfigResource, p probe) {
	vsym.Assert(d != nil && d.HTTPRouteConfig != nil, "the route table is decoded")
	vsym.Assert(len(d.HTTPRouteConfig.VirtualHosts) == len(rc.VirtualHosts), "every virtual host, in order")
	for i, vh := range rc.VirtualHosts {
		dv := d.HTTPRouteConfig.VirtualHosts[i]
		vsym.Assert(dv.Name == vh.Name, "the virtual host's name is preserved")
		vsym.Assert(len(dv.Routes) == len(vh.Routes), "every route, in order")
		for j := range vh.Routes {
			checkRoute(vh.Routes[j], dv.Routes[j], p)
		}
	}
}

func checkThrift(rs []*v3thrift.Route, d *xdsresource.RouteConfigResource, p probe) {
	vsym.Assert(d != nil && d.ThriftRouteConfig != nil, "the Thrift routes are decoded")
	vsym.Assert(len(d.ThriftRouteConfig.Routes) == len(rs), "every Thrift route, in order")
	method := vsym.Str("probe-method", 1, 2, "")
	for i, r := range rs {
		dr := d.ThriftRouteConfig.Routes[i]
		if m, ok := r.Match.MatchSpecifier.(*v3thrift.RouteMatch_MethodName); ok {
			vsym.Assert(dr.Match.MatchPath(method) == (method == m.MethodName), "the method is preserved")
		} else {
			vsym.Assert(dr.Match.MatchPath(method), "a Thrift route without a method matches any")
		}
		vsym.Assert(dr.Match.MatchMeta(p.md) == headersHold(r.Match.Headers, p.md), "every header condition is preserved")
		switch cs := r.Route.ClusterSpecifier.(type) {
		case *v3thrift.RouteAction_Cluster:
			vsym.Assert(len(dr.WeightedClusters) == 1 && dr.WeightedClusters[0].Name == cs.Cluster && dr.WeightedClusters[0].Weight > 0, "the destination cluster is preserved")
		case *v3thrift.RouteAction_WeightedClusters:
			l := cs.WeightedClusters.Clusters
			vsym.Assert(len(dr.WeightedClusters) == len(l), "the weighted clusters are preserved")
			for j := range l {
				vsym.Assert(dr.WeightedClusters[j].Name == l[j].Name && dr.WeightedClusters[j].Weight == l[j].Weight.GetValue(), "the weighted clusters are preserved")
			}
		}
	}
	vsym.Cover("thrift")
}

// C11_Route: route tables.
func C11_Route() {
	g := newGen(vsym.Param("deviations", 2))
	p := newProbe()
	n := g.count("tables", 1, 2)
	var l []*v3route.RouteConfiguration
	var res []*anypb.Any
	for i := 0; i < n; i++ {
		l = append(l, g.table([]string{"t", "u"}[i]))
		res = append(res, g.pack(urls[RT], l[i]))
	}
	got, err := xdsresource.UnmarshalRDS(res)
	vsym.Assert(err == nil, "a well-formed route table is not an error")
	vsym.Assert(len(got) == n, "every route table under its own name")
	for _, rc := range l {
		d, ok := got[rc.Name].(*xdsresource.RouteConfigResource)
		vsym.Assert(ok, "every route table under its own name")
		checkTable(rc, d, p)
	}
	vsym.Cover("end")
}

// C11_Listener: listeners.
func C11_Listener() {
	g := newGen(vsym.Param("deviations", 2))
	p := newProbe()
	n := 1
	if vsym.Param("single", 0) == 0 {
		n = g.count("listeners", 1, 2)
	}
	var l []*v3listener.Listener
	var res []*anypb.Any
	var want [][]netFilter
	def := vsym.Choose("default-filter", 3)
	for i := 0; i < n; i++ {
		li, w := g.listener([]string{"l", "virtualInbound"}[i], def)
		l, want = append(l, li), append(want, w)
		res = append(res, g.pack(urls[LT], li))
	}
	got, err := xdsresource.UnmarshalLDS(res)
	vsym.Assert(err == nil, "a well-formed listener is not an error")
	vsym.Assert(len(got) == n, "every listener under its own name")
	for i := range l {
		d := got[l[i].Name]
		vsym.Assert(d != nil && len(d.NetworkFilters) == len(want[i]), "every HTTP and Thrift filter, in order")
		for j, w := range want[i] {
			f := d.NetworkFilters[j]
			vsym.Assert(f.RoutePort == w.port, "the destination port is preserved")
			if w.isThr {
				vsym.Assert(f.FilterType == xdsresource.NetworkFilterTypeThrift, "the filter's type is preserved")
				checkThrift(w.thrift, f.InlineRouteConfig, p)
				continue
			}
			vsym.Assert(f.FilterType == xdsresource.NetworkFilterTypeHTTP, "the filter's type is preserved")
			vsym.Assert(f.InlineRouteConfig != nil, "the rate limit is preserved")
			vsym.Assert(f.InlineRouteConfig.MaxTokens == w.bucket.max && f.InlineRouteConfig.TokensPerFill == w.bucket.fill, "the rate limit is preserved")
			if w.inline != nil {
				checkTable(w.inline, f.InlineRouteConfig, p)
				vsym.Cover("inline")
			} else {
				vsym.Assert(f.RouteConfigName == w.named, "the name of the route table is preserved")
				vsym.Assert(f.InlineRouteConfig.HTTPRouteConfig == nil && f.InlineRouteConfig.ThriftRouteConfig == nil, "no inline table")
				vsym.Cover("named")
			}
		}
	}
	vsym.Cover("end")
}
