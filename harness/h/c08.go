package h

import (
	"context"
	"github.com/cloudwego/kitex/transport"
	"strings"
	"time"

	"github.com/bytedance/gopkg/cloud/metainfo"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	"google.golang.org/protobuf/types/known/durationpb"

	"github.com/kitex-contrib/xds/xdssuite"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// cond is a header condition.
type cond struct {
	key  string
	kind int // 0 exact, 1 prefix, 2 regular expression
	val  string
	re   int
}

// regs are regular expressions with what they mean, written by hand.
var regs = []struct {
	pattern string
	match   func(s string) bool
}{
	{"^a+$", func(s string) bool {
		if len(s) == 0 {
			return false
		}
		for i := 0; i < len(s); i++ {
			if s[i] != 'a' {
				return false
			}
		}
		return true
	}},
	{"b", func(s string) bool {
		for i := 0; i < len(s); i++ {
			if s[i] == 'b' {
				return true
			}
		}
		return false
	}},
	{"^(a|bb)", func(s string) bool { return len(s) > 0 && s[0] == 'a' || len(s) > 1 && s[0] == 'b' && s[1] == 'b' }},
	{"^$", func(s string) bool { return len(s) == 0 }},
	{"^[^b]b?$", func(s string) bool {
		return len(s) == 1 && s[0] != 'b' || len(s) == 2 && s[0] != 'b' && s[1] == 'b'
	}},
}

func (c cond) holds(md map[string]string) bool {
	v, ok := md[c.key]
	if !ok {
		return false
	}
	switch c.kind {
	case 0:
		return v == c.val
	case 1:
		return len(v) >= len(c.val) && v[:len(c.val)] == c.val
	}
	return regs[c.re].match(v)
}

func (c cond) proto() *v3route.HeaderMatcher {
	sm := &v3matcher.StringMatcher{}
	switch c.kind {
	case 0:
		sm.MatchPattern = &v3matcher.StringMatcher_Exact{Exact: c.val}
	case 1:
		sm.MatchPattern = &v3matcher.StringMatcher_Prefix{Prefix: c.val}
	case 2:
		sm.MatchPattern = &v3matcher.StringMatcher_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: regs[c.re].pattern}}
	}
	return &v3route.HeaderMatcher{Name: c.key, HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{StringMatch: sm}}
}

// rdesc describes a route.
type rdesc struct {
	id      int
	kind    int // 0 exact path, 1 prefix "/", 2 another prefix, 3 no path condition; for thrift: 0 method, 1 any
	path    string
	conds   []cond
	timeout int
}

func (d rdesc) holds(path string, md map[string]string) bool {
	if d.kind >= 2 || d.kind == 0 && d.path != path {
		return false
	}
	for _, c := range d.conds {
		if !c.holds(md) {
			return false
		}
	}
	return true
}

func clusterName(id int) string { return "cluster-" + string(rune('a'+id)) }

func (d rdesc) http() *v3route.Route {
	m := &v3route.RouteMatch{}
	switch d.kind {
	case 0:
		m.PathSpecifier = &v3route.RouteMatch_Path{Path: d.path}
	case 1:
		m.PathSpecifier = &v3route.RouteMatch_Prefix{Prefix: "/"}
	case 2:
		m.PathSpecifier = &v3route.RouteMatch_Prefix{Prefix: "/zz"}
	case 3:
		m.PathSpecifier = &v3route.RouteMatch_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: "/zz.*"}}
	}
	for _, c := range d.conds {
		m.Headers = append(m.Headers, c.proto())
	}
	a := &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: clusterName(d.id)}}
	if d.timeout > 0 {
		a.Timeout = &durationpb.Duration{Seconds: int64(d.timeout)}
	}
	return &v3route.Route{Match: m, Action: &v3route.Route_Route{Route: a}}
}

func (d rdesc) thrift() *v3thrift.Route {
	m := &v3thrift.RouteMatch{}
	if d.kind == 0 {
		m.MatchSpecifier = &v3thrift.RouteMatch_MethodName{MethodName: d.path}
	}
	for _, c := range d.conds {
		m.Headers = append(m.Headers, c.proto())
	}
	return &v3thrift.Route{Match: m, Route: &v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_Cluster{Cluster: clusterName(d.id)}}}
}

func table(name string, vhs ...[]rdesc) *v3route.RouteConfiguration {
	rc := &v3route.RouteConfiguration{Name: name}
	for _, vh := range vhs {
		v := &v3route.VirtualHost{Name: "vh", Domains: []string{"*"}}
		for _, d := range vh {
			v.Routes = append(v.Routes, d.http())
		}
		rc.VirtualHosts = append(rc.VirtualHosts, v)
	}
	return rc
}

// newCall is a call with a symbolic method; want is its path.
func newCall(grpc bool) rpc {
	c := rpc{dest: "svc", svc: "S", method: vsym.Str("method", 1, 1, "a-zA-Z0-9_"), grpc: grpc}
	if vsym.Choose("package", 2) == 1 {
		c.pkg = "p"
	}
	return c
}

// metadata is a symbolic metadata map over two keys, seen by the router
// through the default extractor or through a custom one.
func metadata() (map[string]string, context.Context, []xdssuite.Option) {
	md := map[string]string{}
	for _, k := range []string{"K1", "K2"} {
		if vsym.Choose("present-"+k, 2) == 1 {
			md[k] = vsym.Str("value-"+k, 0, 2, "")
		}
	}
	if vsym.Choose("extractor", 2) == 1 {
		return md, bg, []xdssuite.Option{xdssuite.WithRouterMetaExtractor(func(context.Context) map[string]string { return md })}
	}
	ctx := bg
	vis := map[string]string{}
	for _, k := range []string{"K1", "K2"} {
		if v, ok := md[k]; ok {
			if k == "K2" {
				ctx = metainfo.WithPersistentValue(ctx, k, v)
			} else {
				ctx = metainfo.WithValue(ctx, k, v)
			}
			vis[k] = v
			if got, ok := metainfo.GetAllValues(ctx)[k]; !ok || got != v {
				// metainfo drops empty values: the call does not carry them
				delete(vis, k)
			}
		}
	}
	return vis, ctx, nil
}

func symCond() cond {
	c := cond{key: "K1"}
	if vsym.Choose("key", 2) == 1 {
		c.key = "K2"
	}
	c.kind = vsym.Choose("cond", 3)
	if c.kind == 2 {
		c.re = vsym.Choose("regex", len(regs))
	} else {
		c.val = vsym.Str("cond-value", 0, 2, "")
	}
	return c
}

// expect compares the outcome of a call with the route that must be used.
func expect(r *xdssuite.XDSRouter, ctx context.Context, c rpc, want *rdesc) {
	res, err := r.Route(ctx, c.info())
	if want == nil {
		vsym.Assert(err != nil, "a call that matches nothing fails with a routing error")
		vsym.Assert(res == nil, "no result with an error")
		vsym.Cover("none")
		return
	}
	vsym.Assert(err == nil, "a call that matches a route is routed")
	vsym.Assert(res.ClusterPicked == clusterName(want.id), "the first matching route is used")
	vsym.Assert(res.RPCTimeout == time.Duration(want.timeout)*time.Second, "the matched route's timeout")
	vsym.Cover("routed")
}

func first(path string, md map[string]string, vhs ...[]rdesc) *rdesc {
	for _, vh := range vhs {
		for i := range vh {
			if vh[i].holds(path, md) {
				return &vh[i]
			}
		}
	}
	return nil
}

// symPath is a path condition around the call's path.
func symPath(c rpc) string {
	p := strings.TrimSuffix(c.path(), c.method)
	switch vsym.Choose("path-form", 3) {
	case 1:
		if c.pkg == "" {
			return "/p.S/" + vsym.Str("path-method", 1, 1, "a-zA-Z0-9_")
		}
		return "/S/" + vsym.Str("path-method", 1, 1, "a-zA-Z0-9_")
	case 2:
		return p + vsym.Str("path-method", 0, 2, "a-zA-Z0-9_")
	}
	return p + vsym.Str("path-method", 1, 1, "a-zA-Z0-9_")
}

// C08_Order: up to three routes spread over virtual hosts in a named or
// inline table; the first whose path and condition hold is used.
func C08_Order() {
	c := newCall(true)
	md, ctx := map[string]string{}, bg
	if vsym.Choose("present", 2) == 1 {
		md["K1"] = vsym.Str("value", 1, 1, "")
		ctx = metainfo.WithValue(ctx, "K1", md["K1"])
	}
	n := vsym.Choose("routes", vsym.Param("routes", 3)+1)
	nvh := 1 + vsym.Choose("hosts", 2)
	vhs := make([][]rdesc, nvh)
	vh := 0
	for i := 0; i < n; i++ {
		d := rdesc{id: i, timeout: i + 1, kind: vsym.Choose("kind", vsym.Param("kinds", 4))}
		if d.kind == 0 {
			if vsym.Param("forms", 1) == 1 {
				d.path = symPath(c)
			} else {
				d.path = strings.TrimSuffix(c.path(), c.method) + vsym.Str("path-method", 1, 1, "a-zA-Z0-9_")
			}
		}
		if vsym.Choose("conds", 2) == 1 {
			d.conds = []cond{{key: "K1", val: vsym.Str("cond", 1, 1, "")}}
		}
		if vh+1 < nvh && vsym.Choose("next-host", 2) == 1 {
			vh++
		}
		vhs[vh] = append(vhs[vh], d)
	}
	s := newStore()
	if vsym.Choose("inline", 2) == 1 {
		cfg := vsym.Pack(hcmURL, &v3hcm.HttpConnectionManager{RouteSpecifier: &v3hcm.HttpConnectionManager_RouteConfig{RouteConfig: table("r", vhs...)}})
		s.load(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "svc", FilterChains: []*v3listener.FilterChain{chain(nil, cfg)}}))
	} else {
		s.load(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "svc", FilterChains: []*v3listener.FilterChain{chain(nil, hcmAny("r"))}}))
		s.load(RT, vsym.Pack(urls[RT], table("r", vhs...)))
	}
	expect(newRouter(s), ctx, c, first(c.path(), md, vhs...))
	vsym.Cover("end")
}

// C08_Cond: a route with up to three conditions of any kind before a
// catch-all; HTTP or Thrift.
func C08_Cond() {
	md, ctx, opts := metadata()
	n := 1 + vsym.Choose("conds", vsym.Param("conds", 3))
	d := rdesc{id: 0, kind: 1}
	for i := 0; i < n; i++ {
		d.conds = append(d.conds, symCond())
	}
	rest := rdesc{id: 1, kind: 1}
	s := newStore()
	c := rpc{dest: "svc", svc: "S", method: "m", grpc: true}
	if vsym.Choose("thrift", 2) == 1 {
		c.grpc = false
		cfg := vsym.Pack(thriftURL, &v3thrift.ThriftProxy{RouteConfig: &v3thrift.RouteConfiguration{Name: "t", Routes: []*v3thrift.Route{d.thrift(), rest.thrift()}}})
		s.load(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "svc", FilterChains: []*v3listener.FilterChain{chain(nil, cfg)}}))
	} else {
		s.load(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "svc", FilterChains: []*v3listener.FilterChain{chain(nil, hcmAny("r"))}}))
		s.load(RT, vsym.Pack(urls[RT], table("r", []rdesc{d, rest})))
	}
	expect(newRouter(s, opts...), ctx, c, first(c.path(), md, []rdesc{d, rest}))
	vsym.Cover("end")
}

// C08_Precedence: Thrift routes, an inline table, a named table: each absent,
// empty or with routes that may match; both transports.
func C08_Precedence() {
	c := newCall(vsym.Choose("grpc", 2) == 1)
	md, ctx := map[string]string{}, bg
	if vsym.Choose("present", 2) == 1 {
		md["K1"] = vsym.Str("value", 1, 1, "")
		ctx = metainfo.WithValue(ctx, "K1", md["K1"])
	}
	id := 0
	mk := func(path func() string) []rdesc {
		var l []rdesc
		n := vsym.Choose("routes", vsym.Param("routes", 2)+1)
		for i := 0; i < n; i++ {
			d := rdesc{id: id, kind: vsym.Choose("any", 2)}
			id++
			if d.kind == 0 {
				d.path = path()
			}
			if vsym.Choose("cond", 2) == 1 {
				d.conds = []cond{{key: "K1", kind: vsym.Choose("cond-kind", 2), val: vsym.Str("cond", 1, 1, "")}}
			}
			l = append(l, d)
		}
		return l
	}
	httpPath := func() string {
		return strings.TrimSuffix(c.path(), c.method) + vsym.Str("path-method", 1, 1, "a-zA-Z0-9_")
	}
	var want *rdesc
	var chains []*v3listener.FilterChain
	var filters []*v3listener.Filter
	if vsym.Choose("thrift", 2) == 1 {
		l := mk(func() string { return vsym.Str("thrift-method", 1, 1, "a-zA-Z0-9_") })
		tp := &v3thrift.ThriftProxy{RouteConfig: &v3thrift.RouteConfiguration{Name: "t"}}
		for _, d := range l {
			tp.RouteConfig.Routes = append(tp.RouteConfig.Routes, d.thrift())
		}
		filters = append(filters, listenerFilter(vsym.Pack(thriftURL, tp)))
		if !c.grpc {
			want = first(c.method, md, l)
			if want != nil {
				vsym.Cover("thrift")
			}
		}
	}
	http := vsym.Choose("http", 3) // none, named, inline
	s := newStore()
	named := func() {
		if vsym.Choose("table", 2) == 1 {
			l := mk(httpPath)
			s.load(RT, vsym.Pack(urls[RT], table("r", l)))
			if want == nil {
				want = first(c.path(), md, l)
			}
		}
	}
	switch http {
	case 1:
		filters = append(filters, listenerFilter(hcmAny("r")))
		named()
	case 2:
		l := mk(httpPath)
		filters = append(filters, listenerFilter(vsym.Pack(hcmURL, &v3hcm.HttpConnectionManager{RouteSpecifier: &v3hcm.HttpConnectionManager_RouteConfig{RouteConfig: table("r", l)}})))
		if want == nil {
			want = first(c.path(), md, l)
		}
		named()
	}
	if len(filters) == 2 && vsym.Choose("http-first", 2) == 1 {
		filters[0], filters[1] = filters[1], filters[0]
	}
	if vsym.Choose("chains", 2) == 1 {
		for _, f := range filters {
			chains = append(chains, &v3listener.FilterChain{Filters: []*v3listener.Filter{f}})
		}
	} else {
		chains = []*v3listener.FilterChain{{Filters: filters}}
	}
	lis := &v3listener.Listener{Name: "svc", FilterChains: chains}
	if len(chains) > 1 && vsym.Choose("default-chain", 2) == 1 {
		lis.FilterChains, lis.DefaultFilterChain = chains[:1], chains[1]
	}
	s.load(LT, vsym.Pack(urls[LT], lis))
	expect(newRouter(s), ctx, c, want)
	vsym.Cover("end")
}

// C08_Protocol: whatever the transport protocol, only gRPC calls pass the
// Thrift routes by.
func C08_Protocol() {
	proto := []transport.Protocol{transport.PurePayload, transport.TTHeader, transport.Framed, transport.TTHeaderFramed, transport.HTTP, transport.HESSIAN2, transport.GRPC}[vsym.Choose("protocol", 7)]
	c := newCall(proto == transport.GRPC)
	if !c.grpc {
		c.proto, c.pure = proto, true
	}
	var filters []*v3listener.Filter
	t := rdesc{id: 0, kind: 0, path: vsym.Str("thrift-method", 1, 1, "a-zA-Z0-9_")}
	filters = append(filters, listenerFilter(vsym.Pack(thriftURL, &v3thrift.ThriftProxy{RouteConfig: &v3thrift.RouteConfiguration{Name: "t", Routes: []*v3thrift.Route{t.thrift()}}})))
	h := rdesc{id: 1, kind: vsym.Choose("any", 2), path: c.path()}
	s := newStore()
	s.load(RT, vsym.Pack(urls[RT], table("r", []rdesc{h})))
	http := vsym.Choose("http", 2) == 1
	if http {
		filters = append(filters, listenerFilter(hcmAny("r")))
	}
	s.load(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "svc", FilterChains: []*v3listener.FilterChain{{Filters: filters}}}))
	var want *rdesc
	if !c.grpc && c.method == t.path {
		want = &t
	} else if http {
		want = &h
	}
	expect(newRouter(s), bg, c, want)
	vsym.Cover("end")
}
