C="core/manager/client.go"; M="core/manager/manager.go"; X="core/xdsresource/"; B="core/manager/bootstrap.go"
S="xdssuite/"
HDR='''package zzdemo

import (
	"testing"
	"time"
)
var _ = time.Now
'''
def hdr(*imports):
    return HDR.replace('import (','import (\n'+''.join('\t%s\n' % i for i in imports))
V3R='v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"'
V3L='v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"'
V3C='v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"'
V3M='v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"'
XR='"github.com/kitex-contrib/xds/core/xdsresource"'
SU='"github.com/kitex-contrib/xds/xdssuite"'
RI='"github.com/cloudwego/kitex/pkg/rpcinfo"'
RE='"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"'
UT='"github.com/cloudwego/kitex/pkg/utils"'
CL='"github.com/cloudwego/kitex/client"'
AP='"google.golang.org/protobuf/types/known/anypb"'
PB='"google.golang.org/protobuf/types/known/durationpb"'
CTX='"context"'
# a fixed store in place of a manager
STORE='''
type store map[xdsresource.ResourceType]map[string]xdsresource.Resource

func (s store) Get(ctx context.Context, rt xdsresource.ResourceType, name string) (interface{}, error) {
	if r, ok := s[rt][name]; ok {
		return r, nil
	}
	return nil, errors.New("absent")
}

var hs []xdsresource.XDSUpdateHandler

func (s store) RegisterXDSUpdateHandler(rt xdsresource.ResourceType, h xdsresource.XDSUpdateHandler) {
	hs = append(hs, h)
}
'''
CALL='''
func call(svc, method string) (context.Context, rpcinfo.RPCInfo) {
	to := remoteinfo.NewRemoteInfo(&rpcinfo.EndpointBasicInfo{ServiceName: "dst", Method: method}, method)
	cfg := rpcinfo.NewRPCConfig()
	ri := rpcinfo.NewRPCInfo(nil, to, rpcinfo.NewInvocation(svc, method), cfg, rpcinfo.NewRPCStats())
	return rpcinfo.NewCtxWithRPCInfo(context.Background(), ri), ri
}
'''
BUGS=[
dict(id="c01-same-version-skipped", property="C01",
 edits=[(C,'''	res, err := xdsresource.UnmarshalEDS(resp.GetResources())
	c.updateAndACK(xdsresource.EndpointsType, resp.GetNonce(), resp.GetVersionInfo(), err)
	if err != nil {
		return fmt.Errorf("handle endpoint failed: %s", err)
	}
''','''	res, err := xdsresource.UnmarshalEDS(resp.GetResources())
	c.mu.RLock()
	known := err == nil && resp.GetVersionInfo() != "" && c.versionMap[xdsresource.EndpointsType] == resp.GetVersionInfo()
	c.mu.RUnlock()
	c.updateAndACK(xdsresource.EndpointsType, resp.GetNonce(), resp.GetVersionInfo(), err)
	if err != nil {
		return fmt.Errorf("handle endpoint failed: %s", err)
	}
	if known {
		// this version has been applied already
		return nil
	}
''')],
 needs="two responses of the same version that carry different names (a new subscription answered without a change of the version)",
 breaks="an accepted response whose version is the one already acknowledged is not applied",
 demo=hdr('discovery "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"',AP)+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	for i, n := range []string{"a", "b"} {
		subscribe(m, ET, n)
		s.last().ch <- rmsg{resp: &discovery.DiscoveryResponse{TypeUrl: urls[ET], VersionInfo: "7", Nonce: n, Resources: []*anypb.Any{endpoints(n, "10.0.0.1", 80, uint32(i))}}}
		time.Sleep(50 * time.Millisecond)
		if _, err := m.Get(bg, ET, n); err != nil {
			t.Fatal(err)
		}
	}
}
'''),
dict(id="c01-grown-update-keeps", property="C01",
 edits=[(M,'	for name, res := range up {\n		if _, ok := m.cache[rt]; !ok {','	grown := len(up) > len(m.cache[rt])\n	for name, res := range up {\n		if _, ok := m.cache[rt]; !ok {'),
  (M,'	if rt.RequireFullADSResponse() {\n		// remove','	if rt.RequireFullADSResponse() && !grown {\n		// remove')],
 needs="a full update that is larger than the cached set and yet omits a cached name",
 breaks="the omitted cluster stays served",
 demo=hdr()+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	for _, n := range []string{"a", "b", "c"} {
		subscribe(m, CT, n)
	}
	s.push(CT, cluster("a", 1))
	s.push(CT, cluster("b", 2), cluster("c", 2))
	if _, err := m.Get(bg, CT, "a"); err == nil {
		t.Fatal("a dropped cluster is served")
	}
}
'''),
dict(id="c06-notifiers-dropped", property="C06",
 edits=[(M,'			nf.notify(res, nil)\n			delete(m.notifierMap[rt], name)','			nf.notify(res, nil)\n			delete(m.notifierMap, rt)')],
 needs="lookups of two names of a type waiting together, supplied by separate responses",
 breaks="the delivery of one name makes the waiting lookup of another miss its own delivery",
 demo=hdr()+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 2*time.Second)
	errs := make(chan error, 2)
	for _, n := range []string{"a", "b"} {
		n := n
		go func() { _, err := m.Get(bg, ET, n); errs <- err }()
	}
	time.Sleep(100 * time.Millisecond)
	t0 := time.Now()
	s.push(ET, endpoints("a", "10.0.0.1", 80, 1))
	s.push(ET, endpoints("b", "10.0.0.1", 80, 1))
	for i := 0; i < 2; i++ {
		if err := <-errs; err != nil {
			t.Fatal(err)
		}
	}
	if time.Since(t0) > time.Second {
		t.Fatal("a lookup waited for its deadline")
	}
}
'''),
dict(id="c08-first-host-only", property="C08",
 edits=[(S+"router.go",'''					return r
				}
			}
		}
	}
	return nil
}

// matchThrift''','''					return r
				}
			}
			if len(vh.Routes) > 0 {
				break
			}
		}
	}
	return nil
}

// matchThrift''')],
 needs="a route that matches in a virtual host after one whose routes do not",
 breaks="only the first virtual host with routes is searched",
 demo=hdr(CTX,'"errors"',XR,SU,RI,RE)+STORE+CALL+'''
func TestDemo(t *testing.T) {
	r := func(path, c string) *xdsresource.Route {
		return &xdsresource.Route{Match: &xdsresource.HTTPRouteMatch{Path: path}, WeightedClusters: []*xdsresource.WeightedCluster{{Name: c, Weight: 1}}}
	}
	rc := &xdsresource.RouteConfigResource{HTTPRouteConfig: &xdsresource.HTTPRouteConfig{VirtualHosts: []*xdsresource.VirtualHost{
		{Routes: []*xdsresource.Route{r("/s/x", "1")}}, {Routes: []*xdsresource.Route{r("/s/m", "2")}}}}}
	xdssuite.SetXDSResourceManager(store{LT: {"dst": &xdsresource.ListenerResource{NetworkFilters: []*xdsresource.NetworkFilter{{RouteConfigName: "r"}}}}, RT: {"r": rc}})
	ctx, ri := call("s", "m")
	res, err := xdssuite.NewXDSRouter().Route(ctx, ri)
	if err != nil || res.ClusterPicked != "2" {
		t.Fatal(res, err)
	}
}
'''),
dict(id="c08-path-case", property="C08",
 edits=[(X+"rds.go",'		return rm.Path == path','		return strings.EqualFold(rm.Path, path)')],
 needs="an earlier route whose exact path differs from the call's in case only",
 breaks="exact paths are compared without regard to case",
 demo=hdr(CTX,'"errors"',XR,SU,RI,RE)+STORE+CALL+'''
func TestDemo(t *testing.T) {
	r := func(path, c string) *xdsresource.Route {
		return &xdsresource.Route{Match: &xdsresource.HTTPRouteMatch{Path: path}, WeightedClusters: []*xdsresource.WeightedCluster{{Name: c, Weight: 1}}}
	}
	rc := &xdsresource.RouteConfigResource{HTTPRouteConfig: &xdsresource.HTTPRouteConfig{VirtualHosts: []*xdsresource.VirtualHost{
		{Routes: []*xdsresource.Route{r("/s/Get", "1"), r("/s/get", "2")}}}}}
	xdssuite.SetXDSResourceManager(store{LT: {"dst": &xdsresource.ListenerResource{NetworkFilters: []*xdsresource.NetworkFilter{{RouteConfigName: "r"}}}}, RT: {"r": rc}})
	ctx, ri := call("s", "get")
	res, err := xdssuite.NewXDSRouter().Route(ctx, ri)
	if err != nil || res.ClusterPicked != "2" {
		t.Fatal(res, err)
	}
}
'''),
dict(id="c10-ipv6-join", property="C10",
 edits=[(X+"eds.go",'net.JoinHostPort(addr.GetAddress(), strconv.Itoa(int(addr.GetPortValue())))','addr.GetAddress()+":"+strconv.Itoa(int(addr.GetPortValue()))')],
 needs="an IPv6 endpoint",
 breaks="IPv6 addresses lose their brackets, so the instance cannot be dialled",
 demo=hdr(CTX,'"net"',SU,RI)+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	xdssuite.SetXDSResourceManager(m)
	subscribe(m, CT, "c")
	s.push(CT, cluster("c", 1))
	subscribe(m, ET, "c")
	s.push(ET, endpoints("c", "fd00::1", 8080, 1))
	res, err := xdssuite.NewXDSResolver().Resolve(context.Background(), "c")
	if err != nil || len(res.Instances) != 1 {
		t.Fatal(res, err)
	}
	h, p, err := net.SplitHostPort(res.Instances[0].Address().String())
	if err != nil || h != "fd00::1" || p != "8080" {
		t.Fatal(h, p, err)
	}
	_ = rpcinfo.NewRPCInfo
}
'''),
dict(id="c10-eds-over-inline", property="C10",
 edits=[(S+"resolver.go",'	if cluster.InlineEndpoints != nil {','	if cluster.InlineEndpoints != nil && cluster.DiscoveryType != xdsresource.ClusterTypeEDSOrZero {')],
 needs="an EDS cluster that carries an inline load assignment",
 breaks="the inline load assignment of an EDS cluster is ignored",
 demo="") if False else None,
dict(id="c11-retriable-headers-stop", property="C11",
 edits=[(X+"rds.go",'''					if match == nil {
						continue
					}
					value''','''					if match == nil {
						break
					}
					value''')],
 needs="a retriable header of another kind before the extension headers",
 breaks="the retry extensions after a header without a string match are ignored",
 demo=hdr(V3R,V3M,AP,XR)+'''
func TestDemo(t *testing.T) {
	r := route("/", "c")
	exact := func(n, v string) *v3route.HeaderMatcher {
		return &v3route.HeaderMatcher{Name: n, HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{StringMatch: &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Exact{Exact: v}}}}
	}
	r.GetRoute().RetryPolicy = &v3route.RetryPolicy{RetriableHeaders: []*v3route.HeaderMatcher{
		{Name: "x-retry", HeaderMatchSpecifier: &v3route.HeaderMatcher_PresentMatch{PresentMatch: true}},
		exact("kitexRetryErrorRate", "0.25"), exact("kitexRetryMethods", "a,b"),
	}}
	m, err := xdsresource.UnmarshalRDS([]*anypb.Any{table("t", r)})
	if err != nil {
		t.Fatal(err)
	}
	p := m["t"].(*xdsresource.RouteConfigResource).HTTPRouteConfig.VirtualHosts[0].Routes[0].RetryPolicy
	if p.CBErrorRate != 0.25 || len(p.Methods) != 2 {
		t.Fatal(p)
	}
}
'''),
dict(id="c12-service-name-eds-only", property="C12",
 edits=[(X+"cds.go",'GetServiceName(); n != "" {','GetServiceName(); n != "" && ret.DiscoveryType == ClusterDiscoveryTypeEDS {')],
 needs="a cluster of another discovery type with an EDS service name",
 breaks="the EDS service name of clusters that are not of type EDS is dropped",
 demo=hdr(V3C,AP,XR)+'''
func TestDemo(t *testing.T) {
	c := &v3cluster.Cluster{Name: "c", ClusterDiscoveryType: &v3cluster.Cluster_Type{Type: v3cluster.Cluster_LOGICAL_DNS}, EdsClusterConfig: &v3cluster.Cluster_EdsClusterConfig{ServiceName: "svc"}}
	m, err := xdsresource.UnmarshalCDS([]*anypb.Any{pack(urls[CT], c)})
	if err != nil || m["c"].(*xdsresource.ClusterResource).EndpointName != "svc" {
		t.Fatal(m, err)
	}
}
'''),
dict(id="c13-thrift-no-routes", property="C13",
 edits=[(X+"lds.go",'	rs := tp.RouteConfig.GetRoutes()','	rs := tp.RouteConfig.Routes')],
 needs="a Thrift proxy filter without a route configuration",
 breaks="decoding panics, which ends the receive loop for good",
 demo=hdr(V3L,AP,XR,'v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"')+'''
func TestDemo(t *testing.T) {
	l := &v3listener.Listener{Name: "l", FilterChains: []*v3listener.FilterChain{{Filters: []*v3listener.Filter{{Name: "f", ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: pack(tpURL, &v3thrift.ThriftProxy{})}}}}}}
	if _, err := xdsresource.UnmarshalLDS([]*anypb.Any{pack(urls[LT], l)}); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id="c14-foreign-domain", property="C14",
 edits=[(B,'	if strings.Contains(host, ".svc.") {','	if strings.HasSuffix(host, ".svc."+bc.nodeDomain) {')],
 needs="a host already qualified with another domain than the configured one",
 breaks="an already qualified host is qualified again",
 demo=hdr()+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	m.Close()
	s = &server{}
	go func() {
		for len(s.requests()) == 0 {
			time.Sleep(5 * time.Millisecond)
		}
		s.push(NT, nameTable(map[string]string{"a.b.svc.other": "10.0.0.1", "a.b.svc.other.default.svc.cluster.local": "10.0.0.2"}))
	}()
	m = newMgr(t, s, true, false, 300*time.Millisecond)
	subscribe(m, LT, "a.b.svc.other:80")
	s.push(LT, listener("10.0.0.1_80", "one"), listener("10.0.0.2_80", "two"))
	r, err := m.Get(bg, LT, "a.b.svc.other:80")
	if err != nil || routeName(r) != "one" {
		t.Fatal(r, err)
	}
}
func routeName(r interface{}) string { return r.(*xdsresource.ListenerResource).NetworkFilters[0].RouteConfigName }
'''.replace('func TestDemo','func TestDemo',1)),
dict(id="c15-timeout-only-shorter", property="C15",
 edits=[(S+"router.go",'			_ = rpcinfo.AsMutableRPCConfig(ri.Config()).SetRPCTimeout(res.RPCTimeout)\n			return next','			if cur := ri.Config().RPCTimeout(); cur == 0 || res.RPCTimeout < cur {\n				_ = rpcinfo.AsMutableRPCConfig(ri.Config()).SetRPCTimeout(res.RPCTimeout)\n			}\n			return next')],
 needs="a call whose own timeout is shorter than the matched route's",
 breaks="the call keeps its own timeout instead of the route's",
 demo=hdr(CTX,'"errors"',XR,SU,RI,RE)+STORE+CALL+'''
func TestDemo(t *testing.T) {
	rc := &xdsresource.RouteConfigResource{HTTPRouteConfig: &xdsresource.HTTPRouteConfig{VirtualHosts: []*xdsresource.VirtualHost{
		{Routes: []*xdsresource.Route{{Timeout: 5 * time.Second, Match: &xdsresource.HTTPRouteMatch{Prefix: "/"}, WeightedClusters: []*xdsresource.WeightedCluster{{Name: "c", Weight: 1}}}}}}}}
	xdssuite.SetXDSResourceManager(store{LT: {"dst": &xdsresource.ListenerResource{NetworkFilters: []*xdsresource.NetworkFilter{{RouteConfigName: "r"}}}}, RT: {"r": rc}})
	ctx, ri := call("s", "m")
	rpcinfo.AsMutableRPCConfig(ri.Config()).SetRPCTimeout(time.Second)
	err := xdssuite.NewXDSRouterMiddleware()(func(ctx context.Context, req, resp interface{}) error { return nil })(ctx, nil, nil)
	if err != nil || ri.Config().RPCTimeout() != 5*time.Second {
		t.Fatal(err, ri.Config().RPCTimeout())
	}
}
'''),
dict(id="c16-unchanged-skipped", property="C16",
 edits=[(S+"circuitbreak.go",'	lastPolicies atomic.Value\n','	lastPolicies atomic.Value\n	applied      map[string]circuitbreak.CBConfig\n'),
  (S+"circuitbreak.go",'		cb.cb.UpdateServiceCBConfig(k, v)\n		newPolicies[k]','		if old, ok := cb.applied[k]; !ok || old != v {\n			cb.cb.UpdateServiceCBConfig(k, v)\n			cb.applied[k] = v\n		}\n		newPolicies[k]'),
  (S+"circuitbreak.go",'	newPolicies := make(map[string]struct{})\n','	newPolicies := make(map[string]struct{})\n	if cb.applied == nil {\n		cb.applied = make(map[string]circuitbreak.CBConfig)\n	}\n')],
 needs="a cluster that is configured, removed, and configured again with the same values",
 breaks="the re-added cluster stays disabled",
 demo=hdr(CTX,'"errors"',XR,SU,UT,CL)+STORE+'''
func TestDemo(t *testing.T) {
	xdssuite.SetXDSResourceManager(store{})
	var o client.Options
	xdssuite.NewCircuitBreaker(xdssuite.WithServiceCircuitBreak(true)).F(&o, &utils.Slice{})
	up := map[string]xdsresource.Resource{"c": &xdsresource.ClusterResource{OutlierDetection: &xdsresource.OutlierDetection{FailurePercentageThreshold: 10, FailurePercentageRequestVolume: 20}}}
	for _, u := range []map[string]xdsresource.Resource{up, {}, up} {
		for _, h := range hs {
			h(u)
		}
	}
	d := o.CBSuite.Dump().(map[string]interface{})["cb_config"].(map[string]interface{})["service"].(map[string]interface{})
	if s, ok := d["c"].(circuitbreak.CBConfig); !ok || !s.Enable {
		t.Fatal(d)
	}
}
'''),
dict(id="c17-unchanged-skipped", property="C17",
 edits=[(S+"retry.go",'	lastPolicies atomic.Value\n','	lastPolicies atomic.Value\n	installed    map[string]retry.Policy\n'),
  (S+"retry.go",'					rc.Container.NotifyPolicyChange(cluster.Name, retryPolicy)\n','					if old, ok := rc.installed[cluster.Name]; !ok || !reflect.DeepEqual(old, retryPolicy) {\n						rc.Container.NotifyPolicyChange(cluster.Name, retryPolicy)\n						rc.installed[cluster.Name] = *retryPolicy.DeepCopy()\n					}\n'),
  (S+"retry.go",'	thisPolicies := make(map[string]struct{})\n','	thisPolicies := make(map[string]struct{})\n	if rc.installed == nil {\n		rc.installed = make(map[string]retry.Policy)\n	}\n'),
  (S+"retry.go",'import (\n	"context"\n','import (\n	"context"\n	"reflect"\n')],
 needs="a cluster that is routed to, dropped from the table, and routed to again with the same policy",
 breaks="the cluster has no retry policy after it comes back",
 demo=hdr(CTX,'"errors"','"strings"','"fmt"',XR,SU,UT,CL)+STORE+'''
func TestDemo(t *testing.T) {
	xdssuite.SetXDSResourceManager(store{})
	var o client.Options
	xdssuite.NewRetryPolicy().F(&o, &utils.Slice{})
	up := func(c string) map[string]xdsresource.Resource {
		return map[string]xdsresource.Resource{"r": &xdsresource.RouteConfigResource{HTTPRouteConfig: &xdsresource.HTTPRouteConfig{VirtualHosts: []*xdsresource.VirtualHost{{Routes: []*xdsresource.Route{{
			WeightedClusters: []*xdsresource.WeightedCluster{{Name: c, Weight: 1}}, RetryPolicy: xdsresource.RetryPolicy{NumRetries: 2, PerTryTimeout: time.Second, CBErrorRate: 0.2}}}}}}}}
	}
	for _, c := range []string{"clusterA", "clusterB", "clusterA"} {
		for _, h := range hs {
			h(up(c))
		}
	}
	if d := fmt.Sprint(o.RetryContainer.Dump()); !strings.Contains(d, "clusterA") {
		t.Fatal(d)
	}
}
'''),
dict(id="c17-equal-interval-random", property="C17",
 edits=[(S+"retry.go",'RetryBackOff.MaxInterval > route','RetryBackOff.MaxInterval >= route')],
 needs="a back-off whose maximum interval equals its base interval",
 breaks="the back-off is random instead of fixed (and Kitex rejects such a policy)",
 demo=hdr(CTX,'"errors"','"strings"','"fmt"',XR,SU,UT,CL)+STORE+'''
func TestDemo(t *testing.T) {
	xdssuite.SetXDSResourceManager(store{})
	var o client.Options
	xdssuite.NewRetryPolicy().F(&o, &utils.Slice{})
	for _, h := range hs {
		h(map[string]xdsresource.Resource{"r": &xdsresource.RouteConfigResource{HTTPRouteConfig: &xdsresource.HTTPRouteConfig{VirtualHosts: []*xdsresource.VirtualHost{{Routes: []*xdsresource.Route{{
			WeightedClusters: []*xdsresource.WeightedCluster{{Name: "clusterA", Weight: 1}}, RetryPolicy: xdsresource.RetryPolicy{NumRetries: 2, PerTryTimeout: time.Second,
				RetryBackOff: &xdsresource.RetryBackOff{BaseInterval: 20 * time.Millisecond, MaxInterval: 20 * time.Millisecond}}}}}}}}})
	}
	if d := fmt.Sprint(o.RetryContainer.Dump()); !strings.Contains(d, "fixed") {
		t.Fatal(d)
	}
}
'''),
dict(id="c18-listener-gone", property="C18",
 edits=[(S+"limiter.go",'	tokens := getLimiterPolicy(res)\n','	if len(res) == 0 {\n		return\n	}\n	tokens := getLimiterPolicy(res)\n')],
 needs="the last listener (the inbound one) disappears after it set a limit",
 breaks="the old limit stays in force",
 demo=hdr(CTX,'"errors"','"math"',XR,SU,UT,'kserver "github.com/cloudwego/kitex/server"')+STORE+'''
func TestDemo(t *testing.T) {
	xdssuite.SetXDSResourceManager(store{})
	var o kserver.Options
	xdssuite.NewLimiter(xdssuite.WithServicePort(8080)).F(&o, &utils.Slice{})
	h := hs[0]
	h(map[string]xdsresource.Resource{xdsresource.ReservedLdsResourceName: &xdsresource.ListenerResource{NetworkFilters: []*xdsresource.NetworkFilter{{RoutePort: 8080, InlineRouteConfig: &xdsresource.RouteConfigResource{TokensPerFill: 5}}}}})
	if o.Limit.Limits.MaxQPS != 5 {
		t.Fatal(o.Limit.Limits.MaxQPS)
	}
	h(map[string]xdsresource.Resource{})
	if o.Limit.Limits.MaxQPS != math.MaxInt {
		t.Fatal(o.Limit.Limits.MaxQPS)
	}
}
'''),
dict(id="c19-coarse-access-time", property="C19",
 edits=[(M,'			mt.LastAccessTime.Store(time.Now())','			// avoid an update per lookup\n			if t, ok := mt.LastAccessTime.Load().(time.Time); !ok || time.Since(t) > defaultCacheExpireTime/3 {\n				mt.LastAccessTime.Store(time.Now())\n			}')],
 needs="a lookup shortly after another one, then almost a period without",
 breaks="a resource looked up within the period is evicted",
 demo=hdr()+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	t0 := time.Now()
	subscribe(m, CT, "a")
	s.push(CT, cluster("a", 1))
	for _, at := range []int{25, 33} {
		time.Sleep(time.Until(t0.Add(time.Duration(at) * time.Second)))
		m.Get(bg, CT, "a")
	}
	n := len(s.requests())
	time.Sleep(time.Until(t0.Add(61 * time.Second)))
	if len(s.requests()) != n {
		t.Fatal("a resource in use was withdrawn")
	}
}
'''),
dict(id="c20-override-in-id", property="C20",
 edits=[(B,'		if val := field.GetStringValue(); val != "" {\n			bsConfig.configNamespace = val\n','		if val := field.GetStringValue(); val != "" {\n			bsConfig.configNamespace = val\n			bsConfig.node.Id = nodeId(podIP, podName, val, nodeDomain)\n')],
 needs="metadata with a NAMESPACE other than the pod's",
 breaks="the node identifies itself with the overriding namespace",
 demo=hdr('"os"')+'''
func TestDemo(t *testing.T) {
	s := &server{}
	os.Setenv("KITEX_XDS_METAS", `{"NAMESPACE":"prod"}`)
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	subscribe(m, CT, "a")
	if id := s.requests()[0].Node.Id; id != "sidecar~10.0.0.9~pod-1.default~default.svc.cluster.local" {
		t.Fatal(id)
	}
}
'''),
dict(id="c07-dump-unlocked", property="C07", race=True,
 edits=[(M,'''func (m *xdsResourceManager) Dump() {
	m.mu.Lock()
	defer m.mu.Unlock()

	path := m.opts.DumpPath
	dumpResource := make(map[string]interface{})
	for rType, n := range xdsresource.ResourceTypeToName {
		if res, ok := m.cache[rType]; ok {
			dumpResource[n] = res
		}
	}
''','''func (m *xdsResourceManager) Dump() {
	path := m.opts.DumpPath
	dumpResource := make(map[string]interface{})
	m.mu.Lock()
	for rType, n := range xdsresource.ResourceTypeToName {
		if res, ok := m.cache[rType]; ok {
			dumpResource[n] = res
		}
	}
	m.mu.Unlock()
''')],
 needs="a dump while an update is applied",
 breaks="the cache's maps are read without the lock",
 demo=hdr('"strconv"')+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
				m.(interface{ Dump() }).Dump()
			}
		}
	}()
	for i := 0; i < 20; i++ {
		n := "c" + strconv.Itoa(i)
		subscribe(m, ET, n)
		s.push(ET, endpoints(n, "10.0.0.1", 80, 1))
	}
	close(stop)
	time.Sleep(100 * time.Millisecond)
}
'''),
dict(id="c14-literal-first", property="C14",
 edits=[(C,'''	cip, ok := c.cipResolver.lookupHost(fqdn)
	if ok && len(cip) > 0 {
		return cip[0]
	}
	if fqdn != host {
		cip, ok := c.cipResolver.lookupHost(host)
		if ok && len(cip) > 0 {
			return cip[0]
		}
	}
''','''	cip, ok := c.cipResolver.lookupHost(host)
	if ok && len(cip) > 0 {
		return cip[0]
	}
	if fqdn != host {
		cip, ok := c.cipResolver.lookupHost(fqdn)
		if ok && len(cip) > 0 {
			return cip[0]
		}
	}
''')],
 needs="a name table with entries for both the literal host and its qualified name",
 breaks="the literal host is preferred to the qualified service name",
 demo=hdr(XR)+'''
func TestDemo(t *testing.T) {
	s := &server{}
	go func() {
		for len(s.requests()) == 0 {
			time.Sleep(5 * time.Millisecond)
		}
		s.push(NT, nameTable(map[string]string{"a": "10.0.0.1", "a.default.svc.cluster.local": "10.0.0.2"}))
	}()
	m := newMgr(t, s, true, false, 300*time.Millisecond)
	subscribe(m, LT, "a")
	s.push(LT, listener("10.0.0.1_80", "one"), listener("10.0.0.2_80", "two"))
	r, err := m.Get(bg, LT, "a")
	if err != nil || r.(*xdsresource.ListenerResource).NetworkFilters[0].RouteConfigName != "two" {
		t.Fatal(r, err)
	}
}
'''),
]
BUGS=[b for b in BUGS if b]
for b in BUGS:
    if "circuitbreak.CBConfig" in b["demo"]:
        b["demo"]=b["demo"].replace('import (','import (\n	"github.com/cloudwego/kitex/pkg/circuitbreak"',1)
    if b["id"]=="c14-foreign-domain":
        b["demo"]=b["demo"].replace('import (','import (\n	"github.com/kitex-contrib/xds/core/xdsresource"',1)
