exec(open("/verif/tools/bugs/common.py").read())
BUGS=[
dict(id="c01-shared-listener", property="C01",
 edits=[(C,'''			if lis, ok := res[ln]; ok {
				filteredRes[n] = lis
			}''','''			if lis, ok := res[ln]; ok {
				filteredRes[n] = lis
				delete(res, ln)
			}''')],
 needs="two subscribed hosts which the name table resolves to the same listener",
 breaks="only one of the two names is stored and served"),
dict(id="c02-partial-endpoints", property="C02",
 edits=[(C,'''		return fmt.Errorf("handle endpoint failed: %s", err)
	}
''','''		if len(res) == 0 {
			return fmt.Errorf("handle endpoint failed: %s", err)
		}
		klog.Warnf("KITEX: [XDS] client, some endpoints are ignored: %s", err)
	}
''')],
 needs="a response in which one load assignment decodes and another does not",
 breaks="a rejected response changes the cache"),
dict(id="c04-announce-before-reset", property="C04",
 edits=[(C,'''	// reset nonce map and request
	c.mu.Lock()''','''	// notify others to use the new stream
	c.streamCh <- as
	// reset nonce map and request
	c.mu.Lock()'''),(C,'''	c.mu.Unlock()

	// notify others to use the new stream
	c.streamCh <- as
	return as, nil''','''	c.mu.Unlock()
	return as, nil''')],
 needs="the sender takes the new stream before the receiver has reset the nonces",
 breaks="the first requests of the new stream carry nonces of the old one"),
dict(id="c04-auth-only-first", property="C04",
 edits=[(C,'''	currStream := as
	for {
		select {
		case <-c.closeCh:
			klog.Infof("KITEX: [XDS] client, stop ads client receiver")''','''	currStream := as
	accepted := false
	for {
		select {
		case <-c.closeCh:
			klog.Infof("KITEX: [XDS] client, stop ads client receiver")'''),
 (C,'''				if auth.IsAuthError(err) {''','''				if auth.IsAuthError(err) && !accepted {'''),
 (C,'''			err = c.handleResponse(resp)
''','''			accepted = true
			err = c.handleResponse(resp)
''')],
 needs="an authentication rejection after the control plane has answered once (an expired token)",
 breaks="the client reconnects for ever instead of stopping"),
dict(id="c05-timeout-floor", property="C05",
 edits=[(B,'''	if xsc.FetchXDSTimeout == 0 {
		return defaultXDSFetchTimeout''','''	if xsc.FetchXDSTimeout < time.Millisecond*100 {
		return defaultXDSFetchTimeout''')],
 needs="a configured fetch timeout of less than 100 ms",
 breaks="the lookup outlives its configured deadline"),
dict(id="c07-two-phase-update", property="C07",
 edits=[(M,'''	if rt.RequireFullADSResponse() {
		// remove all''','''	if rt.RequireFullADSResponse() {
		// give the waiting lookups a chance to run
		m.mu.Unlock()
		m.mu.Lock()
		// remove all''')],
 needs="a full update that changes one name and drops another, with lookups of both in between",
 breaks="a lookup returns a dropped resource after a newer one of the same update was observed"),
dict(id="c07-lock-inverted", property="C07",
 edits=[(C,'''			delete(res, name)
		}
	}
	c.mu.RUnlock()
	// update to cache
	c.resourceUpdater.updateWatched(c, xdsresource.ClusterType, res, resp.GetVersionInfo())
	return nil''','''			delete(res, name)
		}
	}
	defer c.mu.RUnlock()
	// update to cache
	c.resourceUpdater.updateWatched(c, xdsresource.ClusterType, res, resp.GetVersionInfo())
	return nil''')],
 needs="a lookup subscribing while a cluster response is being stored",
 breaks="deadlock: the two locks are taken in opposite orders"),
dict(id="c07-sorts-shared-route", property="C07",
 edits=[(S+"router.go",'''	if len(wcs) == 1 {
		return wcs[0].Name, nil
	}
''','''	if len(wcs) == 1 {
		return wcs[0].Name, nil
	}
	// the heaviest first: most draws end at once
	sort.SliceStable(wcs, func(i, j int) bool { return wcs[i].Weight > wcs[j].Weight })
'''),(S+"router.go",'''	"fmt"
''','''	"fmt"
	"sort"
''')],
 needs="two calls routed at once by a table whose clusters are not listed by descending weight",
 breaks="concurrent calls reorder the cached route table: a data race"),
dict(id="c08-inline-final", property="C08",
 edits=[(S+"router.go",'''		if r != nil {
			return r, nil
		}
	}
	// Get the route config''','''		if r != nil {
			return r, nil
		}
		if httpFilter.InlineRouteConfig.HTTPRouteConfig != nil {
			return nil, fmt.Errorf("no matched route in listener %s", ln)
		}
	}
	// Get the route config''')],
 needs="a listener with an inline table that has no matching route and a named table that has one",
 breaks="the named table is not consulted"),
dict(id="c08-thrift-ttheader-only", property="C08",
 edits=[(S+"router.go",'''ri.Config().TransportProtocol() != transport.GRPC {''','''ri.Config().TransportProtocol()&(transport.TTHeader|transport.Framed) != 0 || ri.Config().TransportProtocol() == transport.PurePayload {''')],
 needs="a call whose transport protocol is TTHeader streaming, HESSIAN2 or the like",
 breaks="Thrift routes are ignored for these calls"),
dict(id="c10-stops-at-empty-locality", property="C10",
 edits=[(S+"resolver.go",'''	for _, locality := range endpoints.Localities {
''','''	for _, locality := range endpoints.Localities {
		if len(locality.Endpoints) == 0 {
			break
		}
''')],
 needs="an empty locality followed by one with endpoints",
 breaks="endpoints are lost"),
dict(id="c11-backoff-default", property="C11",
 edits=[(X+"rds.go",'''						MaxInterval:  backoff.GetMaxInterval().AsDuration(),
					}
''','''						MaxInterval:  backoff.GetMaxInterval().AsDuration(),
					}
					if backoff.GetMaxInterval() == nil {
						// the default of Envoy
						route.RetryPolicy.RetryBackOff.MaxInterval = 10 * route.RetryPolicy.RetryBackOff.BaseInterval
					}
''')],
 needs="a back-off without a maximum interval",
 breaks="the maximum interval is not as sent (and the back-off is random instead of fixed)"),
dict(id="c11-empty-bucket-stops", property="C11",
 edits=[(X+"lds.go",'''				if lrl.TokenBucket != nil {
					return lrl.TokenBucket.MaxTokens, lrl.TokenBucket.TokensPerFill.GetValue(), nil
				}''','''				return lrl.GetTokenBucket().GetMaxTokens(), lrl.GetTokenBucket().GetTokensPerFill().GetValue(), nil''')],
 needs="a rate-limit filter without a bucket before the one with the bucket",
 breaks="the bucket is lost"),
dict(id="c12-outlier-default", property="C12",
 edits=[(X+"cds.go",'''	if n := c.GetEdsClusterConfig().GetServiceName(); n != "" {''','''	if c.GetOutlierDetection().GetFailurePercentageRequestVolume() != nil && c.OutlierDetection.FailurePercentageThreshold == nil {
		// the default of Envoy
		ret.OutlierDetection.FailurePercentageThreshold = 85
	}
	if n := c.GetEdsClusterConfig().GetServiceName(); n != "" {''')],
 needs="an outlier detection with a request volume but no threshold",
 breaks="the threshold is not the one sent"),
dict(id="c13-regexp-must", property="C13",
 edits=[(X+"matcher.go",'''				if p.SafeRegex != nil {
					re2, err := regexp.Compile(p.SafeRegex.Regex)
					if err != nil {
						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:", p.SafeRegex.Regex, err)
						continue
					}
''','''				if p.SafeRegex != nil {
					if p.SafeRegex.Regex == "" {
						klog.Warnf("KITEX: [XDS] empty regexp when BuildMatchers")
						continue
					}
					re2 := regexp.MustCompile(p.SafeRegex.Regex)
''')],
 needs="an invalid regular expression in a header condition",
 breaks="decoding panics"),
dict(id="c14-cached-address", property="C14",
 edits=[(C,'''	lookupTable   map[string][]string
	mu            sync.Mutex
''','''	lookupTable   map[string][]string
	found         map[string][]string
	mu            sync.Mutex
'''),(C,'''	ips, ok := r.lookupTable[host]
	return ips, ok''','''	if ips, ok := r.found[host]; ok {
		return ips, true
	}
	ips, ok := r.lookupTable[host]
	if ok {
		if r.found == nil {
			r.found = make(map[string][]string)
		}
		r.found[host] = ips
	}
	return ips, ok''')],
 needs="a name-table update that changes the address of a host after it was resolved once",
 breaks="the host stays bound to the listener of its old address"),
dict(id="c15-empty-tag-undecided", property="C15",
 edits=[(S+"router.go",'''			_, exist := ri.To().Tag(RouterClusterKey)
			if exist {''','''			if picked, _ := ri.To().Tag(RouterClusterKey); picked != "" {''')],
 needs="a call whose destination has been decided with an empty cluster name",
 breaks="the call is routed twice and its timeout changed"),
dict(id="c17-method-policy-kept", property="C17",
 edits=[(S+"retry.go",'''						thisPolicies[key] = struct{}{}
						rc.Container''','''						rc.Container''')],
 needs="a table with per-method policies that is replaced by one without them",
 breaks="the method's policy stays installed"),
dict(id="c18-zero-falls-through", property="C18",
 edits=[(S+"limiter.go",'''	if mt, ok := tokens[l.port]; ok {
		opt''','''	if mt := tokens[l.port]; mt > 0 {
		opt''')],
 needs="a chain of value zero for the service port beside a limited chain without a port",
 breaks="the limit of the chain without a port applies instead of none"),
dict(id="c19-collect-then-delete", property="C19",
 edits=[(M,'''			m.mu.Lock()
			for rt := range m.meta {
				// when the cache is cleared, a remove watch request should be sent to Istiod.
				for rName, meta := range m.meta[rt] {''','''			m.mu.RLock()
			expired := make(map[xdsresource.ResourceType][]string)
			for rt := range m.meta {
				for rName, meta := range m.meta[rt] {'''),
 (M,'''					if !isReservedResource(rt, rName) && time.Since(t) > defaultCacheExpireTime {
						delete(m.meta[rt], rName)
						if m.cache[rt] != nil {
							delete(m.cache[rt], rName)
						}
						m.client.Watch(rt, rName, true)
					}
				}
			}
			m.mu.Unlock()''','''					if !isReservedResource(rt, rName) && time.Since(t) > defaultCacheExpireTime {
						expired[rt] = append(expired[rt], rName)
					}
				}
			}
			m.mu.RUnlock()
			if len(expired) == 0 {
				continue
			}
			m.mu.Lock()
			for rt, names := range expired {
				// when the cache is cleared, a remove watch request should be sent to Istiod.
				for _, rName := range names {
					delete(m.meta[rt], rName)
					if m.cache[rt] != nil {
						delete(m.cache[rt], rName)
					}
					m.client.Watch(rt, rName, true)
				}
			}
			m.mu.Unlock()''')],
 needs="a lookup of an idle resource between the two halves of a sweep",
 breaks="a resource that has just been looked up is evicted"),
dict(id="c19-update-refreshes", property="C19",
 edits=[(M,'''			mt.UpdateTime = updateTime
''','''			mt.UpdateTime = updateTime
			mt.LastAccessTime.Store(updateTime)
''')],
 needs="a resource that is updated but no longer looked up",
 breaks="it is never evicted"),
dict(id="c20-override-not-string", property="C20",
 edits=[(B,'''		if val := field.GetStringValue(); val != "" {
			bsConfig.configNamespace = val
		}''','''		bsConfig.configNamespace = field.GetStringValue()''')],
 needs="a NAMESPACE entry in the metadata that is empty or not a string",
 breaks="the namespace for name expansion is empty"),
dict(id="c20-init-replaces", property="C20",
 edits=[("xds.go",'''	if xdssuite.XDSInited() {
		return nil
	}
	m, err''','''	m, err'''),(S+"xds.go",'''	if xdsResourceManager.manager == nil {
		xdsResourceManager.manager = m
	}''','''	if m != nil {
		xdsResourceManager.manager = m
	}''')],
 needs="a second initialisation",
 breaks="the second manager replaces the first"),
]

MW='''
func inline(c string) *xdsresource.RouteConfigResource {
	return &xdsresource.RouteConfigResource{HTTPRouteConfig: &xdsresource.HTTPRouteConfig{VirtualHosts: []*xdsresource.VirtualHost{
		{Routes: []*xdsresource.Route{{Timeout: 5 * time.Second, Match: &xdsresource.HTTPRouteMatch{Prefix: "/"}, WeightedClusters: []*xdsresource.WeightedCluster{{Name: c, Weight: 1}}}}}}}}
}
'''
BINDING='''
func bound(t *testing.T, m mgr, name, want string) {
	r, err := m.Get(bg, LT, name)
	if err != nil || r.(*xdsresource.ListenerResource).NetworkFilters[0].RouteConfigName != want {
		t.Fatal(r, err)
	}
}
func withNDS(t *testing.T, s *server, nt map[string]string) mgr {
	go func() {
		for len(s.requests()) == 0 {
			time.Sleep(5 * time.Millisecond)
		}
		s.push(NT, nameTable(nt))
	}()
	return newMgr(t, s, true, false, 300*time.Millisecond)
}
'''
DEMOS={
"c01-shared-listener": hdr(XR)+BINDING+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := withNDS(t, s, map[string]string{"a.default.svc.cluster.local": "10.0.0.1", "b.default.svc.cluster.local": "10.0.0.1"})
	subscribe(m, LT, "a")
	subscribe(m, LT, "b")
	s.push(LT, listener("10.0.0.1_80", "one"))
	bound(t, m, "a", "one")
	bound(t, m, "b", "one")
}
''',
"c02-partial-endpoints": hdr(AP)+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	subscribe(m, ET, "a")
	subscribe(m, ET, "b")
	r := s.push(ET, endpoints("a", "10.0.0.1", 80, 1), &anypb.Any{TypeUrl: urls[ET], Value: []byte{0xff}})
	if r == nil || r.ErrorDetail == nil {
		t.Fatal("not rejected")
	}
	if _, err := m.Get(bg, ET, "a"); err == nil {
		t.Fatal("a rejected response was applied")
	}
}
''',
"c04-announce-before-reset": hdr('"strconv"','"sync/atomic"')+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	var bad, first atomic.Value
	first.Store(-1)
	s.onReq = func(st *stream, r *discovery.DiscoveryRequest) {
		if first.Load() != st.id {
			first.Store(st.id)
			if r.ResponseNonce != "" && r.ResponseNonce != "n"+strconv.Itoa(st.id) {
				bad.Store(r.ResponseNonce + " on " + strconv.Itoa(st.id))
			}
		}
		s.mu.Lock()
		if len(s.reqs) > 10 {
			s.reqs = s.reqs[len(s.reqs)-5:]
			s.on = s.on[len(s.on)-5:]
		}
		s.mu.Unlock()
	}
	subscribe(m, CT, "a")
	ctx, cancel := context.WithCancel(bg)
	cancel()
	stop := make(chan struct{})
	go func() {
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			m.Get(ctx, CT, "c"+strconv.Itoa(i%50))
			m.Get(ctx, CT, "c"+strconv.Itoa(i%50+1))
			time.Sleep(5 * time.Microsecond)
		}
	}()
	defer close(stop)
	for end := time.Now().Add(40 * time.Second); time.Now().Before(end) && bad.Load() == nil; {
		st := s.last()
		st.ch <- rmsg{resp: &discovery.DiscoveryResponse{TypeUrl: urls[CT], VersionInfo: "v", Nonce: "n" + strconv.Itoa(st.id)}}
		st.fail()
		for s.last() == st {
			time.Sleep(10 * time.Microsecond)
		}
		time.Sleep(500 * time.Microsecond)
	}
	if b := bad.Load(); b != nil {
		t.Fatal("nonce of an old stream: ", b)
	}
}
''',
"c04-auth-only-first": hdr('"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/codes"','"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status"')+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	subscribe(m, CT, "a")
	s.push(CT, cluster("a", 1))
	s.last().ch <- rmsg{err: status.Err(codes.Unauthenticated, "expired")}
	time.Sleep(3 * time.Second)
	if len(s.streams) != 1 {
		t.Fatal("reconnected after an authentication failure")
	}
}
''',
"c05-timeout-floor": hdr()+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 50*time.Millisecond)
	t0 := time.Now()
	m.Get(bg, CT, "a")
	if d := time.Since(t0); d > 600*time.Millisecond {
		t.Fatal(d)
	}
}
''',
"c07-two-phase-update": hdr('"sync"')+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	ctx, cancel := context.WithCancel(bg)
	cancel()
	subscribe(m, CT, "a")
	subscribe(m, CT, "b")
	for i := 0; i < 60; i++ {
		s.push(CT, cluster("a", 1), cluster("b", 1))
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for j := 0; j < 8; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					if v, err := volume(t, m, "a"); err == nil && v == 2 {
						if r, err := m.Get(ctx, CT, "b"); err == nil && r != nil {
							t.Error("the update shows in a but not in b")
							return
						}
					}
				}
			}()
		}
		s.push(CT, cluster("a", 2))
		close(stop)
		wg.Wait()
		if t.Failed() {
			return
		}
	}
}
''',
"c07-lock-inverted": hdr('"strconv"')+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	ctx, cancel := context.WithCancel(bg)
	cancel()
	done := make(chan struct{})
	subscribe(m, CT, "a")
	go func() {
		for i := 0; i < 20000; i++ {
			m.Get(ctx, CT, "c"+strconv.Itoa(i%20))
			if i%8 == 0 {
				s.last().ch <- rmsg{resp: &discovery.DiscoveryResponse{TypeUrl: urls[CT], VersionInfo: "v", Nonce: "n", Resources: []*anypb.Any{cluster("a", 1)}}}
			}
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("deadlock")
	}
}
''',
"c07-sorts-shared-route": hdr(CTX,'"errors"','"sync"',XR,SU,RI,RE)+STORE+CALL+'''
func TestDemo(t *testing.T) {
	st := store{LT: {"dst": &xdsresource.ListenerResource{NetworkFilters: []*xdsresource.NetworkFilter{{RouteConfigName: "r"}}}}, RT: {}}
	xdssuite.SetXDSResourceManager(st)
	for n := 0; n < 200; n++ {
		var wcs []*xdsresource.WeightedCluster
		for i := 0; i < 20; i++ {
			wcs = append(wcs, &xdsresource.WeightedCluster{Name: string(rune('a' + i)), Weight: uint32(i)})
		}
		st[RT]["r"] = &xdsresource.RouteConfigResource{HTTPRouteConfig: &xdsresource.HTTPRouteConfig{VirtualHosts: []*xdsresource.VirtualHost{
			{Routes: []*xdsresource.Route{{Match: &xdsresource.HTTPRouteMatch{Prefix: "/"}, WeightedClusters: wcs}}}}}}
		router := xdssuite.NewXDSRouter()
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ctx, ri := call("s", "m")
				<-start
				if _, err := router.Route(ctx, ri); err != nil {
					t.Error(err)
				}
			}()
		}
		close(start)
		wg.Wait()
	}
}
''',
"c08-inline-final": hdr(CTX,'"errors"',XR,SU,RI,RE)+STORE+CALL+MW+'''
func TestDemo(t *testing.T) {
	in := &xdsresource.RouteConfigResource{HTTPRouteConfig: &xdsresource.HTTPRouteConfig{VirtualHosts: []*xdsresource.VirtualHost{
		{Routes: []*xdsresource.Route{{Match: &xdsresource.HTTPRouteMatch{Path: "/other/path"}, WeightedClusters: []*xdsresource.WeightedCluster{{Name: "no", Weight: 1}}}}}}}}
	xdssuite.SetXDSResourceManager(store{LT: {"dst": &xdsresource.ListenerResource{NetworkFilters: []*xdsresource.NetworkFilter{{RouteConfigName: "r", InlineRouteConfig: in}}}}, RT: {"r": inline("c")}})
	ctx, ri := call("s", "m")
	res, err := xdssuite.NewXDSRouter().Route(ctx, ri)
	if err != nil || res.ClusterPicked != "c" {
		t.Fatal(res, err)
	}
}
''',
"c08-thrift-ttheader-only": hdr(CTX,'"errors"','"github.com/cloudwego/kitex/transport"',XR,SU,RI,RE)+STORE+CALL+MW+'''
func TestDemo(t *testing.T) {
	th := &xdsresource.RouteConfigResource{ThriftRouteConfig: &xdsresource.ThriftRouteConfig{Routes: []*xdsresource.Route{
		{Match: &xdsresource.ThriftRouteMatch{Method: "m"}, WeightedClusters: []*xdsresource.WeightedCluster{{Name: "thrift", Weight: 1}}}}}}
	xdssuite.SetXDSResourceManager(store{LT: {"dst": &xdsresource.ListenerResource{NetworkFilters: []*xdsresource.NetworkFilter{
		{FilterType: xdsresource.NetworkFilterTypeHTTP, InlineRouteConfig: inline("http")}, {FilterType: xdsresource.NetworkFilterTypeThrift, InlineRouteConfig: th}}}}})
	for _, p := range []transport.Protocol{transport.PurePayload, transport.TTHeader, transport.Framed, transport.HTTP, transport.HESSIAN2, transport.TTHeaderFramed, transport.GRPC} {
		ctx, ri := call("s", "m")
		rpcinfo.AsMutableRPCConfig(ri.Config()).SetTransportProtocol(p)
		want := "thrift"
		if ri.Config().TransportProtocol() == transport.GRPC {
			want = "http"
		}
		res, err := xdssuite.NewXDSRouter().Route(ctx, ri)
		if err != nil || res.ClusterPicked != want {
			t.Fatal(p, res, err)
		}
	}
}
''',
"c10-stops-at-empty-locality": hdr(CTX,'"errors"',XR,SU)+STORE+'''
func TestDemo(t *testing.T) {
	m, err := xdsresource.UnmarshalEDS([]*anypb.Any{pack(urls[ET], &v3endpoint.ClusterLoadAssignment{ClusterName: "c", Endpoints: []*v3endpoint.LocalityLbEndpoints{
		{LbEndpoints: []*v3endpoint.LbEndpoint{lb("10.0.0.1", 80, 1)}}, {}, {LbEndpoints: []*v3endpoint.LbEndpoint{lb("10.0.0.2", 80, 1)}}}})})
	if err != nil {
		t.Fatal(err)
	}
	xdssuite.SetXDSResourceManager(store{CT: {"c": &xdsresource.ClusterResource{EndpointName: "c"}}, ET: {"c": m["c"]}})
	res, err := xdssuite.NewXDSResolver().Resolve(context.Background(), "c")
	if err != nil || len(res.Instances) != 2 {
		t.Fatal(res, err)
	}
}
''',
"c11-backoff-default": hdr(AP,PB,XR,V3R)+'''
func TestDemo(t *testing.T) {
	r := route("/", "c")
	r.GetRoute().RetryPolicy = &v3route.RetryPolicy{RetryBackOff: &v3route.RetryPolicy_RetryBackOff{BaseInterval: durationpb.New(20 * time.Millisecond)}}
	m, err := xdsresource.UnmarshalRDS([]*anypb.Any{table("t", r)})
	if err != nil {
		t.Fatal(err)
	}
	b := m["t"].(*xdsresource.RouteConfigResource).HTTPRouteConfig.VirtualHosts[0].Routes[0].RetryPolicy.RetryBackOff
	if b.BaseInterval != 20*time.Millisecond || b.MaxInterval != 0 {
		t.Fatal(b)
	}
}
''',
"c11-empty-bucket-stops": hdr(AP,XR,V3L,V3R,'v3type "github.com/envoyproxy/go-control-plane/envoy/type/v3"','v3rl "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"','v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"')+'''
func TestDemo(t *testing.T) {
	rl := func(l *v3rl.LocalRateLimit) *v3hcm.HttpFilter {
		return &v3hcm.HttpFilter{Name: "envoy.filters.http.local_ratelimit", ConfigType: &v3hcm.HttpFilter_TypedConfig{TypedConfig: pack(rlURL, l)}}
	}
	h := &v3hcm.HttpConnectionManager{
		RouteSpecifier: &v3hcm.HttpConnectionManager_RouteConfig{RouteConfig: &v3route.RouteConfiguration{Name: "r"}},
		HttpFilters:    []*v3hcm.HttpFilter{rl(&v3rl.LocalRateLimit{StatPrefix: "a"}), rl(&v3rl.LocalRateLimit{StatPrefix: "b", TokenBucket: &v3type.TokenBucket{MaxTokens: 7, TokensPerFill: u32(5)}})},
	}
	l := &v3listener.Listener{Name: "l", FilterChains: []*v3listener.FilterChain{{Filters: []*v3listener.Filter{{Name: "f", ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: pack(hcmURL, h)}}}}}}
	m, err := xdsresource.UnmarshalLDS([]*anypb.Any{pack(urls[LT], l)})
	if err != nil {
		t.Fatal(err)
	}
	if c := m["l"].NetworkFilters[0].InlineRouteConfig; c.MaxTokens != 7 || c.TokensPerFill != 5 {
		t.Fatal(c.MaxTokens, c.TokensPerFill)
	}
}
''',
"c12-outlier-default": hdr(AP,XR,V3C)+'''
func TestDemo(t *testing.T) {
	c := &v3cluster.Cluster{Name: "c", OutlierDetection: &v3cluster.OutlierDetection{FailurePercentageRequestVolume: u32(9)}}
	m, err := xdsresource.UnmarshalCDS([]*anypb.Any{pack(urls[CT], c)})
	if err != nil {
		t.Fatal(err)
	}
	if o := m["c"].(*xdsresource.ClusterResource).OutlierDetection; o.FailurePercentageThreshold != 0 || o.FailurePercentageRequestVolume != 9 {
		t.Fatal(o)
	}
}
''',
"c13-regexp-must": hdr(AP,XR,V3R,V3M)+'''
func TestDemo(t *testing.T) {
	r := route("/", "c")
	r.Match.Headers = []*v3route.HeaderMatcher{{Name: "h", HeaderMatchSpecifier: &v3route.HeaderMatcher_StringMatch{
		StringMatch: &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: "a("}}}}}}
	xdsresource.UnmarshalRDS([]*anypb.Any{table("t", r)})
}
''',
"c14-cached-address": hdr(XR)+BINDING+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := withNDS(t, s, map[string]string{"a.default.svc.cluster.local": "10.0.0.1"})
	subscribe(m, LT, "a")
	s.push(LT, listener("10.0.0.1_80", "one"), listener("10.0.0.2_80", "two"))
	bound(t, m, "a", "one")
	s.push(NT, nameTable(map[string]string{"a.default.svc.cluster.local": "10.0.0.2"}))
	s.push(LT, listener("10.0.0.1_80", "one"), listener("10.0.0.2_80", "two"))
	bound(t, m, "a", "two")
}
''',
"c15-empty-tag-undecided": hdr(CTX,'"errors"',XR,SU,RI,RE)+STORE+CALL+MW+'''
func TestDemo(t *testing.T) {
	xdssuite.SetXDSResourceManager(store{LT: {"dst": &xdsresource.ListenerResource{NetworkFilters: []*xdsresource.NetworkFilter{{RouteConfigName: "r"}}}}, RT: {"r": inline("c")}})
	ctx, ri := call("s", "m")
	remoteinfo.AsRemoteInfo(ri.To()).SetTag(xdssuite.RouterClusterKey, "")
	rpcinfo.AsMutableRPCConfig(ri.Config()).SetRPCTimeout(time.Second)
	err := xdssuite.NewXDSRouterMiddleware()(func(ctx context.Context, req, resp interface{}) error { return nil })(ctx, nil, nil)
	if v, ok := ri.To().Tag(xdssuite.RouterClusterKey); err != nil || !ok || v != "" || ri.Config().RPCTimeout() != time.Second {
		t.Fatal(err, v, ri.Config().RPCTimeout())
	}
}
''',
"c17-method-policy-kept": hdr(CTX,'"errors"','"fmt"','"strings"',XR,SU,UT,CL)+STORE+'''
func TestDemo(t *testing.T) {
	xdssuite.SetXDSResourceManager(store{})
	var o client.Options
	xdssuite.NewRetryPolicy().F(&o, &utils.Slice{})
	up := func(methods ...string) map[string]xdsresource.Resource {
		return map[string]xdsresource.Resource{"r": &xdsresource.RouteConfigResource{HTTPRouteConfig: &xdsresource.HTTPRouteConfig{VirtualHosts: []*xdsresource.VirtualHost{{Routes: []*xdsresource.Route{{
			WeightedClusters: []*xdsresource.WeightedCluster{{Name: "clusterA", Weight: 1}}, RetryPolicy: xdsresource.RetryPolicy{NumRetries: 2, PerTryTimeout: time.Second, CBErrorRate: 0.2, Methods: methods}}}}}}}}
	}
	hs[0](up("method1"))
	if d := fmt.Sprint(o.RetryContainer.Dump()); !strings.Contains(d, "clusterA|method1:map") {
		t.Fatal(d)
	}
	hs[0](up())
	if d := fmt.Sprint(o.RetryContainer.Dump()); strings.Contains(d, "clusterA|method1:map") {
		t.Fatal(d)
	}
}
''',
"c18-zero-falls-through": hdr(CTX,'"errors"','"math"',XR,SU,UT,'kserver "github.com/cloudwego/kitex/server"')+STORE+'''
func TestDemo(t *testing.T) {
	xdssuite.SetXDSResourceManager(store{})
	var o kserver.Options
	xdssuite.NewLimiter(xdssuite.WithServicePort(8080)).F(&o, &utils.Slice{})
	nf := func(port, tokens uint32) *xdsresource.NetworkFilter {
		return &xdsresource.NetworkFilter{RoutePort: port, InlineRouteConfig: &xdsresource.RouteConfigResource{TokensPerFill: tokens}}
	}
	hs[0](map[string]xdsresource.Resource{xdsresource.ReservedLdsResourceName: &xdsresource.ListenerResource{NetworkFilters: []*xdsresource.NetworkFilter{nf(8080, 0), nf(xdsresource.DefaultServerPort, 5)}}})
	if o.Limit.Limits.MaxQPS != math.MaxInt {
		t.Fatal(o.Limit.Limits.MaxQPS)
	}
}
''',
"c19-collect-then-delete": hdr('"strconv"')+'''
func TestDemo(t *testing.T) {
	const n = 6000
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	t0 := time.Now()
	s.onReq = func(*stream, *discovery.DiscoveryRequest) {
		s.mu.Lock()
		if len(s.reqs) > 10 {
			s.reqs = s.reqs[len(s.reqs)-5:]
			s.on = s.on[len(s.on)-5:]
		}
		s.mu.Unlock()
	}
	ctx, cancel := context.WithCancel(bg)
	cancel()
	var res []*anypb.Any
	for i := 0; i < n; i++ {
		m.Get(ctx, ET, strconv.Itoa(i))
		res = append(res, endpoints(strconv.Itoa(i), "10.0.0.1", 80, 1))
	}
	s.push(ET, res...)
	if _, err := m.Get(ctx, ET, "0"); err != nil || time.Since(t0) > 25*time.Second {
		t.Skip("too slow")
	}
	time.Sleep(time.Until(t0.Add(60*time.Second - 60*time.Millisecond)))
	var found []int
	for i := 0; i < n; i++ {
		for x := time.Now(); time.Since(x) < 14*time.Microsecond; {
		}
		if _, err := m.Get(ctx, ET, strconv.Itoa(i)); err == nil {
			found = append(found, i)
		} else if len(found) > 0 {
			break
		}
	}
	time.Sleep(200 * time.Millisecond)
	lost := 0
	for _, i := range found {
		if _, err := m.Get(ctx, ET, strconv.Itoa(i)); err != nil {
			lost++
		}
	}
	if lost > 0 {
		t.Fatal(lost, " of ", len(found), " resources were withdrawn after their lookup")
	}
}
''',
"c19-update-refreshes": hdr()+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	t0 := time.Now()
	subscribe(m, ET, "a")
	s.push(ET, endpoints("a", "10.0.0.1", 80, 1))
	for i := 1; i < 7; i++ {
		time.Sleep(time.Until(t0.Add(time.Duration(i) * 13 * time.Second)))
		s.push(ET, endpoints("a", "10.0.0.1", 80, 1))
	}
	time.Sleep(time.Until(t0.Add(91 * time.Second)))
	rs := s.requests()
	if len(rs[len(rs)-1].ResourceNames) != 0 {
		t.Fatal("an idle resource is kept")
	}
}
''',
"c20-override-not-string": hdr(XR,'"os"')+BINDING+'''
func TestDemo(t *testing.T) {
	s := &server{}
	os.Setenv("KITEX_XDS_METAS", `{"NAMESPACE":""}`)
	m := withNDS(t, s, map[string]string{"a.default.svc.cluster.local": "10.0.0.1"})
	subscribe(m, LT, "a")
	s.push(LT, listener("10.0.0.1_80", "one"))
	bound(t, m, "a", "one")
}
''',
"c20-init-replaces": hdr('"os"','"github.com/kitex-contrib/xds"','"github.com/kitex-contrib/xds/core/manager"','ads "github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"')+'''
func TestDemo(t *testing.T) {
	env()
	var made int
	ads.DemoNewClient = func() (ads.Client, error) { made++; return &server{}, nil }
	for i := 0; i < 2; i++ {
		err := xds.Init(manager.Option{F: func(o *manager.Options) {
			o.XDSSvrConfig = &manager.XDSServerConfig{SvrName: "istiod", SvrAddr: "istiod:15010", NDSNotRequired: true, LDSNotRequired: true}
			o.DumpPath = os.DevNull
		}})
		if err != nil {
			t.Fatal(err)
		}
	}
	if made != 1 {
		t.Fatal("a second manager was made")
	}
}
''',
}
DI={"context.":CTX,"discovery.":'discovery "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"',"anypb.":AP,"v3endpoint.":'v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"'}
for b in BUGS:
    d=DEMOS[b["id"]]
    for k,v in DI.items():
        if k in d.split(")",1)[1] and v not in d: d=d.replace("import (","import (\n\t"+v,1)
    b["demo"]=d
    b["race"]=b["id"]=="c07-sorts-shared-route"
