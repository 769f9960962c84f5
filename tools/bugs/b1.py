C="core/manager/client.go"; M="core/manager/manager.go"
HDR='''package zzdemo

import (
	"testing"
	"time"
)
var _ = time.Now
'''
BUGS=[
dict(id="c02-nack-old-nonce", property="C02",
 edits=[(C,'		c.versionMap[rType] = version\n	} else {','		c.versionMap[rType] = version\n		c.nonceMap[rType] = nonce\n	} else {'),
        (C,'''	c.nonceMap[rType] = nonce

	// prepare resource name
	req := c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], c.watchedResource[rType])
	// NACK''','''
	// prepare resource name
	req := c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], c.watchedResource[rType])
	// NACK''')],
 needs="a rejected response",
 breaks="a NACK echoes the nonce of an earlier response, so the control plane ignores it",
 demo=HDR+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	subscribe(m, CT, "a")
	if r := s.push(CT, cluster("a", 1)); r == nil || r.ErrorDetail != nil {
		t.Fatal("not acknowledged")
	}
	bad := cluster("a", 2)
	bad.TypeUrl = urls[RT]
	if r := s.push(CT, bad); r == nil || r.ErrorDetail == nil || r.VersionInfo != "v01" {
		t.Fatalf("no NACK of the rejected response: %v", r)
	}
}
'''),
dict(id="c03-last-name-kept", property="C03",
 edits=[(C,'		delete(c.watchedResource[rType], rName)\n	} else {','		if len(c.watchedResource[rType]) > 1 {\n			delete(c.watchedResource[rType], rName)\n		}\n	} else {')],
 needs="the eviction of the only name of a type (an idle resource, two sweeps)",
 breaks="the last name of a type is never withdrawn from the interest set",
 demo=HDR+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	subscribe(m, CT, "a")
	s.push(CT, cluster("a", 1))
	time.Sleep(62 * time.Second)
	rs := s.requests()
	if l := rs[len(rs)-1]; len(l.ResourceNames) != 0 {
		t.Fatalf("an evicted name is still requested: %v", l.ResourceNames)
	}
}
'''),
dict(id="c04-queue-not-drained", property="C04",
 edits=[(C,'	c.nonceMap = make(map[xdsresource.ResourceType]string)\n	clearRequestCh(c.reqCh, len(c.reqCh))','	c.nonceMap = make(map[xdsresource.ResourceType]string)')],
 needs="requests still queued (the old stream blocks in Send) when the stream is replaced",
 breaks="requests built for the old stream, with its nonces, are sent on the new stream",
 demo=HDR.replace('import (','import (\n	discovery "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"')+'''
func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ { // the sender picks the new stream or the queue
		once(t)
	}
}

func once(t *testing.T) {
	s := &server{}
	gate := make(chan struct{})
	block := false
	s.sendErr = func(st *stream, r *discovery.DiscoveryRequest) error {
		if st.id == 0 && block {
			<-gate
		}
		return nil
	}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	subscribe(m, CT, "a")
	s.push(CT, cluster("a", 1))
	block = true
	go m.Get(bg, CT, "b")
	time.Sleep(50 * time.Millisecond)
	go m.Get(bg, CT, "c")
	time.Sleep(50 * time.Millisecond)
	s.last().fail()
	time.Sleep(100 * time.Millisecond)
	close(gate)
	time.Sleep(200 * time.Millisecond)
	s.mu.Lock()
	defer s.mu.Unlock()
	for i, r := range s.reqs {
		if s.on[i] == 1 && r.ResponseNonce != "" {
			t.Fatalf("nonce %s of the old stream on the new one", r.ResponseNonce)
		}
	}
}
'''),
dict(id="c05-ignores-caller", property="C05",
 edits=[(M,'context.WithTimeout(ctx, m.opts.XDSSvrConfig.GetFetchXDSTimeout())','context.WithTimeout(context.Background(), m.opts.XDSSvrConfig.GetFetchXDSTimeout())')],
 needs="a caller whose own deadline or cancellation comes before the fetch timeout",
 breaks="the lookup outlives its caller's deadline",
 demo=HDR.replace('"testing"','"context"\n	"testing"')+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 2*time.Second)
	ctx, cancel := context.WithTimeout(bg, 100*time.Millisecond)
	defer cancel()
	t0 := time.Now()
	m.Get(ctx, CT, "a")
	if time.Since(t0) > time.Second {
		t.Fatal("the lookup outlived its caller")
	}
}
'''),
dict(id="c05-negative-kind", property="C05",
 edits=[(M,'if _, ok := xdsresource.ResourceTypeToURL[rType]; !ok {','if rType == xdsresource.UnknownResource || rType > xdsresource.NameTableType {')],
 needs="a kind below zero",
 breaks="an unknown kind is subscribed and waits for its deadline",
 demo=HDR+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 500*time.Millisecond)
	if _, err := m.Get(bg, -3, "a"); err == nil {
		t.Fatal("no error")
	}
	if n := len(s.requests()); n != 0 {
		t.Fatal("an unknown kind was requested")
	}
}
'''),
dict(id="c07-filter-unlocked", property="C07", race=True,
 edits=[(C,'''	c.mu.RLock()
	for name := range res {
		if _, ok := c.watchedResource[xdsresource.ClusterType][name]; !ok {
			delete(res, name)
		}
	}
	c.mu.RUnlock()''','''	c.mu.RLock()
	watched := c.watchedResource[xdsresource.ClusterType]
	c.mu.RUnlock()
	for name := range res {
		if _, ok := watched[name]; !ok {
			delete(res, name)
		}
	}''')],
 needs="a first lookup of a cluster while a cluster response is being filtered",
 breaks="data race between the filtering of a response and a subscription",
 demo=HDR.replace('"testing"','"fmt"\n	"context"\n	"google.golang.org/protobuf/types/known/anypb"\n	"testing"')+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	subscribe(m, CT, "a")
	stop := make(chan struct{})
	go func() {
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			ctx, cancel := context.WithCancel(bg)
			cancel()
			m.Get(ctx, CT, fmt.Sprint("n", i%200))
			time.Sleep(20 * time.Microsecond)
		}
	}()
	all := []*anypb.Any{}
	for i := 0; i < 20000; i++ {
		all = append(all, cluster(fmt.Sprint("x", i), 1))
	}
	for i := 0; i < 10; i++ {
		s.push(CT, all...)
	}
	close(stop)
}
'''),
dict(id="c07-replay-unlocked", property="C07", race=True,
 edits=[(M,'''	m.mu.Lock()
	defer m.mu.Unlock()

	m.xdsHandlers[resourceType] = append(m.xdsHandlers[resourceType], handler)

	res, ok := m.cache[resourceType]
	if ok {''','''	m.mu.Lock()
	m.xdsHandlers[resourceType] = append(m.xdsHandlers[resourceType], handler)
	res, ok := m.cache[resourceType]
	m.mu.Unlock()

	if ok {''')],
 needs="a handler registered while an update of its type is being applied",
 breaks="the late handler reads the cache without the lock, and may run after a newer update and leave an old policy",
 demo=HDR.replace('import (','import (\n	"github.com/kitex-contrib/xds/core/xdsresource"')+'''
func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	subscribe(m, CT, "a")
	s.push(CT, cluster("a", 1))
	go func() {
		for i := 0; i < 200; i++ {
			m.RegisterXDSUpdateHandler(CT, func(r map[string]xdsresource.Resource) {
				for range r {
				}
			})
			time.Sleep(time.Millisecond)
		}
	}()
	for i := 0; i < 10; i++ {
		s.push(CT, cluster("a", uint32(i)))
	}
}
'''),
dict(id="c09-percent", property="C09",
 edits=[("xdssuite/router.go",'	if len(wcs) == 1 {\n','	// a weight of 100 is all of the traffic\n	if len(wcs) == 1 || wcs[0].Weight >= 100 {\n')],
 needs="weights that do not add up to 100",
 breaks="the first cluster takes all the traffic as soon as its weight is 100 or more",
 demo='''package zzdemo
import (
	"testing"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	"github.com/cloudwego/kitex/transport"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	"time"
	"github.com/kitex-contrib/xds/xdssuite"
)

func TestDemo(t *testing.T) {
	s := &server{}
	m := newMgr(t, s, false, false, 300*time.Millisecond)
	subscribe(m, LT, "svc")
	s.push(LT, listener("svc", "r"))
	subscribe(m, RT, "r")
	s.push(RT, table("r", &v3route.Route{
		Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
		Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_WeightedClusters{WeightedClusters: &v3route.WeightedCluster{
			Clusters: []*v3route.WeightedCluster_ClusterWeight{{Name: "a", Weight: u32(100)}, {Name: "b", Weight: u32(900)}}}}}},
	}))
	xdssuite.SetXDSResourceManager(m)
	r := xdssuite.NewXDSRouter()
	n := 0
	for i := 0; i < 500; i++ {
		to := remoteinfo.NewRemoteInfo(&rpcinfo.EndpointBasicInfo{ServiceName: "svc", Method: "m"}, "m")
		cfg := rpcinfo.NewRPCConfig()
		_ = rpcinfo.AsMutableRPCConfig(cfg).SetTransportProtocol(transport.GRPC)
		res, err := r.Route(bg, rpcinfo.NewRPCInfo(nil, to, rpcinfo.NewInvocation("S", "m"), cfg, rpcinfo.NewRPCStats()))
		if err != nil {
			t.Fatal(err)
		}
		if res.ClusterPicked == "b" {
			n++
		}
	}
	if n < 300 {
		t.Fatalf("the cluster with 90%% of the weight got %d of 500 calls", n)
	}
}
'''),
]
