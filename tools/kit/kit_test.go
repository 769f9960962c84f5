package zzdemo

import (
	"context"
	"errors"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/cloudwego/kitex/client/callopt"
	"github.com/cloudwego/kitex/pkg/streaming"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	discovery "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	ads "github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
	nds "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
)

const (
	LT = xdsresource.ListenerType
	RT = xdsresource.RouteConfigType
	CT = xdsresource.ClusterType
	ET = xdsresource.EndpointsType
	NT = xdsresource.NameTableType

	hcmURL = "type.googleapis.com/envoy.extensions.filters.network.http_connection_manager.v3.HttpConnectionManager"
	rlURL  = "type.googleapis.com/envoy.extensions.filters.http.local_ratelimit.v3.LocalRateLimit"
	tpURL  = "type.googleapis.com/envoy.extensions.filters.network.thrift_proxy.v3.ThriftProxy"
)

var urls = map[xdsresource.ResourceType]string{
	LT: "type.googleapis.com/envoy.config.listener.v3.Listener",
	RT: "type.googleapis.com/envoy.config.route.v3.RouteConfiguration",
	CT: "type.googleapis.com/envoy.config.cluster.v3.Cluster",
	ET: "type.googleapis.com/envoy.config.endpoint.v3.ClusterLoadAssignment",
	NT: "type.googleapis.com/istio.networking.nds.v1.NameTable",
}

type rmsg struct {
	resp *discovery.DiscoveryResponse
	err  error
}

// server is an in-memory control plane.
type server struct {
	mu      sync.Mutex
	streams []*stream
	reqs    []*discovery.DiscoveryRequest
	on      []int // stream of each request
	onReq   func(st *stream, r *discovery.DiscoveryRequest)
	sendErr func(st *stream, r *discovery.DiscoveryRequest) error
	seq     int
}

type stream struct {
	streaming.Stream
	srv *server
	id  int
	ch  chan rmsg
}

func (s *server) StreamAggregatedResources(ctx context.Context, o ...callopt.Option) (ads.AggregatedDiscoveryService_StreamAggregatedResourcesClient, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	st := &stream{srv: s, id: len(s.streams), ch: make(chan rmsg, 1024)}
	s.streams = append(s.streams, st)
	return st, nil
}

func (s *server) DeltaAggregatedResources(ctx context.Context, o ...callopt.Option) (ads.AggregatedDiscoveryService_DeltaAggregatedResourcesClient, error) {
	return nil, errors.New("no delta")
}

func (st *stream) Send(r *discovery.DiscoveryRequest) error {
	s := st.srv
	if s.sendErr != nil {
		if err := s.sendErr(st, r); err != nil {
			return err
		}
	}
	s.mu.Lock()
	s.reqs = append(s.reqs, r)
	s.on = append(s.on, st.id)
	f := s.onReq
	s.mu.Unlock()
	if f != nil {
		f(st, r)
	}
	return nil
}

func (st *stream) Recv() (*discovery.DiscoveryResponse, error) {
	m := <-st.ch
	return m.resp, m.err
}

func (st *stream) Close() error { return nil }

func (st *stream) fail() { st.ch <- rmsg{err: errors.New("broken")} }

func (s *server) last() *stream {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.streams[len(s.streams)-1]
}

func (s *server) requests() []*discovery.DiscoveryRequest {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*discovery.DiscoveryRequest{}, s.reqs...)
}

func pack(url string, m proto.Message) *anypb.Any {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	return &anypb.Any{TypeUrl: url, Value: b}
}

// push sends a response and waits for the request that answers it; it
// returns that request (nil if none comes).
func (s *server) push(rt xdsresource.ResourceType, res ...*anypb.Any) *discovery.DiscoveryRequest {
	s.mu.Lock()
	s.seq++
	d := string(rune('0'+s.seq/10)) + string(rune('0'+s.seq%10))
	s.mu.Unlock()
	st := s.last()
	st.ch <- rmsg{resp: &discovery.DiscoveryResponse{TypeUrl: urls[rt], VersionInfo: "v" + d, Nonce: "n" + d, Resources: res}}
	for i := 0; i < 100; i++ {
		time.Sleep(5 * time.Millisecond)
		for _, r := range s.requests() {
			if r.TypeUrl == urls[rt] && r.ResponseNonce == "n"+d {
				time.Sleep(30 * time.Millisecond)
				return r
			}
		}
	}
	return nil
}

type mgr interface {
	Get(ctx context.Context, rt xdsresource.ResourceType, name string) (interface{}, error)
	RegisterXDSUpdateHandler(rt xdsresource.ResourceType, h xdsresource.XDSUpdateHandler)
	Close()
}

func env() {
	os.Setenv("POD_NAMESPACE", "default")
	os.Setenv("POD_NAME", "pod-1")
	os.Setenv("INSTANCE_IP", "10.0.0.9")
	os.Setenv("KITEX_XDS_DOMAIN", "cluster.local")
}

func newMgr(t *testing.T, s *server, needNDS, needLDS bool, timeout time.Duration) mgr {
	env()
	ads.DemoNewClient = func() (ads.Client, error) { return s, nil }
	m, err := manager.NewXDSResourceManager(nil, manager.Option{F: func(o *manager.Options) {
		o.XDSSvrConfig = &manager.XDSServerConfig{SvrName: "istiod", SvrAddr: "istiod:15010", NDSNotRequired: !needNDS, LDSNotRequired: !needLDS, FetchXDSTimeout: timeout}
		o.DumpPath = os.DevNull
	}})
	if err != nil {
		t.Fatal(err)
	}
	return m
}

var bg = context.Background()

// subscribe asks for a name without waiting for it.
func subscribe(m mgr, rt xdsresource.ResourceType, name string) {
	ctx, cancel := context.WithCancel(bg)
	cancel()
	m.Get(ctx, rt, name)
	time.Sleep(30 * time.Millisecond)
}

func u32(v uint32) *wrapperspb.UInt32Value { return &wrapperspb.UInt32Value{Value: v} }

func cluster(name string, volume uint32) *anypb.Any {
	return pack(urls[CT], &v3cluster.Cluster{Name: name, OutlierDetection: &v3cluster.OutlierDetection{FailurePercentageRequestVolume: u32(volume), FailurePercentageThreshold: u32(10)}})
}

func volume(t *testing.T, m mgr, name string) (uint32, error) {
	r, err := m.Get(bg, CT, name)
	if err != nil {
		return 0, err
	}
	return r.(*xdsresource.ClusterResource).OutlierDetection.FailurePercentageRequestVolume, nil
}

func route(prefix, cluster string) *v3route.Route {
	return &v3route.Route{
		Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: prefix}},
		Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: cluster}}},
	}
}

func table(name string, routes ...*v3route.Route) *anypb.Any {
	return pack(urls[RT], &v3route.RouteConfiguration{Name: name, VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: routes}}})
}

func endpoints(name, addr string, port, weight uint32) *anypb.Any {
	return pack(urls[ET], &v3endpoint.ClusterLoadAssignment{ClusterName: name, Endpoints: []*v3endpoint.LocalityLbEndpoints{{LbEndpoints: []*v3endpoint.LbEndpoint{lb(addr, port, weight)}}}})
}

func lb(addr string, port, weight uint32) *v3endpoint.LbEndpoint {
	return &v3endpoint.LbEndpoint{
		HostIdentifier: &v3endpoint.LbEndpoint_Endpoint{Endpoint: &v3endpoint.Endpoint{Address: &v3core.Address{Address: &v3core.Address_SocketAddress{
			SocketAddress: &v3core.SocketAddress{Address: addr, PortSpecifier: &v3core.SocketAddress_PortValue{PortValue: port}},
		}}}},
		LoadBalancingWeight: u32(weight),
	}
}

func listener(name, routeConfig string) *anypb.Any {
	return pack(urls[LT], &v3listener.Listener{Name: name, FilterChains: []*v3listener.FilterChain{{Filters: []*v3listener.Filter{{Name: "f", ConfigType: &v3listener.Filter_TypedConfig{
		TypedConfig: pack(hcmURL, &v3hcm.HttpConnectionManager{RouteSpecifier: &v3hcm.HttpConnectionManager_Rds{Rds: &v3hcm.Rds{RouteConfigName: routeConfig}}})}}}}}})
}

func nameTable(t map[string]string) *anypb.Any {
	nt := &nds.NameTable{Table: map[string]*nds.NameTable_NameInfo{}}
	for h, ip := range t {
		nt.Table[h] = &nds.NameTable_NameInfo{Ips: []string{ip}}
	}
	return pack(urls[NT], nt)
}
