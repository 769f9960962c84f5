// Package h holds the harnesses: entry points the symbolic engine executes,
// and the replay runs natively with the solver's values.
package h

import (
	"context"
	"errors"
	"os"
	"time"

	"github.com/cloudwego/kitex/client/callopt"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/codes"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status"
	"github.com/cloudwego/kitex/pkg/streaming"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	discovery "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	ads "github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
	nds "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

const (
	LT = xdsresource.ListenerType
	RT = xdsresource.RouteConfigType
	CT = xdsresource.ClusterType
	ET = xdsresource.EndpointsType
	NT = xdsresource.NameTableType
)

var urls = map[xdsresource.ResourceType]string{
	LT: "type.googleapis.com/envoy.config.listener.v3.Listener",
	RT: "type.googleapis.com/envoy.config.route.v3.RouteConfiguration",
	CT: "type.googleapis.com/envoy.config.cluster.v3.Cluster",
	ET: "type.googleapis.com/envoy.config.endpoint.v3.ClusterLoadAssignment",
	NT: "type.googleapis.com/istio.networking.nds.v1.NameTable",
}

const (
	hcmURL    = "type.googleapis.com/envoy.extensions.filters.network.http_connection_manager.v3.HttpConnectionManager"
	thriftURL = "type.googleapis.com/envoy.extensions.filters.network.thrift_proxy.v3.ThriftProxy"
	rlURL     = "type.googleapis.com/envoy.extensions.filters.http.local_ratelimit.v3.LocalRateLimit"
	tsURL     = "type.googleapis.com/udpa.type.v1.TypedStruct"
)

// inbound is the reserved listener's name.
const inbound = "virtualInbound"

// Req is what the control plane saw of one request.
type Req struct {
	URL    string
	Ver    string
	Nonce  string
	Names  []string
	HasErr bool
	Node   *v3core.Node
	Stream int
}

type rmsg struct {
	resp *discovery.DiscoveryResponse
	err  error
}

// Server is an in-memory control plane.
type Server struct {
	Streams []*Stream
	Reqs    []*Req
	Opens   int
	OpenErr func(n int) error
	SendErr func(s *Stream, r *Req) error
	OnReq   func(s *Stream, r *Req)
	OnDone  func(s *Stream, n int) // the n-th message has been processed
	Table   map[string]*nds.NameTable_NameInfo
	Boot    []*anypb.Any // listeners of the first response
	Auto    bool         // answer the start-up requests
	seq     int
}

// Stream is one ADS stream. Recv being called again after a response was
// taken is how the harness sees that the response has been processed.
type Stream struct {
	streaming.Stream
	srv    *Server
	ID     int
	ch     chan rmsg
	Recvs  int
	Taken  int
	Closed bool
	Dead   bool
	Done   []time.Time // when the n-th message had been processed
}

func (s *Server) StreamAggregatedResources(ctx context.Context, o ...callopt.Option) (ads.AggregatedDiscoveryService_StreamAggregatedResourcesClient, error) {
	n := s.Opens
	s.Opens++
	if s.OpenErr != nil {
		if err := s.OpenErr(n); err != nil {
			return nil, err
		}
	}
	st := &Stream{srv: s, ID: len(s.Streams), ch: make(chan rmsg, 64)}
	s.Streams = append(s.Streams, st)
	return st, nil
}

func (s *Server) DeltaAggregatedResources(ctx context.Context, o ...callopt.Option) (ads.AggregatedDiscoveryService_DeltaAggregatedResourcesClient, error) {
	return nil, errors.New("no delta")
}

func (st *Stream) Send(r *discovery.DiscoveryRequest) error {
	rec := &Req{URL: r.TypeUrl, Ver: r.VersionInfo, Nonce: r.ResponseNonce, HasErr: r.ErrorDetail != nil, Node: r.Node, Stream: st.ID}
	rec.Names = append(rec.Names, r.ResourceNames...)
	s := st.srv
	if s.SendErr != nil {
		if err := s.SendErr(st, rec); err != nil {
			return err
		}
	}
	s.Reqs = append(s.Reqs, rec)
	if s.Auto && rec.Nonce == "" && st.ID == 0 {
		switch rec.URL {
		case urls[NT]:
			st.Push(s.Resp(NT, TableAny(s.Table)))
		case urls[LT]:
			st.Push(s.Resp(LT, s.Boot...))
			s.Auto = false
		}
	}
	if s.OnReq != nil {
		s.OnReq(st, rec)
	}
	return nil
}

func (st *Stream) Recv() (*discovery.DiscoveryResponse, error) {
	if st.Recvs > 0 {
		st.Done = append(st.Done, time.Now())
		if st.srv.OnDone != nil {
			st.srv.OnDone(st, len(st.Done))
		}
	}
	st.Recvs++
	m := <-st.ch
	st.Taken++
	return m.resp, m.err
}

func (st *Stream) Close() error { st.Closed = true; return nil }

// Push hands a response to the client.
func (st *Stream) Push(r *discovery.DiscoveryResponse) { st.ch <- rmsg{resp: r} }

// Break makes the stream fail.
func (st *Stream) Break(err error) { st.Dead = true; st.ch <- rmsg{err: err} }

// Resp builds a response with the next version and nonce.
func (s *Server) Resp(rt xdsresource.ResourceType, res ...*anypb.Any) *discovery.DiscoveryResponse {
	s.seq++
	d := string(rune('0'+s.seq/10)) + string(rune('0'+s.seq%10))
	return &discovery.DiscoveryResponse{TypeUrl: urls[rt], VersionInfo: "v" + d, Nonce: "n" + d, Resources: res}
}

// RespV is Resp with the version given: control planes send other contents
// under a version they have used before (after a restart, say).
func (s *Server) RespV(rt xdsresource.ResourceType, ver string, res ...*anypb.Any) *discovery.DiscoveryResponse {
	r := s.Resp(rt, res...)
	r.VersionInfo = ver
	return r
}

func (s *Server) Last() *Stream { return s.Streams[len(s.Streams)-1] }

// ReqsSince lists the requests from index i for one type.
func (s *Server) ReqsSince(i int, rt xdsresource.ResourceType) (r []*Req) {
	for _, q := range s.Reqs[i:] {
		if q.URL == urls[rt] {
			r = append(r, q)
		}
	}
	return
}

// Mgr is the manager as its users see it.
type Mgr interface {
	Get(ctx context.Context, rt xdsresource.ResourceType, name string) (interface{}, error)
	RegisterXDSUpdateHandler(rt xdsresource.ResourceType, h xdsresource.XDSUpdateHandler)
	UpdateResource(rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string)
	Dump()
	Close()
}

func setEnv() {
	os.Setenv("POD_NAMESPACE", "default")
	os.Setenv("POD_NAME", "pod-1")
	os.Setenv("INSTANCE_IP", "10.0.0.9")
	os.Setenv("KITEX_XDS_DOMAIN", "cluster.local")
	os.Setenv("KITEX_XDS_METAS", "")
	os.Setenv("ISTIO_VERSION", "1.16")
}

// fetchTimeout is the configured fetch timeout (0 = default of a second).
var fetchTimeout time.Duration

// NewMgrErr builds the real manager and client around the control plane.
func NewMgrErr(s *Server, needNDS, needLDS bool) (Mgr, error) {
	vsym.SetADS(func() (ads.Client, error) { return s, nil })
	m, err := manager.NewXDSResourceManager(nil, manager.Option{F: func(o *manager.Options) {
		o.XDSSvrConfig = &manager.XDSServerConfig{SvrName: "istiod", SvrAddr: "istiod:15010", NDSNotRequired: !needNDS, LDSNotRequired: !needLDS, FetchXDSTimeout: fetchTimeout}
		o.DumpPath = "/tmp/verif_dump.json"
	}})
	if err != nil {
		return nil, err
	}
	return m, nil
}

func NewMgr(s *Server, needNDS, needLDS bool) Mgr {
	setEnv()
	if needNDS || needLDS {
		s.Auto = true
	}
	m, err := NewMgrErr(s, needNDS, needLDS)
	if err != nil {
		vsym.Fail("manager construction failed")
	}
	vsym.Settle()
	return m
}

// bg is the caller's context for lookups bounded by the fetch timeout alone.
var bg = context.Background()

// subscribe asks for a name without waiting for it.
func subscribe(m Mgr, rt xdsresource.ResourceType, name string) {
	ctx, cancel := context.WithCancel(bg)
	cancel()
	m.Get(ctx, rt, name)
	vsym.Settle()
}

func authErr() error { return status.Err(codes.Unauthenticated, "no") }

var errBroken = errors.New("stream broken")

type xdsType = xdsresource.ResourceType

func nowNs() int64 { return time.Now().UnixNano() }

// ---- resources carrying a recognisable (symbolic) mark ------------------------

func TableAny(t map[string]*nds.NameTable_NameInfo) *anypb.Any {
	return vsym.Pack(urls[NT], &nds.NameTable{Table: t})
}

func ips(l ...string) *nds.NameTable_NameInfo { return &nds.NameTable_NameInfo{Ips: l} }

func hcmAny(route string) *anypb.Any {
	return vsym.Pack(hcmURL, &v3hcm.HttpConnectionManager{RouteSpecifier: &v3hcm.HttpConnectionManager_Rds{Rds: &v3hcm.Rds{RouteConfigName: route}}})
}

func listenerFilter(cfg *anypb.Any) *v3listener.Filter {
	return &v3listener.Filter{Name: "f", ConfigType: &v3listener.Filter_TypedConfig{TypedConfig: cfg}}
}

func chain(port *wrapperspb.UInt32Value, cfg ...*anypb.Any) *v3listener.FilterChain {
	fc := &v3listener.FilterChain{}
	if port != nil {
		fc.FilterChainMatch = &v3listener.FilterChainMatch{DestinationPort: port}
	}
	for _, c := range cfg {
		fc.Filters = append(fc.Filters, listenerFilter(c))
	}
	return fc
}

func u32(v uint32) *wrapperspb.UInt32Value { return &wrapperspb.UInt32Value{Value: v} }

func endpoint(addr string, port, weight uint32) *v3endpoint.LbEndpoint {
	return &v3endpoint.LbEndpoint{
		HostIdentifier: &v3endpoint.LbEndpoint_Endpoint{Endpoint: &v3endpoint.Endpoint{Address: &v3core.Address{Address: &v3core.Address_SocketAddress{
			SocketAddress: &v3core.SocketAddress{Address: addr, PortSpecifier: &v3core.SocketAddress_PortValue{PortValue: port}},
		}}}},
		LoadBalancingWeight: u32(weight),
	}
}

// Marked builds a resource of the type whose decoded form carries mark.
func Marked(rt xdsresource.ResourceType, name string, mark uint32) *anypb.Any {
	switch rt {
	case LT:
		return vsym.Pack(urls[LT], &v3listener.Listener{Name: name, FilterChains: []*v3listener.FilterChain{chain(u32(mark), hcmAny("rc"))}})
	case RT:
		return vsym.Pack(urls[RT], &v3route.RouteConfiguration{Name: name, VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: []*v3route.Route{{
			Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
			Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_WeightedClusters{WeightedClusters: &v3route.WeightedCluster{
				Clusters: []*v3route.WeightedCluster_ClusterWeight{{Name: "c", Weight: u32(mark)}}}}}},
		}}}}})
	case CT:
		return vsym.Pack(urls[CT], &v3cluster.Cluster{Name: name, OutlierDetection: &v3cluster.OutlierDetection{FailurePercentageRequestVolume: u32(mark)}})
	case ET:
		return vsym.Pack(urls[ET], &v3endpoint.ClusterLoadAssignment{ClusterName: name, Endpoints: []*v3endpoint.LocalityLbEndpoints{{
			LbEndpoints: []*v3endpoint.LbEndpoint{endpoint("10.1.1.1", 8080, mark)}}}})
	}
	panic("Marked")
}

// MarkOf reads the mark back; ok is false if res is not a usable resource of
// the type.
func MarkOf(rt xdsresource.ResourceType, res interface{}) (mark uint32, ok bool) {
	switch rt {
	case LT:
		l, k := res.(*xdsresource.ListenerResource)
		if !k || l == nil || len(l.NetworkFilters) != 1 {
			return 0, false
		}
		return l.NetworkFilters[0].RoutePort, true
	case RT:
		r, k := res.(*xdsresource.RouteConfigResource)
		if !k || r == nil || r.HTTPRouteConfig == nil || len(r.HTTPRouteConfig.VirtualHosts) != 1 {
			return 0, false
		}
		return r.HTTPRouteConfig.VirtualHosts[0].Routes[0].WeightedClusters[0].Weight, true
	case CT:
		c, k := res.(*xdsresource.ClusterResource)
		if !k || c == nil || c.OutlierDetection == nil {
			return 0, false
		}
		return c.OutlierDetection.FailurePercentageRequestVolume, true
	case ET:
		e, k := res.(*xdsresource.EndpointsResource)
		if !k || e == nil || len(e.Localities) != 1 || len(e.Localities[0].Endpoints) != 1 {
			return 0, false
		}
		return e.Localities[0].Endpoints[0].Weight(), true
	}
	return 0, false
}

// kindOK: res is a non-nil value of the kind asked for.
func kindOK(rt xdsresource.ResourceType, res interface{}) bool {
	switch rt {
	case LT:
		l, k := res.(*xdsresource.ListenerResource)
		return k && l != nil
	case RT:
		l, k := res.(*xdsresource.RouteConfigResource)
		return k && l != nil
	case CT:
		l, k := res.(*xdsresource.ClusterResource)
		return k && l != nil
	case ET:
		l, k := res.(*xdsresource.EndpointsResource)
		return k && l != nil
	}
	return false
}

// lookup does one Get and checks what every lookup must satisfy.
func lookup(m Mgr, ctx context.Context, rt xdsresource.ResourceType, name string) (interface{}, error) {
	res, err := m.Get(ctx, rt, name)
	if err == nil {
		vsym.Assert(kindOK(rt, res), "lookup succeeds without a value of the kind asked for")
	} else {
		vsym.Assert(res == nil, "lookup returns a value and an error")
	}
	return res, err
}

func sameSet(a []string, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	seen := map[string]bool{}
	for _, x := range a {
		if !b[x] || seen[x] {
			return false
		}
		seen[x] = true
	}
	return true
}

func has(a []string, x string) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}
