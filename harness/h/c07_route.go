package h

import (
	"time"

	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/kitex-contrib/xds/xdssuite"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// leaning is a route table with two clusters, one of which has all the weight.
func leaning(name string, pick int) *anypb.Any {
	w := []uint32{0, 0}
	w[pick] = 100
	// the other one is never picked wherever it is listed
	order := []int{0, 1}
	if vsym.Choose("listed", 2) == 1 {
		order = []int{1, 0}
	}
	return vsym.Pack(urls[RT], &v3route.RouteConfiguration{Name: name, VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: []*v3route.Route{{
		Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
		Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_WeightedClusters{WeightedClusters: &v3route.WeightedCluster{
			Clusters: []*v3route.WeightedCluster_ClusterWeight{{Name: []string{"c0", "c1"}[order[0]], Weight: u32(w[order[0]])}, {Name: []string{"c0", "c1"}[order[1]], Weight: u32(w[order[1]])}}}}}},
	}}}}})
}

func assigned(name string, addrs ...string) *anypb.Any {
	l := &v3endpoint.LocalityLbEndpoints{}
	for _, a := range addrs {
		l.LbEndpoints = append(l.LbEndpoints, endpoint(a, 8080, 1))
	}
	return vsym.Pack(urls[ET], &v3endpoint.ClusterLoadAssignment{ClusterName: name, Endpoints: []*v3endpoint.LocalityLbEndpoints{l}})
}

// C07_Route: calls are routed and resolved while the tables change; the race
// detector is on.
func C07_Route() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	xdssuite.SetXDSResourceManager(m)
	subscribe(m, LT, "svc")
	subscribe(m, RT, "r")
	for _, n := range []string{"c0", "c1"} {
		subscribe(m, CT, n)
		subscribe(m, ET, n)
	}
	eds := func(n string) *anypb.Any {
		return vsym.Pack(urls[CT], &v3cluster.Cluster{Name: n, ClusterDiscoveryType: &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS}})
	}
	s := srv.Last()
	s.Push(srv.Resp(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "svc", FilterChains: []*v3listener.FilterChain{chain(nil, hcmAny("r"))}})))
	s.Push(srv.Resp(RT, leaning("r", 0)))
	s.Push(srv.Resp(CT, eds("c0"), eds("c1")))
	s.Push(srv.Resp(ET, assigned("c0", "10.0.0.1", "10.0.0.2"), assigned("c1", "10.0.1.1")))
	vsym.Settle()
	what := vsym.Choose("push", 4)
	grpc := vsym.Choose("grpc", 2) == 1
	c := &clock{}
	began, effective := 0, 0
	base := len(s.Done)
	srv.OnDone = func(st *Stream, n int) {
		if n == base+1 {
			effective = c.tick()
		}
	}
	vsym.SetDraw(0, 1)
	vsym.Race()
	vsym.Delay(vsym.Param("delays", 2), 0)
	done := 0
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			r := xdssuite.NewXDSRouter()
			res := xdssuite.NewXDSResolver()
			for k := 0; k < 2-i; k++ {
				start := c.tick()
				call := rpc{dest: "svc", svc: "S", method: "m", grpc: grpc}
				rt, err := r.Route(bg, call.info())
				end := c.tick()
				old, fresh := effective == 0 || start < effective, began != 0 && end > began
				if what == 1 && err != nil {
					vsym.Assert(fresh, "a route is lost before it is withdrawn")
					continue
				}
				vsym.Assert(err == nil, "a call that matches a route is routed")
				vsym.Assert(rt.ClusterPicked == "c0" && (old || what != 0) || rt.ClusterPicked == "c1" && fresh && what == 0, "the route table in force is used")
				if what == 1 {
					vsym.Assert(old, "a withdrawn listener is used")
				}
				start = c.tick()
				got, err := res.Resolve(bg, res.Target(bg, rpcinfo.NewEndpointInfo("svc", "m", nil, map[string]string{xdssuite.RouterClusterKey: "c0"})))
				end = c.tick()
				old, fresh = effective == 0 || start < effective, began != 0 && end > began
				if what == 3 && err != nil {
					vsym.Assert(fresh, "a cluster is lost before it is withdrawn")
					continue
				}
				vsym.Assert(err == nil, "a cluster with endpoints resolves")
				if len(got.Instances) == 2 {
					vsym.Assert(old || what != 2 && what != 3, "the endpoints in force are used")
					vsym.Assert(got.Instances[0].Address().String() == "10.0.0.1:8080" && got.Instances[1].Address().String() == "10.0.0.2:8080", "the endpoints in force are used")
				} else {
					vsym.Assert(what == 2 && fresh && len(got.Instances) == 1 && got.Instances[0].Address().String() == "10.0.0.3:8080", "the endpoints in force are used")
				}
			}
			done++
		}()
	}
	began = c.tick()
	switch what {
	case 0:
		s.Push(srv.Resp(RT, leaning("r", 1)))
	case 1:
		s.Push(srv.Resp(LT))
	case 2:
		s.Push(srv.Resp(ET, assigned("c0", "10.0.0.3")))
	case 3:
		s.Push(srv.Resp(CT, eds("c1")))
	}
	time.Sleep(5 * time.Second)
	vsym.Stop()
	vsym.Settle()
	vsym.Assert(done == 2, "every operation completes")
	vsym.Cover("end")
}
