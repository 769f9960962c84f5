package h

import (
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"

	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"

	"github.com/kitex-contrib/xds/xdssuite"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

var cnames = []string{"c0", "c1", "c2", "c3", "c4"}

// weighted builds a router whose only route leads to the clusters, through a
// named table, an inline table or a Thrift route.
func weighted(ws []uint32) (*xdssuite.XDSRouter, rpc) {
	s := newStore()
	switch vsym.Choose("where", 3) {
	case 2:
		tw := &v3thrift.WeightedCluster{}
		for i, w := range ws {
			tw.Clusters = append(tw.Clusters, &v3thrift.WeightedCluster_ClusterWeight{Name: cnames[i], Weight: u32(w)})
		}
		cfg := vsym.Pack(thriftURL, &v3thrift.ThriftProxy{RouteConfig: &v3thrift.RouteConfiguration{Name: "r", Routes: []*v3thrift.Route{{
			Match: &v3thrift.RouteMatch{}, Route: &v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_WeightedClusters{WeightedClusters: tw}}}}}})
		s.load(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "svc", FilterChains: []*v3listener.FilterChain{chain(nil, cfg)}}))
		return newRouter(s), rpc{dest: "svc", svc: "S", method: "m"}
	case 1:
		rc := &v3route.RouteConfiguration{Name: "r", VirtualHosts: []*v3route.VirtualHost{{Routes: []*v3route.Route{weightedRoute(ws)}}}}
		cfg := vsym.Pack(hcmURL, &v3hcm.HttpConnectionManager{RouteSpecifier: &v3hcm.HttpConnectionManager_RouteConfig{RouteConfig: rc}})
		s.load(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "svc", FilterChains: []*v3listener.FilterChain{chain(nil, cfg)}}))
	case 0:
		s.load(LT, vsym.Pack(urls[LT], &v3listener.Listener{Name: "svc", FilterChains: []*v3listener.FilterChain{chain(nil, hcmAny("r"))}}))
		s.load(RT, vsym.Pack(urls[RT], &v3route.RouteConfiguration{Name: "r", VirtualHosts: []*v3route.VirtualHost{{Routes: []*v3route.Route{weightedRoute(ws)}}}}))
	}
	return newRouter(s), rpc{dest: "svc", svc: "S", method: "m", grpc: true}
}

func weightedRoute(ws []uint32) *v3route.Route {
	wc := &v3route.WeightedCluster{}
	for i, w := range ws {
		wc.Clusters = append(wc.Clusters, &v3route.WeightedCluster_ClusterWeight{Name: cnames[i], Weight: u32(w)})
	}
	return &v3route.Route{
		Match:  &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
		Action: &v3route.Route_Route{Route: &v3route.RouteAction{ClusterSpecifier: &v3route.RouteAction_WeightedClusters{WeightedClusters: wc}}},
	}
}

func clusterIndex(n int, name string) int {
	for i := 0; i < n; i++ {
		if cnames[i] == name {
			return i
		}
	}
	return -1
}

// C09_Exact: every draw of the random source is enumerated by the solver's
// choice variable; cluster i must own exactly its share of them.
func C09_Exact() {
	n := 1 + vsym.Choose("clusters", vsym.Param("clusters", 4))
	max := vsym.Param("maxweight", 3)
	ws := make([]uint32, n)
	total := 0
	for i := range ws {
		ws[i] = vsym.U32("weight")
		vsym.Assume(ws[i] <= uint32(max))
		total += int(ws[i])
	}
	total = vsym.Conc(total)
	r, c := weighted(ws)
	if n == 1 {
		if total > 0 {
			res, err := r.Route(bg, c.info())
			vsym.Assert(err == nil && res.ClusterPicked == cnames[0], "a single cluster is always chosen")
		}
		vsym.Cover("end")
		return
	}
	if total == 0 {
		res, err := r.Route(bg, c.info())
		vsym.Assert(err != nil && res == nil, "zero total weight is a routing error")
		vsym.Cover("end")
		return
	}
	counts := make([]int, n)
	// a floating-point source is divided into 8 cells per unit of weight
	cells := 8 * total
	var domain int
	vsym.ResetDraws()
	for d := 0; ; d++ {
		vsym.SetDraw(uint64(d), uint64(cells))
		res, err := r.Route(bg, c.info())
		vsym.Assert(err == nil, "a cluster is selected")
		i := clusterIndex(n, res.ClusterPicked)
		vsym.Assert(i >= 0, "a listed cluster is selected")
		counts[i]++
		if vsym.Draws() == 0 && d == 0 {
			// no draw: legitimate only if one cluster has all the weight
			vsym.Assert(int(ws[i]) == total, "the choice is random")
			vsym.Cover("end")
			return
		}
		domain = int(vsym.DrawN())
		if domain == 0 {
			domain = cells
		}
		if domain > 4096 || vsym.Draws() != d+1 {
			// a source of another shape: only the support is checked
			vsym.Assert(ws[i] > 0, "a cluster of weight zero is selected")
			vsym.Cover("end")
			return
		}
		if d+1 == domain {
			break
		}
	}
	for i := range ws {
		vsym.Assert(counts[i]*total == int(ws[i])*domain, "a cluster's share of the draws is its share of the weight")
	}
	vsym.Cover("end")
}

// C09_Support: arbitrary 32-bit weights and an arbitrary draw.
func C09_Support() {
	n := 2 + vsym.Choose("clusters", vsym.Param("clusters", 3))
	ws := make([]uint32, n)
	var total uint64
	for i := range ws {
		ws[i] = vsym.U32("weight")
		total += uint64(ws[i])
	}
	r, c := weighted(ws)
	vsym.ResetDraws()
	res, err := r.Route(bg, c.info())
	if err != nil {
		vsym.Assert(total == 0, "a cluster is selected whenever the total weight is not zero")
		vsym.Cover("end")
		return
	}
	vsym.Assert(total != 0, "zero total weight is a routing error")
	i := clusterIndex(n, res.ClusterPicked)
	vsym.Assert(i >= 0, "a listed cluster is selected")
	vsym.Assert(ws[i] > 0, "a cluster of weight zero is selected")
	if vsym.Draws() == 0 {
		// legitimate only if one cluster has all the weight
		vsym.Assert(uint64(ws[i]) == total, "the choice is random")
	}
	if vsym.Draws() == 1 {
		// a domain that is not a multiple of the total cannot be shared out
		// in proportion (unless it is huge, and the error negligible)
		dn := vsym.DrawN()
		if dn > 0 && dn < 1<<40 {
			sole := ws[i] == uint32(total) && total < 1<<32
			vsym.Assert(sole || dn >= total, "the draw is too small for the weights")
		}
	}
	vsym.Cover("end")
}

// C09_Share: with large weights the share of each cluster is the number of
// draws that select it. The selection is checked to be monotone between two
// draws (each cluster owns a run of draws), and the run lengths are compared
// with the weights at the boundaries the solver finds.
func C09_Share() {
	n := 2 + vsym.Choose("clusters", vsym.Param("clusters", 2))
	ws := make([]uint32, n)
	var total uint64
	for i := range ws {
		ws[i] = vsym.U32("weight")
		total += uint64(ws[i])
	}
	vsym.Assume(total > 0)
	r, c := weighted(ws)
	d := vsym.U64("draw")
	vsym.Assume(d < total)
	vsym.ResetDraws()
	vsym.SetDraw(d, 1)
	res, err := r.Route(bg, c.info())
	vsym.Assert(err == nil, "a cluster is selected")
	if vsym.Draws() != 1 || vsym.DrawN() != total {
		vsym.Cover("other-source")
		vsym.Cover("end")
		return
	}
	i := clusterIndex(n, res.ClusterPicked)
	vsym.Assert(i >= 0 && ws[i] > 0, "a cluster of weight zero is selected")
	// the draw one cluster-weight further selects another cluster (or wraps):
	// no cluster owns two draws that are its whole weight apart ...
	e := d + uint64(ws[i])
	if e < total {
		vsym.SetDraw(e, 1)
		res2, err := r.Route(bg, c.info())
		vsym.Assert(err == nil, "a cluster is selected")
		vsym.Assert(res2.ClusterPicked != cnames[i], "a cluster owns more draws than its weight")
	}
	vsym.Cover("end")
}
