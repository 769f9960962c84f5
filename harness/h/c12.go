package h

import (
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

func checkLocalities(want []*v3endpoint.LocalityLbEndpoints, d *xdsresource.EndpointsResource) {
	if len(want) == 0 {
		vsym.Assert(d == nil || len(d.Localities) == 0, "no localities")
		return
	}
	vsym.Assert(d != nil && len(d.Localities) == len(want), "every locality, in order")
	for i, lo := range want {
		dl := d.Localities[i]
		vsym.Assert(dl != nil && len(dl.Endpoints) == len(lo.LbEndpoints), "every endpoint, in order")
		for j, e := range lo.LbEndpoints {
			sa := e.GetEndpoint().GetAddress().GetSocketAddress()
			w := ep{sa.GetAddress(), sa.GetPortValue(), e.LoadBalancingWeight.GetValue()}
			de := dl.Endpoints[j]
			vsym.Assert(de.Addr().String() == w.hostport(), "address and port are preserved")
			vsym.Assert(de.Weight() == w.weight, "the weight is preserved")
		}
	}
	vsym.Cover("localities")
}

// names draws n distinct names.
func names(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		s := vsym.Str("name", 1, 1, "")
		for _, o := range l {
			vsym.Assume(o != s)
		}
		l = append(l, s)
	}
	return l
}

// C12_Cluster: cluster responses.
func C12_Cluster() {
	g := newGen(vsym.Param("deviations", 2))
	ns := names(g.count("resources", 2, 3))
	var l []*v3cluster.Cluster
	var res []*anypb.Any
	for _, n := range ns {
		c := g.cluster(n)
		l = append(l, c)
		res = append(res, g.pack(urls[CT], c))
	}
	got, err := xdsresource.UnmarshalCDS(res)
	vsym.Assert(err == nil, "a well-formed cluster is not an error")
	vsym.Assert(len(got) == len(l), "every cluster under its own name")
	for _, c := range l {
		d, ok := got[c.Name].(*xdsresource.ClusterResource)
		vsym.Assert(ok && d != nil, "every cluster under its own name")
		wt := map[v3cluster.Cluster_DiscoveryType]xdsresource.ClusterDiscoveryType{
			v3cluster.Cluster_EDS: xdsresource.ClusterDiscoveryTypeEDS, v3cluster.Cluster_STATIC: xdsresource.ClusterDiscoveryTypeStatic, v3cluster.Cluster_LOGICAL_DNS: xdsresource.ClusterDiscoveryTypeLogicalDNS}
		vsym.Assert(d.DiscoveryType == wt[c.GetType()], "the discovery type is preserved")
		lb := xdsresource.ClusterLbRoundRobin
		if c.LbPolicy == v3cluster.Cluster_RING_HASH {
			lb = xdsresource.ClusterLbRingHash
		}
		vsym.Assert(d.LbPolicy == lb, "the load-balancing policy is preserved")
		name := c.Name
		if s := c.EdsClusterConfig.GetServiceName(); s != "" {
			name = s
		}
		vsym.Assert(d.EndpointName == name, "the EDS service name, else the cluster's")
		if o := c.OutlierDetection; o != nil {
			vsym.Assert(d.OutlierDetection != nil, "the outlier detection is preserved")
			vsym.Assert(d.OutlierDetection.FailurePercentageThreshold == o.FailurePercentageThreshold.GetValue() &&
				d.OutlierDetection.FailurePercentageRequestVolume == o.FailurePercentageRequestVolume.GetValue(), "the outlier detection is preserved")
		} else {
			vsym.Assert(d.OutlierDetection == nil || *d.OutlierDetection == (xdsresource.OutlierDetection{}), "no outlier detection")
		}
		checkLocalities(c.LoadAssignment.GetEndpoints(), d.InlineEndpoints)
	}
	vsym.Cover("end")
}

// C12_Endpoints: load-assignment responses.
func C12_Endpoints() {
	g := newGen(vsym.Param("deviations", 3))
	ns := names(g.count("resources", 2, 3))
	var l []*v3endpoint.ClusterLoadAssignment
	var res []*anypb.Any
	for _, n := range ns {
		c := &v3endpoint.ClusterLoadAssignment{ClusterName: n, Endpoints: g.localities()}
		l = append(l, c)
		res = append(res, g.pack(urls[ET], c))
	}
	got, err := xdsresource.UnmarshalEDS(res)
	vsym.Assert(err == nil, "a well-formed load assignment is not an error")
	vsym.Assert(len(got) == len(l), "every load assignment under its own name")
	for _, c := range l {
		d, ok := got[c.ClusterName].(*xdsresource.EndpointsResource)
		vsym.Assert(ok && d != nil, "every load assignment under its own name")
		checkLocalities(c.Endpoints, d)
	}
	vsym.Cover("end")
}

// C12_Table: name tables.
func C12_Table() {
	g := newGen(vsym.Param("deviations", 3))
	t := g.nameTable()
	got, err := xdsresource.UnmarshalNDS([]*anypb.Any{g.pack(urls[NT], t)})
	vsym.Assert(err == nil && got != nil, "a well-formed name table is not an error")
	vsym.Assert(len(got.NameTable) == len(t.Table), "every host")
	for h, ni := range t.Table {
		l, ok := got.NameTable[h]
		vsym.Assert(ok && len(l) == len(ni.Ips), "every host with its addresses")
		for i := range l {
			vsym.Assert(l[i] == ni.Ips[i], "the addresses in order")
		}
	}
	vsym.Cover("end")
}

// C13_Decode: any message tree, wrong types and corrupt payloads; error iff
// something is not valid.
func C13_Decode() {
	g := newGen(vsym.Param("deviations", 2))
	g.raw = true
	rt := []int{0, 1, 2, 3, 4}[vsym.Choose("type", 5)]
	rtype := []string{urls[LT], urls[RT], urls[CT], urls[ET], urls[NT]}[rt]
	n := g.count("resources", 1, 2)
	def := 0
	if rt == 0 {
		def = vsym.Choose("default-filter", 3)
	}
	var res []*anypb.Any
	for i := 0; i < n; i++ {
		switch g.alt("slot", 5) {
		case 1:
			res = append(res, g.corrupt(rtype))
			continue
		case 2:
			g.bad = true
			res = append(res, vsym.Corrupt(urls[[]xdsType{RT, CT, ET, NT, LT}[rt]]))
			continue
		case 3:
			g.bad = true
			res = append(res, &anypb.Any{TypeUrl: vsym.Str("type-url", 0, 2, "tu")})
			continue
		case 4: // a valid message whose type URL is another's
			g.bad = true
			res = append(res, vsym.Pack(urls[[]xdsType{RT, CT, ET, NT, LT}[rt]], &v3route.RouteConfiguration{Name: "x"}))
			continue
		}
		name := []string{"n0", "n1"}[i]
		if rt < 4 && !g.has("named") {
			name = ""
		}
		switch rt {
		case 0:
			l, _ := g.listener(name, def)
			if g.alt("nil-chain", 2) == 1 {
				l.FilterChains = append(l.FilterChains, &v3listener.FilterChain{})
			}
			res = append(res, g.pack(rtype, l))
		case 1:
			res = append(res, g.pack(rtype, g.table(name)))
		case 2:
			res = append(res, g.pack(rtype, g.cluster(name)))
		case 3:
			res = append(res, g.pack(rtype, &v3endpoint.ClusterLoadAssignment{ClusterName: name, Endpoints: g.localities()}))
		case 4:
			res = append(res, g.pack(rtype, g.nameTable()))
		}
	}
	if rt == 4 && n == 2 {
		vsym.Assume(false) // the control plane sends one name table
	}
	if rt == 4 && n == 0 {
		g.bad = true
	}
	var err error
	switch rt {
	case 0:
		_, err = xdsresource.UnmarshalLDS(res)
	case 1:
		_, err = xdsresource.UnmarshalRDS(res)
	case 2:
		_, err = xdsresource.UnmarshalCDS(res)
	case 3:
		_, err = xdsresource.UnmarshalEDS(res)
	case 4:
		_, err = xdsresource.UnmarshalNDS(res)
	}
	if g.bad {
		vsym.Assert(err != nil, "an invalid resource is an error")
		vsym.Cover("invalid")
	} else if !g.odd {
		vsym.Assert(err == nil, "a well-formed payload is not an error")
		vsym.Cover("valid")
	}
	vsym.Cover("end")
}

// C13_Loop: the receive loop survives whatever a response holds: the response
// is answered, rejected iff invalid, and the next one is processed.
func C13_Loop() {
	g := newGen(vsym.Param("deviations", 1))
	g.raw = true
	srv := &Server{}
	m := NewMgr(srv, true, false)
	rt := []xdsType{LT, RT, CT, ET, NT}[vsym.Choose("type", 5)]
	if rt != NT {
		subscribe(m, rt, "a")
	}
	var res []*anypb.Any
	n := g.count("resources", 1, 2)
	def := 0
	if rt == LT {
		def = vsym.Choose("default-filter", 3)
	}
	for i := 0; i < n; i++ {
		switch g.alt("slot", 3) {
		case 1:
			res = append(res, g.corrupt(urls[rt]))
			continue
		case 2:
			g.bad = true
			res = append(res, &anypb.Any{TypeUrl: "x"})
			continue
		}
		name := []string{"a", "b"}[i]
		switch rt {
		case LT:
			l, _ := g.listener(name, def)
			res = append(res, g.pack(urls[rt], l))
		case RT:
			res = append(res, g.pack(urls[rt], g.table(name)))
		case CT:
			res = append(res, g.pack(urls[rt], g.cluster(name)))
		case ET:
			res = append(res, g.pack(urls[rt], &v3endpoint.ClusterLoadAssignment{ClusterName: name, Endpoints: g.localities()}))
		case NT:
			vsym.Assume(n < 2)
			res = append(res, g.pack(urls[rt], g.nameTable()))
		}
	}
	if rt == NT && n == 0 {
		g.bad = true
	}
	before := len(srv.Reqs)
	srv.Last().Push(srv.Resp(rt, res...))
	vsym.Settle()
	got := srv.ReqsSince(before, rt)
	vsym.Assert(len(got) == 1, "the response is answered")
	vsym.Assert(g.odd || got[0].HasErr == g.bad, "it is rejected iff it is invalid")
	v := vsym.U32("v")
	subscribe(m, CT, "z")
	srv.Last().Push(srv.Resp(CT, Marked(CT, "z", v)))
	vsym.Settle()
	checkLookup(m, CT, "z", map[string]uint32{"z": v})
	vsym.Cover("end")
}
