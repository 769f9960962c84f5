package h

import (
	"context"
	"strconv"

	"github.com/cloudwego/kitex/pkg/discovery"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3endpoint "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/xdssuite"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// ep is an endpoint the control plane lists.
type ep struct {
	addr   string
	port   uint32
	weight uint32
}

func (e ep) hostport() string {
	for i := 0; i < len(e.addr); i++ {
		if e.addr[i] == ':' {
			return "[" + e.addr + "]:" + strconv.Itoa(int(e.port))
		}
	}
	return e.addr + ":" + strconv.Itoa(int(e.port))
}

var epAddrs = []string{"10.0.0.1", "fe80::1", "db.example.com"}

func symEp(first bool) ep {
	e := ep{addr: epAddrs[0], port: vsym.U32("port"), weight: vsym.U32("weight")}
	if first || vsym.Param("full", 0) == 1 {
		e.addr = epAddrs[vsym.Choose("address", len(epAddrs))]
		vsym.Assume(e.port <= 65535)
	} else {
		vsym.Assume(e.port >= 1000 && e.port <= 9999)
	}
	return e
}

// symAssignment is a load assignment in localities.
func symAssignment(loc, per int) [][]ep {
	var l [][]ep
	n := vsym.Choose("localities", loc+1)
	for i := 0; i < n; i++ {
		var eps []ep
		m := vsym.Choose("endpoints", per+1)
		for j := 0; j < m; j++ {
			eps = append(eps, symEp(i == n-1 && j == 0))
		}
		l = append(l, eps)
	}
	return l
}

func assignment(name string, l [][]ep) *v3endpoint.ClusterLoadAssignment {
	cla := &v3endpoint.ClusterLoadAssignment{ClusterName: name}
	for _, eps := range l {
		lo := &v3endpoint.LocalityLbEndpoints{}
		for _, e := range eps {
			lo.LbEndpoints = append(lo.LbEndpoints, endpoint(e.addr, e.port, e.weight))
		}
		cla.Endpoints = append(cla.Endpoints, lo)
	}
	return cla
}

func flat(l [][]ep) (r []ep) {
	for _, eps := range l {
		r = append(r, eps...)
	}
	return
}

// checkResolve resolves the cluster and compares with what the control plane
// lists (nil: nothing).
func checkResolve(r *xdssuite.XDSResolver, name string, want []ep) {
	res, err := r.Resolve(bg, name)
	if len(want) == 0 {
		vsym.Assert(err != nil, "a cluster without endpoints is an error")
		vsym.Assert(len(res.Instances) == 0, "no instances with an error")
		vsym.Cover("error")
		return
	}
	vsym.Assert(err == nil, "a cluster with endpoints resolves")
	vsym.Assert(res.Cacheable && res.CacheKey == name, "the result is cacheable under the cluster name")
	vsym.Assert(len(res.Instances) == len(want), "exactly the endpoints listed")
	for i, in := range res.Instances {
		vsym.Assert(in.Weight() == int(want[i].weight), "the weight is preserved")
		vsym.Assert(in.Address().Network() == "tcp", "a TCP address")
		vsym.Assert(in.Address().String() == want[i].hostport(), "address and port are preserved, in order")
	}
	vsym.Cover("resolved")
}

// C10_Resolve: every kind of cluster and load assignment.
func C10_Resolve() {
	s := newStore()
	loc, per := vsym.Param("maxloc", 2), vsym.Param("maxep", 2)
	c := &v3cluster.Cluster{Name: "c"}
	edsName := "c"
	var want [][]ep
	switch vsym.Choose("cluster", 5) {
	case 0:
		c.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS}
	case 1:
		c.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS}
		c.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{}
	case 2:
		c.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: v3cluster.Cluster_EDS}
		edsName = "x"
		c.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{ServiceName: edsName}
	case 3, 4:
		t := []v3cluster.Cluster_DiscoveryType{v3cluster.Cluster_STATIC, v3cluster.Cluster_LOGICAL_DNS, v3cluster.Cluster_EDS}[vsym.Choose("discovery", 3)]
		c.ClusterDiscoveryType = &v3cluster.Cluster_Type{Type: t}
		if vsym.Choose("also-eds", 2) == 1 {
			edsName = "x"
			c.EdsClusterConfig = &v3cluster.Cluster_EdsClusterConfig{ServiceName: edsName}
		}
		want = symAssignment(loc, per)
		vsym.Assume(len(want) > 0)
		c.LoadAssignment = assignment([]string{"c", "x", "other"}[vsym.Choose("assignment-name", 3)], want)
		edsName = ""
	}
	lists := map[string][][]ep{}
	var names []string
	for _, n := range []string{"c", "x"} {
		if edsName == n && vsym.Choose("listed", 2) == 1 {
			lists[n] = symAssignment(loc, per)
		} else if edsName != n && vsym.Choose("decoy", 2) == 1 {
			// a load assignment of another name is never used
			lists[n] = [][]ep{{{"10.9.9.9", 9999, 99}}}
		} else {
			continue
		}
		names = append(names, n)
	}
	if vsym.Choose("fetched", 8) > 0 {
		s.load(CT, vsym.Pack(urls[CT], c))
	} else {
		want, edsName = nil, ""
	}
	var l []*anypb.Any
	for _, n := range names {
		l = append(l, vsym.Pack(urls[ET], assignment(n, lists[n])))
	}
	s.load(ET, l...)
	xdssuite.SetXDSResourceManager(s)
	r := xdssuite.NewXDSResolver()
	if edsName != "" {
		want = lists[edsName]
	}
	for i := 0; i < vsym.Param("times", 1); i++ {
		checkResolve(r, "c", flat(want))
	}
	// the routed cluster is what is resolved
	to := remoteinfo.NewRemoteInfo(&rpcinfo.EndpointBasicInfo{ServiceName: "svc"}, "m")
	remoteinfo.AsRemoteInfo(to).SetTag(xdssuite.RouterClusterKey, "c")
	vsym.Assert(r.Target(bg, to) == "c", "the routed cluster is the one resolved")
	vsym.Cover("end")
}

// C10_History: the real manager; resolution follows the updates of both the
// cluster and the load assignments.
func C10_History() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	xdssuite.SetXDSResourceManager(m)
	r := xdssuite.NewXDSResolver()
	subscribe(m, CT, "c")
	subscribe(m, ET, "c")
	subscribe(m, ET, "x")
	const (
		absent = iota
		eds
		inline
	)
	state, name := absent, ""
	var in []ep
	lists := map[string][]ep{}
	one := func() []ep {
		if vsym.Choose("empty", 3) == 0 {
			return nil
		}
		return []ep{{"10.0.0.1", 80, vsym.U32("weight")}, {"10.0.0.2", 81, vsym.U32("weight")}}[:1+vsym.Choose("two", 2)]
	}
	for i := 0; i < vsym.Param("pushes", 3); i++ {
		switch vsym.Choose("push", 5) {
		case 0:
			state, name = eds, []string{"c", "x"}[vsym.Choose("service", 2)]
			c := &v3cluster.Cluster{Name: "c", EdsClusterConfig: &v3cluster.Cluster_EdsClusterConfig{}}
			if name == "x" {
				c.EdsClusterConfig.ServiceName = name
			}
			srv.Last().Push(srv.Resp(CT, vsym.Pack(urls[CT], c)))
		case 1:
			state, in = inline, one()
			srv.Last().Push(srv.Resp(CT, vsym.Pack(urls[CT], &v3cluster.Cluster{Name: "c",
				ClusterDiscoveryType: &v3cluster.Cluster_Type{Type: v3cluster.Cluster_STATIC},
				LoadAssignment:       assignment("c", [][]ep{in})})))
		case 2:
			state = absent
			srv.Last().Push(srv.Resp(CT))
		case 3, 4:
			n := []string{"c", "x"}[vsym.Choose("assignment", 2)]
			l := one()
			lists[n] = l
			srv.Last().Push(srv.Resp(ET, vsym.Pack(urls[ET], assignment(n, [][]ep{l}))))
		}
		vsym.Settle()
		if i+1 < vsym.Param("pushes", 3) && vsym.Choose("resolve", 2) == 0 {
			continue
		}
		var want []ep
		switch state {
		case eds:
			want = lists[name]
		case inline:
			want = in
		}
		checkResolve(r, "c", want)
	}
	vsym.Cover("end")
}

var _ context.Context
var _ discovery.Result
