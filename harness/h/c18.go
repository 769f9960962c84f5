package h

import (
	"math"

	"github.com/cloudwego/kitex/pkg/limit"
	"github.com/cloudwego/kitex/pkg/utils"
	"github.com/cloudwego/kitex/server"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/kitex-contrib/xds/xdssuite"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// bucketChain is a filter chain of a listener with a rate limit.
type bucketChain struct {
	port   uint32 // 0: without a port
	tokens uint32
	form   int // how the limit is expressed
}

func (c bucketChain) proto() *v3listener.FilterChain {
	var p *wrapperspb.UInt32Value
	if c.port != 0 {
		p = u32(c.port)
	}
	var fs []*v3hcm.HttpFilter
	switch c.form {
	case 0:
		fs = []*v3hcm.HttpFilter{bucketFilter(vsym.U32("max-tokens"), c.tokens)}
	case 1: // behind other filters
		fs = []*v3hcm.HttpFilter{otherFilter("x"), bucketFilter(3, c.tokens), otherFilter("y")}
	case 2: // by reference to a route table
		fc := chain(p, vsym.Pack(hcmURL, &v3hcm.HttpConnectionManager{
			RouteSpecifier: &v3hcm.HttpConnectionManager_Rds{Rds: &v3hcm.Rds{RouteConfigName: "rc"}},
			HttpFilters:    []*v3hcm.HttpFilter{bucketFilter(5, c.tokens)},
		}))
		return fc
	case 3: // no limit
		fs = []*v3hcm.HttpFilter{otherFilter("x")}
	}
	return serverChain(p, fs...)
}

func chainsAny(name string, cs []bucketChain, deflt bool) *anypb.Any {
	l := &v3listener.Listener{Name: name}
	for i, c := range cs {
		if deflt && i == len(cs)-1 {
			l.DefaultFilterChain = c.proto()
			break
		}
		l.FilterChains = append(l.FilterChains, c.proto())
	}
	return vsym.Pack(urls[LT], l)
}

// limitFor is the limit the listener's chains set for a port; 0: unlimited.
func limitFor(cs []bucketChain, port uint32) uint32 {
	for _, c := range cs {
		if c.port != 0 && c.port == port {
			return c.tokens
		}
	}
	for _, c := range cs {
		if c.port == 0 {
			return c.tokens
		}
	}
	return 0
}

// updates records what the running server's limiter is told.
type updates struct {
	opt   *limit.Option
	calls []int
	conns []int
}

func (u *updates) UpdateLimit(o *limit.Option) bool {
	u.calls = append(u.calls, o.MaxQPS)
	u.conns = append(u.conns, o.MaxConnections)
	return true
}

func newServer(port uint32) *updates {
	var so server.Options
	var opts []xdssuite.Option
	if port != 0 {
		opts = append(opts, xdssuite.WithServicePort(port))
	}
	xdssuite.NewLimiter(opts...).F(&so, &utils.Slice{})
	return &updates{opt: so.Limit.Limits}
}

// kitex takes any limit of zero or less as none.
func limitIs(got int, want uint32) {
	if want == 0 {
		vsym.Assert(vsym.Or(got == math.MaxInt, got <= 0), "the limit is unlimited")
		vsym.Cover("unlimited")
		return
	}
	vsym.Assert(got == int(want), "the limit is the tokens per fill")
	vsym.Cover("limited")
}

func unlimited(conns int) {
	vsym.Assert(conns <= 0 || conns == math.MaxInt, "connections are not restricted")
}

func (u *updates) check(cs []bucketChain, port uint32, running bool) {
	want := limitFor(cs, port)
	limitIs(u.opt.MaxQPS, want)
	unlimited(u.opt.MaxConnections)
	if running {
		vsym.Assert(len(u.calls) > 0, "the running limiter is told")
		limitIs(u.calls[len(u.calls)-1], want)
		for _, c := range u.conns {
			unlimited(c)
		}
	}
}

// symChains is a listener with any few chains.
func symChains(port uint32, max int) []bucketChain {
	var cs []bucketChain
	for i := 0; i < max; i++ {
		c := bucketChain{form: vsym.Choose("form", vsym.Param("forms", 4))}
		switch vsym.Choose("chain", 4) {
		case 0:
			return cs
		case 1:
			c.port = vsym.U32("chain-port")
			vsym.Assume(c.port != 0)
		case 2:
			c.port = 0
		case 3:
			if port == 0 {
				vsym.Assume(false)
			}
			c.port = port
		}
		if c.form != 3 {
			c.tokens = vsym.U32("tokens")
		}
		for _, o := range cs {
			if o.port == c.port {
				// the same port twice: with one limit, or it is not specified
				vsym.Assume(c.form != 3 && o.form != 3)
				c.tokens = o.tokens
			}
			// a chain without a limit of its own next to one for all ports
			vsym.Assume(!(c.form == 3 && o.port == 0 || o.form == 3 && c.port == 0))
		}
		cs = append(cs, c)
	}
	return cs
}

// C18_Select: which chain's limit applies, for every port.
func C18_Select() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	xdssuite.SetXDSResourceManager(m)
	subscribe(m, LT, inbound)
	port := uint32(0)
	if vsym.Choose("configured", 2) == 1 {
		port = vsym.U32("port")
		vsym.Assume(port != 0)
	}
	early := vsym.Choose("early", 2) == 1
	var u *updates
	if early {
		u = newServer(port)
	}
	cs := symChains(port, vsym.Param("chains", 2))
	srv.Last().Push(srv.Resp(LT, chainsAny(inbound, cs, len(cs) > 0 && cs[len(cs)-1].port == 0 && vsym.Choose("default-chain", 2) == 1)))
	vsym.Settle()
	if !early {
		u = newServer(port)
	}
	u.check(cs, port, false)
	u.opt.UpdateControl(u)
	u.check(cs, port, true)
	vsym.Cover("end")
}

// C18_History: servers created and started at any time, through listener
// updates, disappearance, rejected updates and reconnections.
func C18_History() {
	srv := &Server{}
	m := NewMgr(srv, false, vsym.Choose("inbound-at-start", 2) == 1)
	xdssuite.SetXDSResourceManager(m)
	subscribe(m, LT, inbound)
	subscribe(m, LT, "svc")
	p, q := uint32(8080), uint32(8081)
	var cur []bucketChain
	us, ports, running := []*updates{newServer(p)}, []uint32{p}, []bool{false}
	n := vsym.Param("pushes", 3)
	late, start := vsym.Choose("late", n+1), vsym.Choose("start", n+1)
	for i := 0; i <= n; i++ {
		if late == i {
			port := []uint32{p, q, 0}[vsym.Choose("late-port", 3)]
			us, ports, running = append(us, newServer(port)), append(ports, port), append(running, true)
			u := us[len(us)-1]
			u.opt.UpdateControl(u)
		}
		if start == i {
			us[0].opt.UpdateControl(us[0])
			running[0] = true
		}
		for j, u := range us {
			u.check(cur, ports[j], running[j])
		}
		if i == n {
			break
		}
		switch vsym.Choose("event", vsym.Param("events", 4)) {
		case 0:
			cur = nil
			switch vsym.Choose("content", 5) {
			case 1:
				cur = []bucketChain{{p, vsym.U32("tokens"), 0}}
			case 2:
				cur = []bucketChain{{0, vsym.U32("tokens"), 0}}
			case 3:
				cur = []bucketChain{{0, vsym.U32("tokens"), 0}, {p, vsym.U32("tokens"), 0}, {q, 7, 0}}
			case 4:
				cur = []bucketChain{{q, vsym.U32("tokens"), 0}}
			}
			srv.Last().Push(srv.Resp(LT, chainsAny("svc", []bucketChain{{p, 99, 0}}, false), chainsAny(inbound, cur, false)))
		case 1: // the inbound listener disappears
			cur = nil
			if vsym.Choose("nothing-left", 2) == 1 {
				srv.Last().Push(srv.Resp(LT))
			} else {
				srv.Last().Push(srv.Resp(LT, chainsAny("svc", []bucketChain{{p, 99, 0}, {0, 98, 0}}, false)))
			}
		case 2: // rejected
			srv.Last().Push(srv.Resp(LT, chainsAny(inbound, []bucketChain{{p, 55, 0}, {0, 55, 0}}, false), vsym.Corrupt(urls[LT])))
		case 3:
			srv.Last().Break(errBroken)
		}
		vsym.Settle()
	}
	vsym.Cover("end")
}
