package h

import (
	"context"
	"errors"

	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	"github.com/cloudwego/kitex/transport"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// store is a resource manager that serves what it was given; the contract is
// the one C05 establishes for the real one.
type store struct {
	res  map[xdsresource.ResourceType]map[string]interface{}
	errs map[xdsresource.ResourceType]error
	gets []string
	hs   map[xdsresource.ResourceType][]xdsresource.XDSUpdateHandler
}

var errAbsent = errors.New("fetch timeout")

func newStore() *store {
	return &store{res: map[xdsresource.ResourceType]map[string]interface{}{}, errs: map[xdsresource.ResourceType]error{}, hs: map[xdsresource.ResourceType][]xdsresource.XDSUpdateHandler{}}
}

func (s *store) Get(ctx context.Context, rt xdsresource.ResourceType, name string) (interface{}, error) {
	s.gets = append(s.gets, name)
	if err := s.errs[rt]; err != nil {
		return nil, err
	}
	if r, ok := s.res[rt][name]; ok {
		return r, nil
	}
	return nil, errAbsent
}

func (s *store) RegisterXDSUpdateHandler(rt xdsresource.ResourceType, h xdsresource.XDSUpdateHandler) {
	s.hs[rt] = append(s.hs[rt], h)
}

func (s *store) put(rt xdsresource.ResourceType, name string, r interface{}) {
	if s.res[rt] == nil {
		s.res[rt] = map[string]interface{}{}
	}
	s.res[rt][name] = r
}

// load decodes a response with the client's own decoder and stores it.
func (s *store) load(rt xdsresource.ResourceType, res ...*anypb.Any) {
	switch rt {
	case LT:
		m, err := xdsresource.UnmarshalLDS(res)
		vsym.Assert(err == nil, "well-formed listener rejected")
		for n, r := range m {
			s.put(rt, n, r)
		}
		return
	case RT, CT, ET:
		f := map[xdsresource.ResourceType]func([]*anypb.Any) (map[string]xdsresource.Resource, error){
			RT: xdsresource.UnmarshalRDS, CT: xdsresource.UnmarshalCDS, ET: xdsresource.UnmarshalEDS}[rt]
		m, err := f(res)
		vsym.Assert(err == nil, "well-formed resource rejected")
		for n, r := range m {
			s.put(rt, n, r)
		}
	}
}

// rpc is a call as Kitex would present it.
type rpc struct {
	dest   string // service addressed
	pkg    string
	svc    string
	method string
	grpc   bool
	pure   bool               // no protocol at all
	proto  transport.Protocol // of calls that are not gRPC, when not TTHeader
}

func (c rpc) info() rpcinfo.RPCInfo {
	to := remoteinfo.NewRemoteInfo(&rpcinfo.EndpointBasicInfo{ServiceName: c.dest, Method: c.method}, c.method)
	cfg := rpcinfo.NewRPCConfig()
	if c.grpc {
		_ = rpcinfo.AsMutableRPCConfig(cfg).SetTransportProtocol(transport.GRPC)
	} else if c.proto != 0 {
		_ = rpcinfo.AsMutableRPCConfig(cfg).SetTransportProtocol(c.proto)
	} else if !c.pure {
		_ = rpcinfo.AsMutableRPCConfig(cfg).SetTransportProtocol(transport.TTHeader)
	}
	return rpcinfo.NewRPCInfo(nil, to, rpcinfo.NewInvocation(c.svc, c.method, c.pkg), cfg, rpcinfo.NewRPCStats())
}

func (c rpc) path() string {
	if c.pkg == "" {
		return "/" + c.svc + "/" + c.method
	}
	return "/" + c.pkg + "." + c.svc + "/" + c.method
}

func newRouter(s *store, opts ...xdssuite.Option) *xdssuite.XDSRouter {
	xdssuite.SetXDSResourceManager(s)
	return xdssuite.NewXDSRouter(opts...)
}
