C="core/manager/client.go"; M="core/manager/manager.go"; X="core/xdsresource/"; B="core/manager/bootstrap.go"
S="xdssuite/"
HDR='''package zzdemo

import (
	"testing"
	"time"
)
var _ = time.Now
'''
def hdr(*imports):
    return HDR.replace('import (','import (\n'+''.join('\t%s\n' % i for i in imports))
V3R='v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"'
V3L='v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"'
V3C='v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"'
V3M='v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"'
XR='"github.com/kitex-contrib/xds/core/xdsresource"'
SU='"github.com/kitex-contrib/xds/xdssuite"'
RI='"github.com/cloudwego/kitex/pkg/rpcinfo"'
RE='"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"'
UT='"github.com/cloudwego/kitex/pkg/utils"'
CL='"github.com/cloudwego/kitex/client"'
AP='"google.golang.org/protobuf/types/known/anypb"'
PB='"google.golang.org/protobuf/types/known/durationpb"'
CTX='"context"'
# a fixed store in place of a manager
STORE='''
type store map[xdsresource.ResourceType]map[string]xdsresource.Resource

func (s store) Get(ctx context.Context, rt xdsresource.ResourceType, name string) (interface{}, error) {
	if r, ok := s[rt][name]; ok {
		return r, nil
	}
	return nil, errors.New("absent")
}

var hs []xdsresource.XDSUpdateHandler

func (s store) RegisterXDSUpdateHandler(rt xdsresource.ResourceType, h xdsresource.XDSUpdateHandler) {
	hs = append(hs, h)
}
'''
CALL='''
func call(svc, method string) (context.Context, rpcinfo.RPCInfo) {
	to := remoteinfo.NewRemoteInfo(&rpcinfo.EndpointBasicInfo{ServiceName: "dst", Method: method}, method)
	cfg := rpcinfo.NewRPCConfig()
	ri := rpcinfo.NewRPCInfo(nil, to, rpcinfo.NewInvocation(svc, method), cfg, rpcinfo.NewRPCStats())
	return rpcinfo.NewCtxWithRPCInfo(context.Background(), ri), ri
}
'''
