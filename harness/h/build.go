package h

import (
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3listener "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3route "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	ratelimit "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3hcm "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	v3type "github.com/envoyproxy/go-control-plane/envoy/type/v3"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/kitex-contrib/xds/zzverif/vsym"
)

var _ = v3core.Node{}

// bucketFilter is an HTTP filter carrying a local rate limit.
func bucketFilter(max, perFill uint32) *v3hcm.HttpFilter {
	return &v3hcm.HttpFilter{Name: "rl", ConfigType: &v3hcm.HttpFilter_TypedConfig{TypedConfig: vsym.Pack(rlURL, &ratelimit.LocalRateLimit{
		StatPrefix: "x", TokenBucket: &v3type.TokenBucket{MaxTokens: max, TokensPerFill: u32(perFill)}})}}
}

// otherFilter is an HTTP filter the client knows nothing about.
func otherFilter(name string) *v3hcm.HttpFilter {
	return &v3hcm.HttpFilter{Name: name, ConfigType: &v3hcm.HttpFilter_TypedConfig{TypedConfig: &anypb.Any{TypeUrl: "type.googleapis.com/envoy.extensions.filters.http.router.v3.Router"}}}
}

// serverChain is a filter chain of the inbound listener.
func serverChain(port *wrapperspb.UInt32Value, filters ...*v3hcm.HttpFilter) *v3listener.FilterChain {
	return chain(port, vsym.Pack(hcmURL, &v3hcm.HttpConnectionManager{
		RouteSpecifier: &v3hcm.HttpConnectionManager_RouteConfig{RouteConfig: &v3route.RouteConfiguration{Name: "in"}},
		HttpFilters:    filters,
	}))
}

func inboundListener(port, tokens uint32) *anypb.Any {
	return vsym.Pack(urls[LT], &v3listener.Listener{Name: inbound, FilterChains: []*v3listener.FilterChain{serverChain(u32(port), bucketFilter(tokens, tokens))}})
}

// retryTable is a route table with one route to the cluster.
func retryTable(name, cluster string, attempts uint32) *anypb.Any {
	return vsym.Pack(urls[RT], &v3route.RouteConfiguration{Name: name, VirtualHosts: []*v3route.VirtualHost{{Name: "vh", Routes: []*v3route.Route{{
		Match: &v3route.RouteMatch{PathSpecifier: &v3route.RouteMatch_Prefix{Prefix: "/"}},
		Action: &v3route.Route_Route{Route: &v3route.RouteAction{
			ClusterSpecifier: &v3route.RouteAction_Cluster{Cluster: cluster},
			RetryPolicy: &v3route.RetryPolicy{NumRetries: u32(attempts), PerTryTimeout: &durationpb.Duration{Nanos: 100e6},
				RetriableHeaders: []*v3route.HeaderMatcher{{Name: "kitexRetryErrorRate", HeaderMatchSpecifier: exact("0.1")}}},
		}},
	}}}}})
}

func exact(s string) *v3route.HeaderMatcher_StringMatch {
	return &v3route.HeaderMatcher_StringMatch{StringMatch: &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Exact{Exact: s}}}
}
