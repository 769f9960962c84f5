From d7466a69f1258d5729630324c594637c107cec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 01/19] fix: do not cache a nil placeholder for listeners
 absent from the response

---
 core/manager/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index c338e34..4bfebbb 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -482,8 +482,8 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 			if lis, ok := res[ln]; ok {
 				filteredRes[n] = lis
 			}
-		} else {
-			filteredRes[n] = res[n]
+		} else if lis, ok := res[n]; ok {
+			filteredRes[n] = lis
 		}
 	}
 	c.mu.RUnlock()
-- 
2.43.0


From 48eba41fd08f7d27a8eaa234074d06b322bb248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:13 +0000
Subject: [PATCH 02/19] fix: start the idle period of a cached resource when it
 is stored

---
 core/manager/manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 5581bba..81c16b4 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -259,11 +259,14 @@ func (m *xdsResourceManager) updateMeta(rType xdsresource.ResourceType, version
 			mt.Version = version
 			mt.UpdateTime = updateTime
 		} else {
-			m.meta[rType][name] = &xdsresource.ResourceMeta{
+			mt := &xdsresource.ResourceMeta{
 				Version:        version,
 				UpdateTime:     updateTime,
 				LastAccessTime: atomic.Value{},
 			}
+			// the resource may never be looked up: start its idle period now.
+			mt.LastAccessTime.Store(updateTime)
+			m.meta[rType][name] = mt
 		}
 	}
 }
-- 
2.43.0


From 4786351c5e4bb808602280db05a10dc5906b857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:55 +0000
Subject: [PATCH 03/19] fix: do not wait forever for the start-up responses
 once the client is stopped

---
 core/manager/client.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 4bfebbb..72a93da 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -301,15 +301,23 @@ func (c *xdsClient) ldsRequired() bool {
 func (c *xdsClient) ndsWarmup() {
 	// watch the NameTable when init the xds client
 	c.Watch(xdsresource.NameTableType, "", false)
-	<-c.cipResolver.initRequestCh
-	klog.Infof("KITEX: [XDS] nds, warmup done")
+	select {
+	case <-c.cipResolver.initRequestCh:
+		klog.Infof("KITEX: [XDS] nds, warmup done")
+	case <-c.closeCh:
+		klog.Warnf("KITEX: [XDS] nds, client is closed during warmup")
+	}
 }
 
 func (c *xdsClient) listenerWarmup() {
 	// watch the Listener when init the xds client, it is used for inbound side.
 	c.Watch(xdsresource.ListenerType, xdsresource.ReservedLdsResourceName, false)
-	<-c.inboundInitRequestCh
-	klog.Infof("KITEX: [XDS] lds, warmup done")
+	select {
+	case <-c.inboundInitRequestCh:
+		klog.Infof("KITEX: [XDS] lds, warmup done")
+	case <-c.closeCh:
+		klog.Warnf("KITEX: [XDS] lds, client is closed during warmup")
+	}
 }
 
 // warmup sends the requests (NDS) to the xds server and waits for the response to set the lookup table.
-- 
2.43.0


From c8de3409eff200ca0ae13816e9465b518f21b21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:55 +0000
Subject: [PATCH 04/19] fix: do not block lookups on the request queue once the
 client is stopped

---
 core/manager/client.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 72a93da..de7d0cf 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -338,6 +338,8 @@ func (c *xdsClient) run() {
 	as, err := c.connect()
 	if err != nil {
 		klog.Errorf("[XDS] client, failed to connect the xDS Server, error=%s", err.Error())
+		// no sender will ever drain the requests
+		c.close()
 		return
 	}
 
@@ -411,8 +413,11 @@ func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 }
 
 func (c *xdsClient) sendRequest(req *discoveryv3.DiscoveryRequest) {
-	// put the req to the channel
-	c.reqCh <- req
+	// put the req to the channel, the sender is gone once the client is closed.
+	select {
+	case c.reqCh <- req:
+	case <-c.closeCh:
+	}
 }
 
 func (c *xdsClient) resolveAddr(host string) string {
-- 
2.43.0


From b2bc3504bf02f712f583f6145d3a6db6e682a111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:59 +0000
Subject: [PATCH 05/19] fix: do not hold the client lock while sending on a new
 stream

---
 core/manager/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index de7d0cf..f5d6e13 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -401,9 +401,13 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 	// send new requests for all watched resources when reqWhenReconnect
 	c.mu.Lock()
-	defer c.mu.Unlock()
+	reqs := make([]*discoveryv3.DiscoveryRequest, 0, len(c.watchedResource))
 	for rType, res := range c.watchedResource {
-		req := c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res)
+		reqs = append(reqs, c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res))
+	}
+	c.mu.Unlock()
+	// the stream may block: send without the lock, which the lookups need
+	for _, req := range reqs {
 		if err := as.Send(req); err != nil {
 			// return err if send failed
 			return err
-- 
2.43.0


From f1f508787fbe655155e497e4e67b7456b6a787d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:59 +0000
Subject: [PATCH 06/19] fix: decode an empty load assignment to an empty
 resource instead of a nil one

---
 core/xdsresource/eds.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/xdsresource/eds.go b/core/xdsresource/eds.go
index 019f5bd..0c04cef 100644
--- a/core/xdsresource/eds.go
+++ b/core/xdsresource/eds.go
@@ -122,6 +122,10 @@ func UnmarshalEDS(rawResources []*anypb.Any) (map[string]Resource, error) {
 			errMap[cla.ClusterName] = err
 			continue
 		}
+		if endpoints == nil {
+			// the control plane supplied an empty load assignment
+			endpoints = &EndpointsResource{}
+		}
 		ret[cla.ClusterName] = endpoints
 	}
 	if len(errMap) == 0 && len(errSlice) == 0 {
-- 
2.43.0


From 0af68cfc58ceb9be8954340883cda9300a37e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 07/19] fix: a lookup keeps the resource delivered to it and
 leaves other lookups waiting

---
 core/manager/manager.go | 60 ++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 81c16b4..c0331c8 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -56,10 +56,14 @@ type xdsResourceManager struct {
 // notifier is used to notify the resource update along with error
 type notifier struct {
 	ch  chan struct{}
+	res xdsresource.Resource
 	err error
+	// waiters is the number of lookups waiting on ch, guarded by the lock of the manager
+	waiters int
 }
 
-func (n *notifier) notify(err error) {
+func (n *notifier) notify(res xdsresource.Resource, err error) {
+	n.res = res
 	n.err = err
 	close(n.ch)
 }
@@ -109,6 +113,11 @@ func initXDSClient(bootstrapConfig *BootstrapConfig, m *xdsResourceManager) (*xd
 func (m *xdsResourceManager) getFromCache(rType xdsresource.ResourceType, rName string) (interface{}, bool) {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.getFromCacheLocked(rType, rName)
+}
+
+// getFromCacheLocked is getFromCache for callers that hold the lock
+func (m *xdsResourceManager) getFromCacheLocked(rType xdsresource.ResourceType, rName string) (interface{}, bool) {
 	if ms, ok1 := m.meta[rType]; ok1 {
 		if mt, ok2 := ms[rName]; ok2 {
 			mt.LastAccessTime.Store(time.Now())
@@ -151,6 +160,11 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 
 	// Fetch resource via client and wait for the update
 	m.mu.Lock()
+	// the resource may have been delivered since the cache was read
+	if res, ok := m.getFromCacheLocked(rType, rName); ok {
+		m.mu.Unlock()
+		return res, nil
+	}
 	// Setup channel for this resource
 	if _, ok := m.notifierMap[rType]; !ok {
 		m.notifierMap[rType] = make(map[string]*notifier)
@@ -162,6 +176,7 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 		// only send one request for this resource
 		m.client.Watch(rType, rName, false)
 	}
+	nf.waiters++
 	m.mu.Unlock()
 	// Set fetch timeout
 	ctx, cancel := context.WithTimeout(ctx, m.opts.XDSSvrConfig.GetFetchXDSTimeout())
@@ -169,21 +184,40 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 
 	select {
 	case <-nf.ch:
-		// error in the notifier
-		if nf.err != nil {
-			return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] failed, error=%s",
-				xdsresource.ResourceTypeToName[rType], rName, nf.err.Error())
+	case <-ctx.Done():
+		if m.abandon(rType, rName, nf) {
+			return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] timeout",
+				xdsresource.ResourceTypeToName[rType], rName)
 		}
-		res, _ = m.getFromCache(rType, rName)
+		// notified in the meantime
+	}
+	// error in the notifier
+	if nf.err != nil {
+		return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] failed, error=%s",
+			xdsresource.ResourceTypeToName[rType], rName, nf.err.Error())
+	}
+	if res, ok = m.getFromCache(rType, rName); ok {
 		return res, nil
-	case <-ctx.Done():
-		// remove the notifier if timeout.
-		m.mu.Lock()
+	}
+	// removed again after the notification
+	return nf.res, nil
+}
+
+// abandon gives up waiting on the notifier. It returns false if the notifier has been notified already.
+// The notifier is shared: it is removed only when no other lookup waits on it.
+func (m *xdsResourceManager) abandon(rType xdsresource.ResourceType, rName string, nf *notifier) bool {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	select {
+	case <-nf.ch:
+		return false
+	default:
+	}
+	nf.waiters--
+	if nf.waiters == 0 {
 		delete(m.notifierMap[rType], rName)
-		m.mu.Unlock()
-		return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] timeout",
-			xdsresource.ResourceTypeToName[rType], rName)
 	}
+	return true
 }
 
 // cleaner cleans the expired cache periodically
@@ -295,7 +329,7 @@ func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[
 			continue
 		}
 		if nf, exist := m.notifierMap[rt][name]; exist {
-			nf.notify(nil)
+			nf.notify(res, nil)
 			delete(m.notifierMap[rt], name)
 		}
 	}
-- 
2.43.0


From f5865d0cf7cc3d697acdeb9d639b8698e6375968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:30 +0000
Subject: [PATCH 08/19] fix: do not lose or race on a limit that changes while
 the server starts

---
 xdssuite/limiter.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xdssuite/limiter.go b/xdssuite/limiter.go
index c0ec63e..5ff6e69 100644
--- a/xdssuite/limiter.go
+++ b/xdssuite/limiter.go
@@ -18,6 +18,7 @@ package xdssuite
 
 import (
 	"math"
+	"sync"
 	"sync/atomic"
 
 	"github.com/cloudwego/kitex/pkg/klog"
@@ -63,14 +64,18 @@ func getLimiterPolicy(up map[string]xdsresource.Resource) map[uint32]uint32 {
 
 type limiter struct {
 	updater atomic.Value
-	opt     *limit.Option
-	port    uint32
+	// mu guards opt and keeps the hand-off of the updater in order with the updates
+	mu   sync.Mutex
+	opt  *limit.Option
+	port uint32
 }
 
 func (l *limiter) updateHandler(changed *limit.Option) {
 	if changed == nil {
 		return
 	}
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	l.opt.MaxConnections = changed.MaxConnections
 	l.opt.MaxQPS = changed.MaxQPS
 	u := l.updater.Load()
@@ -116,8 +121,10 @@ func NewLimiter(opts ...Option) server.Option {
 	}
 
 	l.opt.UpdateControl = func(u limit.Updater) {
-		u.UpdateLimit(l.opt)
+		l.mu.Lock()
+		defer l.mu.Unlock()
 		l.updater.Store(u)
+		u.UpdateLimit(l.opt)
 	}
 
 	m.RegisterXDSUpdateHandler(xdsresource.ListenerType, l.listenerUpdater)
-- 
2.43.0


From 8d267578dcfef991163e4ee2f5f627d639b9f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:31 +0000
Subject: [PATCH 09/19] fix: decode the base interval of the retry back-off

---
 core/xdsresource/rds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/xdsresource/rds.go b/core/xdsresource/rds.go
index dd7f71a..0e6c852 100644
--- a/core/xdsresource/rds.go
+++ b/core/xdsresource/rds.go
@@ -214,7 +214,7 @@ func unmarshalRoutes(rs []*v3routepb.Route) ([]*Route, error) {
 				}
 				if backoff := retryPolicy.GetRetryBackOff(); backoff != nil {
 					route.RetryPolicy.RetryBackOff = &RetryBackOff{
-						BaseInterval: backoff.GetMaxInterval().AsDuration(),
+						BaseInterval: backoff.GetBaseInterval().AsDuration(),
 						MaxInterval:  backoff.GetMaxInterval().AsDuration(),
 					}
 				}
-- 
2.43.0


From 555ba612e68c2070928a7669f1dd74cc6702cc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 10/19] fix: find the local rate limit anywhere in the HTTP
 filter chain

---
 core/xdsresource/lds.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index 0959008..f9b2581 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -281,7 +281,6 @@ func getLocalRateLimitFromHttpConnectionManager(hcm *v3httppb.HttpConnectionMana
 				return uint32(maxTokens.GetNumberValue()), uint32(tokensPerfill.GetNumberValue()), nil
 			}
 		}
-		return 0, 0, nil
 	}
 	return 0, 0, nil
 }
-- 
2.43.0


From e9818fc61fb8b061cbb0dcff8ca4467be2f1b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 11/19] fix: keep the destination port of thrift filter chains

---
 core/xdsresource/lds.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index f9b2581..70175cf 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -130,6 +130,7 @@ func unmarshalFilterChain(fc *v3listenerpb.FilterChain) ([]*NetworkFilter, error
 				}
 				filters = append(filters, &NetworkFilter{
 					FilterType:        NetworkFilterTypeThrift,
+					RoutePort:         matchPort,
 					InlineRouteConfig: r,
 				})
 			}
-- 
2.43.0


From 34d6f054fcbd3d568167c5b50615ca2599438262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 12/19] fix: keep every condition on the same header

---
 core/xdsresource/matcher.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/core/xdsresource/matcher.go b/core/xdsresource/matcher.go
index cbd56ef..3604053 100644
--- a/core/xdsresource/matcher.go
+++ b/core/xdsresource/matcher.go
@@ -49,8 +49,28 @@ type Matcher interface {
 	Match(string) bool
 }
 
+// allMatcher holds several conditions on the same key.
+type allMatcher []Matcher
+
+func (am allMatcher) Match(other string) bool {
+	for _, m := range am {
+		if !m.Match(other) {
+			return false
+		}
+	}
+	return true
+}
+
 type Matchers map[string]Matcher
 
+// add adds a condition on the key to the ones already there.
+func (ms Matchers) add(key string, m Matcher) {
+	if prev, ok := ms[key]; ok {
+		m = allMatcher{prev, m}
+	}
+	ms[key] = m
+}
+
 func (ms Matchers) Match(other map[string]string) bool {
 	for key, m := range ms {
 		if val, ok := other[key]; !ok || !m.Match(val) {
@@ -62,18 +82,18 @@ func (ms Matchers) Match(other map[string]string) bool {
 
 // BuildMatchers build matcher set from headers
 func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
-	ms := map[string]Matcher{}
+	ms := Matchers{}
 	for _, header := range headers {
 		switch hm := header.GetHeaderMatchSpecifier().(type) {
 		case *v3.HeaderMatcher_StringMatch:
 			switch p := hm.StringMatch.GetMatchPattern().(type) {
 			case *v3matcher.StringMatcher_Exact:
 				if p.Exact != "" {
-					ms[header.Name] = ExactMatcher(p.Exact)
+					ms.add(header.Name, ExactMatcher(p.Exact))
 				}
 			case *v3matcher.StringMatcher_Prefix:
 				if p.Prefix != "" {
-					ms[header.Name] = PrefixMatcher(p.Prefix)
+					ms.add(header.Name, PrefixMatcher(p.Prefix))
 				}
 			case *v3matcher.StringMatcher_SafeRegex:
 				// only support google re2
@@ -83,9 +103,9 @@ func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:", p.SafeRegex.Regex, err)
 						continue
 					}
-					ms[header.Name] = &RegexMatcher{
+					ms.add(header.Name, &RegexMatcher{
 						re: re2,
-					}
+					})
 				}
 			}
 		}
-- 
2.43.0


From 8e9ebe87dcacb732263cb426069f2e42ed6a355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:34 +0000
Subject: [PATCH 13/19] fix: a condition on an empty value still requires the
 header

---
 core/xdsresource/matcher.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/core/xdsresource/matcher.go b/core/xdsresource/matcher.go
index 3604053..f6b47f6 100644
--- a/core/xdsresource/matcher.go
+++ b/core/xdsresource/matcher.go
@@ -88,16 +88,12 @@ func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 		case *v3.HeaderMatcher_StringMatch:
 			switch p := hm.StringMatch.GetMatchPattern().(type) {
 			case *v3matcher.StringMatcher_Exact:
-				if p.Exact != "" {
-					ms.add(header.Name, ExactMatcher(p.Exact))
-				}
+				ms.add(header.Name, ExactMatcher(p.Exact))
 			case *v3matcher.StringMatcher_Prefix:
-				if p.Prefix != "" {
-					ms.add(header.Name, PrefixMatcher(p.Prefix))
-				}
+				ms.add(header.Name, PrefixMatcher(p.Prefix))
 			case *v3matcher.StringMatcher_SafeRegex:
 				// only support google re2
-				if p.SafeRegex != nil && p.SafeRegex.Regex != "" {
+				if p.SafeRegex != nil {
 					re2, err := regexp.Compile(p.SafeRegex.Regex)
 					if err != nil {
 						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:", p.SafeRegex.Regex, err)
-- 
2.43.0


From 152c0e88924e4309f505b119305adc3aaafbedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:34 +0000
Subject: [PATCH 14/19] fix: pick clusters in proportion to their weights

---
 xdssuite/router.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/xdssuite/router.go b/xdssuite/router.go
index e6ccd8f..4ef77e4 100644
--- a/xdssuite/router.go
+++ b/xdssuite/router.go
@@ -218,16 +218,20 @@ func pickCluster(route *xdsresource.Route) (string, error) {
 	if len(wcs) == 1 {
 		return wcs[0].Name, nil
 	}
-	currWeight := uint32(0)
-	totalWeight := calTotalWeight(wcs)
-	if totalWeight <= 0 {
+	// the sum of the weights may exceed 32 bits
+	var currWeight, totalWeight uint64
+	for _, wc := range wcs {
+		totalWeight += uint64(wc.Weight)
+	}
+	if totalWeight == 0 {
 		js, _ := route.MarshalJSON()
 		return "", fmt.Errorf("total weight of route is invalid (<= 0), route: %s", js)
 	}
-	targetWeight := uint32(fastrand.Int31n(int32(totalWeight)))
+	// draw from [0, totalWeight): a cluster owns as many values as its weight
+	targetWeight := uint64(fastrand.Int63n(int64(totalWeight)))
 	for _, wc := range wcs {
-		currWeight += wc.Weight
-		if currWeight >= targetWeight {
+		currWeight += uint64(wc.Weight)
+		if currWeight > targetWeight {
 			return wc.Name, nil
 		}
 	}
-- 
2.43.0


From a96f744b64b2aaec61c2d11f1c102fddcd2e829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:35 +0000
Subject: [PATCH 15/19] fix: a cluster whose localities are empty has no
 endpoints

---
 xdssuite/resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xdssuite/resolver.go b/xdssuite/resolver.go
index 0d73e8f..5e49abc 100644
--- a/xdssuite/resolver.go
+++ b/xdssuite/resolver.go
@@ -96,6 +96,9 @@ func (r *XDSResolver) getEndpoints(ctx context.Context, desc string) ([]*xdsreso
 	for _, locality := range endpoints.Localities {
 		eps = append(eps, locality.Endpoints...)
 	}
+	if len(eps) == 0 {
+		return nil, fmt.Errorf("no endpoints for cluster: %s", desc)
+	}
 	return eps, nil
 }
 
-- 
2.43.0


From 9fa7049b296359e85d5e4080498ba3ece8654127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:35 +0000
Subject: [PATCH 16/19] fix: look for the pod IP among the elements of
 INSTANCE_IPS

---
 core/manager/bootstrap.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/manager/bootstrap.go b/core/manager/bootstrap.go
index e96fd75..a815ac1 100644
--- a/core/manager/bootstrap.go
+++ b/core/manager/bootstrap.go
@@ -117,7 +117,7 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 		existips := ips.GetStringValue()
 		if existips == "" {
 			existips = podIP
-		} else if !strings.Contains(existips, podIP) {
+		} else if !containsIP(existips, podIP) {
 			existips = existips + "," + podIP
 		}
 		pbmeta.Fields[IstioMetaInstanceIPs] = &structpb.Value{
@@ -127,6 +127,16 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 	return pbmeta
 }
 
+// containsIP tells whether ip is an element of the comma separated list.
+func containsIP(list, ip string) bool {
+	for _, e := range strings.Split(list, ",") {
+		if strings.TrimSpace(e) == ip {
+			return true
+		}
+	}
+	return false
+}
+
 func nodeId(podIP, podName, namespace, nodeDomain string) string {
 	//"sidecar~" + podIP + "~" + podName + "." + namespace + "~" + namespace + ".svc." + domain,
 	return fmt.Sprintf("sidecar~%s~%s.%s~%s.svc.%s", podIP, podName, namespace, namespace, nodeDomain)
-- 
2.43.0


From 030d54dd94154640c08f0217a9d0391fa4350e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:36 +0000
Subject: [PATCH 17/19] fix: hand the resources omitted from a partial update
 to the update handlers

---
 core/manager/manager.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index c0331c8..719ff19 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -315,8 +315,9 @@ func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[
 	// should update xds updater first, as it may affect the traffic when the
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
+		current := m.merged(rt, up)
 		for _, handler := range handlers {
-			handler(up)
+			handler(current)
 		}
 	}
 
@@ -346,6 +347,21 @@ func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[
 	m.updateMeta(rt, version)
 }
 
+// merged returns all the resources of the type that are in force with the update.
+func (m *xdsResourceManager) merged(rt xdsresource.ResourceType, up map[string]xdsresource.Resource) map[string]xdsresource.Resource {
+	if rt.RequireFullADSResponse() {
+		return up
+	}
+	current := make(map[string]xdsresource.Resource, len(m.cache[rt])+len(up))
+	for name, res := range m.cache[rt] {
+		current[name] = res
+	}
+	for name, res := range up {
+		current[name] = res
+	}
+	return current
+}
+
 func isReservedResource(resourceType xdsresource.ResourceType, resourceName string) bool {
 	return resourceType == xdsresource.ListenerType && resourceName == xdsresource.ReservedLdsResourceName
 }
-- 
2.43.0


From ea10d99efb8160da243bd1d1eeda01ee72315751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:36 +0000
Subject: [PATCH 18/19] fix: ignore the case of the hosts in the name table and
 of the configured domain

---
 core/manager/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index f5d6e13..eb9693e 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -95,7 +95,11 @@ func (r *ndsResolver) updateLookupTable(up map[string][]string) {
 		close(r.initRequestCh)
 		r.closed = true
 	}
-	r.lookupTable = up
+	// hosts are compared in case-insensitive manner
+	r.lookupTable = make(map[string][]string, len(up))
+	for host, ips := range up {
+		r.lookupTable[strings.ToLower(host)] = ips
+	}
 }
 
 // xdsClient communicates with the control plane to perform xds resource discovery.
@@ -437,7 +441,7 @@ func (c *xdsClient) resolveAddr(host string) string {
 	// 4. service with more than 4 parts, such as dubbo interface org.cloudwego.kitex.samples.api.greetprovider, invoke twice always.
 	// FIXME: format as <serviceName>.<namespace> is not supported.
 	// TODO: if it leads to performance issue, use cache to improve it.
-	fqdn := c.config.tryExpandFQDN(host)
+	fqdn := strings.ToLower(c.config.tryExpandFQDN(host))
 	cip, ok := c.cipResolver.lookupHost(fqdn)
 	if ok && len(cip) > 0 {
 		return cip[0]
-- 
2.43.0


From 207b85fb987bcf563481164a1e8e3c2b1de262a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 19/19] fix: do not store a resource that was withdrawn while
 its update was handled

---
 core/manager/client.go  | 19 +++++++++++++++----
 core/manager/manager.go | 13 +++++++++++++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index eb9693e..0a2b061 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -181,6 +181,17 @@ func (c *xdsClient) Watch(rType xdsresource.ResourceType, rName string, remove b
 	c.sendRequest(req)
 }
 
+// removeUnwatched removes the resources that are not watched from res
+func (c *xdsClient) removeUnwatched(rType xdsresource.ResourceType, res map[string]xdsresource.Resource) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+	for name := range res {
+		if !c.watchedResource[rType][name] {
+			delete(res, name)
+		}
+	}
+}
+
 // prepareRequest prepares a new request for the specified resource type with input version and nonce
 func (c *xdsClient) prepareRequest(rType xdsresource.ResourceType, version, nonce string, res map[string]bool) *discoveryv3.DiscoveryRequest {
 	rNames := make([]string, 0, len(res))
@@ -509,7 +520,7 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.ListenerType, filteredRes, resp.GetVersionInfo())
+	c.resourceUpdater.updateWatched(c, xdsresource.ListenerType, filteredRes, resp.GetVersionInfo())
 
 	if c.closedInboundInitCh.CompareAndSwap(false, true) {
 		klog.Info("KITEX: [xds] receive inbound init request")
@@ -536,7 +547,7 @@ func (c *xdsClient) handleRDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.RouteConfigType, res, resp.GetVersionInfo())
+	c.resourceUpdater.updateWatched(c, xdsresource.RouteConfigType, res, resp.GetVersionInfo())
 	return nil
 }
 
@@ -557,7 +568,7 @@ func (c *xdsClient) handleCDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.ClusterType, res, resp.GetVersionInfo())
+	c.resourceUpdater.updateWatched(c, xdsresource.ClusterType, res, resp.GetVersionInfo())
 	return nil
 }
 
@@ -578,7 +589,7 @@ func (c *xdsClient) handleEDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.EndpointsType, res, resp.GetVersionInfo())
+	c.resourceUpdater.updateWatched(c, xdsresource.EndpointsType, res, resp.GetVersionInfo())
 	return nil
 }
 
diff --git a/core/manager/manager.go b/core/manager/manager.go
index 719ff19..a53d024 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -311,7 +311,20 @@ func (m *xdsResourceManager) updateMeta(rType xdsresource.ResourceType, version
 func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	m.updateResourceLocked(rt, up, version)
+}
+
+// updateWatched updates the cache with the resources that are still watched by the client. The cleaner withdraws
+// resources under the lock of the manager, so one that is stored here is not withdrawn before it is stored.
+func (m *xdsResourceManager) updateWatched(c *xdsClient, rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	c.removeUnwatched(rt, up)
+	m.updateResourceLocked(rt, up, version)
+}
 
+// updateResourceLocked is UpdateResource for callers that hold the lock
+func (m *xdsResourceManager) updateResourceLocked(rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
 	// should update xds updater first, as it may affect the traffic when the
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
-- 
2.43.0

