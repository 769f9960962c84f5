package h

import (
	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/utils"
	v3cluster "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/kitex-contrib/xds/xdssuite"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// outlier is what an update says about one cluster.
type outlier struct {
	listed    bool
	detection bool
	threshold uint32
	volume    uint32
}

func (o outlier) any(name string) *anypb.Any {
	c := &v3cluster.Cluster{Name: name}
	if o.detection {
		d := &v3cluster.OutlierDetection{EnforcingFailurePercentage: u32(100), SuccessRateRequestVolume: u32(5)}
		d.FailurePercentageThreshold, d.FailurePercentageRequestVolume = maybe(o.threshold), maybe(o.volume)
		c.OutlierDetection = d
	}
	return vsym.Pack(urls[CT], c)
}

// maybe leaves out a concrete zero.
func maybe(v uint32) *wrapperspb.UInt32Value {
	if v == 0 {
		return nil
	}
	return u32(v)
}

func symOutlier(full bool) outlier {
	o := outlier{listed: true, detection: true}
	if !full {
		// seen from a cluster that varies fully, the others come and go
		if vsym.Choose("other", 2) == 1 {
			o.threshold, o.volume = 50, uint32(vsym.Int("other-volume", 1, 1<<20))
			return o
		}
		return outlier{}
	}
	switch vsym.Choose("cluster", 5) {
	case 0:
		return outlier{}
	case 1:
		o.detection = false
	case 2:
		o.threshold, o.volume = vsym.U32("threshold"), 0
	case 3:
		o.threshold, o.volume = 0, vsym.U32("volume")
	case 4:
		o.threshold, o.volume = vsym.U32("threshold"), vsym.U32("volume")
	}
	return o
}

// breaker is one client's circuit breaker and what it was told.
type breaker struct {
	cb   *circuitbreak.CBSuite
	ever map[string]bool // configured by an update it saw
}

func newBreaker(cur map[string]outlier) *breaker {
	var co client.Options
	xdssuite.NewCircuitBreaker(xdssuite.WithServiceCircuitBreak(true)).F(&co, &utils.Slice{})
	b := &breaker{cb: co.CBSuite, ever: map[string]bool{}}
	b.saw(cur)
	return b
}

func (b *breaker) saw(cur map[string]outlier) {
	for n, o := range cur {
		if o.listed && o.detection {
			b.ever[n] = true
		}
	}
}

func (b *breaker) check(cur map[string]outlier) {
	svc := b.cb.Dump().(map[string]interface{})["cb_config"].(map[string]interface{})["service"].(map[string]interface{})
	for _, n := range []string{"a", "b", "c"} {
		raw, there := svc[n]
		o := cur[n]
		if !(o.listed && o.detection) {
			if !b.ever[n] {
				vsym.Assert(!there, "a cluster that was never configured is")
				continue
			}
			vsym.Assert(there && !raw.(circuitbreak.CBConfig).Enable, "a cluster no longer configured is disabled")
			continue
		}
		vsym.Assert(there, "a configured cluster has a configuration")
		cfg := raw.(circuitbreak.CBConfig)
		if o.threshold != 0 && o.volume != 0 {
			vsym.Assert(cfg.Enable, "a cluster with a threshold and a volume is enabled")
			vsym.Assert(cfg.ErrRate == float64(o.threshold)/100, "the error rate is the threshold")
			vsym.Assert(cfg.MinSample == int64(o.volume), "the minimum sample is the volume")
			vsym.Cover("enabled")
		} else {
			vsym.Assert(!cfg.Enable, "a cluster with a zero is disabled")
			vsym.Cover("disabled")
		}
	}
}

// C16_History: clients created at any time, through updates, rejected
// updates and reconnections.
func C16_History() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	xdssuite.SetXDSResourceManager(m)
	names := append([]string(nil), []string{"a", "b"}[:vsym.Param("clusters", 2)]...)
	subscribe(m, ET, "a")
	subscribe(m, RT, "r")
	for _, n := range names {
		subscribe(m, CT, n)
	}
	cur := map[string]outlier{}
	bs := []*breaker{newBreaker(cur)}
	n := vsym.Param("pushes", 3)
	late := vsym.Choose("late", n+1)
	for i := 0; i < n; i++ {
		if late == i {
			bs = append(bs, newBreaker(cur))
			bs[len(bs)-1].check(cur)
		}
		switch vsym.Choose("event", vsym.Param("events", 5)) {
		case 0:
			var res []*anypb.Any
			cur = map[string]outlier{}
			for j, c := range names {
				o := symOutlier(j == 0)
				cur[c] = o
				if o.listed {
					res = append(res, o.any(c))
				}
			}
			srv.Last().Push(srv.Resp(CT, res...))
			for _, b := range bs {
				b.saw(cur)
			}
		case 1:
			srv.Last().Push(srv.Resp(CT, symOutlierAny("a"), vsym.Corrupt(urls[CT])))
		case 2:
			srv.Last().Break(errBroken)
		case 3: // a cluster more is of interest
			if !has(names, "c") {
				names = append(names, "c")
				subscribe(m, CT, "c")
			}
		case 4: // updates of other types
			srv.Last().Push(srv.Resp(ET, Marked(ET, "a", 1)))
			srv.Last().Push(srv.Resp(RT, retryTable("r", "a", 1)))
		}
		vsym.Settle()
		for _, b := range bs {
			b.check(cur)
		}
	}
	if late == n {
		newBreaker(cur).check(cur)
	}
	vsym.Cover("end")
}

func symOutlierAny(name string) *anypb.Any {
	return outlier{true, true, vsym.U32("threshold"), 9}.any(name)
}
