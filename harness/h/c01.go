package h

import (
	"time"

	nds "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/vsym"
	"google.golang.org/protobuf/types/known/anypb"
)

type item struct {
	name string
	mark uint32
}

// items builds a response of up to max resources with symbolic, pairwise
// distinct one-letter names and symbolic contents.
func items(rt xdsresource.ResourceType, class string, max int) (res []*anypb.Any, l []item) {
	n := vsym.Choose("resources", max+1)
	for i := 0; i < n; i++ {
		it := item{vsym.Str("name", 1, 1, class), vsym.U32("content")}
		for _, o := range l {
			vsym.Assume(o.name != it.name)
		}
		l = append(l, it)
		res = append(res, Marked(rt, it.name, it.mark))
	}
	return
}

// spoil optionally appends something undecodable; it reports whether the
// response is acceptable.
func spoil(rt xdsresource.ResourceType, res []*anypb.Any) ([]*anypb.Any, bool) {
	return spoilAs(vsym.Choose("valid", 3), rt, res)
}

func spoilAs(kind int, rt xdsresource.ResourceType, res []*anypb.Any) ([]*anypb.Any, bool) {
	switch kind {
	case 1:
		return append(res, vsym.Corrupt(urls[rt])), false
	case 2:
		bad := Marked(rt, "a", 7)
		bad.TypeUrl = "type.googleapis.com/envoy.config.core.v3.Node"
		return append([]*anypb.Any{bad}, res...), false
	}
	return res, true
}

// history drives `pushes` responses of one type through the real client and
// compares every lookup with the fold of the accepted ones.
func history(rt xdsresource.ResourceType) {
	K := vsym.Param("pushes", 2)
	N := vsym.Param("resources", 2)
	kinds := vsym.Param("kinds", 5)
	evict := vsym.Param("evict", 0)
	names := []string{"a", "b", "c", "d"}[:vsym.Param("names", 2)]
	srv := &Server{}
	m := NewMgr(srv, false, false)
	full := rt == LT || rt == CT
	fold := map[string]uint32{}
	interest := map[string]bool{}
	subscribe(m, rt, "a")
	interest["a"] = true
	if len(names) > 2 {
		for _, n := range names[1:] {
			subscribe(m, rt, n)
			interest[n] = true
		}
	}
	class := "abcde"[:len(names)+1]
	first, prev := "", ""
	for k := 0; k < K; k++ {
		if !interest["b"] && vsym.Choose("subscribe-b", 2) == 1 {
			subscribe(m, rt, "b")
			interest["b"] = true
		}
		// everything asked for is cached: let it all expire
		if evict == 1 && len(fold) > 0 && len(fold) == len(interest) && vsym.Choose("expire", 2) == 1 {
			time.Sleep(65 * time.Second)
			vsym.Settle()
			fold = map[string]uint32{}
			interest = map[string]bool{}
			vsym.Cover("expired")
		}
		res, l := items(rt, class, N)
		kind := 0
		if k == 0 {
			kind = vsym.Choose("valid", 3)
		} else {
			kind = vsym.Choose("kind", kinds)
		}
		res, ok := spoilAs(kind, rt, res)
		resp := srv.Resp(rt, res...)
		switch kind {
		case 3:
			resp.VersionInfo = prev
		case 4:
			resp.VersionInfo = first
		}
		prev = resp.VersionInfo
		if k == 0 {
			first = prev
		}
		srv.Last().Push(resp)
		vsym.Settle()
		if ok {
			if full {
				fold = map[string]uint32{}
			}
			for _, it := range l {
				for n := range interest {
					if it.name == n {
						fold[n] = it.mark
					}
				}
			}
		}
		for _, n := range names {
			if interest[n] {
				checkLookup(m, rt, n, fold)
			}
		}
		if evict == 1 && len(interest) == 0 {
			checkLookup(m, rt, "a", fold)
			interest["a"] = true
		}
	}
	vsym.Cover("history")
	_, err := lookup(m, bg, rt, class[len(class)-1:])
	vsym.Assert(err != nil, "a name that was never asked for was stored")
	vsym.Cover("end")
}

func checkLookup(m Mgr, rt xdsresource.ResourceType, n string, fold map[string]uint32) {
	v, in := fold[n]
	got, err := lookup(m, bg, rt, n)
	vsym.Assert((err == nil) == in, "lookup succeeds iff the fold contains the name")
	if err == nil {
		mk, ok := MarkOf(rt, got)
		vsym.Assert(ok, "looked-up resource lost its content")
		vsym.Observe("mark", mk)
		vsym.Assert(mk == v, "lookup returns the most recent accepted content")
		vsym.Cover("hit")
	} else {
		vsym.Cover("miss")
	}
}

func C01_LDS() { history(LT) }
func C01_RDS() { history(RT) }
func C01_CDS() { history(CT) }
func C01_EDS() { history(ET) }

// C01_Mixed: responses of all the types in any order, with the same name used
// in each, in the name-table-required configuration.
func C01_Mixed() {
	K := vsym.Param("pushes", 3)
	ntypes := vsym.Param("types", 4)
	rts := []xdsType{LT, RT, CT, ET}[:ntypes]
	srv := &Server{Table: map[string]*nds.NameTable_NameInfo{"svc.default.svc.cluster.local": ips("10.0.0.1"), "alt.default.svc.cluster.local": ips("10.0.0.2", "10.0.0.1")}}
	m := NewMgr(srv, true, true)
	// per type: what is asked for, and how the control plane calls it
	ask := map[xdsType]string{LT: "svc", RT: "a", CT: "a", ET: "a"}
	wire := map[xdsType]string{LT: "10.0.0.1_80", RT: "a", CT: "a", ET: "a"}
	fold := map[xdsType]map[string]uint32{LT: {}, RT: {}, CT: {}, ET: {}}
	for _, rt := range rts {
		subscribe(m, rt, ask[rt])
	}
	var inMark uint32
	inSet := false
	for k := 0; k < K; k++ {
		t := vsym.Choose("type", ntypes+1)
		if t == ntypes {
			// the name table is sent again: nothing else changes
			srv.Last().Push(srv.Resp(NT, TableAny(srv.Table)))
			vsym.Settle()
			vsym.Cover("table")
		} else {
			rt := rts[t]
			var res []*anypb.Any
			if rt == LT || rt == CT {
				fold[rt] = map[string]uint32{}
				inSet = inSet && rt != LT
			}
			if rt == LT && vsym.Choose("inbound", 2) == 1 {
				inMark, inSet = vsym.U32("in-content"), true
				res = append(res, Marked(rt, inbound, inMark))
			}
			if vsym.Choose("other", 2) == 1 {
				res = append(res, Marked(rt, "10.0.0.2_80", vsym.U32("other-content")))
			}
			if vsym.Choose("has", 2) == 1 {
				v := vsym.U32("content")
				res = append(res, Marked(rt, wire[rt], v))
				fold[rt][ask[rt]] = v
			}
			srv.Last().Push(srv.Resp(rt, res...))
			vsym.Settle()
		}
		for _, rt := range rts {
			checkLookup(m, rt, ask[rt], fold[rt])
		}
		got, err := lookup(m, bg, LT, inbound)
		vsym.Assert((err == nil) == inSet, "the inbound listener is served iff the last listener response had it")
		if err == nil {
			mk, ok := MarkOf(LT, got)
			vsym.Assert(ok && mk == inMark, "the inbound listener is the latest one")
			vsym.Cover("inbound")
		}
	}
	for _, rt := range rts {
		_, err := lookup(m, bg, rt, "10.0.0.2_80")
		vsym.Assert(err != nil, "a name that was never asked for was stored")
	}
	vsym.Cover("end")
}

// C01_Alias: several subscribed names that designate the same listener are
// all served from it.
func C01_Alias() {
	setEnv()
	n := naming{"default", "cluster.local"}
	srv := &Server{}
	m := ndsMgr(srv)
	addrs := []string{"a", "a.default", "A:80", "a.default.svc.cluster.local", "b"}
	k := 2 + vsym.Choose("names", 3)
	if vsym.Choose("first", 2) == 1 {
		addrs[0], addrs[4] = addrs[4], addrs[0]
	}
	table := []nameEntry{{"a.default.svc.cluster.local", []string{"10.0.0.1"}}, {"b.default.svc.cluster.local", []string{"10.0.0." + string(rune('1'+vsym.Choose("ip", 2)))}}}
	srv.Last().Push(srv.Resp(NT, n.table(table)))
	vsym.Settle()
	for _, a := range addrs[:k] {
		subscribe(m, LT, a)
	}
	marks := map[string]uint32{}
	for i := 0; i < vsym.Param("pushes", 2); i++ {
		next := map[string]uint32{}
		var res []*anypb.Any
		for _, ln := range []string{"10.0.0.1_80", "10.0.0.2_80"} {
			if vsym.Choose("listed", 2) == 1 {
				next[ln] = vsym.U32("content")
				res = append(res, Marked(LT, ln, next[ln]))
			}
		}
		res, ok := spoil(LT, res)
		srv.Last().Push(srv.Resp(LT, res...))
		vsym.Settle()
		if ok {
			marks = next
		}
		for _, a := range addrs[:k] {
			want, ok := marks[n.bound(table, a)]
			got, err := lookup(m, bg, LT, a)
			if !ok {
				vsym.Assert(err != nil, "a listener the last response omits is not served")
				continue
			}
			vsym.Assert(err == nil, "a listener of the last response is served")
			mk, isMarked := MarkOf(LT, got)
			vsym.Assert(isMarked && mk == want, "the content is that of the last accepted response")
		}
	}
	vsym.Cover("end")
}
