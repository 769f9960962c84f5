package h

import (
	"time"

	nds "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

const expire = 30 * time.Second

const nodeID = "sidecar~10.0.0.9~pod-1.default~default.svc.cluster.local"

// want is the interest set of one type as the property defines it; a name
// with value false may or may not be in it.
type want map[string]bool

func (w want) admits(names []string) bool {
	seen := map[string]bool{}
	for _, n := range names {
		if _, ok := w[n]; !ok || seen[n] {
			return false
		}
		seen[n] = true
	}
	for n, sure := range w {
		if sure && !seen[n] {
			return false
		}
	}
	return true
}

// settleOn takes over what the client decided about the open names.
func (w want) settleOn(names []string) {
	for n := range w {
		w[n] = true
		if !has(names, n) {
			delete(w, n)
		}
	}
}

func idOK(q *Req) bool { return q.Node != nil && q.Node.Id == nodeID && q.Node.Metadata != nil }

// C03_Ops: arbitrary sequences of lookups, responses, idle periods and stream
// failures; every request is compared with the model's interest set.
func C03_Ops() {
	K := vsym.Param("ops", 3)
	srv := &Server{}
	m := NewMgr(srv, false, false)
	types := []xdsresource.ResourceType{[]xdsresource.ResourceType{RT, ET, CT, LT}[vsym.Choose("type", 4)], CT}
	if types[0] == CT {
		types[1] = ET
	}
	w := map[xdsresource.ResourceType]want{types[0]: {}, types[1]: {}}
	cached := map[xdsresource.ResourceType]map[string]bool{types[0]: {}, types[1]: {}}
	asked := map[xdsresource.ResourceType]bool{}
	for k := 0; k < K; k++ {
		before := len(srv.Reqs)
		stream := srv.Last().ID
		changed := map[xdsresource.ResourceType]bool{}
		op := vsym.Choose("op", 4)
		t := types[0]
		if op < 2 && vsym.Choose("which", 2) == 1 {
			t = types[1]
		}
		switch op {
		case 0:
			n := "a"
			if vsym.Bool("name-b") {
				n = "b"
			}
			_, err := lookup(m, bg, t, n)
			vsym.Assert((err == nil) == cached[t][n], "lookup result")
			if !cached[t][n] {
				changed[t] = !w[t][n]
				w[t][n] = true
				asked[t] = true
			}
		case 1:
			res, l := items(t, "abc", 2)
			srv.Last().Push(srv.Resp(t, res...))
			vsym.Settle()
			if !asked[t] {
				break
			}
			changed[t] = true
			if t == LT || t == CT {
				for n := range cached[t] {
					w[t][n] = false // dropped: it may be withdrawn when idle
				}
				cached[t] = map[string]bool{}
			}
			for _, it := range l {
				for n := range w[t] {
					if it.name == n {
						cached[t][n] = true
						w[t][n] = true
					}
				}
			}
		case 2:
			srv.Last().Break(errBroken)
			vsym.Settle()
			time.Sleep(time.Second)
			vsym.Settle()
			stream++
			for t := range asked {
				changed[t] = true
			}
		case 3:
			time.Sleep(3*expire + 5*time.Second)
			vsym.Settle()
			for t := range cached {
				for n := range cached[t] {
					changed[t] = true
					delete(w[t], n)
				}
				cached[t] = map[string]bool{}
			}
			vsym.Cover("idle")
		}
		vsym.Settle()
		last := map[xdsresource.ResourceType]*Req{}
		for _, q := range srv.Reqs[before:] {
			known := false
			for _, t := range types {
				if q.URL == urls[t] {
					known = true
					last[t] = q
					if op != 3 {
						vsym.Assert(w[t].admits(q.Names), "request lists the interest set")
					}
				}
			}
			vsym.Assert(known, "request for a type nobody asked for")
			vsym.Assert(idOK(q), "request identifies the node")
			vsym.Assert(q.Stream == stream || q.Stream == srv.Last().ID, "request sent on a dead stream")
		}
		for t, c := range changed {
			if !c {
				continue
			}
			vsym.Assert(last[t] != nil, "a change of the interest set is followed by a request")
			vsym.Assert(last[t].Stream == srv.Last().ID, "the request is sent on the live stream")
			vsym.Assert(w[t].admits(last[t].Names), "the last request equals the interest set")
			w[t].settleOn(last[t].Names)
		}
	}
	vsym.Cover("end")
}

// C03_Start: the start-up subscriptions are exactly the name table and the
// inbound listener.
func C03_Start() {
	needNDS := vsym.Bool("nds")
	needLDS := vsym.Bool("lds")
	srv := &Server{Table: map[string]*nds.NameTable_NameInfo{}}
	NewMgr(srv, needNDS, needLDS)
	n, l := 0, 0
	for _, q := range srv.Reqs {
		vsym.Assert(idOK(q), "request identifies the node")
		switch q.URL {
		case urls[NT]:
			n++
		case urls[LT]:
			l++
			vsym.Assert(len(q.Names) == 1 && q.Names[0] == inbound, "start-up listener subscription")
			vsym.Assert(!needNDS || n > 0, "listener requested before the name table")
		default:
			vsym.Fail("start-up request for another type")
		}
	}
	vsym.Assert((n > 0) == needNDS && (l > 0) == needLDS, "start-up subscriptions")
	vsym.Cover("end")
}

// C03_Race: lookups of several names race with a response and each other; once
// quiescent the last request lists everything.
func C03_Race() {
	srv := &Server{}
	m := NewMgr(srv, false, false)
	subscribe(m, CT, "a")
	v := vsym.U32("v")
	done := 0
	names := []string{"a", vsym.Str("n2", 1, 1, "ab"), vsym.Str("n3", 1, 1, "bc")}
	vsym.Delay(vsym.Param("delays", 3), 0)
	for _, n := range names {
		n := n
		go func() {
			m.Get(bg, CT, n)
			done++
		}()
	}
	srv.Last().Push(srv.Resp(CT, Marked(CT, "a", v)))
	time.Sleep(2 * time.Second)
	vsym.Stop()
	vsym.Settle()
	vsym.Assert(done == 3, "lookups return")
	rs := srv.ReqsSince(0, CT)
	last := rs[len(rs)-1]
	vsym.Assert(sameSet(last.Names, map[string]bool{names[0]: true, names[1]: true, names[2]: true}), "the last request equals the interest set")
	for i := 1; i < len(rs); i++ {
		for _, n := range rs[i-1].Names {
			vsym.Assert(has(rs[i].Names, n), "a request forgets a name")
		}
	}
	vsym.Cover("end")
}
