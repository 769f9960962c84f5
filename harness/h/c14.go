package h

import (
	"os"
	"strings"

	"google.golang.org/protobuf/types/known/anypb"

	nds "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// naming is the configuration names are expanded with.
type naming struct{ ns, domain string }

// qualified is the fully qualified service name of a host (lower case).
func (n naming) qualified(host string) string {
	h := strings.ToLower(host)
	ns, dom := strings.ToLower(n.ns), strings.ToLower(n.domain)
	if strings.Contains(h, ".svc.") {
		return h
	}
	l := strings.Split(h, ".")
	switch {
	case len(l) == 1:
		return h + "." + ns + ".svc." + dom
	case len(l) == 2:
		return h + ".svc." + dom
	case len(l) == 3 && l[2] == "svc":
		return h + "." + dom
	case len(l) == 3:
		return h
	}
	return h + "." + ns + ".svc." + dom
}

// nameEntry is one row of a name table.
type nameEntry struct {
	host string
	ips  []string
}

func resolveIn(table []nameEntry, host string) string {
	for _, e := range table {
		if strings.ToLower(e.host) == host && len(e.ips) > 0 {
			return e.ips[0]
		}
	}
	return ""
}

// bound is the listener a lookup of addr must be served by ("" for none).
func (n naming) bound(table []nameEntry, addr string) string {
	host, port := addr, "80"
	if i := strings.IndexByte(addr, ':'); i >= 0 {
		host, port = addr[:i], addr[i+1:]
	}
	ip := resolveIn(table, n.qualified(host))
	if ip == "" {
		ip = resolveIn(table, strings.ToLower(host))
	}
	if ip == "" {
		return ""
	}
	return ip + "_" + port
}

func (n naming) table(t []nameEntry) *anypb.Any {
	m := map[string]*nds.NameTable_NameInfo{}
	for _, e := range t {
		m[e.host] = ips(e.ips...)
	}
	return TableAny(m)
}

// pushListeners sends one marked listener per name and gives the marks.
func pushListeners(srv *Server, names ...string) map[string]uint32 {
	marks := map[string]uint32{}
	var res []*anypb.Any
	for i, n := range names {
		marks[n] = uint32(i + 1)
		res = append(res, Marked(LT, n, uint32(i+1)))
	}
	srv.Last().Push(srv.Resp(LT, res...))
	vsym.Settle()
	return marks
}

// checkBound: a lookup of addr is served by the listener the table designates.
func (n naming) checkBound(m Mgr, table []nameEntry, addr string, marks map[string]uint32) {
	want := n.bound(table, addr)
	res, err := lookup(m, bg, LT, addr)
	mark, there := uint32(0), false
	for ln, k := range marks {
		if ln == want {
			mark, there = k, true
		}
	}
	if want == "" || !there {
		vsym.Assert(err != nil, "an address that designates no listener is bound to one")
		return
	}
	vsym.Assert(err == nil, "an address with a designated listener is not served")
	got, ok := MarkOf(LT, res)
	vsym.Assert(ok && got == mark, "an address is served by another listener than the designated one")
}

// anyCase spells a word in some mixture of cases.
func anyCase(w string) string {
	switch vsym.Choose("case", 3) {
	case 1:
		return strings.ToUpper(w)
	case 2:
		return strings.ToUpper(w[:1]) + w[1:]
	}
	return w
}

// namingConfig picks the namespace and the domain and sets the environment.
func namingConfig() naming {
	setEnv()
	n := naming{"default", "cluster.local"}
	os.Setenv("POD_NAMESPACE", "default")
	os.Setenv("KITEX_XDS_DOMAIN", "")
	switch vsym.Choose("config", vsym.Param("configs", 4)) {
	case 1:
		n.ns = vsym.Str("namespace", 1, 2, "a-z")
		os.Setenv("POD_NAMESPACE", n.ns)
	case 2:
		n.domain = vsym.Str("domain", 1, 2, "a-zA-Z") + ".io"
		os.Setenv("KITEX_XDS_DOMAIN", n.domain)
	case 3:
		n.ns, n.domain = "other", "Corp.Example.ORG"
		os.Setenv("KITEX_XDS_METAS", `{"NAMESPACE":"other"}`)
		os.Setenv("KITEX_XDS_DOMAIN", n.domain)
	}
	return n
}

func ndsMgr(srv *Server) Mgr {
	srv.Auto = true
	m, err := NewMgrErr(srv, true, false)
	if err != nil {
		vsym.Fail("manager construction failed")
	}
	vsym.Settle()
	return m
}

// spelling is a host of one to five labels.
func spelling(n naming, max int) string {
	k := 1 + vsym.Choose("labels", max)
	svc := vsym.Choose("svc", k+1) // which label is "svc"; 0: none
	if svc == k && k != 3 {
		vsym.Assume(false) // a service called svc, or a name cut short
	}
	host := ""
	for i := 1; i <= k; i++ {
		if i > 1 {
			host += "."
		}
		if i == svc {
			host += anyCase("svc")
		} else {
			host += vsym.Str("label", 1, 1, []string{"abAB", "aB", "xX", "y", "z"}[i-1])
		}
	}
	return host
}

// C14_Bind: every spelling of an address against every small name table.
func C14_Bind() {
	n := namingConfig()
	srv := &Server{}
	m := ndsMgr(srv)
	host := ""
	switch vsym.Choose("host", 2) {
	case 0:
		host = spelling(n, vsym.Param("maxlabels", 5))
	case 1: // fully qualified in this domain, or in another
		host = vsym.Str("label", 1, 1, "abAB") + ".ns." + anyCase("svc") + "."
		if vsym.Choose("foreign", 2) == 1 {
			host += "elsewhere.net"
		} else {
			host += n.domain
		}
	}
	port := ""
	switch vsym.Choose("port", 3) {
	case 1:
		port = "80"
	case 2:
		port = vsym.Str("port", 2, 1+vsym.Param("digits", 1), "0-9")
	}
	addr := host
	if port != "" {
		addr += ":" + port
	}
	subscribe(m, LT, addr)

	h, q := strings.ToLower(host), n.qualified(host)
	first := strings.Split(h, ".")[0]
	cands := []string{q, h, first + ".elsewhere.svc." + strings.ToLower(n.domain), first + "." + strings.ToLower(n.ns), first,
		h + "." + strings.ToLower(n.ns) + ".svc." + strings.ToLower(n.domain), h + ".svc." + strings.ToLower(n.domain), h + "." + strings.ToLower(n.domain)}
	var table []nameEntry
	for i := 0; i < vsym.Param("entries", 2); i++ {
		e := nameEntry{host: cands[vsym.Choose("key", len(cands))]}
		for _, o := range table {
			vsym.Assume(strings.ToLower(o.host) != e.host)
		}
		if vsym.Choose("upper", 2) == 1 {
			e.host = strings.ToUpper(e.host)
		}
		d := string(rune('0' + i))
		e.ips = []string{"10.0." + d + ".1", "10.0." + d + ".2"}[:vsym.Choose("addresses", 3)]
		table = append(table, e)
	}
	srv.Last().Push(srv.Resp(NT, n.table(table)))
	vsym.Settle()
	p := port
	if p == "" {
		p = "80"
	}
	names := []string{"_" + p, h + "_" + p, host, addr, q + "_" + p}
	for _, ip := range []string{"10.0.0.1", "10.0.0.2", "10.0.1.1", "10.0.1.2"} {
		names = append(names, ip+"_"+p, ip+"_8")
		if p != "80" {
			names = append(names, ip+"_80")
		}
	}
	var uniq []string
	for _, x := range names {
		dup := false
		for _, y := range uniq {
			dup = dup || x == y
		}
		if !dup {
			uniq = append(uniq, x)
		}
	}
	marks := pushListeners(srv, uniq...)
	n.checkBound(m, table, addr, marks)
	vsym.Cover("end")
}

// C14_Free: any short string as the address's host and as a table's key.
func C14_Free() {
	setEnv()
	n := naming{"default", "cluster.local"}
	srv := &Server{}
	m := ndsMgr(srv)
	host := vsym.Str("host", 1, vsym.Param("len", 5), "abA.-")
	key := vsym.Str("key", 1, vsym.Param("len", 5), "abB.-")
	vsym.Assume(host[0] != '.' && host[len(host)-1] != '.' && !strings.Contains(host, ".."))
	if vsym.Choose("qualified", 2) == 1 {
		key += ".svc.cluster.local"
	}
	subscribe(m, LT, host)
	table := []nameEntry{{key, []string{"10.0.0.1"}}}
	srv.Last().Push(srv.Resp(NT, n.table(table)))
	vsym.Settle()
	marks := pushListeners(srv, "10.0.0.1_80", "10.0.0.1_81", "10.0.0.2_80")
	n.checkBound(m, table, host, marks)
	vsym.Cover("end")
}

// C14_History: bindings follow the name table and the listeners over time,
// through reconnections and rejected updates.
func C14_History() {
	setEnv()
	n := naming{"default", "cluster.local"}
	srv := &Server{}
	m := ndsMgr(srv)
	addrs := []string{"a", "B:81", "a.default:81"}
	for _, a := range addrs {
		subscribe(m, LT, a)
	}
	full := map[string]string{"a": "a.default.svc.cluster.local", "b": "b.default.svc.cluster.local"}
	var table []nameEntry
	steps := vsym.Param("steps", 4)
	bound, everLDS := []string{"", "", ""}, false
	var marks map[string]uint32
	warm := 0
	if vsym.Param("warm", 0) == 1 {
		warm = 2 // a table and listeners have been received
	}
	for i := -warm; i < steps; i++ {
		step := i + 2
		if i >= 0 {
			step = vsym.Choose("step", 4)
		}
		switch step {
		case 0: // a new table
			table = nil
			if i < 0 {
				table = []nameEntry{{full["a"], []string{"10.0.0.1", "10.0.0.9"}}, {"b", []string{"10.0.0.2"}}}
				srv.Last().Push(srv.Resp(NT, n.table(table)))
				break
			}
			for _, k := range []string{"a", "b"} {
				switch vsym.Choose("row", 3) {
				case 1:
					table = append(table, nameEntry{full[k], []string{"10.0.0." + string(rune('1'+vsym.Choose("ip", 2))), "10.0.0.9"}})
				case 2:
					table = append(table, nameEntry{k, []string{"10.0.0." + string(rune('1'+vsym.Choose("ip", 2)))}})
				}
			}
			srv.Last().Push(srv.Resp(NT, n.table(table)))
		case 1: // listeners
			marks = map[string]uint32{}
			var res []*anypb.Any
			drop := 0
			if i >= 0 {
				drop = vsym.Choose("drop", 3)
			}
			for j, ln := range []string{"10.0.0.1_80", "10.0.0.1_81", "10.0.0.2_80", "10.0.0.2_81", "10.0.0.9_80", "10.0.0.9_81"} {
				if drop == 1 && j < 2 || drop == 2 && j >= 2 && j < 4 {
					continue
				}
				marks[ln] = vsym.U32("stamp")
				res = append(res, Marked(LT, ln, marks[ln]))
			}
			srv.Last().Push(srv.Resp(LT, res...))
			everLDS = true
			for j, a := range addrs {
				bound[j] = n.bound(table, a)
			}
		case 2: // a table the client cannot decode
			srv.Last().Push(srv.Resp(NT, vsym.Corrupt(urls[NT])))
		case 3:
			srv.Last().Break(errBroken)
		}
		vsym.Settle()
	}
	for j, a := range addrs {
		res, err := lookup(m, bg, LT, a)
		want, ok := marks[bound[j]]
		if !everLDS || !ok {
			vsym.Assert(err != nil, "an address that designates no listener is bound to one")
			continue
		}
		vsym.Assert(err == nil, "an address with a designated listener is not served")
		got, ok := MarkOf(LT, res)
		vsym.Assert(ok && got == want, "an address is served by another listener than the designated one")
	}
	vsym.Cover("end")
}
