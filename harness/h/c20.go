package h

import (
	"os"
	"strings"
	"time"

	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"google.golang.org/protobuf/types/known/structpb"

	xds "github.com/kitex-contrib/xds"
	ads "github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
	nds "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/xdssuite"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

// envVar sets a variable to an arbitrary value, to nothing, or not at all.
func envVar(key, value string) string {
	switch vsym.Choose(key, 3) {
	case 0:
		os.Unsetenv(key)
		return ""
	case 1:
		os.Setenv(key, "")
		return ""
	}
	os.Setenv(key, value)
	return value
}

// identity is what the environment says about the node.
type identity struct{ ns, name, ip, domain, version string }

func symIdentity() identity {
	i := identity{
		ns:      vsym.Str("namespace", 1, 3, "a-z-"),
		name:    vsym.Str("pod", 1, 3, "a-z0-9-"),
		ip:      vsym.Str("ip", 1, 4, "0-9.:a-f"),
		domain:  vsym.Str("domain", 1, 3, "a-z."),
		version: vsym.Str("version", 1, 3, "0-9."),
	}
	os.Unsetenv("KITEX_XDS_METAS")
	i.ns = envVar("POD_NAMESPACE", i.ns)
	i.name = envVar("POD_NAME", i.name)
	i.ip = envVar("INSTANCE_IP", i.ip)
	i.domain = envVar("KITEX_XDS_DOMAIN", i.domain)
	i.version = envVar("ISTIO_VERSION", i.version)
	if i.domain == "" {
		i.domain = "cluster.local"
	}
	return i
}

func (i identity) complete() bool { return i.ns != "" && i.name != "" && i.ip != "" }

func (i identity) id() string {
	return "sidecar~" + i.ip + "~" + i.name + "." + i.ns + "~" + i.ns + ".svc." + i.domain
}

// checkRequests: every request so far identifies the node and carries meta.
func (i identity) checkRequests(srv *Server, meta func(f map[string]*structpb.Value)) {
	for _, q := range srv.Reqs {
		vsym.Assert(q.Node != nil && q.Node.Id == i.id(), "a request does not identify the node")
		vsym.Assert(q.Node.Metadata != nil, "a request carries no metadata")
		meta(q.Node.Metadata.Fields)
	}
}

func (i identity) defaulted(f map[string]*structpb.Value) {
	v, ok := f["ISTIO_VERSION"]
	vsym.Assert(ok && v.GetStringValue() == i.version, "the istio version is not defaulted")
}

// C20_Env: every combination of present, empty and absent variables.
func C20_Env() {
	id := symIdentity()
	withNDS, withLDS := vsym.Choose("nds", 2) == 1, vsym.Choose("lds", 2) == 1
	srv := &Server{Auto: withNDS || withLDS}
	m, err := NewMgrErr(srv, withNDS, withLDS)
	vsym.Settle()
	vsym.Assert(vsym.Iff(err == nil, id.complete()), "construction succeeds exactly with a complete environment")
	if err != nil {
		vsym.Assert(m == nil, "a half-configured client")
		vsym.Assert(srv.Opens == 0 && len(srv.Reqs) == 0, "a half-configured client talks to the control plane")
		vsym.Cover("end")
		return
	}
	// subscriptions, acknowledgements, rejections and re-subscriptions
	subscribe(m, CT, "a")
	srv.Last().Push(srv.Resp(CT, Marked(CT, "a", 1)))
	srv.Last().Push(srv.Resp(CT, vsym.Corrupt(urls[CT])))
	vsym.Settle()
	srv.Last().Break(errBroken)
	vsym.Settle()
	subscribe(m, RT, "r")
	n := 5
	if withNDS {
		n += 3 // subscription, acknowledgement, re-subscription
	}
	if withLDS {
		n += 3
	}
	vsym.Assert(len(srv.Reqs) == n, "the requests expected")
	id.checkRequests(srv, id.defaulted)
	vsym.Cover("end")
}

// metaField is one member of the metadata object.
type metaField struct {
	key, json string
	isStr     bool
	str       string
}

func quoted(key, v string) metaField { return metaField{key, `"` + v + `"`, true, v} }

// oddValue: what is not a string.
func oddValue(key string) metaField {
	return metaField{key: key, json: []string{"12", "true", "null", `["10.0.0.9"]`, `{"a":"b"}`}[vsym.Choose("odd", 5)]}
}

func (f metaField) carried(v *structpb.Value) bool {
	switch f.json {
	case "12":
		return v.GetNumberValue() == 12
	case "true":
		return v.GetBoolValue()
	case "null":
		_, ok := v.GetKind().(*structpb.Value_NullValue)
		return ok
	case `["10.0.0.9"]`:
		l := v.GetListValue().GetValues()
		return len(l) == 1 && l[0].GetStringValue() == "10.0.0.9"
	case `{"a":"b"}`:
		return v.GetStructValue().GetFields()["a"].GetStringValue() == "b"
	}
	_, ok := v.GetKind().(*structpb.Value_StringValue)
	return ok && v.GetStringValue() == f.str
}

func elements(list string) []string {
	l := strings.Split(list, ",")
	for i := range l {
		l[i] = strings.TrimSpace(l[i])
	}
	return l
}

// C20_Meta: the user's metadata object.
func C20_Meta() {
	id := identity{ns: "default", name: "pod-1", ip: vsym.Str("ip", 1, vsym.Param("maxip", 3), "12."), domain: "cluster.local", version: "1.16"}
	vsym.Assume(id.ip[0] != '.')
	setEnv()
	os.Setenv("INSTANCE_IP", id.ip)
	var fs []metaField
	switch vsym.Choose("instance-ips", 3) {
	case 1:
		fs = append(fs, quoted("INSTANCE_IPS", vsym.Str("list", 0, vsym.Param("maxlist", 6), "12.,")))
	case 2:
		fs = append(fs, oddValue("INSTANCE_IPS"))
	}
	switch vsym.Choose("user", 4) {
	case 1:
		fs = append(fs, quoted("K", vsym.Str("value", 0, 3, "a-z, :{}")))
	case 2:
		fs = append(fs, oddValue("K"))
	case 3:
		fs = append(fs, quoted("ISTIO_VERSION", vsym.Str("value", 0, 3, "0-9.")))
	}
	var parts []string
	for _, f := range fs {
		parts = append(parts, `"`+f.key+`":`+f.json)
	}
	if vsym.Choose("order", 2) == 1 && len(parts) == 2 {
		parts[0], parts[1] = parts[1], parts[0]
	}
	text := "{" + strings.Join(parts, []string{",", " , "}[vsym.Choose("blank", 2)]) + "}"
	os.Setenv("KITEX_XDS_METAS", text)
	srv := &Server{}
	m, err := NewMgrErr(srv, false, false)
	vsym.Assert(err == nil, "construction")
	subscribe(m, CT, "a")
	srv.Last().Push(srv.Resp(CT, Marked(CT, "a", 1)))
	vsym.Settle()
	vsym.Assert(len(srv.Reqs) == 2, "the requests expected")
	id.checkRequests(srv, func(got map[string]*structpb.Value) {
		vsym.Assert(len(got) >= len(fs), "metadata is dropped")
		for _, f := range fs {
			v, ok := got[f.key]
			vsym.Assert(ok, "metadata is dropped")
			if f.key != "INSTANCE_IPS" {
				vsym.Assert(f.carried(v), "metadata is changed")
				continue
			}
			l := elements(v.GetStringValue())
			vsym.Assert(has(l, id.ip), "the pod IP is not among the instance IPs")
			if f.isStr {
				for _, e := range elements(f.str) {
					vsym.Assert(e == "" || has(l, e), "an instance IP is dropped")
				}
			}
		}
	})
	vsym.Cover("end")
}

// C20_Text: any text as the metadata. What is no JSON object is ignored.
func C20_Text() {
	id := identity{ns: "default", name: "pod-1", ip: "10.0.0.9", domain: "cluster.local", version: "1.16"}
	setEnv()
	text := vsym.Str("text", 0, vsym.Param("maxtext", 7), `{}":,a1`)
	os.Setenv("KITEX_XDS_METAS", text)
	srv := &Server{}
	m, err := NewMgrErr(srv, false, false)
	vsym.Assert(err == nil, "construction")
	subscribe(m, CT, "a")
	vsym.Assert(len(srv.Reqs) == 1, "the requests expected")
	id.checkRequests(srv, func(got map[string]*structpb.Value) {
		if text == "" {
			id.defaulted(got)
		}
	})
	if _, ok := srv.Reqs[0].Node.Metadata.Fields["a"]; ok {
		vsym.Cover("parsed")
		vsym.Assert(strings.Contains(text, `"a":`), "metadata nobody supplied")
	}
	vsym.Cover("end")
}

// C20_Namespace: NAMESPACE in the metadata overrides the pod's namespace in
// names, not in the node's identity.
func C20_Namespace() {
	setEnv()
	pod, over := vsym.Str("namespace", 1, 3, "a-z"), vsym.Str("override", 0, 3, "a-z")
	other := vsym.Str("other", 1, 3, "a-z")
	dom := vsym.Str("domain", 1, 3, "a-z")
	id := identity{ns: pod, name: "pod-1", ip: "10.0.0.9", domain: dom, version: "1.16"}
	os.Setenv("POD_NAMESPACE", pod)
	os.Setenv("KITEX_XDS_DOMAIN", dom)
	n := naming{pod, dom}
	switch vsym.Choose("meta", 4) {
	case 0:
	case 1:
		os.Setenv("KITEX_XDS_METAS", `{"NAMESPACE":"`+over+`"}`)
		if over != "" {
			n.ns = over
		}
	case 2:
		os.Setenv("KITEX_XDS_METAS", `{"NAMESPACE":`+oddValue("").json+`}`)
	case 3:
		os.Setenv("KITEX_XDS_METAS", `{"K":"`+over+`","NAMESPACE":"`+other+`"}`)
		n.ns = other
	}
	srv := &Server{Auto: true}
	table := []nameEntry{{"svc." + pod + ".svc." + dom, []string{"10.0.0.1"}}}
	for i, x := range []string{over, other} {
		h := "svc." + x + ".svc." + dom
		if x != pod && (i == 0 || x != over) {
			table = append(table, nameEntry{h, []string{[]string{"10.0.0.2", "10.0.0.3"}[i]}})
		}
	}

	srv.Table = map[string]*nds.NameTable_NameInfo{}
	for _, e := range table {
		srv.Table[e.host] = ips(e.ips...)
	}
	m, err := NewMgrErr(srv, true, true)
	vsym.Assert(err == nil, "construction")
	vsym.Settle()
	subscribe(m, LT, "svc")
	marks := pushListeners(srv, "10.0.0.1_80", "10.0.0.2_80", "10.0.0.3_80")
	n.checkBound(m, table, "svc", marks)
	id.checkRequests(srv, func(map[string]*structpb.Value) {})
	vsym.Cover("end")
}

// usedBy: which control plane a resolution through the suite reaches.
func usedBy(srvs []*Server) int {
	before := make([]int, len(srvs))
	for i, s := range srvs {
		before[i] = len(s.Reqs)
	}
	usedSeq++
	name := "cluster-" + string(rune('0'+usedSeq))
	info := rpcinfo.NewEndpointInfo("svc", "m", nil, map[string]string{xdssuite.RouterClusterKey: name})
	r := xdssuite.NewXDSResolver()
	r.Resolve(bg, r.Target(bg, info))
	vsym.Settle()
	used := -1
	for i, s := range srvs {
		if len(s.Reqs) > before[i] {
			vsym.Assert(used < 0, "two managers are in use")
			used = i
		}
	}
	return used
}

var usedSeq int

// C20_Init: initialising again keeps the first manager; a failed
// initialisation leaves none.
func C20_Init() {
	setEnv()
	var srvs []*Server
	vsym.SetADS(func() (ads.Client, error) {
		s := &Server{Auto: true}
		srvs = append(srvs, s)
		return s, nil
	})
	xinit := func() error {
		return xds.Init(manager.Option{F: func(o *manager.Options) {
			o.XDSSvrConfig = &manager.XDSServerConfig{SvrName: "istiod", SvrAddr: "istiod:15010"}
			o.DumpPath = "/tmp/verif_dump.json"
		}})
	}
	first := -1
	for k := 0; k < vsym.Param("steps", 3); k++ {
		switch vsym.Choose("step", 4) {
		case 0:
			n := len(srvs)
			err := xinit()
			vsym.Settle()
			if first < 0 {
				vsym.Assert(err == nil, "initialisation fails")
				first = usedBy(srvs)
				vsym.Assert(first >= n, "initialisation builds a client")
			}
		case 1:
			key := []string{"POD_NAMESPACE", "POD_NAME", "INSTANCE_IP"}[vsym.Choose("missing", 3)]
			old := os.Getenv(key)
			os.Setenv(key, "")
			err := xinit()
			vsym.Settle()
			os.Setenv(key, old)
			if first < 0 {
				vsym.Assert(err != nil, "initialisation succeeds without "+key)
				vsym.Assert(!xdssuite.XDSInited(), "a failed initialisation leaves a manager")
			}
		case 2:
			n := len(srvs)
			m, err := manager.NewXDSResourceManager(nil)
			vsym.Assert(err == nil && m != nil, "construction")
			vsym.Settle()
			err = xdssuite.SetXDSResourceManager(m)
			if first < 0 {
				vsym.Assert(err == nil, "setting the manager")
				first = usedBy(srvs)
				vsym.Assert(first >= n, "the manager set is used")
			}
		case 3:
			vsym.Assert(xdssuite.XDSInited() == (first >= 0), "initialised or not")
		}
		if first >= 0 {
			vsym.Assert(xdssuite.XDSInited(), "initialised")
			vsym.Assert(usedBy(srvs) == first, "a later initialisation replaces the manager")
		} else {
			vsym.Assert(!xdssuite.XDSInited(), "not initialised")
		}
	}
	vsym.Cover("end")
}

// C20_InitRace: initialisations at the same time leave one manager for good.
func C20_InitRace() {
	setEnv()
	var srvs []*Server
	vsym.SetADS(func() (ads.Client, error) {
		s := &Server{Auto: true}
		srvs = append(srvs, s)
		return s, nil
	})
	done, failed := 0, 0
	vsym.Race()
	vsym.Delay(vsym.Param("delays", 2), 0)
	for i := 0; i < 2; i++ {
		go func() {
			err := xds.Init(manager.Option{F: func(o *manager.Options) {
				o.XDSSvrConfig = &manager.XDSServerConfig{SvrName: "istiod", SvrAddr: "istiod:15010"}
				o.DumpPath = "/tmp/verif_dump.json"
			}})
			if err != nil {
				failed++
			}
			vsym.Assert(xdssuite.XDSInited(), "initialised")
			done++
		}()
	}
	time.Sleep(time.Second)
	vsym.Stop()
	vsym.Settle()
	vsym.Assert(done == 2, "every initialisation completes")
	vsym.Assert(failed < 2, "initialisation fails")
	u := usedBy(srvs)
	vsym.Assert(u >= 0, "a manager is in use")
	m, err := manager.NewXDSResourceManager(nil)
	vsym.Assert(err == nil, "construction")
	vsym.Settle()
	xdssuite.SetXDSResourceManager(m)
	vsym.Assert(usedBy(srvs) == u, "a later initialisation replaces the manager")
	vsym.Cover("end")
}
