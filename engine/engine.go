package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type intrinsic func(fr *frame, args []Value) Value

// Engine holds what all paths share: the SSA of the current source.
type Engine struct {
	prog         *ssa.Program
	modPath      string
	repo         string
	errStringPtr types.Type
	seed         int64
	solverBin    []string
	debug        bool
	pkgs         map[string]*ssa.Package
	cfns         sync.Map
	fvals        sync.Map
	meths        sync.Map
	impl         sync.Map
	methMu       sync.Mutex
	types        sync.Map
}

// overlayFiles maps the harness sources into the module under test.
func overlayFiles(repo, hdir string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	for _, sub := range []string{"vsym", "vrand", "h"} {
		ents, err := os.ReadDir(filepath.Join(hdir, sub))
		if err != nil {
			return nil, err
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(hdir, sub, e.Name()))
			if err != nil {
				return nil, err
			}
			ov[filepath.Join(repo, "zzverif", sub, e.Name())] = b
		}
	}
	// the replay hook in NewClient's package (the real function is an intrinsic here)
	adsDir := filepath.Join(repo, "core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice")
	ov[filepath.Join(adsDir, "zz_verif_hook.go")] = []byte("package aggregateddiscoveryservice\n\nvar VerifNewClient func() (Client, error)\n")
	return ov, nil
}

func loadEngine(repo, hdir string) (*Engine, error) {
	ov, err := overlayFiles(repo, hdir)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     os.Environ(),
	}
	init, err := packages.Load(cfg, "./zzverif/h")
	if err != nil {
		return nil, err
	}
	bad := ""
	packages.Visit(init, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if len(bad) < 2000 {
				bad += e.Error() + "\n"
			}
		}
	})
	if bad != "" {
		return nil, fmt.Errorf("loading %s: %s", repo, bad)
	}
	prog, pkgs := ssautil.AllPackages(init, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, repo: repo, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	if len(pkgs) == 0 || pkgs[0] == nil {
		return nil, fmt.Errorf("no harness package")
	}
	e.modPath = strings.TrimSuffix(pkgs[0].Pkg.Path(), "/zzverif/h")
	e.errStringPtr = canon(types.NewPointer(e.typ("errors", "errorString")))
	registerVsym(e.modPath + "/zzverif/vsym")
	return e, nil
}

// typ finds a named type.
func (e *Engine) typ(pkg, name string) types.Type {
	k := pkg + "." + name
	if t, ok := e.types.Load(k); ok {
		return t.(types.Type)
	}
	p := e.pkgs[pkg]
	if p == nil {
		panic(unsupported{"package " + pkg + " is not loaded"})
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsupported{"no type " + k})
	}
	t := canon(o.Type())
	e.types.Store(k, t)
	return t
}

func (e *Engine) ptrTyp(pkg, name string) types.Type {
	k := "*" + pkg + "." + name
	if t, ok := e.types.Load(k); ok {
		return t.(types.Type)
	}
	t := canon(types.NewPointer(e.typ(pkg, name)))
	e.types.Store(k, t)
	return t
}

func (e *Engine) fn(pkg, name string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		panic(unsupported{"package " + pkg + " is not loaded"})
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported{"no function " + pkg + "." + name})
	}
	return f
}

var skipInitExact = map[string]bool{
	"runtime": true, "reflect": true, "syscall": true, "os": true, "sync": true, "sync/atomic": true,
	"time": true, "unsafe": true, "fmt": true, "math/rand": true, "math/rand/v2": true,
	"encoding/json": true, "net": true, "internal/poll": true, "log": true, "testing": true,
	"runtime/debug": true, "unicode": true, "regexp": true, "regexp/syntax": true, "crypto/tls": true,
	"hash/crc32": true, "hash/maphash": true, "os/signal": true, "bufio": true, "net/http": true,
}

var skipInitPrefix = []string{
	"internal/", "runtime/", "google.golang.org/", "crypto/", "vendor/", "compress/", "encoding/", "net/", "golang.org/x/",
	"github.com/envoyproxy/", "github.com/cncf/", "github.com/golang/protobuf", "github.com/bytedance/sonic",
	"github.com/cloudwego/netpoll", "github.com/cloudwego/frugal", "github.com/cloudwego/dynamicgo", "github.com/cloudwego/fastpb",
	"github.com/cloudwego/prutal", "github.com/cloudwego/localsession", "github.com/cloudwego/runtimex",
	"github.com/cloudwego/kitex/pkg/remote/trans/", "github.com/cloudwego/kitex/pkg/remote/codec",
	"github.com/cloudwego/kitex/pkg/generic", "github.com/cloudwego/kitex/pkg/protocol",
	"github.com/cloudwego/kitex/internal/mocks", "github.com/cloudwego/thriftgo", "github.com/apache/thrift",
	"github.com/bytedance/gopkg/lang/mcache", "github.com/bytedance/gopkg/util/gopool", "github.com/bytedance/gopkg/lang/fastrand",
	"github.com/tidwall", "github.com/jhump", "github.com/iancoleman", "github.com/modern-go", "github.com/choleraehyq",
	"github.com/cloudwego/kitex/pkg/klog", "gopkg.in/", "github.com/cloudwego/kitex/transport",
}

// skipInit lists packages whose initialisers are not run: they hold only
// things reached through intrinsics, or descriptor registration.
func (e *Engine) skipInit(p string) bool {
	if skipInitExact[p] {
		return true
	}
	for _, x := range skipInitPrefix {
		if strings.HasPrefix(p, x) {
			return true
		}
	}
	if strings.HasPrefix(p, e.modPath) && strings.Contains(p, "/kitex_gen/") {
		return true
	}
	return false
}

func (m *M) panicText(g *G, v Value) string {
	if i, ok := v.(Iface); ok {
		if i.T == nil {
			return "nil"
		}
		fr := &frame{m: m, g: g}
		if g.top != nil {
			fr = g.top
		}
		return m.concStr(formatVal(fr, 'v', "", i))
	}
	return fmt.Sprint(v)
}

// concStr renders a possibly symbolic string under the current model.
func (m *M) concStr(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		return m.evalStr(v, m.model)
	}
	return fmt.Sprint(v)
}
