package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled functions ---------------------------------------------------

type opnd struct {
	slot int // >= 0: register
	c    Value
	g    *ssa.Global
}

type cfn struct {
	fn       *ssa.Function
	name     string
	nregs    int
	slots    map[ssa.Value]int
	params   []int
	frees    []int
	blocks   []*cblock
	hasDefer bool
	user     bool // repo or harness code
	harness  bool
	intr     intrinsic
	once     sync.Once
	err      string
	recover  int
}

type cblock struct {
	b    *ssa.BasicBlock
	phis []phiC
	code []cinstr
	term func(fr *frame) int // next block index, -1 return
	tpos token.Pos
}

type phiC struct {
	dst int
	in  []opnd
}

type cinstr struct {
	f   func(fr *frame)
	pos token.Pos
}

type frame struct {
	m         *M
	g         *G
	cf        *cfn
	caller    *frame
	regs      []Value
	ret       Value
	defers    *deferred
	panicking bool
	pval      interface{}
	at        token.Pos
	prev      int
}

type deferred struct {
	call func(fr *frame)
	next *deferred
}

func (fr *frame) get(o *opnd) Value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.g != nil {
		return fr.m.global(o.g)
	}
	return o.c
}

func (fr *frame) pos() string {
	if fr.cf == nil || !fr.at.IsValid() {
		return "?"
	}
	p := fr.m.w.eng.prog.Fset.Position(fr.at)
	return fmt.Sprintf("%s:%d", p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line)
}

func (fr *frame) loc() string {
	f := fr
	for f != nil && f.cf != nil && !f.cf.user && f.caller != nil {
		f = f.caller
	}
	if f != nil && f.cf != nil {
		return f.cf.fn.String() + " " + f.pos()
	}
	return "?"
}

// visible reports whether the current call comes from code under test.
func (fr *frame) visible() bool { return fr.cf != nil && fr.cf.user && !fr.cf.harness }

func (m *M) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		if g.Pkg != nil && !m.inited[g.Pkg] {
			m.initPkg(g.Pkg)
		}
		return p
	}
	if g.Pkg != nil && !m.inited[g.Pkg] {
		m.initPkg(g.Pkg)
		if p, ok := m.globals[g]; ok {
			return p
		}
	}
	p := new(Value)
	*p = zero(g.Type().(*types.Pointer).Elem())
	m.globals[g] = p
	return p
}

func (m *M) initPkg(p *ssa.Package) {
	m.inited[p] = true
	if m.w.eng.skipInit(p.Pkg.Path()) {
		return
	}
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	m.initing++
	defer func() { m.initing-- }()
	g := m.sched.cur
	var caller *frame
	if g != nil {
		caller = g.top
	}
	m.initTarget = init
	m.call(g, caller, init, nil, nil)
}

func (e *Engine) compiled(fn *ssa.Function) *cfn {
	if c, ok := e.cfns.Load(fn); ok {
		return c.(*cfn)
	}
	c := &cfn{fn: fn}
	act, _ := e.cfns.LoadOrStore(fn, c)
	return act.(*cfn)
}

func pkgPath(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func (c *cfn) compile(e *Engine) {
	c.once.Do(func() {
		fn := c.fn
		c.name = fn.String()
		if fn.Origin() != nil && fn.Origin() != fn {
			c.name = fn.Origin().String()
		}
		pp := pkgPath(fn)
		c.user = strings.HasPrefix(pp, e.modPath) && !strings.Contains(pp, "/kitex_gen/") && !strings.HasSuffix(pp, "/vsym")
		c.harness = strings.HasPrefix(pp, e.modPath+"/zzverif")
		if in, ok := intrinsics[c.name]; ok {
			c.intr = in
			return
		}
		if in := patternIntrinsic(c.name, pp, fn); in != nil {
			c.intr = in
			return
		}
		if fn.Blocks == nil {
			c.err = "no body: " + c.name
			return
		}
		c.slots = map[ssa.Value]int{}
		n := 0
		add := func(v ssa.Value) int { c.slots[v] = n; n++; return n - 1 }
		for _, p := range fn.Params {
			c.params = append(c.params, add(p))
		}
		for _, p := range fn.FreeVars {
			c.frees = append(c.frees, add(p))
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					add(v)
				}
				if _, ok := in.(*ssa.Defer); ok {
					c.hasDefer = true
				}
			}
		}
		c.nregs = n
		c.recover = -1
		if fn.Recover != nil {
			c.recover = fn.Recover.Index
		}
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					c.err = u.msg
					return
				}
				c.err = fmt.Sprintf("compile %s: %v", c.name, r)
				if e.debug {
					panic(r)
				}
			}
		}()
		for _, b := range fn.Blocks {
			c.blocks = append(c.blocks, c.compileBlock(e, b))
		}
	})
}

func (c *cfn) opnd(e *Engine, v ssa.Value) *opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return &opnd{slot: -1, c: constValue(v)}
	case *ssa.Global:
		return &opnd{slot: -1, g: v}
	case *ssa.Function:
		return &opnd{slot: -1, c: e.funcValue(v)}
	case *ssa.Builtin:
		return &opnd{slot: -1, c: v}
	}
	s, ok := c.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %v in %s", v, c.fn))
	}
	return &opnd{slot: s}
}

func (e *Engine) funcValue(fn *ssa.Function) *Closure {
	if c, ok := e.fvals.Load(fn); ok {
		return c.(*Closure)
	}
	c, _ := e.fvals.LoadOrStore(fn, &Closure{Fn: fn})
	return c.(*Closure)
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if tp, ok := t.(*types.TypeParam); ok {
			panic(unsupported{"const of type param " + tp.String()})
		}
		return zero(t.Underlying())
	}
	if b := basicOf(t); b != nil {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			w, s, _ := intInfo(t)
			if s {
				return norm(c.Int64(), w, true)
			}
			return norm(int64(c.Uint64()), w, false)
		case b.Info()&types.IsFloat != 0:
			if b.Kind() == types.Float32 {
				return float64(float32(c.Float64()))
			}
			return c.Float64()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		}
	}
	panic(unsupported{fmt.Sprintf("const %v", c)})
}

func (c *cfn) compileBlock(e *Engine, b *ssa.BasicBlock) *cblock {
	cb := &cblock{b: b}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			p := phiC{dst: c.slots[in]}
			for _, ed := range in.Edges {
				p.in = append(p.in, *c.opnd(e, ed))
			}
			cb.phis = append(cb.phis, p)
		case *ssa.If:
			cond := c.opnd(e, in.Cond)
			t, f := b.Succs[0].Index, b.Succs[1].Index
			cb.tpos = in.Pos()
			if cb.tpos == token.NoPos {
				if ci, ok := in.Cond.(ssa.Instruction); ok {
					cb.tpos = ci.Pos()
				}
			}
			cb.term = func(fr *frame) int {
				switch v := fr.get(cond).(type) {
				case bool:
					if v {
						return t
					}
					return f
				case *Term:
					if fr.m.branch(v) {
						return t
					}
					return f
				default:
					panic(unsupported{fmt.Sprintf("if on %T", v)})
				}
			}
		case *ssa.Jump:
			n := b.Succs[0].Index
			cb.term = func(fr *frame) int { return n }
		case *ssa.Return:
			var ops []*opnd
			for _, r := range in.Results {
				ops = append(ops, c.opnd(e, r))
			}
			cb.tpos = in.Pos()
			switch len(ops) {
			case 0:
				cb.term = func(fr *frame) int { return -1 }
			case 1:
				cb.term = func(fr *frame) int { fr.ret = fr.get(ops[0]); return -1 }
			default:
				cb.term = func(fr *frame) int {
					t := make(Tuple, len(ops))
					for i, o := range ops {
						t[i] = fr.get(o)
					}
					fr.ret = t
					return -1
				}
			}
		case *ssa.Panic:
			x := c.opnd(e, in.X)
			cb.tpos = in.Pos()
			cb.term = func(fr *frame) int { panic(targetPanic{fr.get(x)}) }
		case *ssa.DebugRef:
		default:
			cb.code = append(cb.code, cinstr{c.compileInstr(e, in), in.Pos()})
		}
	}
	return cb
}

// ---- calls --------------------------------------------------------------------

const maxDepth = 600

func (m *M) call(g *G, caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	e := m.w.eng
	c := e.compiled(fn)
	c.compile(e)
	if c.intr != nil {
		fr := &frame{m: m, g: g, cf: c, caller: caller}
		if caller != nil {
			// intrinsics act in the context of their caller
			return c.intr(caller, args)
		}
		return c.intr(fr, args)
	}
	if c.err != "" {
		panic(unsupported{c.err})
	}
	if fn.Synthetic == "package initializer" {
		if m.initTarget != fn {
			return nil // imported packages initialise themselves on first use
		}
		m.initTarget = nil
	}
	if c.user && !c.harness {
		m.funcs[fn] = true
	}
	fr := &frame{m: m, g: g, cf: c, caller: caller, prev: -1}
	fr.regs = make([]Value, c.nregs)
	if len(args) != len(c.params) {
		panic(fmt.Sprintf("call %s: %d args for %d params", c.name, len(args), len(c.params)))
	}
	for i, s := range c.params {
		fr.regs[s] = args[i]
	}
	for i, s := range c.frees {
		fr.regs[s] = env[i]
	}
	g.depth++
	if g.depth > maxDepth {
		panic(killPath{"bound: call depth " + c.name})
	}
	old := g.top
	g.top = fr
	if c.hasDefer {
		fr.runDeferring()
	} else {
		fr.run(0)
	}
	g.top = old
	g.depth--
	return fr.ret
}

func (fr *frame) run(bi int) {
	m := fr.m
	for {
		b := fr.cf.blocks[bi]
		if len(b.phis) > 0 {
			pi := -1
			for i, p := range b.b.Preds {
				if p.Index == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = fr.get(&b.phis[0].in[pi])
			} else {
				tmp := make([]Value, len(b.phis))
				for i := range b.phis {
					tmp[i] = fr.get(&b.phis[i].in[pi])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		m.steps += len(b.code) + 1
		if m.steps > m.maxSteps {
			panic(killPath{"bound: steps"})
		}
		for i := range b.code {
			in := &b.code[i]
			fr.at = in.pos
			in.f(fr)
		}
		if b.tpos.IsValid() {
			fr.at = b.tpos
		}
		fr.prev = bi
		bi = b.term(fr)
		if bi < 0 {
			return
		}
	}
}

// runDeferring runs a function which has defer statements.
func (fr *frame) runDeferring() {
	completed := false
	depth := fr.g.depth
	func() {
		defer func() {
			if completed {
				return
			}
			r := recover()
			switch r.(type) {
			case killPath, unsupported:
				panic(r)
			case targetPanic:
			case runtime.Error:
				panic(r) // engine bug
			default:
				panic(r)
			}
			if fr.m.sched.ending {
				panic(r)
			}
			fr.g.depth = depth
			fr.g.top = fr
			fr.panicking = true
			fr.pval = r
			fr.runDefers()
			// recovered
		}()
		fr.run(0)
		completed = true
	}()
	if !completed {
		// recovered from a panic: results are loaded by the recover block
		if fr.cf.recover >= 0 {
			fr.prev = -1
			fr.run(fr.cf.recover)
		} else {
			fr.ret = zero(fr.cf.fn.Signature.Results())
		}
	}
}

// runDefers runs the deferred calls; it re-panics if the panic is not recovered.
func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.pval)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	depth := fr.g.depth
	defer func() {
		if ok {
			return
		}
		r := recover()
		if _, is := r.(targetPanic); !is || fr.m.sched.ending {
			panic(r)
		}
		fr.g.depth = depth
		fr.g.top = fr
		fr.panicking = true
		fr.pval = r
	}()
	d.call(fr)
	ok = true
}

// callValue calls a function value.
func (fr *frame) callValue(f Value, args []Value) Value {
	switch f := f.(type) {
	case *Closure:
		if f == nil {
			panic(fr.m.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
		}
		if f.Nat != nil {
			return f.Nat(fr, args)
		}
		return fr.m.call(fr.g, fr, f.Fn, args, f.Env)
	}
	panic(unsupported{fmt.Sprintf("call of %T", f)})
}

// callMethod invokes method name of a concrete receiver type.
func (m *M) findMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	return m.w.eng.findMethod(t, pkg, name)
}

type methKey struct {
	t    types.Type
	name string
}

func (e *Engine) findMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, types.Id(pkg, name)}
	if f, ok := e.meths.Load(k); ok {
		return f.(*ssa.Function)
	}
	e.methMu.Lock()
	defer e.methMu.Unlock()
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	var fn *ssa.Function
	if sel != nil {
		fn = e.prog.MethodValue(sel)
	}
	e.meths.Store(k, fn)
	return fn
}

func (fr *frame) invoke(recv Iface, pkg *types.Package, name string, args []Value) Value {
	if recv.T == nil {
		panic(fr.m.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
	}
	fn := fr.m.findMethod(recv.T, pkg, name)
	if fn == nil {
		panic(unsupported{fmt.Sprintf("no method %s on %v", name, recv.T)})
	}
	return fr.m.call(fr.g, fr, fn, append([]Value{recv.V}, args...), nil)
}

// prepCall evaluates callee and arguments of a call instruction.
func (c *cfn) prepCall(e *Engine, cc *ssa.CallCommon) func(fr *frame) (func(fr *frame) Value, string) {
	args := make([]*opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.opnd(e, a)
	}
	eval := func(fr *frame) []Value {
		r := make([]Value, len(args))
		for i, a := range args {
			r[i] = copyVal(fr.get(a))
		}
		return r
	}
	if cc.IsInvoke() {
		recv := c.opnd(e, cc.Value)
		name := cc.Method.Name()
		pkg := cc.Method.Pkg()
		return func(fr *frame) (func(fr *frame) Value, string) {
			r := fr.get(recv).(Iface)
			as := eval(fr)
			return func(fr *frame) Value { return fr.invoke(r, pkg, name, as) }, name
		}
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		at := make([]types.Type, len(cc.Args))
		for i, a := range cc.Args {
			at[i] = a.Type()
		}
		var rt types.Type
		if cc.Signature() != nil {
			rt = cc.Signature().Results()
		}
		return func(fr *frame) (func(fr *frame) Value, string) {
			as := eval(fr)
			return func(fr *frame) Value { return callBuiltin(fr, bi, as, at, rt) }, bi.Name()
		}
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		return func(fr *frame) (func(fr *frame) Value, string) {
			as := eval(fr)
			return func(fr *frame) Value { return fr.m.call(fr.g, fr, fn, as, nil) }, fn.Name()
		}
	}
	fv := c.opnd(e, cc.Value)
	return func(fr *frame) (func(fr *frame) Value, string) {
		f := fr.get(fv)
		as := eval(fr)
		return func(fr *frame) Value { return fr.callValue(f, as) }, "func"
	}
}

func (fr *frame) nilDeref() targetPanic {
	return fr.m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
}

func (fr *frame) load(p Value) Value {
	pp, ok := p.(*Value)
	if !ok {
		panic(unsupported{fmt.Sprintf("load through %T", p)})
	}
	if pp == nil {
		panic(fr.nilDeref())
	}
	if s := fr.m.sched; s.race && s.raceOn(fr) {
		s.raceCell(fr, pp, false)
	}
	v := *pp
	if isAgg(v) {
		return copyVal(v)
	}
	return v
}

func (fr *frame) store(p Value, v Value) {
	pp, ok := p.(*Value)
	if !ok {
		panic(unsupported{fmt.Sprintf("store through %T", p)})
	}
	if pp == nil {
		panic(fr.nilDeref())
	}
	if s := fr.m.sched; s.race && s.raceOn(fr) {
		s.raceCell(fr, pp, true)
	}
	storeCell(pp, v)
}

// index resolves a possibly symbolic index against a length.
func (fr *frame) index(iv Value, n int) int {
	switch i := iv.(type) {
	case int64:
		if i < 0 || i >= int64(n) {
			panic(fr.m.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n)))
		}
		return int(i)
	case *Term:
		b := fr.m.b
		if !fr.m.branch(b.Cmp(OUlt, b.Resize(i, 64, false), b.BV(64, uint64(n)))) {
			panic(fr.m.rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", n)))
		}
		return int(fr.m.concretize(i))
	}
	panic(unsupported{fmt.Sprintf("index %T", iv)})
}

func (fr *frame) conInt(v Value) int { return int(fr.m.concretize(v)) }

// ---- instructions ---------------------------------------------------------------

func (c *cfn) compileInstr(e *Engine, in ssa.Instruction) func(fr *frame) {
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.slots[v]
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		return func(fr *frame) {
			p := new(Value)
			*p = zero(t)
			fr.regs[dst] = p
		}
	case *ssa.UnOp:
		return c.compileUnOp(e, in, dst)
	case *ssa.BinOp:
		x, y := c.opnd(e, in.X), c.opnd(e, in.Y)
		op, xt, yt := in.Op, in.X.Type(), in.Y.Type()
		f := binopFor(op, xt, yt)
		return func(fr *frame) { fr.regs[dst] = f(fr, fr.get(x), fr.get(y)) }
	case *ssa.Store:
		a, v := c.opnd(e, in.Addr), c.opnd(e, in.Val)
		return func(fr *frame) { fr.store(fr.get(a), fr.get(v)) }
	case *ssa.FieldAddr:
		x := c.opnd(e, in.X)
		f := in.Field
		return func(fr *frame) {
			p, ok := fr.get(x).(*Value)
			if !ok {
				panic(unsupported{fmt.Sprintf("FieldAddr of %T", fr.get(x))})
			}
			if p == nil {
				panic(fr.nilDeref())
			}
			s, ok := (*p).(Struct)
			if !ok {
				panic(unsupported{fmt.Sprintf("FieldAddr: cell holds %T", *p)})
			}
			fr.regs[dst] = &s[f]
		}
	case *ssa.Field:
		x := c.opnd(e, in.X)
		f := in.Field
		return func(fr *frame) { fr.regs[dst] = fr.get(x).(Struct)[f] }
	case *ssa.IndexAddr:
		x, i := c.opnd(e, in.X), c.opnd(e, in.Index)
		return func(fr *frame) {
			switch xv := fr.get(x).(type) {
			case Slice:
				fr.regs[dst] = &xv[fr.index(fr.get(i), len(xv))]
			case *Value:
				if xv == nil {
					panic(fr.nilDeref())
				}
				a := (*xv).(Array)
				fr.regs[dst] = &a[fr.index(fr.get(i), len(a))]
			default:
				panic(unsupported{fmt.Sprintf("IndexAddr of %T", xv)})
			}
		}
	case *ssa.Index:
		x, i := c.opnd(e, in.X), c.opnd(e, in.Index)
		return func(fr *frame) {
			switch xv := fr.get(x).(type) {
			case Array:
				fr.regs[dst] = copyVal(xv[fr.index(fr.get(i), len(xv))])
			case string, *SymStr:
				fr.regs[dst] = fr.strIndex(xv, fr.get(i))
			default:
				panic(unsupported{fmt.Sprintf("Index of %T", xv)})
			}
		}
	case *ssa.Lookup:
		x, i := c.opnd(e, in.X), c.opnd(e, in.Index)
		commaOk := in.CommaOk
		mt, isMap := in.X.Type().Underlying().(*types.Map)
		return func(fr *frame) {
			xv := fr.get(x)
			if !isMap {
				fr.regs[dst] = fr.strIndex(xv, fr.get(i))
				return
			}
			mp := xv.(*Map)
			if s := fr.m.sched; s.race && s.raceMapOn(fr, mp) {
				s.raceMap(fr, mp, false)
			}
			var v Value
			en := mp.find(fr, fr.get(i))
			if en != nil {
				v = copyVal(en.v)
			} else {
				v = zero(mt.Elem())
			}
			if commaOk {
				fr.regs[dst] = Tuple{v, en != nil}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		mo, k, v := c.opnd(e, in.Map), c.opnd(e, in.Key), c.opnd(e, in.Value)
		return func(fr *frame) {
			mp := fr.get(mo).(*Map)
			if mp == nil {
				panic(fr.m.rtPanic("assignment to entry in nil map"))
			}
			if s := fr.m.sched; s.race && s.raceMapOn(fr, mp) {
				s.raceMap(fr, mp, true)
			}
			mp.set(fr, fr.get(k), copyVal(fr.get(v)))
		}
	case *ssa.MakeMap:
		return func(fr *frame) {
			mp := newMap()
			mp.lib = fr.cf == nil || !fr.cf.harness
			fr.regs[dst] = mp
		}
	case *ssa.MakeChan:
		sz := c.opnd(e, in.Size)
		return func(fr *frame) {
			fr.regs[dst] = &Chan{cap: fr.conInt(fr.get(sz)), id: fr.m.id()}
		}
	case *ssa.MakeSlice:
		ln, cp := c.opnd(e, in.Len), c.opnd(e, in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) {
			l, cc := fr.conInt(fr.get(ln)), fr.conInt(fr.get(cp))
			if l < 0 || cc < l || cc > 1<<20 {
				if cc > 1<<20 {
					panic(unsupported{"MakeSlice too large"})
				}
				panic(fr.m.rtPanic("runtime error: makeslice: len out of range"))
			}
			s := make(Slice, l, cc)
			full := s[:cc]
			for i := range full {
				full[i] = zero(et)
			}
			fr.regs[dst] = s
		}
	case *ssa.MakeInterface:
		x := c.opnd(e, in.X)
		t := canon(in.X.Type())
		return func(fr *frame) { fr.regs[dst] = Iface{t, copyVal(fr.get(x))} }
	case *ssa.MakeClosure:
		var env []*opnd
		for _, b := range in.Bindings {
			env = append(env, c.opnd(e, b))
		}
		fn := in.Fn.(*ssa.Function)
		return func(fr *frame) {
			cl := &Closure{Fn: fn, Env: make([]Value, len(env))}
			for i, o := range env {
				cl.Env[i] = fr.get(o)
			}
			fr.regs[dst] = cl
		}
	case *ssa.ChangeInterface:
		x := c.opnd(e, in.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(x) }
	case *ssa.ChangeType:
		x := c.opnd(e, in.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(x) }
	case *ssa.Convert:
		x := c.opnd(e, in.X)
		f := convFor(in.X.Type(), in.Type())
		return func(fr *frame) { fr.regs[dst] = f(fr, fr.get(x)) }
	case *ssa.MultiConvert:
		x := c.opnd(e, in.X)
		f := convFor(in.X.Type(), in.Type())
		return func(fr *frame) { fr.regs[dst] = f(fr, fr.get(x)) }
	case *ssa.SliceToArrayPointer:
		x := c.opnd(e, in.X)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(fr *frame) {
			s := fr.get(x).(Slice)
			if int64(len(s)) < n {
				panic(fr.m.rtPanic("runtime error: cannot convert slice to array pointer"))
			}
			var cell Value = Array(s[:n:n])
			fr.regs[dst] = &cell
		}
	case *ssa.Slice:
		return c.compileSlice(e, in, dst)
	case *ssa.Extract:
		x := c.opnd(e, in.Tuple)
		i := in.Index
		return func(fr *frame) { fr.regs[dst] = fr.get(x).(Tuple)[i] }
	case *ssa.TypeAssert:
		return c.compileTypeAssert(e, in, dst)
	case *ssa.Call:
		p := c.prepCall(e, in.Common())
		return func(fr *frame) {
			f, _ := p(fr)
			fr.regs[dst] = f(fr)
		}
	case *ssa.Defer:
		p := c.prepCall(e, in.Common())
		return func(fr *frame) {
			f, _ := p(fr)
			fr.defers = &deferred{call: func(fr *frame) { f(fr) }, next: fr.defers}
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Go:
		p := c.prepCall(e, in.Common())
		name := in.Call.Value.Name()
		if in.Call.IsInvoke() {
			name = in.Call.Method.Name()
		}
		return func(fr *frame) {
			f, _ := p(fr)
			s := fr.m.sched
			n := s.spawn(fr.g, name, func(g *G) {
				root := &frame{m: fr.m, g: g, cf: fr.cf}
				f(root)
			})
			if fr.visible() {
				n.born = fr.pos()
			}
			if fr.visible() {
				s.point(fr.g)
			}
		}
	case *ssa.Send:
		ch, v := c.opnd(e, in.Chan), c.opnd(e, in.X)
		return func(fr *frame) {
			cc := fr.get(ch).(*Chan)
			fr.m.sched.selectOp(fr, []selCase{{cc, true, copyVal(fr.get(v))}}, false, fr.visible())
		}
	case *ssa.Select:
		return c.compileSelect(e, in, dst)
	case *ssa.Range:
		x := c.opnd(e, in.X)
		return func(fr *frame) {
			switch xv := fr.get(x).(type) {
			case *Map:
				it := &mapIter{m: xv}
				if xv != nil {
					if s := fr.m.sched; s.race && s.raceMapOn(fr, xv) {
						s.raceMap(fr, xv, false)
					}
					it.rest = xv.live()
					it.order = fr.m.mapOrder && fr.cf.user
				}
				fr.regs[dst] = it
			case string:
				fr.regs[dst] = &strIter{s: xv}
			case *SymStr:
				n := fr.conInt(xv.N)
				fr.regs[dst] = &strIter{sym: xv, n: n}
			default:
				panic(unsupported{fmt.Sprintf("range over %T", xv)})
			}
		}
	case *ssa.Next:
		x := c.opnd(e, in.Iter)
		tt := in.Type().(*types.Tuple)
		return func(fr *frame) {
			switch it := fr.get(x).(type) {
			case *mapIter:
				fr.regs[dst] = it.next(fr, tt)
			case *strIter:
				fr.regs[dst] = it.next(fr)
			}
		}
	}
	panic(unsupported{fmt.Sprintf("instruction %T", in)})
}

type mapIter struct {
	m     *Map
	rest  []*mapEntry
	order bool
}

func (it *mapIter) next(fr *frame, tt *types.Tuple) Value {
	if it.m != nil {
		if s := fr.m.sched; s.race && s.raceMapOn(fr, it.m) {
			s.raceMap(fr, it.m, false)
		}
	}
	for {
		// entries deleted meanwhile are not produced
		var live []*mapEntry
		for _, e := range it.rest {
			if !e.deleted {
				live = append(live, e)
			}
		}
		it.rest = live
		if len(live) == 0 {
			z := func(t types.Type) Value {
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
					return nil
				}
				return zero(t)
			}
			return Tuple{false, z(tt.At(1).Type()), z(tt.At(2).Type())}
		}
		k := 0
		if it.order && len(live) > 1 {
			k = fr.m.choose("maporder", len(live))
			fr.m.sched.log = append(fr.m.sched.log, SchedE{G: -100 - k})
		}
		e := live[k]
		it.rest = append(append([]*mapEntry{}, live[:k]...), live[k+1:]...)
		return Tuple{true, e.k, copyVal(e.v)}
	}
}

type strIter struct {
	s   string
	sym *SymStr
	n   int
	i   int
}

func (it *strIter) next(fr *frame) Value {
	if it.sym != nil {
		if it.i >= it.n {
			return Tuple{false, int64(0), int64(0)}
		}
		i := it.i
		it.i++
		return Tuple{true, int64(i), fr.m.simpInt(fr.m.b.Resize(it.sym.B[i], 32, false), true)}
	}
	if it.i >= len(it.s) {
		return Tuple{false, int64(0), int64(0)}
	}
	for i, r := range it.s[it.i:] {
		_ = i
		at := it.i
		n := len(string(r))
		if r == 0xfffd {
			n = 1
			for j := range it.s[it.i+1:] {
				n = j + 1
				break
			}
			if n > 3 {
				n = 3
			}
		}
		it.i += n
		return Tuple{true, int64(at), int64(r)}
	}
	panic("unreachable")
}

func (c *cfn) compileUnOp(e *Engine, in *ssa.UnOp, dst int) func(fr *frame) {
	x := c.opnd(e, in.X)
	switch in.Op {
	case token.MUL:
		return func(fr *frame) { fr.regs[dst] = fr.load(fr.get(x)) }
	case token.NOT:
		return func(fr *frame) { fr.regs[dst] = notVal(fr.m, fr.get(x)) }
	case token.ARROW:
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		commaOk := in.CommaOk
		return func(fr *frame) {
			ch := fr.get(x).(*Chan)
			_, v, ok := fr.m.sched.selectOp(fr, []selCase{{ch, false, nil}}, false, fr.visible())
			if !ok {
				v = zero(et)
			}
			if commaOk {
				fr.regs[dst] = Tuple{v, ok}
			} else {
				fr.regs[dst] = v
			}
		}
	case token.SUB:
		if w, s, ok := intInfo(in.X.Type()); ok {
			return func(fr *frame) {
				switch v := fr.get(x).(type) {
				case int64:
					fr.regs[dst] = norm(-v, w, s)
				case *Term:
					fr.regs[dst] = fr.m.simpInt(fr.m.b.Neg(v), s)
				}
			}
		}
		return func(fr *frame) {
			switch v := fr.get(x).(type) {
			case float64:
				fr.regs[dst] = -v
			case *Term:
				fr.regs[dst] = fr.m.simpF(fr.m.b.FUn(OFNeg, v))
			default:
				panic(unsupported{"negation"})
			}
		}
	case token.XOR:
		w, s, _ := intInfo(in.X.Type())
		return func(fr *frame) {
			switch v := fr.get(x).(type) {
			case int64:
				fr.regs[dst] = norm(^v, w, s)
			case *Term:
				fr.regs[dst] = fr.m.simpInt(fr.m.b.BNot(v), s)
			}
		}
	}
	panic(unsupported{"unop " + in.Op.String()})
}

func (c *cfn) compileSlice(e *Engine, in *ssa.Slice, dst int) func(fr *frame) {
	x := c.opnd(e, in.X)
	var lo, hi, mx *opnd
	if in.Low != nil {
		lo = c.opnd(e, in.Low)
	}
	if in.High != nil {
		hi = c.opnd(e, in.High)
	}
	if in.Max != nil {
		mx = c.opnd(e, in.Max)
	}
	return func(fr *frame) {
		xv := fr.get(x)
		var loV, hiV Value
		if lo != nil {
			loV = fr.get(lo)
		}
		if hi != nil {
			hiV = fr.get(hi)
		}
		switch v := xv.(type) {
		case string, *SymStr:
			fr.regs[dst] = fr.strSlice(v, loV, hiV)
			return
		case *Blob:
			if loV == nil && hiV == nil {
				fr.regs[dst] = v
				return
			}
			panic(unsupported{"slice of an opaque byte blob"})
		}
		var s Slice
		var n int
		switch v := xv.(type) {
		case Slice:
			s = v
		case *Value:
			if v == nil {
				panic(fr.nilDeref())
			}
			s = Slice((*v).(Array))
		default:
			panic(unsupported{fmt.Sprintf("slice of %T", xv)})
		}
		n = cap(s)
		l, h, mm := 0, len(s), n
		if loV != nil {
			l = fr.conInt(loV)
		}
		if hiV != nil {
			h = fr.conInt(hiV)
		}
		if mx != nil {
			mm = fr.conInt(fr.get(mx))
		}
		if l < 0 || h < l || h > n || mm > n || mm < h {
			panic(fr.m.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", l, h, n)))
		}
		if s == nil {
			fr.regs[dst] = Slice(nil)
			return
		}
		fr.regs[dst] = s[l:h:mm]
	}
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	type key struct {
		t  types.Type
		it *types.Interface
	}
	k := key{t, it}
	if v, ok := e.impl.Load(k); ok {
		return v.(bool)
	}
	e.methMu.Lock()
	v := types.Implements(t, it)
	e.methMu.Unlock()
	e.impl.Store(k, v)
	return v
}

func (c *cfn) compileTypeAssert(e *Engine, in *ssa.TypeAssert, dst int) func(fr *frame) {
	x := c.opnd(e, in.X)
	at := in.AssertedType
	it, isIface := at.Underlying().(*types.Interface)
	ct := canon(at)
	commaOk := in.CommaOk
	return func(fr *frame) {
		v, okI := fr.get(x).(Iface)
		if !okI {
			panic(unsupported{fmt.Sprintf("type assert on %T", fr.get(x))})
		}
		var ok bool
		if isIface {
			ok = v.T != nil && e.implements(v.T, it)
		} else {
			ok = v.T == ct
		}
		var r Value
		if ok {
			if isIface {
				r = v
			} else {
				r = copyVal(v.V)
			}
		} else {
			if !commaOk {
				have := "nil"
				if v.T != nil {
					have = v.T.String()
				}
				panic(fr.m.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", have, at)))
			}
			r = zero(at)
		}
		if commaOk {
			fr.regs[dst] = Tuple{r, ok}
		} else {
			fr.regs[dst] = r
		}
	}
}

func (c *cfn) compileSelect(e *Engine, in *ssa.Select, dst int) func(fr *frame) {
	type st struct {
		ch, v *opnd
		send  bool
		et    types.Type
	}
	var sts []st
	for _, s := range in.States {
		x := st{ch: c.opnd(e, s.Chan), send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if x.send {
			x.v = c.opnd(e, s.Send)
		}
		sts = append(sts, x)
	}
	blocking := in.Blocking
	return func(fr *frame) {
		cases := make([]selCase, len(sts))
		for i, s := range sts {
			cases[i] = selCase{ch: fr.get(s.ch).(*Chan), send: s.send}
			if s.send {
				cases[i].v = copyVal(fr.get(s.v))
			}
		}
		k, v, ok := fr.m.sched.selectOp(fr, cases, !blocking, fr.visible())
		r := Tuple{int64(k), ok}
		for i, s := range sts {
			if s.send {
				continue
			}
			if i == k && ok {
				r = append(r, v)
			} else {
				r = append(r, zero(s.et))
			}
		}
		fr.regs[dst] = r
	}
}
