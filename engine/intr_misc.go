package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- protobuf ---------------------------------------------------------------

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// deepMsg copies a message tree the way a serialisation round trip would:
// empty lists and maps become nil, nil list elements become empty messages.
func deepMsg(t types.Type, v Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok || p == nil {
			return (*Value)(nil)
		}
		var cell Value = deepMsg(u.Elem(), *p)
		return &cell
	case *types.Struct:
		s := v.(Struct)
		r := make(Struct, len(s))
		for i := range s {
			f := u.Field(i)
			if !f.Exported() {
				r[i] = zero(f.Type())
				continue
			}
			r[i] = deepMsg(f.Type(), s[i])
		}
		return r
	case *types.Slice:
		if b, ok := v.(*Blob); ok {
			return b
		}
		s := v.(Slice)
		if len(s) == 0 {
			return Slice(nil)
		}
		r := make(Slice, len(s))
		for i := range s {
			if p, ok := s[i].(*Value); ok && p == nil {
				var cell Value = zero(u.Elem().Underlying().(*types.Pointer).Elem())
				r[i] = &cell
				continue
			}
			r[i] = deepMsg(u.Elem(), s[i])
		}
		return r
	case *types.Map:
		mp, _ := v.(*Map)
		if mp == nil || mp.n == 0 {
			return (*Map)(nil)
		}
		n := newMap()
		for _, e := range mp.live() {
			val := e.v
			if p, ok := val.(*Value); ok && p == nil {
				var cell Value = zero(u.Elem().Underlying().(*types.Pointer).Elem())
				val = &cell
			} else {
				val = deepMsg(u.Elem(), val)
			}
			ne := &mapEntry{k: copyVal(e.k), v: val}
			n.entries = append(n.entries, ne)
			n.n++
			if ks, ok := keyString(e.k); ok {
				n.idx[ks] = ne
			} else {
				n.syms = append(n.syms, ne)
			}
		}
		return n
	case *types.Interface:
		i, ok := v.(Iface)
		if !ok || i.T == nil {
			return Iface{}
		}
		pt, ok := i.T.(*types.Pointer)
		p, ok2 := i.V.(*Value)
		if !ok || !ok2 || p == nil {
			return Iface{}
		}
		// oneof wrapper: a nil message inside reads back as an empty one
		st := structOf(pt.Elem())
		s := (*p).(Struct)
		r := make(Struct, len(s))
		for k := range s {
			if q, ok := s[k].(*Value); ok && q == nil {
				var cell Value = zero(st.Field(k).Type().Underlying().(*types.Pointer).Elem())
				r[k] = &cell
				continue
			}
			r[k] = deepMsg(st.Field(k).Type(), s[k])
		}
		var cell Value = r
		return Iface{i.T, &cell}
	}
	return copyVal(v)
}

func (fr *frame) packBlob(msg Iface) *Blob {
	p, ok := msg.V.(*Value)
	if !ok || msg.T == nil {
		panic(unsupported{"packing a nil message"})
	}
	pt := msg.T.(*types.Pointer)
	if p == nil {
		return &Blob{T: canon(pt.Elem()), Msg: zero(pt.Elem())}
	}
	return &Blob{T: canon(pt.Elem()), Msg: deepMsg(pt.Elem(), *p)}
}

func (fr *frame) protoUnmarshal(data Value, msg Iface) Value {
	if msg.T == nil {
		panic(fr.nilDeref())
	}
	p := ptr(msg.V)
	if p == nil {
		panic(fr.nilDeref())
	}
	t := msg.T.(*types.Pointer).Elem()
	switch d := data.(type) {
	case *Blob:
		if d.Corrupt || d.T != canon(t) {
			return fr.m.mkError("proto: cannot parse invalid wire-format data")
		}
		storeCell(p, deepMsg(t, d.Msg))
		return Iface{}
	case Slice:
		if len(d) == 0 {
			storeCell(p, zero(t))
			return Iface{}
		}
		panic(unsupported{"proto.Unmarshal of raw bytes"})
	}
	panic(unsupported{fmt.Sprintf("proto.Unmarshal of %T", data)})
}

// ---- JSON over possibly symbolic text ------------------------------------------

type jnode struct {
	k    byte // 'o' 'a' 's' 'n' 't' 'f' '0'
	s    Value
	keys []Value
	vals []*jnode
	num  float64
}

type jparser struct {
	m  *M
	b  []Value
	i  int
	ok bool
}

func (p *jparser) is(c Value, want byte) bool {
	switch c := c.(type) {
	case int64:
		return byte(c) == want
	case *Term:
		return p.m.branch(p.m.b.Eq(c, p.m.b.BV(8, uint64(want))))
	}
	return false
}

func (p *jparser) ws() {
	for p.i < len(p.b) && (p.is(p.b[p.i], ' ') || p.is(p.b[p.i], '\n') || p.is(p.b[p.i], '\t') || p.is(p.b[p.i], '\r')) {
		p.i++
	}
}

func (p *jparser) fail() *jnode { p.ok = false; return nil }

func (p *jparser) lit(s string) bool {
	if p.i+len(s) > len(p.b) {
		return false
	}
	for k := 0; k < len(s); k++ {
		if !p.is(p.b[p.i+k], s[k]) {
			return false
		}
	}
	p.i += len(s)
	return true
}

func (p *jparser) str() Value {
	p.i++
	var out []Value
	for p.i < len(p.b) {
		c := p.b[p.i]
		if p.is(c, '"') {
			p.i++
			return p.m.mkStr(out)
		}
		if p.is(c, '\\') {
			p.i++
			if p.i >= len(p.b) {
				break
			}
			e := p.b[p.i]
			esc := map[byte]byte{'"': '"', '\\': '\\', '/': '/', 'n': '\n', 't': '\t', 'r': '\r', 'b': '\b', 'f': '\f'}
			done := false
			for k, v := range esc {
				if p.is(e, k) {
					out = append(out, int64(v))
					done = true
					break
				}
			}
			if !done {
				if p.is(e, 'u') {
					panic(unsupported{"json \\u escape"})
				}
				p.ok = false
				return ""
			}
			p.i++
			continue
		}
		if t, ok := c.(*Term); ok {
			if p.m.branch(p.m.b.Cmp(OUlt, t, p.m.b.BV(8, 0x20))) {
				p.ok = false
				return ""
			}
		} else if c.(int64) < 0x20 {
			p.ok = false
			return ""
		}
		out = append(out, c)
		p.i++
	}
	p.ok = false
	return ""
}

func (p *jparser) val() *jnode {
	p.ws()
	if p.i >= len(p.b) {
		return p.fail()
	}
	c := p.b[p.i]
	switch {
	case p.is(c, '{'):
		n := &jnode{k: 'o'}
		p.i++
		p.ws()
		if p.i < len(p.b) && p.is(p.b[p.i], '}') {
			p.i++
			return n
		}
		for {
			p.ws()
			if p.i >= len(p.b) || !p.is(p.b[p.i], '"') {
				return p.fail()
			}
			k := p.str()
			if !p.ok {
				return nil
			}
			p.ws()
			if p.i >= len(p.b) || !p.is(p.b[p.i], ':') {
				return p.fail()
			}
			p.i++
			v := p.val()
			if !p.ok {
				return nil
			}
			n.keys = append(n.keys, k)
			n.vals = append(n.vals, v)
			p.ws()
			if p.i >= len(p.b) {
				return p.fail()
			}
			if p.is(p.b[p.i], ',') {
				p.i++
				continue
			}
			if p.is(p.b[p.i], '}') {
				p.i++
				return n
			}
			return p.fail()
		}
	case p.is(c, '['):
		n := &jnode{k: 'a'}
		p.i++
		p.ws()
		if p.i < len(p.b) && p.is(p.b[p.i], ']') {
			p.i++
			return n
		}
		for {
			v := p.val()
			if !p.ok {
				return nil
			}
			n.vals = append(n.vals, v)
			p.ws()
			if p.i >= len(p.b) {
				return p.fail()
			}
			if p.is(p.b[p.i], ',') {
				p.i++
				continue
			}
			if p.is(p.b[p.i], ']') {
				p.i++
				return n
			}
			return p.fail()
		}
	case p.is(c, '"'):
		s := p.str()
		return &jnode{k: 's', s: s}
	case p.is(c, 't'):
		if p.lit("true") {
			return &jnode{k: 't'}
		}
		return p.fail()
	case p.is(c, 'f'):
		if p.lit("false") {
			return &jnode{k: 'f'}
		}
		return p.fail()
	case p.is(c, 'n'):
		if p.lit("null") {
			return &jnode{k: '0'}
		}
		return p.fail()
	}
	// numbers must be concrete
	var txt []byte
	for p.i < len(p.b) {
		k, ok := p.b[p.i].(int64)
		if t, sym := p.b[p.i].(*Term); sym {
			// '+' to ':' without ',' '/' ':' are the digits and signs
			digit := p.m.b.And(p.m.b.Cmp(OUle, p.m.b.BV(8, '+'), t), p.m.b.Cmp(OUle, t, p.m.b.BV(8, '9')))
			exp := p.m.b.Or(p.m.b.Eq(t, p.m.b.BV(8, 'e')), p.m.b.Eq(t, p.m.b.BV(8, 'E')))
			if p.m.branch(p.m.b.Or(digit, exp)) {
				k, ok = p.m.concretize(t), true
				p.b[p.i] = k
			}
		}
		if !ok || strings.IndexByte("+-0123456789.eE", byte(k)) < 0 {
			break
		}
		txt = append(txt, byte(k))
		p.i++
	}
	var f float64
	if len(txt) == 0 || !json.Valid(txt) {
		return p.fail()
	}
	f, err := strconv.ParseFloat(string(txt), 64)
	if err != nil {
		return p.fail()
	}
	return &jnode{k: 'n', num: f}
}

func (m *M) parseJSON(s Value) (*jnode, bool) {
	p := &jparser{m: m, b: m.fixLen(s), ok: true}
	n := p.val()
	if !p.ok {
		return nil, false
	}
	p.ws()
	if p.i != len(p.b) {
		return nil, false
	}
	return n, true
}

const spb = "google.golang.org/protobuf/types/known/structpb"

func newCell(v Value) *Value { c := v; return &c }

// setField builds a struct of named type with the given exported fields.
func (e *Engine) mkStruct(pkg, name string, fields map[string]Value) *Value {
	t := e.typ(pkg, name)
	s := zero(t).(Struct)
	st := structOf(t)
	for i := 0; i < st.NumFields(); i++ {
		if v, ok := fields[st.Field(i).Name()]; ok {
			s[i] = v
		}
	}
	return newCell(s)
}

func (fr *frame) toStructpb(n *jnode) (*Value, bool) {
	e := fr.m.w.eng
	wrap := func(kind, field string, v Value) *Value {
		w := e.mkStruct(spb, kind, map[string]Value{field: v})
		return e.mkStruct(spb, "Value", map[string]Value{"Kind": Iface{e.ptrTyp(spb, kind), w}})
	}
	switch n.k {
	case 's':
		return wrap("Value_StringValue", "StringValue", n.s), true
	case 'n':
		return wrap("Value_NumberValue", "NumberValue", n.num), true
	case 't', 'f':
		return wrap("Value_BoolValue", "BoolValue", n.k == 't'), true
	case '0':
		return wrap("Value_NullValue", "NullValue", int64(0)), true
	case 'a':
		var l Slice
		for _, x := range n.vals {
			v, ok := fr.toStructpb(x)
			if !ok {
				return nil, false
			}
			l = append(l, v)
		}
		return wrap("Value_ListValue", "ListValue", e.mkStruct(spb, "ListValue", map[string]Value{"Values": l})), true
	case 'o':
		s, ok := fr.toStruct(n)
		if !ok {
			return nil, false
		}
		return wrap("Value_StructValue", "StructValue", s), true
	}
	return nil, false
}

func (fr *frame) toStruct(n *jnode) (*Value, bool) {
	mp := newMap()
	for i, k := range n.keys {
		v, ok := fr.toStructpb(n.vals[i])
		if !ok {
			return nil, false
		}
		if mp.find(fr, k) != nil {
			return nil, false // protojson rejects duplicate keys
		}
		mp.set(fr, k, v)
	}
	return fr.m.w.eng.mkStruct(spb, "Struct", map[string]Value{"Fields": mp}), true
}

// jsonInto stores a parsed node into a Go value of type t (encoding/json).
func (fr *frame) jsonInto(n *jnode, t types.Type, p *Value) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case n.k == '0':
			return true
		case u.Info()&types.IsString != 0 && n.k == 's':
			*p = n.s
			return true
		case u.Info()&types.IsBoolean != 0 && (n.k == 't' || n.k == 'f'):
			*p = n.k == 't'
			return true
		case u.Info()&types.IsInteger != 0 && n.k == 'n':
			*p = int64(n.num)
			return true
		case u.Info()&types.IsFloat != 0 && n.k == 'n':
			*p = n.num
			return true
		}
		return false
	case *types.Map:
		if n.k == '0' {
			*p = (*Map)(nil)
			return true
		}
		if n.k != 'o' {
			return false
		}
		mp, _ := (*p).(*Map)
		if mp == nil {
			mp = newMap()
			*p = mp
		}
		ok := true
		for i, k := range n.keys {
			var cell Value = zero(u.Elem())
			if !fr.jsonInto(n.vals[i], u.Elem(), &cell) {
				ok = false
				continue
			}
			mp.set(fr, k, cell)
		}
		return ok
	case *types.Interface:
		switch n.k {
		case 's':
			*p = Iface{canon(types.Typ[types.String]), n.s}
		case 'n':
			*p = Iface{canon(types.Typ[types.Float64]), n.num}
		case 't', 'f':
			*p = Iface{canon(types.Typ[types.Bool]), n.k == 't'}
		case '0':
			*p = Iface{}
		default:
			panic(unsupported{"json into interface"})
		}
		return true
	case *types.Slice:
		if n.k == '0' {
			*p = Slice(nil)
			return true
		}
		if n.k != 'a' {
			return false
		}
		r := make(Slice, len(n.vals))
		for i := range r {
			r[i] = zero(u.Elem())
			if !fr.jsonInto(n.vals[i], u.Elem(), &r[i]) {
				return false
			}
		}
		*p = r
		return true
	}
	panic(unsupported{fmt.Sprintf("json into %v", t)})
}

// ---- misc ---------------------------------------------------------------------------

func zeroResult(fn *ssa.Function) intrinsic {
	res := fn.Signature.Results()
	return func(fr *frame, a []Value) Value {
		if res.Len() == 0 {
			return nil
		}
		return zero(res)
	}
}

// patternIntrinsic covers whole packages.
func patternIntrinsic(name, pp string, fn *ssa.Function) intrinsic {
	switch pp {
	case "github.com/cloudwego/kitex/pkg/klog":
		if fn.Signature.Recv() == nil && fn.Name() != "init" {
			return zeroResult(fn)
		}
	case "github.com/bytedance/gopkg/lang/fastrand", "math/rand", "math/rand/v2":
		if fn.Signature.Recv() == nil && fn.Name() != "init" {
			return drawIntrinsic(fn)
		}
	case "runtime", "runtime/debug":
		switch fn.Name() {
		case "Stack":
			return func(fr *frame, a []Value) Value {
				if len(a) == 0 {
					return Slice{int64('s')}
				}
				return int64(0)
			}
		case "Gosched", "KeepAlive", "SetFinalizer", "GC":
			return zeroResult(fn)
		case "Callers":
			return func(fr *frame, a []Value) Value { return int64(0) }
		case "Caller":
			return func(fr *frame, a []Value) Value { return Tuple{int64(0), "", int64(0), false} }
		case "NumGoroutine", "GOMAXPROCS", "NumCPU":
			return func(fr *frame, a []Value) Value { return int64(4) }
		}
	}
	if strings.HasPrefix(pp, "internal/race") {
		return zeroResult(fn)
	}
	if fn.Name() == "ProtoReflect" || fn.Name() == "Descriptor" && fn.Signature.Recv() != nil {
		return func(fr *frame, a []Value) Value { panic(unsupported{"proto reflection: " + name}) }
	}
	if fn.Name() == "String" && fn.Signature.Recv() != nil && fn.Signature.Params().Len() == 0 && isProtoPkg(pp) {
		return func(fr *frame, a []Value) Value {
			if c, ok := a[0].(int64); ok {
				return fmt.Sprintf("<%s %d>", name, c)
			}
			return "<proto>"
		}
	}
	return nil
}

func isProtoPkg(pp string) bool {
	return strings.HasPrefix(pp, "github.com/envoyproxy/go-control-plane/") || strings.HasPrefix(pp, "google.golang.org/protobuf/types/") ||
		strings.HasPrefix(pp, "google.golang.org/genproto/") || strings.Contains(pp, "/kitex_gen/") || strings.HasPrefix(pp, "github.com/cncf/")
}

// drawIntrinsic: a random number is a fresh symbolic value in its domain, or
// the one the harness fixed.
func drawIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.Name()
	res := fn.Signature.Results()
	if res.Len() != 1 {
		return func(fr *frame, a []Value) Value { panic(unsupported{"random: " + fn.String()}) }
	}
	w, signed, isInt := intInfo(res.At(0).Type())
	if !isInt {
		if _, isF := floatW(res.At(0).Type()); isF {
			return func(fr *frame, a []Value) Value {
				// a fixed draw picks the middle of one of "grid" equal cells
				f, ok := fr.m.side["draw"].(int64)
				g, ok2 := fr.m.side["grid"].(int64)
				if !ok || !ok2 || g <= 0 {
					return 0.5
				}
				fr.m.side["drawN"] = int64(0)
				fr.m.side["draws"] = drawCount(fr.m) + 1
				return (float64(f%g) + 0.5) / float64(g)
			}
		}
		return func(fr *frame, a []Value) Value { panic(unsupported{"random: " + fn.String()}) }
	}
	return func(fr *frame, a []Value) Value {
		m := fr.m
		b := m.b
		var n *Term
		if len(a) == 1 {
			n = m.intTerm(a[0], w)
			bad := b.Eq(n, b.BV(w, 0))
			if signed {
				bad = b.Cmp(OSle, n, b.BV(w, 0))
			}
			if m.branch(bad) {
				if strings.HasPrefix(name, "Uint") && strings.Contains(pkgPath(fn), "fastrand") {
					return int64(0)
				}
				panic(targetPanic{Iface{canon(types.Typ[types.String]), "invalid argument to " + name}})
			}
		}
		if n == nil {
			hi := mask(w)
			if signed {
				hi >>= 1
			}
			m.side["drawN"] = m.simpInt(b.BV(64, hi), false)
		} else {
			m.side["drawN"] = m.simpInt(b.Resize(n, 64, false), false)
		}
		m.side["draws"] = drawCount(m) + 1
		if f, ok := m.side["draw"]; ok && f != nil {
			t := b.Resize(m.intTerm(f, 64), w, false)
			if n != nil && !m.branch(b.Cmp(OUlt, t, n)) {
				t = b.Bin(OURem, t, n)
			}
			return m.simpInt(t, signed)
		}
		v := m.newVar("draw", name, Sort{SBV, w})
		if _, ok := m.model[v.name]; !ok {
			m.model[v.name] = 0
		}
		if n != nil {
			m.assume(m.simp(b.Cmp(OUlt, v, n)))
		} else if signed {
			m.assume(m.simp(b.Cmp(OSle, b.BV(w, 0), v)))
		}
		return v
	}
}

func drawCount(m *M) int64 {
	n, _ := m.side["draws"].(int64)
	return n
}

func init() {
	reg("google.golang.org/protobuf/types/known/anypb.MarshalFrom", func(fr *frame, a []Value) Value {
		src := a[1].(Iface)
		if src.T == nil {
			return fr.m.mkError("invalid nil source message")
		}
		dst := ptr(a[0])
		t := structOf(fr.m.w.eng.typ("google.golang.org/protobuf/types/known/anypb", "Any"))
		d := (*dst).(Struct)
		for i := 0; i < t.NumFields(); i++ {
			switch t.Field(i).Name() {
			case "TypeUrl":
				d[i] = "type.googleapis.com/" + protoName(src.T)
			case "Value":
				d[i] = fr.packBlob(src)
			}
		}
		return Iface{}
	})
	reg("google.golang.org/protobuf/proto.Marshal", func(fr *frame, a []Value) Value {
		return Tuple{fr.packBlob(a[0].(Iface)), Iface{}}
	})
	reg("google.golang.org/protobuf/proto.Unmarshal", func(fr *frame, a []Value) Value {
		return fr.protoUnmarshal(a[0], a[1].(Iface))
	})
	reg("google.golang.org/protobuf/proto.Clone", func(fr *frame, a []Value) Value {
		i := a[0].(Iface)
		p := ptr(i.V)
		if p == nil {
			return i
		}
		return Iface{i.T, newCell(deepMsg(i.T.(*types.Pointer).Elem(), *p))}
	})
	reg("google.golang.org/protobuf/encoding/protojson.Marshal", func(fr *frame, a []Value) Value {
		return Tuple{fr.m.strToBytes(fr, "{}"), Iface{}}
	})
	reg("google.golang.org/protobuf/encoding/protojson.Unmarshal", func(fr *frame, a []Value) Value {
		i := a[1].(Iface)
		n, ok := fr.m.parseJSON(fr.m.bytesToStr(a[0]))
		if i.T != fr.m.w.eng.ptrTyp(spb, "Struct") {
			panic(unsupported{"protojson into " + i.T.String()})
		}
		if ok && n.k == 'o' {
			if s, ok := fr.toStruct(n); ok {
				storeCell(ptr(i.V), *s)
				return Iface{}
			}
		}
		return fr.m.mkError("proto: syntax error")
	})
	reg("encoding/json.Unmarshal", func(fr *frame, a []Value) Value {
		i := a[1].(Iface)
		n, ok := fr.m.parseJSON(fr.m.bytesToStr(a[0]))
		if !ok {
			return fr.m.mkError("invalid character in JSON")
		}
		pt, isP := i.T.(*types.Pointer)
		if !isP {
			return fr.m.mkError("json: Unmarshal(non-pointer)")
		}
		if !fr.jsonInto(n, pt.Elem(), ptr(i.V)) {
			return fr.m.mkError("json: cannot unmarshal")
		}
		return Iface{}
	})
	js := func(fr *frame, a []Value) Value { return Tuple{fr.m.strToBytes(fr, "{}"), Iface{}} }
	reg("encoding/json.Marshal", js)
	reg("encoding/json.MarshalIndent", func(fr *frame, a []Value) Value {
		// reads everything reachable, as reflection would
		fr.readAll(a[0], 0)
		return js(fr, a)
	})

	// os
	reg("os.Getenv", func(fr *frame, a []Value) Value {
		if v, ok := fr.m.env[fr.m.concretizeStr(a[0])]; ok {
			return v
		}
		return ""
	})
	reg("os.LookupEnv", func(fr *frame, a []Value) Value {
		if v, ok := fr.m.env[fr.m.concretizeStr(a[0])]; ok {
			return Tuple{v, true}
		}
		return Tuple{"", false}
	})
	reg("os.Setenv", func(fr *frame, a []Value) Value {
		fr.m.env[fr.m.concretizeStr(a[0])] = a[1]
		return Iface{}
	})
	reg("os.Unsetenv", func(fr *frame, a []Value) Value {
		delete(fr.m.env, fr.m.concretizeStr(a[0]))
		return Iface{}
	})
	reg("os.WriteFile", func(fr *frame, a []Value) Value { return Iface{} })
	reg("os.MkdirAll", func(fr *frame, a []Value) Value { return Iface{} })
	reg("os.Getpid", func(fr *frame, a []Value) Value { return int64(1) })
	reg("path/filepath.Dir", func(fr *frame, a []Value) Value { return "." })
	reg("github.com/bytedance/gopkg/cloud/circuitbreaker.NewPanel", func(fr *frame, a []Value) Value {
		const cb = "github.com/bytedance/gopkg/cloud/circuitbreaker"
		return Tuple{Iface{fr.m.w.eng.ptrTyp(cb, "panel"), newCell(zero(fr.m.w.eng.typ(cb, "panel")))}, Iface{}}
	})
	reg("(*github.com/bytedance/gopkg/cloud/circuitbreaker.panel).DumpBreakers", func(fr *frame, a []Value) Value { return (*Map)(nil) })
	reg("(*github.com/bytedance/gopkg/cloud/circuitbreaker.panel).Close", func(fr *frame, a []Value) Value { return nil })
	reg("os.Hostname", func(fr *frame, a []Value) Value { return Tuple{"localhost", Iface{}} })
	reg("os.Stat", func(fr *frame, a []Value) Value { return Tuple{Iface{}, Iface{}} })
	reg("internal/godebug.New", func(fr *frame, a []Value) Value { return newCell(Struct{}) })
	reg("internal/godebug.(*Setting).Value", func(fr *frame, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).Value", func(fr *frame, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).IncNonDefault", func(fr *frame, a []Value) Value { return nil })
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round, "Sqrt": math.Sqrt, "Log": math.Log, "Exp": math.Exp} {
		f := f
		reg("math."+n, func(fr *frame, a []Value) Value {
			x, ok := a[0].(float64)
			if !ok {
				panic(unsupported{"math on a symbolic float"})
			}
			return f(x)
		})
	}
	for n, f := range map[string]func(x, y float64) float64{"Max": math.Max, "Min": math.Min, "Pow": math.Pow, "Mod": math.Mod} {
		f := f
		reg("math."+n, func(fr *frame, a []Value) Value {
			x, ok := a[0].(float64)
			y, ok2 := a[1].(float64)
			if !ok || !ok2 {
				panic(unsupported{"math on a symbolic float"})
			}
			return f(x, y)
		})
	}
	reg("math.Float64bits", func(fr *frame, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return int64(fbits(Sort{SFP, 64}, f))
		}
		panic(unsupported{"Float64bits"})
	})
	reg("math.Float64frombits", func(fr *frame, a []Value) Value {
		if f, ok := a[0].(int64); ok {
			return fval(Sort{SFP, 64}, uint64(f))
		}
		panic(unsupported{"Float64frombits"})
	})
	reg("internal/reflectlite.TypeOf", func(fr *frame, a []Value) Value { panic(unsupported{"reflectlite"}) })
	// the saturating arithmetic of AsDuration, without its divisions
	reg("(*google.golang.org/protobuf/types/known/durationpb.Duration).AsDuration", func(fr *frame, a []Value) Value {
		p, _ := a[0].(*Value)
		if p == nil {
			return int64(0)
		}
		st := structOf(fr.m.w.eng.typ("google.golang.org/protobuf/types/known/durationpb", "Duration"))
		var sec, ns Value = int64(0), int64(0)
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "Seconds":
				sec = (*p).(Struct)[i]
			case "Nanos":
				ns = (*p).(Struct)[i]
			}
		}
		m, b := fr.m, fr.m.b
		s, n := m.intTerm(sec, 64), b.Resize(m.intTerm(ns, 32), 64, true)
		const lim = 9223372036
		neg := func(v int64) *Term { return b.BV(64, uint64(v)) }
		if m.branch(b.Cmp(OSlt, s, neg(-lim+3))) || m.branch(b.Cmp(OSlt, neg(lim-3), s)) {
			if sc, ok := sec.(int64); ok {
				if nc, ok := ns.(int64); ok {
					d := sc * 1000000000
					over := d/1000000000 != sc
					d += int64(int32(nc))
					over = over || sc < 0 && int32(nc) < 0 && d > 0 || sc > 0 && int32(nc) > 0 && d < 0
					if over && sc < 0 {
						return int64(math.MinInt64)
					} else if over {
						return int64(math.MaxInt64)
					}
					return d
				}
			}
			panic(unsupported{"AsDuration near its limits"})
		}
		return m.simpInt(b.Bin(OAdd, b.Bin(OMul, s, b.BV(64, 1000000000)), n), true)
	})
	reg("context.WithValue", func(fr *frame, a []Value) Value {
		par, key := a[0].(Iface), a[1].(Iface)
		if par.T == nil || key.T == nil || !types.Comparable(key.T) {
			panic(targetPanic{Iface{canon(types.Typ[types.String]), "bad context.WithValue"}})
		}
		e := fr.m.w.eng
		return Iface{e.ptrTyp("context", "valueCtx"), e.mkStruct("context", "valueCtx", map[string]Value{"Context": par, "key": key, "val": a[2]})}
	})
	reg("maps.clone", func(fr *frame, a []Value) Value {
		x := a[0].(Iface)
		src, _ := x.V.(*Map)
		if src == nil {
			return x
		}
		if fr.m.sched.raceMapOn(fr, src) {
			fr.m.sched.raceMap(fr, src, false)
		}
		dst := newMap()
		dst.lib = true
		for _, e := range src.live() {
			n := &mapEntry{k: copyVal(e.k), v: copyVal(e.v)}
			dst.entries = append(dst.entries, n)
			dst.n++
			if ks, conc := keyString(n.k); conc {
				dst.idx[ks] = n
			} else {
				dst.syms = append(dst.syms, n)
			}
		}
		return Iface{x.T, dst}
	})
	reg("reflect.TypeOf", func(fr *frame, a []Value) Value { panic(unsupported{"reflect.TypeOf"}) })
	reg("context.contextName", func(fr *frame, a []Value) Value { return "ctx" })
	reg("reflect.DeepEqual", func(fr *frame, a []Value) Value {
		return fr.deepEq(a[0], a[1], 0)
	})
}

// readAll touches every cell reachable from v (for race detection).
func (fr *frame) readAll(v Value, depth int) {
	if depth > 30 {
		return
	}
	switch v := v.(type) {
	case Iface:
		if v.T != nil {
			fr.readAll(v.V, depth+1)
		}
	case *Value:
		if v != nil {
			fr.load(v)
			fr.readAll(*v, depth+1)
		}
	case Struct:
		for _, x := range v {
			fr.readAll(x, depth+1)
		}
	case Array:
		for _, x := range v {
			fr.readAll(x, depth+1)
		}
	case Slice:
		for _, x := range v {
			fr.readAll(x, depth+1)
		}
	case *Map:
		if v != nil {
			if s := fr.m.sched; s.race && s.raceMapOn(fr, v) {
				s.raceMap(fr, v, false)
			}
			for _, e := range v.live() {
				fr.readAll(e.v, depth+1)
			}
		}
	}
}

func (fr *frame) deepEq(x, y Value, depth int) Value {
	if depth > 40 {
		panic(unsupported{"DeepEqual depth"})
	}
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok || a.T != b.T {
			return false
		}
		if a.T == nil {
			return true
		}
		return fr.deepEq(a.V, b.V, depth+1)
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return false
		}
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return fr.deepEq(*a, *b, depth+1)
	case Struct:
		b := y.(Struct)
		var r Value = true
		for i := range a {
			r = andVal(fr.m, r, fr.deepEq(a[i], b[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case Array:
		return fr.deepEq(Struct(a), Struct(y.(Array)), depth)
	case Slice:
		b, ok := y.(Slice)
		if !ok || len(a) != len(b) || (a == nil) != (b == nil) {
			return false
		}
		return fr.deepEq(Struct(a), Struct(b), depth)
	case *Map:
		b, ok := y.(*Map)
		if !ok || (a == nil) != (b == nil) {
			return false
		}
		if a == nil || a == b {
			return true
		}
		if a.n != b.n {
			return false
		}
		var r Value = true
		for _, e := range a.live() {
			o := b.find(fr, e.k)
			if o == nil {
				return false
			}
			r = andVal(fr.m, r, fr.deepEq(e.v, o.v, depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *Closure:
		b, _ := y.(*Closure)
		return a == nil && b == nil
	}
	return eqVal(fr.m, x, y)
}

var _ = os.Getenv

// protoName is the full message name of a generated Go type.
func protoName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "unknown"
	}
	p := n.Obj().Pkg().Path()
	name := strings.ReplaceAll(n.Obj().Name(), "_", ".")
	for _, pre := range []string{"github.com/envoyproxy/go-control-plane/", "github.com/cncf/xds/go/"} {
		if strings.HasPrefix(p, pre) {
			return strings.ReplaceAll(p[len(pre):], "/", ".") + "." + name
		}
	}
	if strings.HasPrefix(p, "google.golang.org/protobuf/types/known/") {
		return "google.protobuf." + name
	}
	if i := strings.LastIndex(p, "/istio_networking_nds_v1"); i >= 0 {
		return "istio.networking.nds.v1." + name
	}
	return "unknown." + name
}
