package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value representation (see DESIGN.md):
//
//	integers   int64 (bit pattern extended per the static type) | *Term (BV)
//	bool       bool | *Term (Bool)
//	floats     float64 | *Term (FP)
//	string     string | *SymStr
//	pointer    *Value (typed nil for nil)
//	struct     Struct, array Array, slice Slice | *Blob
//	map *Map, chan *Chan, func *Closure, interface Iface, tuple Tuple
type Value = interface{}

type (
	Struct []Value
	Array  []Value
	Slice  []Value
	Tuple  []Value
)

type Iface struct {
	T types.Type // canonical; nil for a nil interface
	V Value
}

type Closure struct {
	Fn  *ssa.Function
	Env []Value
	// native closures created by the engine
	Nat func(fr *frame, args []Value) Value
	id  int
}

// Blob is an opaque []byte: the encoding of a message (msg != nil), or bytes
// which decode as nothing.
type Blob struct {
	T       types.Type // message struct type (canonical), nil if corrupt
	Msg     Value      // Struct (canonicalised deep copy)
	Corrupt bool
	JSON    Value // source for json blobs
}

type SymStr struct {
	B []*Term // BV8, one per possible position; 0 beyond the length
	N *Term   // BV64 length
}

// ---- canonical types --------------------------------------------------

var (
	canonMu  sync.Mutex
	canonTab typeutil.Map
	canonMap sync.Map // types.Type -> types.Type
)

func canon(t types.Type) types.Type {
	if c, ok := canonMap.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	u := types.Unalias(t)
	c, _ := canonTab.At(u).(types.Type)
	if c == nil {
		canonTab.Set(u, u)
		c = u
	}
	canonMap.Store(t, c)
	return c
}

// ---- integer helpers --------------------------------------------------

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b := basicOf(t)
	if b == nil {
		if tp, isTP := t.(*types.TypeParam); isTP {
			_ = tp
		}
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

// norm brings a 64-bit pattern to the canonical form of width w.
func norm(v int64, w uint8, signed bool) int64 {
	if w == 64 {
		return v
	}
	if signed {
		return sx(uint64(v), w)
	}
	return int64(uint64(v) & mask(w))
}

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Info()&types.IsComplex != 0:
			return complex(0, 0)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		a := make(Array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		return Slice(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	}
	panic(unsupported{fmt.Sprintf("zero of %T %v", t, t)})
}

// copyVal implements value semantics for aggregates.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		c := make(Struct, len(v))
		for i := range v {
			c[i] = copyVal(v[i])
		}
		return c
	case Array:
		c := make(Array, len(v))
		for i := range v {
			c[i] = copyVal(v[i])
		}
		return c
	}
	return v
}

func isAgg(v Value) bool {
	switch v.(type) {
	case Struct, Array:
		return true
	}
	return false
}

func storeCell(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			if len(d) > 0 && &d[0] == &v[0] {
				return
			}
			for i := range v {
				storeCell(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			if len(d) > 0 && &d[0] == &v[0] {
				return
			}
			for i := range v {
				storeCell(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// ---- maps ---------------------------------------------------------------

type mapEntry struct {
	k, v    Value
	deleted bool
}

type Map struct {
	entries []*mapEntry
	idx     map[string]*mapEntry // concrete keys
	syms    []*mapEntry          // entries whose key is symbolic
	n       int
	cell    Value // race-detection identity
	lib     bool  // made outside the harness
	id      int
}

func newMap() *Map { return &Map{idx: map[string]*mapEntry{}} }

// keyString gives a canonical text of a concrete key; ok=false if symbolic.
func keyString(v Value) (string, bool) {
	switch v := v.(type) {
	case int64:
		return fmt.Sprintf("i%d", v), true
	case string:
		return "s" + v, true
	case bool:
		return fmt.Sprintf("b%t", v), true
	case float64:
		return fmt.Sprintf("f%v", v), true
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case *Chan:
		return fmt.Sprintf("c%p", v), true
	case *Map:
		return fmt.Sprintf("m%p", v), true
	case *Closure:
		return fmt.Sprintf("F%p", v), true
	case Iface:
		if v.T == nil {
			return "nil", true
		}
		s, ok := keyString(v.V)
		return fmt.Sprintf("I%p:%s", v.T, s), ok
	case Struct:
		var b strings.Builder
		b.WriteByte('{')
		for _, f := range v {
			s, ok := keyString(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&b, "%d:%s,", len(s), s)
		}
		return b.String(), true
	case Array:
		return keyString(Struct(v))
	case nil:
		return "nil", true
	case *Term, *SymStr:
		return "", false
	}
	panic(unsupported{fmt.Sprintf("map key %T", v)})
}

func (m *Map) find(fr *frame, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	ks, conc := keyString(k)
	if conc {
		if e, ok := m.idx[ks]; ok {
			return e
		}
		for _, e := range m.syms {
			if !e.deleted && fr.m.truth(eqVal(fr.m, e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.entries {
		if !e.deleted && fr.m.truth(eqVal(fr.m, e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Map) set(fr *frame, k, v Value) {
	if e := m.find(fr, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: copyVal(k), v: v}
	m.entries = append(m.entries, e)
	m.n++
	if ks, conc := keyString(k); conc {
		m.idx[ks] = e
	} else {
		m.syms = append(m.syms, e)
	}
}

func (m *Map) del(fr *frame, k Value) {
	if m == nil {
		return
	}
	e := m.find(fr, k)
	if e == nil {
		return
	}
	m.remove(e)
}

func (m *Map) remove(e *mapEntry) {
	e.deleted = true
	m.n--
	if ks, conc := keyString(e.k); conc {
		delete(m.idx, ks)
	} else {
		for i, s := range m.syms {
			if s == e {
				m.syms = append(append([]*mapEntry{}, m.syms[:i]...), m.syms[i+1:]...)
				break
			}
		}
	}
	if m.n == 0 {
		m.entries = nil
	} else if len(m.entries) > 4*m.n+16 {
		var ne []*mapEntry
		for _, x := range m.entries {
			if !x.deleted {
				ne = append(ne, x)
			}
		}
		m.entries = ne
	}
}

func (m *Map) clear() {
	for _, e := range m.entries {
		e.deleted = true
	}
	m.entries, m.idx, m.syms, m.n = nil, map[string]*mapEntry{}, nil, 0
}

func (m *Map) live() []*mapEntry {
	if m == nil {
		return nil
	}
	r := make([]*mapEntry, 0, m.n)
	for _, e := range m.entries {
		if !e.deleted {
			r = append(r, e)
		}
	}
	return r
}

// ---- equality ------------------------------------------------------------

func strParts(m *M, v Value) ([]*Term, *Term) {
	switch v := v.(type) {
	case string:
		r := make([]*Term, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = m.b.BV(8, uint64(v[i]))
		}
		return r, m.b.BV(64, uint64(len(v)))
	case *SymStr:
		return v.B, v.N
	}
	panic(unsupported{fmt.Sprintf("string parts of %T", v)})
}

func strEq(m *M, x, y Value) Value {
	xs, xok := x.(string)
	ys, yok := y.(string)
	if xok && yok {
		return xs == ys
	}
	if x == y {
		return true
	}
	xb, xn := strParts(m, x)
	yb, yn := strParts(m, y)
	b := m.b
	r := b.Eq(xn, yn)
	n := max(len(xb), len(yb))
	z := b.BV(8, 0)
	for i := 0; i < n && r != b.False; i++ {
		p, q := z, z
		if i < len(xb) {
			p = xb[i]
		}
		if i < len(yb) {
			q = yb[i]
		}
		r = b.And(r, b.Eq(p, q))
	}
	return m.simp(r)
}

func (m *M) simp(t *Term) Value {
	if t.IsConst() {
		switch t.sort.K {
		case SBool:
			return t.c != 0
		}
	}
	return t
}

func (m *M) intTerm(v Value, w uint8) *Term {
	switch v := v.(type) {
	case int64:
		return m.b.BV(w, uint64(v))
	case *Term:
		if v.sort.W != w {
			panic(fmt.Sprintf("intTerm width %d want %d", v.sort.W, w))
		}
		return v
	}
	panic(unsupported{fmt.Sprintf("intTerm of %T", v)})
}

func (m *M) boolTerm(v Value) *Term {
	switch v := v.(type) {
	case bool:
		return m.b.Bool(v)
	case *Term:
		return v
	}
	panic(unsupported{fmt.Sprintf("boolTerm of %T", v)})
}

func (m *M) floatTerm(v Value, w uint8) *Term {
	switch v := v.(type) {
	case float64:
		if w == 32 {
			return m.b.F32(float32(v))
		}
		return m.b.F64(v)
	case *Term:
		return v
	}
	panic(unsupported{fmt.Sprintf("floatTerm of %T", v)})
}

func andVal(m *M, x, y Value) Value {
	if xb, ok := x.(bool); ok {
		if !xb {
			return false
		}
		return y
	}
	if yb, ok := y.(bool); ok {
		if !yb {
			return false
		}
		return x
	}
	return m.simp(m.b.And(x.(*Term), y.(*Term)))
}

func notVal(m *M, x Value) Value {
	if xb, ok := x.(bool); ok {
		return !xb
	}
	return m.simp(m.b.Not(x.(*Term)))
}

// eqVal compares two values of the same static type; the result is bool or a Bool term.
func eqVal(m *M, x, y Value) Value {
	switch x := x.(type) {
	case int64:
		if yc, ok := y.(int64); ok {
			return x == yc
		}
		yt := y.(*Term)
		return m.simp(m.b.Eq(m.b.BV(yt.sort.W, uint64(x)), yt))
	case bool:
		if yc, ok := y.(bool); ok {
			return x == yc
		}
		return m.simp(m.b.Eq(m.b.Bool(x), y.(*Term)))
	case float64:
		if yc, ok := y.(float64); ok {
			return x == yc
		}
		yt := y.(*Term)
		return m.simp(m.b.FCmp(OFEq, m.floatTerm(x, yt.sort.W), yt))
	case *Term:
		switch x.sort.K {
		case SBool:
			return m.simp(m.b.Eq(x, m.boolTerm(y)))
		case SBV:
			return m.simp(m.b.Eq(x, m.intTerm(y, x.sort.W)))
		default:
			return m.simp(m.b.FCmp(OFEq, x, m.floatTerm(y, x.sort.W)))
		}
	case string, *SymStr:
		return strEq(m, x, y)
	case *Value:
		yp, ok := y.(*Value)
		return ok && x == yp
	case *Chan:
		yp, _ := y.(*Chan)
		return x == yp
	case *Map:
		yp, _ := y.(*Map)
		return x == yp
	case *Closure:
		yp, _ := y.(*Closure)
		return x == yp
	case Slice:
		// only nil comparisons are legal
		if yb, ok := y.(Slice); ok && yb == nil {
			return x == nil
		}
		return x == nil && y == nil
	case *Blob:
		return false
	case Iface:
		yi := y.(Iface)
		if x.T != yi.T {
			return false
		}
		if x.T == nil {
			return true
		}
		if !types.Comparable(x.T) {
			panic(m.rtPanic("runtime error: comparing uncomparable type " + x.T.String()))
		}
		return eqVal(m, x.V, yi.V)
	case Struct:
		ys := y.(Struct)
		var r Value = true
		for i := range x {
			r = andVal(m, r, eqVal(m, x[i], ys[i]))
			if r == false {
				return false
			}
		}
		return r
	case Array:
		ys := y.(Array)
		return eqVal(m, Struct(x), Struct(ys))
	case nil:
		switch y := y.(type) {
		case nil:
			return true
		case Slice:
			return y == nil
		case *Map:
			return y == nil
		}
		return eqVal(m, y, x)
	}
	panic(unsupported{fmt.Sprintf("eq %T %T", x, y)})
}

// ---- printing (for messages and samples) ---------------------------------

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
