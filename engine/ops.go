package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (m *M) simpInt(t *Term, signed bool) Value {
	if t.IsConst() {
		return norm(int64(t.c), t.sort.W, signed)
	}
	return t
}

func (m *M) simpF(t *Term) Value {
	if t.IsConst() {
		return fval(t.sort, t.c)
	}
	return t
}

type binop func(fr *frame, x, y Value) Value

func binopFor(op token.Token, xt, yt types.Type) binop {
	switch op {
	case token.EQL:
		return func(fr *frame, x, y Value) Value { return eqVal(fr.m, x, y) }
	case token.NEQ:
		return func(fr *frame, x, y Value) Value { return notVal(fr.m, eqVal(fr.m, x, y)) }
	}
	if w, s, ok := intInfo(xt); ok {
		return intBinop(op, w, s, yt)
	}
	b := basicOf(xt)
	if b == nil {
		panic(unsupported{fmt.Sprintf("binop %v on %v", op, xt)})
	}
	switch {
	case b.Info()&types.IsString != 0:
		switch op {
		case token.ADD:
			return func(fr *frame, x, y Value) Value { return fr.m.concat(x, y) }
		case token.LSS:
			return func(fr *frame, x, y Value) Value { return fr.m.strLess(x, y) }
		case token.GTR:
			return func(fr *frame, x, y Value) Value { return fr.m.strLess(y, x) }
		case token.LEQ:
			return func(fr *frame, x, y Value) Value { return notVal(fr.m, fr.m.strLess(y, x)) }
		case token.GEQ:
			return func(fr *frame, x, y Value) Value { return notVal(fr.m, fr.m.strLess(x, y)) }
		}
	case b.Info()&types.IsFloat != 0:
		w := uint8(64)
		if b.Kind() == types.Float32 {
			w = 32
		}
		return floatBinop(op, w)
	case b.Info()&types.IsBoolean != 0:
		switch op {
		case token.AND:
			return func(fr *frame, x, y Value) Value { return andVal(fr.m, x, y) }
		case token.OR:
			return func(fr *frame, x, y Value) Value {
				return notVal(fr.m, andVal(fr.m, notVal(fr.m, x), notVal(fr.m, y)))
			}
		}
	}
	panic(unsupported{fmt.Sprintf("binop %v on %v", op, xt)})
}

func floatBinop(op token.Token, w uint8) binop {
	rnd := func(f float64) float64 {
		if w == 32 {
			return float64(float32(f))
		}
		return f
	}
	var top Op
	cmp := false
	switch op {
	case token.ADD:
		top = OFAdd
	case token.SUB:
		top = OFSub
	case token.MUL:
		top = OFMul
	case token.QUO:
		top = OFDiv
	default:
		cmp = true
	}
	return func(fr *frame, x, y Value) Value {
		a, ok1 := x.(float64)
		c, ok2 := y.(float64)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return rnd(a + c)
			case token.SUB:
				return rnd(a - c)
			case token.MUL:
				return rnd(a * c)
			case token.QUO:
				return rnd(a / c)
			case token.LSS:
				return a < c
			case token.LEQ:
				return a <= c
			case token.GTR:
				return a > c
			case token.GEQ:
				return a >= c
			}
		}
		xt, yt := fr.m.floatTerm(x, w), fr.m.floatTerm(y, w)
		if !cmp {
			return fr.m.simpF(fr.m.b.FBin(top, xt, yt))
		}
		switch op {
		case token.LSS:
			return fr.m.simp(fr.m.b.FCmp(OFLt, xt, yt))
		case token.LEQ:
			return fr.m.simp(fr.m.b.FCmp(OFLe, xt, yt))
		case token.GTR:
			return fr.m.simp(fr.m.b.FCmp(OFLt, yt, xt))
		case token.GEQ:
			return fr.m.simp(fr.m.b.FCmp(OFLe, yt, xt))
		}
		panic(unsupported{"float op"})
	}
}

func intBinop(op token.Token, w uint8, s bool, yt types.Type) binop {
	divz := func(fr *frame) targetPanic { return fr.m.rtPanic("runtime error: integer divide by zero") }
	conc := func(fr *frame, x, y int64) Value {
		switch op {
		case token.ADD:
			return norm(x+y, w, s)
		case token.SUB:
			return norm(x-y, w, s)
		case token.MUL:
			return norm(x*y, w, s)
		case token.QUO:
			if y == 0 {
				panic(divz(fr))
			}
			if s {
				if y == -1 {
					return norm(-x, w, s)
				}
				return norm(x/y, w, s)
			}
			return norm(int64(uint64(x)/uint64(y)), w, s)
		case token.REM:
			if y == 0 {
				panic(divz(fr))
			}
			if s {
				if y == -1 {
					return int64(0)
				}
				return norm(x%y, w, s)
			}
			return norm(int64(uint64(x)%uint64(y)), w, s)
		case token.AND:
			return x & y
		case token.OR:
			return norm(x|y, w, s)
		case token.XOR:
			return norm(x^y, w, s)
		case token.AND_NOT:
			return norm(x&^y, w, s)
		case token.LSS:
			if s {
				return x < y
			}
			return uint64(x) < uint64(y)
		case token.LEQ:
			if s {
				return x <= y
			}
			return uint64(x) <= uint64(y)
		case token.GTR:
			if s {
				return x > y
			}
			return uint64(x) > uint64(y)
		case token.GEQ:
			if s {
				return x >= y
			}
			return uint64(x) >= uint64(y)
		}
		panic(unsupported{"int op " + op.String()})
	}
	if op == token.SHL || op == token.SHR {
		yw, ys, _ := intInfo(yt)
		return func(fr *frame, x, y Value) Value {
			xc, ok1 := x.(int64)
			yc, ok2 := y.(int64)
			if ok2 && ys && yc < 0 {
				panic(fr.m.rtPanic("runtime error: negative shift amount"))
			}
			if ok1 && ok2 {
				n := uint64(yc)
				if op == token.SHL {
					if n >= 64 {
						return int64(0)
					}
					return norm(xc<<n, w, s)
				}
				if s {
					if n >= 64 {
						n = 63
					}
					return norm(xc>>n, w, s)
				}
				if n >= 64 {
					return int64(0)
				}
				return norm(int64((uint64(xc)&mask(w))>>n), w, s)
			}
			b := fr.m.b
			yT := fr.m.intTerm(y, yw)
			// saturate the shift count at the operand width
			var cnt *Term
			if yw >= w {
				cnt = b.Resize(b.Ite(b.Cmp(OUlt, yT, b.BV(yw, uint64(w))), yT, b.BV(yw, uint64(w))), w, false)
			} else {
				cnt = b.Resize(yT, w, false)
			}
			o := OShl
			if op == token.SHR {
				o = OLShr
				if s {
					o = OAShr
				}
			}
			return fr.m.simpInt(b.Bin(o, fr.m.intTerm(x, w), cnt), s)
		}
	}
	var top Op
	kind := 0 // 0 arithmetic, 1 compare
	swap := false
	switch op {
	case token.ADD:
		top = OAdd
	case token.SUB:
		top = OSub
	case token.MUL:
		top = OMul
	case token.QUO:
		top = OUDiv
		if s {
			top = OSDiv
		}
	case token.REM:
		top = OURem
		if s {
			top = OSRem
		}
	case token.AND, token.AND_NOT:
		top = OBAnd
	case token.OR:
		top = OBOr
	case token.XOR:
		top = OBXor
	case token.LSS, token.GTR:
		kind = 1
		top = OUlt
		if s {
			top = OSlt
		}
		swap = op == token.GTR
	case token.LEQ, token.GEQ:
		kind = 1
		top = OUle
		if s {
			top = OSle
		}
		swap = op == token.GEQ
	default:
		panic(unsupported{"int op " + op.String()})
	}
	return func(fr *frame, x, y Value) Value {
		xc, ok1 := x.(int64)
		yc, ok2 := y.(int64)
		if ok1 && ok2 {
			return conc(fr, xc, yc)
		}
		b := fr.m.b
		xt, yt := fr.m.intTerm(x, w), fr.m.intTerm(y, w)
		if swap {
			xt, yt = yt, xt
		}
		if kind == 1 {
			return fr.m.simp(b.Cmp(top, xt, yt))
		}
		if op == token.QUO || op == token.REM {
			if fr.m.branch(b.Eq(yt, b.BV(w, 0))) {
				panic(divz(fr))
			}
		}
		if op == token.AND_NOT {
			yt = b.BNot(yt)
		}
		return fr.m.simpInt(b.Bin(top, xt, yt), s)
	}
}

// ---- conversions ----------------------------------------------------------

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b := basicOf(s.Elem())
	return b != nil && b.Kind() == types.Uint8
}

func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b := basicOf(s.Elem())
	return b != nil && b.Kind() == types.Int32
}

func isString(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}

func floatW(t types.Type) (uint8, bool) {
	b := basicOf(t)
	if b == nil || b.Info()&types.IsFloat == 0 {
		return 0, false
	}
	if b.Kind() == types.Float32 {
		return 32, true
	}
	return 64, true
}

func convFor(from, to types.Type) func(fr *frame, x Value) Value {
	_, fs, fi := intInfo(from)
	tw, ts, ti := intInfo(to)
	ff, fIsF := floatW(from)
	tf, tIsF := floatW(to)
	_ = ff
	switch {
	case fi && ti:
		return func(fr *frame, x Value) Value {
			switch v := x.(type) {
			case int64:
				return norm(v, tw, ts)
			case *Term:
				return fr.m.simpInt(fr.m.b.Resize(v, tw, fs), ts)
			}
			// uintptr(unsafe.Pointer)
			panic(unsupported{fmt.Sprintf("int conversion of %T", x)})
		}
	case fi && tIsF:
		return func(fr *frame, x Value) Value {
			switch v := x.(type) {
			case int64:
				var f float64
				if fs {
					f = float64(v)
				} else {
					f = float64(uint64(v))
				}
				if tf == 32 {
					return float64(float32(f))
				}
				return f
			case *Term:
				return fr.m.simpF(fr.m.b.FFromInt(v, fs, tf))
			}
			panic(unsupported{"int to float"})
		}
	case fIsF && ti:
		return func(fr *frame, x Value) Value {
			switch v := x.(type) {
			case float64:
				return norm(int64(evalFTo(v, ts, 64)), tw, ts)
			case *Term:
				return fr.m.simpInt(fr.m.b.FToInt(v, ts, tw), ts)
			}
			panic(unsupported{"float to int"})
		}
	case fIsF && tIsF:
		return func(fr *frame, x Value) Value {
			switch v := x.(type) {
			case float64:
				if tf == 32 {
					return float64(float32(v))
				}
				return v
			case *Term:
				return fr.m.simpF(fr.m.b.FToF(v, tf))
			}
			panic(unsupported{"float conv"})
		}
	case isString(from) && isByteSlice(to):
		return func(fr *frame, x Value) Value { return fr.m.strToBytes(fr, x) }
	case isByteSlice(from) && isString(to):
		return func(fr *frame, x Value) Value { return fr.m.bytesToStr(x) }
	case isString(from) && isRuneSlice(to):
		return func(fr *frame, x Value) Value {
			s, ok := x.(string)
			if !ok {
				bs := fr.m.fixLen(x)
				r := make(Slice, len(bs))
				for i, c := range bs {
					r[i] = fr.m.asciiRune(c)
				}
				return r
			}
			r := Slice{}
			for _, c := range s {
				r = append(r, int64(c))
			}
			return r
		}
	case isRuneSlice(from) && isString(to):
		return func(fr *frame, x Value) Value {
			var b []byte
			for _, c := range x.(Slice) {
				ci, ok := c.(int64)
				if !ok {
					return fr.m.runesToStr(x.(Slice))
				}
				b = utf8.AppendRune(b, rune(ci))
			}
			return string(b)
		}
	case fi && isString(to):
		return func(fr *frame, x Value) Value {
			return string(rune(fr.m.concretize(x)))
		}
	}
	// pointers, unsafe.Pointer, same underlying types
	ub, tb := basicOf(from), basicOf(to)
	if ub != nil && ub.Kind() == types.UnsafePointer || tb != nil && tb.Kind() == types.UnsafePointer {
		return func(fr *frame, x Value) Value {
			if _, ok := x.(*Value); ok {
				return x
			}
			panic(unsupported{fmt.Sprintf("unsafe conversion of %T from %v to %v", x, from, to)})
		}
	}
	return func(fr *frame, x Value) Value { return x }
}

// ---- strings ---------------------------------------------------------------

func (m *M) strToBytes(fr *frame, x Value) Value {
	switch s := x.(type) {
	case string:
		r := make(Slice, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = int64(s[i])
		}
		return r
	case *SymStr:
		n := int(m.concretize(m.simpInt(s.N, true)))
		r := make(Slice, n)
		for i := range r {
			r[i] = m.simpInt(s.B[i], false)
		}
		return r
	}
	panic(unsupported{fmt.Sprintf("bytes of %T", x)})
}

// asciiRune reads a byte as the rune it encodes; only ASCII is modelled.
func (m *M) asciiRune(c Value) Value {
	t := m.intTerm(c, 8)
	if !m.branch(m.b.Cmp(OUlt, t, m.b.BV(8, 0x80))) {
		panic(unsupported{"non-ASCII symbolic string"})
	}
	return m.simpInt(m.b.Resize(t, 32, false), true)
}

// runesToStr writes ASCII runes back as bytes.
func (m *M) runesToStr(rs Slice) Value {
	out := make([]Value, len(rs))
	for i, c := range rs {
		t := m.intTerm(c, 32)
		if !m.branch(m.b.Cmp(OUlt, t, m.b.BV(32, 0x80))) {
			panic(unsupported{"non-ASCII symbolic rune"})
		}
		out[i] = m.simpInt(m.b.Resize(t, 8, false), false)
	}
	return m.mkStr(out)
}

func (m *M) bytesToStr(x Value) Value {
	switch s := x.(type) {
	case Slice:
		conc := true
		for _, c := range s {
			if _, ok := c.(int64); !ok {
				conc = false
			}
		}
		if conc {
			b := make([]byte, len(s))
			for i, c := range s {
				b[i] = byte(c.(int64))
			}
			return string(b)
		}
		r := &SymStr{N: m.b.BV(64, uint64(len(s)))}
		for _, c := range s {
			r.B = append(r.B, m.intTerm(c, 8))
		}
		return r
	case *Blob:
		return "<blob>"
	}
	panic(unsupported{fmt.Sprintf("string of %T", x)})
}

// strLen returns the length as int64 or term.
func (m *M) strLen(x Value) Value {
	switch s := x.(type) {
	case string:
		return int64(len(s))
	case *SymStr:
		return m.simpInt(s.N, true)
	}
	panic(unsupported{fmt.Sprintf("len of %T", x)})
}

// fixLen forks until the string has a concrete length and returns its bytes.
func (m *M) fixLen(x Value) []Value {
	switch s := x.(type) {
	case string:
		r := make([]Value, len(s))
		for i := range r {
			r[i] = int64(s[i])
		}
		return r
	case *SymStr:
		n := int(m.concretize(m.simpInt(s.N, true)))
		r := make([]Value, n)
		for i := range r {
			r[i] = m.simpInt(s.B[i], false)
		}
		return r
	}
	panic(unsupported{fmt.Sprintf("string %T", x)})
}

func (m *M) mkStr(bs []Value) Value { return m.bytesToStr(Slice(bs)) }

func (m *M) concat(x, y Value) Value {
	xs, ok1 := x.(string)
	ys, ok2 := y.(string)
	if ok1 && ok2 {
		return xs + ys
	}
	if ok1 && xs == "" {
		return y
	}
	if ok2 && ys == "" {
		return x
	}
	a := m.fixLen(x)
	b := m.b
	yb, yn := strParts(m, y)
	r := &SymStr{N: b.Bin(OAdd, yn, b.BV(64, uint64(len(a))))}
	for _, c := range a {
		r.B = append(r.B, m.intTerm(c, 8))
	}
	r.B = append(r.B, yb...)
	return m.simpStr(r)
}

func (m *M) simpStr(s *SymStr) Value {
	if !s.N.IsConst() {
		return s
	}
	n := int(s.N.c)
	for i := 0; i < n; i++ {
		if !s.B[i].IsConst() {
			if len(s.B) > n {
				return &SymStr{B: s.B[:n], N: s.N}
			}
			return s
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(s.B[i].c)
	}
	return string(b)
}

func (m *M) strLess(x, y Value) Value {
	xs, ok1 := x.(string)
	ys, ok2 := y.(string)
	if ok1 && ok2 {
		return xs < ys
	}
	a, c := m.fixLen(x), m.fixLen(y)
	b := m.b
	// lexicographic from the end
	r := b.Bool(len(a) < len(c))
	for i := min(len(a), len(c)) - 1; i >= 0; i-- {
		p, q := m.intTerm(a[i], 8), m.intTerm(c[i], 8)
		r = b.Or(b.Cmp(OUlt, p, q), b.And(b.Eq(p, q), r))
	}
	return m.simp(r)
}

func (fr *frame) strIndex(x, i Value) Value {
	m := fr.m
	switch s := x.(type) {
	case string:
		return int64(s[fr.index(i, len(s))])
	case *SymStr:
		b := m.b
		it := m.intTerm(i, 64)
		if !m.branch(b.Cmp(OUlt, it, s.N)) {
			panic(m.rtPanic("runtime error: index out of range in string"))
		}
		k := int(m.concretize(i))
		return m.simpInt(s.B[k], false)
	}
	panic(unsupported{fmt.Sprintf("index of %T", x)})
}

func (fr *frame) strSlice(x, lo, hi Value) Value {
	m := fr.m
	if s, ok := x.(string); ok {
		l, h := 0, len(s)
		if lo != nil {
			l = fr.conInt(lo)
		}
		if hi != nil {
			h = fr.conInt(hi)
		}
		if l < 0 || h < l || h > len(s) {
			panic(m.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", l, h, len(s))))
		}
		return s[l:h]
	}
	s := x.(*SymStr)
	if lo == nil && hi == nil {
		return x
	}
	b := m.b
	l := 0
	if lo != nil {
		l = fr.conInt(lo)
	}
	if hi == nil {
		if l < 0 || !m.branch(b.Cmp(OUle, b.BV(64, uint64(l)), s.N)) {
			panic(m.rtPanic("runtime error: slice bounds out of range"))
		}
		if l > len(s.B) {
			return ""
		}
		return m.simpStr(&SymStr{B: s.B[l:], N: b.Bin(OSub, s.N, b.BV(64, uint64(l)))})
	}
	h := fr.conInt(hi)
	if l < 0 || h < l || !m.branch(b.Cmp(OUle, b.BV(64, uint64(h)), s.N)) {
		panic(m.rtPanic("runtime error: slice bounds out of range"))
	}
	return m.simpStr(&SymStr{B: s.B[l:h], N: b.BV(64, uint64(h-l))})
}

// hasPrefixAt: s[off:off+len(p)] == p as one formula; p has fixed length bytes.
func (m *M) matchAt(sb []*Term, sn *Term, off int, p []Value) *Term {
	b := m.b
	r := b.Cmp(OUle, b.BV(64, uint64(off+len(p))), sn)
	for i, c := range p {
		if off+i >= len(sb) {
			return b.False
		}
		r = b.And(r, b.Eq(sb[off+i], m.intTerm(c, 8)))
	}
	return r
}

func (m *M) hasPrefix(s, p Value) Value {
	ss, ok1 := s.(string)
	ps, ok2 := p.(string)
	if ok1 && ok2 {
		return len(ss) >= len(ps) && ss[:len(ps)] == ps
	}
	if ok2 {
		sb, sn := strParts(m, s)
		return m.simp(m.matchAt(sb, sn, 0, m.fixLen(ps)))
	}
	// symbolic prefix: one formula over all positions
	b := m.b
	sb, sn := strParts(m, s)
	pb, pn := strParts(m, p)
	r := b.Cmp(OUle, pn, sn)
	for i := range pb {
		var c *Term
		if i < len(sb) {
			c = b.Eq(sb[i], pb[i])
		} else {
			c = b.False
		}
		r = b.And(r, b.Or(b.Cmp(OUle, pn, b.BV(64, uint64(i))), c))
	}
	return m.simp(r)
}

func (m *M) hasSuffix(s, p Value) Value {
	pb := m.fixLen(p)
	sv := m.fixLen(s)
	if len(pb) > len(sv) {
		return false
	}
	return strEq(m, m.mkStr(sv[len(sv)-len(pb):]), m.mkStr(pb))
}

// contains as one formula (no fork) when the needle has fixed length.
func (m *M) contains(s, p Value) Value {
	pb := m.fixLen(p)
	sb, sn := strParts(m, s)
	r := m.b.False
	for i := 0; i+len(pb) <= len(sb); i++ {
		r = m.b.Or(r, m.matchAt(sb, sn, i, pb))
	}
	if len(pb) == 0 {
		return true
	}
	return m.simp(r)
}

// indexOf forks on the position of the first (last) occurrence, -1 if none.
func (m *M) indexOf(s, p Value, last bool) int {
	pb := m.fixLen(p)
	sb, sn := strParts(m, s)
	if len(pb) == 0 {
		if last {
			return len(m.fixLen(s))
		}
		return 0
	}
	n := len(sb) - len(pb)
	for k := 0; k <= n; k++ {
		i := k
		if last {
			i = n - k
		}
		if m.truth(m.simp(m.matchAt(sb, sn, i, pb))) {
			return i
		}
	}
	return -1
}

// ---- builtins -----------------------------------------------------------------

func callBuiltin(fr *frame, bi *ssa.Builtin, args []Value, at []types.Type, rt types.Type) Value {
	m := fr.m
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return m.strLen(x)
		case Slice:
			return int64(len(x))
		case Array:
			return int64(len(x))
		case *Value:
			if x == nil {
				return int64(at[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			}
			return int64(len((*x).(Array)))
		case *Map:
			if s := m.sched; s.race && s.raceMapOn(fr, x) {
				s.raceMap(fr, x, false)
			}
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		case *Blob:
			return int64(1)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x))
		case Array:
			return int64(len(x))
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		}
	case "append":
		if args[1] == nil {
			return args[0]
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case string, *SymStr:
			add = m.fixLen(y)
		case *Blob:
			if s, ok := args[0].(Slice); ok && len(s) == 0 {
				return y
			}
			panic(unsupported{"append of a blob"})
		default:
			panic(unsupported{fmt.Sprintf("append %T", y)})
		}
		s, ok := args[0].(Slice)
		if !ok {
			panic(unsupported{fmt.Sprintf("append to %T", args[0])})
		}
		if len(add) == 0 {
			return s
		}
		if s2 := m.sched; s2.race && s2.raceOn(fr) {
			if len(s)+len(add) > cap(s) {
				for i := range s {
					s2.raceCell(fr, &s[i], false)
				}
			}
			if y, ok := args[1].(Slice); ok {
				for i := range y {
					s2.raceCell(fr, &y[i], false)
				}
			}
		}
		n := len(s)
		if n+len(add) <= cap(s) {
			r := s[:n+len(add)]
			for i, v := range add {
				fr.store(&r[n+i], copyVal(v))
			}
			return r
		}
		nc := max(2*cap(s), n+len(add))
		if n == 0 {
			nc = len(add)
		}
		r := make(Slice, n+len(add), nc)
		for i := range s {
			r[i] = copyVal(s[i])
		}
		for i, v := range add {
			r[n+i] = copyVal(v)
		}
		// spare capacity must hold zero values
		if len(add) > 0 {
			full := r[:nc]
			et := at[0].Underlying().(*types.Slice).Elem()
			for i := n + len(add); i < nc; i++ {
				full[i] = zero(et)
			}
		}
		return r
	case "copy":
		dst, ok := args[0].(Slice)
		if !ok {
			panic(unsupported{"copy"})
		}
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		default:
			src = m.fixLen(y)
		}
		n := min(len(dst), len(src))
		if y, ok := args[1].(Slice); ok && m.sched.race && m.sched.raceOn(fr) {
			for i := 0; i < n; i++ {
				m.sched.raceCell(fr, &y[i], false)
			}
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			fr.store(&dst[i], tmp[i])
		}
		return int64(n)
	case "delete":
		mp := args[0].(*Map)
		if s := m.sched; s.race && s.raceMapOn(fr, mp) {
			s.raceMap(fr, mp, true)
		}
		mp.del(fr, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				if s := m.sched; s.race && s.raceMapOn(fr, x) {
					s.raceMap(fr, x, true)
				}
				x.clear()
			}
		case Slice:
			et := at[0].Underlying().(*types.Slice).Elem()
			for i := range x {
				fr.store(&x[i], zero(et))
			}
		}
		return nil
	case "close":
		c := args[0].(*Chan)
		if fr.visible() {
			m.sched.point(fr.g)
		}
		m.sched.closeChan(fr.g, c)
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "print", "println":
		return nil
	case "recover":
		if c := fr.caller; c != nil && c.panicking {
			if tp, ok := c.pval.(targetPanic); ok {
				c.panicking = false
				c.pval = nil
				if i, ok := tp.v.(Iface); ok {
					return i
				}
				return Iface{T: canon(types.Typ[types.String]), V: fmt.Sprint(tp.v)}
			}
		}
		return Iface{}
	case "min", "max":
		r := args[0]
		f := binopFor(token.LSS, at[0], at[0])
		for _, y := range args[1:] {
			c := f(fr, y, r)
			if bi.Name() == "max" {
				c = f(fr, r, y)
			}
			if m.truth(c) {
				r = y
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			panic(m.rtPanic(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2])))
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "Add", "Slice", "String", "StringData", "SliceData":
		return unsafeBuiltin(fr, bi.Name(), args)
	case "real", "imag", "complex":
		panic(unsupported{"complex"})
	}
	panic(unsupported{fmt.Sprintf("builtin %s(%T)", bi.Name(), args[0])})
}

// strData stands for unsafe.StringData / SliceData pointers.
type strData struct{ v Value }

func unsafeBuiltin(fr *frame, name string, args []Value) Value {
	switch name {
	case "StringData", "SliceData":
		var c Value = strData{args[0]}
		return &c
	case "String", "Slice":
		if p, ok := args[0].(*Value); ok && p != nil {
			if d, ok := (*p).(strData); ok {
				switch v := d.v.(type) {
				case Slice:
					n := fr.conInt(args[1])
					if name == "String" {
						return fr.m.bytesToStr(v[:n])
					}
					return v[:n]
				case string, *SymStr:
					if name == "String" {
						return v
					}
					return fr.m.strToBytes(fr, v)
				}
			}
		}
		if p, ok := args[0].(*Value); ok && p == nil {
			if name == "String" {
				return ""
			}
			return Slice(nil)
		}
	}
	panic(unsupported{"unsafe." + name})
}

var _ = math.MaxInt
