package main

import (
	"go/token"
	"go/types"
	"net/url"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
)

func isConc(vs ...Value) bool {
	for _, v := range vs {
		switch v := v.(type) {
		case *SymStr, *Term:
			return false
		case Slice:
			for _, x := range v {
				if !isConc(x) {
					return false
				}
			}
		}
	}
	return true
}

func strSliceV(ss []string) Value {
	r := make(Slice, len(ss))
	for i, s := range ss {
		r[i] = s
	}
	return r
}

// lowerTerm maps an ASCII byte to lower case.
func (m *M) mapCase(t *Term, lower bool) *Term {
	b := m.b
	lo, hi := byte('A'), byte('Z')
	if !lower {
		lo, hi = 'a', 'z'
	}
	in := b.And(b.Cmp(OUle, b.BV(8, uint64(lo)), t), b.Cmp(OUle, t, b.BV(8, uint64(hi))))
	d := uint64(32)
	if !lower {
		d = 0x100 - 32
	}
	return b.Ite(in, b.Bin(OAdd, t, b.BV(8, d)), t)
}

func (m *M) mapCaseStr(v Value, lower bool) Value {
	switch v := v.(type) {
	case string:
		if lower {
			return strings.ToLower(v)
		}
		return strings.ToUpper(v)
	case *SymStr:
		r := &SymStr{N: v.N}
		for _, c := range v.B {
			r.B = append(r.B, m.mapCase(c, lower))
		}
		return r
	}
	panic(unsupported{"ToLower"})
}

// splitSym splits at a separator of fixed text; n as in SplitN.
func (m *M) splitSym(s Value, sep string, n int) Slice {
	r := Slice{}
	cur := s
	for n < 0 || len(r) < n-1 {
		i := m.indexOf(cur, sep, false)
		if i < 0 {
			break
		}
		bs := m.fixLen(cur)
		r = append(r, m.mkStr(bs[:i]))
		cur = m.mkStr(bs[i+len(sep):])
	}
	return append(r, cur)
}

func (m *M) isSpace(c Value) bool {
	switch c := c.(type) {
	case int64:
		return unicode.IsSpace(rune(c))
	case *Term:
		return m.branch(classTerm(m.b, c, " \t\n\r\v\f"))
	}
	return false
}

func init() {
	regS := func(name string, f intrinsic) { reg("strings."+name, f) }
	regS("HasPrefix", func(fr *frame, a []Value) Value { return fr.m.hasPrefix(a[0], a[1]) })
	regS("HasSuffix", func(fr *frame, a []Value) Value { return fr.m.hasSuffix(a[0], a[1]) })
	regS("Contains", func(fr *frame, a []Value) Value {
		if isConc(a...) {
			return strings.Contains(a[0].(string), a[1].(string))
		}
		return fr.m.contains(a[0], a[1])
	})
	idx := func(last bool) intrinsic {
		return func(fr *frame, a []Value) Value {
			if isConc(a...) {
				if last {
					return int64(strings.LastIndex(a[0].(string), a[1].(string)))
				}
				return int64(strings.Index(a[0].(string), a[1].(string)))
			}
			return int64(fr.m.indexOf(a[0], a[1], last))
		}
	}
	regS("Index", idx(false))
	regS("LastIndex", idx(true))
	idxB := func(last bool) intrinsic {
		return func(fr *frame, a []Value) Value {
			var sub Value
			switch c := a[1].(type) {
			case int64:
				sub = string([]byte{byte(c)})
			case *Term:
				sub = &SymStr{B: []*Term{fr.m.b.Resize(c, 8, false)}, N: fr.m.b.BV(64, 1)}
			}
			return idx(last)(fr, []Value{a[0], sub})
		}
	}
	regS("IndexByte", idxB(false))
	regS("LastIndexByte", idxB(true))
	regS("IndexRune", func(fr *frame, a []Value) Value {
		r := fr.conInt(a[1])
		return idx(false)(fr, []Value{a[0], string(rune(r))})
	})
	reg("internal/bytealg.IndexByteString", idxB(false))
	reg("internal/bytealg.LastIndexByteString", idxB(true))
	reg("internal/bytealg.IndexString", idx(false))
	reg("internal/bytealg.IndexByte", func(fr *frame, a []Value) Value {
		return idxB(false)(fr, []Value{fr.m.bytesToStr(a[0]), a[1]})
	})
	reg("internal/bytealg.CountString", func(fr *frame, a []Value) Value {
		n := int64(0)
		for _, c := range fr.m.fixLen(a[0]) {
			if fr.m.truth(eqVal(fr.m, c, a[1])) {
				n++
			}
		}
		return n
	})
	reg("internal/bytealg.MakeNoZero", func(fr *frame, a []Value) Value {
		s := make(Slice, fr.conInt(a[0]))
		for i := range s {
			s[i] = int64(0)
		}
		return s
	})
	reg("internal/bytealg.Equal", func(fr *frame, a []Value) Value {
		return strEq(fr.m, fr.m.bytesToStr(a[0]), fr.m.bytesToStr(a[1]))
	})
	reg("internal/bytealg.Compare", func(fr *frame, a []Value) Value {
		x, y := fr.m.bytesToStr(a[0]), fr.m.bytesToStr(a[1])
		if fr.m.truth(fr.m.strLess(x, y)) {
			return int64(-1)
		}
		if fr.m.truth(strEq(fr.m, x, y)) {
			return int64(0)
		}
		return int64(1)
	})
	regS("Compare", func(fr *frame, a []Value) Value {
		if fr.m.truth(fr.m.strLess(a[0], a[1])) {
			return int64(-1)
		}
		if fr.m.truth(strEq(fr.m, a[0], a[1])) {
			return int64(0)
		}
		return int64(1)
	})
	regS("ToLower", func(fr *frame, a []Value) Value { return fr.m.mapCaseStr(a[0], true) })
	regS("ToUpper", func(fr *frame, a []Value) Value { return fr.m.mapCaseStr(a[0], false) })
	regS("EqualFold", func(fr *frame, a []Value) Value {
		return strEq(fr.m, fr.m.mapCaseStr(a[0], true), fr.m.mapCaseStr(a[1], true))
	})
	regS("TrimPrefix", func(fr *frame, a []Value) Value {
		if fr.m.truth(fr.m.hasPrefix(a[0], a[1])) {
			return fr.strSlice(a[0], fr.m.strLen(a[1]), nil)
		}
		return a[0]
	})
	regS("CutPrefix", func(fr *frame, a []Value) Value {
		if fr.m.truth(fr.m.hasPrefix(a[0], a[1])) {
			return Tuple{fr.strSlice(a[0], fr.m.strLen(a[1]), nil), true}
		}
		return Tuple{a[0], false}
	})
	trimSuffix := func(fr *frame, a []Value) (Value, bool) {
		if fr.m.truth(fr.m.hasSuffix(a[0], a[1])) {
			bs := fr.m.fixLen(a[0])
			n := len(fr.m.fixLen(a[1]))
			return fr.m.mkStr(bs[:len(bs)-n]), true
		}
		return a[0], false
	}
	regS("TrimSuffix", func(fr *frame, a []Value) Value { v, _ := trimSuffix(fr, a); return v })
	regS("CutSuffix", func(fr *frame, a []Value) Value { v, ok := trimSuffix(fr, a); return Tuple{v, ok} })
	regS("Cut", func(fr *frame, a []Value) Value {
		i := fr.m.indexOf(a[0], a[1], false)
		if i < 0 {
			return Tuple{a[0], "", false}
		}
		bs := fr.m.fixLen(a[0])
		n := len(fr.m.fixLen(a[1]))
		return Tuple{fr.m.mkStr(bs[:i]), fr.m.mkStr(bs[i+n:]), true}
	})
	split := func(fr *frame, s, sep Value, n int) Value {
		if isConc(s, sep) {
			return strSliceV(strings.SplitN(s.(string), sep.(string), n))
		}
		sp, ok := sep.(string)
		if !ok || sp == "" || n == 0 {
			panic(unsupported{"strings.Split"})
		}
		return fr.m.splitSym(s, sp, n)
	}
	regS("Split", func(fr *frame, a []Value) Value { return split(fr, a[0], a[1], -1) })
	regS("SplitN", func(fr *frame, a []Value) Value { return split(fr, a[0], a[1], fr.conInt(a[2])) })
	regS("Join", func(fr *frame, a []Value) Value {
		var r Value = ""
		for i, x := range a[0].(Slice) {
			if i > 0 {
				r = fr.m.concat(r, a[1])
			}
			r = fr.m.concat(r, x)
		}
		return r
	})
	regS("Repeat", func(fr *frame, a []Value) Value {
		var r Value = ""
		for i := fr.conInt(a[1]); i > 0; i-- {
			r = fr.m.concat(r, a[0])
		}
		return r
	})
	trim := func(left, right bool) intrinsic {
		return func(fr *frame, a []Value) Value {
			bs := fr.m.fixLen(a[0])
			for left && len(bs) > 0 && fr.m.isSpace(bs[0]) {
				bs = bs[1:]
			}
			for right && len(bs) > 0 && fr.m.isSpace(bs[len(bs)-1]) {
				bs = bs[:len(bs)-1]
			}
			return fr.m.mkStr(bs)
		}
	}
	regS("TrimSpace", trim(true, true))
	trimSet := func(left, right bool) intrinsic {
		return func(fr *frame, a []Value) Value {
			cut, ok := a[1].(string)
			if !ok {
				panic(unsupported{"symbolic cutset"})
			}
			in := func(c Value) bool {
				switch c := c.(type) {
				case int64:
					return strings.IndexByte(cut, byte(c)) >= 0
				case *Term:
					r := fr.m.b.False
					for i := 0; i < len(cut); i++ {
						r = fr.m.b.Or(r, fr.m.b.Eq(c, fr.m.b.BV(8, uint64(cut[i]))))
					}
					return fr.m.branch(r)
				}
				return false
			}
			bs := fr.m.fixLen(a[0])
			for left && len(bs) > 0 && in(bs[0]) {
				bs = bs[1:]
			}
			for right && len(bs) > 0 && in(bs[len(bs)-1]) {
				bs = bs[:len(bs)-1]
			}
			return fr.m.mkStr(bs)
		}
	}
	regS("Trim", trimSet(true, true))
	regS("TrimLeft", trimSet(true, false))
	regS("TrimRight", trimSet(false, true))
	regS("Fields", func(fr *frame, a []Value) Value {
		if !isConc(a...) {
			r, cur := Slice{}, []Value(nil)
			for _, c := range fr.m.fixLen(a[0]) {
				if !fr.m.isSpace(c) {
					cur = append(cur, c)
				} else if len(cur) > 0 {
					r, cur = append(r, fr.m.mkStr(cur)), nil
				}
			}
			if len(cur) > 0 {
				r = append(r, fr.m.mkStr(cur))
			}
			return r
		}
		return strSliceV(strings.Fields(a[0].(string)))
	})
	replace := func(fr *frame, s, old, nw Value, n int) Value {
		if isConc(s, old, nw) {
			return strings.Replace(s.(string), old.(string), nw.(string), n)
		}
		o, ok := old.(string)
		if !ok || o == "" {
			panic(unsupported{"strings.Replace"})
		}
		k := -1
		if n >= 0 {
			k = n + 1
		}
		parts := fr.m.splitSym(s, o, k)
		var r Value = ""
		for i, p := range parts {
			if i > 0 {
				r = fr.m.concat(r, nw)
			}
			r = fr.m.concat(r, p)
		}
		return r
	}
	regS("Replace", func(fr *frame, a []Value) Value { return replace(fr, a[0], a[1], a[2], fr.conInt(a[3])) })
	regS("ReplaceAll", func(fr *frame, a []Value) Value { return replace(fr, a[0], a[1], a[2], -1) })
	regS("Count", func(fr *frame, a []Value) Value {
		if isConc(a...) {
			return int64(strings.Count(a[0].(string), a[1].(string)))
		}
		sp, ok := a[1].(string)
		if !ok || sp == "" {
			panic(unsupported{"strings.Count"})
		}
		return int64(len(fr.m.splitSym(a[0], sp, -1)) - 1)
	})
	regS("ContainsAny", func(fr *frame, a []Value) Value {
		if isConc(a...) {
			return strings.ContainsAny(a[0].(string), a[1].(string))
		}
		r := Value(false)
		cs, ok := a[1].(string)
		if !ok {
			panic(unsupported{"ContainsAny"})
		}
		for i := range cs {
			r = notVal(fr.m, andVal(fr.m, notVal(fr.m, r), notVal(fr.m, fr.m.contains(a[0], cs[i:i+1]))))
		}
		return r
	})
	ident := func(fr *frame, a []Value) Value { return a[0] }
	reg("internal/abi.NoEscape", ident)
	reg("strings.noescape", ident)
	reg("internal/abi.Escape", ident)
	reg("strings.Clone", ident)
	reg("internal/stringslite.Clone", ident)
	reg("internal/stringslite.HasPrefix", intrinsics["strings.HasPrefix"])
	reg("internal/stringslite.HasSuffix", intrinsics["strings.HasSuffix"])
	reg("internal/stringslite.Index", idx(false))
	reg("internal/stringslite.IndexByte", idxB(false))

	// strings.Builder keeps its text as bytes
	sb := func(fr *frame, v Value) *Value {
		p := ptr(v)
		if p == nil {
			panic(fr.nilDeref())
		}
		return p
	}
	type sbState struct{ v Value }
	st := func(fr *frame, v Value) *sbState {
		return sideGet(fr.m, sb(fr, v), func() *sbState { return &sbState{""} })
	}
	reg("(*strings.Builder).WriteString", func(fr *frame, a []Value) Value {
		s := st(fr, a[0])
		s.v = fr.m.concat(s.v, a[1])
		return Tuple{fr.m.strLen(a[1]), Iface{}}
	})
	reg("(*strings.Builder).Write", func(fr *frame, a []Value) Value {
		s := st(fr, a[0])
		x := fr.m.bytesToStr(a[1])
		s.v = fr.m.concat(s.v, x)
		return Tuple{fr.m.strLen(x), Iface{}}
	})
	reg("(*strings.Builder).WriteByte", func(fr *frame, a []Value) Value {
		s := st(fr, a[0])
		s.v = fr.m.concat(s.v, fr.m.mkStr([]Value{a[1]}))
		return Iface{}
	})
	reg("(*strings.Builder).WriteRune", func(fr *frame, a []Value) Value {
		s := st(fr, a[0])
		if c, ok := a[1].(*Term); ok {
			s.v = fr.m.concat(s.v, fr.m.mkStr([]Value{fr.m.simpInt(fr.m.b.Resize(c, 8, false), false)}))
			return Tuple{int64(1), Iface{}}
		}
		x := string(rune(a[1].(int64)))
		s.v = fr.m.concat(s.v, x)
		return Tuple{int64(len(x)), Iface{}}
	})
	reg("(*strings.Builder).String", func(fr *frame, a []Value) Value { return st(fr, a[0]).v })
	reg("(*strings.Builder).Len", func(fr *frame, a []Value) Value { return fr.m.strLen(st(fr, a[0]).v) })
	reg("(*strings.Builder).Grow", func(fr *frame, a []Value) Value { return nil })
	reg("(*strings.Builder).Reset", func(fr *frame, a []Value) Value { st(fr, a[0]).v = ""; return nil })

	// sort
	lessSort := func(fr *frame, s Slice, less func(i, j Value) bool) {
		// stable insertion sort on values
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && less(s[j], s[j-1]); j-- {
				t := fr.load(&s[j])
				fr.store(&s[j], fr.load(&s[j-1]))
				fr.store(&s[j-1], t)
			}
		}
	}
	reg("sort.Strings", func(fr *frame, a []Value) Value {
		lessSort(fr, a[0].(Slice), func(x, y Value) bool { return fr.m.truth(fr.m.strLess(x, y)) })
		return nil
	})
	reg("sort.Ints", func(fr *frame, a []Value) Value {
		f := binopFor(token.LSS, types.Typ[types.Int], types.Typ[types.Int])
		lessSort(fr, a[0].(Slice), func(x, y Value) bool { return fr.m.truth(f(fr, x, y)) })
		return nil
	})
	sl := func(fr *frame, a []Value) Value {
		i := a[0].(Iface)
		s, ok := i.V.(Slice)
		if !ok {
			panic(unsupported{"sort.Slice"})
		}
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && fr.m.truth(fr.callValue(a[1], []Value{int64(j), int64(j - 1)})); j-- {
				t := fr.load(&s[j])
				fr.store(&s[j], fr.load(&s[j-1]))
				fr.store(&s[j-1], t)
			}
		}
		return nil
	}
	reg("sort.Slice", sl)
	reg("sort.SliceStable", sl)

	// errors
	reg("errors.New", func(fr *frame, a []Value) Value {
		var cell Value = Struct{a[0]}
		return Iface{fr.m.w.eng.errStringPtr, &cell}
	})
	var errIs func(fr *frame, e, t Iface) bool
	errIs = func(fr *frame, e, t Iface) bool {
		for e.T != nil {
			if e.T == t.T && types.Comparable(e.T) && fr.m.truth(eqVal(fr.m, e.V, t.V)) {
				return true
			}
			if f := fr.m.findMethod(e.T, nil, "Is"); f != nil && f.Signature.Params().Len() == 1 {
				if fr.m.truth(fr.m.call(fr.g, fr, f, []Value{e.V, t}, nil)) {
					return true
				}
			}
			f := fr.m.findMethod(e.T, nil, "Unwrap")
			if f == nil {
				return false
			}
			r := fr.m.call(fr.g, fr, f, []Value{e.V}, nil)
			if s, ok := r.(Slice); ok {
				for _, x := range s {
					if errIs(fr, x.(Iface), t) {
						return true
					}
				}
				return false
			}
			e = r.(Iface)
		}
		return false
	}
	reg("errors.Is", func(fr *frame, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		if e.T == nil || t.T == nil {
			return e.T == t.T
		}
		return errIs(fr, e, t)
	})
	reg("errors.As", func(fr *frame, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		if t.T == nil {
			panic(fr.m.rtPanic("errors: target cannot be nil"))
		}
		pt, ok := t.T.(*types.Pointer)
		if !ok {
			panic(fr.m.rtPanic("errors: target must be a non-nil pointer"))
		}
		tt := canon(pt.Elem())
		it, isI := tt.Underlying().(*types.Interface)
		for e.T != nil {
			if isI {
				if fr.m.w.eng.implements(e.T, it) {
					storeCell(ptr(t.V), e)
					return true
				}
			} else if e.T == tt {
				storeCell(ptr(t.V), e.V)
				return true
			}
			if f := fr.m.findMethod(e.T, nil, "As"); f != nil && f.Signature.Params().Len() == 1 {
				if fr.m.truth(fr.m.call(fr.g, fr, f, []Value{e.V, t}, nil)) {
					return true
				}
			}
			f := fr.m.findMethod(e.T, nil, "Unwrap")
			if f == nil {
				return false
			}
			r, ok := fr.m.call(fr.g, fr, f, []Value{e.V}, nil).(Iface)
			if !ok {
				return false
			}
			e = r
		}
		return false
	})

	// regexp
	reg("regexp.Compile", func(fr *frame, a []Value) Value {
		p := fr.m.concretizeStr(a[0])
		re, err := fr.m.compileRE(p)
		if err != nil {
			return Tuple{(*Value)(nil), fr.m.mkError(err.Error())}
		}
		return Tuple{re, Iface{}}
	})
	reg("regexp.MustCompile", func(fr *frame, a []Value) Value {
		p := fr.m.concretizeStr(a[0])
		re, err := fr.m.compileRE(p)
		if err != nil {
			panic(targetPanic{Iface{canon(types.Typ[types.String]), err.Error()}})
		}
		return re
	})
	reg("(*regexp.Regexp).MatchString", func(fr *frame, a []Value) Value {
		return fr.m.reMatch(fr, ptr(a[0]), a[1])
	})
	reg("(*regexp.Regexp).Match", func(fr *frame, a []Value) Value {
		return fr.m.reMatch(fr, ptr(a[0]), fr.m.bytesToStr(a[1]))
	})
	reg("regexp.MatchString", func(fr *frame, a []Value) Value {
		p := fr.m.concretizeStr(a[0])
		re, err := fr.m.compileRE(p)
		if err != nil {
			return Tuple{false, fr.m.mkError(err.Error())}
		}
		return Tuple{fr.m.reMatch(fr, re, a[1]), Iface{}}
	})
	reg("(*regexp.Regexp).String", func(fr *frame, a []Value) Value {
		return fr.m.side[ptr(a[0])].(*reState).src
	})
	reg("regexp.QuoteMeta", func(fr *frame, a []Value) Value { return regexp.QuoteMeta(fr.m.concretizeStr(a[0])) })
	reg("(*regexp.Regexp).FindString", func(fr *frame, a []Value) Value {
		st := fr.m.side[ptr(a[0])].(*reState)
		return st.re.FindString(fr.m.concretizeStr(a[1]))
	})
	reg("(*regexp.Regexp).FindStringIndex", func(fr *frame, a []Value) Value {
		st := fr.m.side[ptr(a[0])].(*reState)
		loc := st.re.FindStringIndex(fr.m.concretizeStr(a[1]))
		if loc == nil {
			return Slice(nil)
		}
		return Slice{int64(loc[0]), int64(loc[1])}
	})
	reg("(*regexp.Regexp).Longest", func(fr *frame, a []Value) Value { return nil })
	reg("net/url.QueryEscape", func(fr *frame, a []Value) Value { return url.QueryEscape(fr.m.concretizeStr(a[0])) })
}

type reState struct {
	src  string
	prog *syntax.Prog
	re   *regexp.Regexp
}

func (m *M) compileRE(p string) (*Value, error) {
	re, err := regexp.Compile(p)
	if err != nil {
		return nil, err
	}
	sx, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(sx.Simplify())
	if err != nil {
		return nil, err
	}
	var cell Value = Struct{p}
	ptr := &cell
	m.side[ptr] = &reState{p, prog, re}
	return ptr, nil
}

// reMatch runs the NFA of a concrete expression over a possibly symbolic
// string, one formula per state and position (unanchored).
func (m *M) reMatch(fr *frame, p *Value, s Value) Value {
	if p == nil {
		panic(fr.nilDeref())
	}
	st, ok := m.side[p].(*reState)
	if !ok {
		panic(unsupported{"regexp value"})
	}
	if c, ok := s.(string); ok {
		return st.re.MatchString(c)
	}
	bs := m.fixLen(s)
	b := m.b
	n := len(st.prog.Inst)
	matched := b.False
	isWord := func(t Value) *Term {
		return classTerm(b, m.intTerm(t, 8), "a-zA-Z0-9_")
	}
	cur := make([]*Term, n)
	for i := range cur {
		cur[i] = b.False
	}
	for pos := 0; pos <= len(bs); pos++ {
		// epsilon closure, starting a thread at every position
		clo := make([]*Term, n)
		for i := range clo {
			clo[i] = b.False
		}
		var add func(pc int, c *Term, depth int)
		add = func(pc int, c *Term, depth int) {
			if c == b.False || depth > 4*n+4 {
				return
			}
			nc := b.Or(clo[pc], c)
			if nc == clo[pc] {
				return
			}
			clo[pc] = nc
			in := st.prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(int(in.Out), c, depth+1)
				add(int(in.Arg), c, depth+1)
			case syntax.InstCapture, syntax.InstNop:
				add(int(in.Out), c, depth+1)
			case syntax.InstEmptyWidth:
				e := syntax.EmptyOp(in.Arg)
				cond := b.True
				if e&(syntax.EmptyBeginText|syntax.EmptyBeginLine) != 0 && pos != 0 {
					cond = b.False
				}
				if e&(syntax.EmptyEndText|syntax.EmptyEndLine) != 0 && pos != len(bs) {
					cond = b.False
				}
				if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
					l, r := b.False, b.False
					if pos > 0 {
						l = isWord(bs[pos-1])
					}
					if pos < len(bs) {
						r = isWord(bs[pos])
					}
					bd := b.Not(b.Eq(l, r))
					if e&syntax.EmptyNoWordBoundary != 0 {
						bd = b.Not(bd)
					}
					cond = b.And(cond, bd)
				}
				add(int(in.Out), b.And(c, cond), depth+1)
			case syntax.InstMatch:
				matched = b.Or(matched, c)
			}
		}
		add(st.prog.Start, b.True, 0)
		for i, c := range cur {
			add(i, c, 0)
		}
		if pos == len(bs) {
			break
		}
		next := make([]*Term, n)
		for i := range next {
			next[i] = b.False
		}
		ch := m.intTerm(bs[pos], 8)
		for i, c := range clo {
			if c == b.False {
				continue
			}
			in := st.prog.Inst[i]
			var ok *Term
			switch in.Op {
			case syntax.InstRune1, syntax.InstRune, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				ok = b.False
				for r := rune(0); r < 128; r++ {
					if in.MatchRune(r) {
						hi := r
						for hi+1 < 128 && in.MatchRune(hi+1) {
							hi++
						}
						ok = b.Or(ok, b.And(b.Cmp(OUle, b.BV(8, uint64(r)), ch), b.Cmp(OUle, ch, b.BV(8, uint64(hi)))))
						r = hi
					}
				}
			default:
				continue
			}
			o := int(in.Out)
			next[o] = b.Or(next[o], b.And(c, ok))
		}
		cur = next
	}
	return m.simp(matched)
}

var _ = sort.Strings
