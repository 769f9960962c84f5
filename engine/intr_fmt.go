package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

func durString(d int64) string { return time.Duration(d).String() }

// strBuf builds a possibly symbolic string.
type strBuf struct {
	m *M
	v Value
}

func (b *strBuf) add(v Value) {
	if b.v == nil {
		b.v = v
		return
	}
	b.v = b.m.concat(b.v, v)
}

func (b *strBuf) val() Value {
	if b.v == nil {
		return ""
	}
	return b.v
}

func (fr *frame) hasMethod(t types.Type, name string) bool {
	return fr.m.findMethod(t, nil, name) != nil
}

// formatVal renders one operand the way package fmt does for the common verbs.
func formatVal(fr *frame, verb rune, flags string, v Iface) Value {
	m := fr.m
	if v.T == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return "%!s(<nil>)"
			}
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return v.T.String()
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		if !strings.Contains(flags, "#") {
			isNilPtr := false
			if p, ok := v.V.(*Value); ok && p == nil {
				isNilPtr = true
			}
			for _, meth := range []string{"Error", "String"} {
				fn := m.findMethod(v.T, nil, meth)
				if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || !isString(fn.Signature.Results().At(0).Type()) {
					continue
				}
				if isNilPtr {
					return "<nil>"
				}
				s := m.call(fr.g, fr, fn, []Value{v.V}, nil)
				if verb == 'q' {
					return quoteVal(m, s)
				}
				return s
			}
		}
	}
	switch u := v.T.Underlying().(type) {
	case *types.Basic:
		switch x := v.V.(type) {
		case int64:
			if u.Info()&types.IsInteger != 0 {
				_, signed, _ := intInfo(v.T)
				f := "%" + flags + string(verb)
				if signed {
					return fmt.Sprintf(f, x)
				}
				return fmt.Sprintf(f, uint64(x))
			}
		case bool:
			return strconv.FormatBool(x)
		case float64:
			return fmt.Sprintf("%"+flags+string(verb), x)
		case string:
			if verb == 'q' {
				return strconv.Quote(x)
			}
			return fmt.Sprintf("%"+flags+string(verb), x)
		case *SymStr:
			if verb == 'q' {
				return quoteVal(m, x)
			}
			return x
		case *Term:
			if x.sort.K == SBV && (verb == 'd' || verb == 'v') {
				return itoaSym(m, x, v.T)
			}
			if x.sort.K == SFP && verb == 'f' && flags == "1.0" {
				// a whole number formats as the integer it came from
				if (x.op == OFFromU || x.op == OFFromS) && x.a[0].umax < 1<<53 {
					return itoaSym(m, x.a[0], types.Typ[types.Uint64])
				}
				panic(unsupported{"formatting a symbolic float"})
			}
			if x.sort.K == SBool {
				if m.truth(x) {
					return "true"
				}
				return "false"
			}
			return "<sym>"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		if p, ok := v.V.(*Value); ok && p != nil && verb == 'v' {
			if st, ok := (*p).(Struct); ok {
				return (&strBuf{m: m, v: "&"}).fmtStruct(fr, st, u.(*types.Pointer).Elem())
			}
		}
		if mp, ok := v.V.(*Map); ok && verb == 'v' {
			mt := u.(*types.Map)
			b := &strBuf{m: m}
			b.add("map[")
			for i, e := range mp.live() {
				if i > 0 {
					b.add(" ")
				}
				b.add(formatVal(fr, 'v', "", asIface(mt.Key(), e.k)))
				b.add(":")
				b.add(formatVal(fr, 'v', "", asIface(mt.Elem(), e.v)))
			}
			b.add("]")
			return b.val()
		}
		return "0xc000000000"
	case *types.Struct:
		return (&strBuf{m: m, v: ""}).fmtStruct(fr, v.V.(Struct), v.T)
	case *types.Slice:
		if s, ok := v.V.(Slice); ok {
			if isByteSlice(v.T) && (verb == 's' || verb == 'x') {
				return m.bytesToStr(s)
			}
			b := &strBuf{m: m}
			b.add("[")
			for i, x := range s {
				if i > 0 {
					b.add(" ")
				}
				b.add(formatVal(fr, verb, flags, asIface(u.Elem(), x)))
			}
			b.add("]")
			return b.val()
		}
		return "<blob>"
	case *types.Array:
		return "[...]"
	}
	return fmt.Sprintf("<%v>", v.T)
}

func asIface(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{canon(t), v}
}

func (b *strBuf) fmtStruct(fr *frame, s Struct, t types.Type) Value {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "{...}"
	}
	b.add("{")
	for i := range s {
		if i > 0 {
			b.add(" ")
		}
		f := asIface(st.Field(i).Type(), s[i])
		if p, ok := f.V.(*Value); ok {
			if p == nil {
				b.add("<nil>")
			} else {
				b.add("0xc000000000")
			}
			continue
		}
		b.add(formatVal(fr, 'v', "", f))
	}
	b.add("}")
	return b.val()
}

func quoteVal(m *M, v Value) Value {
	if s, ok := v.(string); ok {
		return strconv.Quote(s)
	}
	return m.concat(m.concat("\"", v), "\"")
}

// itoaSym forks on the number of digits; each digit is a term.
func itoaSym(m *M, t *Term, ty types.Type) Value {
	_, signed, ok := intInfo(ty)
	if !ok {
		panic(unsupported{"itoa"})
	}
	b := m.b
	neg := false
	if signed {
		if m.branch(b.Cmp(OSlt, t, b.BV(t.sort.W, 0))) {
			neg = true
			t = b.Neg(t)
		}
	}
	// narrow when the interval allows
	if t.sort.W > 32 && t.umax < 1<<31 {
		t = b.Resize(t, 32, false)
	}
	w := t.sort.W
	digits := 1
	pow := uint64(10)
	for digits < 20 {
		if pow > mask(w) || m.branch(b.Cmp(OUlt, t, b.BV(w, pow))) {
			break
		}
		digits++
		if digits == 20 {
			break
		}
		pow *= 10
	}
	r := &SymStr{N: b.BV(64, uint64(digits))}
	for i := digits - 1; i >= 0; i-- {
		d := uint64(1)
		for j := 0; j < i; j++ {
			d *= 10
		}
		q := t
		if d > 1 {
			q = b.Bin(OUDiv, t, b.BV(w, d))
		}
		q = b.Bin(OURem, q, b.BV(w, 10))
		r.B = append(r.B, b.Bin(OAdd, b.Resize(q, 8, false), b.BV(8, '0')))
	}
	v := m.simpStr(r)
	if neg {
		return m.concat("-", v)
	}
	return v
}

// sprintf renders a format with operands; wrapped collects %w operands.
func sprintf(fr *frame, f string, args []Value, wrapped *[]Iface) Value {
	b := &strBuf{m: fr.m}
	ai := 0
	lit := strings.Builder{}
	flush := func() {
		if lit.Len() > 0 {
			b.add(lit.String())
			lit.Reset()
		}
	}
	for i := 0; i < len(f); {
		if f[i] != '%' {
			lit.WriteByte(f[i])
			i++
			continue
		}
		i++
		j := i
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		flags := f[i:j]
		if j >= len(f) {
			lit.WriteString("%!(NOVERB)")
			break
		}
		verb, sz := utf8.DecodeRuneInString(f[j:])
		i = j + sz
		if verb == '%' {
			lit.WriteByte('%')
			continue
		}
		if ai >= len(args) {
			lit.WriteString("%!" + string(verb) + "(MISSING)")
			continue
		}
		a, ok := args[ai].(Iface)
		ai++
		if !ok {
			panic(unsupported{"format operand"})
		}
		flush()
		if verb == 'w' && wrapped != nil {
			*wrapped = append(*wrapped, a)
		}
		b.add(formatVal(fr, verb, flags, a))
	}
	flush()
	if ai < len(args) {
		b.add("%!(EXTRA)")
	}
	return b.val()
}

func fmtArg(v Value) []Value {
	if v == nil {
		return nil
	}
	return []Value(v.(Slice))
}

func (fr *frame) fmtString(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported{"symbolic format string"})
	}
	return s
}

// sprintfMsg is sprintf for texts whose content does not matter (errors):
// symbolic operands are replaced rather than forked on.
func sprintfMsg(fr *frame, f string, args []Value, wrapped *[]Iface) Value {
	conc := make([]Value, len(args))
	for i, a := range args {
		conc[i] = a
		if v, ok := a.(Iface); ok {
			switch v.V.(type) {
			case *Term, *SymStr:
				conc[i] = Iface{canon(types.Typ[types.String]), "<sym>"}
			}
		}
	}
	return sprintf(fr, f, conc, wrapped)
}

func sprint(fr *frame, args []Value, ln bool) Value {
	b := &strBuf{m: fr.m}
	prevStr := true
	for i, a := range args {
		v := a.(Iface)
		_, isS := v.V.(string)
		if _, ok := v.V.(*SymStr); ok {
			isS = true
		}
		if i > 0 && (ln || !isS && !prevStr) {
			b.add(" ")
		}
		b.add(formatVal(fr, 'v', "", v))
		prevStr = isS
	}
	if ln {
		b.add("\n")
	}
	return b.val()
}

func init() {
	reg("fmt.Sprintf", func(fr *frame, a []Value) Value {
		return sprintf(fr, fr.fmtString(a[0]), fmtArg(a[1]), nil)
	})
	reg("fmt.Sprint", func(fr *frame, a []Value) Value { return sprint(fr, fmtArg(a[0]), false) })
	reg("fmt.Sprintln", func(fr *frame, a []Value) Value { return sprint(fr, fmtArg(a[0]), true) })
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		n := n
		reg(n, func(fr *frame, a []Value) Value {
			if strings.HasPrefix(n, "fmt.F") {
				if w, ok := a[0].(Iface); ok && w.T != nil && strings.Contains(w.T.String(), "strings.Builder") {
					var s Value
					switch n {
					case "fmt.Fprintf":
						s = sprintf(fr, fr.fmtString(a[1]), fmtArg(a[2]), nil)
					case "fmt.Fprintln":
						s = sprint(fr, fmtArg(a[1]), true)
					default:
						s = sprint(fr, fmtArg(a[1]), false)
					}
					f := fr.m.findMethod(w.T, nil, "WriteString")
					return fr.m.call(fr.g, fr, f, []Value{w.V, s}, nil)
				}
				if w, ok := a[0].(Iface); ok && w.T != nil && !strings.Contains(w.T.String(), "os.File") {
					panic(unsupported{"Fprint to " + w.T.String()})
				}
			}
			return Tuple{int64(0), Iface{}}
		})
	}
	reg("fmt.Errorf", func(fr *frame, a []Value) Value {
		var wr []Iface
		s := sprintfMsg(fr, fr.fmtString(a[0]), fmtArg(a[1]), &wr)
		if len(wr) == 0 || wr[0].T == nil {
			var cell Value = Struct{s}
			return Iface{fr.m.w.eng.errStringPtr, &cell}
		}
		var cell Value = Struct{s, wr[0]}
		return Iface{fr.m.w.eng.ptrTyp("fmt", "wrapError"), &cell}
	})

	// strconv
	reg("strconv.Itoa", func(fr *frame, a []Value) Value {
		switch v := a[0].(type) {
		case int64:
			return strconv.FormatInt(v, 10)
		case *Term:
			return itoaSym(fr.m, v, types.Typ[types.Int])
		}
		panic(unsupported{"Itoa"})
	})
	fmtInt := func(ty types.Type) intrinsic {
		return func(fr *frame, a []Value) Value {
			base := fr.conInt(a[1])
			switch v := a[0].(type) {
			case int64:
				if ty == types.Typ[types.Uint64] {
					return strconv.FormatUint(uint64(v), base)
				}
				return strconv.FormatInt(v, base)
			case *Term:
				if base == 10 {
					return itoaSym(fr.m, v, ty)
				}
			}
			panic(unsupported{"FormatInt"})
		}
	}
	reg("strconv.FormatInt", fmtInt(types.Typ[types.Int64]))
	reg("strconv.FormatUint", fmtInt(types.Typ[types.Uint64]))
	reg("strconv.Quote", func(fr *frame, a []Value) Value { return quoteVal(fr.m, a[0]) })
	numErr := func(fr *frame, fn string, s Value, err error) Iface {
		if err == nil {
			return Iface{}
		}
		return fr.m.mkError("strconv." + fn + ": parsing error")
	}
	reg("strconv.ParseFloat", func(fr *frame, a []Value) Value {
		s := fr.m.concretizeStr(a[0])
		f, err := strconv.ParseFloat(s, fr.conInt(a[1]))
		return Tuple{f, numErr(fr, "ParseFloat", s, err)}
	})
	reg("strconv.ParseBool", func(fr *frame, a []Value) Value {
		s := fr.m.concretizeStr(a[0])
		f, err := strconv.ParseBool(s)
		return Tuple{f, numErr(fr, "ParseBool", s, err)}
	})
	reg("strconv.FormatFloat", func(fr *frame, a []Value) Value {
		f, ok := a[0].(float64)
		if !ok {
			panic(unsupported{"FormatFloat"})
		}
		return strconv.FormatFloat(f, byte(fr.conInt(a[1])), fr.conInt(a[2]), fr.conInt(a[3]))
	})
	reg("strconv.FormatBool", func(fr *frame, a []Value) Value {
		if fr.m.truth(a[0]) {
			return "true"
		}
		return "false"
	})
}

// concretizeStr forks until the string is concrete.
func (m *M) concretizeStr(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		bs := m.fixLen(v)
		r := make([]byte, len(bs))
		for i, c := range bs {
			r[i] = byte(m.concretize(c))
		}
		return string(r)
	}
	panic(unsupported{fmt.Sprintf("string %T", v)})
}
