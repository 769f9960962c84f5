package main

import (
	"fmt"
	"go/types"
	"strconv"
)

type obsE struct {
	name string
	v    Iface
}

// renderObs prints observations under a model; the native run prints the same.
func (m *M) renderObs(mod Model) []string {
	m.b.NewEval()
	r := make([]string, 0, len(m.obs))
	for _, o := range m.obs {
		r = append(r, o.name+"="+m.renderVal(o.v, mod))
	}
	m.b.NewEval()
	return r
}

func (m *M) renderVal(v Iface, mod Model) string {
	if v.T == nil {
		return "nil"
	}
	switch x := v.V.(type) {
	case string:
		return strconv.Quote(x)
	case *SymStr:
		return strconv.Quote(m.evalStr(x, mod))
	case bool:
		return strconv.FormatBool(x)
	case int64:
		_, s, ok := intInfo(v.T)
		if ok && !s {
			return strconv.FormatUint(uint64(x), 10)
		}
		return strconv.FormatInt(x, 10)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case *Term:
		c := m.b.Eval(x, mod)
		switch x.sort.K {
		case SBool:
			return strconv.FormatBool(c != 0)
		case SBV:
			w, s, _ := intInfo(v.T)
			if s {
				return strconv.FormatInt(norm(int64(c), w, true), 10)
			}
			return strconv.FormatUint(c, 10)
		default:
			return strconv.FormatFloat(fval(x.sort, c), 'g', -1, 64)
		}
	}
	return "?"
}

var vsymDone bool

func registerVsym(pkg string) {
	if vsymDone {
		return
	}
	vsymDone = true
	mod := pkg[:len(pkg)-len("/zzverif/vsym")]
	r := func(name string, f intrinsic) { reg(pkg+"."+name, f) }
	name := func(v Value) string {
		s, ok := v.(string)
		if !ok {
			panic(unsupported{"symbolic input name"})
		}
		return s
	}
	scalar := func(w uint8) intrinsic {
		return func(fr *frame, a []Value) Value {
			n := name(a[0])
			if w == 1 {
				t := fr.m.newVar("bool", n, Sort{SBool, 0})
				return t
			}
			return fr.m.newVar("int", n, Sort{SBV, w})
		}
	}
	r("U32", scalar(32))
	r("U64", scalar(64))
	r("I64", scalar(64))
	r("I32", scalar(32))
	r("Bool", scalar(1))
	r("Int", func(fr *frame, a []Value) Value {
		lo, hi := fr.m.concretize(a[1]), fr.m.concretize(a[2])
		if lo < 0 {
			panic(unsupported{"vsym.Int with a negative bound"})
		}
		if lo == hi {
			fr.m.inputs = append(fr.m.inputs, Input{Kind: "int", Name: name(a[0]), V: uint64(lo)})
			return lo
		}
		return fr.m.newRange("int", name(a[0]), 64, uint64(lo), uint64(hi))
	})
	r("Str", func(fr *frame, a []Value) Value {
		return fr.m.newStr(name(a[0]), fr.conInt(a[1]), fr.conInt(a[2]), name(a[3]))
	})
	r("Choose", func(fr *frame, a []Value) Value {
		n := fr.conInt(a[1])
		k := fr.m.choose(name(a[0]), n)
		fr.m.inputs = append(fr.m.inputs, Input{Kind: "choose", Name: name(a[0]), V: uint64(k)})
		return int64(k)
	})
	r("Assume", func(fr *frame, a []Value) Value { fr.m.assume(a[0]); return nil })
	r("Assert", func(fr *frame, a []Value) Value {
		fr.m.assert(a[0], name(a[1]), name(a[1]), fr.loc())
		return nil
	})
	r("Fail", func(fr *frame, a []Value) Value {
		fr.m.assert(false, name(a[0]), name(a[0]), fr.loc())
		return nil
	})
	r("Cover", func(fr *frame, a []Value) Value { fr.m.covers[name(a[0])] = true; return nil })
	r("Observe", func(fr *frame, a []Value) Value {
		fr.m.obs = append(fr.m.obs, obsE{name(a[0]), a[1].(Iface)})
		return nil
	})
	r("Pack", func(fr *frame, a []Value) Value {
		return fr.m.w.eng.mkStruct("google.golang.org/protobuf/types/known/anypb", "Any", map[string]Value{"TypeUrl": a[0], "Value": fr.packBlob(a[1].(Iface))})
	})
	r("Corrupt", func(fr *frame, a []Value) Value {
		return fr.m.w.eng.mkStruct("google.golang.org/protobuf/types/known/anypb", "Any", map[string]Value{"TypeUrl": a[0], "Value": &Blob{Corrupt: true}})
	})
	r("Explore", func(fr *frame, a []Value) Value {
		s := fr.m.sched
		s.explore = true
		s.preempt = fr.conInt(a[0])
		s.anytime = fr.conInt(a[1])
		return nil
	})
	r("Delay", func(fr *frame, a []Value) Value {
		s := fr.m.sched
		s.explore, s.delay = true, true
		s.preempt = fr.conInt(a[0])
		s.anytime = fr.conInt(a[1])
		return nil
	})
	r("Stop", func(fr *frame, a []Value) Value {
		s := fr.m.sched
		s.explore, s.delay = false, false
		return nil
	})
	r("Race", func(fr *frame, a []Value) Value { fr.m.sched.race = true; return nil })
	r("Settle", func(fr *frame, a []Value) Value { fr.m.sched.settle(fr.g); return nil })
	r("Skew", func(fr *frame, a []Value) Value {
		m := fr.m
		d := m.intTerm(a[0], 64)
		if o, ok := m.side["skew"]; ok {
			d = m.b.Bin(OAdd, o.(*Term), d)
		}
		m.side["skew"] = d
		return nil
	})
	r("MapOrder", func(fr *frame, a []Value) Value { fr.m.mapOrder = fr.m.truth(a[0]); return nil })
	r("Param", func(fr *frame, a []Value) Value {
		n := name(a[0])
		v, ok := fr.m.ex.h.Param[n]
		if !ok {
			v = fr.conInt(a[1])
		}
		fr.m.inputs = append(fr.m.inputs, Input{Kind: "param", Name: n, V: uint64(v)})
		return int64(v)
	})
	r("SetDraw", func(fr *frame, a []Value) Value {
		fr.m.side["draw"], fr.m.side["grid"] = a[0], a[1]
		return nil
	})
	r("ClearDraw", func(fr *frame, a []Value) Value { delete(fr.m.side, "draw"); return nil })
	r("DrawN", func(fr *frame, a []Value) Value {
		if v, ok := fr.m.side["drawN"]; ok {
			return v
		}
		return int64(0)
	})
	r("Draws", func(fr *frame, a []Value) Value { return drawCount(fr.m) })
	r("ResetDraws", func(fr *frame, a []Value) Value {
		fr.m.side["draws"] = int64(0)
		delete(fr.m.side, "drawN")
		return nil
	})
	r("SetADS", func(fr *frame, a []Value) Value { fr.m.hooks["ads"] = a[0]; return nil })
	reg(mod+"/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice.NewClient", func(fr *frame, a []Value) Value {
		h, ok := fr.m.hooks["ads"]
		if !ok {
			panic(unsupported{"NewClient without a hook"})
		}
		return fr.callValue(h, nil)
	})
	r("Symbolic", func(fr *frame, a []Value) Value { return true })
	r("Conc", func(fr *frame, a []Value) Value { return fr.m.concretize(a[0]) })
	r("Ite", func(fr *frame, a []Value) Value {
		c := fr.m.boolTerm(a[0])
		if c.IsConst() {
			if c.c != 0 {
				return a[1]
			}
			return a[2]
		}
		return fr.m.simpInt(fr.m.b.Ite(c, fr.m.intTerm(a[1], 64), fr.m.intTerm(a[2], 64)), true)
	})
	r("And", func(fr *frame, a []Value) Value { return andVal(fr.m, a[0], a[1]) })
	r("Or", func(fr *frame, a []Value) Value {
		return notVal(fr.m, andVal(fr.m, notVal(fr.m, a[0]), notVal(fr.m, a[1])))
	})
	r("Iff", func(fr *frame, a []Value) Value { return eqVal(fr.m, a[0], a[1]) })
	r("Debug", func(fr *frame, a []Value) Value {
		if fr.m.w.eng.debug {
			fmt.Println("DEBUG", fr.m.concStr(formatVal(fr, 'v', "", a[0].(Iface))))
		}
		return nil
	})
}

var _ = types.Typ
