package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strings"
)

// ---- sorts and terms -------------------------------------------------

type SortKind uint8

const (
	SBool SortKind = iota
	SBV
	SFP
)

type Sort struct {
	K SortKind
	W uint8 // bit width (BV), 32/64 (FP)
}

func (s Sort) String() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	}
	if s.W == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // c = lo, sort.W = width
	OZExt
	OSExt
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFFromS
	OFFromU
	OFToS
	OFToU
	OFToF
	OFAbs
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE",
	OFNeg: "fp.neg", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFAbs: "fp.abs",
}

type Term struct {
	id         int
	op         Op
	sort       Sort
	a          [3]*Term
	c          uint64
	name       string
	umin, umax uint64 // unsigned interval for BV terms
	// evaluation memo
	evGen uint64
	evVal uint64
}

func (t *Term) IsConst() bool { return t.op == OConst }

type termKey struct {
	op         Op
	sort       Sort
	a0, a1, a2 int
	c          uint64
	name       string
}

// TermBank hash-conses the terms of one worker.
type TermBank struct {
	tab   map[termKey]*Term
	terms []*Term
	True  *Term
	False *Term
	evGen uint64
}

func NewTermBank() *TermBank {
	b := &TermBank{tab: map[termKey]*Term{}}
	b.True = b.mk(OConst, Sort{SBool, 0}, nil, nil, nil, 1, "")
	b.False = b.mk(OConst, Sort{SBool, 0}, nil, nil, nil, 0, "")
	return b
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (b *TermBank) mk(op Op, s Sort, x, y, z *Term, c uint64, name string) *Term {
	k := termKey{op, s, tid(x), tid(y), tid(z), c, name}
	if t, ok := b.tab[k]; ok {
		return t
	}
	t := &Term{id: len(b.terms), op: op, sort: s, a: [3]*Term{x, y, z}, c: c, name: name}
	if s.K == SBV {
		t.umin, t.umax = b.interval(t)
	}
	b.tab[k] = t
	b.terms = append(b.terms, t)
	return t
}

func (b *TermBank) interval(t *Term) (uint64, uint64) {
	w := t.sort.W
	m := mask(w)
	x, y := t.a[0], t.a[1]
	switch t.op {
	case OConst:
		return t.c, t.c
	case OIte:
		return min(t.a[1].umin, t.a[2].umin), max(t.a[1].umax, t.a[2].umax)
	case OZExt:
		return x.umin, x.umax
	case OSExt:
		if x.umax <= mask(x.sort.W)>>1 {
			return x.umin, x.umax
		}
	case OAdd:
		hi, c := bits.Add64(x.umax, y.umax, 0)
		if c == 0 && hi <= m {
			return x.umin + y.umin, hi
		}
	case OSub:
		if x.umin >= y.umax {
			return x.umin - y.umax, x.umax - y.umin
		}
	case OMul:
		h, l := bits.Mul64(x.umax, y.umax)
		if h == 0 && l <= m {
			return x.umin * y.umin, l
		}
	case OUDiv:
		if y.umin > 0 {
			return x.umin / y.umax, x.umax / y.umin
		}
	case OURem:
		if y.umin > 0 {
			return 0, min(x.umax, y.umax-1)
		}
	case OBAnd:
		return 0, min(x.umax, y.umax)
	case OExtract:
		if t.c == 0 && x.umax <= m {
			return x.umin, x.umax
		}
	case OLShr:
		return 0, x.umax
	}
	return 0, m
}

func (b *TermBank) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}

func (b *TermBank) BV(w uint8, v uint64) *Term {
	return b.mk(OConst, Sort{SBV, w}, nil, nil, nil, v&mask(w), "")
}

func (b *TermBank) F64(v float64) *Term {
	return b.mk(OConst, Sort{SFP, 64}, nil, nil, nil, math.Float64bits(v), "")
}

func (b *TermBank) F32(v float32) *Term {
	return b.mk(OConst, Sort{SFP, 32}, nil, nil, nil, uint64(math.Float32bits(v)), "")
}

func (b *TermBank) Var(name string, s Sort) *Term {
	return b.mk(OVar, s, nil, nil, nil, 0, name)
}

// VarRange makes a BV variable known to lie in [lo,hi]; the caller must assert it.
func (b *TermBank) VarRange(name string, w uint8, lo, hi uint64) *Term {
	name = fmt.Sprintf("%s~%d~%d", name, lo, hi)
	t := b.mk(OVar, Sort{SBV, w}, nil, nil, nil, 0, name)
	t.umin, t.umax = lo, hi
	return t
}

func (b *TermBank) Not(x *Term) *Term {
	switch {
	case x == b.True:
		return b.False
	case x == b.False:
		return b.True
	case x.op == ONot:
		return x.a[0]
	}
	return b.mk(ONot, Sort{SBool, 0}, x, nil, nil, 0, "")
}

func (b *TermBank) And(x, y *Term) *Term {
	if x == b.False || y == b.False {
		return b.False
	}
	if x == b.True || x == y {
		return y
	}
	if y == b.True {
		return x
	}
	if b.Not(x) == y {
		return b.False
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OAnd, Sort{SBool, 0}, x, y, nil, 0, "")
}

func (b *TermBank) Or(x, y *Term) *Term {
	if x == b.True || y == b.True {
		return b.True
	}
	if x == b.False || x == y {
		return y
	}
	if y == b.False {
		return x
	}
	if b.Not(x) == y {
		return b.True
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OOr, Sort{SBool, 0}, x, y, nil, 0, "")
}

func (b *TermBank) Ite(c, x, y *Term) *Term {
	if c == b.True {
		return x
	}
	if c == b.False {
		return y
	}
	if x == y {
		return x
	}
	if x.sort.K == SBool {
		if x == b.True {
			return b.Or(c, y)
		}
		if x == b.False {
			return b.And(b.Not(c), y)
		}
		if y == b.True {
			return b.Or(b.Not(c), x)
		}
		if y == b.False {
			return b.And(c, x)
		}
	}
	if c.op == ONot {
		c, x, y = c.a[0], y, x
	}
	return b.mk(OIte, x.sort, c, x, y, 0, "")
}

func (b *TermBank) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("Eq sorts %v %v", x.sort, y.sort))
	}
	if x.IsConst() && y.IsConst() {
		return b.Bool(x.c == y.c)
	}
	if x.sort.K == SBool {
		if x.IsConst() {
			x, y = y, x
		}
		if y == b.True {
			return x
		}
		if y == b.False {
			return b.Not(x)
		}
	}
	if x.sort.K == SBV {
		if x.umax < y.umin || y.umax < x.umin {
			return b.False
		}
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			switch x.op {
			case OZExt:
				return b.Eq(x.a[0], b.BV(x.a[0].sort.W, y.c))
			case OIte:
				if x.a[1].IsConst() && x.a[2].IsConst() {
					return b.Ite(x.a[0], b.Bool(x.a[1].c == y.c), b.Bool(x.a[2].c == y.c))
				}
			case OAdd:
				if x.a[1].IsConst() {
					return b.Eq(x.a[0], b.BV(x.sort.W, y.c-x.a[1].c))
				}
			}
		} else if x.op == OZExt && y.op == OZExt && x.a[0].sort == y.a[0].sort {
			return b.Eq(x.a[0], y.a[0])
		} else if x.op == OSExt && y.op == OSExt && x.a[0].sort == y.a[0].sort {
			return b.Eq(x.a[0], y.a[0])
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OEq, Sort{SBool, 0}, x, y, nil, 0, "")
}

func sx(v uint64, w uint8) int64 {
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func evalBV(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sxv, sy := sx(x, w), sx(y, w)
		if sy == 0 {
			if sxv < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sxv) & m
		}
		return uint64(sxv/sy) & m
	case OSRem:
		sxv, sy := sx(x, w), sx(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sxv%sy) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	}
	panic("evalBV")
}

func (b *TermBank) Bin(op Op, x, y *Term) *Term {
	w := x.sort.W
	if x.sort != y.sort {
		panic(fmt.Sprintf("Bin %v sorts %v %v", opNames[op], x.sort, y.sort))
	}
	if x.IsConst() && y.IsConst() {
		return b.BV(w, evalBV(op, w, x.c, y.c))
	}
	half := mask(w) >> 1
	switch op {
	case OAdd:
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			if y.c == 0 {
				return x
			}
			if x.op == OAdd && x.a[1].IsConst() {
				return b.Bin(OAdd, x.a[0], b.BV(w, x.a[1].c+y.c))
			}
		} else if x.id > y.id {
			x, y = y, x
		}
	case OSub:
		if x == y {
			return b.BV(w, 0)
		}
		if y.IsConst() {
			return b.Bin(OAdd, x, b.BV(w, -y.c))
		}
	case OMul:
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			if y.c == 0 {
				return y
			}
			if y.c == 1 {
				return x
			}
			if x.op == OMul && x.a[1].IsConst() {
				return b.Bin(OMul, x.a[0], b.BV(w, x.a[1].c*y.c))
			}
		} else if x.id > y.id {
			x, y = y, x
		}
	case OSDiv:
		if x.umax <= half && y.umax <= half && y.umin > 0 {
			return b.Bin(OUDiv, x, y)
		}
	case OSRem:
		if x.umax <= half && y.umax <= half && y.umin > 0 {
			return b.Bin(OURem, x, y)
		}
	case OUDiv:
		if y.IsConst() && y.c != 0 {
			if y.c == 1 {
				return x
			}
			if x.umax < y.c {
				return b.BV(w, 0)
			}
			if x.op == OMul && x.a[1].IsConst() {
				k := x.a[1].c
				if h, l := bits.Mul64(x.a[0].umax, k); h == 0 && l <= mask(w) {
					if k%y.c == 0 {
						return b.Bin(OMul, x.a[0], b.BV(w, k/y.c))
					}
					if y.c%k == 0 {
						return b.Bin(OUDiv, x.a[0], b.BV(w, y.c/k))
					}
				}
			}
			if x.op == OAdd { // (k*m*d + r)/d with no overflow
				for i := 0; i < 2; i++ {
					p, q := x.a[i], x.a[1-i]
					if _, c := bits.Add64(p.umax, q.umax, 0); c == 0 && p.umax+q.umax <= mask(w) && p.op == OMul && p.a[1].IsConst() && p.a[1].c%y.c == 0 {
						if h, l := bits.Mul64(p.a[0].umax, p.a[1].c); h == 0 && l <= mask(w) {
							return b.Bin(OAdd, b.Bin(OMul, p.a[0], b.BV(w, p.a[1].c/y.c)), b.Bin(OUDiv, q, y))
						}
					}
				}
			}
			if x.op == OUDiv && x.a[1].IsConst() {
				if h, l := bits.Mul64(x.a[1].c, y.c); h == 0 && l <= mask(w) {
					return b.Bin(OUDiv, x.a[0], b.BV(w, l))
				}
			}
		}
	case OURem:
		if y.IsConst() && y.c != 0 {
			if y.c == 1 {
				return b.BV(w, 0)
			}
			if x.umax < y.c {
				return x
			}
			if x.op == OMul && x.a[1].IsConst() && x.a[1].c%y.c == 0 {
				if h, l := bits.Mul64(x.a[0].umax, x.a[1].c); h == 0 && l <= mask(w) {
					return b.BV(w, 0)
				}
			}
		}
	case OBAnd:
		if x == y {
			return x
		}
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			if y.c == 0 {
				return y
			}
			if y.c == mask(w) {
				return x
			}
			if y.c&(y.c+1) == 0 && x.umax <= y.c {
				return x
			}
		}
	case OBOr:
		if x == y {
			return x
		}
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() && y.c == 0 {
			return x
		}
	case OBXor:
		if x == y {
			return b.BV(w, 0)
		}
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() && y.c == 0 {
			return x
		}
	case OShl, OLShr, OAShr:
		if y.IsConst() && y.c == 0 {
			return x
		}
	}
	return b.mk(op, x.sort, x, y, nil, 0, "")
}

func (b *TermBank) Cmp(op Op, x, y *Term) *Term {
	w := x.sort.W
	if x.IsConst() && y.IsConst() {
		switch op {
		case OUlt:
			return b.Bool(x.c < y.c)
		case OUle:
			return b.Bool(x.c <= y.c)
		case OSlt:
			return b.Bool(sx(x.c, w) < sx(y.c, w))
		case OSle:
			return b.Bool(sx(x.c, w) <= sx(y.c, w))
		}
	}
	if x == y {
		return b.Bool(op == OUle || op == OSle)
	}
	half := mask(w) >> 1
	if x.umax <= half && y.umax <= half {
		if op == OSlt {
			op = OUlt
		} else if op == OSle {
			op = OUle
		}
	}
	switch op {
	case OUlt:
		if x.umax < y.umin {
			return b.True
		}
		if x.umin >= y.umax {
			return b.False
		}
	case OUle:
		if x.umax <= y.umin {
			return b.True
		}
		if x.umin > y.umax {
			return b.False
		}
	case OSlt, OSle:
		// y a nonneg constant while x may be negative etc: leave
	}
	if op == OUlt || op == OUle {
		if x.op == OZExt && y.op == OZExt && x.a[0].sort == y.a[0].sort {
			return b.Cmp(op, x.a[0], y.a[0])
		}
		if x.op == OZExt && y.IsConst() {
			return b.Cmp(op, x.a[0], b.BV(x.a[0].sort.W, y.c))
		}
		if y.op == OZExt && x.IsConst() {
			return b.Cmp(op, b.BV(y.a[0].sort.W, x.c), y.a[0])
		}
	}
	// canonical: a<b  ==  not (b<=a)
	if op == OUle {
		return b.Not(b.mk(OUlt, Sort{SBool, 0}, y, x, nil, 0, ""))
	}
	if op == OSle {
		return b.Not(b.mk(OSlt, Sort{SBool, 0}, y, x, nil, 0, ""))
	}
	return b.mk(op, Sort{SBool, 0}, x, y, nil, 0, "")
}

func (b *TermBank) BNot(x *Term) *Term {
	if x.IsConst() {
		return b.BV(x.sort.W, ^x.c)
	}
	return b.mk(OBNot, x.sort, x, nil, nil, 0, "")
}

func (b *TermBank) Neg(x *Term) *Term {
	if x.IsConst() {
		return b.BV(x.sort.W, -x.c)
	}
	return b.mk(ONeg, x.sort, x, nil, nil, 0, "")
}

// Resize converts a BV term to width w, sign- or zero-extending.
func (b *TermBank) Resize(x *Term, w uint8, signed bool) *Term {
	xw := x.sort.W
	if xw == w {
		return x
	}
	if x.IsConst() {
		if signed {
			return b.BV(w, uint64(sx(x.c, xw)))
		}
		return b.BV(w, x.c)
	}
	if w < xw {
		if x.op == OZExt || x.op == OSExt {
			in := x.a[0]
			if in.sort.W == w {
				return in
			}
			if in.sort.W > w {
				return b.Resize(in, w, false)
			}
			if in.sort.W < w {
				return b.Resize(in, w, x.op == OSExt)
			}
		}
		return b.mk(OExtract, Sort{SBV, w}, x, nil, nil, 0, "")
	}
	if signed && x.umax > mask(xw)>>1 {
		return b.mk(OSExt, Sort{SBV, w}, x, nil, nil, 0, "")
	}
	if x.op == OZExt {
		return b.Resize(x.a[0], w, false)
	}
	if x.op == OExtract && x.a[0].sort.W == w && x.a[0].umax <= mask(xw) {
		return x.a[0]
	}
	return b.mk(OZExt, Sort{SBV, w}, x, nil, nil, 0, "")
}

// ---- floats ----------------------------------------------------------

func fval(s Sort, c uint64) float64 {
	if s.W == 32 {
		return float64(math.Float32frombits(uint32(c)))
	}
	return math.Float64frombits(c)
}

func fbits(s Sort, v float64) uint64 {
	if s.W == 32 {
		return uint64(math.Float32bits(float32(v)))
	}
	return math.Float64bits(v)
}

func evalF(op Op, s Sort, x, y uint64) uint64 {
	a, c := fval(s, x), fval(s, y)
	if s.W == 32 {
		a32, c32 := float32(a), float32(c)
		switch op {
		case OFAdd:
			return uint64(math.Float32bits(a32 + c32))
		case OFSub:
			return uint64(math.Float32bits(a32 - c32))
		case OFMul:
			return uint64(math.Float32bits(a32 * c32))
		case OFDiv:
			return uint64(math.Float32bits(a32 / c32))
		}
	}
	switch op {
	case OFAdd:
		return fbits(s, a+c)
	case OFSub:
		return fbits(s, a-c)
	case OFMul:
		return fbits(s, a*c)
	case OFDiv:
		return fbits(s, a/c)
	}
	panic("evalF")
}

func (b *TermBank) FBin(op Op, x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		return b.mk(OConst, x.sort, nil, nil, nil, evalF(op, x.sort, x.c, y.c), "")
	}
	return b.mk(op, x.sort, x, y, nil, 0, "")
}

func (b *TermBank) FCmp(op Op, x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		a, c := fval(x.sort, x.c), fval(y.sort, y.c)
		switch op {
		case OFLt:
			return b.Bool(a < c)
		case OFLe:
			return b.Bool(a <= c)
		case OFEq:
			return b.Bool(a == c)
		}
	}
	if op == OFEq && x == y && b.notNaN(x) {
		return b.True
	}
	return b.mk(op, Sort{SBool, 0}, x, y, nil, 0, "")
}

func (b *TermBank) notNaN(x *Term) bool {
	switch x.op {
	case OConst:
		return !math.IsNaN(fval(x.sort, x.c))
	case OFFromS, OFFromU:
		return true
	case OFDiv:
		return b.notNaN(x.a[0]) && b.finite(x.a[0]) && x.a[1].IsConst() && fval(x.sort, x.a[1].c) != 0 && !math.IsNaN(fval(x.sort, x.a[1].c))
	}
	return false
}

func (b *TermBank) finite(x *Term) bool {
	return x.op == OFFromS || x.op == OFFromU || x.op == OConst && !math.IsInf(fval(x.sort, x.c), 0)
}

func (b *TermBank) FUn(op Op, x *Term) *Term {
	if x.IsConst() {
		v := fval(x.sort, x.c)
		if op == OFNeg {
			v = -v
		} else {
			v = math.Abs(v)
		}
		return b.mk(OConst, x.sort, nil, nil, nil, fbits(x.sort, v), "")
	}
	return b.mk(op, x.sort, x, nil, nil, 0, "")
}

func (b *TermBank) FFromInt(x *Term, signed bool, w uint8) *Term {
	s := Sort{SFP, w}
	if x.IsConst() {
		return b.mk(OConst, s, nil, nil, nil, evalFFrom(x.c, x.sort.W, signed, s), "")
	}
	op := OFFromU
	if signed && x.umax > mask(x.sort.W)>>1 {
		op = OFFromS
	}
	if op == OFFromU && x.op == OZExt {
		x = x.a[0]
	}
	return b.mk(op, s, x, nil, nil, 0, "")
}

func evalFFrom(c uint64, w uint8, signed bool, s Sort) uint64 {
	if s.W == 32 {
		if signed {
			return uint64(math.Float32bits(float32(sx(c, w))))
		}
		return uint64(math.Float32bits(float32(c)))
	}
	if signed {
		return math.Float64bits(float64(sx(c, w)))
	}
	return math.Float64bits(float64(c))
}

// FToInt converts with amd64-like truncation; out-of-range values are
// implementation-defined in Go and left to the solver's unspecified result.
func (b *TermBank) FToInt(x *Term, signed bool, w uint8) *Term {
	if x.IsConst() {
		return b.BV(w, evalFTo(fval(x.sort, x.c), signed, w))
	}
	// float(int) round trips
	if (x.op == OFFromU || x.op == OFFromS) && x.sort.W == 64 {
		in := x.a[0]
		if x.op == OFFromU && in.umax < 1<<53 {
			return b.Resize(in, w, false)
		}
		if x.op == OFFromS && in.sort.W <= 32 {
			return b.Resize(in, w, true)
		}
	}
	op := OFToU
	if signed {
		op = OFToS
	}
	return b.mk(op, Sort{SBV, w}, x, nil, nil, 0, "")
}

func evalFTo(v float64, signed bool, w uint8) uint64 {
	if math.IsNaN(v) || math.IsInf(v, 0) {
		return (uint64(1) << 63) & mask(w)
	}
	if signed || v < 0 {
		return uint64(int64(v)) & mask(w)
	}
	return uint64(v) & mask(w)
}

func (b *TermBank) FToF(x *Term, w uint8) *Term {
	s := Sort{SFP, w}
	if x.sort == s {
		return x
	}
	if x.IsConst() {
		return b.mk(OConst, s, nil, nil, nil, fbits(s, fval(x.sort, x.c)), "")
	}
	return b.mk(OFToF, s, x, nil, nil, 0, "")
}

// ---- evaluation under a model ----------------------------------------

// Model maps variable names to values. Missing variables evaluate to their
// interval minimum (0 for unconstrained ones).
type Model map[string]uint64

func (b *TermBank) NewEval() { b.evGen++ }

func (b *TermBank) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.c
	}
	if t.evGen == b.evGen {
		return t.evVal
	}
	v := b.eval(t, m)
	t.evGen, t.evVal = b.evGen, v
	return v
}

func b2u(x bool) uint64 {
	if x {
		return 1
	}
	return 0
}

func (b *TermBank) eval(t *Term, m Model) uint64 {
	switch t.op {
	case OVar:
		if v, ok := m[t.name]; ok {
			return v
		}
		if t.sort.K == SBV {
			return t.umin
		}
		return 0
	case OIte:
		if b.Eval(t.a[0], m) != 0 {
			return b.Eval(t.a[1], m)
		}
		return b.Eval(t.a[2], m)
	case ONot:
		return 1 - b.Eval(t.a[0], m)
	case OAnd:
		return b.Eval(t.a[0], m) & b.Eval(t.a[1], m)
	case OOr:
		return b.Eval(t.a[0], m) | b.Eval(t.a[1], m)
	}
	x := b.Eval(t.a[0], m)
	w := t.a[0].sort.W
	switch t.op {
	case OBNot:
		return ^x & mask(w)
	case ONeg:
		return -x & mask(w)
	case OExtract:
		return (x >> t.c) & mask(t.sort.W)
	case OZExt:
		return x
	case OSExt:
		return uint64(sx(x, w)) & mask(t.sort.W)
	case OFNeg:
		return fbits(t.sort, -fval(t.sort, x))
	case OFAbs:
		return fbits(t.sort, math.Abs(fval(t.sort, x)))
	case OFFromS:
		return evalFFrom(x, w, true, t.sort)
	case OFFromU:
		return evalFFrom(x, w, false, t.sort)
	case OFToS:
		return evalFTo(fval(t.a[0].sort, x), true, t.sort.W)
	case OFToU:
		return evalFTo(fval(t.a[0].sort, x), false, t.sort.W)
	case OFToF:
		return fbits(t.sort, fval(t.a[0].sort, x))
	}
	y := b.Eval(t.a[1], m)
	switch t.op {
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sx(x, w) < sx(y, w))
	case OSle:
		return b2u(sx(x, w) <= sx(y, w))
	case OFAdd, OFSub, OFMul, OFDiv:
		return evalF(t.op, t.sort, x, y)
	case OFLt:
		return b2u(fval(t.a[0].sort, x) < fval(t.a[0].sort, y))
	case OFLe:
		return b2u(fval(t.a[0].sort, x) <= fval(t.a[0].sort, y))
	case OFEq:
		return b2u(fval(t.a[0].sort, x) == fval(t.a[0].sort, y))
	}
	return evalBV(t.op, w, x, y)
}

// ---- SMT-LIB printing ------------------------------------------------

func (b *TermBank) constStr(t *Term) string {
	switch t.sort.K {
	case SBool:
		if t.c != 0 {
			return "true"
		}
		return "false"
	case SBV:
		return "(_ bv" + new(big.Int).SetUint64(t.c).String() + " " + fmt.Sprint(t.sort.W) + ")"
	}
	if t.sort.W == 32 {
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", uint32(t.c))
	}
	return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.c)
}

func ref(b *TermBank, t *Term) string {
	switch t.op {
	case OConst:
		return b.constStr(t)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

// body prints the defining expression of a compound term over references.
func (b *TermBank) body(t *Term) string {
	var s strings.Builder
	fpw := func(w uint8) string {
		if w == 32 {
			return "8 24"
		}
		return "11 53"
	}
	switch t.op {
	case OExtract:
		fmt.Fprintf(&s, "((_ extract %d %d) %s)", int(t.c)+int(t.sort.W)-1, t.c, ref(b, t.a[0]))
	case OZExt:
		fmt.Fprintf(&s, "((_ zero_extend %d) %s)", t.sort.W-t.a[0].sort.W, ref(b, t.a[0]))
	case OSExt:
		fmt.Fprintf(&s, "((_ sign_extend %d) %s)", t.sort.W-t.a[0].sort.W, ref(b, t.a[0]))
	case OFFromS:
		fmt.Fprintf(&s, "((_ to_fp %s) RNE %s)", fpw(t.sort.W), ref(b, t.a[0]))
	case OFFromU:
		fmt.Fprintf(&s, "((_ to_fp_unsigned %s) RNE %s)", fpw(t.sort.W), ref(b, t.a[0]))
	case OFToF:
		fmt.Fprintf(&s, "((_ to_fp %s) RNE %s)", fpw(t.sort.W), ref(b, t.a[0]))
	case OFToS:
		fmt.Fprintf(&s, "((_ fp.to_sbv %d) RTZ %s)", t.sort.W, ref(b, t.a[0]))
	case OFToU:
		fmt.Fprintf(&s, "((_ fp.to_ubv %d) RTZ %s)", t.sort.W, ref(b, t.a[0]))
	default:
		fmt.Fprintf(&s, "(%s", opNames[t.op])
		for _, a := range t.a {
			if a != nil {
				s.WriteByte(' ')
				s.WriteString(ref(b, a))
			}
		}
		s.WriteByte(')')
	}
	return s.String()
}
