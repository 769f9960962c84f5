// Package vsym is the interface between the harnesses and the two ways of
// running them: the symbolic engine (which implements every function here
// itself) and the native replay (the bodies below).
package vsym

import (
	ads "github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
	"github.com/kitex-contrib/xds/zzverif/vrand"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// U32 is an unconstrained 32-bit input; the others alike.
func U32(name string) uint32 { return uint32(next("int", name).V) }
func U64(name string) uint64 { return next("int", name).V }
func I64(name string) int64  { return int64(next("int", name).V) }
func I32(name string) int32  { return int32(next("int", name).V) }
func Bool(name string) bool  { return next("bool", name).V != 0 }

// Int is an input in lo..hi (lo >= 0).
func Int(name string, lo, hi int) int { return int(next("int", name).V) }

// Str is a string of lo..hi bytes drawn from class ("" = printable ASCII).
func Str(name string, lo, hi int, class string) string { return next("str", name).S }

// Choose forks the run over 0..n-1.
func Choose(name string, n int) int { return int(next("choose", name).V) }

// Param is a bound set by the driver.
func Param(name string, def int) int { return int(next("param", name).V) }

// Assume drops the runs on which ok is false.
func Assume(ok bool) {
	if !ok {
		finish("assume", "")
	}
}

// Assert reports a violation if ok can be false.
func Assert(ok bool, label string) {
	if !ok {
		finish("violation", label)
	}
}

func Fail(label string) { finish("violation", label) }

// Cover marks a point that some run must reach.
func Cover(label string) {}

// Observe records a value; native and symbolic runs must agree on it.
func Observe(name string, v interface{}) { observe(name, v) }

// Pack makes an Any holding the encoding of msg under the given type URL.
func Pack(url string, msg proto.Message) *anypb.Any {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(msg)
	if err != nil {
		panic(err)
	}
	return &anypb.Any{TypeUrl: url, Value: b}
}

// Corrupt makes an Any whose value decodes as no message.
func Corrupt(url string) *anypb.Any {
	return &anypb.Any{TypeUrl: url, Value: []byte{0xff, 0xff, 0xff}}
}

// Explore lets the scheduler be adversarial from here on: up to preempt
// preemptions and anytime early timer firings.
func Explore(preempt, anytime int) { setExplore(preempt, anytime) }

// Delay is Explore with the budget counted in delays: each step not taken by
// the goroutine next in round-robin order costs one per goroutine skipped.
func Delay(delays, anytime int) { setExplore(delays, anytime) }

// Stop ends adversarial scheduling.
func Stop() { stopExplore() }

// Race turns on data-race detection.
func Race() {}

// Settle waits until no other goroutine can run without time passing.
func Settle() { settle() }

// Skew moves the clock that time.Now reads forward, without firing timers.
func Skew(d int64) { vrand.Skew(d) }

// MapOrder makes the iteration order of maps in repository code a choice.
func MapOrder(on bool) {}

// SetDraw fixes the value random draws are made from (modulo their domain);
// a floating-point draw is the middle of cell v of grid equal cells.
func SetDraw(v, grid uint64) { vrand.Fixed, vrand.V, vrand.Grid = true, v, grid }
func ClearDraw()             { vrand.Fixed = false }

// DrawN is the domain size of the last draw (0: floating point), Draws their
// number.
func DrawN() uint64 { return vrand.N }
func Draws() int    { return vrand.Count }
func ResetDraws()   { vrand.Count, vrand.N = 0, 0 }

// SetADS installs what aggregateddiscoveryservice.NewClient returns.
func SetADS(f func() (ads.Client, error)) { ads.VerifNewClient = f }

// Symbolic tells whether the symbolic engine is running.
func Symbolic() bool { return false }

// Conc makes a value concrete by forking over its values.
func Conc(v int) int { return v }

// Ite, And, Or, Iff are evaluated without forking.
func Ite(c bool, x, y int) int {
	if c {
		return x
	}
	return y
}
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Iff(a, b bool) bool { return a == b }

func Debug(v interface{}) {}
