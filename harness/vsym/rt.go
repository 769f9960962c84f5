package vsym

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"sync"
	"time"

	"github.com/kitex-contrib/xds/zzverif/vrand"
)

// Input is one input of the recorded run; they are consumed by kind and name.
type Input struct {
	K string `json:"k"`
	N string `json:"n"`
	V uint64 `json:"v"`
	S string `json:"s"`
}

// Case is the run to repeat.
type Case struct {
	Harness string             `json:"harness"`
	Inputs  []Input            `json:"inputs"`
	Parks   map[string][]int64 `json:"parks"`
	Seed    int64              `json:"seed"`
}

var (
	imu    sync.Mutex
	queues = map[string][]Input{}
	obs    []string
	outF   string

	SettleFn func()
)

// Begin loads the case; results go to out.
func Begin(c Case, out string) {
	outF = out
	for _, i := range c.Inputs {
		queues[i.K+" "+i.N] = append(queues[i.K+" "+i.N], i)
	}
	if len(c.Parks) > 0 {
		rng := rand.New(rand.NewSource(c.Seed))
		vrand.Roll = rng.Intn
		vrand.Parks = map[string][]time.Duration{}
		for at, ds := range c.Parks {
			for _, d := range ds {
				vrand.Parks[at] = append(vrand.Parks[at], time.Duration(d))
			}
		}
	}
	vrand.Next = func(name string) uint64 { return next("draw", name).V }
}

func next(kind, name string) Input {
	imu.Lock()
	q := queues[kind+" "+name]
	if len(q) > 0 {
		queues[kind+" "+name] = q[1:]
		imu.Unlock()
		return q[0]
	}
	imu.Unlock()
	finish("diverged", kind+" "+name+" asked for more often than in the recorded run")
	return Input{}
}

var once sync.Mutex

// Finish reports the outcome and ends the process.
func Finish(status, label string) { finish(status, label) }

func finish(status, label string) {
	once.Lock()
	imu.Lock()
	b, _ := json.Marshal(map[string]interface{}{"status": status, "label": label, "obs": obs})
	os.WriteFile(outF, b, 0o644)
	os.Exit(0)
}

func observe(name string, v interface{}) {
	imu.Lock()
	defer imu.Unlock()
	obs = append(obs, name+"="+render(v))
}

func render(v interface{}) string {
	if v == nil {
		return "nil"
	}
	x := reflect.ValueOf(v)
	switch x.Kind() {
	case reflect.String:
		return strconv.Quote(x.String())
	case reflect.Bool:
		return strconv.FormatBool(x.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(x.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(x.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		if math.IsNaN(x.Float()) {
			return "NaN"
		}
		return strconv.FormatFloat(x.Float(), 'g', -1, 64)
	}
	return "?"
}

func setExplore(preempt, anytime int) {}
func stopExplore()                    {}
func settle() {
	SettleFn()
	for vrand.Parked() > 0 {
		time.Sleep(1)
		SettleFn()
	}
}

var _ = fmt.Sprint
