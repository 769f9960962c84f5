package run

import (
	"encoding/json"
	"os"
	"testing"
	"testing/synctest"

	"github.com/kitex-contrib/xds/zzverif/h"
	"github.com/kitex-contrib/xds/zzverif/vsym"
)

var _ = h.C01_LDS

func TestReplay(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY_CASE"))
	if err != nil {
		t.Fatal(err)
	}
	var c vsym.Case
	if err := json.Unmarshal(b, &c); err != nil {
		t.Fatal(err)
	}
	f := harnesses[c.Harness]
	if f == nil {
		t.Fatal("no harness " + c.Harness)
	}
	vsym.SettleFn = synctest.Wait
	synctest.Test(t, func(t *testing.T) {
		vsym.Begin(c, os.Getenv("VERIF_REPLAY_OUT"))
		f()
		vsym.Finish("ok", "")
	})
}
