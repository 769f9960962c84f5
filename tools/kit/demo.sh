#!/bin/bash
# Runs demo_test.go against /repo's current tree: exit 0 if the property holds.
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
cd /repo || exit 2
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
A=/repo/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice
# the control plane is in memory: NewClient is replaced in a build overlay only
sed 's/^func NewClient(/func realNewClient(/' $A/client.go > "$T/client.go"
cat > "$T/hook.go" <<'G'
package aggregateddiscoveryservice

import client "github.com/cloudwego/kitex/client"

var DemoNewClient func() (Client, error)

func NewClient(destService string, opts ...client.Option) (Client, error) {
	if DemoNewClient != nil {
		return DemoNewClient()
	}
	return realNewClient(destService, opts...)
}
G
cat > "$T/o.json" <<G
{"Replace": {"$A/client.go": "$T/client.go", "$A/zz_hook.go": "$T/hook.go",
"/repo/zzdemo/kit_test.go": "$D/kit_test.go", "/repo/zzdemo/demo_test.go": "$D/demo_test.go"}}
G
race=""
[ -e "$D/race" ] && race="-race"
go test $race -overlay "$T/o.json" -vet=off -c -o "$T/demo" ./zzdemo || exit 3
cd "$T" && ./demo -test.v -test.timeout 240s -test.run '^TestDemo'
