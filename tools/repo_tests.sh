#!/bin/bash
# Run all of /repo's own tests, those of the packages that need amf0 included,
# with the stand-in for amf0. Development aid; no check uses it.
. "$(dirname "$0")/../harness/env.sh"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cat > $T/go.mod <<EOM
module github.com/WatchBeam/rtmp

go 1.27

require (
	github.com/WatchBeam/amf0 v0.0.0
	github.com/stretchr/testify v1.12.1
)

require (
	github.com/stretchr/objx v0.5.3 // indirect
	go.yaml.in/yaml/v3 v3.0.5 // indirect
)

replace github.com/WatchBeam/amf0 => $(realpath $(dirname "$0")/../harness/amf0)
EOM
R=${REPO:-/repo}
cp /opt/vp/mod/go.sum $T/go.sum
echo "{\"Replace\":{\"$R/go.mod\":\"$T/go.mod\",\"$R/go.sum\":\"$T/go.sum\"}}" > $T/o.json
cd $R && go test -vet=off -timeout 60s -overlay $T/o.json "${@:-./...}"
