#!/bin/sh
# Development aid: vet the harness.
cd "$(dirname "$0")" && . ./env.sh && gofmt -l props amf0 && go vet -stdmethods=false -overlay overlay.json ./props
