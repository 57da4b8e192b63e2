#!/bin/sh
# writes spec/grammar.json, the fluent interface that CypherWalk explores, as /repo declares it
cd "$(dirname "$0")/../harness" && GOFLAGS=-mod=mod GOPROXY=off go run . grammar -out ../spec/grammar.json
