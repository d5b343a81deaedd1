#!/bin/bash
# builds the verifier from the committed sources (offline)
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin
(cd govc && go build -o ../bin/govc.new . && mv ../bin/govc.new ../bin/govc)
