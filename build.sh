#!/bin/bash
# Builds the verifier from the committed sources.
set -e
. /opt/vp/env.sh
cd "$(dirname "$0")/govc"
mkdir -p ../bin
go build -o ../bin/govc .
