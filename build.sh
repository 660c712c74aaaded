#!/bin/bash
# builds the verifier from the committed sources (nothing to do when up to date)
cd "$(dirname "$0")" || exit 3
. ./env.sh
if [ -x bin/gover ] && [ -z "$(find gover -name '*.go' -newer bin/gover -print -quit)" ]; then exit 0; fi
mkdir -p bin && cd gover && go build -o ../bin/gover . 
