#!/bin/bash
# Builds the engine and warms the build cache.
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p .build evidence
( cd engine && go build -mod=vendor -o ../.build/engine . )
