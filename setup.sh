#!/bin/bash
# Builds the analyser from the committed sources, offline.
set -e
cd "$(dirname "$0")/checker"
. ./env.sh
mkdir -p ../bin ../evidence
GOFLAGS=-mod=vendor go build -o ../bin/deckardcheck .
